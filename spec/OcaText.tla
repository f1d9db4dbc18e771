------------------------------ MODULE OcaText ------------------------------
(* The OCAFILE language: what a text says.  A reader over characters that    *)
(* follows the language, not the library: File(t) is                         *)
(*   st    "ok", "bad" (not a file of the language) or "open" (the language  *)
(*         description does not settle it, nothing is required)              *)
(*   cmds  the commands, in order      at   where each of them starts/ends   *)
(*   meta  the file's meta data                                              *)
(* A position p = 0 in a result means: not here.                             *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, OcaRule

Chars(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}
Upper26 == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower26 == "abcdefghijklmnopqrstuvwxyz"
Alpha == Chars(Upper26) \cup Chars(Lower26)
Digit == Chars("0123456789")
Known == {"ą", "é", "漢", "日", "本", "ñ", "Ω", "ß"}      \* letters outside ASCII the description is used with
Bare == Alpha \cup Digit \cup Chars(".-_/:") \cup Known
Ascii == Alpha \cup Digit \cup Chars(" !\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~") \cup {"\t", "\n", "\r"}
KeyChar == Alpha \cup Digit \cup Chars("-_.")
PropChar == Alpha \cup Digit \cup Chars("-_")
WordChar == Alpha \cup {"_"}
B64 == Alpha \cup Digit \cup Chars("-_")
Ws == {" ", "\t"}
ToUp == [c \in Chars(Lower26) |-> CHOOSE u \in Chars(Upper26) : \E i \in 1..26 : SubSeq(Lower26, i, i) = c /\ SubSeq(Upper26, i, i) = u]
ToLow == [c \in Chars(Upper26) |-> CHOOSE u \in Chars(Lower26) : \E i \in 1..26 : SubSeq(Upper26, i, i) = c /\ SubSeq(Lower26, i, i) = u]

At(t, p) == IF p < 1 \/ p > Len(t) THEN "" ELSE SubSeq(t, p, p)
Cut(t, p, q) == SubSeq(t, p, q - 1)
RECURSIVE MapStr(_, _, _, _)
MapStr(s, i, f, acc) == IF i > Len(s) THEN acc ELSE LET ch == SubSeq(s, i, i) IN MapStr(s, i + 1, f, acc \o (IF ch \in DOMAIN f THEN f[ch] ELSE ch))
UpperOf(s) == MapStr(s, 1, ToUp, "")
LowerOf(s) == MapStr(s, 1, ToLow, "")
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
\* first position from p on whose character is outside / inside S (end of text + 1 if none)
RECURSIVE Span(_, _, _), Scan(_, _, _)
Span(t, p, S) ==
    LET e == IF p + 15 < Len(t) THEN p + 15 ELSE Len(t)
        w == {i \in p..e : SubSeq(t, i, i) \notin S}
    IN IF w # {} THEN Least(w) ELSE IF e >= Len(t) THEN (IF p > Len(t) THEN p ELSE Len(t) + 1) ELSE Span(t, e + 1, S)
Scan(t, p, S) ==
    LET e == IF p + 15 < Len(t) THEN p + 15 ELSE Len(t)
        w == {i \in p..e : SubSeq(t, i, i) \in S}
    IN IF w # {} THEN Least(w) ELSE IF e >= Len(t) THEN (IF p > Len(t) THEN p ELSE Len(t) + 1) ELSE Scan(t, e + 1, S)
Nl(t, p) == IF At(t, p) = "\n" THEN 1 ELSE IF At(t, p) = "\r" THEN (IF At(t, p + 1) = "\n" THEN 2 ELSE 1) ELSE 0
LineEnd(t, p) == Scan(t, p, {"\n", "\r"})

No == [p |-> 0, v |-> ""]
Unsure == [p |-> 0, v |-> "?"]
Open(r) == r.p = 0 /\ r.v = "?"
Yes(p, v) == [p |-> p, v |-> v]

\* --- space between arguments: blanks, and continuations with comments and blank lines after them
Breaks(t, p) == At(t, p) = "\\" /\ Nl(t, Span(t, p + 1, Ws)) > 0
RECURSIVE Skipped(_, _), Gap(_, _)
Skipped(t, p) ==
    LET q == Span(t, p, Ws) IN
    IF At(t, q) = "#" THEN LET e == LineEnd(t, q) IN Skipped(t, e + Nl(t, e))
    ELSE IF Nl(t, q) > 0 THEN Skipped(t, q + Nl(t, q))
    ELSE p
Gap(t, p) ==
    LET q == Span(t, p, Ws) IN
    IF Breaks(t, q) THEN LET n == Span(t, q + 1, Ws) IN Gap(t, Skipped(t, n + Nl(t, n))) ELSE q
GapOrNl(t, p) == LET g == Gap(t, p) IN IF g > p THEN g ELSE p + Nl(t, p)

\* --- values
RECURSIVE StrEnd(_, _, _)
StrEnd(t, p, q) ==      \* position of the closing quote, 0 if there is none
    LET i == Scan(t, p, {q, "\\"}) IN
    IF i > Len(t) THEN 0
    ELSE IF At(t, i) = q THEN i
    ELSE StrEnd(t, IF At(t, i + 1) \in {"b", "t", "n", "f", "r", "\"", "'", "\\"} THEN i + 2 ELSE i + 1, q)
Str(t, p) ==
    IF At(t, p) \notin {"\"", "'"} THEN No
    ELSE LET e == StrEnd(t, p + 1, At(t, p)) IN IF e = 0 THEN No ELSE Yes(e + 1, Cut(t, p + 1, e))
BareEnd(t, p) == Span(t, p, Bare)
BareVal(t, p) ==
    LET e == BareEnd(t, p) IN
    IF e <= Len(t) /\ At(t, e) \notin Ascii THEN Unsure ELSE IF e = p THEN No ELSE Yes(e, Cut(t, p, e))
Val(t, p) == LET s == Str(t, p) IN IF s.p > 0 THEN s ELSE BareVal(t, p)
RECURSIVE UnitEnd(_, _)
UnitEnd(t, p) ==
    LET i == Scan(t, p, {" ", "\t", "\n", "\r", "\\"}) IN
    IF i <= Len(t) /\ At(t, i) = "\\" /\ ~Breaks(t, i) THEN UnitEnd(t, i + 1) ELSE i
UnitVal(t, p) == LET s == Str(t, p) IN IF s.p > 0 THEN s ELSE LET e == UnitEnd(t, p) IN IF e = p THEN No ELSE Yes(e, Cut(t, p, e))
Blanks(t, p) == Span(t, p, {" "})

\* a mapping in the order of first mention, a later value replacing the earlier one
Put(m, k, v) == IF \E i \in DOMAIN m : m[i][1] = k THEN [i \in DOMAIN m |-> IF m[i][1] = k THEN <<k, v>> ELSE m[i]] ELSE Append(m, <<k, v>>)

\* "x", "y", .. up to the closing bracket
RECURSIVE CodesTail(_, _, _)
CodesTail(t, p, acc) ==
    LET s == Str(t, p) IN
    IF s.p = 0 THEN No
    ELSE IF At(t, s.p) = "]" THEN Yes(s.p + 1, Append(acc, s.v))
    ELSE IF At(t, s.p) = "," THEN CodesTail(t, Blanks(t, s.p + 1), Append(acc, s.v))
    ELSE No
Codes(t, p) == IF At(t, p) # "[" THEN No ELSE IF At(t, p + 1) = "]" THEN Yes(p + 2, <<>>) ELSE CodesTail(t, p + 1, <<>>)
\* {"k": value, ..} of lists or of texts
RECURSIVE ObjTail(_, _, _, _)
ObjTail(t, p, acc, lists) ==
    LET k == Str(t, p)
        v == IF k.p = 0 \/ At(t, k.p) # ":" THEN No ELSE IF lists THEN Codes(t, Blanks(t, k.p + 1)) ELSE Str(t, Blanks(t, k.p + 1))
        n == Blanks(t, v.p)
    IN IF v.p = 0 THEN No
       ELSE IF At(t, v.p) = "," THEN ObjTail(t, Blanks(t, v.p + 1), Put(acc, k.v, v.v), lists)
       ELSE IF At(t, n) = "}" THEN Yes(n + 1, Put(acc, k.v, v.v))
       ELSE No
Obj(t, p, lists) == IF At(t, p) # "{" THEN No ELSE IF At(t, p + 1) = "}" THEN Yes(p + 2, <<>>) ELSE ObjTail(t, Blanks(t, p + 1), <<>>, lists)

\* framing scopes: a JSON object of JSON objects; keys are not case sensitive
RECURSIVE Json(_, _), JsonTail(_, _, _)
Json(t, p) == IF At(t, p) # "{" THEN No ELSE JsonTail(t, p + 1, <<>>)
JsonVal(t, p) ==
    LET s == Str(t, p) IN
    IF s.p > 0 THEN Yes(s.p, [s |-> s.v, o |-> <<>>])
    ELSE LET o == Json(t, p) IN IF o.p = 0 THEN o ELSE Yes(o.p, [s |-> "", o |-> o.v])
JsonPair(t, p) ==
    LET k == Str(t, p)
        c == Gap(t, k.p)
        v == IF k.p = 0 \/ At(t, c) # ":" THEN No ELSE JsonVal(t, GapOrNl(t, c + 1))
        d == Gap(t, v.p)
    IN IF v.p = 0 THEN v
       ELSE IF \E ch \in Chars(k.v) : ch \notin Ascii THEN Unsure
       ELSE Yes(IF At(t, d) = "," THEN GapOrNl(t, d + 1) ELSE v.p, <<LowerOf(k.v), v.v>>)
JsonTail(t, p, acc) ==
    LET r == JsonPair(t, Gap(t, GapOrNl(t, p))) IN
    IF r.p > 0 THEN JsonTail(t, GapOrNl(t, r.p), Put(acc, r.v[1], r.v[2]))
    ELSE IF Open(r) THEN r
    ELSE LET e == Gap(t, p) IN IF acc # <<>> /\ At(t, e) = "}" THEN Yes(e + 1, acc) ELSE No

\* --- attribute types
Bases == <<"Text", "Numeric", "Boolean", "Binary", "DateTime">>
Lit(t, p, s) == SubSeq(t, p, IF p + Len(s) - 1 > Len(t) THEN Len(t) ELSE p + Len(s) - 1) = s
Lit2(t, p, s) == p <= Len(t) /\ Lit(t, p, s)
Word(t, p, s) == p <= Len(t) /\ UpperOf(SubSeq(t, p, IF p + Len(s) - 1 > Len(t) THEN Len(t) ELSE p + Len(s) - 1)) = s
\* an identifier: 44 characters of a digest
\* (the two leading bits of the second one are not part of the digest)
SaidLike(s) == Len(s) = 44 /\ At(s, 1) \in {"E", "F", "G", "H", "I"} /\ Chars(s) \subseteq B64
SaidShape(s) == SaidLike(s) /\ At(s, 2) \in Chars("ABCDEFGHIJKLMNOP")
SaidOpen(s) == (Len(s) > 44 /\ At(s, 1) = "0") \/ (SaidLike(s) /\ ~SaidShape(s))
Ref(t, p) ==       \* refs:identifier or refn:name
    IF Word(t, p, "REFS:") THEN LET b == BareVal(t, p + 5) IN IF b.p = 0 THEN b ELSE Yes(b.p, <<"s", b.v>>)
    ELSE IF Word(t, p, "REFN:") THEN LET b == BareVal(t, p + 5) IN IF b.p = 0 THEN b ELSE Yes(b.p, <<"n", b.v>>)
    ELSE No
MostDeep == 100     \* arrays in arrays
RECURSIVE Type(_, _, _)
Type(t, p, d) ==
    LET bs == {i \in DOMAIN Bases : Lit2(t, p, Bases[i])} IN
    IF bs # {} THEN LET b == Bases[Least(bs)] IN Yes(p + Len(b), <<ToString(d), "v", b>>)
    ELSE IF Lit2(t, p, "Array[") /\ d = MostDeep THEN No
    ELSE IF Lit2(t, p, "Array[") THEN
         LET r == Type(t, Gap(t, p + 6), d + 1) IN
         IF r.p = 0 THEN r ELSE LET e == Gap(t, r.p) IN IF At(t, e) = "]" THEN Yes(e + 1, r.v) ELSE No
    ELSE LET r == Ref(t, p) IN
         IF r.p = 0 THEN r
         ELSE IF r.v[1] = "s" /\ SaidOpen(r.v[2]) THEN Unsure
         ELSE IF r.v[1] = "s" /\ ~SaidShape(r.v[2]) THEN No
         ELSE Yes(r.p, <<ToString(d), r.v[1], r.v[2]>>)

\* --- key=value pairs; how says what the values look like
None == [a |-> "", t |-> "other", v |-> "", toks |-> <<>>, codes |-> <<>>, groups |-> <<>>, entries |-> <<>>, scopes |-> <<>>]
PairVal(t, p, how) ==
    LET text(r) == IF r.p = 0 THEN r ELSE Yes(r.p, [None EXCEPT !.t = "val", !.v = r.v])
        plain == text(Val(t, p))
        codes == Codes(t, p)
        groups == Obj(t, p, TRUE)
        entries == Obj(t, p, FALSE)
        json == Json(t, p)
    IN CASE how \in {"val", "prop"} -> plain
         [] how = "unit" -> text(UnitVal(t, p))
         [] how = "code" -> IF plain.p > 0 \/ Open(plain) THEN plain
                            ELSE IF codes.p > 0 THEN Yes(codes.p, [None EXCEPT !.t = "arr", !.codes = codes.v])
                            ELSE IF groups.p > 0 THEN Yes(groups.p, [None EXCEPT !.t = "grp", !.groups = groups.v]) ELSE No
         [] how = "entry" -> IF plain.p > 0 \/ Open(plain) THEN plain
                             ELSE IF entries.p > 0 THEN Yes(entries.p, [None EXCEPT !.t = "ent", !.entries = entries.v]) ELSE No
         [] OTHER -> IF json.p = 0 THEN json
                     ELSE Yes(json.p, [None EXCEPT !.t = "scopes", !.scopes = [i \in DOMAIN json.v |-> <<json.v[i][1], [j \in DOMAIN json.v[i][2].o |-> <<json.v[i][2].o[j][1], json.v[i][2].o[j][2].s>>]>>]])
OnePair(t, p, how) ==
    LET k == Span(t, p, KeyChar)
        tight == how \in {"code", "entry"}
        e == IF tight THEN k ELSE Gap(t, k)
        v == IF k = p \/ At(t, e) # "=" THEN No ELSE PairVal(t, IF tight THEN e + 1 ELSE Gap(t, e + 1), how)
    IN IF v.p = 0 THEN v ELSE Yes(v.p, <<Cut(t, p, k), v.v>>)
RECURSIVE Pairs(_, _, _, _)
Pairs(t, p, how, acc) ==
    LET g == Gap(t, p)
        r == OnePair(t, g, how)
        l == IF how = "frame" /\ g = p /\ acc # <<>> /\ Nl(t, p) > 0 THEN OnePair(t, Gap(t, p + Nl(t, p)), how) ELSE No
        x == IF r.p > 0 THEN r ELSE l
    IN IF x.p > 0 THEN Pairs(t, x.p, how, Put(acc, x.v[1], x.v[2]))
       ELSE IF Open(r) \/ Open(l) THEN Unsure
       ELSE IF acc = <<>> THEN No
       ELSE Yes(g, acc)
AttrsOf(m) == [i \in DOMAIN m |-> [m[i][2] EXCEPT !.a = m[i][1]]]
PropsOf(m) == [i \in DOMAIN m |-> <<m[i][1], m[i][2].v>>]

\* --- commands
Cmd0 == [k |-> "add", o |-> "CaptureBase", lang |-> "", types |-> <<>>, flagged |-> <<>>, tr |-> "", tgt |-> "", frame |-> "", props |-> <<>>, said |-> "", attrs |-> <<>>]
\* a keyword and the space after it
KwGap(t, p, w) == IF Word(t, p, w) /\ Gap(t, p + Len(w)) > p + Len(w) THEN Gap(t, p + Len(w)) ELSE 0
Lang(t, p) ==
    LET two(i) == At(t, i) \in Alpha /\ At(t, i + 1) \in Alpha IN
    IF p = 0 \/ ~two(p) THEN No
    ELSE LET e == IF At(t, p + 2) = "-" /\ two(p + 3) THEN p + 5 ELSE p + 2 IN
         IF Gap(t, e) = e THEN No ELSE Yes(Gap(t, e), Cut(t, p, e))
WithAttrs(t, p, how, c) ==
    LET a == IF p = 0 THEN 0 ELSE KwGap(t, p, "ATTRS")
        m == IF a = 0 THEN No ELSE Pairs(t, a, how, <<>>)
    IN IF m.p = 0 THEN m ELSE Yes(m.p, [c EXCEPT !.attrs = AttrsOf(m.v)])
WithLang(t, p, how, o) == LET l == Lang(t, p) IN IF l.p = 0 THEN No ELSE WithAttrs(t, l.p, how, [Cmd0 EXCEPT !.o = o, !.lang = l.v])
RECURSIVE Types(_, _, _, _)
Types(t, p, acc, twice) ==
    LET g == Gap(t, p)
        k == Span(t, g, KeyChar)
        e == Gap(t, k)
        v == IF g = p \/ k = g \/ At(t, e) # "=" THEN No ELSE Type(t, Gap(t, e + 1), 0)
        n == Cut(t, g, k)
    IN IF v.p > 0 THEN Types(t, v.p, Put(acc, n, v.v), twice \/ \E i \in DOMAIN acc : acc[i][1] = n)
       ELSE IF Open(v) \/ (twice /\ acc # <<>>) THEN Unsure
       ELSE IF acc = <<>> THEN No
       ELSE Yes(p, [Cmd0 EXCEPT !.types = [i \in DOMAIN acc |-> <<acc[i][1], acc[i][2][1], acc[i][2][2], acc[i][2][3]>>]])
RECURSIVE Flags(_, _, _)
Flags(t, p, acc) ==
    LET g == Gap(t, p)
        v == Val(t, g)
    IN IF v.p > 0 THEN Flags(t, v.p, Append(acc, v.v)) ELSE IF Open(v) THEN v ELSE IF acc = <<>> THEN No ELSE Yes(g, [Cmd0 EXCEPT !.flagged = acc])
RECURSIVE Names(_, _, _)
Names(t, p, acc) ==
    LET g == Gap(t, p)
        k == Span(t, g, KeyChar)
    IN IF g = p \/ k = g THEN Yes(p, [Cmd0 EXCEPT !.k = "remove", !.types = [i \in DOMAIN acc |-> <<acc[i][1], "0", "null", "">>]])
       ELSE Names(t, k, Put(acc, Cut(t, g, k), ""))
RECURSIVE FrameMeta(_, _, _)
FrameMeta(t, p, acc) ==
    LET k == Span(t, p, Alpha)
        e == Gap(t, k)
        v == IF Cut(t, p, k) \notin {"id", "label", "location", "version"} \/ At(t, e) # "=" THEN No ELSE Val(t, Gap(t, e + 1))
        g == Gap(t, v.p)
        more == IF v.p > 0 /\ g > v.p THEN FrameMeta(t, g, Put(acc, Cut(t, p, k), v.v)) ELSE No
    IN IF v.p = 0 THEN v
       ELSE IF more.p > 0 \/ Open(more) THEN more
       ELSE IF g = v.p THEN No
       ELSE Yes(g, Put(acc, Cut(t, p, k), v.v))
ValueOf(m, k) == IF \E i \in DOMAIN m : m[i][1] = k THEN m[CHOOSE i \in DOMAIN m : m[i][1] = k][2] ELSE ""
Without(m, k) == SelectSeq(m, LAMBDA x : x[1] # k)

AddCmd(t, p) ==
    LET w == UpperOf(Cut(t, p, Span(t, p, WordChar)))
        g == KwGap(t, p, w)
        over(o, how) == WithAttrs(t, g, how, [Cmd0 EXCEPT !.o = o])
        meta == LET l == Lang(t, g)
                    q == IF l.p = 0 THEN 0 ELSE KwGap(t, l.p, "PROPS")
                    m == IF q = 0 THEN No ELSE Pairs(t, q, "prop", <<>>)
                IN IF m.p = 0 THEN m
                   ELSE Yes(m.p, [Cmd0 EXCEPT !.o = "Meta", !.lang = IF ValueOf(PropsOf(m.v), "lang") # "" THEN ValueOf(PropsOf(m.v), "lang") ELSE l.v,
                                              !.props = Without(PropsOf(m.v), "lang")])
        encoding == LET a == over("CharacterEncoding", "val")
                        q == KwGap(t, g, "PROPS")
                        m == IF q = 0 THEN No ELSE Pairs(t, q, "prop", <<>>)
                    IN IF a.p > 0 \/ q = 0 THEN a ELSE IF m.p = 0 THEN m ELSE Yes(m.p, [Cmd0 EXCEPT !.o = "CharacterEncoding", !.props = PropsOf(m.v)])
        link == LET r == Ref(t, g) IN
                IF r.p = 0 THEN r
                ELSE IF Gap(t, r.p) = r.p THEN No
                ELSE IF r.v[1] = "s" /\ ~SaidShape(r.v[2]) THEN Unsure
                ELSE WithAttrs(t, Gap(t, r.p), "val", [Cmd0 EXCEPT !.o = "Link", !.tr = r.v[1], !.tgt = r.v[2]])
        framing == LET m == FrameMeta(t, g, <<>>) IN
                   IF m.p = 0 THEN m
                   ELSE WithAttrs(t, m.p, "frame", [Cmd0 EXCEPT !.o = "AttributeFraming", !.frame = ValueOf(m.v, "id"), !.props = Without(m.v, "id")])
    IN IF g = 0 THEN No
       ELSE CASE w = "META" -> meta
              [] w = "LABEL" -> WithLang(t, g, "val", "Label")
              [] w = "INFORMATION" -> WithLang(t, g, "val", "Information")
              [] w = "ENTRY" -> WithLang(t, g, "entry", "Entry")
              [] w = "ATTRIBUTE" -> Types(t, p + 9, <<>>, FALSE)
              [] w = "CLASSIFICATION" -> LET v == Val(t, g) IN IF v.p = 0 THEN v ELSE Yes(v.p, [Cmd0 EXCEPT !.props = <<<<"classification", v.v>>>>])
              [] w = "FLAGGED_ATTRIBUTES" -> Flags(t, g, <<>>)
              [] w = "UNIT" -> over("Unit", "unit")
              [] w = "CHARACTER_ENCODING" -> encoding
              [] w = "FORMAT" -> over("Format", "val")
              [] w = "CONFORMANCE" -> over("Conformance", "val")
              [] w = "CONDITION" -> over("Conditional", "val")
              [] w = "CARDINALITY" -> over("Cardinality", "val")
              [] w = "ENTRY_CODE" -> over("EntryCode", "code")
              [] w = "LINK" -> link
              [] w = "ATTR_FRAMING" -> framing
              [] OTHER -> No

RemoveCmd(t, p) ==
    LET w == UpperOf(Cut(t, p, Span(t, p, WordChar)))
        g == KwGap(t, p, w)
        \* the language stands at the end or is followed by what to remove of it
        two(i) == At(t, i) \in Alpha /\ At(t, i + 1) \in Alpha
        e == IF At(t, g + 2) = "-" /\ two(g + 3) THEN g + 5 ELSE g + 2
        c == [Cmd0 EXCEPT !.k = "remove", !.lang = Cut(t, g, e)]
        h == Gap(t, e)
        part(key, set) == LET q == IF h > e THEN KwGap(t, h, key) ELSE 0
                              k == Span(t, q, set)
                          IN IF q = 0 \/ k = q THEN No ELSE Yes(k, Cut(t, q, k))
        mp == part("PROPS", PropChar)
        lp == part("ATTRS", KeyChar)
    IN CASE w = "CLASSIFICATION" -> Yes(p + 14, [Cmd0 EXCEPT !.k = "remove", !.props = <<<<"classification", "">>>>])
         [] w = "ATTRIBUTE" -> Names(t, p + 9, <<>>)
         [] w = "META" /\ g > 0 /\ two(g) -> IF mp.p > 0 THEN Yes(mp.p, [c EXCEPT !.o = "Meta", !.props = IF mp.v = "lang" THEN <<>> ELSE <<<<mp.v, "">>>>, !.lang = IF mp.v = "lang" THEN "" ELSE @])
                                             ELSE Yes(e, [c EXCEPT !.o = "Meta"])
         [] w = "LABEL" /\ g > 0 /\ two(g) -> IF lp.p > 0 THEN Yes(lp.p, [c EXCEPT !.o = "Label", !.attrs = <<[None EXCEPT !.a = lp.v, !.t = "val"]>>])
                                              ELSE Yes(e, [c EXCEPT !.o = "Label"])
         [] OTHER -> No

FromCmd(t, p) ==
    LET b == BareVal(t, Span(t, p, Ws)) IN
    IF b.p = 0 THEN b
    ELSE IF SaidOpen(b.v) THEN Unsure
    ELSE IF SaidShape(b.v) THEN Yes(b.p, [Cmd0 EXCEPT !.k = "from", !.o = "OCABundle", !.said = b.v])
    ELSE No

Command(t, p) ==
    CASE Word(t, p, "FROM") -> FromCmd(t, p + 4)
      [] Word(t, p, "ADD") -> AddCmd(t, Gap(t, p + 3))
      [] Word(t, p, "REMOVE") -> RemoveCmd(t, Gap(t, p + 6))
      [] OTHER -> No

\* --- the file: lines of meta data, comments, blank lines and commands
\* --- commands of a transformation file
TPair(t, p, sep) ==
    LET k == Span(t, p, PropChar)
        e == Gap(t, k)
        v == Gap(t, e + Len(sep))
        z == Span(t, v, PropChar)
    IN IF k = p THEN No
       ELSE IF sep = "->" /\ At(t, k - 1) = "-" /\ At(t, e) = ">" THEN Unsure
       ELSE IF ~Lit2(t, e, sep) \/ z = v THEN No
       ELSE Yes(z, <<Cut(t, p, k), Cut(t, v, z)>>)
RECURSIVE TPairs(_, _, _, _)
TPairs(t, p, sep, acc) ==
    LET g == Gap(t, p)
        r == IF g = p THEN No ELSE TPair(t, g, sep)
    IN IF r.p > 0 THEN TPairs(t, r.p, sep, Put(acc, r.v[1], r.v[2]))
       ELSE IF Open(r) THEN r
       ELSE IF acc = <<>> THEN No
       ELSE Yes(p, acc)
TCommand(t, p) ==
    LET w == IF Word(t, p, "RENAME") THEN "RENAME" ELSE IF Word(t, p, "LINK") THEN "LINK" ELSE ""
        g == Gap(t, p + Len(w))
        m == IF w = "" \/ ~Word(t, g, "ATTRIBUTE") THEN No ELSE TPairs(t, g + 9, IF w = "LINK" THEN "->" ELSE "=", <<>>)
    IN IF m.p = 0 THEN m ELSE IF g = p + Len(w) THEN Unsure ELSE Yes(m.p, [k |-> LowerOf(w), attrs |-> m.v])
AnyCommand(t, p, kind) == IF kind = "transformation" THEN TCommand(t, p) ELSE Command(t, p)

MetaKeys == {"name", "version", "precompiler"}
MetaLine(t, p, kind) ==
    LET s == Span(t, p, Ws)
        k == Span(t, s, Alpha)
        e == Gap(t, k)
        v == IF At(t, e) # "=" THEN No ELSE Val(t, Gap(t, e + 1))
        key == Cut(t, s, k)
    IN IF key \in {"source", "target"} /\ kind = "semantics" THEN Unsure
       ELSE IF key \notin MetaKeys \cup {"source", "target"} \/ v.p = 0 THEN (IF Open(v) THEN v ELSE No)
       ELSE IF v.v = "" THEN No
       ELSE IF At(t, v.p) \in Alpha THEN Unsure
       ELSE Yes(v.p, <<key, v.v>>)
Newlines(t, p, q) == Cardinality({i \in p..(q - 1) : At(t, i) = "\n"})
RECURSIVE Lines(_, _, _)
Lines(t, p, acc) ==
    LET q == Span(t, p, Ws)
        stop(st) == [acc EXCEPT !.st = st, !.stop = q]
    IN IF q > Len(t) THEN (IF q > p THEN stop("open") ELSE acc)
       ELSE IF Nl(t, q) > 0 THEN Lines(t, q + Nl(t, q), acc)
       ELSE IF At(t, q) = "-" /\ At(t, q + 1) = "-" THEN
            LET m == MetaLine(t, q + 2, acc.kind) IN
            IF Open(m) THEN stop("open") ELSE IF m.p = 0 THEN stop("bad")
            ELSE Lines(t, m.p + Nl(t, m.p), [acc EXCEPT !.meta = Put(@, m.v[1], m.v[2])])
       ELSE IF At(t, q) = "#" THEN LET e == LineEnd(t, q) IN Lines(t, e + Nl(t, e), acc)
       ELSE IF q > p THEN stop(IF AnyCommand(t, q, acc.kind).p > 0 THEN "open" ELSE "bad")
       ELSE LET c == AnyCommand(t, p, acc.kind) IN
            IF Open(c) THEN stop("open") ELSE IF c.p = 0 THEN stop("bad")
            ELSE LET n == acc.line + Newlines(t, acc.from, p) IN
                 Lines(t, c.p + Nl(t, c.p), [acc EXCEPT !.cmds = Append(@, c.v), !.at = Append(@, [p |-> p, e |-> c.p, line |-> n]), !.line = n, !.from = p])
ReadAs(t, kind) == Lines(t, 1, [kind |-> kind, st |-> "ok", cmds |-> <<>>, at |-> <<>>, meta |-> <<>>, line |-> 1, from |-> 1, stop |-> 0])
Read(t) == ReadAs(t, "semantics")
KindOf(r) == IF \E i \in DOMAIN r.meta : r.meta[i][1] = "precompiler" THEN r.meta[CHOOSE i \in DOMAIN r.meta : r.meta[i][1] = "precompiler"][2] ELSE "semantics"
\* what kind of file it is, and whether its commands go together
File(t) ==
    LET r == Read(t)
        kind == KindOf(r)
    IN IF r.st # "ok" THEN r
       ELSE IF kind = "transformation" THEN [r EXCEPT !.st = "open"]
       ELSE IF kind # "semantics" THEN [r EXCEPT !.st = "bad"]
       ELSE IF RuleBad(r.cmds) # 0 THEN [r EXCEPT !.st = "rule"]
       ELSE r
=============================================================================
