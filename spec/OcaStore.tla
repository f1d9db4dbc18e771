------------------------------ MODULE OcaStore ------------------------------
(* The library as a store of bundles.                                        *)
(*                                                                           *)
(* State (a record, so that the same transitions serve the exhaustive model  *)
(* and the validation of recorded traces):                                   *)
(*   hist   content -> [root, parent, cmd]  how each stored content was      *)
(*          first reached (a content is stored exactly when it is in hist)   *)
(*   built  sequence of the contents that were the result of a build, in the *)
(*          order in which they were first built                             *)
(*   cbs    sequence of the capture bases of those, likewise                 *)
(*   refs   local name -> content it was last given to                       *)
(* Everything a query answers (listings, search, relations, objects,         *)
(* dependencies, history) is derived from it.                                *)
(* Identifiers stand outside: SaidOf maps a content to its identifier.       *)
EXTENDS OcaContent, OcaRule
CONSTANTS SaidOf(_, _)      \* SaidOf(table, content)

Empty == [hist |-> <<>>, built |-> <<>>, cbs |-> <<>>, refs |-> <<>>]
Stored(st) == DOMAIN st.hist
SeqHas(s, x) == \E i \in DOMAIN s : s[i] = x
AddOnce(s, x) == IF SeqHas(s, x) THEN s ELSE Append(s, x)

--------------------------------------------------------------------------
(* local names in commands *)
NamesIn(c) == {c.types[i][4] : i \in {j \in DOMAIN c.types : c.types[j][3] = "n"}} \cup (IF c.tr = "n" THEN {c.tgt} ELSE {})
FileNames(cmds) == UNION {NamesIn(cmds[i]) : i \in DOMAIN cmds}
\* env : name -> identifier
ResolveCmd(c, env) ==
    [c EXCEPT !.types = [i \in DOMAIN c.types |-> IF c.types[i][3] = "n" THEN <<c.types[i][1], c.types[i][2], "s", env[c.types[i][4]]>> ELSE c.types[i]],
              !.tr = IF c.tr = "n" THEN "s" ELSE c.tr,
              !.tgt = IF c.tr = "n" THEN env[c.tgt] ELSE c.tgt]
Resolve(cmds, env) == [i \in DOMAIN cmds |-> ResolveCmd(cmds[i], env)]
EnvOf(st, table) == [n \in DOMAIN st.refs |-> SaidOf(table, st.refs[n])]

--------------------------------------------------------------------------
(* what building a file comes to, before anything is stored.                 *)
(* file = [based, base, cmds, name]; kind of outcome:                        *)
(*   "rule"  the file adds or removes an attribute it may not                *)
(*   "base"  it extends a bundle that is not stored                          *)
(*   "refn"  it uses a name nobody registered                                *)
(*   "faulty" some commands cannot be applied   "none" nothing to build      *)
(*   "ok"                                                                    *)
Outcome(st, file, env) ==
    LET unknown == FileNames(file.cmds) \ DOMAIN env IN
    IF RuleBad(file.cmds) # 0 THEN [kind |-> "rule"]
    ELSE IF file.based /\ file.base \notin Stored(st) THEN [kind |-> "base"]
    ELSE IF unknown # {} THEN [kind |-> "refn", names |-> unknown]
    ELSE IF file.cmds = <<>> /\ ~file.based THEN [kind |-> "none"]
    ELSE LET cmds == Resolve(file.cmds, env)
             r == Fold(IF file.based THEN file.base ELSE {}, cmds)
         IN IF r.bad # <<>> THEN [kind |-> "faulty", bad |-> r.bad]
            ELSE [kind |-> "ok", cmds |-> cmds, cur |-> r.cur, steps |-> r.steps]

\* one step of a build: the history of a content is written once
Record(hist, root, parent, cmd, result) ==
    IF result \in DOMAIN hist \/ (~root /\ result = parent) THEN hist
    ELSE (result :> [root |-> root, parent |-> parent, cmd |-> cmd]) @@ hist

StoreSteps(st, file, out) ==
    LET h == FoldLeft(LAMBDA acc, G :
                 [hist |-> Record(acc.hist, acc.root, acc.prev, out.cmds[acc.i], G), prev |-> G, root |-> FALSE, i |-> acc.i + 1],
                 [hist |-> st.hist, prev |-> IF file.based THEN file.base ELSE {}, root |-> ~file.based, i |-> 1], out.steps)
    IN h.hist
\* storing a build
Store(st, file, out) ==
    [st EXCEPT !.hist = StoreSteps(st, file, out),
               !.built = AddOnce(@, out.cur),
               !.cbs = AddOnce(@, CbFacts(out.cur))]
Name(st, file, out) == IF file.name = "" THEN st ELSE [st EXCEPT !.refs = (file.name :> out.cur) @@ @]

--------------------------------------------------------------------------
(* queries *)
\* the recorded history of a stored content, first command first; empty if it
\* is broken or endless
RECURSIVE ChainBack(_, _, _)
ChainBack(hist, c, fuel) ==
    IF fuel = 0 \/ c \notin DOMAIN hist THEN <<>>
    ELSE LET h == hist[c]
             before == IF h.root THEN <<>> ELSE ChainBack(hist, h.parent, fuel - 1)
         IN IF ~h.root /\ before = <<>> THEN <<>> ELSE Append(before, [cmd |-> h.cmd, result |-> c])
History(st, c) == ChainBack(st.hist, c, Cardinality(DOMAIN st.hist) + 1)

RefSaids(F) == {f[5] : f \in {g \in F : g[1] = "attr" /\ g[4] = "s"}}
\* contents reachable through attribute references; "missing" tells a dangling one
RECURSIVE Closure(_, _, _, _)
Closure(st, table, todo, seen) ==
    IF todo = {} THEN [seen |-> seen, missing |-> FALSE]
    ELSE LET c == CHOOSE x \in todo : TRUE
             saids == RefSaids(c)
             known == {d \in Stored(st) : SaidOf(table, d) \in saids}
         IN IF Cardinality(known) < Cardinality(saids) THEN [seen |-> seen, missing |-> TRUE]
            ELSE Closure(st, table, (todo \cup known) \ (seen \cup {c}), seen \cup {c})
Deps(st, table, c) == LET r == Closure(st, table, {c}, {}) IN [r EXCEPT !.seen = @ \ {c}]

\* relations of an object: which built bundles, capture bases and overlays it goes with
BuiltSet(st) == Rng(st.built)
ObjectsOf(F) == {Identity(F, k) : k \in Keys(F)}
CbId(F) == Identity(F, <<"cb", "">>)
Holders(st, id) == {F \in BuiltSet(st) : id \in ObjectsOf(F)}

--------------------------------------------------------------------------
(* search: every word of three characters or more is found in the name or in *)
(* the description of one language, in any case of letters                   *)
Up == "ABCDEFGHIJKLMNOPQRSTUVWXYZŻÓŁÉ"
Dn == "abcdefghijklmnopqrstuvwxyzżółé"
Ch(s, i) == SubSeq(s, i, i)
LowerMap == [x \in {Ch(Up, i) : i \in 1..Len(Up)} |-> Ch(Dn, CHOOSE i \in 1..Len(Up) : Ch(Up, i) = x)]
LowerCh(x) == IF x \in DOMAIN LowerMap THEN LowerMap[x] ELSE x
Lower(s) == FoldLeft(LAMBDA acc, i : acc \o LowerCh(Ch(s, i)), "", [i \in 1..Len(s) |-> i])
Blank == {" ", "\t", "\n", "\r", "\f"}
Words(q) == LET r == FoldLeft(LAMBDA acc, i : IF Ch(q, i) \in Blank THEN [ws |-> Append(acc.ws, acc.w), w |-> ""]
                                              ELSE [acc EXCEPT !.w = @ \o Ch(q, i)],
                              [ws |-> <<>>, w |-> ""], [i \in 1..Len(q) |-> i])
            IN {w \in Rng(Append(r.ws, r.w)) : Len(w) >= 3}
Within(t, w) == \E i \in 1..(Len(t) - Len(w) + 1) : SubSeq(t, i, i + Len(w) - 1) = w
MetaVal(F, l, k) == IF \E f \in F : f[1] = "meta" /\ f[2] = l /\ f[3] = k THEN (CHOOSE f \in F : f[1] = "meta" /\ f[2] = l /\ f[3] = k)[4] ELSE ""
MetaLangs(F) == {f[2] : f \in {g \in F : g[1] = "meta"}}
RowMatches(F, l, ws) ==
    LET n == Lower(MetaVal(F, l, "name"))
        d == Lower(MetaVal(F, l, "description"))
    IN \A w \in ws : Within(n, Lower(w)) \/ Within(d, Lower(w))
Matches(F, ws) == ws # {} /\ \E l \in MetaLangs(F) : RowMatches(F, l, ws)
Found(st, q) == LET ws == Words(q) IN {F \in BuiltSet(st) : Matches(F, ws)}

\* the text with every occurrence of a word marked
Open == "<mark>"
Shut == "</mark>"
MarkedPart(t, low, ws, from, upto) ==
    LET hit == UNION {{p \in i..(i + Len(w) - 1) : p \in from..upto /\ SubSeq(low, i, i + Len(w) - 1) = w} :
                      <<i, w>> \in {<<i, w>> \in (from..(upto - 2)) \X ws : i + Len(w) - 1 <= Len(t)}}
    IN FoldLeft(LAMBDA acc, i : acc \o (IF i \in hit /\ i - 1 \notin hit THEN Open ELSE "") \o Ch(t, i)
                                    \o (IF i \in hit /\ i + 1 \notin hit THEN Shut ELSE ""),
                "", [i \in 1..(upto - from + 1) |-> from + i - 1])
Marked(t, ws) == MarkedPart(t, Lower(t), {Lower(w) : w \in ws}, 1, Len(t))
\* two marks side by side say the same as one
Joint == Shut \o Open
Joined(t) == FoldLeft(LAMBDA acc, i : LET u == acc \o Ch(t, i) IN
                          IF Len(u) >= Len(Joint) /\ SubSeq(u, Len(u) - Len(Joint) + 1, Len(u)) = Joint
                          THEN SubSeq(u, 1, Len(u) - Len(Joint)) ELSE u,
                      "", [i \in 1..Len(t) |-> i])
\* a phrase shows the whole text, or a part of a long one, which is cut where the rest is missing
Shown == 66
PhraseOf(phrase, t, ws) ==
    IF Len(t) <= Shown THEN Joined(phrase) = Joined(Marked(t, ws))
    ELSE LET ph == Joined(phrase)
             low == Lower(t)
             lows == {Lower(w) : w \in ws} IN
         \E a \in 1..Len(t) :
           LET b == IF a + Shown - 1 < Len(t) THEN a + Shown - 1 ELSE Len(t)
               front == IF a > 1 THEN 3 ELSE 0
               back == IF b < Len(t) THEN 3 ELSE 0
               part == MarkedPart(t, low, lows, a, b) IN
           \* (only places which could be it are looked at closely)
           /\ Len(ph) >= front + back + b - a + 1
           /\ (Len(ph) - front - back - (b - a + 1)) % Len(Joint) = 0
           /\ Ch(ph, front + 1) \in {Ch(t, a), "<"}
           /\ Ch(ph, Len(ph) - back) \in {Ch(t, b), ">"}
           /\ ph = (IF a > 1 THEN "..." ELSE "") \o Joined(part) \o (IF b < Len(t) THEN "..." ELSE "")
           /\ Len(part) > b - a + 1
=============================================================================
