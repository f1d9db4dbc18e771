------------------------------ MODULE OcaCond ------------------------------
(* Conditions: how the text of one is stored, restored and evaluated.        *)
(* A condition is an expression (numbers, quoted strings, true, false, nil,  *)
(* names, == ~= < > <= >=, + -, and, or, not, parentheses) in which ${x}     *)
(* stands for the value of attribute x.                                      *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)

--------------------------------------------------------------------------
(* references: <<"t", text>> and <<"r", name>>, leftmost first *)
RECURSIVE CloseAt(_, _)
CloseAt(s, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = "}" THEN i ELSE CloseAt(s, i + 1)
AddText(acc, t) ==
    IF t = "" THEN acc
    ELSE IF acc # <<>> /\ acc[Len(acc)][1] = "t" THEN [acc EXCEPT ![Len(acc)] = <<"t", @[2] \o t>>]
    ELSE Append(acc, <<"t", t>>)
RECURSIVE RefToksFrom(_, _, _)
RefToksFrom(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE IF i < Len(s) /\ SubSeq(s, i, i + 1) = "${" /\ CloseAt(s, i + 2) # 0
         THEN LET j == CloseAt(s, i + 2) IN RefToksFrom(s, j + 1, Append(acc, <<"r", SubSeq(s, i + 2, j - 1)>>))
         ELSE RefToksFrom(s, i + 1, AddText(acc, Ch(s, i)))
RefToks(s) == RefToksFrom(s, 1, <<>>)

SetOf(s) == {s[i] : i \in DOMAIN s}
DepsOf(toks) ==
    FoldLeft(LAMBDA acc, t : IF t[1] = "r" /\ t[2] \notin SetOf(acc) THEN Append(acc, t[2]) ELSE acc, <<>>, toks)
PosOf(s, v) == CHOOSE i \in DOMAIN s : s[i] = v
Stored(toks) ==
    LET deps == DepsOf(toks)
    IN FoldLeft(LAMBDA acc, t : acc \o (IF t[1] = "r" THEN "${" \o ToString(PosOf(deps, t[2]) - 1) \o "}" ELSE t[2]), "", toks)
TextOf(toks) ==
    FoldLeft(LAMBDA acc, t : acc \o (IF t[1] = "r" THEN "${" \o t[2] \o "}" ELSE t[2]), "", toks)

DigitVal == [x \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
             CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3 [] x = "4" -> 4
               [] x = "5" -> 5 [] x = "6" -> 6 [] x = "7" -> 7 [] x = "8" -> 8 [] OTHER -> 9]
IsDigit(ch) == ch \in DOMAIN DigitVal
RECURSIVE NatOf(_, _, _)
NatOf(s, i, acc) == IF i > Len(s) THEN acc ELSE NatOf(s, i + 1, acc * 10 + DigitVal[Ch(s, i)])
AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : IsDigit(Ch(s, i))
\* the text a stored condition and its list of attributes stand for
Restore(stored, deps) ==
    FoldLeft(LAMBDA acc, t : acc \o (IF t[1] = "r"
                                     THEN IF AllDigits(t[2]) /\ NatOf(t[2], 1, 0) < Len(deps)
                                          THEN "${" \o deps[NatOf(t[2], 1, 0) + 1] \o "}" ELSE "${" \o t[2] \o "}"
                                     ELSE t[2]), "", RefToks(stored))

--------------------------------------------------------------------------
(* lexing: <<kind, text>> with kinds num, str, name, op, bad, end *)
Lower26 == "abcdefghijklmnopqrstuvwxyz"
Upper26 == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Letters == {Ch(Lower26, i) : i \in 1..26} \cup {Ch(Upper26, i) : i \in 1..26} \cup {"_"}
Blank == {" ", "\t", "\n"}
Two == {"==", "~=", "<=", ">="}
One == {"<", ">", "+", "-", "(", ")", "{", "}"}
RECURSIVE Span(_, _, _)
Span(s, i, set) == IF i <= Len(s) /\ Ch(s, i) \in set THEN Span(s, i + 1, set) ELSE i    \* first position outside
RECURSIVE QuoteAt(_, _, _)
QuoteAt(s, i, q) == IF i > Len(s) \/ Ch(s, i) \in {"\n", "\\"} THEN 0 ELSE IF Ch(s, i) = q THEN i ELSE QuoteAt(s, i + 1, q)
RECURSIVE Lex(_, _, _)
Lex(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE LET ch == Ch(s, i)  two == IF i < Len(s) THEN SubSeq(s, i, i + 1) ELSE "" IN
      CASE ch \in Blank -> Lex(s, i + 1, acc)
        [] two = "--" -> Append(acc, <<"weird", "--">>)
        [] two \in Two -> Lex(s, i + 2, Append(acc, <<"op", two>>))
        [] ch \in One -> Lex(s, i + 1, Append(acc, <<"op", ch>>))
        [] IsDigit(ch) ->
             LET j == Span(s, i, DOMAIN DigitVal \cup Letters \cup {"."}) IN Lex(s, j, Append(acc, <<"num", SubSeq(s, i, j - 1)>>))
        [] ch \in Letters ->
             LET j == Span(s, i, Letters \cup DOMAIN DigitVal) IN Lex(s, j, Append(acc, <<"name", SubSeq(s, i, j - 1)>>))
        [] ch \in {"'", "\""} ->
             LET j == QuoteAt(s, i + 1, ch) IN
             IF j = 0 THEN Append(acc, <<"bad", ch>>) ELSE Lex(s, j + 1, Append(acc, <<"str", SubSeq(s, i + 1, j - 1)>>))
        [] ch \in {"=", "@", "?", "!", "$", "&", "|", "`"} -> Append(acc, <<"bad", ch>>)
        [] OTHER -> Append(acc, <<"weird", ch>>)

--------------------------------------------------------------------------
(* values: <<type, payload>>, payloads are strings except of numbers, which  *)
(* are kept times ten.  "syn": not an expression, "err": cannot be evaluated,*)
(* "any": outside of what this specification describes.                      *)
V(t, p) == [t |-> t, s |-> p, n |-> 0]
Num(n) == [t |-> "num", s |-> "", n |-> n]
Truth(v) == ~(v.t = "nil" \/ (v.t = "bool" /\ v.s = "false"))
Bool(b) == V("bool", IF b THEN "true" ELSE "false")
Worst(a, b) == IF "any" \in {a.t, b.t} THEN V("any", "") ELSE IF "syn" \in {a.t, b.t} THEN V("syn", "") ELSE V("err", "")
Broken(v) == v.t \in {"any", "syn", "err"}

NumOf(t) ==
    LET dot == {i \in 1..Len(t) : Ch(t, i) = "."} IN
    IF AllDigits(t) /\ Len(t) <= 8 THEN Num(10 * NatOf(t, 1, 0))
    ELSE IF dot = {Len(t) - 1} /\ Len(t) > 2 /\ Len(t) <= 8 /\ AllDigits(SubSeq(t, 1, Len(t) - 2)) /\ IsDigit(Ch(t, Len(t)))
         THEN Num(10 * NatOf(SubSeq(t, 1, Len(t) - 2), 1, 0) + DigitVal[Ch(t, Len(t))])
    ELSE V("any", "")

Equal(a, b) == a.t = b.t /\ a.s = b.s /\ a.n = b.n
Compare(op, a, b) ==
    IF Broken(a) \/ Broken(b) THEN Worst(a, b)
    ELSE IF op = "==" THEN Bool(Equal(a, b)) ELSE IF op = "~=" THEN Bool(~Equal(a, b))
    ELSE IF a.t = "num" /\ b.t = "num"
         THEN Bool(CASE op = "<" -> a.n < b.n [] op = ">" -> a.n > b.n [] op = "<=" -> a.n <= b.n [] OTHER -> a.n >= b.n)
    ELSE IF a.t = "str" /\ b.t = "str" THEN V("any", "") ELSE V("err", "")
Arith(op, a, b) ==
    IF Broken(a) \/ Broken(b) THEN Worst(a, b)
    ELSE IF a.t = "num" /\ b.t = "num" THEN Num(IF op = "+" THEN a.n + b.n ELSE a.n - b.n)
    ELSE IF a.t = "str" \/ b.t = "str" THEN V("any", "") ELSE V("err", "")
\* what is not evaluated can still be ill-formed
Logic(op, a, b) ==
    IF a.t \in {"any", "syn"} \/ b.t \in {"any", "syn"} THEN Worst(a, b)
    ELSE IF a.t = "err" THEN a
    ELSE IF op = "and" THEN (IF Truth(a) THEN b ELSE a) ELSE (IF Truth(a) THEN a ELSE b)
Unary(op, a) ==
    IF Broken(a) THEN a
    ELSE IF op = "not" THEN Bool(~Truth(a))
    ELSE IF a.t = "num" THEN Num(-a.n) ELSE IF a.t = "str" THEN V("any", "") ELSE V("err", "")
Binary(op, a, b) ==
    CASE op \in {"and", "or"} -> Logic(op, a, b) [] op \in {"+", "-"} -> Arith(op, a, b) [] OTHER -> Compare(op, a, b)

Prec(tok) ==
    CASE tok = <<"name", "or">> -> 1 [] tok = <<"name", "and">> -> 2
      [] tok[1] = "op" /\ tok[2] \in {"<", ">", "<=", ">=", "==", "~="} -> 3
      [] tok = <<"op", "+">> \/ tok = <<"op", "-">> -> 5 [] OTHER -> 0
Keywords == {"and", "or", "not", "break", "do", "else", "elseif", "end", "for", "function", "goto", "if", "in", "local", "repeat", "return", "then", "until", "while"}

\* [v |-> value, i |-> position after]
RECURSIVE Expr(_, _, _), Climb(_, _, _), Prim(_, _)
Prim(ts, i) ==
    IF i > Len(ts) THEN [v |-> V("syn", ""), i |-> i]
    ELSE LET k == ts[i][1]  t == ts[i][2] IN
      CASE k = "num" -> [v |-> NumOf(t), i |-> i + 1]
        [] k = "str" -> [v |-> V("str", t), i |-> i + 1]
        [] k = "name" /\ t \in {"true", "false"} -> [v |-> V("bool", t), i |-> i + 1]
        [] k = "name" /\ t = "nil" -> [v |-> V("nil", ""), i |-> i + 1]
        [] k = "name" /\ t = "not" -> LET r == Expr(ts, i + 1, 6) IN [v |-> Unary("not", r.v), i |-> r.i]
        [] k = "op" /\ t = "-" -> LET r == Expr(ts, i + 1, 6) IN [v |-> Unary("-", r.v), i |-> r.i]
        [] k = "name" /\ t = "function" -> [v |-> V("any", ""), i |-> i + 1]
        [] k = "name" /\ t \in Keywords -> [v |-> V("syn", ""), i |-> i + 1]
        [] k = "name" -> [v |-> V("nil", ""), i |-> i + 1]        \* nothing is defined
        [] k = "op" /\ t = "(" ->
             LET r == Expr(ts, i + 1, 0) IN
             IF r.v.t \notin {"syn", "any"} /\ r.i <= Len(ts) /\ ts[r.i] = <<"op", ")">> THEN [v |-> r.v, i |-> r.i + 1]
             ELSE [v |-> IF r.v.t = "any" THEN r.v ELSE V("syn", ""), i |-> r.i]
        [] k = "op" /\ t = "{" ->          \* a table of nothing or of one thing, equal to nothing else
             IF i < Len(ts) /\ ts[i + 1] = <<"op", "}">> THEN [v |-> [t |-> "tbl", s |-> "", n |-> i], i |-> i + 2]
             ELSE IF i + 1 < Len(ts) /\ ts[i + 2] = <<"op", "}">> /\ ts[i + 1][1] \in {"num", "str", "name"}
                  THEN [v |-> [t |-> "tbl", s |-> "", n |-> i], i |-> i + 3]
             ELSE [v |-> V("any", ""), i |-> i]
        [] k = "weird" -> [v |-> V("any", ""), i |-> i + 1]
        [] OTHER -> [v |-> V("syn", ""), i |-> i + 1]
Climb(ts, left, lim) ==
    IF left.v.t \in {"syn", "any"} \/ left.i > Len(ts) \/ Prec(ts[left.i]) <= lim THEN left
    ELSE LET r == Expr(ts, left.i + 1, Prec(ts[left.i]))
         IN Climb(ts, [v |-> Binary(ts[left.i][2], left.v, r.v), i |-> r.i], lim)
Expr(ts, i, lim) == Climb(ts, Prim(ts, i), lim)

\* how ~= binds next to + - and other comparisons is left open (the Lua interpreter
\* the library uses binds it tighter than Lua does)
Mixed(ts) == /\ \E i \in DOMAIN ts : ts[i] = <<"op", "~=">>
             /\ \E i \in DOMAIN ts : ts[i][1] = "op" /\ ts[i][2] \in {"+", "-", "<", ">", "<=", ">=", "=="}
             /\ ~\E i \in DOMAIN ts : ts[i][1] = "name" /\ ts[i][2] \in {"and", "or"}
             \/ \E i \in DOMAIN ts : ts[i] = <<"op", "~=">>
                /\ \E j \in DOMAIN ts : ts[j][1] = "op" /\ ts[j][2] \in {"+", "-"}
\* "true", "false", "err" or "any"
EvalText(text) ==
    LET ts == Lex(text, 1, <<>>)
        r == Expr(ts, 1, 0)
    IN IF ts = <<>> THEN "any"
       ELSE IF Mixed(ts) THEN "any"
       ELSE IF r.v.t = "any" \/ \E i \in DOMAIN ts : ts[i][1] = "weird" THEN "any"
       ELSE IF r.v.t = "syn" THEN "err"
       ELSE IF r.i <= Len(ts) THEN (IF ts[r.i][1] = "str" \/ ts[r.i] \in {<<"op", "(">>, <<"op", "{">>} THEN "any" ELSE "err")   \* a call, or something left over
       ELSE IF r.v.t # "bool" THEN "err"      \* a condition is true or false
       ELSE r.v.s

\* values: a sequence of <<attribute, text>>
Filled(toks, values) ==
    FoldLeft(LAMBDA acc, t : acc \o (IF t[1] = "r" THEN LET i == CHOOSE j \in DOMAIN values : values[j][1] = t[2] IN values[i][2]
                                     ELSE t[2]), "", toks)
SelfMsg(attr) == "Attribute '" \o attr \o "' cannot be a dependency of itself"
MissMsg(d) == "Missing dependency '" \o d \o "' value"
\* the messages of a condition that lacks something, in order
Lacks(attr, toks, have) ==
    LET deps == DepsOf(toks) IN
    (IF attr \in SetOf(deps) THEN <<SelfMsg(attr)>> ELSE <<>>)
    \o FoldLeft(LAMBDA acc, d : IF d \in have THEN acc ELSE Append(acc, MissMsg(d)), <<>>, deps)
\* [out |-> "ok"|"err"|"any", v |-> , msgs |-> ]
Check24(attr, toks, values) ==
    LET lacks == Lacks(attr, toks, {values[i][1] : i \in DOMAIN values}) IN
    IF lacks # <<>> THEN [out |-> "err", v |-> "", msgs |-> lacks]
    ELSE LET e == EvalText(Filled(toks, values)) IN
         IF e \in {"any", "err"} THEN [out |-> e, v |-> "", msgs |-> <<>>] ELSE [out |-> "ok", v |-> e, msgs |-> <<>>]
=============================================================================
