------------------------------ MODULE MC_Cond ------------------------------
(* Every condition of up to D tokens.  Its meaning is given a second time,   *)
(* by splitting at the loosest operator instead of climbing precedences, and *)
(* both must agree; storing and restoring must be inverse.                   *)
EXTENDS OcaCond, Json
CONSTANTS D, Emit
VARIABLE h

\* <<text, token>>; a is a number, b a string
Tokens == << <<"${a}", <<"num", "2">>>>, <<"${b}", <<"str", "x">>>>, <<"1", <<"num", "1">>>>, <<"'x'", <<"str", "x">>>>, <<"true", <<"name", "true">>>>,
             <<"and", <<"name", "and">>>>, <<"or", <<"name", "or">>>>, <<"not", <<"name", "not">>>>, <<"==", <<"op", "==">>>>, <<"<", <<"op", "<">>>>,
             <<"-", <<"op", "-">>>>, <<"(", <<"op", "(">>>>, <<")", <<"op", ")">>>> >>
N == Len(Tokens)
Values == << <<"a", "2">>, <<"b", "'x'">> >>
Text(x) == FoldLeft(LAMBDA acc, i : acc \o (IF acc = "" THEN "" ELSE " ") \o Tokens[i][1], "", x)
Toks(x) == [i \in DOMAIN x |-> Tokens[x[i]][2]]

--------------------------------------------------------------------------
(* the second meaning *)
Atoms == {"num", "str"}
Operand(t) == t[1] \in Atoms \/ (t[1] = "name" /\ t[2] \in {"true", "false", "nil"}) \/ t = <<"op", ")">>
Depth(ts, i) == Cardinality({j \in 1..i - 1 : ts[j] = <<"op", "(">>}) - Cardinality({j \in 1..i - 1 : ts[j] = <<"op", ")">>})
\* positions of binary operators outside all parentheses, by looseness
BinAt(ts, set) == {i \in 2..Len(ts) - 1 : ts[i][2] \in set /\ ts[i][1] \in {"name", "op"} /\ Operand(ts[i - 1]) /\ Depth(ts, i) = 0}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Sub(ts, a, b) == SubSeq(ts, a, b)
RECURSIVE Mean(_)
Split(ts, set) == LET i == MaxOf(BinAt(ts, set)) IN Binary(ts[i][2], Mean(Sub(ts, 1, i - 1)), Mean(Sub(ts, i + 1, Len(ts))))
Loose == <<{"or"}, {"and"}, {"==", "<"}, {"-"}>>
Mean(ts) ==
    IF ts = <<>> THEN V("syn", "")
    ELSE IF \E k \in 1..4 : BinAt(ts, Loose[k]) # {}
         THEN LET k == CHOOSE k \in 1..4 : BinAt(ts, Loose[k]) # {} /\ \A j \in 1..k - 1 : BinAt(ts, Loose[j]) = {}
              IN Split(ts, Loose[k])
    ELSE IF ts[1] = <<"name", "not">> THEN Unary("not", Mean(Tail(ts)))
    ELSE IF ts[1] = <<"op", "-">> THEN Unary("-", Mean(Tail(ts)))
    ELSE IF ts[1] = <<"op", "(">> /\ ts[Len(ts)] = <<"op", ")">> /\ Len(ts) > 2 /\ \A i \in 2..Len(ts) : Depth(ts, i) > 0
         THEN Mean(Sub(ts, 2, Len(ts) - 1))
    ELSE IF Len(ts) = 1
         THEN CASE ts[1][1] = "num" -> NumOf(ts[1][2]) [] ts[1][1] = "str" -> V("str", ts[1][2])
                [] ts[1][1] = "name" /\ ts[1][2] = "true" -> V("bool", "true") [] OTHER -> V("syn", "")
    ELSE V("syn", "")
Meaning(ts) ==
    LET v == Mean(ts) IN
    IF v.t = "any" THEN "any" ELSE IF v.t # "bool" THEN "err" ELSE v.s

--------------------------------------------------------------------------
Init == h = <<>>
Next == \E i \in 1..N :
    /\ Len(h) < D
    /\ h' = Append(h, i)
    /\ Emit /\ (Meaning(Toks(h')) # "err" \/ (i + Len(h)) % 5 = 0) => PrintT("B " \o ToJson(h'))
Spec == Init /\ [][Next]_h

InvMeaning ==
    h # <<>> =>
      LET e == EvalText(Filled(RefToks(Text(h)), Values)) IN
      e = "any" \/ Meaning(Toks(h)) = "any" \/ e = Meaning(Toks(h))
InvStored ==
    LET toks == RefToks(Text(h))
        deps == DepsOf(toks)
    IN /\ TextOf(toks) = Text(h)
       /\ Restore(Stored(toks), deps) = Text(h)
       /\ \A i, j \in DOMAIN deps : i # j => deps[i] # deps[j]
       /\ Lacks("a", toks, {}) # <<>> \/ deps = <<>>
=============================================================================
