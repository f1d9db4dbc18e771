------------------------------- MODULE MC_Rule ------------------------------
(* Every sequence of up to D commands that add or remove attributes and the  *)
(* classification, and some that do neither: the rule of OcaRule against the *)
(* plain reading "what was last said of it was that it is added".            *)
EXTENDS OcaRule, Json, TLC
CONSTANTS D, Emit
VARIABLES h, r, bad
Alphabet == JsonDeserialize("alphabet_rule.json")
Init == h = <<>> /\ r = RuleInit /\ bad = FALSE
Next == \E i \in DOMAIN Alphabet :
    /\ Len(h) < D
    /\ h' = Append(h, i)
    /\ bad' = (bad \/ ~RuleOk(r, Alphabet[i]))
    /\ r' = IF bad' THEN r ELSE RuleApply(r, Alphabet[i])
    /\ (Emit => PrintT("B " \o ToJson(h')))
Spec == Init /\ [][Next]_<<h, r, bad>>

Attrs == UNION {RNames(Alphabet[i]) : i \in DOMAIN Alphabet}
Says(i, a) == Alphabet[i].o = "CaptureBase" /\ a \in RNames(Alphabet[i])
SaysCls(i) == Alphabet[i].o = "CaptureBase" /\ RClass(Alphabet[i])
\* present before command n: the last of the earlier commands that speaks of it adds it
Present(Speaks(_), n) ==
    LET s == {j \in 1..(n - 1) : Speaks(h[j])} IN
    s # {} /\ Alphabet[h[CHOOSE j \in s : \A k \in s : k <= j]].k = "add"
Wrong(n) ==
    LET c == Alphabet[h[n]]
        there(a) == Present(LAMBDA i : Says(i, a), n)
    IN c.o = "CaptureBase" /\ \/ c.k = "add" /\ \E a \in RNames(c) : there(a)
                              \/ c.k = "remove" /\ \E a \in RNames(c) : ~there(a)
                              \/ c.k = "remove" /\ RClass(c) /\ ~Present(SaysCls, n)
Agrees == bad = (\E n \in DOMAIN h : Wrong(n))
First == LET n == RuleBad([i \in DOMAIN h |-> Alphabet[h[i]]])
             w == {j \in DOMAIN h : Wrong(j)}
         IN n = IF w = {} THEN 0 ELSE CHOOSE j \in w : \A k \in w : j <= k
=============================================================================
