----------------------------- MODULE MC_Storage -----------------------------
(* All histories of up to D operations on a persistent and on an in-memory   *)
(* store, judged against the history itself: what is read is what was        *)
(* written last.  Prints every history; the runner replays them on every     *)
(* back end.                                                                 *)
EXTENDS OcaStorage, FiniteSetsExt, Json
CONSTANTS D, Emit
VARIABLES p, q, h      \* persistent store, in-memory store, history
NS == {"oca", "oca_refs"}
KS == {"a", "a/b"}
VS == {"1", "2"}
Ops == {<<"put", n, k, v>> : n \in NS, k \in KS, v \in VS} \cup {<<"lost", n, k, "2">> : n \in NS, k \in KS} \cup {<<"reopen", "", "", "">>}
Do(s, o) == IF o[1] = "put" THEN Put(s, o[2], o[3], o[4]) ELSE IF o[1] = "lost" THEN Lost(s, o[2], o[3], o[4]) ELSE Reopened(s)
Init == p = Fresh("sled") /\ q = Fresh("mem") /\ h = <<>>
Next == \E o \in Ops :
    /\ Len(h) < D
    /\ p' = Do(p, o) /\ q' = Do(q, o) /\ h' = Append(h, o)
    /\ Emit => PrintT("B " \o ToJson(h'))
Spec == Init /\ [][Next]_<<p, q, h>>

Writes(n, k) == {i \in DOMAIN h : h[i][1] = "put" /\ h[i][2] = n /\ h[i][3] = k}
Since == IF \E i \in DOMAIN h : h[i][1] = "reopen" THEN Max({i \in DOMAIN h : h[i][1] = "reopen"}) ELSE 0
LastWrite == \A n \in NS, k \in KS :
    /\ Get(p, n, k) = (IF Writes(n, k) = {} THEN [some |-> FALSE, val |-> ""] ELSE [some |-> TRUE, val |-> h[Max(Writes(n, k))][4]])
    /\ LET w == {i \in Writes(n, k) : i > Since}
       IN Get(q, n, k) = (IF w = {} THEN [some |-> FALSE, val |-> ""] ELSE [some |-> TRUE, val |-> h[Max(w)][4]])
Listing == \A s \in {p, q}, n \in NS : All(s, n) = {<<k, Get(s, n, k).val>> : k \in {x \in KS : Get(s, n, x).some}}
\* back ends that never were reopened are the same map
Alike == (Since = 0) => p.m = q.m
\* writing to one namespace leaves the others alone
Apart == \A o \in Ops : o[1] = "put" => \A n \in NS \ {o[2]} : All(Do(p, o), n) = All(p, n)
=============================================================================
