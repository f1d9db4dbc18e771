----------------------------- MODULE OcaStorage -----------------------------
(* What a storage back end is: for every namespace a map from keys to values.*)
(* A store is [kind, m] where m maps <<namespace, key>> to a value; only the *)
(* in-memory one forgets everything when it is opened again.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

Fresh(kind) == [kind |-> kind, m |-> [x \in {} |-> ""]]
Persistent(s) == s.kind # "mem"
Has(s, ns, k) == <<ns, k>> \in DOMAIN s.m
Put(s, ns, k, v) == [s EXCEPT !.m = (<<ns, k>> :> v) @@ s.m]
\* a write that fails, however far it came, leaves what was there
Lost(s, ns, k, v) == s
Get(s, ns, k) == IF Has(s, ns, k) THEN [some |-> TRUE, val |-> s.m[<<ns, k>>]] ELSE [some |-> FALSE, val |-> ""]
All(s, ns) == {<<x[2], s.m[x]>> : x \in {y \in DOMAIN s.m : y[1] = ns}}
Reopened(s) == IF Persistent(s) THEN s ELSE Fresh(s.kind)
=============================================================================
