----------------------------- MODULE OcaSession -----------------------------
(* A session with the library: whatever is called, and whatever it is given, *)
(* the call ends in a result or in an error; only a build that ends well     *)
(* changes what the store answers; and what a call answers is a function of  *)
(* the call and of what the store holds.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Ended == {"ok", "err"}
\* a session: what the store answers, and what was answered so far
Fresh(kept) == [kept |-> kept, said |-> [x \in {} |-> ""]]
\* a call c = [id, writes] that ended in out with answer ans and left kept behind
Wrong(s, c, out, ans, kept) ==
    (IF out \in Ended THEN {} ELSE {out})
    \cup (IF kept = s.kept \/ (c.writes /\ out = "ok") THEN {} ELSE {IF c.writes THEN "failed-build-changed" ELSE "question-changed"})
    \cup (IF <<c.id, s.kept>> \notin DOMAIN s.said \/ s.said[<<c.id, s.kept>>] = <<out, ans>> THEN {} ELSE {"answers-differ"})
After(s, c, out, ans, kept) ==
    [kept |-> kept, said |-> (<<c.id, s.kept>> :> <<out, ans>>) @@ s.said]
=============================================================================
