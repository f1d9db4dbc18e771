----------------------------- MODULE MC_Session -----------------------------
(* Every order of calls and kinds of input up to D.  The library is any      *)
(* implementation that is a function of what it stores: its sessions are     *)
(* never wrong, and one that fails to end, forgets or changes under a        *)
(* question is.                                                              *)
EXTENDS OcaSession, Json
CONSTANTS D, Emit, Flaws
VARIABLES db, hist, s, bad, flaw

Calls == {"parse", "rt", "pure", "build", "validate", "named", "tparse", "tbuild", "cond", "load", "continue", "vbundle", "toast", "togen",
          "tload", "loadcombined", "combine", "gen", "get", "steps", "ocafile", "ast", "explore", "objects", "bundle_ocafile", "list_b", "list_cb", "search", "refs"}
Inputs == {"plain", "near", "odd", "junk", "huge"}
Writes(c) == c \in {"build", "validate", "named"}
Bare == {"refs"}
Init == db = {} /\ hist = <<>> /\ s = Fresh({}) /\ bad = {} /\ flaw \in Flaws
\* what a well-behaved library does with it
Out(c, i) == IF i \in {"plain", "odd"} \/ c \in {"search", "refs", "list_b"} THEN "ok" ELSE "err"
Do(c, i) ==
    LET good == Out(c, i)
        out == IF flaw = "panics" /\ i = "junk" THEN "panic" ELSE good
        new == IF Writes(c) /\ (good = "ok" \/ flaw = "keeps-half") THEN db \cup {<<c, i>>}
               ELSE IF flaw = "forgets" /\ ~Writes(c) THEN {} ELSE db
        ans == IF flaw = "moody" THEN <<good, Len(hist)>> ELSE <<good, Cardinality(db)>>
    IN /\ Len(hist) < D
       /\ Emit => PrintT("B " \o ToJson(Append(hist, <<c, i>>)))
       /\ db' = new
       /\ hist' = Append(hist, <<c, i>>)
       /\ bad' = bad \cup Wrong(s, [id |-> <<c, i>>, writes |-> Writes(c)], out, ans, new)
       /\ s' = After(s, [id |-> <<c, i>>, writes |-> Writes(c)], out, ans, new)
       /\ UNCHANGED flaw
Next == \E c \in Calls, i \in Inputs : (c \in Bare => i = "plain") /\ Do(c, i)
Spec == Init /\ [][Next]_<<db, hist, s, bad, flaw>>

Fine == flaw = "none" => bad = {}
\* the flaws are seen as soon as they show
Has(c, i) == \E k \in DOMAIN hist : hist[k] = <<c, i>>
Seen == /\ (flaw = "panics" /\ \E k \in DOMAIN hist : hist[k][2] = "junk") => "panic" \in bad
        /\ (flaw = "keeps-half" /\ \E k \in DOMAIN hist : Writes(hist[k][1]) /\ Out(hist[k][1], hist[k][2]) = "err") => "failed-build-changed" \in bad
        /\ (flaw = "forgets" /\ \E k, l \in DOMAIN hist : k < l /\ Writes(hist[k][1]) /\ Out(hist[k][1], hist[k][2]) = "ok" /\ l = k + 1 /\ ~Writes(hist[l][1])) => "question-changed" \in bad
        /\ (flaw = "moody" /\ \E k, l \in DOMAIN hist : k < l /\ hist[k] = hist[l] /\ \A m \in k..l : Out(hist[m][1], hist[m][2]) = "err" \/ ~Writes(hist[m][1])) => "answers-differ" \in bad
=============================================================================
