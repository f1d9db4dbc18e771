------------------------------ MODULE TraceGen ------------------------------
(* Validates printing: what a bundle, or its recorded history, prints as     *)
(* must build that bundle again.  The printed commands are judged with the   *)
(* fold, the printed text by building it in the real library.                *)
EXTENDS Bundles, TraceDriver

Debug == "DEBUG" \in DOMAIN IOEnv
Say(x) == IF Debug THEN PrintT(x) ELSE TRUE

Toast(ev, script) ==
    LET r == Fold({}, ev.cmds)  F == Facts(script, ev.b) IN
    IF ev.out = "panic" THEN {"toast-panic"} ELSE
    IF ev.out # "ok" THEN {"toast-failed"} ELSE
    (IF RuleBad(ev.cmds) = 0 THEN {} ELSE {"toast-forbidden"})
    \cup (IF r.bad = <<>> THEN {} ELSE {"toast-faulty"})
    \cup (IF r.cur = F \/ ~Say(<<"toast", "missing", F \ r.cur, "extra", r.cur \ F>>) THEN {} ELSE {"toast-content"})

\* a text printed from bundle b, built again as b2
Again(ev, script) ==
    \* a history of several files need not be one file: it may declare an attribute twice
    IF RuleBad(ev.cmds) # 0 THEN {} ELSE
    IF ev.out = "panic" THEN {ev.how \o "-panic"} ELSE
    IF ev.out = "noprint" THEN {ev.how \o "-not-printed"} ELSE
    IF ev.out # "ok" THEN {ev.how \o "-rejected"} ELSE
    (IF Facts(script, ev.b2) = Facts(script, ev.b) THEN {} ELSE {ev.how \o "-content"})
    \cup (IF ev.said = script.bundles[ev.b].said THEN {} ELSE {ev.how \o "-said"})

TStart(script) == {}
TCheck(s, ev, script) ==
    [st |-> s, bad |->
       CASE ev.e = "toast" -> Toast(ev, script)
         [] ev.e = "again" -> Again(ev, script)
         [] OTHER -> {"unknown-event"}]
TFinal(log) == {}
=============================================================================
