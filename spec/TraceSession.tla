---------------------------- MODULE TraceSession ----------------------------
(* Validates recorded sessions against OcaSession.                           *)
EXTENDS OcaSession, TraceDriver
TStart(script) == Fresh("")
TCheck(s, ev, script) ==
    [st |-> After(s, ev, ev.out, ev.ans, ev.kept),
     bad |-> IF ev.first THEN {} ELSE Wrong(s, ev, ev.out, ev.ans, ev.kept)]
TFinal(log) == {}
=============================================================================
