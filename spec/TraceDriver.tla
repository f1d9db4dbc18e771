---------------------------- MODULE TraceDriver ----------------------------
(* Reads recorded scripts and lets a specification judge every event.        *)
(* A trace line is one script: [id, events, bundles].  The specification     *)
(* supplies Start (its initial state for a script), Check (its transition    *)
(* for an event: the successor state and the set of things the event got     *)
(* wrong) and Final (what must hold of all scripts together).  A mismatch    *)
(* is printed and the specification goes on in *its own* state, so that the  *)
(* rest of the script is judged too.                                         *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS Start(_), Check(_, _, _), Final(_)
VARIABLES si, ei, st
Log == ndJsonDeserialize(IOEnv.TRACE)
NS == Len(Log)
Init == si = 1 /\ ei = 1 /\ st = Start(Log[1])
Event ==
    /\ si <= NS /\ ei <= Len(Log[si].events)
    /\ LET r == Check(st, Log[si].events[ei], Log[si])
       IN /\ st' = r.st
          /\ IF r.bad = {} THEN TRUE ELSE PrintT("MM " \o ToJson(<<si, ei, r.bad>>))
    /\ ei' = ei + 1 /\ si' = si
NextScript ==
    /\ si < NS /\ ei = Len(Log[si].events) + 1
    /\ si' = si + 1 /\ ei' = 1 /\ st' = Start(Log[si + 1])
Finish ==
    /\ si = NS /\ ei = Len(Log[si].events) + 1
    /\ LET bad == Final(Log)
       IN IF bad = {} THEN TRUE ELSE PrintT("MM " \o ToJson(<<0, 0, bad>>))
    /\ PrintT(<<"DONE", NS>>)
    /\ si' = NS + 1 /\ ei' = 1 /\ UNCHANGED st
Next == Event \/ NextScript \/ Finish
Spec == Init /\ [][Next]_<<si, ei, st>>
=============================================================================
