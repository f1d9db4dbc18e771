---------------------------- MODULE TraceContent ----------------------------
(* Validates recorded builds, reloads and continuations of bundles against   *)
(* the fold of OcaContent.  State: the contents reached so far, by slot.     *)
EXTENDS Bundles, TraceDriver

Debug == "DEBUG" \in DOMAIN IOEnv
Say(x) == IF Debug THEN PrintT(x) ELSE TRUE

\* expected errors: <<line, text>> of the commands that cannot be applied
Where(ev, bad) == [i \in DOMAIN bad |-> ev.lines[bad[i]]]

Judge(F0, ev, script) ==
    LET r == Fold(F0, ev.cmds)
        fails == r.bad # <<>> \/ (Len(ev.cmds) = 0 /\ ev.base = "")
    IN CASE ev.out = "panic" -> {"panic"}
         [] RuleBad(ev.cmds) # 0 -> IF ev.out = "ok" THEN {"accepted-forbidden"} ELSE {}
         [] fails /\ ev.out = "ok" -> {"accepted-faulty"}
         [] fails /\ ev.out = "err" ->
              IF r.bad = <<>> THEN {} ELSE
              IF ev.errs = Where(ev, r.bad) THEN {} ELSE {"wrong-errors"}
         [] ~fails /\ ev.out # "ok" -> {"rejected-good"}
         [] OTHER ->
              (IF Facts(script, ev.b) = r.cur THEN {} ELSE {"content"})
              \cup (IF script.bundles[ev.b].said = ev.said THEN {} ELSE {"said"})
              \cup (IF ev.withsteps
                    THEN (IF Len(ev.steps) = Len(r.steps) THEN {} ELSE {"step-count"})
                         \cup (IF \A i \in 1..Len(ev.steps) : i <= Len(r.steps) => Facts(script, ev.steps[i].b) = r.steps[i]
                               THEN {} ELSE {"step-content"})
                         \cup (IF \A i \in 1..Len(ev.steps) :
                                    /\ script.bundles[ev.steps[i].b].said = ev.steps[i].said
                                    /\ ev.steps[i].parent = (IF i = 1 THEN ev.parent ELSE ev.steps[i - 1].said)
                               THEN {} ELSE {"step-link"})
                    ELSE {})

Set(s, k, v) == (k :> v) @@ s
TStart(script) == ("" :> {})
TCheck(s, ev, script) ==
    CASE ev.e = "bundle" ->
            [st |-> s, bad |-> SaidProblems(script.bundles[ev.b]) \cup ObjectProblems(script.bundles[ev.b])]
      [] ev.e = "build" ->
            LET F0 == s[ev.base]
                r == Fold(F0, ev.cmds)
                bad == Judge(F0, ev, script)
            IN [st |-> Set(s, ev.slot, r.cur),
                bad |-> IF bad # {} /\ Say(<<"expected", r.cur, "bad", r.bad, "got", Facts(script, ev.b), ev.out>>) THEN bad ELSE bad]
      [] ev.e = "load" ->
            [st |-> s, bad |->
               IF ev.out = "panic" THEN {"reload-panic"} ELSE
               IF ev.out # "ok" THEN {"reload-failed"} ELSE
               (IF ev.b = ev.b2 THEN {} ELSE {"reload-bytes"})
               \cup (IF Facts(script, ev.b2) = s[ev.slot] THEN {} ELSE {"reload-content"})
               \cup (IF ev.said = script.bundles[ev.b].said THEN {} ELSE {"reload-said"})
               \cup (IF ev.recomputed = script.bundles[ev.b].said THEN {} ELSE {"reload-recomputed"})]
      [] ev.e = "object" ->   \* an object fetched on its own
            [st |-> s, bad |->
               IF ev.out = "panic" THEN {"object-panic"} ELSE
               IF ev.out # "ok" THEN {"object-missing"} ELSE
               IF ev.said = ev.d /\ ev.d = ev.dig THEN {} ELSE {"stored-object-said"}]
      [] ev.e = "same" ->     \* the same bundle delivered by another query
            [st |-> s, bad |-> IF ev.out = "panic" THEN {"get-panic"} ELSE IF ev.out # "ok" THEN {"get-failed"} ELSE
               IF Facts(script, ev.b) = s[ev.slot] THEN {} ELSE {"get-content"}]
      [] OTHER -> [st |-> s, bad |-> {"unknown-event"}]
TFinal(log) == TableProblems(log)

=============================================================================
