------------------------------ MODULE TraceDag ------------------------------
(* Validates recorded version graphs and histories against OcaDag.           *)
EXTENDS Bundles, TraceDriver
D == INSTANCE OcaDag

\* state: handle -> [g, said]   said: identifier -> content, as observed
NoStore == [g |-> D!NoGraph, said |-> [x \in {} |-> {}]]
TStart(script) == [x \in {} |-> NoStore]
With(s, h, v) == (h :> v) @@ s
At(s, h) == IF h \in DOMAIN s THEN s[h] ELSE NoStore

Build(s, ev, script) ==
    LET x == At(s, ev.h)
        based == ev.base # ""
        known == ~based \/ (ev.base \in DOMAIN x.said /\ x.said[ev.base] \in x.g.kept)
        F == IF based /\ known THEN x.said[ev.base] ELSE {}
        refused == RuleBad(ev.cmds) # 0 \/ ~known
        r == IF refused THEN [g |-> x.g, cur |-> F, bad |-> TRUE] ELSE D!BuildFrom(x.g, based, F, ev.cmds)
        none == ev.cmds = <<>> /\ ~based
        ch == D!Chain(r.g, r.cur)
        good == ~r.bad /\ ~none
        seen == IF ev.out = "ok" /\ good THEN (ev.said :> r.cur) @@ [y \in {ev.chain[i].said : i \in DOMAIN ev.chain} \ {ev.said} |->
                        Facts(script, (CHOOSE z \in Rng(ev.chain) : z.said = y).b)] @@ x.said ELSE x.said
    IN [st |-> With(s, ev.h, [g |-> r.g, said |-> seen]),
        bad |-> CASE ev.out = "panic" -> {"dag-panic"}
                  [] ~good /\ ev.out = "ok" -> {"dag-accepted"}
                  [] ~good -> {}
                  [] ev.out # "ok" -> {"dag-rejected"}
                  [] OTHER ->
                     (IF Facts(script, ev.b) = r.cur /\ script.bundles[ev.b].said = ev.said THEN {} ELSE {"dag-content"})
                     \cup (IF Len(ev.chain) = Len(ch) THEN {} ELSE {"dag-length"})
                     \cup (IF \A i \in DOMAIN ev.chain : i <= Len(ch) => Facts(script, ev.chain[i].b) = ch[i].result /\ script.bundles[ev.chain[i].b].said = ev.chain[i].said
                           THEN {} ELSE {"dag-objects"})
                     \cup (IF \A i \in DOMAIN ev.chain : i <= Len(ch) => ev.chain[i].cmd = ch[i].cmd THEN {} ELSE {"dag-commands"})
                     \cup (IF \A i \in DOMAIN ev.chain : ev.chain[i].parent = (IF i = 1 THEN "" ELSE ev.chain[i - 1].said) THEN {} ELSE {"dag-links"})
                     \cup (IF Len(ev.chain) > 0 /\ ev.chain[Len(ev.chain)].said = ev.said THEN {} ELSE {"dag-links"})]

TCheck(s, ev, script) ==
    CASE ev.e = "bundle" -> [st |-> s, bad |-> SaidProblems(script.bundles[ev.b])]
      [] ev.e = "add" -> [st |-> With(s, ev.h, [At(s, ev.h) EXCEPT !.g = D!AddNode(@, ev.node, ev.to)]),
                          bad |-> IF ev.out = "ok" THEN {} ELSE {"graph-not-added"}]
      [] ev.e = "get" ->
            [st |-> s, bad |-> IF ev.out # "ok" THEN {"graph-unreadable"} ELSE
               (IF ev.parents = D!Up(At(s, ev.h).g, ev.node) THEN {} ELSE {"graph-parents"})
               \cup (IF ev.children = D!Down(At(s, ev.h).g, ev.node) THEN {} ELSE {"graph-children"})]
      [] ev.e = "build" -> Build(s, ev, script)
      [] ev.e = "reopen" -> [st |-> s, bad |-> {}]
      [] OTHER -> [st |-> s, bad |-> {"unknown-event"}]
TFinal(log) == {}
=============================================================================
