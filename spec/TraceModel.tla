----------------------------- MODULE TraceModel -----------------------------
(* Validates recorded change models, and the entries a store keeps of them,  *)
(* against OcaModel.  State: what has been derived so far in this script,    *)
(* by key.                                                                   *)
EXTENDS OcaModel, TraceDriver
TStart(script) == [k \in {} |-> {}]

Objs(b) == [k \in {<<b.objs[i].kind, b.objs[i].sub>> : i \in DOMAIN b.objs} |->
              b.objs[CHOOSE i \in DOMAIN b.objs : <<b.objs[i].kind, b.objs[i].sub>> = k].said]
\* expected entries, one after the other
RECURSIVE Run(_, _, _, _, _)
Run(script, steps, i, m, acc) ==
    IF i > Len(steps) THEN acc
    ELSE LET b == script.bundles[steps[i].b]
             e == Entry(m, steps[i].cmd, [said |-> steps[i].said, objs |-> Objs(b)])
         IN Run(script, steps, i + 1, Turn(m, e), Append(acc, e))
One(x, e, s) ==
    (IF x.digest = x.real /\ x.digest # "" /\ x.json = s.json THEN {} ELSE {"command"})
    \cup (IF x.bundle = e.bundle THEN {} ELSE {"bundle"})
    \cup (IF x.parent = e.parent THEN {} ELSE {"bundle-parent"})
    \cup (IF x.cb = e.cb /\ {x.ov[i] : i \in DOMAIN x.ov} = e.ov /\ Len(x.ov) = Cardinality(e.ov) THEN {} ELSE {"bundle-parts"})
    \cup (IF e.about[1] = "cb" THEN
            (IF x.cbsaid = e.said THEN {} ELSE {"capture-base"}) \cup (IF x.cbparent = e.before THEN {} ELSE {"capture-base-parent"})
            \cup (IF x.cbcmd = x.digest THEN {} ELSE {"capture-base-command"})
          ELSE IF x.cbsaid = "" THEN {} ELSE {"capture-base"})
    \cup (IF e.about[1] \notin {"", "cb"} THEN
            (IF x.osaid = e.said THEN {} ELSE {"overlay"}) \cup (IF x.oparent = e.before THEN {} ELSE {"overlay-parent"})
            \cup (IF x.ocmd = x.digest THEN {} ELSE {"overlay-command"})
          ELSE IF x.osaid = "" THEN {} ELSE {"overlay"})
Add(t, k, v) == (k :> ((IF k \in DOMAIN t THEN t[k] ELSE {}) \cup {v})) @@ t
\* what a store keeps of an entry
Kept(t, x, e) ==
    LET a == Add(t, x.digest, <<x.json, {}>>)
        b == Add(a, e.bundle, <<e.parent, {e.cb} \cup e.ov>>)
    IN IF e.said = "" THEN b ELSE Add(b, e.said, <<e.before, {x.digest}>>)
RECURSIVE Keep(_, _, _, _)
Keep(t, ms, es, i) == IF i > Len(ms) \/ i > Len(es) THEN t ELSE Keep(Kept(t, ms[i], es[i]), ms, es, i + 1)
Fields(f) == <<f[1], {f[i] : i \in 2..Len(f)}>>

TCheck(s, ev, script) ==
    CASE ev.e = "model" ->
           IF ev.out # "ok" THEN [st |-> s, bad |-> IF ev.out = "panic" THEN {"panic"} ELSE {}]
           ELSE LET es == Run(script, ev.steps, 1, Blank, <<>>) IN
                [st |-> IF ev.stored THEN Keep(s, ev.models, es, 1) ELSE s,
                 bad |-> (IF Len(ev.models) = Len(es) THEN {} ELSE {"entry-count"})
                         \cup UNION {One(ev.models[i], es[i], ev.steps[i]) : i \in DOMAIN es \cap DOMAIN ev.models}]
      [] ev.e = "kept" ->
           [st |-> s,
            bad |-> (IF {ev.entries[i][1] : i \in DOMAIN ev.entries} = DOMAIN s THEN {} ELSE {"stored-keys"})
                    \cup (IF \A i \in DOMAIN ev.entries : LET x == ev.entries[i] IN
                             x[1] \notin DOMAIN s \/ \E f \in s[x[1]] : f = Fields(x[2]) THEN {} ELSE {"stored-entry"})]
TFinal(log) == {}
=============================================================================
