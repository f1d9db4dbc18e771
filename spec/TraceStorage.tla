---------------------------- MODULE TraceStorage ----------------------------
(* Validates recorded operations on back ends against OcaStorage.            *)
EXTENDS OcaStorage, TraceDriver
Pairs(xs) == {<<xs[i][1], xs[i][2]>> : i \in DOMAIN xs}
TStart(script) == [x \in {} |-> Fresh("")]
With(s, h, v) == (h :> v) @@ s
TCheck(s, ev, script) ==
    LET bad(c) == IF ev.out = "ok" THEN {} ELSE {IF ev.out = "panic" THEN "storage-panic" ELSE c} IN
    CASE ev.do = "open" -> [st |-> With(s, ev.h, Fresh(ev.kind)), bad |-> bad("storage-not-opened")]
      [] ev.do = "reopen" -> [st |-> With(s, ev.h, Reopened(s[ev.h])), bad |-> bad("storage-not-opened")]
      [] ev.do = "put" -> [st |-> With(s, ev.h, Put(s[ev.h], ev.ns, ev.key, ev.val)), bad |-> bad("not-written")]
      [] ev.do = "tear" ->
            [st |-> With(s, ev.h, IF ev.out = "ok" THEN Put(s[ev.h], ev.ns, ev.key, ev.val) ELSE Lost(s[ev.h], ev.ns, ev.key, ev.val)),
             bad |-> IF ev.out \in {"ok", "err"} THEN {} ELSE bad("not-written")]
      [] ev.do = "get" ->
            [st |-> s, bad |-> IF ev.out # "ok" THEN bad("not-read")
                               ELSE IF Get(s[ev.h], ev.ns, ev.key) = [some |-> ev.some, val |-> ev.val] THEN {} ELSE {"read"}]
      [] ev.do = "all" ->
            [st |-> s, bad |-> IF ev.out # "ok" THEN bad("not-listed")
                               ELSE IF Pairs(ev.all) = All(s[ev.h], ev.ns) /\ Len(ev.all) = Cardinality(Pairs(ev.all)) THEN {} ELSE {"listed"}]
      [] ev.do = "outside" -> [st |-> s, bad |-> IF ev.n = "0" THEN {} ELSE {"outside"}]
      [] OTHER -> [st |-> s, bad |-> {"unknown-event"}]
TFinal(log) == {}
=============================================================================
