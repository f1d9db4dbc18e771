------------------------------ MODULE TraceText -----------------------------
(* Validates recorded parses, printings and readings back against OcaText.   *)
EXTENDS OcaText, TraceDriver
TStart(script) == 0

Rng1(s) == {s[i] : i \in DOMAIN s}
\* the order of the entries of a mapping says nothing
NormAttr(a) == [a EXCEPT !.groups = Rng1(@), !.entries = Rng1(@), !.scopes = {<<x[1], Rng1(x[2])>> : x \in Rng1(@)}]
Norm(c) == [c EXCEPT !.types = Rng1(@), !.props = Rng1(@), !.attrs = {NormAttr(x) : x \in Rng1(@)}]
Same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i] = b[i] \/ Norm(a[i]) = Norm(b[i])
After(t, p) == LET g == Gap(t, p) IN g + Nl(t, g)
\* what a parse recorded as r = [out, meta, cmds, lines] of text t got wrong
ParseProblems(t, f, r) ==
    CASE r.out = "panic" -> {"parse-panic"}
      [] f.st = "open" -> {}
      [] f.st = "bad" -> IF r.out = "ok" THEN {"parse-accepted"} ELSE {}
      [] f.st = "rule" -> IF r.out = "ok" THEN {"rule-accepted"} ELSE {}
      [] r.out # "ok" -> {"parse-rejected"}
      [] OTHER ->
         (IF Same(r.cmds, f.cmds) THEN {} ELSE {"parse-commands"})
         \cup (IF Rng1(r.meta) = Rng1(f.meta) THEN {} ELSE {"parse-meta"})
         \cup (IF /\ Len(r.lines) = Len(f.at)
                  /\ \A i \in DOMAIN f.at :
                       LET a == f.at[i]
                           raw == r.lines[i][2]
                       IN /\ r.lines[i][1] = a.line
                          /\ SubSeq(t, a.p, a.p + Len(raw) - 1) = raw
                          /\ After(t, a.e) \in {After(t, a.p + Len(raw)), a.p + Len(raw)}
               THEN {} ELSE {"parse-lines"})

Again(f, ev) ==
    LET g == File(ev.text2) IN
    CASE ev.gen # "ok" -> {"print-failed"}
      [] f.st # "ok" -> {}
      [] OTHER ->
         (IF g.st = "ok" /\ Same(g.cmds, f.cmds) THEN {} ELSE IF g.st = "open" THEN {} ELSE {"print-text"})
         \cup (IF ev.again.out # "ok" THEN {"print-rejected"} ELSE IF ev.again.same /\ Same(ev.again.cmds, f.cmds) THEN {} ELSE {"print-commands"})
         \cup (IF Len(ev.json) = Len(f.cmds) /\ \A i \in DOMAIN ev.json : ev.json[i].out = "ok" THEN {} ELSE {"json-failed"})
         \cup (IF \A i \in DOMAIN ev.json : ev.json[i].out = "ok" => (ev.json[i].same /\ i \in DOMAIN f.cmds /\ Same(<<ev.json[i].cmd>>, <<f.cmds[i]>>)) THEN {} ELSE {"json-command"})
         \cup (IF \A i \in DOMAIN ev.json : ev.json[i].out = "ok" => ev.json[i].stable THEN {} ELSE {"json-unstable"})
         \cup (IF ev.whole.out # "ok" THEN {"json-file-failed"} ELSE IF ev.whole.same /\ Same(ev.whole.cmds, f.cmds) THEN {} ELSE {"json-file"})

TCheck(s, ev, script) ==
    LET f == File(ev.text)
        \* the text was written from these commands: the reading must find them
        own == IF ev.sure /\ (f.st \notin {"ok", "rule"} \/ ~Same(f.cmds, ev.want)) THEN {"spec-reading"} ELSE {}
    IN [st |-> s + (IF f.st = "ok" THEN 1 ELSE 0),
        bad |-> own \cup ParseProblems(ev.text, f, ev.parse) \cup (IF ev.e = "rt" /\ ev.parse.out = "ok" THEN Again(f, ev) ELSE {})
                \cup (IF ev.tally THEN {"tally:" \o f.st} ELSE {})]
TFinal(log) == {}
=============================================================================
