--------------------------- MODULE TraceTransform ---------------------------
(* Validates recorded readings, builds and combined documents against        *)
(* OcaTransform.                                                             *)
EXTENDS OcaTransform, TraceDriver
TStart(script) == 0

Rng1(s) == {s[i] : i \in DOMAIN s}
HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE Hex(_, _)
Hex(n, k) == IF k = 0 THEN "" ELSE Hex(n \div 16, k - 1) \o HexDigit[(n % 16) + 1]
\* a JSON document carries its own digest and length
Stamped(d, name) ==
    (IF d.said # "" /\ d.said = d.dig THEN {} ELSE {"digest"})
    \cup (IF d.v = name \o Hex(d.len, 6) \o "_" THEN {} ELSE {"version"})
SameCmds(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i].k = b[i].k /\ Rng1(a[i].attrs) = Rng1(b[i].attrs) /\ Len(a[i].attrs) = Len(b[i].attrs)
After(t, p) == LET g == Gap(t, p) IN g + Nl(t, g)
Placed(t, f, lines) ==
    /\ Len(lines) = Len(f.at)
    /\ \A i \in DOMAIN f.at :
         LET a == f.at[i]
             raw == lines[i][2]
         IN lines[i][1] = a.line /\ SubSeq(t, a.p, a.p + Len(raw) - 1) = raw /\ After(t, a.e) \in {After(t, a.p + Len(raw)), a.p + Len(raw)}

\* a transformation as observed, against what it has to say
Says(o, b) == Rng1(o.attrs) = Rng1(b.attrs) /\ Len(o.attrs) = Len(b.attrs) /\ o.source = b.source /\ o.target = b.target
\* ... and the JSON it is written as
Doc(o, b) ==
    Stamped(o, "OCAT10JSON")
    \cup (IF Rng1(o.keys) # {"v", "d", "source", "target", "attributes"} THEN {"document-parts"} ELSE {})
    \cup (IF Rng1(o.dattrs) = Rng1(b.attrs) /\ o.dsource = b.source /\ o.dtarget = b.target /\ o.dd = o.said THEN {} ELSE {"document"})

Parse(ev) ==
    LET f == TFile(ev.text)
        k == Kind(ev.text)
        own == IF ev.sure /\ (f.st # "ok" \/ ~SameCmds(f.cmds, ev.want)) THEN {"spec-reading"} ELSE {}
        need == IF ev.direct THEN f.st ELSE k.st
    IN own \cup
       CASE ev.out \in {"panic"} -> {"parse-panic"}
         [] need = "open" -> {}
         [] need # "ok" -> IF ev.out = "ok" THEN {"parse-accepted"} ELSE {}
         [] ev.out # "ok" -> {"parse-rejected"}
         [] ~ev.direct /\ ev.kind # k.kind -> {"kind"}
         [] ev.kind = "semantics" -> IF Len(File(ev.text).cmds) = ev.n THEN {} ELSE {"parse-commands"}
         [] OTHER ->
              (IF SameCmds(ev.cmds, f.cmds) THEN {} ELSE {"parse-commands"})
              \cup (IF Rng1(ev.meta) = Rng1(f.meta) THEN {} ELSE {"parse-meta"})
              \cup (IF Placed(ev.text, f, ev.lines) THEN {} ELSE {"parse-lines"})
              \cup (IF ~ev.direct THEN {} ELSE IF ev.back.out = "ok" /\ ev.back.same /\ SameCmds(ev.back.cmds, f.cmds) THEN {} ELSE {"json-file"})
Build(ev) ==
    LET b == Built(ev.text, ev.direct) IN
    CASE ev.out = "panic" -> {"build-panic"}
      [] b.st = "open" -> {}
      [] b.st # "ok" -> IF ev.out = "ok" THEN {"build-accepted"} ELSE {}
      [] ev.out # "ok" -> {"build-rejected"}
      [] OTHER -> (IF Says(ev.t, b) THEN {} ELSE {"build-content"}) \cup Doc(ev.t, b)
                  \cup (IF ev.back.out = "ok" /\ Says(ev.back, b) /\ ev.back.said = ev.t.said THEN {} ELSE {"read-back"})
Combine(ev) ==
    LET bs == [i \in DOMAIN ev.texts |-> Built(ev.texts[i], ev.direct)] IN
    CASE ev.out = "panic" -> {"combine-panic"}
      [] \E i \in DOMAIN bs : bs[i].st = "open" -> {}
      [] \E i \in DOMAIN bs : bs[i].st # "ok" -> IF ev.out = "ok" THEN {"build-accepted"} ELSE {}
      [] ev.out # "ok" -> {"combine-failed"}
      [] OTHER ->
           Stamped(ev.doc, "OCAB00JSON")
           \cup (IF Rng1(ev.doc.keys) = {"v", "d", "m", "t"} THEN {} ELSE {"combined-parts"})
           \cup (IF ev.doc.m = ev.m /\ Len(ev.doc.t) = Len(bs) /\ \A i \in DOMAIN bs : Says(ev.doc.t[i], bs[i]) THEN {} ELSE {"combined-content"})
           \cup UNION {Doc(ev.doc.t[i], bs[i]) : i \in DOMAIN ev.doc.t \cap DOMAIN bs}
           \cup (IF /\ ev.back.out = "ok" /\ ev.back.said = ev.doc.said /\ ev.back.m = ev.m /\ ev.back.re
                    /\ Len(ev.back.t) = Len(bs) /\ \A i \in DOMAIN bs : Says(ev.back.t[i], bs[i]) /\ ev.back.t[i].said = ev.doc.t[i].said
                 THEN {} ELSE {"read-back"})
TCheck(s, ev, script) ==
    LET p == CASE ev.e = "parse" -> Parse(ev) [] ev.e = "build" -> Build(ev) [] OTHER -> Combine(ev)
        how == IF ev.e = "parse" THEN Kind(ev.text).st \o ":" \o Kind(ev.text).kind ELSE IF ev.e = "build" THEN Built(ev.text, ev.direct).st ELSE ""
    IN [st |-> s, bad |-> p \cup {"tally:" \o ev.e \o ":" \o how}]
TFinal(log) == {}
=============================================================================
