------------------------------ MODULE OcaRule ------------------------------
(* The rule a file is checked against while it is parsed: within one file an *)
(* attribute is added once, and only what is there can be removed.  State:   *)
(* the attributes and the classification the file has added so far.          *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

RuleInit == [attrs |-> {}, cls |-> FALSE]
RNames(c) == {c.types[i][1] : i \in DOMAIN c.types}
RClass(c) == \E i \in DOMAIN c.props : c.props[i][1] = "classification"
RuleOk(r, c) ==
    CASE c.o # "CaptureBase" -> TRUE
      [] c.k = "add" -> RNames(c) \cap r.attrs = {}
      [] c.k = "remove" -> RNames(c) \subseteq r.attrs /\ (RClass(c) => r.cls)
      [] OTHER -> TRUE
RuleApply(r, c) ==
    CASE c.o # "CaptureBase" -> r
      [] c.k = "add" -> [attrs |-> r.attrs \cup RNames(c), cls |-> r.cls \/ RClass(c)]
      [] c.k = "remove" -> [attrs |-> r.attrs \ RNames(c), cls |-> r.cls /\ ~RClass(c)]
      [] OTHER -> r
\* position of the first command the rule rejects, 0 if none
RuleScan(cmds) ==
    FoldLeft(LAMBDA acc, c : IF acc.bad # 0 THEN acc
                             ELSE IF RuleOk(acc.r, c) THEN [acc EXCEPT !.r = RuleApply(acc.r, c), !.n = @ + 1]
                             ELSE [acc EXCEPT !.bad = acc.n + 1],
             [r |-> RuleInit, n |-> 0, bad |-> 0], cmds)
RuleBad(cmds) == RuleScan(cmds).bad
=============================================================================
