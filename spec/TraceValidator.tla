--------------------------- MODULE TraceValidator ---------------------------
(* Validates recorded conditions, their evaluation, and what the bundle      *)
(* validator said about built and tampered bundles.                          *)
EXTENDS OcaValidator, TraceDriver

Debug == "DEBUG" \in DOMAIN IOEnv
Say(x) == IF Debug THEN PrintT(x) ELSE TRUE
Same(s, S) == Len(s) = Cardinality(S) /\ ToSet(s) = S
\* the same messages the same number of times
Bag(s, t) == Len(s) = Len(t) /\ \A x \in ToSet(s) \cup ToSet(t) :
                Cardinality({i \in DOMAIN s : s[i] = x}) = Cardinality({i \in DOMAIN t : t[i] = x})

\* canon: the document is written the way the library writes it; otherwise its
\* recomputed identifiers are not those of what was read, and only whether it is
\* rejected is compared
JudgeBundle(ev, b, orig) ==
    LET v == Verdict(b, ToSet(ev.langs))
        clean == v.cond = {} /\ v.said = <<>> /\ v.trans = {}
    IN IF ev.out = "panic" THEN {"validate-panic"}
       ELSE IF ev.out = "unread" THEN (IF v.said # <<>> \/ b.bad THEN {} ELSE {"rejected-built"})
       ELSE IF "any" \in v.cond THEN {}
       ELSE IF ev.out = "ok" THEN (IF v.cond # {} THEN {"accepted-condition"} ELSE {})
                                  \cup (IF v.cond = {} /\ v.said # <<>> THEN {"accepted-tampered"} ELSE {})
                                  \cup (IF v.cond = {} /\ v.trans # {} THEN {"accepted-untranslated"} ELSE {})
       ELSE IF v.cond # {} THEN (IF Same(ev.cond, v.cond) THEN {} ELSE {"wrong-condition-errors"})
                                  \cup (IF ev.said = <<>> /\ v.said = <<>> /\ ev.trans # <<>> /\ v.trans = {} THEN {"wrong-translation-errors"} ELSE {})
       ELSE (IF ev.cond = <<>> THEN {} ELSE {"wrong-condition-errors"})
            \cup (IF Bag(ev.said, v.said) \/ (~ev.canon /\ v.said # <<>> /\ ev.said # <<>>) THEN {} ELSE {IF v.said = <<>> THEN "rejected-built" ELSE "wrong-said-errors"})
            \cup (IF Same(ev.trans, v.trans) THEN {} ELSE {"wrong-translation-errors"})

TStart(script) == 0
TCheck(s, ev, script) ==
    [st |-> s, bad |->
       CASE ev.e = "cond" ->
              LET toks == C!RefToks(ev.text) IN
              IF ev.out # "ok" THEN {"condition-panic"}
              ELSE (IF ev.stored = C!Stored(toks) THEN {} ELSE {"condition-stored"})
                   \cup (IF ev.deps = C!DepsOf(toks) THEN {} ELSE {"condition-deps"})
         [] ev.e = "restore" ->     \* a condition read back out of a built bundle
              IF ev.out # "ok" THEN {"condition-lost"} ELSE IF ev.back = ev.text THEN {} ELSE {"condition-restored"}
         [] ev.e = "check" ->
              LET want == C!Check24(ev.attr, C!RefToks(ev.text), ev.values) IN
              IF ev.out = "panic" THEN {"condition-panic"}
              ELSE IF want.out = "any" THEN {}
              ELSE IF want.out # ev.out /\ Say(<<ev, want>>) THEN {IF want.out = "ok" THEN "condition-rejected" ELSE "condition-accepted"}
              ELSE IF want.out = "ok" THEN (IF ev.value = want.v THEN {} ELSE {"condition-value"})
              ELSE IF want.msgs = <<>> THEN (IF ev.msgs = <<"Attribute '" \o ev.attr \o "' has invalid condition">> THEN {} ELSE {"condition-error"})
              ELSE IF ev.msgs = want.msgs THEN {} ELSE {"condition-error"}
         [] ev.e = "vb" ->
              LET b == script.bundles[ev.b]
                  bad == JudgeBundle(ev, b, 0)
              IN IF bad # {} /\ Say(<<ev, Verdict(b, ToSet(ev.langs))>>) THEN bad ELSE bad
         [] OTHER -> {"unknown-event"}]
TFinal(log) == {}
=============================================================================
