---------------------------- MODULE OcaValidator ----------------------------
(* What the bundle validator says about a bundle: a record of Bundles.tla    *)
(* whose identifiers (said) and recomputed identifiers (dig) are both known. *)
EXTENDS Bundles
C == INSTANCE OcaCond

TypeName == [meta |-> "Meta", label |-> "Label", information |-> "Information", character_encoding |-> "CharacterEncoding",
             conformance |-> "Conformance", format |-> "Format", unit |-> "Unit", cardinality |-> "Cardinality",
             conditional |-> "Conditional", entry_code |-> "EntryCode", entry |-> "Entry", link |-> "Link", attribute_framing |-> "AttributeFraming"]
LangWord == [eng |-> "English", fra |-> "French", deu |-> "German", pol |-> "Polish", spa |-> "Spanish"]
Spoken == {"meta", "label", "information", "entry"}

--------------------------------------------------------------------------
(* identifiers and links *)
OvWord(o) == TypeName[o.kind] \o (IF o.kind \in Spoken THEN " (" \o LangWord[o.sub] \o ")" ELSE "")
SaidMsgs(b) ==
    (IF b.said = b.dig THEN <<>> ELSE <<"OCA Bundle: Malformed SAID">>)
    \o (IF b.objs[1].said = b.objs[1].dig THEN <<>> ELSE <<"capture_base: Malformed SAID">>)
    \o FoldLeft(LAMBDA acc, o :
          IF o.kind = "cb" THEN acc ELSE
          acc \o (IF o.said = o.dig THEN <<>> ELSE <<OvWord(o) \o ": Malformed SAID">>)
              \o (IF o.cb = b.objs[1].said THEN <<>> ELSE <<OvWord(o) \o ": Mismatch capture_base SAI">>), <<>>, b.objs)

--------------------------------------------------------------------------
(* translations *)
Langs(b, kind) == {b.objs[i].sub : i \in {j \in DOMAIN b.objs : b.objs[j].kind = kind}}
\* what an overlay of a kind translates: keys of the meta data, attributes otherwise
About(b, kind, lang) ==
    UNION {{(IF kind = "meta" THEN f[3] ELSE f[2]) : f \in ToSet(b.objs[i].f)}
           : i \in {j \in DOMAIN b.objs : b.objs[j].kind = kind /\ b.objs[j].sub = lang}}
TransMsgs(b, enforced) ==
    IF enforced = {} THEN {} ELSE
    UNION {LET here == Langs(b, kind)
               all == UNION {About(b, kind, l) : l \in here}
               head == (IF kind = "meta" THEN "meta" ELSE TypeName[kind]) \o " overlay: "
           IN IF here = {} THEN {} ELSE
              {head \o "translations in " \o l \o " language are not enforced" : l \in here \ enforced}
              \cup {head \o "translations in " \o l \o " language are missing" : l \in enforced \ here}
              \cup UNION {{IF kind = "meta"
                           THEN head \o "for '" \o x \o "' translation in " \o l \o " language is missing"
                           ELSE head \o "for '" \o x \o "' attribute missing translations in " \o l \o " language"
                           : x \in all \ About(b, kind, l)} : l \in here}
           : kind \in Spoken}

--------------------------------------------------------------------------
(* conditions, on stand-in values of the types of what they refer to *)
Mock(t) ==     \* <<"attr", name, depth, kind, type>>
    LET base == CASE t[4] # "v" -> "" [] t[5] = "Text" -> "'test'" [] t[5] = "Numeric" -> "0" [] t[5] = "DateTime" -> "'2020-01-01'"
                  [] t[5] = "Binary" -> "test" [] OTHER -> "true"
    IN IF t[3] = "0" THEN (IF t[4] = "v" THEN base ELSE IF t[4] = "s" THEN "'refs:" \o t[5] \o "'" ELSE "'refn:" \o t[5] \o "'")
       ELSE IF t[3] = "1" /\ t[4] = "v" THEN "{" \o base \o "}" ELSE "{}"
DepsOfCond(F, a) ==
    LET n == Cardinality({f \in F : f[1] = "conddep" /\ f[2] = a})
    IN [i \in 1..n |-> (CHOOSE f \in F : f[1] = "conddep" /\ f[2] = a /\ f[3] = ToString(i - 1))[4]]
DepsWhole(F, a) ==
    LET n == Cardinality({f \in F : f[1] = "conddep" /\ f[2] = a})
    IN \A i \in 1..n : \E f \in F : f[1] = "conddep" /\ f[2] = a /\ f[3] = ToString(i - 1)
TypeOf(F, a) == CHOOSE f \in F : f[1] = "attr" /\ f[2] = a
MockText(F, stored, deps) ==
    FoldLeft(LAMBDA acc, t : acc \o (IF t[1] = "t" THEN t[2]
                                     ELSE IF C!AllDigits(t[2]) /\ Len(t[2]) < 6 /\ C!NatOf(t[2], 1, 0) < Len(deps)
                                     THEN Mock(TypeOf(F, deps[C!NatOf(t[2], 1, 0) + 1]))
                                     ELSE "${" \o t[2] \o "}"), "", C!RefToks(stored))
\* the messages about the condition of one attribute; "any" when it is beyond this specification
CondMsgs1(F, a) ==
    LET stored == (CHOOSE f \in F : f[1] = "cond" /\ f[2] = a)[3]
        deps == DepsOfCond(F, a)
        unknown == {d \in Rng(deps) : d \notin AttrNames(F)}
    IN IF a \in Rng(deps) THEN {C!SelfMsg(a)}
       ELSE IF unknown # {} THEN {"Attribute '" \o a \o "' has a condition on unknown attribute '" \o d \o "'" : d \in unknown}
       ELSE LET e == C!EvalText(MockText(F, stored, deps))
            IN IF e = "any" THEN {"any"} ELSE IF e = "err" THEN {"Attribute '" \o a \o "' has invalid condition"} ELSE {}
CondMsgs(F) == UNION {CondMsgs1(F, f[2]) : f \in {g \in F : g[1] = "cond"}}

Verdict(b, enforced) ==
    LET F == ToSet(b.facts)
        cm == IF \E f \in F : f[1] = "cond" /\ ~DepsWhole(F, f[2]) THEN {"any"} ELSE CondMsgs(F)
    IN [cond |-> cm, said |-> SaidMsgs(b), trans |-> TransMsgs(b, enforced)]
=============================================================================
