---------------------------- MODULE MC_Validator ----------------------------
(* A built bundle and everything that can be done to it afterwards: change,  *)
(* add or remove content, change identifiers and links, recompute some of    *)
(* the identifiers.  Identifiers are the contents they identify, written out.*)
EXTENDS OcaValidator
CONSTANT D
VARIABLES b, n, enforced

Sorted(S) == SetToSeq(S)
Obj(kind, sub, facts) == [kind |-> kind, sub |-> sub, said |-> "", dig |-> "", cb |-> "", f |-> facts]
DigObj(o) == ToString(<<o.kind, o.sub, ToSet(o.f), IF o.kind = "cb" THEN "" ELSE o.cb>>)
DigBundle(objs) == ToString([i \in DOMAIN objs |-> <<objs[i].kind, objs[i].sub, objs[i].said, ToSet(objs[i].f), objs[i].cb>>])
Facts1(objs) == FoldLeft(LAMBDA acc, o : acc \o o.f, <<>>, objs)
\* recomputes what an observer would (never the identifiers themselves)
Seen(x) ==
    LET objs == [i \in DOMAIN x.objs |-> [x.objs[i] EXCEPT !.dig = DigObj(x.objs[i])]]
    IN [x EXCEPT !.objs = objs, !.dig = DigBundle(objs), !.facts = Facts1(objs)]
FillCb(x) == [x EXCEPT !.objs[1].said = DigObj(x.objs[1]), !.objs[1].cb = DigObj(x.objs[1])]
FillLinks(x) == [x EXCEPT !.objs = [i \in DOMAIN x.objs |-> [x.objs[i] EXCEPT !.cb = x.objs[1].said]]]
FillOvs(x) == [x EXCEPT !.objs = [i \in DOMAIN x.objs |-> IF i = 1 THEN x.objs[i] ELSE [x.objs[i] EXCEPT !.said = DigObj(x.objs[i])]]]
FillB(x) == [x EXCEPT !.said = DigBundle(x.objs)]
Built(objs) == Seen(FillB(FillOvs(FillLinks(FillCb([bad |-> FALSE, said |-> "", facts |-> <<>>, objs |-> objs, dig |-> "", v |-> "", len |-> 0])))))

Attrs == <<<<"attr", "a", "0", "v", "Text">>, <<"attr", "b", "0", "v", "Text">>>>
Lab(a, l) == <<"label", a, l, "x">>
Met(k, l) == <<"meta", l, k, "x">>
Options(kind, l) ==
    IF kind = "label" THEN {<<>>, <<Lab("a", l)>>, <<Lab("b", l)>>, <<Lab("a", l), Lab("b", l)>>}
    ELSE {<<>>, <<Met("name", l)>>, <<Met("name", l), Met("note", l)>>}
Put(s, kind, l, fs) == IF fs = <<>> THEN s ELSE Append(s, Obj(kind, l, fs))
Starts == {Built(Put(Put(Put(Put(<<Obj("cb", "", Attrs)>>, "label", "eng", x1), "label", "fra", x2), "meta", "eng", x3), "meta", "fra", x4))
           : x1 \in Options("label", "eng"), x2 \in Options("label", "fra"), x3 \in Options("meta", "eng"), x4 \in Options("meta", "fra")}

Init == b \in Starts /\ n = 0 /\ enforced \in SUBSET {"eng", "fra", "deu"}
Edit(x) == b' = Seen(x) /\ n' = n + 1 /\ UNCHANGED enforced
\* tampering is looked at for a few bundles only: it does not depend on the translations
Next ==
    /\ n < D /\ enforced = {}
    /\ \/ \E i \in DOMAIN b.objs :
            \/ Edit([b EXCEPT !.objs[i].said = "other"])
            \/ i > 1 /\ Edit([b EXCEPT !.objs[i].cb = "other"])
            \/ i > 1 /\ Len(b.objs[i].f) > 1 /\ Edit([b EXCEPT !.objs[i].f = Tail(@)])
            \/ i > 1 /\ Edit([b EXCEPT !.objs[i].f = Append(@, Lab("zz", "eng"))])
            \/ i = 1 /\ Edit([b EXCEPT !.objs[1].f = Append(@, <<"flag", "a">>)])
            \/ i > 1 /\ Edit([b EXCEPT !.objs = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))])
       \/ Edit([b EXCEPT !.said = "other"])
       \/ Edit(FillCb(b)) \/ Edit(FillLinks(b)) \/ Edit(FillOvs(b)) \/ Edit(FillB(b))
Spec == Init /\ [][Next]_<<b, n, enforced>>

--------------------------------------------------------------------------
\* accepted exactly when it is what building its content gives
InvTamper == (SaidMsgs(b) = <<>>) <=>
    /\ b.said = Built(b.objs).said
    /\ \A i \in DOMAIN b.objs : b.objs[i].said = Built(b.objs).objs[i].said /\ b.objs[i].cb = Built(b.objs).objs[1].said
InvBuilt == n = 0 => SaidMsgs(b) = <<>>
\* a change that is not covered up names the object or the bundle
InvNamed == \A i \in DOMAIN b.objs :
    b.objs[i].said # b.objs[i].dig =>
        (IF i = 1 THEN "capture_base" ELSE OvWord(b.objs[i])) \o ": Malformed SAID" \in ToSet(SaidMsgs(b))
Complete == \A k \in Spoken : Langs(b, k) # {} =>
    /\ Langs(b, k) = enforced
    /\ \A l, m \in Langs(b, k) : About(b, k, l) = About(b, k, m)
InvComplete == TransMsgs(b, enforced) = {} <=> (enforced = {} \/ Complete)
\* nothing reported about a kind of overlay that is not there
InvAbsent == TransMsgs(b, enforced) # {} => \E k \in Spoken : Langs(b, k) # {}
=============================================================================
