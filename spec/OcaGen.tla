------------------------------- MODULE OcaGen -------------------------------
(* Commands that build a given content: what printing a bundle as an OCAFILE *)
(* has to achieve.                                                           *)
EXTENDS OcaContent
RC == INSTANCE OcaCond

Blank == [k |-> "add", o |-> "", lang |-> "", types |-> <<>>, flagged |-> <<>>, tr |-> "", tgt |-> "", frame |-> "", props |-> <<>>, said |-> "", attrs |-> <<>>]
BlankAttr == [a |-> "", t |-> "val", v |-> "", toks |-> <<>>, codes |-> <<>>, groups |-> <<>>, entries |-> <<>>, scopes |-> <<>>]
Lang1(l3) == CHOOSE l \in DOMAIN Lang3 : Lang3[l] = l3
Num(s) == RC!NatOf(s, 1, 0)
RECURSIVE Times(_, _)
Times(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Times(x, n - 1)
Only(F, tag, a) == {f \in F : f[1] = tag /\ f[2] = a}
The(S) == CHOOSE x \in S : TRUE
Each(S, Op(_)) == LET s == SetToSeq(S) IN [i \in DOMAIN s |-> Op(s[i])]
ValAttr(a, v) == [BlankAttr EXCEPT !.a = a, !.v = v]

CbCmds(F) ==
    (IF \E f \in F : f[1] = "attr" THEN <<[Blank EXCEPT !.o = "CaptureBase", !.types = Each({f \in F : f[1] = "attr"}, LAMBDA f : <<f[2], f[3], f[4], f[5]>>)]>> ELSE <<>>)
    \o (IF \E f \in F : f[1] = "class" THEN <<[Blank EXCEPT !.o = "CaptureBase", !.props = <<<<"classification", The({f \in F : f[1] = "class"})[2]>>>>]>> ELSE <<>>)
    \o (IF \E f \in F : f[1] = "flag" THEN <<[Blank EXCEPT !.o = "CaptureBase", !.flagged = Each({f \in F : f[1] = "flag"}, LAMBDA f : f[2])]>> ELSE <<>>)

CondAttr(F, a) ==
    LET n == Cardinality(Only(F, "conddep", a))
        deps == [i \in 1..n |-> The({f \in F : f[1] = "conddep" /\ f[2] = a /\ f[3] = ToString(i - 1)})[4]]
        text == RC!Restore(The(Only(F, "cond", a))[3], deps)
    IN [BlankAttr EXCEPT !.a = a, !.v = text, !.toks = RC!RefToks(text)]
CodeAttr(F, a) ==
    IF Only(F, "ecS", a) # {} THEN ValAttr(a, The(Only(F, "ecS", a))[3])
    ELSE IF The(Only(F, "ecK", a))[3] = "arr"
    THEN [BlankAttr EXCEPT !.a = a, !.t = "arr", !.codes = FoldLeft(LAMBDA acc, f : acc \o Times(f[3], Num(f[4])), <<>>, SetToSeq(Only(F, "ecA", a)))]
    ELSE [BlankAttr EXCEPT !.a = a, !.t = "grp",
            !.groups = Each(Only(F, "ecG", a), LAMBDA g : <<g[3], [j \in 1..Num(g[4]) |-> The({f \in F : f[1] = "ecC" /\ f[2] = a /\ f[3] = g[3] /\ f[4] = ToString(j)})[5]]>>)]
EntryAttr(F, a, l) ==
    LET s == {f \in F : f[1] = "enS" /\ f[2] = a /\ f[3] = l} IN
    IF s # {} THEN ValAttr(a, The(s)[4])
    ELSE [BlankAttr EXCEPT !.a = a, !.t = "ent", !.entries = Each({f \in F : f[1] = "en" /\ f[2] = a /\ f[3] = l}, LAMBDA f : <<f[4], f[5]>>)]
FrameAttr(F, a, id) ==
    [BlankAttr EXCEPT !.a = a, !.t = "scopes",
       !.scopes = Each({f \in F : f[1] = "fscope" /\ f[2] = a /\ f[3] = id},
                       LAMBDA f : <<f[4], <<<<"predicate_id", f[5]>>, <<"framing_justification", f[6]>>>>>>)]

AttrsOf(S) == {f[2] : f \in S}
SimpleOf == [character_encoding |-> <<"CharacterEncoding", "enc">>, conformance |-> <<"Conformance", "conf">>, format |-> <<"Format", "fmt">>,
             unit |-> <<"Unit", "unit">>, cardinality |-> <<"Cardinality", "card">>]
OvCmd(F, k) ==
    LET S == OfKey(F, k)  kind == k[1] IN
    CASE kind = "meta" -> [Blank EXCEPT !.o = "Meta", !.lang = Lang1(k[2]), !.props = Each(S, LAMBDA f : <<f[3], f[4]>>)]
      [] kind = "label" -> [Blank EXCEPT !.o = "Label", !.lang = Lang1(k[2]), !.attrs = Each(S, LAMBDA f : ValAttr(f[2], f[4]))]
      [] kind = "information" -> [Blank EXCEPT !.o = "Information", !.lang = Lang1(k[2]), !.attrs = Each(S, LAMBDA f : ValAttr(f[2], f[4]))]
      [] kind \in DOMAIN SimpleOf -> [Blank EXCEPT !.o = SimpleOf[kind][1], !.attrs = Each(S, LAMBDA f : ValAttr(f[2], f[3]))]
      [] kind = "conditional" -> [Blank EXCEPT !.o = "Conditional", !.attrs = Each({f[2] : f \in {g \in S : g[1] = "cond"}}, LAMBDA a : CondAttr(F, a))]
      [] kind = "entry_code" -> [Blank EXCEPT !.o = "EntryCode", !.attrs = Each(AttrsOf(S), LAMBDA a : CodeAttr(F, a))]
      [] kind = "entry" -> [Blank EXCEPT !.o = "Entry", !.lang = Lang1(k[2]), !.attrs = Each(AttrsOf(S), LAMBDA a : EntryAttr(F, a, k[2]))]
      [] kind = "link" -> [Blank EXCEPT !.o = "Link", !.tr = "s", !.tgt = k[2], !.attrs = Each(S, LAMBDA f : ValAttr(f[2], f[4]))]
      [] kind = "attribute_framing" ->
           [Blank EXCEPT !.o = "AttributeFraming", !.frame = k[2],
              !.props = Each({f \in S : f[1] = "fmeta"}, LAMBDA f : <<SubSeq(f[3], 7, Len(f[3])), f[4]>>),
              !.attrs = Each(AttrsOf({f \in S : f[1] = "frame"}), LAMBDA a : FrameAttr(F, a, k[2]))]
Regen(F) == CbCmds(F) \o Each(Keys(F) \ {<<"cb", "">>}, LAMBDA k : OvCmd(F, k))
\* printing and building again is the identity
Faithful(F) == LET r == Fold({}, Regen(F)) IN r.bad = <<>> /\ r.cur = F
=============================================================================
