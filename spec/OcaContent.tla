----------------------------- MODULE OcaContent -----------------------------
(* The meaning of an OCAFILE.                                                *)
(*                                                                           *)
(* The content of a bundle is a set of facts, each a tuple of strings        *)
(*   <<"attr", a, depth, kind, type>>  <<"class", v>>     <<"flag", a>>      *)
(*   <<"meta", lang, key, v>>          <<"label", a, lang, v>>               *)
(*   <<"info", a, lang, v>>            <<"enc"|"conf"|"fmt"|"unit"|"card", a, v>>*)
(*   <<"cond", a, stored>>             <<"conddep", a, index, attribute>>    *)
(*   <<"ecS", a, said>>   <<"ecK", a, "arr"|"grp">>  <<"ecA", a, code, n>>   *)
(*   <<"ecG", a, group, n>>            <<"ecC", a, group, index, code>>      *)
(*   <<"enS", a, lang, said>> <<"enK", a, lang, "obj">> <<"en", a, lang, code, text>>*)
(*   <<"link", a, target, mapped>>                                           *)
(*   <<"frame", a, id>>  <<"fscope", a, id, term, predicate, justification>> *)
(*   <<"fmeta", id, key, v>>                                                 *)
(* and building a file is folding Apply over its commands.                   *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json

Lang3 == JsonDeserialize("lang3.json")
Encodings == {"base64", "utf-8", "iso-8859-1", "utf-16", "utf-16be", "utf-16le"}
ReservedMeta == {"d", "type", "capture_base", "language"}
PerLang == {"Meta", "Label", "Information", "Entry"}
OfAttr == {"attr", "flag", "label", "info", "enc", "conf", "fmt", "unit", "card",
           "cond", "conddep", "ecS", "ecK", "ecA", "ecG", "ecC", "enS", "enK",
           "en", "link", "frame", "fscope"}

Rng(s) == {s[i] : i \in DOMAIN s}
AttrNames(F) == {x[2] : x \in {y \in F : y[1] = "attr"}}
Frames(F) == {x[3] : x \in {y \in F : y[1] = "frame"}}
\* metadata of a frame lives as long as the frame frames something
Norm(F) == LET fr == Frames(F) IN {x \in F : x[1] = "fmeta" => x[2] \in fr}

--------------------------------------------------------------------------
(* conditions: a sequence of <<"t", text>> and <<"r", attribute>> *)
CondDeps(toks) ==
    FoldLeft(LAMBDA acc, t : IF t[1] = "r" /\ t[2] \notin Rng(acc) THEN Append(acc, t[2]) ELSE acc, <<>>, toks)
IndexOf(s, v) == CHOOSE i \in DOMAIN s : s[i] = v
CondStored(toks) ==
    LET deps == CondDeps(toks)
    IN FoldLeft(LAMBDA acc, t : acc \o (IF t[1] = "r" THEN "${" \o ToString(IndexOf(deps, t[2]) - 1) \o "}" ELSE t[2]), "", toks)
CondText(toks) ==
    FoldLeft(LAMBDA acc, t : acc \o (IF t[1] = "r" THEN "${" \o t[2] \o "}" ELSE t[2]), "", toks)

--------------------------------------------------------------------------
(* commands that can be applied *)
LangOk(c) == c.lang \in DOMAIN Lang3
Named(c) == {c.attrs[i].a : i \in DOMAIN c.attrs}
TypeNames(c) == {c.types[i][1] : i \in DOMAIN c.types}

Ok(F, c) ==
    CASE c.k = "add" /\ c.o = "CaptureBase" -> Rng(c.flagged) \subseteq (AttrNames(F) \cup TypeNames(c))
      [] c.k = "remove" /\ c.o = "CaptureBase" -> TRUE
      [] c.k = "add" /\ c.o # "OCABundle" ->
            /\ c.o \in PerLang => LangOk(c)
            /\ c.o = "Meta" => \A i \in DOMAIN c.props : c.props[i][1] \notin ReservedMeta
            /\ c.o = "CharacterEncoding" => \A i \in DOMAIN c.attrs : c.attrs[i].v \in Encodings
            /\ c.o = "Link" => c.tr = "s"
            /\ Named(c) \subseteq AttrNames(F)
      [] OTHER -> FALSE

--------------------------------------------------------------------------
(* what one command does *)
Codes(cs) == {cs[i] : i \in DOMAIN cs}
Count(cs, v) == Cardinality({i \in DOMAIN cs : cs[i] = v})
CodesFacts(a, x) ==
    CASE x.t = "val" -> {<<"ecS", a, x.v>>}
      [] x.t = "arr" -> {<<"ecK", a, "arr">>} \cup {<<"ecA", a, v, ToString(Count(x.codes, v))>> : v \in Codes(x.codes)}
      [] x.t = "grp" -> {<<"ecK", a, "grp">>}
             \cup {<<"ecG", a, x.groups[i][1], ToString(Len(x.groups[i][2]))>> : i \in DOMAIN x.groups}
             \cup UNION {{<<"ecC", a, x.groups[i][1], ToString(j), x.groups[i][2][j]>> : j \in DOMAIN x.groups[i][2]} : i \in DOMAIN x.groups}
EntryFacts(a, l, x) ==
    IF x.t = "val" THEN {<<"enS", a, l, x.v>>}
    ELSE {<<"enK", a, l, "obj">>} \cup {<<"en", a, l, x.entries[i][1], x.entries[i][2]>> : i \in DOMAIN x.entries}
ScopeVal(s, k) == LET i == CHOOSE j \in DOMAIN s : s[j][1] = k IN s[i][2]
ScopeFacts(a, fid, x) ==
    {<<"frame", a, fid>>} \cup
    {<<"fscope", a, fid, x.scopes[i][1], ScopeVal(x.scopes[i][2], "predicate_id"), ScopeVal(x.scopes[i][2], "framing_justification")>> : i \in DOMAIN x.scopes}

Simple == [CharacterEncoding |-> "enc", Conformance |-> "conf", Format |-> "fmt", Unit |-> "unit", Cardinality |-> "card"]

\* <<what it replaces, what it states>> for one attribute of an overlay command
OneAttr(F, c, x) ==
    LET a == x.a  l == IF c.o \in PerLang THEN Lang3[c.lang] ELSE "" IN
    CASE c.o = "Label" -> ({f \in F : ~(f[1] = "label" /\ f[2] = a /\ f[3] = l)} \cup {<<"label", a, l, x.v>>})
      [] c.o = "Information" -> ({f \in F : ~(f[1] = "info" /\ f[2] = a /\ f[3] = l)} \cup {<<"info", a, l, x.v>>})
      [] c.o \in DOMAIN Simple -> ({f \in F : ~(f[1] = Simple[c.o] /\ f[2] = a)} \cup {<<Simple[c.o], a, x.v>>})
      [] c.o = "Conditional" ->
            LET deps == CondDeps(x.toks) IN
            ({f \in F : ~(f[1] \in {"cond", "conddep"} /\ f[2] = a)}
             \cup {<<"cond", a, CondStored(x.toks)>>} \cup {<<"conddep", a, ToString(i - 1), deps[i]>> : i \in DOMAIN deps})
      [] c.o = "EntryCode" -> ({f \in F : ~(f[1] \in {"ecS", "ecK", "ecA", "ecG", "ecC"} /\ f[2] = a)} \cup CodesFacts(a, x))
      [] c.o = "Entry" -> ({f \in F : ~(f[1] \in {"enS", "enK", "en"} /\ f[2] = a /\ f[3] = l)} \cup EntryFacts(a, l, x))
      [] c.o = "Link" -> ({f \in F : ~(f[1] = "link" /\ f[2] = a /\ f[3] = c.tgt)} \cup {<<"link", a, c.tgt, x.v>>})
      [] c.o = "AttributeFraming" ->
            LET terms == {x.scopes[i][1] : i \in DOMAIN x.scopes} IN
            ({f \in F : ~(f[1] = "fscope" /\ f[2] = a /\ f[3] = c.frame /\ f[4] \in terms)} \cup ScopeFacts(a, c.frame, x))
      [] OTHER -> F

OneType(F, t) == {f \in F : ~(f[1] = "attr" /\ f[2] = t[1])} \cup {<<"attr", t[1], t[2], t[3], t[4]>>}
OneMeta(F, l, p) == {f \in F : ~(f[1] = "meta" /\ f[2] = l /\ f[3] = p[1])} \cup {<<"meta", l, p[1], p[2]>>}
OneFrameMeta(F, fid, p) ==
    {f \in F : ~(f[1] = "fmeta" /\ f[2] = fid /\ f[3] = "frame_" \o p[1])} \cup {<<"fmeta", fid, "frame_" \o p[1], p[2]>>}
OneClass(F, p) ==
    IF p[1] # "classification" THEN F
    ELSE {f \in F : f[1] # "class"} \cup (IF p[2] = "" THEN {} ELSE {<<"class", p[2]>>})

DropAttr(F, a) == {f \in F : ~(f[1] \in OfAttr /\ f[2] = a)}

Apply(F, c) ==
    CASE c.k = "remove" ->
            Norm(LET G == FoldLeft(LAMBDA acc, t : DropAttr(acc, t[1]), F, c.types)
                 IN IF \E i \in DOMAIN c.props : c.props[i][1] = "classification" THEN {f \in G : f[1] # "class"} ELSE G)
      [] c.o = "CaptureBase" ->
            LET G == FoldLeft(OneType, F, c.types)
                H == FoldLeft(OneClass, G, c.props)
            IN H \cup {<<"flag", c.flagged[i]>> : i \in DOMAIN c.flagged}
      [] c.o = "Meta" -> FoldLeft(LAMBDA acc, p : OneMeta(acc, Lang3[c.lang], p), F, c.props)
      [] c.o = "AttributeFraming" ->
            Norm(FoldLeft(LAMBDA acc, p : OneFrameMeta(acc, c.frame, p),
                          FoldLeft(LAMBDA acc, x : OneAttr(acc, c, x), F, c.attrs), c.props))
      [] OTHER -> FoldLeft(LAMBDA acc, x : OneAttr(acc, c, x), F, c.attrs)

--------------------------------------------------------------------------
(* a whole file: contents after each applied command, and the positions of   *)
(* the commands that cannot be applied (they are skipped)                    *)
Fold(F0, cmds) ==
    FoldLeft(LAMBDA acc, c :
               IF Ok(acc.cur, c)
               THEN LET G == Apply(acc.cur, c) IN [cur |-> G, steps |-> Append(acc.steps, G), bad |-> acc.bad, n |-> acc.n + 1]
               ELSE [cur |-> acc.cur, steps |-> acc.steps, bad |-> Append(acc.bad, acc.n + 1), n |-> acc.n + 1],
             [cur |-> F0, steps |-> <<>>, bad |-> <<>>, n |-> 0], cmds)

--------------------------------------------------------------------------
(* the objects a content is made of *)
CbFacts(F) == {f \in F : f[1] \in {"attr", "class", "flag"}}
KeyOf(f) ==
    CASE f[1] \in {"attr", "class", "flag"} -> <<"cb", "">>
      [] f[1] = "meta" -> <<"meta", f[2]>>
      [] f[1] = "label" -> <<"label", f[3]>>
      [] f[1] = "info" -> <<"information", f[3]>>
      [] f[1] = "enc" -> <<"character_encoding", "">>
      [] f[1] = "conf" -> <<"conformance", "">>
      [] f[1] = "fmt" -> <<"format", "">>
      [] f[1] = "unit" -> <<"unit", "">>
      [] f[1] = "card" -> <<"cardinality", "">>
      [] f[1] \in {"cond", "conddep"} -> <<"conditional", "">>
      [] f[1] \in {"ecS", "ecK", "ecA", "ecG", "ecC"} -> <<"entry_code", "">>
      [] f[1] \in {"enS", "enK", "en"} -> <<"entry", f[3]>>
      [] f[1] = "link" -> <<"link", f[3]>>
      [] f[1] \in {"frame", "fscope"} -> <<"attribute_framing", f[3]>>
      [] f[1] = "fmeta" -> <<"attribute_framing", f[2]>>
      [] OTHER -> <<"junk", "">>
Keys(F) == {<<"cb", "">>} \cup {KeyOf(f) : f \in F}
OfKey(F, k) == {f \in F : KeyOf(f) = k}
\* what the identifier of an object is a function of
Identity(F, k) == <<k, OfKey(F, k), CbFacts(F)>>

\* two facts that say different things about the same thing
FactKey(f) ==
    CASE f[1] \in {"attr", "enc", "conf", "fmt", "unit", "card", "cond", "ecS", "ecK"} -> <<f[1], f[2]>>
      [] f[1] = "class" -> <<f[1]>>
      [] f[1] \in {"flag", "frame"} -> f
      [] f[1] \in {"meta", "label", "info", "conddep", "ecA", "ecG", "enS", "enK", "link", "fmeta"} -> <<f[1], f[2], f[3]>>
      [] f[1] \in {"ecC", "en", "fscope"} -> <<f[1], f[2], f[3], f[4]>>
      [] OTHER -> f
Functional(F) == \A f, g \in F : FactKey(f) = FactKey(g) => f = g
Owned(F) == \A f \in F : f[1] \in OfAttr => f[2] \in AttrNames(F)
=============================================================================
