----------------------------- MODULE MC_Content -----------------------------
(* Exhaustive exploration of the command fold over a small alphabet of       *)
(* commands (alphabet_content.json): every content reachable within D        *)
(* commands, every command tried in each.  Also prints one behaviour per     *)
(* transition, which the runner replays in the real builder.                 *)
EXTENDS OcaGen, IOUtils
CONSTANTS D, Emit
VARIABLES F, hist

Alphabet == JsonDeserialize("alphabet_content.json")
N == Len(Alphabet)

\* from nothing, and from a bundle that has both attributes
Init == \/ F = {} /\ hist = <<>>
        \/ F = Apply({}, Alphabet[3]) /\ hist = <<3>>
Step(i) ==
    /\ Len(hist) < D + (IF hist # <<>> /\ hist[1] = 3 THEN 1 ELSE 0)
    /\ Emit => PrintT("B " \o ToJson(Append(hist, i)))
    /\ Ok(F, Alphabet[i])
    /\ F' = Apply(F, Alphabet[i])
    /\ hist' = Append(hist, i)
Next == \E i \in 1..N : Step(i)
Spec == Init /\ [][Next]_<<F, hist>>
Content == F

--------------------------------------------------------------------------
Touched(c) == Named(c) \cup TypeNames(c) \cup Rng(c.flagged)
\* the objects a command may touch
Target(c) ==
    CASE c.k = "remove" -> {"cb", "label", "information", "meta", "character_encoding", "conformance", "format", "unit",
                            "cardinality", "conditional", "entry_code", "entry", "link", "attribute_framing"}
      [] c.o = "CaptureBase" -> {"cb"}
      [] c.o = "Label" -> {"label"} [] c.o = "Information" -> {"information"} [] c.o = "Meta" -> {"meta"}
      [] c.o = "CharacterEncoding" -> {"character_encoding"} [] c.o = "Conformance" -> {"conformance"}
      [] c.o = "Format" -> {"format"} [] c.o = "Unit" -> {"unit"} [] c.o = "Cardinality" -> {"cardinality"}
      [] c.o = "Conditional" -> {"conditional"} [] c.o = "EntryCode" -> {"entry_code"} [] c.o = "Entry" -> {"entry"}
      [] c.o = "Link" -> {"link"} [] c.o = "AttributeFraming" -> {"attribute_framing"}
      [] OTHER -> {}

InvFunctional == Functional(F)
InvOwned == Owned(F)
InvObjects ==
    /\ \A f \in F : KeyOf(f)[1] # "junk"
    /\ UNION {OfKey(F, k) : k \in Keys(F)} = F
InvConditions == \A f \in F : f[1] = "conddep" => \E g \in F : g[1] = "cond" /\ g[2] = f[2]
InvFrames == \A f \in F : f[1] = "fmeta" => \E g \in F : g[1] = "fscope" /\ g[3] = f[2]
\* stating something twice is stating it once
InvIdempotent == \A i \in 1..N : Ok(F, Alphabet[i]) =>
    LET G == Apply(F, Alphabet[i]) IN ~Ok(G, Alphabet[i]) \/ Apply(G, Alphabet[i]) = G
\* commands about different attributes or different kinds of objects commute
Independent(c, d) == (Target(c) \cap Target(d) = {} \/ Touched(c) \cap Touched(d) = {})
                     /\ c.k = "add" /\ d.k = "add" /\ c.types = <<>> /\ d.types = <<>>
                     /\ (c.o = "Meta" /\ d.o = "Meta" => c.lang # d.lang)
                     /\ ~(c.o = "AttributeFraming" /\ d.o = "AttributeFraming" /\ c.frame = d.frame)
                     /\ ~(c.o = "CaptureBase" /\ d.o = "CaptureBase")
InvCommute == \A i, j \in 1..N :
    LET c == Alphabet[i]  d == Alphabet[j] IN
    (i < j /\ Independent(c, d) /\ Ok(F, c) /\ Ok(F, d)) =>
        Apply(Apply(F, c), d) = Apply(Apply(F, d), c)
\* a later command replaces what it is about and touches nothing else
Frame ==
    \A i \in 1..N :
      LET c == Alphabet[i] IN
      Ok(F, c) =>
        LET G == Apply(F, c) IN
        \A f \in (F \ G) \cup (G \ F) :
            /\ KeyOf(f)[1] \in Target(c)
            /\ f[1] \in OfAttr => f[2] \in Touched(c)
            /\ f[1] = "meta" => c.o = "Meta" /\ f[2] = Lang3[c.lang]
            /\ f[1] \in {"label", "info", "enS", "enK", "en"} /\ c.k = "add" => f[3] = Lang3[c.lang]
\* a removed attribute leaves nothing behind
Removed == \A i \in 1..N :
    LET c == Alphabet[i] IN
    (c.k = "remove" /\ Ok(F, c)) => \A f \in Apply(F, c) : f[1] \in OfAttr => f[2] \notin TypeNames(c)
\* distinct contents stay distinct under adding what neither has: identity is content
InvIdentity == \A k \in Keys(F) : Identity(F, k)[3] = CbFacts(F)
\* what printing a bundle has to achieve can be achieved
InvRegen == Faithful(F)
=============================================================================
