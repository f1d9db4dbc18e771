------------------------------ MODULE OcaModel ------------------------------
(* The change model of a build: what each command led to, and the entry that *)
(* went before it.  An object is known by <<kind, subject>>; the model of a  *)
(* build starts from nothing, whatever bundle the file extends.              *)
EXTENDS OcaContent

Blank == [b |-> "", cb |-> "", ov |-> [k \in {} |-> ""]]
KindOfObject == [Label |-> "label", Information |-> "information", Meta |-> "meta", CharacterEncoding |-> "character_encoding",
  Conformance |-> "conformance", Format |-> "format", Unit |-> "unit", Cardinality |-> "cardinality", Conditional |-> "conditional",
  EntryCode |-> "entry_code", Entry |-> "entry", Link |-> "link", AttributeFraming |-> "attribute_framing"]
\* the object a command is about
Subject(c) ==
    CASE c.o = "CaptureBase" -> <<"cb", "">>
      [] c.o \in PerLang -> <<KindOfObject[c.o], Lang3[c.lang]>>
      [] c.o = "Link" -> <<"link", c.tgt>>
      [] c.o = "AttributeFraming" -> <<"attribute_framing", c.frame>>
      [] OTHER -> <<KindOfObject[c.o], "">>
Before(m, k) == IF k[1] = "cb" THEN m.cb ELSE IF k \in DOMAIN m.ov THEN m.ov[k] ELSE ""
\* the entry of command c that led to bundle b = [said, objs : key -> identifier]
Entry(m, c, b) ==
    LET k == Subject(c) IN
    [about |-> IF k \in DOMAIN b.objs THEN k ELSE <<"", "">>,
     said |-> IF k \in DOMAIN b.objs THEN b.objs[k] ELSE "",
     before |-> IF k \in DOMAIN b.objs THEN Before(m, k) ELSE "",
     bundle |-> b.said, parent |-> m.b, cb |-> b.objs[<<"cb", "">>], ov |-> {b.objs[x] : x \in DOMAIN b.objs \ {<<"cb", "">>}}]
Turn(m, e) ==
    [b |-> e.bundle,
     cb |-> IF e.about[1] = "cb" THEN e.said ELSE m.cb,
     ov |-> IF e.about[1] \in {"", "cb"} THEN m.ov ELSE (e.about :> e.said) @@ m.ov]
=============================================================================
