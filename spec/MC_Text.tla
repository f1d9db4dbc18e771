------------------------------- MODULE MC_Text ------------------------------
(* Every layout of one command, or of two, with up to Dev departures from    *)
(* the plain one: what is written is what OcaText reads.                     *)
EXTENDS OcaText, Json
CONSTANTS Many, Dev, Emit
VARIABLES todo, text, want, left, dev

K(s) == <<"K", s>>
G == <<"G", "">>
E == <<"E", "">>
V(s) == <<"V", s>>
Q(s) == <<"Q", s>>
L(s) == <<"L", s>>
C == <<"C", "">>
O == <<"O", "">>
Ways(x) ==
    CASE x[1] = "K" -> <<x[2], LowerOf(x[2]), SubSeq(x[2], 1, 1) \o LowerOf(SubSeq(x[2], 2, Len(x[2])))>>
      [] x[1] = "G" -> <<" ", "   ", "\t", " \\\n", "\\ \n  ", " \\\n  # a=b\n", " \\\r\n\n \t", " \\\n\\\n">>
      [] x[1] = "E" -> <<"=", " = ", "\t=", "= \\\n">>
      [] x[1] = "V" -> <<"\"" \o x[2] \o "\"", "'" \o x[2] \o "'">> \o (IF x[2] # "" /\ Chars(x[2]) \subseteq Bare THEN <<x[2]>> ELSE <<>>)
      [] x[1] = "Q" -> <<"\"" \o x[2] \o "\"", "'" \o x[2] \o "'">>
      [] x[1] = "C" -> <<", ", ",", ",   ">>
      [] x[1] = "O" -> <<": ", ":">>
      [] x[1] = "S" -> <<"\n", "\r\n", "\n\n  \n", "\n# ADD LABEL\n", " \n", "\n  # 'x \\\n">>
      [] OTHER -> <<x[2]>>
Sep == <<"S", "">>
A(a, tt, v) == [None EXCEPT !.a = a, !.t = tt, !.v = v]
Id == "EKbH1V2gMbBTiNCE6SGTMd1wOjvpmIL-9vg1xzXfIcJe"
Cmds == <<
  [c |-> [Cmd0 EXCEPT !.types = <<<<"a", "0", "v", "Text">>, <<"b-1", "2", "v", "Numeric">>>>],
   w |-> <<K("ADD"), G, K("ATTRIBUTE"), G, L("a"), E, L("Text"), G, L("b-1"), E, L("Array[Array[Numeric]]")>>],
  [c |-> [Cmd0 EXCEPT !.types = <<<<"c.x", "0", "n", "other">>, <<"d", "1", "s", Id>>>>],
   w |-> <<K("ADD"), G, K("ATTRIBUTE"), G, L("c.x"), E, K("REFN:"), L("other"), G, L("d"), E, L("Array["), K("REFS:"), L(Id), L("]")>>],
  [c |-> [Cmd0 EXCEPT !.props = <<<<"classification", "GICS:10/1">>>>], w |-> <<K("ADD"), G, K("CLASSIFICATION"), G, V("GICS:10/1")>>],
  [c |-> [Cmd0 EXCEPT !.flagged = <<"a", "b-1">>], w |-> <<K("ADD"), G, K("FLAGGED_ATTRIBUTES"), G, V("a"), G, V("b-1")>>],
  [c |-> [Cmd0 EXCEPT !.o = "Label", !.lang = "en", !.attrs = <<A("a", "val", "it is"), A("b", "val", "x")>>],
   w |-> <<K("ADD"), G, K("LABEL"), G, L("en"), G, K("ATTRS"), G, L("a"), E, V("it is"), G, L("b"), E, V("x")>>],
  [c |-> [Cmd0 EXCEPT !.o = "Information", !.lang = "fr-CA", !.attrs = <<A("a", "val", "# \\\\ADD = -- ")>>],
   w |-> <<K("ADD"), G, K("INFORMATION"), G, L("fr-CA"), G, K("ATTRS"), G, L("a"), E, V("# \\\\ADD = -- ")>>],
  [c |-> [Cmd0 EXCEPT !.o = "Meta", !.lang = "en", !.props = <<<<"name", "N 1">>, <<"description", "">>>>],
   w |-> <<K("ADD"), G, K("META"), G, L("en"), G, K("PROPS"), G, L("name"), E, V("N 1"), G, L("description"), E, V("")>>],
  [c |-> [Cmd0 EXCEPT !.o = "Unit", !.attrs = <<A("a", "val", "m/s2"), A("b", "val", "%^(")>>],
   w |-> <<K("ADD"), G, K("UNIT"), G, K("ATTRS"), G, L("a"), E, V("m/s2"), G, L("b"), E, L("%^(")>>],
  [c |-> [Cmd0 EXCEPT !.o = "Conditional", !.attrs = <<A("a", "val", "${b} > 1 and ${c} == \\\"x\\\"")>>],
   w |-> <<K("ADD"), G, K("CONDITION"), G, K("ATTRS"), G, L("a"), E, L("\""), L("${b} > 1 and ${c} == \\\"x\\\""), L("\"")>>],
  [c |-> [Cmd0 EXCEPT !.o = "EntryCode", !.attrs = <<[None EXCEPT !.a = "a", !.t = "arr", !.codes = <<"o1", "o 2">>], [None EXCEPT !.a = "b", !.t = "grp", !.groups = <<<<"g", <<"x", "y">>>>, <<"h", <<>>>>>>], A("d", "val", Id)>>],
   w |-> <<K("ADD"), G, K("ENTRY_CODE"), G, K("ATTRS"), G, L("a=["), Q("o1"), C, Q("o 2"), L("]"), G, L("b={"), Q("g"), O, L("["), Q("x"), C, Q("y"), L("]"), C, Q("h"), O, L("[]}"), G, L("d="), V(Id)>>],
  [c |-> [Cmd0 EXCEPT !.o = "Entry", !.lang = "en", !.attrs = <<[None EXCEPT !.a = "a", !.t = "ent", !.entries = <<<<"o1", "one">>, <<"o 2", "t w o">>>>], A("d", "val", Id)>>],
   w |-> <<K("ADD"), G, K("ENTRY"), G, L("en"), G, K("ATTRS"), G, L("a={"), Q("o1"), O, Q("one"), C, Q("o 2"), O, Q("t w o"), L("}"), G, L("d="), V(Id)>>],
  [c |-> [Cmd0 EXCEPT !.o = "Link", !.tr = "s", !.tgt = Id, !.attrs = <<A("a", "val", "x")>>],
   w |-> <<K("ADD"), G, K("LINK"), G, K("REFS:"), L(Id), G, K("ATTRS"), G, L("a"), E, V("x")>>],
  [c |-> [Cmd0 EXCEPT !.o = "Link", !.tr = "n", !.tgt = "my-name", !.attrs = <<A("a", "val", "x")>>],
   w |-> <<K("ADD"), G, K("LINK"), G, K("REFN:"), L("my-name"), G, K("ATTRS"), G, L("a"), E, V("x")>>],
  [c |-> [Cmd0 EXCEPT !.o = "AttributeFraming", !.frame = "F1", !.props = <<<<"label", "the label">>, <<"version", "1.0">>>>,
                      !.attrs = <<[None EXCEPT !.a = "a", !.t = "scopes", !.scopes = <<<<"http://t/1", <<<<"predicate_id", "p">>, <<"framing_justification", "s:J">>>>>>>>]>>],
   w |-> <<K("ADD"), G, K("ATTR_FRAMING"), G, L("label"), E, V("the label"), G, L("id"), E, V("F1"), G, L("version"), E, V("1.0"), G, K("ATTRS"), G, L("a"), E,
           L("{"), Q("http://t/1"), O, L("{"), Q("predicate_id"), O, Q("p"), C, Q("framing_justification"), O, Q("s:J"), L("}"), L("}")>>],
  [c |-> [Cmd0 EXCEPT !.k = "remove", !.types = <<<<"a", "0", "null", "">>, <<"b", "0", "null", "">>>>], w |-> <<K("REMOVE"), G, K("ATTRIBUTE"), G, L("a"), G, L("b")>>],
  [c |-> [Cmd0 EXCEPT !.k = "remove", !.props = <<<<"classification", "">>>>], w |-> <<K("REMOVE"), G, K("CLASSIFICATION")>>],
  [c |-> [Cmd0 EXCEPT !.k = "remove", !.o = "Meta", !.lang = "en", !.props = <<<<"name", "">>>>], w |-> <<K("REMOVE"), G, K("META"), G, L("en"), G, K("PROPS"), G, L("name")>>],
  [c |-> [Cmd0 EXCEPT !.k = "remove", !.o = "Label", !.lang = "en-US"], w |-> <<K("REMOVE"), G, K("LABEL"), G, L("en-US")>>],
  [c |-> [Cmd0 EXCEPT !.k = "from", !.o = "OCABundle", !.said = Id], w |-> <<K("FROM"), L(" "), L(Id)>>]
>>
Init ==
    /\ want = <<>> /\ text = "" /\ todo = <<>> /\ left = Many /\ dev = 0
Begin ==
    /\ todo = <<>> /\ left > 0
    /\ \E i \in DOMAIN Cmds :
         /\ todo' = (IF want = <<>> THEN <<>> ELSE <<Sep>>) \o Cmds[i].w
         /\ want' = Append(want, Cmds[i].c)
    /\ left' = left - 1 /\ UNCHANGED <<text, dev>>
Write ==
    /\ todo # <<>>
    /\ LET ch == Ways(todo[1]) IN
       \E i \in DOMAIN ch :
         /\ i = 1 \/ dev < Dev
         /\ text' = text \o ch[i]
         /\ dev' = IF i = 1 THEN dev ELSE dev + 1
    /\ todo' = Tail(todo)
    /\ (Emit /\ Len(todo) = 1 /\ left = 0 => PrintT("B " \o ToJson(<<text', want>>)))
    /\ UNCHANGED <<want, left>>
Next == Begin \/ Write
Spec == Init /\ [][Next]_<<todo, text, want, left, dev>>

Done == todo = <<>> /\ want # <<>>
Reads == Done => LET r == Read(text) IN r.st = "ok" /\ r.cmds = want
\* every end of line can be added, and a comment in front: nothing changes
Padded == Done => LET r == Read("# x\n\n" \o text \o "\n") IN r.st = "ok" /\ r.cmds = want
\* lines point at where the commands stand
Placed == Done => LET r == Read(text) IN \A i \in DOMAIN r.at : r.at[i].line = 1 + Newlines(text, 1, r.at[i].p)
=============================================================================
