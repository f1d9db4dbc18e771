----------------------------- MODULE MC_Transform ----------------------------
(* Transformation files as sequences of lines, each in a few layouts: the    *)
(* reading gives what was written, and what is built from it is the last     *)
(* word on every attribute.                                                  *)
EXTENDS OcaTransform, Json
CONSTANTS D, Emit, Thin
VARIABLES text, meta, cmds, n

Metas == <<<<"precompiler", "transformation">>, <<"source", "refs:Ea">>, <<"source", "b-2">>, <<"target", "refs:Eb">>, <<"name", "x y">>, <<"precompiler", "semantics">>>>
MetaText(m, w) ==
    CASE w = 1 -> "-- " \o m[1] \o "=\"" \o m[2] \o "\"\n"
      [] w = 2 -> "  --" \o m[1] \o " = '" \o m[2] \o "'\n"
      [] OTHER -> "-- " \o m[1] \o " \\\n =\"" \o m[2] \o "\"\r\n"
Cmds == <<
  [k |-> "rename", attrs |-> <<<<"a", "b">>>>], [k |-> "rename", attrs |-> <<<<"a", "c">>, <<"x-1", "y_2">>>>],
  [k |-> "link", attrs |-> <<<<"a", "d">>>>], [k |-> "link", attrs |-> <<<<"z", "b">>, <<"x-1", "x-1">>>>] >>
Sep(k, w) == IF k = "rename" THEN (IF w = 1 THEN "=" ELSE IF w = 2 THEN " = " ELSE "\\\n=\t") ELSE (IF w = 1 THEN " -> " ELSE IF w = 2 THEN "\t->" ELSE " \\\n # c\n->  ")
RECURSIVE PairsText(_, _, _)
PairsText(c, w, i) == IF i > Len(c.attrs) THEN "" ELSE (IF w = 3 THEN " \\\n\n " ELSE " ") \o c.attrs[i][1] \o Sep(c.k, w) \o c.attrs[i][2] \o PairsText(c, w, i + 1)
CmdText(c, w) == (IF w = 1 THEN UpperOf(c.k) \o " ATTRIBUTE" ELSE IF w = 2 THEN UpperOf(SubSeq(c.k, 1, 1)) \o SubSeq(c.k, 2, Len(c.k)) \o "  attribute" ELSE c.k \o " \\\n\tAttribute")
                 \o PairsText(c, w, 1) \o (IF w = 1 THEN "\n" ELSE IF w = 2 THEN " \r\n" ELSE " # d\n\n")
Layouts(i) == IF n < Thin THEN 1..3 ELSE {1}

Init == text = "" /\ meta = <<>> /\ cmds = <<>> /\ n = 0
Next ==
    /\ n < D
    /\ n' = n + 1
    /\ \/ \E i \in DOMAIN Metas, w \in Layouts(n) :
            /\ text' = text \o MetaText(Metas[i], w) /\ meta' = Put(meta, Metas[i][1], Metas[i][2]) /\ cmds' = cmds
       \/ \E i \in DOMAIN Cmds, w \in Layouts(n) :
            /\ text' = text \o CmdText(Cmds[i], w) /\ cmds' = Append(cmds, Cmds[i]) /\ meta' = meta
    /\ (Emit => PrintT("B " \o ToJson(<<text', cmds'>>)))
Spec == Init /\ [][Next]_<<text, meta, cmds, n>>

R == TFile(text)
Reads == R.st = "ok" /\ R.cmds = cmds /\ R.meta = meta
B == TBuild(R)
\* the last pair that speaks of an attribute decides
Says(a) == {<<i, j>> \in (1..Len(cmds)) \X (1..2) : j \in DOMAIN cmds[i].attrs /\ cmds[i].attrs[j][1] = a}
LastWord(a) == LET s == Says(a) IN CHOOSE x \in s : \A y \in s : y[1] < x[1] \/ (y[1] = x[1] /\ y[2] <= x[2])
LastWins == B.st = "ok" =>
    /\ \A k \in DOMAIN B.attrs : Says(B.attrs[k][1]) # {} /\ LET x == LastWord(B.attrs[k][1]) IN B.attrs[k][2] = cmds[x[1]].attrs[x[2]][2]
    /\ \A a \in {"a", "x-1", "z"} : Says(a) # {} => \E k \in DOMAIN B.attrs : B.attrs[k][1] = a
    /\ \A k, l \in DOMAIN B.attrs : B.attrs[k][1] = B.attrs[l][1] => k = l
Needs == B.st = "ok" => meta = <<>> \/ (Named(meta, "source") /\ Named(meta, "target"))
\* a file is of one kind
OneKind == LET k == Kind(text) IN (cmds # <<>> /\ k.st = "ok") => (k.kind = "transformation" /\ ValueOf(meta, "precompiler") = "transformation")
=============================================================================
