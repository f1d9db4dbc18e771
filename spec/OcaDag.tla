------------------------------- MODULE OcaDag -------------------------------
(* The version graph.                                                        *)
(*  - nodes: up maps a node to the sequence of its parents, down a node to   *)
(*    the sequence of its children, in the order they were added;            *)
(*  - histories: hist maps a content to [root, parent, cmd], the step it was *)
(*    first reached by; kept is the set of contents that are stored.         *)
EXTENDS OcaContent, OcaRule

NoGraph == [up |-> [x \in {} |-> <<>>], down |-> [x \in {} |-> <<>>], hist |-> [x \in {} |-> 0], kept |-> {}]
Up(g, n) == IF n \in DOMAIN g.up THEN g.up[n] ELSE <<>>
Down(g, n) == IF n \in DOMAIN g.down THEN g.down[n] ELSE <<>>
AddNode(g, new, to) ==       \* to: "" adds a root
    [g EXCEPT !.up = (new :> (IF to = "" THEN <<>> ELSE <<to>>)) @@ @,
              !.down = IF to = "" THEN @ ELSE (to :> Append(Down(g, to), new)) @@ @]

\* building a history: every command that leads to a content not reached
\* before records the step; it stops at a command that cannot be applied
Step(acc, c) ==
    IF acc.bad THEN acc
    ELSE IF ~Ok(acc.cur, c) THEN [acc EXCEPT !.bad = TRUE]
    ELSE LET G == Apply(acc.cur, c)
             rec == G \in DOMAIN acc.g.hist \/ (~acc.root /\ G = acc.cur)
         IN [acc EXCEPT !.cur = G, !.root = FALSE,
                        !.g.kept = @ \cup {G},
                        !.g.hist = IF rec THEN @ ELSE (G :> [root |-> acc.root, parent |-> acc.cur, cmd |-> c]) @@ @]
BuildFrom(g, based, F, cmds) == FoldLeft(Step, [g |-> g, cur |-> F, root |-> ~based, bad |-> FALSE], cmds)

RECURSIVE ChainBack(_, _, _)
ChainBack(hist, c, fuel) ==
    IF fuel = 0 \/ c \notin DOMAIN hist THEN <<>>
    ELSE LET h == hist[c]
             before == IF h.root THEN <<>> ELSE ChainBack(hist, h.parent, fuel - 1)
         IN IF ~h.root /\ before = <<>> THEN <<>> ELSE Append(before, [cmd |-> h.cmd, result |-> c])
Chain(g, c) == ChainBack(g.hist, c, Cardinality(DOMAIN g.hist) + 1)
=============================================================================
