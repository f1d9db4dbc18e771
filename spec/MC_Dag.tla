------------------------------- MODULE MC_Dag -------------------------------
(* All version graphs and histories of up to D additions and commands.       *)
EXTENDS OcaDag, Json, IOUtils
CONSTANTS D, Emit
VARIABLES g, cur, root, h
Alphabet == JsonDeserialize("alphabet_content.json")
Use == {1, 2, 3, 4, 6, 7, 8, 9, 11, 12, 14, 15, 16, 22, 24}     \* some of every sort, faulty ones too
Nodes == {"x", "y", "z"}
Init == g = NoGraph /\ cur = {} /\ root = TRUE /\ h = <<>>
Ev(e) == Len(h) < D /\ h' = Append(h, e) /\ (Emit => PrintT("B " \o ToJson(h')))
AddOne == \E n \in Nodes \ DOMAIN g.up, to \in {""} \cup DOMAIN g.up :
    Ev(<<"add", n, to>>) /\ g' = AddNode(g, n, to) /\ UNCHANGED <<cur, root>>
Cmd == \E i \in Use :
    LET r == Step([g |-> g, cur |-> cur, root |-> root, bad |-> FALSE], Alphabet[i]) IN
    Ev(<<"cmd", ToString(i), "">>) /\ g' = r.g /\ cur' = r.cur /\ root' = r.root
Again == Ev(<<"new", "", "">>) /\ cur' = {} /\ root' = TRUE /\ UNCHANGED g
Next == AddOne \/ Cmd \/ Again
Spec == Init /\ [][Next]_<<g, cur, root, h>>
View == <<g, cur, root, IF Emit THEN h ELSE <<>>, Len(h)>>

BothWays == \A a, b \in Nodes : (\E i \in DOMAIN Up(g, a) : Up(g, a)[i] = b) <=> (\E i \in DOMAIN Down(g, b) : Down(g, b)[i] = a)
OnceListed == \A a \in Nodes : Cardinality(Rng(Down(g, a))) = Len(Down(g, a))
RECURSIVE Roots(_, _)
Roots(n, fuel) == IF Up(g, n) = <<>> THEN TRUE ELSE fuel > 0 /\ Roots(Up(g, n)[1], fuel - 1)
ToTheRoot == \A n \in DOMAIN g.up : Roots(n, Cardinality(Nodes))
\* every recorded history is finite, starts from nothing and replays to what it is the history of
Replays == \A c \in g.kept :
    LET ch == Chain(g, c) IN
    /\ ch # <<>>
    /\ Fold({}, [i \in DOMAIN ch |-> ch[i].cmd]).steps = [i \in DOMAIN ch |-> ch[i].result]
\* what is recorded stays
Stays == [][\A c \in DOMAIN g.hist : c \in DOMAIN g'.hist /\ g'.hist[c] = g.hist[c]]_<<g, cur, root, h>>
=============================================================================
