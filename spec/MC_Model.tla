------------------------------ MODULE MC_Model ------------------------------
(* Every file of up to D commands over the alphabet: the entries of its      *)
(* model against their plain reading, "the last command before that was      *)
(* about the same object".                                                   *)
EXTENDS OcaModel, IOUtils
CONSTANTS D, Emit
VARIABLES F, hist, seen, m, log

Alphabet == JsonDeserialize("alphabet_content.json")
\* stands for the identifiers: an object is what it is a function of
Bundle(G) == [said |-> ToString(G), objs |-> [k \in Keys(G) |-> ToString(Identity(G, k))]]
Init == F = {} /\ hist = <<>> /\ seen = <<>> /\ m = Blank /\ log = <<>>
Step(i) ==
    LET c == Alphabet[i]
        G == Apply(F, c)
        e == Entry(m, c, Bundle(G))
    IN /\ Len(hist) < D
       /\ Emit => PrintT("B " \o ToJson(Append(hist, i)))
       /\ Ok(F, c)
       /\ F' = G
       /\ hist' = Append(hist, i)
       /\ seen' = Append(seen, G)
       /\ log' = Append(log, e)
       /\ m' = Turn(m, e)
Next == \E i \in DOMAIN Alphabet : Step(i)
Spec == Init /\ [][Next]_<<F, hist, seen, m, log>>

N == Len(log)
About(i) == Subject(Alphabet[hist[i]])
There(i) == About(i) \in Keys(seen[i])
Obj(i) == ToString(Identity(seen[i], About(i)))
Earlier(n) == {i \in 1..(n - 1) : There(i) /\ About(i) = About(n)}
LastOf(s) == CHOOSE i \in s : \A j \in s : j <= i
Plain == N > 0 =>
    /\ log[N].said = (IF There(N) THEN Obj(N) ELSE "")
    /\ log[N].before = (IF There(N) /\ Earlier(N) # {} THEN Obj(LastOf(Earlier(N))) ELSE "")
    /\ log[N].bundle = ToString(seen[N])
    /\ log[N].parent = (IF N = 1 THEN "" ELSE ToString(seen[N - 1]))
\* the bundle an entry names has the object it names
Holds == (N > 0 /\ log[N].said # "") => log[N].said \in ({log[N].cb} \cup log[N].ov)
\* an add leads to the object it is about
Leads == (N > 0 /\ Alphabet[hist[N]].k = "add") => There(N)
=============================================================================
