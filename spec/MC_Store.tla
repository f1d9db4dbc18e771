------------------------------ MODULE MC_Store ------------------------------
(* Every history of at most D builds and validations of a small alphabet of  *)
(* files (alphabet_store.json), each also on top of every bundle built so    *)
(* far.  Prints one behaviour per transition for replay in the real library. *)
EXTENDS OcaStore, IOUtils
CONSTANTS D, Emit
VARIABLES st, past     \* past: <<file, base (0 or a position in past), "build" or "validate">>, and what came out

Files == JsonDeserialize("alphabet_store.json")
MCSaid(t, F) == "S" \o ToString(F)
Env == EnvOf(st, {})

FileAt(i, b) == [based |-> Files[i].based, cmds |-> Files[i].cmds, name |-> Files[i].name, base |-> IF b = 0 THEN {} ELSE past[b].cur]
Bases(i) == IF Files[i].based THEN {b \in DOMAIN past : past[b].how = "build" /\ past[b].kind = "ok"} ELSE {0}
Init == st = Empty /\ past = <<>>
Do(i, b, how) ==
    LET file == FileAt(i, b)
        out == Outcome(st, file, Env)
        cur == IF out.kind = "ok" THEN out.cur ELSE {}
        after == Append(past, [f |-> i, b |-> b, how |-> how, kind |-> out.kind, cur |-> cur])
    IN /\ past' = after
       /\ st' = IF out.kind # "ok" THEN st
                ELSE IF how = "build" THEN Name(Store(st, file, out), file, out) ELSE Name(st, file, out)
       /\ Emit => PrintT("B " \o ToJson([j \in DOMAIN after |-> <<after[j].f, after[j].b, after[j].how>>]))
Next == /\ Len(past) < D
        /\ \E i \in DOMAIN Files : \E b \in Bases(i) : \E how \in {"build", "validate"} :
             (how = "validate" => Files[i].name # "") /\ Do(i, b, how)
Spec == Init /\ [][Next]_<<st, past>>
View == <<st, Len(past)>>

--------------------------------------------------------------------------
\* C11: every stored content has a complete history that replays to it
InvHistory ==
    \A c \in Stored(st) :
      LET h == History(st, c)
          r == Fold({}, [i \in DOMAIN h |-> h[i].cmd])
      IN /\ h # <<>>
         /\ r.bad = <<>>
         /\ r.steps = [i \in DOMAIN h |-> h[i].result]
         /\ h[Len(h)].result = c
\* what was recorded stays (an action property)
Kept == \A c \in DOMAIN st.hist : c \in DOMAIN st'.hist /\ st'.hist[c] = st.hist[c]
Grows == IsPrefix(st.built, st'.built) /\ IsPrefix(st.cbs, st'.cbs)
NamesKept == DOMAIN st.refs \subseteq DOMAIN st'.refs
Stable == [][Kept /\ Grows /\ NamesKept]_<<st, past>>
\* C19: listings have no repetitions and hold what is stored
InvListed ==
    /\ BuiltSet(st) \subseteq Stored(st)
    /\ Cardinality(BuiltSet(st)) = Len(st.built)
    /\ Cardinality(Rng(st.cbs)) = Len(st.cbs)
    /\ Rng(st.cbs) = {CbFacts(F) : F \in BuiltSet(st)}
\* C14: references lead to what is stored before, so closures end
InvDeps == \A c \in Stored(st) : LET r == Deps(st, {}, c) IN ~r.missing => c \notin r.seen
\* C15: an object is related to exactly the bundles that have it, both ways
InvRelations == \A F \in BuiltSet(st) : \A id \in ObjectsOf(F) : F \in Holders(st, id) /\ \A G \in Holders(st, id) : id \in ObjectsOf(G) /\ CbId(G) = CbId(F)
\* C17: building the same again changes nothing but names; an error changes nothing
InvAgain ==
    \A i \in DOMAIN Files : \A b \in Bases(i) :
      LET file == FileAt(i, b)  out == Outcome(st, file, Env) IN
      out.kind = "ok" => LET s1 == Store(st, file, out)
                             out2 == Outcome(s1, file, Env)
                         IN out2 = out /\ Store(s1, file, out2) = s1
\* C12: a build on a base stores the base content's continuation and leaves the base's history
InvBase ==
    \A i \in DOMAIN Files : \A b \in Bases(i) \ {0} :
      LET file == FileAt(i, b)  out == Outcome(st, file, Env) IN
      out.kind = "ok" =>
        LET s1 == Store(st, file, out) IN
        /\ History(s1, file.base) = History(st, file.base)
        /\ out.cur \notin Stored(st) => IsPrefix(History(st, file.base), History(s1, out.cur)) \/ \E k \in DOMAIN out.steps : out.steps[k] \in Stored(st)
\* C13: a name means the bundle it was last given to, and no name is computed from an unresolved one
InvNames == \A c \in Stored(st) : \A f \in c : f[1] = "attr" => f[4] # "n"
\* C20
InvSearch == Found(st, "lph") = {F \in BuiltSet(st) : \E f \in F : f[1] = "meta" /\ f[4] = "Alpha"} /\ Found(st, "lp") = {} /\ Found(st, "ALPHA beta") = {}
=============================================================================
