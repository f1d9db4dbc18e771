------------------------------ MODULE MC_Crash ------------------------------
(* Builds as the writes they are made of, any of which may be the last one   *)
(* before the process dies; a build that died is started again.  `disk` is   *)
(* what survives, `abs` the OcaStore state of the builds that finished.      *)
EXTENDS OcaStore, IOUtils
CONSTANTS D, Crashes
VARIABLES disk, abs, todo, job, down, done, crashed

vars == <<disk, abs, todo, job, down, done, crashed>>
Files == JsonDeserialize("alphabet_store.json")
MCSaid(t, F) == "S" \o ToString(F)

NoDisk == [op |-> <<>>, bundle |-> {}, objects |-> {}, rel |-> {}, built |-> <<>>, cbs |-> <<>>, rows |-> {}, refs |-> <<>>]
Rows(F) == {<<F, l>> : l \in MetaLangs(F)}
Image(a) == [op |-> a.hist, bundle |-> Stored(a), objects |-> UNION {ObjectsOf(F) : F \in Stored(a)},
             rel |-> BuiltSet(a), built |-> a.built, cbs |-> a.cbs, rows |-> UNION {Rows(F) : F \in BuiltSet(a)}, refs |-> a.refs]

\* the writes of one build, in the order they are made
StepWrites(d, file, out) ==
    LET w == FoldLeft(LAMBDA acc, G :
              [hist |-> Record(acc.hist, acc.root, acc.prev, out.cmds[acc.i], G),
               ws |-> acc.ws \o (IF Record(acc.hist, acc.root, acc.prev, out.cmds[acc.i], G) = acc.hist THEN <<>>
                                 ELSE <<[k |-> "op", c |-> G, v |-> [root |-> acc.root, parent |-> acc.prev, cmd |-> out.cmds[acc.i]]]>>)
                             \o <<[k |-> "bundle", c |-> G]>> \o <<[k |-> "objects", c |-> G]>>,
               prev |-> G, root |-> FALSE, i |-> acc.i + 1],
              [hist |-> d.op, ws |-> <<>>, prev |-> IF file.based THEN file.base ELSE {}, root |-> ~file.based, i |-> 1], out.steps)
    IN w.ws
RowWrites(F) == LET ls == SetToSeq(MetaLangs(F)) IN [i \in DOMAIN ls |-> [k |-> "row", c |-> F, l |-> ls[i]]]
Writes(d, file, out) ==
    StepWrites(d, file, out)
    \o <<[k |-> "rel", c |-> out.cur], [k |-> "built", c |-> out.cur], [k |-> "cb", c |-> out.cur]>> \o RowWrites(out.cur)
    \o (IF file.name = "" THEN <<>> ELSE <<[k |-> "name", n |-> file.name, c |-> out.cur]>>)
Write(d, w) ==
    CASE w.k = "name" -> [d EXCEPT !.refs = (w.n :> w.c) @@ @]
      [] w.k = "op" -> [d EXCEPT !.op = (w.c :> w.v) @@ @]
      [] w.k = "bundle" -> [d EXCEPT !.bundle = @ \cup {w.c}]
      [] w.k = "objects" -> [d EXCEPT !.objects = @ \cup ObjectsOf(w.c)]
      [] w.k = "rel" -> [d EXCEPT !.rel = @ \cup {w.c}]
      [] w.k = "built" -> [d EXCEPT !.built = AddOnce(@, w.c)]
      [] w.k = "cb" -> [d EXCEPT !.cbs = AddOnce(@, CbFacts(w.c))]
      [] w.k = "row" -> [d EXCEPT !.rows = @ \cup {<<w.c, w.l>>}]

AsStore(d) == [hist |-> d.op, built |-> d.built, cbs |-> d.cbs, refs |-> d.refs]
Env(d) == [n \in DOMAIN d.refs |-> MCSaid({}, d.refs[n])]
NoJob == [file |-> [based |-> FALSE, base |-> {}, cmds |-> <<>>, name |-> ""], out |-> [kind |-> "none"]]
Init == disk = NoDisk /\ abs = Empty /\ todo = <<>> /\ job = NoJob /\ down = FALSE /\ done = 0 /\ crashed = 0
Begin(i, base) ==
    /\ todo = <<>> /\ ~down /\ done < D
    /\ LET file == [based |-> Files[i].based, cmds |-> Files[i].cmds, name |-> Files[i].name, base |-> base]
           out == Outcome(abs, file, Env(disk))
       IN /\ out.kind = "ok"
          /\ job' = [file |-> file, out |-> out]
          /\ todo' = Writes(disk, file, out)
    /\ done' = done + 1
    /\ UNCHANGED <<disk, abs, down, crashed>>
Do == /\ todo # <<>> /\ ~down
      /\ disk' = Write(disk, Head(todo))
      /\ todo' = Tail(todo)
      /\ abs' = IF Len(todo) = 1 THEN Name(Store(abs, job.file, job.out), job.file, job.out) ELSE abs
      /\ UNCHANGED <<job, down, done, crashed>>
Crash == /\ todo # <<>> /\ ~down /\ crashed < Crashes
         /\ down' = TRUE /\ todo' = <<>> /\ crashed' = crashed + 1
         /\ UNCHANGED <<disk, abs, job, done>>
\* the same file again, on what is left
Again == /\ down
         /\ down' = FALSE
         /\ LET out == Outcome(AsStore(disk), job.file, Env(disk))
            IN out = job.out /\ todo' = Writes(disk, job.file, out)
         /\ UNCHANGED <<disk, abs, job, done, crashed>>
Next == (\E i \in DOMAIN Files : \E b \in (IF Files[i].based THEN BuiltSet(abs) ELSE {{}}) : Begin(i, b)) \/ Do \/ Crash \/ Again
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
Idle == todo = <<>> /\ ~down
\* every build that finished left exactly what OcaStore says
InvImage == Idle => disk = Image(abs)
\* what was built before is still there with its history, at every moment
InvBefore == \A c \in Stored(abs) : c \in disk.bundle /\ ChainBack(disk.op, c, Cardinality(DOMAIN disk.op) + 1) = History(abs, c)
\* an entry of the history never hangs in the air
InvChain == \A c \in DOMAIN disk.op : disk.op[c].root \/ disk.op[c].parent \in disk.bundle
\* what is listed or found can be fetched, explored and told the history of
InvNamed == \A n \in DOMAIN disk.refs : disk.refs[n] \in Rng(disk.built)
InvListed == /\ Rng(disk.built) \subseteq disk.bundle \cap disk.rel
             /\ {r[1] : r \in disk.rows} \subseteq Rng(disk.built)
             /\ \A F \in Rng(disk.built) : ObjectsOf(F) \subseteq disk.objects /\ ChainBack(disk.op, F, Cardinality(DOMAIN disk.op) + 1) # <<>>
             /\ \A F \in disk.rel : ObjectsOf(F) \subseteq disk.objects
\* a build that died can be started again and gives the same
InvAgain == down => ENABLED Again
=============================================================================
