----------------------------- MODULE TraceStore -----------------------------
(* Validates recorded histories of whole stores: builds, validations and     *)
(* every query, against OcaStore.  State: for each store of the script its   *)
(* OcaStore state, the last dump of its raw contents and what has happened   *)
(* since; and the observed correspondence of identifiers and contents.       *)
EXTENDS Bundles, TraceDriver, OcaStore

Debug == "DEBUG" \in DOMAIN IOEnv
Say(x) == IF Debug THEN PrintT(x) ELSE TRUE

TableOf(script) == {<<script.bundles[i].said, ToSet(script.bundles[i].facts)>> : i \in DOMAIN script.bundles}
TSaidOf(table, F) == IF \E p \in table : p[2] = F THEN (CHOOSE p \in table : p[2] = F)[1] ELSE "?"
HasSaid(table, said) == \E p \in table : p[1] = said
ContentOf(table, said) == (CHOOSE p \in table : p[1] = said)[2]

CmdEq(c, d) ==
    /\ c.k = d.k /\ c.o = d.o /\ c.lang = d.lang /\ c.tr = d.tr /\ c.tgt = d.tgt /\ c.frame = d.frame
    /\ ToSet(c.types) = ToSet(d.types) /\ ToSet(c.attrs) = ToSet(d.attrs) /\ ToSet(c.props) = ToSet(d.props) /\ ToSet(c.flagged) = ToSet(d.flagged)

NoPages == [k \in {} |-> 0]
Fresh == [db |-> Empty, dump |-> {}, dumped |-> FALSE, since |-> "none", maybe |-> {}, down |-> FALSE, pages |-> NoPages]
TStart(script) == [table |-> TableOf(script), at |-> ("" :> Fresh)]
St(s, k) == IF k \in DOMAIN s.at THEN s.at[k] ELSE Fresh
Put(s, k, v) == [s EXCEPT !.at = (k :> v) @@ @]

\* how much of the raw contents an operation may have touched
Rank == [none |-> 0, name |-> 1, again |-> 2, new |-> 3]
Worse(a, b) == IF Rank[a] >= Rank[b] THEN a ELSE b

--------------------------------------------------------------------------
EnvFor(s, x, ev) == IF ev.how = "ext" THEN [n \in {p[1] : p \in ToSet(ev.ext)} |-> (CHOOSE p \in ToSet(ev.ext) : p[1] = n)[2]]
                    ELSE EnvOf(x.db, s.table)
FileOf(s, ev) == [based |-> ev.base # "", cmds |-> ev.cmds, name |-> ev.name,
                  base |-> IF ev.base # "" /\ HasSaid(s.table, ev.base) THEN ContentOf(s.table, ev.base) ELSE {<<"no such bundle">>}]
Where(ev, bad) == [i \in DOMAIN bad |-> ev.lines[bad[i]]]

BuildAfter(s, x, ev, file, out) ==
    IF out.kind # "ok" THEN x
    ELSE CASE ev.how = "ext" -> x
           [] ev.how = "validate" -> [x EXCEPT !.db = Name(@, file, out), !.since = Worse(@, "name")]
           [] OTHER -> [x EXCEPT !.db = Name(Store(@, file, out), file, out),
                                 !.since = Worse(@, IF SeqHas(x.db.built, out.cur) /\ ToSet(out.steps) \subseteq Stored(x.db) THEN "again" ELSE "new"),
                                 !.pages = IF SeqHas(x.db.built, out.cur) THEN @ ELSE NoPages]

BuildBad(s, ev, script, x, file, out) ==
    IF ev.out = "panic" THEN {"panic"}
    ELSE IF ev.out = "crash" THEN {"crash"}
    ELSE CASE out.kind = "rule" -> IF ev.out = "ok" THEN {"accepted-forbidden"} ELSE {}
           [] out.kind = "base" -> IF ev.out = "ok" THEN {"base-accepted"} ELSE IF ev.errs = <<ev.baseline>> THEN {} ELSE {"base-error"}
           [] out.kind = "refn" -> IF ev.out = "ok" THEN {"refn-accepted"} ELSE IF \E n \in out.names : ev.refn = <<n>> THEN {} ELSE {"refn-error"}
           [] out.kind = "none" -> IF ev.out = "ok" THEN {"accepted-faulty"} ELSE {}
           [] out.kind = "faulty" -> IF ev.out = "ok" THEN {"accepted-faulty"} ELSE IF ev.errs = Where(ev, out.bad) THEN {} ELSE {"wrong-errors"}
           [] OTHER ->
                IF ev.out # "ok" THEN {"rejected-good"} ELSE
                (IF Facts(script, ev.b) = out.cur THEN {} ELSE {"content"})
                \cup (IF script.bundles[ev.b].said = ev.said THEN {} ELSE {"said"})
                \cup (IF ~ev.withsteps THEN {} ELSE
                      (IF Len(ev.steps) = Len(out.steps) THEN {} ELSE {"step-count"})
                      \cup (IF \A i \in 1..Len(ev.steps) : i <= Len(out.steps) => Facts(script, ev.steps[i].b) = out.steps[i] THEN {} ELSE {"step-content"})
                      \cup (IF \A i \in 1..Len(ev.steps) : ev.steps[i].parent = (IF i = 1 THEN ev.base ELSE ev.steps[i - 1].said) THEN {} ELSE {"step-parent"})
                      \cup (IF \A i \in 1..Len(ev.steps) : i <= Len(out.cmds) => CmdEq(ev.steps[i].cmd, out.cmds[i]) THEN {} ELSE {"step-command"}))
                \cup (IF ev.how # "ext" THEN {} ELSE
                      IF ToSet(ev.extafter) = {p \in ToSet(ev.ext) : p[1] # ev.name} \cup (IF ev.name = "" THEN {} ELSE {<<ev.name, ev.said>>})
                      THEN {} ELSE {"external-names"})

--------------------------------------------------------------------------
(* while a store is down (a build was cut off) a query may answer for the    *)
(* store before the build, or for it with some of what the build adds        *)
Known(s, x, said) == HasSaid(s.table, said) /\ ContentOf(s.table, said) \in Stored(x.db)
Perhaps(s, x, said) == x.down /\ (~HasSaid(s.table, said) \/ ContentOf(s.table, said) \in x.maybe)

GetBad(s, x, ev, script) ==
    IF ev.out = "panic" THEN {"get-panic"}
    ELSE IF ~Known(s, x, ev.said)
    THEN (IF ev.out = "ok" /\ ~Perhaps(s, x, ev.said) THEN {"get-unstored"} ELSE {})
         \cup (IF ev.out = "ok" /\ HasSaid(s.table, ev.said) /\ Facts(script, ev.b) # ContentOf(s.table, ev.said) THEN {"get-content"} ELSE {})
    ELSE LET c == ContentOf(s.table, ev.said)
             r == Deps(x.db, s.table, c)
         IN IF ev.dep /\ r.missing THEN (IF ev.out = "ok" /\ ~x.down THEN {"deps-missing"} ELSE {})
            ELSE IF ev.out # "ok" THEN {IF ev.dep THEN "deps-failed" ELSE "get-failed"}
            ELSE (IF Facts(script, ev.b) = c THEN {} ELSE {"get-content"})
                 \cup (IF {Facts(script, ev.deps[i]) : i \in DOMAIN ev.deps} = (IF ev.dep THEN r.seen ELSE {}) THEN {} ELSE {"deps"})
                 \cup (IF Cardinality({Facts(script, ev.deps[i]) : i \in DOMAIN ev.deps}) = Len(ev.deps) THEN {} ELSE {"deps-repeated"})

StepsBad(s, x, ev, script) ==
    IF ev.out = "panic" THEN {"history-panic"}
    ELSE IF ~Known(s, x, ev.said) THEN (IF ev.out = "ok" /\ ~Perhaps(s, x, ev.said) THEN {"history-unstored"} ELSE {})
    ELSE IF ev.out # "ok" THEN {"history-failed"}
    ELSE LET want == History(x.db, ContentOf(s.table, ev.said))
             got == ev.steps
         IN (IF Len(want) = Len(got) THEN {} ELSE {"history-length"})
            \cup (IF \A i \in DOMAIN got : i <= Len(want) => Facts(script, got[i].b) = want[i].result THEN {} ELSE {"history-results"})
            \cup (IF \A i \in DOMAIN got : i <= Len(want) => CmdEq(got[i].cmd, want[i].cmd) THEN {} ELSE {"history-commands"})
            \cup (IF \A i \in DOMAIN got : got[i].parent = (IF i = 1 THEN "" ELSE got[i - 1].said) THEN {} ELSE {"history-links"})
            \cup (IF LET r == Fold({}, [i \in DOMAIN got |-> got[i].cmd]) IN
                     r.bad = <<>> /\ r.steps = [i \in DOMAIN got |-> Facts(script, got[i].b)] THEN {} ELSE {"history-replay"})

MaybeSaids(s, x) == {TSaidOf(s.table, F) : F \in x.maybe}
RefsBad(s, x, ev) ==
    IF ev.out # "ok" THEN {"refs-failed"} ELSE
    IF ToSet(ev.refs) = {<<n, TSaidOf(s.table, x.db.refs[n])>> : n \in DOMAIN x.db.refs} /\ Len(ev.refs) = Cardinality(DOMAIN x.db.refs) THEN {}
    ELSE IF ~x.down THEN {"refs"}
    ELSE IF \A p \in ToSet(ev.refs) : p[2] \in MaybeSaids(s, x) \/ (p[1] \in DOMAIN x.db.refs /\ p[2] = TSaidOf(s.table, x.db.refs[p[1]]))
         THEN {} ELSE {"refs-lost"}

TypeName == [cb |-> "CaptureBase", label |-> "Label", information |-> "Information", meta |-> "Meta", character_encoding |-> "CharacterEncoding",
             conformance |-> "Conformance", format |-> "Format", unit |-> "Unit", cardinality |-> "Cardinality", conditional |-> "Conditional",
             entry_code |-> "EntryCode", entry |-> "Entry", link |-> "Link", attribute_framing |-> "AttributeFraming"]
BuiltIdx(x, script) == {i \in DOMAIN script.bundles : ToSet(script.bundles[i].facts) \in BuiltSet(x.db)}
ObjRow(o) == <<o.said, TypeName[o.kind]>>
Related(x, script, said) ==
    LET B == BuiltIdx(x, script)
        own == {i \in B : script.bundles[i].said = said}
        hold == {i \in B : \E j \in DOMAIN script.bundles[i].objs : script.bundles[i].objs[j].said = said}
        iscb == \E i \in hold : script.bundles[i].objs[1].said = said
    IN UNION {{ObjRow(script.bundles[i].objs[j]) : j \in DOMAIN script.bundles[i].objs} : i \in own}
       \cup {<<script.bundles[i].said, "OCABundle">> : i \in hold}
       \cup (IF iscb THEN UNION {{ObjRow(script.bundles[i].objs[j]) : j \in 2..Len(script.bundles[i].objs)} : i \in hold}
             ELSE {ObjRow(script.bundles[i].objs[1]) : i \in hold})
SelfType(x, script, said) ==
    IF \E i \in BuiltIdx(x, script) : script.bundles[i].said = said THEN "OCABundle"
    ELSE LET i == CHOOSE i \in BuiltIdx(x, script) : \E j \in DOMAIN script.bundles[i].objs : script.bundles[i].objs[j].said = said
             j == CHOOSE j \in DOMAIN script.bundles[i].objs : script.bundles[i].objs[j].said = said
         IN TypeName[script.bundles[i].objs[j].kind]
ExploreBad(s, x, ev, script) ==
    IF ev.out # "ok" THEN {"explore-panic"}
    ELSE LET want == Related(x, script, ev.said) IN
         IF x.down THEN (IF want \subseteq ToSet(ev.rel) THEN {} ELSE {"explore-lost"})
         ELSE IF want = {} THEN (IF ev.none THEN {} ELSE {"explore-unbuilt"})
         ELSE IF ev.none THEN {"explore-missing"}
         ELSE (IF ToSet(ev.rel) = want /\ Len(ev.rel) = Cardinality(want) THEN {} ELSE {"explore"})
              \cup (IF ev.self = <<ev.said, SelfType(x, script, ev.said)>> THEN {} ELSE {"explore-self"})

ObjectBad(s, x, ev, script) ==
    LET I == {i \in BuiltIdx(x, script) : \E j \in DOMAIN script.bundles[i].objs : script.bundles[i].objs[j].said = ev.said} IN
    IF ev.out = "panic" THEN {"object-panic"}
    ELSE IF I = {} THEN (IF ev.out = "ok" /\ ~x.down THEN {"object-unbuilt"} ELSE {})
    ELSE IF ev.out # "ok" THEN {"object-missing"}
    ELSE LET i == CHOOSE i \in I : TRUE
             j == CHOOSE j \in DOMAIN script.bundles[i].objs : script.bundles[i].objs[j].said = ev.said
         IN (IF ev.d = ev.said /\ ev.dig = ev.said THEN {} ELSE {"object-said"})
            \cup (IF ToSet(ev.f) = ToSet(script.bundles[i].objs[j].f) /\ ev.kind = script.bundles[i].objs[j].kind THEN {} ELSE {"object-content"})

\* a listing: its pages one after another, and once more
Pages(ev, all, tag) ==
    LET flat == FoldLeft(LAMBDA acc, p : acc \o p.recs, <<>>, ev.pages)
        n == Cardinality(all)
    IN (IF ToSet(flat) = all THEN {} ELSE {tag \o "-set"})
       \cup (IF Len(flat) = Cardinality(ToSet(flat)) THEN {} ELSE {tag \o "-repeated"})
       \cup (IF \A i \in DOMAIN ev.pages : Len(ev.pages[i].recs) <= ev.limit THEN {} ELSE {tag \o "-page-size"})
       \cup (IF \A i \in DOMAIN ev.pages : (i - 1) * ev.limit < n => Len(ev.pages[i].recs) = (IF i * ev.limit <= n THEN ev.limit ELSE n - (i - 1) * ev.limit)
             THEN {} ELSE {tag \o "-page-gap"})
       \cup (IF \A i \in DOMAIN ev.pages : ev.pages[i].recs # <<>> => ev.pages[i].total = n THEN {} ELSE {tag \o "-total"})
       \cup (IF \A i \in DOMAIN ev.pages : ev.pages[i].page = i THEN {} ELSE {tag \o "-page-number"})
       \cup (IF [i \in DOMAIN ev.pages |-> ev.pages[i].recs] = [i \in DOMAIN ev.again |-> ev.again[i].recs] THEN {} ELSE {tag \o "-unstable"})
CbSaids(x, script) == {script.bundles[i].objs[1].said : i \in BuiltIdx(x, script)}
BuiltSaids(s, x) == {TSaidOf(s.table, F) : F \in BuiltSet(x.db)}
DownPages(ev, must, may, tag) ==
    LET got == UNION {ToSet(ev.pages[i].recs) : i \in DOMAIN ev.pages} IN
    (IF must \subseteq got THEN {} ELSE {tag \o "-lost"}) \cup (IF got \subseteq (must \cup may) THEN {} ELSE {tag \o "-unbuilt"})
MaybeCbs(s, x, script) == {script.bundles[i].objs[1].said : i \in {j \in DOMAIN script.bundles : ToSet(script.bundles[j].facts) \in x.maybe}}
ListBad(s, x, ev, script) ==
    IF ev.out # "ok" THEN {"list-failed"}
    ELSE IF ev.kind = "b"
         THEN (IF x.down THEN DownPages(ev, BuiltSaids(s, x), MaybeSaids(s, x), "list") ELSE Pages(ev, BuiltSaids(s, x), "list"))
              \cup (IF \A i \in DOMAIN ev.recs : TSaidOf(s.table, Facts(script, ev.recs[i][2])) = ev.recs[i][1] THEN {} ELSE {"list-content"})
         ELSE (IF x.down THEN DownPages(ev, CbSaids(x, script), MaybeCbs(s, x, script), "list-cb") ELSE Pages(ev, CbSaids(x, script), "list-cb"))

SearchBad(s, x, ev, script) ==
    IF ev.out # "ok" THEN {"search-failed"}
    ELSE LET found == Found(x.db, ev.q)
             saids == {TSaidOf(s.table, F) : F \in found}
             ws == Words(ev.q)
             PhraseOk(h) == LET F == ContentOf(s.table, h.said) IN
                 \E l \in MetaLangs(F) : RowMatches(F, l, ws) /\ (PhraseOf(h.phrase, MetaVal(F, l, "name"), ws) \/ PhraseOf(h.phrase, MetaVal(F, l, "description"), ws))
         IN IF x.down THEN DownPages(ev, saids, MaybeSaids(s, x), "search")
            ELSE Pages(ev, saids, "search")
                 \cup (LET m == FoldLeft(LAMBDA acc, p : acc \o p.marks, <<>>, ev.pages) IN
                       IF \A i \in 1..(Len(m) - 1) : m[i] >= m[i + 1] THEN {} ELSE {"search-order"})
                 \cup (IF \A i \in DOMAIN ev.hits : ev.hits[i].scope = "meta_overlay" THEN {} ELSE {"search-scope"})
                 \cup (IF \A i \in DOMAIN ev.hits : ev.hits[i].said \in saids => PhraseOk(ev.hits[i]) THEN {} ELSE {"search-phrase"})
                 \cup (IF \A i \in DOMAIN ev.hits : Facts(script, ev.hits[i].b) = ContentOf(s.table, ev.hits[i].said) THEN {} ELSE {"search-content"})

\* a listing answers the same, page for page (and score for score), until something else is built
PageKey(ev) == IF ev.e = "list" THEN <<"list", ev.kind, "", ev.limit>> ELSE <<"search", ev.q, ev.lang, ev.limit>>
Recs(ev) == [i \in DOMAIN ev.pages |-> <<ev.pages[i].recs, ev.pages[i].scores>>]
Moved(x, ev) ==
    IF ev.out = "ok" /\ PageKey(ev) \in DOMAIN x.pages
       /\ \E i \in DOMAIN ev.pages : i \in DOMAIN x.pages[PageKey(ev)] /\ x.pages[PageKey(ev)][i] # <<ev.pages[i].recs, ev.pages[i].scores>>
    THEN {ev.e \o "-moved"} ELSE {}
Paged(s, x, ev, bad) == [st |-> IF ev.out = "ok" THEN Put(s, ev.s, [x EXCEPT !.pages = (PageKey(ev) :> Recs(ev)) @@ @]) ELSE s, bad |-> bad \cup Moved(x, ev)]

--------------------------------------------------------------------------
(* the raw contents of a store: what may differ from the last time *)
Starts(k, p) == Len(k) >= Len(p) /\ SubSeq(k, 1, Len(p)) = p
Loose(since) == CASE since = "none" -> {} [] since = "name" -> {"db:oca_refs/"} [] since = "again" -> {"db:oca_refs/", "db:core_model/"}
                  [] OTHER -> {"db:oca_refs/", "db:core_model/", "db:oca_relations/"}
DumpBad(x, ev) ==
    LET now == ToSet(ev.kv)
        diff == {p \in (now \cup x.dump) : ~(p \in now /\ p \in x.dump)}
        off == {p \in diff : \A w \in Loose(x.since) : ~Starts(p[1], w)}
        \* something new may appear, but what was there stays
        lost == {p \in off : p \in x.dump}
    IN IF ~x.dumped THEN {}
       ELSE IF x.since = "new" THEN (IF lost = {} THEN {} ELSE {"stored-changed"})
       ELSE IF off = {} THEN {} ELSE {"changed-by-" \o x.since}

--------------------------------------------------------------------------
TCheck(s, ev, script) ==
    LET x == St(s, ev.s)
        Judged(bad) == [st |-> s, bad |-> IF bad # {} /\ Say(<<ev, bad>>) THEN bad ELSE bad]
    IN CASE ev.e = "bundle" -> Judged(SaidProblems(script.bundles[ev.b]) \cup ObjectProblems(script.bundles[ev.b]))
         [] ev.e = "open" -> [st |-> Put(s, ev.s, Fresh), bad |-> {}]
         [] ev.e = "build" ->
              LET file == FileOf(s, ev)
                  out == Outcome(x.db, file, EnvFor(s, x, ev))
                  bad == BuildBad(s, ev, script, x, file, out)
              IN [st |-> Put(s, ev.s, [BuildAfter(s, x, ev, file, out) EXCEPT !.down = FALSE, !.maybe = {}]),
                  bad |-> IF bad # {} /\ Say(<<ev, out, bad>>) THEN bad ELSE bad]
         [] ev.e = "crash" ->    \* a build of this file stopped half way
              LET file == FileOf(s, ev)
                  out == Outcome(x.db, file, EnvFor(s, x, ev))
              IN [st |-> Put(s, ev.s, [x EXCEPT !.down = TRUE, !.pages = NoPages, !.maybe = @ \cup (IF out.kind = "ok" THEN ToSet(out.steps) \cup {out.cur} ELSE {}), !.dumped = FALSE]),
                  bad |-> {}]
         [] ev.e = "get" -> Judged(GetBad(s, x, ev, script))
         [] ev.e = "steps" -> Judged(StepsBad(s, x, ev, script))
         [] ev.e = "refs" -> Judged(RefsBad(s, x, ev))
         [] ev.e = "explore" -> Judged(ExploreBad(s, x, ev, script))
         [] ev.e = "object" -> Judged(ObjectBad(s, x, ev, script))
         [] ev.e = "list" -> Paged(s, x, ev, Judged(ListBad(s, x, ev, script)).bad)
         [] ev.e = "search" -> Paged(s, x, ev, Judged(SearchBad(s, x, ev, script)).bad)
         [] ev.e = "dump" -> [st |-> Put(s, ev.s, [x EXCEPT !.dump = ToSet(ev.kv), !.dumped = TRUE, !.since = "none"]), bad |-> DumpBad(x, ev)]
         [] ev.e = "samedump" -> Judged(IF St(s, ev.s).db = St(s, ev.with).db => St(s, ev.s).dump = St(s, ev.with).dump THEN {} ELSE {"stores-differ"})
         [] OTHER -> Judged({"unknown-event"})
TFinal(log) == TableProblems(log)
=============================================================================
