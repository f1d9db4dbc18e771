---------------------------- MODULE OcaTransform ----------------------------
(* Transformation files: what kind of file a text is, what a transformation  *)
(* built from it says, and the documents that carry a bundle together with   *)
(* transformations.                                                          *)
EXTENDS OcaText

TFile(t) == ReadAs(t, "transformation")
\* the precompiler a file names decides what it is read as
Kind(t) ==
    LET s == Read(t)
        r == TFile(t)
        f == File(t)
    IN CASE r.st = "open" \/ (r.st = "bad" /\ f.st = "open" /\ s.st = "open") -> [st |-> "open", kind |-> ""]
         [] r.st = "ok" /\ KindOf(r) = "transformation" -> [st |-> "ok", kind |-> "transformation"]
         [] r.st = "ok" /\ (r.cmds # <<>> \/ KindOf(r) # "semantics") -> [st |-> "bad", kind |-> ""]
         [] r.st = "ok" /\ s.st = "open" -> [st |-> "open", kind |-> ""]
         [] f.st = "open" -> [st |-> "bad", kind |-> ""]
         [] OTHER -> [st |-> f.st, kind |-> "semantics"]

RECURSIVE PutAll(_, _, _)
PutAll(m, l, i) == IF i > Len(l) THEN m ELSE PutAll(Put(m, l[i][1], l[i][2]), l, i + 1)
RECURSIVE Merge(_, _, _)
Merge(m, cmds, i) == IF i > Len(cmds) THEN m ELSE Merge(PutAll(m, cmds[i].attrs, 1), cmds, i + 1)

Named(meta, k) == \E i \in DOMAIN meta : meta[i][1] = k
Mark == "refs:"
Inner(v) == \E i \in 2..Len(v) : Lit(v, i, Mark)
Bared(v) == IF Len(v) >= 5 /\ Lit(v, 1, Mark) THEN SubSeq(v, 6, Len(v)) ELSE v
\* st "ok" | "err" | "open"; a file without meta data has neither source nor target
TBuild(r) ==
    LET src == ValueOf(r.meta, "source")
        tgt == ValueOf(r.meta, "target")
        no(st) == [st |-> st, source |-> "", target |-> "", attrs |-> <<>>]
    IN CASE r.meta = <<>> /\ r.cmds = <<>> -> no("err")
         [] r.meta # <<>> /\ ~(Named(r.meta, "source") /\ Named(r.meta, "target")) -> no("err")
         [] Inner(src) \/ Inner(tgt) -> no("open")
         [] OTHER -> [st |-> "ok", source |-> Bared(src), target |-> Bared(tgt), attrs |-> Merge(<<>>, r.cmds, 1)]

\* what building this text gives; direct = without asking what kind of file it is
Built(t, direct) ==
    LET r == TFile(t)
        k == Kind(t)
        no(st) == [st |-> st, source |-> "", target |-> "", attrs |-> <<>>]
    IN IF r.st = "open" \/ (~direct /\ k.st = "open") THEN no("open")
       ELSE IF r.st # "ok" \/ (~direct /\ (k.st # "ok" \/ k.kind # "transformation")) THEN no("err")
       ELSE TBuild(r)
=============================================================================
