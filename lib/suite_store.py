"""C11-C15, C17, C19, C20: histories of a whole store and what its queries answer."""
import json

import common as c
import facts
import gens
import ocafile
import specform
import suite_content as sc

BUILDS = {"panic", "accepted-forbidden", "accepted-faulty", "wrong-errors", "rejected-good", "content", "said", "step-count", "step-content", "step-command"}
HIST = {"history-panic", "history-unstored", "history-failed", "history-length", "history-results", "history-commands", "history-links", "history-replay"}
DEPS = {"get-panic", "get-unstored", "get-failed", "get-content", "deps", "deps-failed", "deps-missing", "deps-repeated"}
REL = {"explore-panic", "explore-unbuilt", "explore-missing", "explore", "explore-self", "object-panic", "object-unbuilt", "object-missing", "object-said", "object-content"}
LIST = {"list-failed", "list-content", "list-moved"} | {t + x for t in ("list", "list-cb") for x in ("-set", "-repeated", "-page-size", "-page-gap", "-total", "-page-number", "-unstable")}
SEARCH = {"search-failed", "search-moved", "search-order", "search-scope", "search-phrase", "search-content"} | {"search" + x for x in ("-set", "-repeated", "-page-size", "-page-gap", "-total", "-page-number", "-unstable")}
DUMP = {"changed-by-none", "changed-by-name", "changed-by-again", "stored-changed"}
NAMES = {"refn-accepted", "refn-error", "refs", "refs-failed", "external-names"}
BASE = {"base-accepted", "base-error", "step-parent"}
ALL = {
    "C11": HIST | {"panic", "step-count", "step-content", "step-parent", "stored-changed", "rejected-good"},
    "C12": BUILDS | BASE | HIST | {"get-panic", "get-failed", "get-content"},
    "C13": NAMES | BUILDS,
    "C14": DEPS,
    "C15": REL,
    "C17": DUMP | HIST | DEPS | REL | LIST | SEARCH | NAMES | {"panic"},
    "C19": LIST,
    "C20": SEARCH,
}
WORDS = ["Alpha", "beta", "gamma", "delta", "Passport", "port", "ŻÓŁTY", "żółw", "zolw", "ZOLTY", "café", "cafe", "CAFÉ au", "alphabet", "x1", "ab", "credential", "IDENTITY", "ident", "AND", "OR", "NOT", "near", "name", "it's", "co-op", "a.b.c", "100%", "q*", "(par)",
         "<mark>", "</mark>end", "...", "and...so", "aaaaa", "ababab", "key:value", "1:2:3", "semi;colon", "[x]y", "^a$b", "_under_", "{name}:x", "-dash-"]
FAKE = gens.SAIDS[2]


class Script:
    """records operations and what they were meant to do"""

    def __init__(self, r):
        self.r, self.ops, self.plan = r, [], []
        self.files = {}     # store -> [{"var", "have", "name"}]
        self.names = {}     # store -> {name: var}
        self.n = 0

    def op(self, *plan, **op):
        self.ops.append(op)
        self.plan.append(list(plan) + [op.get("s", "0"), len(self.ops) - 1])
        return len(self.ops) - 1

    def open(self, s="0", **kw):
        self.files[s], self.names[s] = [], {}
        self.op("open", op="open", s=s, **kw)

    def build(self, cmds, base=None, name=None, how="store", s="0", L=None, var=None, ext=None, steps=True):
        """var: the variable the resulting identifier is kept under"""
        if var is None:
            var = "f%d" % self.n
            self.n += 1
        full = ([gens.frm("@{%s}" % base)] if base else []) + cmds
        text, lines = ocafile.render(full, [("name", name)] if name else (), L)
        o = {"s": s, "text": text, "as": var}
        if how == "store":
            o.update(op="validate", store=True)
        elif how == "validate":
            o.update(op="validate")
        elif how == "ext":
            o.update(op="validate", ext=ext or {})
        else:
            o.update(op="build")
        self.op("build", how, cmds, lines, base or "", name or "", ext or {}, **o)
        return var

    def forget(self, s):
        self.op("forget", s=s)


def pair(kv):
    return [[k, v] for k, v in sorted(kv.items())]


def hits(o):
    return [{"said": x["said"], "b": x["b"] + 1, "phrase": x["phrase"], "scope": x["scope"]} for x in o["ok"]["recs"]]


def page(o):
    k = o.get("ok", {})
    return {"page": k.get("page", 0), "total": k.get("total", 0), "recs": [x["said"] for x in k.get("recs", [])],
            "scores": [str(x.get("score", "")) for x in k.get("recs", [])], "marks": [int(min(float(x["score"]), 2e6) * 1000) for x in k.get("recs", []) if "score" in x]}


def trace(script, res):
    ev, at = [], []
    obs = res["obs"]
    V = res["vars"]

    def sub(x):
        t = json.dumps(x)
        for k, v in V.items():
            t = t.replace("@{%s}" % k, v)
        return json.loads(t)

    for i in range(len(res["bundles"])):
        ev.append({"e": "bundle", "b": i + 1, "s": "0"})
        at.append(-1)
    i = 0
    P = script["plan"]
    while i < len(P):
        p = P[i]
        kind, s, k = p[0], p[-2], p[-1]
        o = obs[k]
        op = script["ops"][k]
        i += 1
        if kind in ("quiet", "") or sc.outcome(o) == "skip" and kind not in ("open", "samedump"):
            continue
        e = None
        out = sc.outcome(o)
        ok = o.get("ok", {})
        if kind == "open":
            e = {"e": "open"}
        elif kind in ("build", "crash"):
            how, cmds, lines, base, name, ext = p[1:7]
            if kind == "crash" and "crash" not in o:
                kind = "build"      # it ended before that write
            if "@{" in json.dumps(sub([cmds, base, ext])) or (base and base not in V):
                break    # needs something an earlier (misjudged) operation did not deliver
            cmds2 = [specform.cmd(x) for x in sub(cmds)]
            ln = [[str(n), t] for n, t in sub(lines)]
            errs = o.get("err", [])
            refn = [x["msg"] for x in errs if isinstance(x, dict) and x.get("kind") == "refn"]
            e = {"e": kind, "how": how, "cmds": cmds2, "lines": ln[1:] if base else ln, "baseline": ln[0] if base else [], "base": V[base] if base else "", "name": name,
                 "out": "crash" if "crash" in o else out, "b": ok.get("b", -1) + 1, "said": ok.get("said", ""), "errs": sc.errs(o) if "err" in o else [], "refn": refn,
                 "ext": pair(sub(ext)), "extafter": pair(o.get("refs") or {}), "withsteps": "steps" in ok,
                 "steps": [{"b": x["b"] + 1, "said": x["said"], "parent": x["parent"] or "", "cmd": specform.cmd(x["abs"])} for x in ok.get("steps", [])]}
        elif kind == "get":
            said = sub(op["said"])
            if "@{" in said:
                continue
            e = {"e": "get", "said": said, "dep": op["dep"], "out": out, "b": ok.get("b", -1) + 1, "deps": [x["b"] + 1 for x in ok.get("deps", [])]}
        elif kind == "steps":
            said = sub(op["said"])
            if "@{" in said:
                continue
            e = {"e": "steps", "said": said, "out": out,
                 "steps": [{"b": x["b"] + 1, "said": x["said"], "parent": x["parent"] or "", "cmd": specform.cmd(x["abs"])} for x in ok.get("steps", [])]}
        elif kind == "refs":
            e = {"e": "refs", "out": out, "refs": pair(ok.get("refs", {}))}
        elif kind == "explore":
            said = sub(op["said"])
            if "@{" in said:
                continue
            e = {"e": "explore", "said": said, "out": out, "none": ok.get("none", False), "rel": [[x["said"], x["type"]] for x in ok.get("rel", [])],
                 "self": [ok.get("base", ""), ok.get("type", "")]}
        elif kind == "object":
            said = sub(op["saids"][0])
            if "@{" in said:
                continue
            objs = ok.get("objs", [])
            x = {"d": "", "dig": "", "f": [], "kind": ""}
            if objs:
                d = objs[0]["dig"]
                x["d"], x["dig"] = str(d.get("d", "")), str(d.get("dig", ""))
                j = json.loads(objs[0]["json"])
                x["kind"], x["f"] = obj_of(j)
            e = {"e": "object", "said": said, "out": out if out != "ok" or objs else "err", **x}
        elif kind in ("list", "search"):
            # a run of page requests made in one go
            grp = [(P[i - 1], obs[P[i - 1][-1]])]
            while i < len(P) and P[i][0] == kind + "+":
                grp.append((P[i], obs[P[i][-1]]))
                i += 1
            outs = {sc.outcome(x) for _, x in grp}
            pages = [page(x) for q, x in grp if q[1] == "page"]
            again = [page(x) for q, x in grp if q[1] == "again"]
            e = {"e": kind, "limit": op["limit"], "out": "ok" if outs == {"ok"} else "panic", "pages": pages, "again": again}
            if kind == "list":
                e["kind"] = "b" if op["op"] == "list_b" else "cb"
                e["recs"] = [[x["said"], x["b"] + 1] for q, z in grp for x in z.get("ok", {}).get("recs", []) if "b" in x]
            else:
                e["q"], e["lang"] = op["q"], op.get("lang") or ""
                e["hits"] = [h for q, z in grp if "ok" in z for h in hits(z)]
        elif kind == "dump":
            e = {"e": "dump", "kv": [[a, b[:16]] for a, b in ok.items()]}
        elif kind == "samedump":
            e = {"e": "samedump", "with": p[1]}
        elif kind == "reopen":
            continue
        e["s"] = s
        ev.append(e)
        at.append(k)
    return {"id": script["id"], "events": ev, "bundles": [facts.bundle(b) for b in res["bundles"]]}, at


def obj_of(j):
    """kind and facts of an object fetched on its own"""
    t = j.get("type", "")
    if t == "spec/capture_base/1.1":
        return "cb", facts.cb_facts(j)
    kind = t.split("/")[2] if t.count("/") >= 3 else "?"
    return kind, facts.ov_facts(kind, j)


# ------------------------------------------------------------------ generation
class World(Script):
    """a random history; knows which attributes a file adds, not what comes out"""

    def gen(self, s, base=None, bad=0.0, kinds=None, names=True, attrs=None, deps=True):
        r = self.r
        ok = [f for f in self.files[s] if not f.get("bad")]
        saids = ["@{%s}" % f["var"] for f in ok if f.get("stored")] if deps else []
        if r.random() < 0.15 or not saids:
            saids = saids + [gens.SAIDS[0]]
        nm = sorted(self.names[s]) if names else []
        G = gens.Gen(r, attrs=attrs or ["a", "b", "c", "d-1"], langs=["en", "fr", "pl"], saids=saids, names=nm, bad=bad, kinds=kinds or gens.OVER, depth=3)
        return G

    def meta_cmd(self):
        r = self.r
        P = {}
        for k in r.sample(["name", "description", "note"], r.choice([1, 2, 2, 3])):
            P[k] = " ".join(r.choice(WORDS) for _ in range(r.choice([1, 2, 2, 3, 3, 14, 14 if r.random() < 0.8 else r.choice([50, 200])])))
        return gens.meta(r.choice(["en", "fr", "pl"]), **P)

    def file(self, s="0", bad=0.0, how=None, frm=None, kinds=None, n=None, metas=0.4, named=0.4, simple=False):
        r = self.r
        good = [f for f in self.files[s] if f.get("stored") and not f.get("bad")]
        base = r.choice(good) if good and r.random() < (0.3 if frm is None else frm) else None
        G = self.gen(s, bad=bad, kinds=kinds)
        if base:
            # an attribute of the base may be named, not removed; adding one again replaces its type
            G.have = set()
            cmds = []
            have = set(base["have"])
            G.retype = set(have) if r.random() < 0.5 else set()
            for _ in range(n or r.choice([0, 1, 1, 2, 3])):
                G.have = set(have)
                x = G.cmd()
                if x["k"] == "remove":
                    x = G.overlay() if have else G.add_attribute()
                if x["types"]:
                    new = [t for t in x["types"] if t[0] not in {y[0] for z in cmds for y in z["types"]}]
                    x = dict(x, types=new)
                    if not new:
                        continue
                cmds.append(x)
                have |= {t[0] for t in x["types"]}
        elif bad == 0 and kinds is None and n is None and r.random() < 0.04:
            cmds, have = gens.scale(r), set()
        elif simple:
            cmds = [gens.add_attr([(r.choice(["a", "b", "c"]), gens.T(r.choice(["Text", "Numeric"])))])]
            have = {cmds[0]["types"][0][0]}
        else:
            cmds = G.cmds(n or r.choice([1, 2, 3, 4, 6]))
            have = set(G.have)
        if r.random() < metas:
            cmds.append(self.meta_cmd())
        name = r.choice(["n1", "n1", "n2", "n2", "name-3", "B.4", "N1", "n1:x/y", "żółw"]) if r.random() < named else None
        how = how or r.choice(["store", "store", "store", "build", "build", "validate"])
        L = ocafile.RandomLayout(r) if r.random() < 0.2 else None
        late = bad > 0 and good and r.random() < 0.3
        if late:
            # a FROM which is not at the beginning
            cmds = list(cmds)
            cmds.insert(r.randint(0 if base else 1, len(cmds)), gens.frm("@{%s}" % r.choice(good)["var"]))
        var = self.build(cmds, base=base["var"] if base else None, name=name, how=how, s=s, L=L)
        f = {"var": var, "have": have, "cmds": cmds, "base": base["var"] if base else None, "name": name, "stored": how in ("store", "build"), "bad": bad > 0}
        if bad == 0 and name:
            self.names[s][name] = var
        self.files[s].append(f)
        return f

    def again(self, s="0", how=None):
        """a file built before, once more (its local names may mean something else by now)"""
        good = [f for f in self.files[s] if not f.get("bad")]
        if not good:
            return
        f = self.r.choice(good)
        cmds = f["cmds"]
        if self.r.random() < 0.3 and len(cmds) > 1:
            cmds = cmds[: self.r.randint(1, len(cmds))]
        name = self.r.choice([f["name"], "n2", None])
        how = how or self.r.choice(["store", "build", "validate"])
        var = self.build(cmds, base=f["base"], name=name, how=how, s=s)
        if name:
            self.names[s][name] = var
        self.files[s].append(dict(f, var=var, cmds=cmds, name=name, stored=how != "validate", have=f["have"] if cmds is f["cmds"] else set()))

    def faulty(self, s="0"):
        r = self.r
        how = r.choice(["store", "build", "validate"])
        m = r.random()
        if m < 0.4:
            self.file(s, bad=0.5, how=how, named=0.7)
        elif m < 0.7:
            f = {"types": [["z", gens.T("nope%d" % r.randint(1, 3), r.choice([0, 0, 1, 2]), "n")]]}
            cmds = [gens.add_attr([("a", gens.T("Text"))]), gens.add_attr(f["types"])]
            if r.random() < 0.4:
                cmds[1] = gens.ov("Link", [("a", gens.V("x"))], [("target", {"ref": "n", "to": "nope"})])
            self.build(cmds, name=r.choice([None, "n1", "n9"]), how=how, s=s)
        elif m < 0.85:
            self.build([gens.add_attr([("a", gens.T("Text"))]), gens.add_attr([("a", gens.T("Text"))])], name="n1", how=how, s=s)
        else:
            good = [f for f in self.files[s] if f.get("stored") and not f.get("bad")]
            if good:
                self.build([gens.ov("Label", [("nosuch", gens.V("x"))], [("lang", gens.V("en"))])], base=r.choice(good)["var"], name="n1", how=how, s=s)

    # ------------------------------------------------------------- queries
    def saids(self, s="0", stored_only=False):
        return ["@{%s}" % f["var"] for f in self.files[s] if not f.get("bad") and (f.get("stored") or not stored_only)]

    def q_get(self, said, dep, s="0"):
        self.op("get", op="get", said=said, dep=dep, s=s)

    def q_steps(self, said, s="0"):
        self.op("steps", op="steps", said=said, s=s)

    def q_refs(self, s="0"):
        self.op("refs", op="refs", s=s)

    def q_explore(self, said, s="0"):
        self.op("explore", op="explore", said=said, s=s)

    def q_object(self, said, s="0"):
        self.op("object", op="objects", saids=[said], s=s)

    def q_dump(self, s="0"):
        self.op("dump", op="dump", s=s)

    def q_list(self, kind="b", limit=2, upto=4, s="0"):
        for rnd in ("page", "again"):
            for pg in range(1, upto + 1):
                first = rnd == "page" and pg == 1
                self.op("list" if first else "list+", rnd, op="list_b" if kind == "b" else "list_cb", limit=limit, page=pg, s=s)

    def q_search(self, q, lang=None, limit=3, upto=3, s="0"):
        for rnd in ("page", "again"):
            for pg in range(1, upto + 1):
                first = rnd == "page" and pg == 1
                op = {"op": "search", "q": q, "limit": limit, "page": pg, "s": s}
                if lang:
                    op["lang"] = lang
                self.op("search" if first else "search+", rnd, **op)

    def words(self):
        r = self.r
        w = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            x = r.choice(WORDS)
            m = r.random()
            if m < 0.2:
                x = x.upper()
            elif m < 0.3:
                x = x.lower()
            elif m < 0.5 and len(x) > 3:
                i = r.randint(0, len(x) - 3)
                x = x[i:i + r.randint(3, 5)]
            w.append(x)
        return r.choice([" ", "  ", "\t"]).join(w)

    def done(self, i, pid):
        return {"id": "%s-%s" % (pid, i), "ops": self.ops, "plan": self.plan}


def opened(r, pid):
    w = World(r)
    db = r.choice(["mem", "mem", "mem", "sled", "fs"])
    w.open(db=db, cache=r.choice(["mem", "mem", db]), sql="file" if r.random() < 0.2 else "mem")
    w.persistent = w.ops[0]["sql"] == "file"
    return w


def reopen(w):
    if w.persistent:
        w.op("reopen", op="reopen")


def query_all(w, r, some=1.0, deps=(False, True), s="0"):
    for x in dict.fromkeys(w.saids(s)):
        if r.random() < some:
            w.q_get(x, r.choice(deps), s)
        if r.random() < some:
            w.q_steps(x, s)
        if r.random() < some:
            w.q_explore(x, s)
    w.q_refs(s)
    n = len(w.files[s])
    for kind in ("b", "cb"):
        w.q_list(kind, 50, 1, s)
        w.q_list(kind, 2, n // 2 + 2, s)


def make(pid, r):
    w = opened(r, pid)
    n = r.choice([3, 5, 7])
    if pid == "C11":
        for _ in range(n):
            m = r.random()
            w.again() if m < 0.3 else w.faulty() if m < 0.4 else w.file(n=r.choice([1, 3, 5, 8]), metas=0.2)
            for x in dict.fromkeys(w.saids(stored_only=True)):
                if r.random() < 0.5:
                    w.q_steps(x)
            if r.random() < 0.2:
                w.q_dump()
            if r.random() < 0.2:
                reopen(w)
        for x in dict.fromkeys(w.saids()):
            w.q_steps(x)
        w.q_steps(FAKE)
    elif pid == "C12":
        w.file(how="store")
        for _ in range(n):
            f = w.file(frm=0.8, bad=0.0 if r.random() < 0.85 else 0.3)
            if f["base"]:
                w.q_steps("@{%s}" % f["base"])
                w.q_get("@{%s}" % f["base"], False)
            if r.random() < 0.3:
                w.again()
        for x in dict.fromkeys(w.saids()):
            w.q_get(x, False)
            w.q_steps(x)
    elif pid == "C13":
        for _ in range(n):
            m = r.random()
            if m < 0.2:
                w.faulty()
            elif m < 0.35:
                ext = {"n1": "@{%s}" % w.files["0"][-1]["var"] if w.files["0"] else gens.SAIDS[1], "out": gens.SAIDS[2]}
                G = w.gen("0")
                G.names = ["n1", "out"] if r.random() < 0.8 else ["n1", "gone"]
                G.kinds = ["Link", "Label"]
                w.build(G.cmds(r.choice([2, 4])), name=r.choice([None, "n1", "n5"]), how="ext", ext=ext)
            else:
                w.file(kinds=["Link", "Link", "Label", "Meta"], named=0.8, metas=0.1)
            w.q_refs()
            if r.random() < 0.2:
                reopen(w)
    elif pid == "C14":
        for _ in range(n):
            w.file(kinds=["Label", "Link"], metas=0.1, frm=0.15)
            if r.random() < 0.6:
                # chains and diamonds
                ok = [f["var"] for f in w.files["0"]]
                ts = [(a, gens.T("@{%s}" % r.choice(ok), r.choice([0, 0, 1, 2, 3]), "s")) for a in r.sample(["p", "q", "r"], r.choice([1, 2, 3]))]
                v = w.build([gens.add_attr(ts)], how=r.choice(["store", "store", "build", "validate"]))
                w.files["0"].append({"var": v, "have": {t[0] for t in ts}, "cmds": [gens.add_attr(ts)], "base": None, "name": None, "stored": w.ops[-1]["op"] == "build" or bool(w.ops[-1].get("store"))})
        for x in dict.fromkeys(w.saids()):
            w.q_get(x, True)
            if r.random() < 0.4:
                w.q_get(x, False)
        w.q_get(FAKE, True)
        w.q_get(FAKE, False)
    elif pid == "C15":
        for _ in range(n):
            w.again() if r.random() < 0.2 else w.file(metas=0.3, n=r.choice([1, 2, 4]))
            if r.random() < 0.3 and w.saids():
                w.q_explore(r.choice(w.saids()))
        w.file(how="validate")
        builds = [k for k, op in enumerate(w.ops) if op.get("op") in ("validate", "build")]
        w.objq = r.sample(builds, min(len(builds), 6))
        for x in dict.fromkeys(w.saids()):
            w.q_explore(x)
        w.q_explore(FAKE)
        w.q_object(FAKE)
    elif pid == "C17":
        for _ in range(n):
            w.file(how=r.choice(["store", "build"]), n=r.choice([1, 2, 3]), metas=0.6)
        query_all(w, r, 0.3)
        asked = [(w.words(), r.choice([None, "en"]), r.choice([1, 2, 10])) for _ in range(2)] + [(r.choice(WORDS[:16]), None, 10) for _ in range(4)]
        for q in asked:
            w.q_search(*q)
        for _ in range(r.choice([2, 3])):
            w.q_dump()
            for _ in range(r.choice([1, 1, 2])):
                m = r.random()
                w.faulty() if m < 0.45 else w.again() if m < 0.8 else w.file(how="validate")
            w.q_dump()
            query_all(w, r, 0.25)
            for q in r.sample(asked, 4):
                w.q_search(*q)
            if r.random() < 0.3:
                reopen(w)
    elif pid == "C19":
        n = r.choice([0, 1, 2, 4, 6, 9, 12])
        for k in range(n):
            m = r.random()
            if m < 0.2:
                w.again()
            elif m < 0.3:
                w.faulty()
            else:
                w.file(simple=r.random() < 0.5, n=r.choice([1, 2, 3]), metas=0.5, how=r.choice(["store", "store", "build", "validate"]), frm=0.2)
            if r.random() < 0.15:
                w.q_list("b", 2, n + 2)
                if r.random() < 0.6:
                    w.again()
                    w.q_list("b", 2, n + 2)
        for lim in r.sample([1, 2, 3, 4, 5, 7, 10, 100], 3):
            w.q_list("b", lim, n // lim + 2)
            w.q_list("cb", lim, n // lim + 2)
        if r.random() < 0.3:
            reopen(w)
            w.q_list("b", 3, n // 3 + 2)
    elif pid == "C20":
        n = r.choice([1, 2, 4, 6, 8])
        for k in range(n):
            m = r.random()
            if m < 0.15:
                w.again()
            else:
                w.file(simple=r.random() < 0.7, n=r.choice([1, 2]), metas=1.0, kinds=["Label", "Meta"], how=r.choice(["store", "store", "build", "validate"]), frm=0.3)
                if r.random() < 0.3:
                    w.q_search(w.words(), None, 10, 1)
        for _ in range(8):
            lim = r.choice([1, 2, 3, 10])
            w.q_search(w.words(), r.choice([None, None, "en", "fr", "de"]), lim, n // lim + 2)
        if r.random() < 0.3:
            reopen(w)
            w.q_search(w.words(), None, 10, 1)
    return w


def expand_objects(ctx, scripts):
    """objects are asked for by the identifiers a first run shows"""
    todo = [s for s in scripts if s.get("objq")]
    if not todo:
        return
    res = c.run_scripts(ctx, todo)
    for s, r in zip(todo, res):
        if r.get("dead"):
            continue
        seen = []
        for k in s["objq"]:
            b = r["obs"][k].get("ok", {}).get("b")
            if b is None:
                continue
            seen += [o["said"] for o in facts.bundle(r["bundles"][b])["objs"]]
            # and of what came before it
            for st in r["obs"][k].get("ok", {}).get("steps", [])[:2]:
                seen += [o["said"] for o in facts.bundle(r["bundles"][st["b"]])["objs"]] + [st["said"]]
        for said in dict.fromkeys(seen):
            for kind, op in (("explore", {"op": "explore", "said": said, "s": "0"}), ("object", {"op": "objects", "saids": [said], "s": "0"})):
                s["ops"].append(op)
                s["plan"].append([kind, "0", len(s["ops"]) - 1])
        s.pop("objq")


def corpus(ctx, pid):
    r = ctx.rng
    n = {"C11": 110, "C12": 130, "C13": 170, "C14": 150, "C15": 90, "C17": 90, "C19": 90, "C20": 90}[pid]
    if ctx.thorough:
        n *= 12
    out = []
    for i in range(n):
        w = make(pid, r)
        s = w.done(i, pid)
        if getattr(w, "objq", None):
            s["objq"] = w.objq
        out.append(s)
    if pid == "C12":
        w = World(r)
        w.open()
        w.build([gens.add_attr([("a", gens.T("Text"))])], base="fake", how="build")
        w.ops[-1]["text"] = w.ops[-1]["text"].replace("@{fake}", FAKE)
        s = w.done("from-unknown", pid)
        s["kf"] = "from-unknown"
        s["fake"] = FAKE
        out.append(s)
    if pid in ("C11", "C12"):
        out += [long_history(r, pid, i, n) for i, n in enumerate([40, 150, 300] if not ctx.thorough else [40, 150, 300, 600])]
    if pid == "C14":
        out += [ladder(r, pid, i, *x) for i, x in enumerate([(24, 2), (6, 3), (60, 1), (12, 2)] if not ctx.thorough else [(24, 2), (40, 3), (150, 1), (12, 2), (60, 2)])]
    if pid in ("C13", "C14", "C15", "C19", "C20"):
        out += [crowd(r, pid, i, n) for i, n in enumerate([12, 35] if not ctx.thorough else [12, 20, 35, 60, 110])]
    out += [massive(r, pid, i) for i in range(30 if ctx.thorough else 5)]
    out += replay(ctx, pid)
    expand_objects(ctx, out)
    return out


def long_history(r, pid, i, n):
    """one bundle reached by n commands: in one file, and by files each extending the last"""
    w = World(r)
    w.open(db=r.choice(["mem", "sled", "fs"]))
    first = [gens.add_attr([("a", gens.T("Text"))]), gens.add_attr([("b", gens.T("Numeric"))])]
    label = lambda k: gens.ov("Label", [(r.choice("ab"), gens.V("v%d" % k))], [("lang", gens.V("en"))])
    if pid == "C11":
        v = w.build(first + [label(k) for k in range(n - 2)], how="build")
        w.q_steps("@{%s}" % v)
        v = w.build([label(n), label(n + 1)], base=v, how="store")
    else:
        v = w.build(first, how="build")
        k = 0
        while k < n // 3:
            m = r.choice([1, 1, 2, 5])
            v = w.build([label(k + j) for j in range(m)], base=v, how="build")
            k += m
    w.q_steps("@{%s}" % v)
    w.q_get("@{%s}" % v, False)
    return w.done("long%d" % i, pid)


def crowd(r, pid, i, n):
    """many bundles on one capture base, many names, many references, one bundle of many overlays"""
    w = World(r)
    w.open(db=r.choice(["mem", "sled", "fs"]))
    base = gens.add_attr([("a", gens.T("Text"))])
    vs = []

    def add(cmds, name=None):
        vs.append(w.build(cmds, name=name, how=r.choice(["build", "store"])))
        w.files["0"].append({"var": vs[-1], "have": set(), "cmds": cmds, "base": None, "name": name, "stored": True})
    for k in range(n):
        add([base, gens.meta("en", name="crowd %s number%d" % (r.choice(WORDS[:8]), k))] + ([gens.flag(["a"])] if k % 9 == 8 else []), name="m%d" % k if pid == "C13" else None)
    langs = r.sample(list(gens.MANY), min(len(gens.MANY), n))
    add([base] + [gens.ov("Label", [("a", gens.V("l" + l))], [("lang", gens.V(l))]) for l in langs] + [gens.meta(l, name="crowd " + l) for l in langs[::2]])
    if pid == "C13":
        add([gens.add_attr([("r%d" % k, gens.T("m%d" % k, r.choice([0, 0, 2]), "n")) for k in range(n)])])
        w.q_refs()
    if pid == "C14":
        for k in (0, n // 2):
            add([gens.add_attr([("r%d" % j, gens.T("@{%s}" % v, r.choice([0, 0, 2]), "s")) for j, v in enumerate(vs[k:])])])
        for v in vs[-3:]:
            w.q_get("@{%s}" % v, True)
    if pid == "C15":
        w.objq = [len(w.ops) - 1, r.randrange(1, len(w.ops))]
        for v in vs:
            w.q_explore("@{%s}" % v)
    if pid == "C19":
        for lim in (1, 7, n // 2, 1000):
            for kind in ("b", "cb"):
                w.q_list(kind, lim, n // lim + 2)
    if pid == "C20":
        for q in ("crowd", "number1", "number", "crowd beta", "CROWD alpha numb"):
            w.q_search(q, None, 5, n // 5 + 2)
            w.q_search(q, "en", 50, 2)
    s = w.done("crowd%d" % i, pid)
    if getattr(w, "objq", None):
        s["objq"] = w.objq
    return s


def massive(r, pid, i):
    """bundles of very many parts, of very long texts, and of one a file extends"""
    w = World(r)
    w.open(db=["mem", "sled", "fs"][i % 3])
    vs = []

    def add(cmds, name=None, base=None):
        vs.append(w.build(cmds, name=name, how=r.choice(["build", "store"]), base=base))
        w.files["0"].append({"var": vs[-1], "have": set(), "cmds": cmds, "base": base, "name": name, "stored": True})
    add([gens.add_attr([("a", gens.T("Text"))])], name="n" * r.choice([1, 70, 130]))
    wide = gens.add_attr([("v%d" % k, gens.T(r.choice(gens.TYPES))) for k in range(r.choice([700, 1500]))])
    add([wide, gens.meta("en", name="massive end%d" % i)])
    text = " ".join(r.choice(WORDS[:10]) + "%d" % k for k in range(r.choice([40, 100, 200]))) + " verylast"
    few = gens.add_attr([("a", gens.T("Text")), ("b", gens.T("Numeric"))])
    add([few, gens.meta("en", name="massive", description=text), gens.meta("fr", name=text[::-1][:300])])
    kinds = [k for k in gens.VERY if k not in ("one", "cmds") or pid in ("C11", "C12", "C17")]
    add(gens.very_many(r, r.choice(kinds)) + [gens.meta("pl", description="massive verylast")])
    add([gens.ov("Label", [("v3", gens.V("x"))], [("lang", gens.V("en"))])], base=vs[1])
    add([gens.add_attr([("r%d" % k, gens.T("@{%s}" % v, r.choice([0, 3]), "s")) for k, v in enumerate(vs)])])
    if pid == "C13":
        add([gens.add_attr([("n%d" % k, gens.T("x%d" % k if k % 50 else w.files["0"][0]["name"], r.choice([0, 1]), "n")) for k in range(70)])])
    query_all(w, r)
    w.q_dump()
    if pid in ("C20", "C17"):
        for q in ("massive", "verylast", "%s%d" % ("beta", 30), "mass last", " ".join(text.split()[-6:]), " ".join(r.sample(text.split(), 12))):
            w.q_search(q, None, 5, 2)
    if pid in ("C15", "C17"):
        w.objq = [k for k, o in enumerate(w.ops) if o["op"] == "build"][:5]
    s = w.done("massive%d" % i, pid)
    if getattr(w, "objq", None):
        s["objq"] = w.objq
    return s


def ladder(r, pid, i, n, k):
    """bundles each of which refers to the one before in k ways"""
    w = World(r)
    w.open(db=r.choice(["mem", "sled", "fs"]))
    vs = [w.build([gens.add_attr([("a", gens.T("Text"))])], how="build")]
    for j in range(n):
        ts = [("abc"[m], gens.T("@{%s}" % (vs[-1] if m == 0 or r.random() < 0.8 else r.choice(vs)), r.choice([0, 0, 1, 3]), "s")) for m in range(k)]
        vs.append(w.build([gens.add_attr(ts)], how=r.choice(["build", "store"])))
    for v in [vs[-1], vs[n // 2], vs[0]]:
        w.q_get("@{%s}" % v, True)
    return w.done("ladder%d" % i, pid)


def replay(ctx, pid):
    """behaviours of the model as scripts"""
    raw = json.load(open(c.os.path.join(c.SPEC, "alphabet_store_raw.json")))
    gen = c.behaviours(c.tlc(ctx, "MC_Store", "GEN_Store.cfg", workers=1)[1])
    if not gen:
        raise c.ToolError("the model printed no behaviours")
    gen = sorted({json.dumps(h) for h in gen})
    ctx.stats["behaviours_of_model"] = len(gen)
    ctx.rng.shuffle(gen)
    out = []
    for i, h in enumerate(gen[: len(gen) if ctx.thorough else 150]):
        w = World(ctx.rng)
        w.open(sql="file" if pid == "C17" else "mem")
        vs = []
        for k, (f, b, how) in enumerate(json.loads(h)):
            if pid == "C17":
                w.q_dump()
            x = raw[f - 1]
            v = w.build(x["cmds"], base=vs[b - 1] if b else None, name=x["name"] or None, how="validate" if how == "validate" else ctx.rng.choice(["build", "store"]))
            vs.append(v)
            w.files["0"].append({"var": v, "have": set(), "stored": True})
            if pid == "C13":
                w.q_refs()
        if pid == "C17":
            w.q_dump()
        for v in vs:
            if pid in ("C11", "C12", "C17"):
                w.q_steps("@{%s}" % v)
            if pid in ("C12", "C14", "C17"):
                w.q_get("@{%s}" % v, True)
                w.q_get("@{%s}" % v, False)
            if pid in ("C15", "C17"):
                w.q_explore("@{%s}" % v)
        if pid in ("C19", "C17"):
            for lim in (1, 2):
                w.q_list("b", lim, 4)
                w.q_list("cb", lim, 3)
        if pid in ("C20", "C17"):
            w.q_search("lph", None, 2, 3)
            w.q_search("Alpha nope", "en", 2, 2)
        s = w.done("m%d" % i, pid)
        if pid == "C15":
            s["objq"] = [k for k, op in enumerate(w.ops) if op.get("op") in ("validate", "build")]
        out.append(s)
    return out


def run(ctx):
    pid = ctx.pid
    c.model_check(ctx, "MC_Store", "MC_Store_deep.cfg" if ctx.thorough else "MC_Store.cfg", workers=8, timeout=1200)
    scripts = ctx.only if ctx.only else corpus(ctx, pid)
    judge(ctx, pid, scripts, ALL[pid])
    return "model_checking"


def judge(ctx, pid, scripts, classes, dead=True):
    res = c.run_scripts(ctx, scripts)
    traces, ats, back = [], [], []
    for s, r in zip(scripts, res):
        if r.get("dead"):
            if dead:
                c.report(ctx, [r["dead"]], s, "the process %s" % r["dead"])
            continue
        if s.get("fake"):
            r["vars"]["fake"] = s["fake"]
        t, at = trace(s, r)
        traces.append(t)
        ats.append(at)
        back.append((s, r))
    for k, e, bad, ix in c.validate(ctx, "TraceStore", traces, maxbytes=8_000_000):
        if k is None:
            continue
        s, r = back[k]
        ev = traces[k]["events"][e]
        bad = [x for x in bad if x in classes]
        if bad:
            op = ats[k][e]
            c.report(ctx, bad, s, json.dumps({"op": op, "obs": r["obs"][op] if op >= 0 else "", "ev": ev}, ensure_ascii=False)[:3000])
    ctx.stats["scripts"] = len(scripts)
    ctx.stats["events"] = sum(len(t["events"]) for t in traces)
    ctx.stats["bundles"] = sum(len(t["bundles"]) for t in traces)
    kinds = {}
    for t in traces:
        for e in t["events"]:
            key = e["e"] + (":" + e["out"] if e["e"] == "build" else "")
            kinds[key] = kinds.get(key, 0) + 1
    ctx.stats["event_kinds"] = kinds
    ctx.cov["samples"] = [scripts[i]["ops"] for i in range(0, len(scripts), max(1, len(scripts) // 3))][:3]
