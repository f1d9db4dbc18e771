"""C18: builds cut off at every one of their writes."""
import common as c
import facts
import suite_store as ss

CLASSES = {"get-panic", "get-failed", "get-content", "get-unstored", "deps-failed", "history-panic", "history-failed", "history-length", "history-results", "history-commands",
           "history-links", "history-replay", "history-unstored", "refs", "refs-lost", "refs-failed", "explore-panic", "explore-lost", "explore-missing", "explore", "explore-unbuilt", "explore-self",
           "object-panic", "object-missing", "object-said", "object-content", "list-failed", "list-content", "list-lost", "list-unbuilt", "list-cb-lost", "list-cb-unbuilt",
           "search-failed", "search-lost", "search-unbuilt", "search-set", "list-set", "list-cb-set", "list-total", "list-cb-total", "list-repeated", "list-cb-repeated", "search-content",
           "stores-differ", "panic", "crash", "rejected-good", "content", "step-parent", "not-cut"}


def prefix(r, w, s):
    """the builds before; the same for both stores"""
    st = r.getstate()
    n = r.choice([1, 2, 3, 4])
    for _ in range(n):
        w.file(s, how=r.choice(["build", "store"]), metas=0.6, n=r.choice([1, 2, 3]))
    return st


def target(r, w, s):
    m = r.random()
    if m < 0.15:
        w.again(s, how="build")
    else:
        w.file(s, how="build", metas=0.8, n=r.choice([1, 2, 3, 4, 6]), frm=0.35, named=0.6)


def objects(w, r, objs, n):
    """the objects inside the bundles, by the identifiers a first run shows"""
    for x in r.sample(objs, min(n, len(objs))):
        w.q_explore(x)
        if r.random() < 0.5:
            w.q_object(x)


def world(r, store):
    """-> (script that counts, function making the script for given points)"""
    seed = r.random()
    kind = store

    def base(with_two):
        rr = __import__("random").Random(seed)
        w = ss.World(rr)
        sides = ["1", "0"] if with_two else ["0"]
        for s in sides:
            rr.seed(seed)
            w.n = 0
            w.open(s, db=kind, cache=kind, sql="file")
            prefix(rr, w, s)
            if s == "1" or not with_two:
                if not with_two:
                    w.op("quiet", op="arm", log=True, s=s)
                target(rr, w, s)
                if not with_two:
                    w.op("quiet", op="writes", s=s)
        return rr, w

    def cut(points, objs):
        rr, w = base(True)
        before = [dict(f) for f in w.files["0"]]
        names = dict(w.names["0"])
        mark = len(w.ops)
        target(rr, w, "0")
        rebuilt_op, rebuilt_plan = w.ops[mark], w.plan[mark]
        after = w.files["0"]
        del w.ops[mark:], w.plan[mark:]
        w.names["0"] = names
        q = __import__("random").Random("%s/%s" % (seed, points))
        for k in points:
            arm = {"at": k}
            # a file can also be cut off half way through
            if kind == "fs" and q.random() < 0.7:
                arm["tear"] = q.choice([0, 1, 10, 45, 60, 100, 300, 1000])
            w.op("quiet", op="arm", s="0", **arm)
            x = dict(rebuilt_op)
            w.op("crash", *rebuilt_plan[1:-2], **x)
            w.op("reopen", op="reopen", s="0")
            w.files["0"] = before
            ss.query_all(w, q, 0.6)
            objects(w, q, objs, 4)
            if q.random() < 0.5:
                w.q_search(w.words(), None, 20, 1)
            w.q_search("alpha", None, 20, 1)
            w.q_list("b", 2, 4)
        w.op("build", *rebuilt_plan[1:-2], **rebuilt_op)
        w.files["0"] = after
        ss.query_all(w, q, 0.6)
        objects(w, q, objs, 6)
        w.q_search(w.words(), None, 20, 1)
        for s in ("0", "1"):
            w.q_dump(s)
        w.op("samedump", "1", op="skip", s="0")
        w.q_list("b", 50, 1, "1")
        return w

    return base(False)[1], cut


def corpus(ctx):
    r = ctx.rng
    nw = 120 if ctx.thorough else 14
    ws = [world(r, ["mem", "mem", "mem", "sled", "fs"][i % 5] if i % 7 else "mem") for i in range(nw)]
    first = [{"id": "count-%d" % i, "ops": w.ops, "plan": w.plan} for i, (w, _) in enumerate(ws)]
    res = c.run_scripts(ctx, first)
    out = []
    total = 0
    for i, ((w, cut), rs) in enumerate(zip(ws, res)):
        if rs.get("dead"):
            c.report(ctx, [rs["dead"]], first[i], "the process %s" % rs["dead"])
            continue
        n = rs["obs"][-1]["ok"]["count"]
        sql = [x for x in rs["obs"][-1]["ok"]["log"] if x.startswith("sql:")]
        if rs["obs"][-2].get("ok") and not sql:
            raise c.ToolError("the search database is written without the hook")
        total += n
        objs = list(dict.fromkeys(o["said"] for b in rs["bundles"] for o in facts.bundle(b)["objs"]))
        pts = list(range(n))
        if not ctx.thorough and n > 40:
            pts = sorted(r.sample(pts, 34)) + pts[-6:]
        for k in dict.fromkeys(pts):
            many = [k] if r.random() < 0.8 else [r.randint(0, k), k]
            out.append({"id": "C18-%d-%d" % (i, k), "ops": None, "plan": None, "w": cut(many, objs)})
    for s in out:
        w = s.pop("w")
        s["ops"], s["plan"] = w.ops, w.plan
    ctx.stats["write_points"] = total
    ctx.stats["worlds"] = nw
    return out


def run(ctx):
    c.model_check(ctx, "MC_Crash", "MC_Crash_deep.cfg", workers=8, timeout=1200)
    scripts = ctx.only if ctx.only else corpus(ctx)
    ss.judge(ctx, "C18", scripts, CLASSES)
    return "model_checking"
