"""C01-C05: building, rejecting, identifying, reloading and continuing bundles."""
import json
import os

import common as c
import facts
import gens
import ocafile
import specform

ALL = {
    "C01": {"content", "step-content", "step-count", "accepted-faulty", "rejected-good", "panic", "junk", "objects", "duplicate-object",
            "object-content", "get-content", "get-failed", "get-panic", "cont-content", "cont-panic", "cont-rejected-good", "cont-accepted-faulty"},
    "C02": {"accepted-faulty", "rejected-good", "wrong-errors", "panic", "cont-accepted-faulty", "cont-rejected-good", "cont-wrong-errors", "cont-panic"},
    "C03": {"unreadable", "bundle-said", "object-said", "overlay-link", "version-length", "said", "step-link", "stored-object-said", "object-missing",
            "object-panic", "reload-recomputed"},
    "C04": {"table-bundle", "table-object", "reload-recomputed", "reload-said"},
    "C05": {"reload-panic", "reload-failed", "reload-bytes", "reload-content", "reload-said", "reload-recomputed", "cont-content", "cont-panic",
            "cont-rejected-good", "cont-accepted-faulty", "get-content", "get-failed", "get-panic"},
}


def errs(o):
    out = []
    for e in o.get("err", []):
        if not isinstance(e, dict) or e.get("kind") not in ("build", "invalid"):
            x = ["?", str(e)[:80]]
        else:
            x = [str(e["ln"]), e["raw"].split("\n")[0].strip()]
        if not out or out[-1] != x:
            out.append(x)
    return out


def outcome(o):
    if "ok" in o:
        return "ok"
    if "err" in o:
        return "err"
    if "panic" in o or "crash" in o:
        return "panic"
    return "skip"


def build_event(o, cmds, lines, slot, base="", cls=""):
    ok = o.get("ok", {})
    return {"e": "build", "cls": cls, "slot": slot, "base": base, "cmds": [specform.cmd(x) for x in cmds], "lines": [[str(n), t] for n, t in lines], "out": outcome(o),
            "b": ok.get("b", -1) + 1, "said": ok.get("said", ""), "errs": errs(o) if "err" in o else [],
            "withsteps": "steps" in ok, "parent": "",
            "steps": [{"b": s["b"] + 1, "said": s["said"], "parent": s["parent"] or ""} for s in ok.get("steps", [])]}


def load_event(o, b, slot):
    ok = o.get("ok", {})
    re = ok.get("re", {})
    out = outcome(o)
    if out == "ok" and "ok" not in re:
        out = "panic"
    return {"e": "load", "slot": slot, "out": out, "b": b, "b2": ok.get("b", -1) + 1, "said": ok.get("said", ""),
            "recomputed": re.get("ok", {}).get("recomputed", "")}


# A script is {"id", "ops", "make": [(op index, how, args)]}
def small(cmds, L=None):
    text, lines = ocafile.render(cmds, (), L)
    ops = [{"op": "open"}, {"op": "validate", "text": text}, {"op": "load", "of": 1}]
    return {"ops": ops, "plan": [("build", 1, cmds, lines, "x", ""), ("load", 2, 1, "x")], "kind": "small"}


def full(cmds, L, store="mem"):
    text, lines = ocafile.render(cmds, (), L)
    ops = [{"op": "open", "cache": store}, {"op": "validate", "text": text}, {"op": "load", "of": 1}, {"op": "build", "text": text},
           {"op": "get", "of": 3}, {"op": "objects", "of": 3}, {"op": "pure", "text": text}]
    return {"ops": ops, "plan": [("build", 1, cmds, lines, "x", ""), ("load", 2, 1, "x"), ("build", 3, cmds, lines, "y", ""), ("same", 4, "y"),
                                 ("objects", 5), ("build", 6, cmds, lines, "z", "")], "kind": "full"}


def split(c1, c2, L1, L2, whole=True):
    t1, l1 = ocafile.render(c1, (), L1)
    t2, l2 = ocafile.render(c2, (), L2)
    t12, l12 = ocafile.render(c1 + c2, (), None)
    ops = [{"op": "pure", "text": t1}, {"op": "continue", "of": 0, "text": t2}, {"op": "load", "of": 1}] + ([{"op": "pure", "text": t12}] if whole else [])
    return {"ops": ops, "plan": [("build", 0, c1, l1, "x", ""), ("cont", 1, c2, l2, "y", "x"), ("load", 2, 1, "y")] + ([("build", 3, c1 + c2, l12, "z", "")] if whole else []),
            "kind": "split"}


def based(c1, c2, L1, L2, store=True, late=None):
    """a file extending the stored bundle of another, with FROM"""
    t1, l1 = ocafile.render(c1, (), L1)
    c2 = list(c2)
    if late is not None:
        c2.insert(late, gens.frm("@{base}"))
    t2, l2 = ocafile.render([gens.frm("@{base}")] + c2, (), L2)
    ops = [{"op": "open"}, {"op": "build", "text": t1, "as": "base"}, {"op": "build" if store else "validate", "text": t2}, {"op": "load", "of": 2}]
    return {"ops": ops, "plan": [("build", 1, c1, l1, "x", ""), ("cont", 2, c2, l2[1:], "y", "x"), ("load", 3, 2, "y")], "kind": "based"}


def trace(script, res):
    """-> (trace, event -> op index) or None when the process died"""
    ev, at = [], []
    obs = res["obs"]
    for i in range(len(res["bundles"])):
        ev.append({"e": "bundle", "b": i + 1})
        at.append(-1)
    for p in script["plan"]:
        o = obs[p[1]]
        if outcome(o) == "skip":
            continue
        if p[0] in ("build", "cont"):
            if p[0] == "cont" and outcome(obs[p[1] - 1]) != "ok":
                continue
            lines = json.loads(json.dumps(p[3]).replace("@{base}", res["vars"].get("base", "@{base}")))
            ev.append(build_event(o, p[2], lines, p[4], p[5], p[0]))
            if p[0] == "cont":
                ev[-1]["parent"] = obs[p[1] - 1]["ok"].get("said", "")
        elif p[0] == "load":
            b = obs[p[2]].get("ok", {}).get("b")
            if b is None:
                continue
            ev.append(load_event(o, b + 1, p[3]))
        elif p[0] == "same":
            ok = o.get("ok", {})
            ev.append({"e": "same", "slot": p[2], "out": outcome(o), "b": ok.get("b", -1) + 1})
        elif p[0] == "objects":
            saids = p_saids(script, res, p[1])
            got = o.get("ok", {}).get("objs", [])
            for k, s in enumerate(saids):
                d = got[k]["dig"] if k < len(got) else {}
                ev.append({"e": "object", "out": outcome(o) if outcome(o) != "ok" or k < len(got) else "short", "said": s, "d": str(d.get("d", "")), "dig": str(d.get("dig", ""))})
                at.append(p[1])
            continue
        at.append(p[1])
    return {"id": script["id"], "events": ev, "bundles": [facts.bundle(b) for b in res["bundles"]]}, at


def p_saids(script, res, k):
    of = script["ops"][k]["of"]
    b = res["obs"][of]["ok"]["b"]
    v = facts.bundle(res["bundles"][b])
    return [o["said"] for o in v["objs"]]


def corpus(ctx, pid):
    r = ctx.rng
    out = []
    raw = json.load(open(os.path.join(c.SPEC, "alphabet_content_raw.json")))
    gen = c.behaviours(c.tlc(ctx, "MC_Content", "GEN_Content.cfg")[1])
    ctx.stats["behaviours_of_model"] = len(gen)
    if not gen:
        raise c.ToolError("the model printed no behaviours")
    r.shuffle(gen)
    nb = len(gen) if ctx.thorough else {"C01": 1600, "C02": 1000, "C03": 500, "C04": 700, "C05": 500}[pid]
    for h in gen[:nb]:
        out.append(small([raw[i - 1] for i in h]))
    n = 3000 if ctx.thorough else {"C01": 260, "C02": 330, "C03": 200, "C04": 260, "C05": 260}[pid]
    for i in range(n):
        bad = {"C02": 0.25}.get(pid, 0.0 if r.random() < 0.7 else 0.12)
        if r.random() < 0.25:
            bad = 0.0
        G = gens.Gen(r, bad=bad, names=())
        k = r.choice([1, 3, 5, 8, 12, 18])
        cmds = G.cmds(k)
        L = None if r.random() < 0.4 else ocafile.RandomLayout(r)
        m = r.random()
        if pid in ("C01", "C05") and m < 0.2 or m < 0.05:
            # the second file gives attributes of the first other types
            G2 = gens.Gen(r, bad=bad, names=())
            G2.have, G2.retype, G2.past = set(G.have), set(G.have), list(G.past)
            out.append(split(cmds, G2.cmds(r.choice([1, 3, 6])), L, None, False))
        elif pid == "C02" and m < 0.3 or m < 0.08:
            G2 = gens.Gen(r, bad=bad, names=())
            G2.have, G2.retype, G2.past = set(G.have), set(), list(G.past)
            more = G2.cmds(r.choice([1, 2, 5]))
            out.append(based(cmds if r.random() < 0.3 else [gens.add_attr([(a, gens.T())]) for a in sorted(G.have)] or cmds, more, None, L, r.random() < 0.5,
                             r.randint(1, len(more)) if bad and r.random() < 0.3 else None))
        elif pid == "C05" and m < 0.6 or m < 0.3:
            j = r.randint(0, len(cmds) - 1) or 1
            out.append(split(cmds[:j], cmds[j:], L, None if r.random() < 0.5 else ocafile.RandomLayout(r)))
        else:
            out.append(full(cmds, L, r.choice(["mem", "mem", "sled", "fs"])))
        if pid in ("C04", "C01") and bad == 0.0:
            # the same commands in other orders: adds of attributes first, the
            # rest shuffled; the table compares them by content
            adds = [x for x in cmds if x["types"] and x["k"] == "add"]
            rest = [x for x in cmds if not (x["types"] or x["k"] == "remove")]
            if adds and not any(x["k"] == "remove" for x in cmds):
                for _ in range(2 if pid == "C04" else 1):
                    a2, r2 = adds[:], rest[:]
                    r.shuffle(a2)
                    r.shuffle(r2)
                    a2 = [dict(x, types=sorted(x["types"], key=lambda _: r.random())) for x in a2]
                    r2 = [dict(x, attrs=shuffle_attrs(r, x["attrs"])) for x in r2]
                    out.append(small(a2 + r2))
    for i in range(400 if ctx.thorough else 50):
        cmds = gens.scale(r)
        if r.random() < 0.3:
            j = r.randint(1, len(cmds) - 1)
            out.append(split(cmds[:j], cmds[j:], None, None))
        else:
            out.append(full(cmds, None if r.random() < 0.6 else ocafile.RandomLayout(r), r.choice(["mem", "mem", "sled", "fs"])))
    for kind in gens.VERY * (4 if ctx.thorough else 1):
        cmds = gens.very_many(r, kind)
        if r.random() < 0.3:
            j = r.randint(1, len(cmds) - 1)
            out.append(split(cmds[:j], cmds[j:], None, None))
        else:
            out.append(full(cmds, None, r.choice(["mem", "mem", "sled", "fs"])))
    if pid == "C02":
        for _ in range(60 if ctx.thorough else 12):
            out.append(faults(r))
    if pid in ("C01", "C05"):
        for _ in range(600 if ctx.thorough else 70):
            # attributes with everything said about them, then given other types
            G = gens.Gen(r, names=())
            first = [G.add_attribute() for _ in range(r.choice([1, 2, 3]))]
            have = sorted(G.have)
            first.append(gens.flag(r.sample(have, r.randint(1, len(have)))))
            first += [G.overlay() for _ in range(r.choice([0, 2, 6]))]
            again = r.sample(have, r.randint(1, len(have)))
            second = [gens.add_attr([(a, G.type()) for a in again])]
            G.have = set(have)
            second += [G.overlay() for _ in range(r.choice([0, 0, 1, 3]))]
            out.append(split(first, second, None, None, False))
    if pid == "C04":
        # the same scripts again, in other processes
        out += [{k: v for k, v in s.items()} for s in out[: len(out) // 2]]
    for i, s in enumerate(out):
        s["id"] = "%s-%d" % (pid, i)
    return out


def faults(r):
    """many faulty commands in one file, or faults on lines far down"""
    G = gens.Gen(r, names=())
    cmds = [G.add_attribute()]
    G.bad = r.choice([0.5, 0.9, 1.0])
    cmds += [G.overlay() for _ in range(r.choice([20, 40, 70, 140]))]
    if r.random() < 0.4:
        return full(cmds, ocafile.RandomLayout(r))
    class Far(ocafile.Layout):
        def before(self):
            return [r.choice(["", "# a comment"])] * r.choice([0, 0, 0, 1, 100, 260, r.choice([1, 33000, 66000])])
    return small(cmds[:r.choice([5, 12, 30])], Far())


def shuffle_attrs(r, attrs):
    out = []
    for a, v in attrs:
        if "obj" in v:
            v = {"obj": sorted(v["obj"], key=lambda _: r.random())}
        if "arr" in v:
            v = {"arr": sorted(v["arr"], key=lambda _: r.random())}
        out.append([a, v])
    return sorted(out, key=lambda _: r.random())


def run(ctx):
    pid = ctx.pid
    mc = "MC_Content.cfg" if not ctx.thorough else "MC_Content_deep.cfg"
    c.model_check(ctx, "MC_Content", mc, workers=8, timeout=1200)
    scripts = ctx.only if ctx.only else corpus(ctx, pid)
    res = c.run_scripts(ctx, scripts)
    traces, ats, back = [], [], []
    for s, r in zip(scripts, res):
        if r.get("dead"):
            if pid in ("C01", "C02", "C05"):
                c.report(ctx, [r["dead"]], s, "the process %s" % r["dead"])
            continue
        t, at = trace(s, r)
        traces.append(t)
        ats.append(at)
        back.append((s, r))
    # scripts over the same attributes end up in one table
    for k, e, bad, ix in c.validate(ctx, "TraceContent", traces, maxbytes=8_000_000):
        if k is None:
            bad = [x for x in bad if x in ALL[pid]]
            if bad:
                s = table_culprit([traces[i] for i in ix], [back[i][0] for i in ix])
                c.report(ctx, bad, s, "identifiers and contents do not correspond one to one")
            continue
        s, r = back[k]
        ev = traces[k]["events"][e]
        if ev.get("cls") == "cont":
            bad = ["cont-" + x for x in bad]
        bad = [x for x in bad if x in ALL[pid]]
        if bad:
            op = ats[k][e]
            d = {"op": op, "obs": r["obs"][op] if op >= 0 else "bundle %d" % ev["b"]}
            if ev["e"] == "bundle":
                d["bundle"] = r["bundles"][ev["b"] - 1]["json"]
            c.report(ctx, bad, s, json.dumps(d, ensure_ascii=False)[:3000])
    ctx.stats["scripts"] = len(scripts)
    ctx.stats["bundles"] = sum(len(t["bundles"]) for t in traces)
    ctx.cov["samples"] = [scripts[i]["ops"] for i in range(0, len(scripts), max(1, len(scripts) // 3))][:3]
    return "model_checking"


def table_culprit(traces, scripts):
    """the scripts behind a broken table, for the replay file only"""
    by = {}
    for t, s in zip(traces, scripts):
        for b in t["bundles"]:
            key = json.dumps(sorted(map(tuple, b["facts"])))
            for other_said, (k2, s2) in by.items():
                if (other_said == b["said"]) != (k2 == key):
                    return {"id": "table", "scripts": [s2, s], "ops": s["ops"], "plan": s["plan"]}
            by[b["said"]] = (key, s)
    return {"id": "table", "ops": [], "plan": []}
