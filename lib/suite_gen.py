"""C06: a bundle printed as an OCAFILE, or its history, builds that bundle again."""
import json
import os

import common as c
import facts
import gens
import ocafile
import specform
import suite_content as sc
import suite_store as ss

CLASSES = {p + x for p in ("gen", "gen-json", "flat", "flat-names", "history", "history-names") for x in ("-panic", "-not-printed", "-rejected", "-content", "-said")} | {
    "toast-panic", "toast-failed", "toast-forbidden", "toast-faulty", "toast-content"}


def prints(ops, plan, k, said, facade, s="0"):
    """prints the bundle of operation k in every way and builds what was printed"""
    ops.append({"op": "toast", "of": k})
    plan.append(["toast", k, len(ops) - 1])
    st = -1

    def again(how, op):
        v = "t%d" % len(ops)
        ops.append(dict(op, astext=v, s=s))
        ops.append({"op": "pure", "text": "@{%s}" % v})
        plan.append(["again", k, len(ops) - 1, how, len(ops) - 2, st])

    again("gen", {"op": "togen", "of": k})
    if facade:
        ops.append({"op": "steps", "said": said, "s": s})
        st = len(ops) - 1
        again("flat", {"op": "bundle_ocafile", "said": said})
        again("history", {"op": "ocafile", "said": said, "deref": True})
        # with names kept the text must be built where the names are known
        v = "t%d" % len(ops)
        ops.append({"op": "ocafile", "said": said, "deref": False, "astext": v, "s": s})
        ops.append({"op": "build", "text": "@{%s}" % v, "s": s})
        plan.append(["again", k, len(ops) - 1, "history-names", len(ops) - 2, st])


def small(cmds, L=None):
    text, _ = ocafile.render(cmds, (), L)
    s = {"ops": [{"op": "open"}, {"op": "pure", "text": text}], "plan": []}
    prints(s["ops"], s["plan"], 1, "", False)
    return s


def full(cmds, L, db):
    text, _ = ocafile.render(cmds, (), L)
    s = {"ops": [{"op": "open", "db": db}, {"op": "build", "text": text, "as": "x"}], "plan": []}
    prints(s["ops"], s["plan"], 1, "@{x}", True)
    # and of every step on the way
    return s


def history(r, i):
    """a store with names, references and extended bundles"""
    w = ss.World(r)
    w.open(db=r.choice(["mem", "mem", "sled", "fs"]))
    for _ in range(r.choice([2, 4, 6])):
        m = r.random()
        if m < 0.15:
            w.again()
        else:
            w.file(n=r.choice([1, 3, 5]), frm=0.5, named=0.6, metas=0.3)
    ops, plan = w.ops, []
    for k in [k for k, o in enumerate(ops) if o["op"] in ("build", "validate") and (o["op"] == "build" or o.get("store"))]:
        if r.random() < 0.6:
            prints(ops, plan, k, "@{%s}" % ops[k]["as"], True)
    return {"ops": ops, "plan": plan}


def trace(script, res):
    ev, at = [], []
    obs = res["obs"]
    bs = [facts.bundle(b) for b in res["bundles"]]
    for p in script["plan"]:
        o = obs[p[2]]
        b = obs[p[1]].get("ok", {}).get("b")
        if b is None or not bs[b]["facts"]:
            continue
        if p[0] == "toast":
            cmds = [specform.cmd(x) for x in o.get("ok", {}).get("cmds", [])]
            ev.append({"e": "toast", "b": b + 1, "out": sc.outcome(o), "cmds": cmds})
        else:
            how, pk = p[3], p[4]
            out = sc.outcome(o)
            po = sc.outcome(obs[pk])
            if po != "ok":
                out = "panic" if po == "panic" else "noprint"
            ok = o.get("ok", {}) if out == "ok" else {}
            hist = [specform.cmd(y["abs"]) for y in obs[p[5]].get("ok", {}).get("steps", [])] if how.startswith("history") else []
            ev.append({"e": "again", "how": how, "cmds": hist, "b": b + 1, "out": out, "b2": ok.get("b", -1) + 1, "said": ok.get("said", "")})
        at.append(p[2])
    return {"id": script["id"], "events": ev, "bundles": bs}, at


def corpus(ctx):
    r = ctx.rng
    out = []
    raw = json.load(open(os.path.join(c.SPEC, "alphabet_content_raw.json")))
    gen = c.behaviours(c.tlc(ctx, "MC_Content", "GEN_Content.cfg")[1])
    if not gen:
        raise c.ToolError("the model printed no behaviours")
    ctx.stats["behaviours_of_model"] = len(gen)
    r.shuffle(gen)
    for h in gen[: len(gen) if ctx.thorough else 900]:
        out.append(small([raw[i - 1] for i in h]))
    for i in range(3000 if ctx.thorough else 300):
        G = gens.Gen(r, bad=0.0)
        cmds = G.cmds(r.choice([1, 3, 5, 8, 12, 18]))
        out.append(full(cmds, ocafile.RandomLayout(r) if r.random() < 0.6 else None, r.choice(["mem", "mem", "sled", "fs"])))
    for i in range(400 if ctx.thorough else 50):
        out.append(full(gens.scale(r), None, r.choice(["mem", "mem", "sled", "fs"])))
    for kind in gens.VERY * (4 if ctx.thorough else 1):
        out.append(full(gens.very_many(r, kind), None, r.choice(["mem", "mem", "sled", "fs"])))
    for i in range(1200 if ctx.thorough else 150):
        out.append(history(r, i))
    for i, s in enumerate(out):
        s["id"] = "C06-%d" % i
    return out


def run(ctx):
    c.model_check(ctx, "MC_Content", "MC_Content_deep.cfg" if ctx.thorough else "MC_Content.cfg", workers=8, timeout=1200)
    scripts = ctx.only if ctx.only else corpus(ctx)
    res = c.run_scripts(ctx, scripts)
    traces, ats, back = [], [], []
    for s, x in zip(scripts, res):
        if x.get("dead"):
            c.report(ctx, [x["dead"]], s, "the process %s" % x["dead"])
            continue
        t, at = trace(s, x)
        traces.append(t)
        ats.append(at)
        back.append((s, x))
    for k, e, bad, ix in c.validate(ctx, "TraceGen", traces, maxbytes=8_000_000):
        if k is None:
            continue
        s, x = back[k]
        bad = [y for y in bad if y in CLASSES]
        if bad:
            op = ats[k][e]
            c.report(ctx, bad, s, json.dumps({"op": op, "obs": [x["obs"][op - 1], x["obs"][op]]}, ensure_ascii=False)[:3000])
    ctx.stats["scripts"] = len(scripts)
    ctx.stats["events"] = sum(len(t["events"]) for t in traces)
    ctx.cov["samples"] = [scripts[i]["ops"] for i in range(0, len(scripts), max(1, len(scripts) // 3))][:3]
    return "model_checking"
