"""C16: the change model of a build and what a store keeps of it."""
import json
import os

import common as c
import facts
import gens
import ocafile
import specform
import suite_content as sc
import suite_store as ss


def files(r, files, db="mem"):
    """files built one after the other in one store"""
    ops = [{"op": "open", "db": db}]
    for cmds, base in files:
        text, _ = ocafile.render(([gens.frm("@{f%d}" % base)] if base is not None else []) + cmds, (), None if r.random() < 0.8 else ocafile.RandomLayout(r))
        ops.append({"op": "validate", "text": text, "models": True, "store": True, "as": "f%d" % (len(ops) - 1)})
    ops.append({"op": "rawdb", "ns": "core_model"})
    return {"ops": ops}


def history(r):
    w = ss.World(r)
    w.open(db=r.choice(["mem", "sled", "fs"]))
    for _ in range(r.choice([2, 4, 6])):
        if r.random() < 0.15:
            w.again()
        else:
            w.file(n=r.choice([1, 3, 6]), frm=0.5, named=0.6, metas=0.3)
    ops = []
    for o in w.ops:
        if o["op"] == "build":
            o = dict(o, op="validate", store=True)
        if o["op"] == "validate":
            o = dict(o, models=True)
        ops.append(o)
    ops.append({"op": "rawdb", "ns": "core_model"})
    return {"ops": ops}


def corpus(ctx):
    r = ctx.rng
    out = []
    raw = json.load(open(os.path.join(c.SPEC, "alphabet_content_raw.json")))
    gen = c.behaviours(c.tlc(ctx, "MC_Model", "GEN_Model.cfg", workers=8)[1])
    if not gen:
        raise c.ToolError("the model printed no behaviours")
    ctx.stats["behaviours_of_model"] = len(gen)
    r.shuffle(gen)
    k = 12 if ctx.thorough else 1
    gen.sort(key=lambda h: -len(h))
    for h in gen[: 1200 * k]:
        out.append(files(r, [([raw[i - 1] for i in h], None)]))
    for _ in range(250 * k):
        fs, worlds = [], []
        for _ in range(r.choice([1, 1, 2, 3])):
            G = gens.Gen(r, bad=0.0, names=())
            base = None
            if fs and r.random() < 0.6:
                base = r.randrange(len(fs))
                G.have, G.retype = set(worlds[base]), set(worlds[base]) if r.random() < 0.5 else set()
            cmds = gens.scale(r) if base is None and r.random() < 0.1 else G.cmds(r.choice([1, 4, 9, 18]))
            # the same objects again and again, in turn
            if r.random() < 0.5:
                ovs = [x for x in cmds if x["o"] != "CaptureBase"]
                for _ in range(r.choice([1, 3, 6])):
                    if ovs:
                        x = r.choice(ovs)
                        if {a for a, _ in x["attrs"]} <= G.have:
                            cmds.append(gens.other(r, x) if r.random() < 0.0 else dict(x))
            fs.append((cmds, base))
            worlds.append(set(G.have))
        out.append(files(r, fs, r.choice(["mem", "mem", "sled", "fs"])))
    for _ in range(60 * k):
        out.append(files(r, [(gens.scale(r), None)]))
    for kind in gens.VERY:
        out.append(files(r, [(gens.very_many(r, kind), None)]))
    for _ in range(150 * k):
        out.append(history(r))
    for i, s in enumerate(out):
        s["id"] = "%s-%d" % (ctx.pid, i)
    return out


def trace(script, res):
    ev, at = [], []
    bs = [facts.bundle(b) for b in res["bundles"]]
    for k, (o, ob) in enumerate(zip(script["ops"], res["obs"])):
        out = sc.outcome(ob)
        ok = ob.get("ok", {})
        if o["op"] == "validate" and out != "skip":
            steps = [{"b": x["b"] + 1, "said": x["said"], "cmd": specform.cmd(x["abs"]), "json": x["cmd"]} for x in ok.get("steps", [])]
            ms = []
            for m in ok.get("models", []):
                cm, b, cb, ov = m["command"] or {}, m["bundle"] or {}, m["cb"] or {}, m["overlay"] or {}
                ms.append({"digest": cm.get("digest", ""), "real": cm.get("real", ""), "json": cm.get("json", ""), "bundle": b.get("said", ""), "parent": b.get("parent") or "",
                           "cb": b.get("cb", ""), "ov": b.get("ov", []), "cbsaid": cb.get("said", ""), "cbparent": cb.get("parent") or "", "cbcmd": cb.get("cmd", ""),
                           "osaid": ov.get("said", ""), "oparent": ov.get("parent") or "", "ocmd": ov.get("cmd", "")})
            ev.append({"e": "model", "out": out, "steps": steps, "models": ms, "stored": bool(o.get("store"))})
        elif o["op"] == "rawdb":
            es = []
            for key, v in ok["entries"].items():
                if key.startswith("core_model."):
                    key = key[11:]
                if "text" in v:
                    es.append([key, [v["text"]]])
                else:
                    es.append([key, v["lp"] or ["?"]])
            ev.append({"e": "kept", "entries": es})
        else:
            continue
        at.append(k)
    return {"id": script["id"], "events": ev, "bundles": bs}, at


def run(ctx):
    c.model_check(ctx, "MC_Model", "MC_Model%s.cfg" % ("_deep" if ctx.thorough else ""), workers=8, timeout=1200)
    scripts = ctx.only if ctx.only else corpus(ctx)
    res = c.run_scripts(ctx, scripts)
    traces, ats, back = [], [], []
    for s, x in zip(scripts, res):
        if x.get("dead"):
            c.report(ctx, [x["dead"]], s, "the process %s" % x["dead"])
            continue
        t, at = trace(s, x)
        traces.append(t)
        ats.append(at)
        back.append((s, x))
    for k, e, bad, ix in c.validate(ctx, "TraceModel", traces, maxbytes=8_000_000):
        if k is None:
            continue
        s, x = back[k]
        if bad:
            op = ats[k][e]
            c.report(ctx, bad, s, json.dumps({"op": op, "obs": x["obs"][op]}, ensure_ascii=False)[:3000])
    ctx.stats["scripts"] = len(scripts)
    ctx.stats["commands"] = sum(len(e.get("models", [])) for t in traces for e in t["events"])
    ctx.cov["samples"] = [scripts[i]["ops"] for i in range(0, len(scripts), max(1, len(scripts) // 3))][:3]
    return "model_checking"
