"""C25: the version graph and version histories."""
import json
import os

import common as c
import facts
import gens
import ocafile
import specform
import suite_content as sc

NODES = ["n%d" % i for i in range(8)] + ["EHx8Gjzpyfs6tqSJcDyBKpbdxrSpgXuTWMOjnkPgSGvc", "a b", "x.downscending", "ą", "L" * 255, "n" * 200, "n10", "N1"]


def reads(ops, nodes, h="0"):
    for n in nodes:
        ops.append({"op": "graph", "do": "get", "h": h, "node": n})


def file(ops, plan, cmds, base=None, h="0", L=None, var=None):
    full = ([gens.frm(base)] if base else []) + cmds
    text, _ = ocafile.render(full, (), L)
    ops.append({"op": "dagbuild", "h": h, "text": text, "as": var or "v%d" % len(ops)})
    plan.append([len(ops) - 1, cmds, base or ""])
    return ops[-1]["as"]


def replay(h, raw, kind):
    """a behaviour of the model"""
    ops, plan = [{"op": "graph", "do": "open", "kind": kind, "h": "0"}], []
    cmds, nodes = [], []
    for k, a, b in h + [["new", "", ""]]:
        if k == "add":
            ops.append(dict({"op": "graph", "do": "add", "h": "0", "new": a}, **({"to": b} if b else {})))
            nodes.append(a)
            reads(ops, nodes)
        elif k == "cmd":
            cmds.append(raw[int(a) - 1])
        elif cmds:
            file(ops, plan, cmds)
            cmds = []
    reads(ops, nodes)
    return {"ops": ops, "plan": plan}


def world(r):
    kind = r.choice(["mem", "sled"])
    ops, plan = [{"op": "graph", "do": "open", "kind": kind, "h": "0"}], []
    nodes, files = [], []
    pool = r.sample(NODES, len(NODES))
    for _ in range(r.choice([3, 6, 12])):
        m = r.random()
        if m < 0.35 and pool:
            n = pool.pop()
            x = {"op": "graph", "do": "add", "h": "0", "new": n}
            if nodes and r.random() < 0.8:
                x["to"] = r.choice(nodes[:2] if r.random() < 0.5 else nodes)
            elif r.random() < 0.2:
                x["to"] = "nobody"
            ops.append(x)
            nodes.append(n)
            reads(ops, nodes + ["nobody"])
        elif m < 0.45 and kind == "sled":
            ops.append({"op": "graph", "do": "reopen", "h": "0"})
            reads(ops, nodes)
        else:
            G = gens.Gen(r, bad=0.0 if r.random() < 0.8 else 0.3, names=(), attrs=["a", "b", "c"])
            if files and r.random() < 0.4:
                v, have, cmds = r.choice(files)
                if r.random() < 0.4:
                    # the same file again, or the beginning of it
                    cmds = cmds[: r.randint(1, len(cmds))]
                    file(ops, plan, cmds)
                    continue
                G.have, G.retype = set(have), set(have) if r.random() < 0.5 else set()
                new = G.cmds(r.choice([0, 1, 2, 4]))
                new = [x for x in new if x["k"] != "remove"]
                base = "@{%s}" % v if r.random() < 0.93 else gens.SAIDS[0]
                files.append((file(ops, plan, new, base), set(G.have), cmds + new))
            elif r.random() < 0.06:
                cmds = gens.scale(r, big=r.random() < 0.3)
                file(ops, plan, cmds)
            else:
                cmds = G.cmds(r.choice([1, 2, 4, 8]))
                if r.random() < 0.3:
                    # out and back again
                    cmds += [gens.cls("C9"), gens.rm_cls()] + ([gens.cls("C9")] if r.random() < 0.5 else [])
                if r.random() < 0.2:
                    cmds.insert(r.randint(1, len(cmds)), cmds[-1]) if not cmds[-1]["types"] else None
                L = ocafile.RandomLayout(r) if r.random() < 0.2 else None
                files.append((file(ops, plan, cmds, L=L), set(G.have), cmds))
    return {"ops": ops, "plan": plan}


def deep(r):
    """a long history, and a wide and deep graph"""
    ops, plan = [{"op": "graph", "do": "open", "kind": r.choice(["mem", "sled"]), "h": "0"}], []
    cmds = [gens.add_attr([("a", gens.T())])]
    for i in range(r.choice([30, 70, 130, 260])):
        cmds.append(gens.ov("Label", [("a", gens.V("v%d" % i))], [("lang", gens.V("en"))]))
    v = file(ops, plan, cmds)
    for i in range(8):
        v = file(ops, plan, [gens.meta("en", name="m%d" % i)], "@{%s}" % v)
    names = ["d%d" % i for i in range(40)]
    for i, n in enumerate(names):
        ops.append(dict({"op": "graph", "do": "add", "h": "0", "new": n}, **({"to": names[max(0, i - r.choice([1, 1, 20]))]} if i else {})))
    reads(ops, names)
    for i in range(60):
        ops.append({"op": "graph", "do": "add", "h": "0", "new": "w%d" % i, "to": "d3"})
    reads(ops, ["d3", "w0", "w59"])
    # names as long as identifiers, and longer
    long = ["E%0*d" % (r.choice([43, 43, 120]), i) for i in range(r.choice([20, 70, 150]))]
    for i, n in enumerate(long):
        ops.append({"op": "graph", "do": "add", "h": "0", "new": n, "to": "d5" if i % 3 else "d7"})
    reads(ops, ["d5", "d7", long[0], long[-1]])
    return {"ops": ops, "plan": plan}


def trace(script, res):
    ev, at = [], []
    V = res["vars"]
    plan = {p[0]: p for p in script["plan"]}
    for i in range(len(res["bundles"])):
        ev.append({"e": "bundle", "b": i + 1, "h": "0"})
        at.append(-1)
    for k, (op, o) in enumerate(zip(script["ops"], res["obs"])):
        out = sc.outcome(o)
        ok = o.get("ok", {})
        if op["op"] == "dagbuild":
            _, cmds, base = plan[k]
            if base.startswith("@"):
                if base[2:-1] not in V:
                    break
                base = V[base[2:-1]]
            if '"@{' in json.dumps(cmds):
                break
            ch = [x for x in ok.get("chain", []) if not x["none"]]
            whole = len(ch) == len(ok.get("chain", []))
            e = {"e": "build", "base": base, "cmds": [specform.cmd(x) for x in cmds], "out": out, "b": ok.get("b", -1) + 1, "said": ok.get("said", ""),
                 "chain": [{"said": x["said"], "parent": x["parent"] or "", "cmd": specform.cmd(x["cmd"]) if x["cmd"] else "unreadable",
                            "b": (x["b"] if x["b"] is not None else -1) + 1} for x in ch] if whole else []}
            if out == "skip":
                continue
        elif op["do"] == "add":
            e = {"e": "add", "node": op["new"], "to": op.get("to", ""), "out": out}
        elif op["do"] == "get":
            p, ch = ok.get("parents"), ok.get("children")
            e = {"e": "get", "node": op["node"], "out": "bad" if "malformed" in (p, ch) else out, "parents": p if isinstance(p, list) else [], "children": ch if isinstance(ch, list) else []}
        else:
            continue
        e["h"] = op["h"]
        ev.append(e)
        at.append(k)
    return {"id": script["id"], "events": ev, "bundles": [facts.bundle(b) for b in res["bundles"]]}, at


def corpus(ctx):
    r = ctx.rng
    raw = json.load(open(os.path.join(c.SPEC, "alphabet_content_raw.json")))
    gen = c.behaviours(c.tlc(ctx, "MC_Dag", "GEN_Dag.cfg")[1])
    ctx.stats["behaviours_of_model"] = len(gen)
    if not gen:
        raise c.ToolError("the model printed no behaviours")
    r.shuffle(gen)
    out = [replay(h, raw, r.choice(["mem", "mem", "sled"])) for h in gen[: len(gen) if ctx.thorough else 700]]
    out += [world(r) for _ in range(2500 if ctx.thorough else 330)]
    out += [deep(r) for _ in range(60 if ctx.thorough else 8)]
    for i, s in enumerate(out):
        s["id"] = "C25-%d" % i
    return out


def run(ctx):
    c.model_check(ctx, "MC_Dag", "MC_Dag_deep.cfg" if ctx.thorough else "MC_Dag.cfg", workers=8, timeout=1200)
    scripts = ctx.only if ctx.only else corpus(ctx)
    res = c.run_scripts(ctx, scripts)
    traces, ats, back = [], [], []
    for s, x in zip(scripts, res):
        if x.get("dead"):
            c.report(ctx, [x["dead"]], s, "the process %s" % x["dead"])
            continue
        t, at = trace(s, x)
        traces.append(t)
        ats.append(at)
        back.append((s, x))
    for k, e, bad, ix in c.validate(ctx, "TraceDag", traces, maxbytes=8_000_000):
        if k is None:
            continue
        s, x = back[k]
        op = ats[k][e]
        c.report(ctx, bad, s, json.dumps({"op": op, "what": s["ops"][op] if op >= 0 else "bundle", "obs": x["obs"][op] if op >= 0 else ""}, ensure_ascii=False)[:2500])
    ctx.stats["scripts"] = len(scripts)
    ctx.stats["events"] = sum(len(t["events"]) for t in traces)
    kinds = {}
    for t in traces:
        for e in t["events"]:
            key = e["e"] + ":" + e.get("out", "")
            kinds[key] = kinds.get(key, 0) + 1
    ctx.stats["event_kinds"] = kinds
    ctx.cov["samples"] = [scripts[i]["ops"][:6] for i in range(0, len(scripts), max(1, len(scripts) // 3))][:3]
    return "model_checking"
