"""C21: every storage back end is the same map."""
import json

import common as c
import suite_content as sc

CLASSES = {"storage-panic", "storage-not-opened", "not-written", "not-read", "read", "not-listed", "listed", "outside"}
NS = ["oca", "oca_bundles_json", "oca_objects_json", "core_model", "oca_relations", "oca_refs"]
KINDS = ["mem", "sled", "fs"]
KEYS = ["a", "A", "b", "a/b", "a/../b", "../x", "../../x", "/tmp/ocav_x", "", ".", "..", "...", ".a", "a.", "a b", "%", "%41", "%2E", "%2F", "a%", "ą", "日本", "🙂", "e\u0301", "é",
        "a\\b", "a\nb", "a\tb", "oca", "oca_refs", "oca.EK.operation", "oca.EK.metadata", "C:\\x", "~", "-", "_", "key=value", "a:b", "*", "?", "\"", "'", "a\u0000b", "x" * 64, "x" * 63 + "y",
        "con", "a.json", "a.JSON", "0", "00", "EHx8Gjzpyfs6tqSJcDyBKpbdxrSpgXuTWMOjnkPgSGvc", "ehx8gjzpyfs6tqsjcdybkpbdxrspgxutwmojnkpgsgvc"]
VALS = ["1", "2", "", "x" * 5000, "{\"a\":1}", "zażółć\n", "\u0000", "a" * 300]


def ops_of(h, kind, hd="0"):
    """a history of the model on one back end, everything read after every step"""
    ops = [{"op": "st", "do": "open", "h": hd, "kind": kind}]
    keys = sorted({(o[1], o[2]) for o in h if o[0] == "put"})
    for o in h:
        if o[0] == "lost":
            # only files can be made to fail half way
            if kind == "fs":
                ops.append({"op": "st", "do": "tear", "h": hd, "ns": o[1], "key": o[2], "val": o[3], "bytes": 0})
            continue
        ops.append({"op": "st", "do": o[0], "h": hd} if o[0] == "reopen" else {"op": "st", "do": "put", "h": hd, "ns": o[1], "key": o[2], "val": o[3]})
        for n, k in keys:
            ops.append({"op": "st", "do": "get", "h": hd, "ns": n, "key": k})
        for n in ("oca", "oca_refs"):
            ops.append({"op": "st", "do": "all", "h": hd, "ns": n})
    if kind == "fs":
        ops.append({"op": "st", "do": "outside", "h": hd})
    return ops


def mixed(r):
    """the same random history on the three back ends at once"""
    ops = [{"op": "st", "do": "open", "h": k, "kind": k} for k in KINDS]
    keys = r.sample(KEYS, r.choice([2, 4, 8, 20]))
    nss = r.sample(NS, r.choice([1, 2, 3, 6]))
    n = r.choice([6, 12, 25, 60])
    for _ in range(n):
        m = r.random()
        if m < 0.45:
            x = {"do": "put", "ns": r.choice(nss), "key": r.choice(keys), "val": r.choice(VALS)}
        elif m < 0.75:
            x = {"do": "get", "ns": r.choice(nss), "key": r.choice(keys)}
        elif m < 0.92:
            x = {"do": "all", "ns": r.choice(nss)}
        else:
            ops += [dict(op="st", do="reopen", h=k) for k in ("sled", "fs") if r.random() < 0.7]
            if r.random() < 0.15:
                ops.append({"op": "st", "do": "reopen", "h": "mem"})
            continue
        ops += [dict(x, op="st", h=k) for k in KINDS]
    for k in ("sled", "fs"):
        ops.append({"op": "st", "do": "reopen", "h": k})
    for ns in NS:
        ops += [{"op": "st", "do": "all", "ns": ns, "h": k} for k in KINDS]
    for k in ("sled", "fs"):
        ops.append({"op": "st", "do": "outside", "h": k})
    return ops


def many(r):
    """more entries than any page or buffer"""
    k = r.choice(KINDS)
    ops = [{"op": "st", "do": "open", "h": k, "kind": k}]
    n = r.choice([150, 300])
    for i in range(n):
        ops.append({"op": "st", "do": "put", "h": k, "ns": r.choice(["oca", "core_model"]), "key": "k%d" % r.randint(0, n), "val": str(i)})
    if r.random() < 0.6:
        ops.append({"op": "st", "do": "reopen", "h": k})
    return ops + [{"op": "st", "do": "all", "h": k, "ns": ns} for ns in NS]


def massive(r):
    """values of up to several hundred KB, and more than a thousand keys, on every back end"""
    ops = [{"op": "st", "do": "open", "h": k, "kind": k} for k in KINDS]
    big = [["k%d" % i, "%d" % i * (n // len("%d" % i))] for i, n in enumerate(r.sample([4095, 4096, 4097, 8200, 65535, 65536, 65537, 100000, 300000], 3))]
    for key, v in big + [[r.choice(KEYS), "1"]] + big[::-1] + [[big[0][0], "short"]]:
        for k in KINDS:
            ops += [{"op": "st", "do": "put", "h": k, "ns": "oca", "key": key, "val": v}, {"op": "st", "do": "get", "h": k, "ns": "oca", "key": key}]
    k = r.choice(KINDS)
    for i in range(1100):
        ops.append({"op": "st", "do": "put", "h": k, "ns": "oca_refs", "key": "key%d" % i, "val": str(i)})
    ops += [dict(op="st", do="reopen", h=k) for k in ("sled", "fs")]
    for k in KINDS:
        ops += [{"op": "st", "do": "get", "h": k, "ns": "oca", "key": key} for key, _ in big]
        ops += [{"op": "st", "do": "all", "h": k, "ns": ns} for ns in ("oca", "oca_refs")]
    return ops


def torn(r):
    """writes of files that are cut off after some bytes"""
    ops = [{"op": "st", "do": "open", "h": "fs", "kind": "fs"}]
    keys = r.sample(KEYS, r.choice([1, 2, 4]))
    nss = r.sample(NS, r.choice([1, 2]))
    for _ in range(r.choice([4, 8, 20])):
        x = {"op": "st", "h": "fs", "do": r.choice(["put", "put", "tear", "tear", "get", "all", "reopen"]), "ns": r.choice(nss), "key": r.choice(keys)}
        if x["do"] in ("put", "tear"):
            x["val"] = r.choice(VALS + ["old" * 100, "new" * 1000])
        if x["do"] == "tear":
            x["bytes"] = r.choice([0, 1, 2, 5, len(x["val"]) - 1, len(x["val"]), 300, 4096])
            x["bytes"] = max(0, x["bytes"])
        ops.append({k: v for k, v in x.items() if x["do"] != "reopen" or k in ("op", "h", "do")})
    ops.append({"op": "st", "do": "reopen", "h": "fs"})
    ops += [{"op": "st", "do": "get", "h": "fs", "ns": n, "key": k} for n in nss for k in keys]
    ops += [{"op": "st", "do": "all", "h": "fs", "ns": n} for n in NS]
    return ops + [{"op": "st", "do": "outside", "h": "fs"}]


def trace(script, res):
    ev = []
    for op, o in zip(script["ops"], res["obs"]):
        ok = o.get("ok", {})
        ev.append({"e": "st", "h": op["h"], "do": op["do"], "kind": op.get("kind", ""), "ns": op.get("ns", ""), "key": op.get("key", ""), "out": sc.outcome(o),
                   "some": bool(ok.get("some")), "val": op["val"] if op["do"] in ("put", "tear") else ok.get("val", ""), "all": ok.get("all", []), "n": str(ok.get("outside", ""))})
    return {"id": script["id"], "events": ev, "bundles": []}


def corpus(ctx):
    r = ctx.rng
    gen = c.behaviours(c.tlc(ctx, "MC_Storage", "GEN_Storage.cfg")[1])
    ctx.stats["behaviours_of_model"] = len(gen)
    if not gen:
        raise c.ToolError("the model printed no behaviours")
    r.shuffle(gen)
    out = []
    for i, h in enumerate(gen[: len(gen) if ctx.thorough else 450]):
        out.append({"ops": ops_of(h, KINDS[i % 3])})
    for _ in range(1500 if ctx.thorough else 220):
        out.append({"ops": mixed(r)})
    for _ in range(400 if ctx.thorough else 60):
        out.append({"ops": torn(r)})
    for _ in range(60 if ctx.thorough else 12):
        out.append({"ops": many(r)})
    for _ in range(12 if ctx.thorough else 4):
        out.append({"ops": massive(r)})
    for i, s in enumerate(out):
        s["id"] = "C21-%d" % i
    return out


def run(ctx):
    c.model_check(ctx, "MC_Storage", "MC_Storage_deep.cfg" if ctx.thorough else "MC_Storage.cfg", workers=8, timeout=1200)
    scripts = ctx.only if ctx.only else corpus(ctx)
    res = c.run_scripts(ctx, scripts)
    traces, back = [], []
    for s, x in zip(scripts, res):
        if x.get("dead"):
            c.report(ctx, [x["dead"]], s, "the process %s" % x["dead"])
            continue
        traces.append(trace(s, x))
        back.append((s, x))
    for k, e, bad, ix in c.validate(ctx, "TraceStorage", traces, maxbytes=8_000_000):
        if k is None:
            continue
        s, x = back[k]
        c.report(ctx, bad, s, json.dumps({"event": e, "op": s["ops"][e], "obs": x["obs"][e]}, ensure_ascii=False)[:1500])
    ctx.stats["scripts"] = len(scripts)
    ctx.stats["operations"] = sum(len(t["events"]) for t in traces)
    ctx.cov["samples"] = [scripts[i]["ops"][:6] for i in range(0, len(scripts), max(1, len(scripts) // 3))][:3]
    return "model_checking"
