"""C26: transformation files, what is built from them, and combined documents."""
import json
import string

import common as c
import gens
import ocafile
import suite_content as sc
import suite_text as st

KEYS = ["a", "b", "c-1", "d_2", "X", "surname", "last_name", "attribute", "0", "-y", "refs"]
VALUES = ["refs:" + gens.SAIDS[0], gens.SAIDS[1], "refs:Ea", "refn:other", "x y", "it's", "a/b", "refs:", "REFS:Eb"]


def gap(r, empty=False):
    if r.random() < 0.75:
        return "" if empty and r.random() < 0.6 else " "
    return r.choice(["  ", "\t", " \\\n", "\\\n ", " \\ \n\t", " \\\n# it's = b\n  ", " \\\r\n\n", " \\\n\\\n "])


def kw(r, w):
    return w if r.random() < 0.7 else r.choice([w.lower(), w.capitalize(), w.swapcase()])


def eol(r):
    return r.choice(["\n"] * 7 + ["\r\n", " \n", "\n\n", "\n \n", " # it is\n", "\n# RENAME ATTRIBUTE a=b\n", "\n  # x\n"])


def pairs(r, cmd):
    sep = "=" if cmd["k"] == "rename" else "->"
    out = ""
    for a, b in cmd["attrs"]:
        l, m = gap(r, True), gap(r, True)
        if sep == "->" and a.endswith("-"):
            l = " "
        out += gap(r) + a + (l if sep == "=" else l or " ") + sep + m + b
    return out


def line(r, cmd):
    return kw(r, cmd["k"].upper()) + gap(r) + kw(r, "ATTRIBUTE") + pairs(r, cmd)


def command(r, n=None):
    return {"k": r.choice(["rename", "link"]), "attrs": [[r.choice(KEYS), r.choice(KEYS)] for _ in range(n or r.choice([1, 1, 2, 3, 6]))]}


def meta(r, k, v):
    q = r.choice(['"', "'"])
    if q in v:
        q = '"' if q == "'" else "'"
    t = v if v and set(v) <= ocafile.BARE and r.random() < 0.5 else q + v + q
    return "%s--%s%s%s=%s%s%s" % (r.choice(["", "", " "]), r.choice(["", " ", "  "]), k, r.choice(["", "", " "]), r.choice(["", "", " "]), t, eol(r))


def merged(cmds):
    """what the spec calls a command: a pair replaces an earlier one of the same name"""
    out = []
    for x in cmds:
        m = {}
        for a, b in x["attrs"]:
            m[a] = b
        out.append({"k": x["k"], "attrs": [[a, b] for a, b in m.items()]})
    return out


def text(r, kind="transformation", full=0.85):
    ms = [["precompiler", kind]] if kind else []
    for k in ["source", "target"]:
        if r.random() < full:
            ms.append([k, r.choice(VALUES)])
    if r.random() < 0.4:
        ms.append([r.choice(["name", "version", "source", "target"]), r.choice(VALUES)])
    r.shuffle(ms)
    if r.random() < 0.15:
        ms = []
    cmds = [command(r) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
    if r.random() < 0.05:
        cmds.append({"k": r.choice(["rename", "link"]), "attrs": [["k%d" % i, "v%d" % i] for i in range(r.choice([20, 60, 60, 60, 130]))]})
    if r.random() < 0.05:
        cmds += [{"k": r.choice(["rename", "link"]), "attrs": [["k%d" % (i % 9), "v%d" % i]]} for i in range(r.choice([12, 40, 40, 70]))]
    if r.random() < 0.2 and cmds:
        # said again, in other words
        cmds.append({"k": r.choice(["rename", "link"]), "attrs": [[a, r.choice(KEYS)] for a, _ in r.choice(cmds)["attrs"]]})
    parts = [meta(r, k, v) for k, v in ms]
    late = parts if r.random() < 0.15 else []
    out = "" if late else "".join(parts)
    out = r.choice(["", "", "\n", "# x\n"]) + out
    for x in cmds:
        if r.random() < 0.15:
            out += r.choice(["\n", "# y\n", "  # ATTRIBUTE a=b\n", "\t\n"])
        out += line(r, x) + eol(r)
    for x in late:
        # a quote in a comment of a command line would reach into what follows
        out += x
    return out, merged(cmds)


def mutated(r):
    t = text(r)[0]
    for _ in range(r.choice([1, 1, 2, 3])):
        if not t:
            break
        i = r.randrange(len(t))
        k = r.random()
        if k < 0.35:
            t = t[:i] + t[i + 1:]
        elif k < 0.7:
            t = t[:i] + r.choice(["\\", "\"", "'", "=", "->", " ", "\n", "#", "--", "-", ">", "A", "é", "RENAME ", "LINK ATTRIBUTE ", "\\\n", "\r\n"]) + t[i:]
        elif k < 0.8:
            j = min(len(t), i + r.choice([2, 8, 30]))
            t = t[:i] + t[j:]
        else:
            t = t[:i] + r.choice(string.printable[:95]) + t[i + 1:]
    return t


def op(kind, t, want=None, direct=False):
    return [{"op": kind, "text": t, "direct": direct}, want]


def both(t, want=None):
    return [op("tparse", t, want, True), op("parse", t, want), op("tbuild", t), op("tbuild", t, None, True)]


def corpus(ctx):
    r, out = ctx.rng, []
    gen = c.behaviours(c.tlc(ctx, "MC_Transform", "GEN_Transform.cfg", workers=8)[1])
    if not gen:
        raise c.ToolError("the model printed no behaviours")
    ctx.stats["behaviours_of_model"] = len(gen)
    r.shuffle(gen)
    k = 12 if ctx.thorough else 1
    for t, want in gen[: 900 * k]:
        out += both(t, want)
    for _ in range(600 * k):
        out += both(*text(r))
    for _ in range(100 * k):
        t, w = text(r, r.choice(["", "semantics", "Transformation", "x"]))
        out += both(t)
    for _ in range(150 * k):
        # a semantics file that names its precompiler, or the wrong one
        it = st.rand(r, many=r.choice([1, 2]))
        t = meta(r, "precompiler", r.choice(["transformation", "semantics", "semantics"])) + it[1]
        out += [op("parse", t)]
    for _ in range(400 * k):
        out += both(mutated(r))
    for _ in range(200 * k):
        G = gens.Gen(r, bad=0.0, names=())
        n = r.choice([0, 1, 1, 2, 3, 6 if r.random() < 0.9 else r.choice([12, 30])])
        d = r.random() < 0.4
        o = {"op": "combine", "texts": [text(r, full=0.97)[0] for _ in range(n)], "direct": d, "at": r.choice([0, 0, 1, n]), "fill": r.random() < 0.3}
        if n > 1 and r.random() < 0.3:
            # one part twice
            o["texts"][r.randrange(1, n)] = o["texts"][0]
        if r.random() < 0.85:
            cmds = gens.scale(r, big=r.random() < 0.3) if r.random() < 0.06 else G.cmds(r.choice([1, 3, 8]))
            out.append([{"op": "pure", "text": ocafile.render(cmds, ())[0]}, None])
            o["of"] = -1
        out.append([o, None])
    scripts = []
    for i in range(0, len(out), 40):
        part = [[dict(x[0]), x[1]] for x in out[i: i + 40]]
        for j, x in enumerate(part):
            if x[0].get("of") == -1:
                if j == 0:
                    del x[0]["of"]
                else:
                    x[0]["of"] = j - 1
        scripts.append({"id": "%s-%d" % (ctx.pid, i), "ops": [x[0] for x in part], "want": [x[1] for x in part]})
    return scripts


def canon(t):
    try:
        return json.dumps(json.loads(t), sort_keys=True, ensure_ascii=False) if t is not None else ""
    except ValueError:
        return "?" + str(t)


def tr(x):
    """an observed transformation and the JSON it is written as"""
    try:
        d = json.loads(x["json"])
    except ValueError:
        d = {}
    return dict(doc(d), said=x["said"] or "", source=x["source"] or "", target=x["target"] or "", attrs=x["attrs"], dig=x["dig"], len=x["len"])


def doc(d):
    a = d.get("attributes")
    return {"keys": sorted(d), "v": str(d.get("v")), "dd": str(d.get("d")), "dattrs": [[k, str(v)] for k, v in a.items()] if isinstance(a, dict) else [["?", "?"]],
            "dsource": str(d.get("source") or ""), "dtarget": str(d.get("target") or "")}


NOTR = {"said": "", "source": "", "target": "", "attrs": []}


def event(o, want, obs):
    out = sc.outcome(obs)
    if out == "skip":
        return None
    ok = obs.get("ok", {}) if out == "ok" else {}
    if o["op"] in ("tparse", "parse"):
        k = ok.get("kind", "")
        t = k == "transformation"
        e = {"e": "parse", "text": o["text"], "direct": o["op"] == "tparse", "sure": want is not None, "want": want or [], "out": out, "kind": k, "n": len(ok.get("cmds", [])),
             "cmds": ok["cmds"] if t else [], "meta": ok["meta"] if t else [], "lines": [x or [0, ""] for x in ok["lines"]] if t else []}
        b = ok.get("back") or {}
        e["back"] = {"out": sc.outcome(b) if b else "", "same": b.get("ok", {}).get("same", False), "cmds": b.get("ok", {}).get("cmds", [])}
        return e
    if o["op"] == "tbuild":
        b = ok.get("back") or {}
        return {"e": "build", "text": o["text"], "direct": o["direct"], "out": out, "t": tr(ok) if ok else "", "back": dict(tr(b["ok"]) if "ok" in b else NOTR, out=sc.outcome(b) if b else "")}
    if o["op"] == "combine":
        if not ok:
            return {"e": "combine", "texts": o["texts"], "direct": o["direct"], "out": out, "m": "", "doc": "", "back": ""}
        whole = json.loads(ok["json"])
        ts = ok["t"] or []
        inn = []
        for x, y in zip(whole.get("t") or [], ts):
            d = doc(x)
            inn.append(dict(d, said=d["dd"], source=d["dsource"], target=d["dtarget"], attrs=d["dattrs"], dig=digs(ok, len(inn)), len=lens(ok, len(inn))))
        b = ok["back"]
        bo = b.get("ok")
        back = {"out": sc.outcome(b), "said": "", "m": "", "t": [], "re": False}
        if bo:
            back.update(said=bo["said"] or "", m=canon(bo["m"]), t=[tr(x) for x in bo["t"]], re=bo["re"] == ok["json"])
        given = ok["given"]
        return {"e": "combine", "texts": o["texts"], "direct": o["direct"], "out": out, "m": canon(given) if given is not None else "null",
                "doc": {"keys": sorted(whole), "said": str(ok["d"]), "v": str(ok["v"]), "dig": ok["dig"], "len": ok["len"], "m": canon(json.dumps(whole.get("m"))), "t": inn},
                "back": dict(back, m=back["m"] or "null")}
    return None


def digs(ok, i):
    return ok["tdig"][i]["dig"]


def lens(ok, i):
    return ok["tdig"][i]["len"]


def run(ctx):
    c.model_check(ctx, "MC_Transform", "MC_Transform%s.cfg" % ("_deep" if ctx.thorough else ""), workers=8, timeout=3000)
    scripts = ctx.only if ctx.only else corpus(ctx)
    res = c.run_scripts(ctx, scripts)
    traces, back = [], []
    for s, x in zip(scripts, res):
        if x.get("dead"):
            c.report(ctx, [x["dead"]], s, "the process %s" % x["dead"])
            continue
        ev, at = [], []
        for k, (o, w, ob) in enumerate(zip(s["ops"], s["want"], x["obs"])):
            e = event(o, w, ob)
            if e:
                ev.append(e)
                at.append(k)
        traces.append({"id": s["id"], "events": ev, "bundles": []})
        back.append((s, x, at))
    said = {}
    for k, e, bad, ix in c.validate(ctx, "TraceTransform", traces):
        if k is None:
            continue
        for b in bad:
            if b.startswith("tally:"):
                said[b[6:]] = said.get(b[6:], 0) + 1
        bad = [b for b in bad if not b.startswith("tally:")]
        if bad:
            s, x, at = back[k]
            i = at[e]
            keep = [i] if s["ops"][i].get("of") is None else [s["ops"][i]["of"], i]
            ops = [dict(s["ops"][j]) for j in keep]
            if len(keep) == 2:
                ops[1]["of"] = 0
            c.report(ctx, bad, {"id": "x", "ops": ops, "want": [s["want"][j] for j in keep]}, json.dumps({"op": s["ops"][i], "obs": x["obs"][i]}, ensure_ascii=False)[:3000])
    ctx.stats["events"] = sum(len(t["events"]) for t in traces)
    ctx.stats["readings"] = said
    ctx.cov["samples"] = [scripts[i]["ops"][0] for i in range(0, len(scripts), max(1, len(scripts) // 4))][:4]
    return "model_checking"
