"""C07, C08, C09: what an OCAFILE says, printing it again, and the rule its commands obey."""
import json
import os
import string

import common as c
import gens
import ocafile
import specform
import suite_content as sc

CLASSES = {
    "C07": {"spec-reading", "parse-panic", "parse-accepted", "parse-rejected", "parse-commands", "parse-meta", "parse-lines", "rule-accepted"},
    "C08": {"spec-reading", "parse-panic", "print-failed", "print-text", "print-rejected", "print-commands", "json-failed", "json-command", "json-unstable", "json-file-failed", "json-file"},
    "C09": {"spec-reading", "parse-panic", "rule-accepted", "parse-rejected", "parse-commands"},
}
METAVALS = ["x", "1.0.0", "My Object", "it's", "a/b:c_d-e", "-- name=y", "# no", "zażółć", "two  spaces"]


def sf(cmd):
    """the commands as a text says them: conditions stay texts"""
    x = specform.cmd(cmd)
    for a in x["attrs"]:
        a["toks"] = []
    return x


class Wild(ocafile.RandomLayout):
    """everything between commands, too"""

    def kw(self, w):
        return super().kw(w)

    def before(self):
        out = super().before()
        if self.comments and self.r.random() < 0.05:
            out.append("  # it's \" \\")
        return out

    def eol(self):
        return self.r.choice(["\n"] * 8 + ["\r\n", " \n", "\n\n", "\n\t\n", " # ADD ATTRIBUTE q=Text\n"])

    def _cont(self):
        s = self.r.choice(["", " ", "\t"]) + "\\" + self.r.choice(["", " ", "\t "]) + self.r.choice(["\n", "\n", "\r\n"])
        while self.r.random() < 0.35:
            s += self.r.choice(["# note = \"x\"\n", "\n", "  # y's\n", "  \n", "# \\\n", "\r\n", "#\n"])
        return s + self.r.choice(["", " ", "    ", "\t"])

    def eq(self):
        if self.cont and self.r.random() < 0.06:
            return self.r.choice(["=" + self._cont(), self._cont() + "="])
        return super().eq()


def removals(r, cmds):
    """REMOVE commands the builder does not take but the language has"""
    for _ in range(r.choice([0, 0, 1, 2])):
        lang = [["lang", gens.V(r.choice(["en", "fr", "en-US"]))]]
        x = r.random()
        if x < 0.5:
            m = {"k": "remove", "o": "Meta", "types": [], "attrs": [], "props": lang + ([[r.choice(["name", "description", "x-1"]), gens.V("")]] if r.random() < 0.6 else []), "flagged": []}
        else:
            m = {"k": "remove", "o": "Label", "types": [], "attrs": [[r.choice(["a", "d-1", "f.x"]), gens.V("")]] if r.random() < 0.6 else [], "props": lang, "flagged": []}
        cmds.insert(r.randint(0, len(cmds)), m)
    return cmds


KWS = dict(ocafile.KW)


def write(cmds, meta, L):
    lines = []
    for k, v in meta:
        if v and set(v) <= ocafile.BARE and L.r.random() < 0.5 if hasattr(L, "r") else False:
            t = v
        else:
            t = ('"%s"' if '"' not in v and (not hasattr(L, "r") or L.r.random() < 0.6 or "'" in v) else "'%s'") % v
        sp = L.r.choice(["", "", " "]) if hasattr(L, "r") else ""
        lines.append("--%s%s%s=%s%s" % (L.r.choice([" ", " ", "", "  "]) if hasattr(L, "r") else " ", k, sp, sp, t))
    out = ""
    todo = list(lines)
    for i, x in enumerate(cmds):
        while todo and (not hasattr(L, "r") or L.r.random() < 0.8):
            out += todo.pop(0) + "\n"
        for b in L.before():
            out += b + "\n"
        out += command(x, L) + (L.eol() if i < len(cmds) - 1 or L.__class__ is ocafile.Layout or L.r.random() < 0.7 else "")
        if out and not out.endswith(("\n", "\r")) and (i < len(cmds) - 1 or todo):
            out += "\n"
    for x in todo:
        out += x + "\n"
    return out


def command(x, L):
    if x["k"] == "remove" and x["o"] in ("Meta", "Label"):
        P = ocafile.props_of(x)
        s = L.kw("REMOVE") + L.sp() + L.kw(x["o"].upper()) + L.sp() + P["lang"]["val"]
        ks = [k for k, _ in x["props"] if k != "lang"] if x["o"] == "Meta" else [a for a, _ in x["attrs"]]
        return s + (L.sp() + L.kw("PROPS" if x["o"] == "Meta" else "ATTRS") + L.sp() + ks[0] if ks else "")
    return ocafile.command(x, L)


def doubled(r, cmd):
    """a command which states something twice"""
    def some(m, f):
        m = [list(x) for x in m]
        for _ in range(r.choice([1, 1, 2])):
            if m:
                k, v = r.choice(m)
                m.insert(r.randint(0, len(m)), [k, f(v)])
        return m

    def value(v):
        if "obj" in v:
            return {"obj": some(v["obj"], value)} if r.random() < 0.7 else {"obj": [[k, value(x)] for k, x in v["obj"]]}
        return gens.other(r, v) if "val" in v or "arr" in v else v
    x = dict(cmd)
    if x["attrs"] and r.random() < 0.7:
        if any("obj" in v for _, v in x["attrs"]) and r.random() < 0.7:
            x["attrs"] = [[a, value(v)] for a, v in x["attrs"]]
        else:
            x["attrs"] = some(x["attrs"], value)
    elif x["props"]:
        x["props"] = some([p for p in x["props"] if p[0] != "lang"], value) + [p for p in x["props"] if p[0] == "lang"]
    elif x["flagged"]:
        x["flagged"] = x["flagged"] + [r.choice(x["flagged"])]
    return x


def item(how, text, want=None, tally=True):
    return [how, text, want, tally]


def nested(r, d=0):
    """what an attribute can be framed with, as the language has it"""
    n = r.choice([1, 1, 2, 3])
    return "{" + r.choice(["", " ", "\n   "]) + (r.choice([", ", ",\n  ", ","])).join(
        '"%s":%s%s' % (r.choice(["k", "http://T/1", "Predicate_ID", "x y"]) + str(i), r.choice(["", " "]), nested(r, d + 1) if d < 3 and r.random() < 0.5 else r.choice(['"v 1"', "'it'", '""']))
        for i in range(n)) + r.choice(["", "\n", " ", ","]) + "}"


def framed(r, how):
    return item(how, "ADD ATTRIBUTE a=Text b=Text\nADD ATTR_FRAMING id=F%s ATTRS %s\n" % (r.choice(["", " label='x'"]), r.choice([" ", "\n", " \\\n"]).join("%s=%s" % (a, nested(r)) for a in r.choice([["a"], ["a", "b"]]))), None)


def metas(r):
    out = []
    for k in r.sample(["name", "version", "precompiler"], r.choice([0, 0, 1, 2, 3])):
        out.append([k, "semantics" if k == "precompiler" else r.choice(METAVALS)])
        if r.random() < 0.1 and k != "precompiler":
            out.append([k, r.choice(METAVALS)])
    return out


def rand(r, how="parse", many=None):
    G = gens.Gen(r, bad=0.15, names=("my-name", "n.1", "x_y", "a:b", "refs:x", "a//b", "N.1", "n:", ":"), attrs=gens.ATTRS + (["--name", "-y", "add", "ATTRS", "0"] if r.random() < 0.3 else []))
    if r.random() < 0.06:
        cmds = gens.scale(r)
    else:
        cmds = G.cmds(many or r.choice([1, 2, 3, 5, 8]))
        if r.random() < 0.1:
            cmds.insert(0, gens.frm(r.choice(gens.SAIDS)))
        cmds = removals(r, cmds)
        if r.random() < 0.04:
            cmds.append(gens.ov("CharacterEncoding", (), [("default", gens.V("utf-8"))]))
    L = Wild(r) if r.random() < 0.85 else ocafile.Layout()
    if r.random() < 0.15 and len(cmds) < 20:
        return item(how, write([doubled(r, x) if r.random() < 0.5 else x for x in cmds], metas(r), L), None)
    return item(how, write(cmds, metas(r), L), cmds)


JUNK = ["\\", "\"", "'", "=", " ", "\n", "\t", "#", "--", "{", "}", "[", "]", ",", ":", "A", "é", "ADD ", "refs:", "Array[", "\r\n", "0", "🙂", "\\\n", "ATTRS", "PROPS"]


def mutated(r):
    """a text close to a file of the language"""
    text = rand(r)[1]
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        if not text:
            break
        i = r.randrange(len(text))
        k = r.random()
        if k < 0.35:
            text = text[:i] + text[i + 1:]
        elif k < 0.65:
            text = text[:i] + r.choice(JUNK) + text[i:]
        elif k < 0.75:
            j = r.randrange(len(text))
            i, j = min(i, j), max(i, j)
            text = text[:i] + text[j:]
        elif k < 0.85:
            j = min(len(text), i + r.choice([3, 10, 30]))
            text = text[:j] + text[i:j] + text[j:]
        else:
            text = text[:i] + r.choice(string.printable[:95]) + text[i + 1:]
    return item("parse", text, None)


def seq(cmds, L=None):
    return item("parse", write(cmds, [], L or ocafile.Layout()), cmds)


def spoiled(r):
    """a file that breaks the rule somewhere, or comes close"""
    G = gens.Gen(r, names=(), attrs=["a", "b", "c", "d", "A"])
    cmds = G.cmds(r.choice([2, 4, 8, 12]))
    for _ in range(r.choice([1, 1, 2])):
        x = r.choice([gens.add_attr([(a, G.type()) for a in r.sample(["a", "b", "c", "A"], r.choice([1, 2]))]), gens.rm_attr(r.sample(["a", "b", "c", "A"], r.choice([1, 2]))), gens.rm_cls(), gens.cls("x")])
        cmds.insert(r.randint(0, len(cmds)), x)
    return seq(cmds, Wild(r) if r.random() < 0.3 else None)


def long_rule(r):
    n = r.choice([20, 60, 60, 130, 300])
    names = ["w%d" % i for i in range(n)]
    cmds = [gens.add_attr([(a, gens.T())]) for a in names]
    out = r.sample(names, n // 2)
    cmds += [gens.rm_attr(out[: n // 4]), gens.rm_attr(out[n // 4:])]
    back = r.sample(out, 3)
    cmds += [gens.add_attr([(a, gens.T("Binary"))]) for a in back]
    x = r.random()
    if x < 0.4:
        cmds.append(gens.add_attr([(r.choice([a for a in names if a not in out] + back), gens.T())]))
    elif x < 0.8:
        cmds.append(gens.rm_attr([r.choice([a for a in out if a not in back])]))
    return seq(cmds)


def corpus(ctx):
    r, out = ctx.rng, []
    if ctx.pid in ("C07", "C08"):
        gen = c.behaviours(c.tlc(ctx, "MC_Text", "GEN_Text.cfg", workers=8)[1])
        gen2 = c.behaviours(c.tlc(ctx, "MC_Text", "GEN_Text2.cfg", workers=8)[1])
        if not gen or not gen2:
            raise c.ToolError("the model printed no behaviours")
        ctx.stats["behaviours_of_model"] = len(gen) + len(gen2)
        how = "parse" if ctx.pid == "C07" else "rt"
        n = {"C07": 2500, "C08": 700}[ctx.pid]
        for g in (gen, gen2):
            r.shuffle(g)
            for text, want in g[: 12000 if ctx.thorough else n]:
                out.append([how, text, {"spec": want}, True])
        k = 12 if ctx.thorough else 1
        out += [rand(r, how) for _ in range(k * (1300 if how == "parse" else 900))]
        for d in (13, 60, 99, 100, 101, 102, 130):
            out.append(item(how, "ADD ATTRIBUTE x=Text a=%s%s%s y=Text\n" % ("Array[" * d, r.choice(["Text", "Numeric", "refs:" + gens.SAIDS[0], "refn:n"]), "]" * d)))
        for kind in gens.VERY * (3 if k > 1 else 1):
            cmds = gens.very_many(r, kind, 17000)[: 130 if how == "rt" else 400]
            out.append(item(how, write(cmds, metas(r), Wild(r) if r.random() < 0.5 and kind != "long" else ocafile.Layout()), cmds))
        out += [framed(r, how) for _ in range(k * 80)]
        if how == "parse":
            out += [mutated(r) for _ in range(k * 1500)]
            out += [spoiled(r) for _ in range(k * 100)]
        else:
            out += [item("rt", write(gens.scale(r), [], ocafile.Layout()), None) for _ in range(k * 60)]
    else:
        raw = json.load(open(os.path.join(c.SPEC, "alphabet_rule_raw.json")))
        gen = c.behaviours(c.tlc(ctx, "MC_Rule", "GEN_Rule_deep.cfg" if ctx.thorough else "GEN_Rule.cfg")[1])
        ctx.stats["behaviours_of_model"] = len(gen)
        if not gen:
            raise c.ToolError("the model printed no behaviours")
        out += [seq([raw[i - 1] for i in h]) for h in gen]
        for _ in range(6000 if ctx.thorough else 900):
            out.append(seq([raw[r.randrange(len(raw))] for _ in range(r.choice([4, 5, 6, 9]))]))
        out += [spoiled(r) for _ in range(4000 if ctx.thorough else 500)]
        out += [long_rule(r) for _ in range(600 if ctx.thorough else 60)]
    r.shuffle(out)
    return [{"id": "%s-%d" % (ctx.pid, i), "items": out[i: i + 40], "ops": [{"op": x[0], "text": x[1]} for x in out[i: i + 40]]} for i in range(0, len(out), 40)]


def parsed(o):
    ok = o.get("ok", {})
    out = sc.outcome(o)
    if out == "ok" and ok.get("kind") != "semantics":
        out = "other"
    g = out == "ok"
    return {"out": out, "meta": ok.get("meta", []) if g else [], "cmds": [sf(x) for x in ok.get("cmds", [])] if g else [],
            "lines": [x or [0, ""] for x in ok.get("lines", [])] if g else []}


def event(it, o):
    how, text, want, tally = it
    e = {"e": how, "text": text, "sure": want is not None, "want": want["spec"] if isinstance(want, dict) else [sf(x) for x in want or []], "tally": tally}
    if how == "parse":
        e["parse"] = parsed(o)
        return e
    e["parse"] = parsed(o.get("parse", o))
    gen = o.get("gen") or {}
    e["gen"] = sc.outcome(gen)
    e["text2"] = gen.get("ok", {}).get("text", "")
    a = o.get("again") or {}
    e["again"] = dict(parsed(a), same=a.get("same", False))
    e["json"] = [{"out": sc.outcome(x), "same": x.get("ok", {}).get("same", False), "stable": x.get("ok", {}).get("stable", False),
                  "cmd": sf(x["ok"]["cmd"]) if "ok" in x else ""} for x in o.get("json") or []]
    a = o.get("ast") or {}
    e["whole"] = dict(parsed(a), same=a.get("same", False))
    return e


def run(ctx):
    deep = "_deep" if ctx.thorough else ""
    if ctx.pid == "C09":
        c.model_check(ctx, "MC_Rule", "MC_Rule%s.cfg" % deep, workers=8, timeout=1200)
    else:
        c.model_check(ctx, "MC_Text", "MC_Text%s.cfg" % deep, workers=8, timeout=3000)
    scripts = ctx.only if ctx.only else corpus(ctx)
    res = c.run_scripts(ctx, scripts)
    traces, back = [], []
    for s, x in zip(scripts, res):
        if x.get("dead"):
            c.report(ctx, [x["dead"]], s, "the process %s" % x["dead"])
            continue
        traces.append({"id": s["id"], "events": [event(it, o) for it, o in zip(s["items"], x["obs"])], "bundles": []})
        back.append((s, x))
    said = {}
    for k, e, bad, ix in c.validate(ctx, "TraceText", traces):
        if k is None:
            continue
        for b in bad:
            if b.startswith("tally:"):
                said[b[6:]] = said.get(b[6:], 0) + 1
        bad = [b for b in bad if b in CLASSES[ctx.pid]]
        if bad:
            s, x = back[k]
            it = s["items"][e]
            one = {"id": "x", "items": [it], "ops": [s["ops"][e]]}
            c.report(ctx, bad, one, json.dumps({"text": it[1], "obs": x["obs"][e]}, ensure_ascii=False)[:3000])
    ctx.stats["texts"] = sum(len(t["events"]) for t in traces)
    ctx.stats["readings"] = said
    ctx.cov["samples"] = [scripts[i]["ops"][0] for i in range(0, len(scripts), max(1, len(scripts) // 4))][:4]
    return "model_checking"
