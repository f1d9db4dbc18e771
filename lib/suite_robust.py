"""C10: whatever is called with whatever, it ends, and says the same again."""
import copy
import hashlib
import json
import string

import common as c
import gens
import ocafile
import suite_content as sc
import suite_text as st
import suite_transf as tf
import suite_valid as sv

WRITES = {"build", "validate", "named"}
PROBE = [{"op": "list_b", "limit": 1000}, {"op": "list_cb", "limit": 1000}, {"op": "refs"}, {"op": "search", "q": "nam", "limit": 1000}]
PIECES = ["ADD ", "REMOVE ", "MODIFY ", "FROM ", "RENAME ", "LINK ", "ATTRIBUTE ", "META ", "en ", "xx ", "PROPS ", "ATTRS ", "LABEL ", "UNIT ", "CONDITION ", "ENTRY_CODE ",
          "ENTRY ", "ATTR_FRAMING ", "CLASSIFICATION ", "FLAGGED_ATTRIBUTES ", "CHARACTER_ENCODING ", "CARDINALITY ", "LINK ", "a=", "b=", "id=", "name=", "Text", "Array[", "]",
          "refs:", "refn:", "refn:nobody", "refs:E", "{", "}", "[", "]", "\"x\"", "'y'", "\"", "'", ":", ",", "\\", "\n", "\\\n", "\r", "\t", "--", "-- name=", "-- version=1", "-- precompiler=",
          "semantics", "transformation", "#", "->", "=", " ", "é", "🙂", "\u0000", "\u001f", "\u2028", "\ufeff", "\u202e", "ſ", "K", "0", "-1", "1e9", "${a}", "$"]
ODDLANGS = ["aa", "zz", "qq", "en-US", "xx-XX", "sr", "zh", "iw", "no", "tl", "mo", "sh", "la", "eo", "Q1", "e", "eng", "EN"]
QUERIES = ["", " ", "\"", "\"\"", "*", "na*", "NEAR(a b)", "a AND", "OR", "NOT a", "name:x", "-x", "^x", "(", ")", "a\"b", "'", "''; drop table x", "%", "_", "\u0000", "na\u0000me", "🙂🙂🙂",
           "éàü", "İİİ", "ß", "a" * 3, "a" * 5000, "abc " * 400, "\t\n", "{x}", "+", "abc + def", "\\", "ﬁﬁﬁ", "\ufeffabc"]
BIG = [0, 1, 2, 3, 1000, 2**31, 2**32, 2**62, 2**63 - 1, 2**63, 2**64 - 1]


def junk_text(r, n=None):
    k = r.random()
    if k < 0.6:
        return "".join(r.choice(PIECES) for _ in range(n or r.choice([0, 1, 3, 8, 20, 60])))
    if k < 0.8:
        return "".join(chr(r.choice([r.randrange(128), r.randrange(0x3000), r.randrange(0x10000), r.randrange(0x20000)])) for _ in range(r.choice([1, 5, 40]))).encode("utf-8", "ignore").decode()
    return r.choice(["", "\n", " ", "\\", "\\\n", "--", "-- ", "-- name", "-- name=", "-- name=\"", "#", "ADD", "FROM", "FROM E", "REMOVE", "ADD ATTRIBUTE", "ADD META", "ADD META en PROPS",
                     "ADD ATTRIBUTE a=", "ADD ATTRIBUTE a=Array[]", "ADD ATTRIBUTE =Text", "ADD LABEL en ATTRS", "ADD UNIT ATTRS a=", "MODIFY x", "ADD ENTRY_CODE ATTRS a=[]", "ADD ENTRY_CODE ATTRS a={}",
                     "ADD ENTRY en ATTRS a={}", "ADD LINK refn: ATTRS a=b", "ADD LINK refs: ATTRS a=b", "ADD ATTR_FRAMING id= ATTRS a={}", "REMOVE ATTRIBUTE", "REMOVE META en", "REMOVE LABEL en",
                     "REMOVE CLASSIFICATION", "ADD ATTRIBUTE a=refn:\n", "ADD ATTRIBUTE a=refs:x\n", "FROM \n", "FROM 0", "FROM 0é", "ADD ATTRIBUTE a=refs:0\n", "ADD LINK refs:0é ATTRS a=b", "-- precompiler=transformation", "-- precompiler=\"\"", "\ufeffADD ATTRIBUTE a=Text"])


def odd_text(r):
    """files that say unusual things"""
    G = gens.Gen(r, bad=0.3, names=("nobody", "n.1", "x/y:z"), langs=ODDLANGS + gens.LANGS,
                 vals=gens.VALS + ["", " ", "\\\\", "\\u0041", "\\U0001F642", "\\x", "${a}", "\n", "𝒳" * 20, "x" * 3000, "]", "}", "\u202e"], saids=gens.SAIDS + ["x", "E", "0", "0é", "E" * 44, "A" * 44, "é"],
                 attrs=gens.ATTRS + ["-", "_", ".", "0", "a.b.c", "ATTRS", "n" * 200])
    cmds = G.cmds(r.choice([1, 2, 5, 9]))
    if r.random() < 0.2:
        cmds.insert(0, gens.frm(r.choice(gens.SAIDS + ["x", "E", "0", "é", "A" * 43, "E" * 44, "E" + "-" * 43])))
    metas = [["name", r.choice(["n", "", " ", "x y", "é", "n" * 200, "a/b"])]] if r.random() < 0.3 else []
    try:
        return st.write(st.removals(r, cmds), metas, st.Wild(r))
    except (KeyError, TypeError, ValueError, IndexError):
        return junk_text(r)


def huge_text(r):
    k = r.random()
    n = r.choice([1000, 4000, 12000])
    h = "ADD ATTRIBUTE a=Text\n"
    if k < 0.1:
        return h + "ADD LABEL en ATTRS a=\"" + "\\n" * n + "\"\n"
    if k < 0.2:
        return h + "ADD LABEL en ATTRS a='" + "\\" * n
    if k < 0.3:
        return "ADD ATTRIBUTE a=Text" + " \\\n" * n + "\n"
    if k < 0.4:
        return r.choice(["# x\n", "\n", "-- name=x\n", " \n", "\r\n", "--\n"]) * n
    if k < 0.5:
        return "ADD ATTRIBUTE" + " " * n + "a=Text" + " " * n
    if k < 0.6:
        m = r.choice([30, 90, 200])
        return "ADD ATTRIBUTE a=" + "Array[" * m + "Text" + "]" * r.choice([m, m - 1])
    if k < 0.7:
        m = r.choice([30, 90, 200])
        return h + "ADD ATTR_FRAMING id=x ATTRS a=" + '{"x":' * m + '"y"' + "}" * r.choice([m, m - 1])
    if k < 0.8:
        return h + "".join("ADD LABEL en ATTRS a=\"%d\"\n" % i for i in range(60))
    return ocafile.render(gens.scale(r), ())[0]


def text(r, kind):
    if kind == "plain":
        return ocafile.render(gens.Gen(r, bad=0.0, names=()).cmds(r.choice([1, 3, 6])), [["name", r.choice(["n1", "n2", "n3"])]] if r.random() < 0.4 else ())[0]
    if kind == "near":
        return st.mutated(r)[1]
    return odd_text(r) if kind == "odd" else junk_text(r) if kind == "junk" else huge_text(r)


def ttext(r, kind):
    if kind == "plain":
        return tf.text(r)[0]
    if kind == "near":
        return tf.mutated(r)
    if kind == "odd":
        return "-- precompiler=transformation\n-- source=%s\n-- target=%s\n" % (r.choice(tf.VALUES + ["", "\"\"", "é"]), r.choice(tf.VALUES + ["\"x"])) + junk_text(r)
    return junk_text(r) if kind == "junk" else tf.text(r)[0] + "RENAME ATTRIBUTE" + "".join(" k%d=v%d" % (i, i) for i in range(r.choice([300, 2000]))) + "\n"


WEIRD = [None, True, 0, -1, 1e300, 2**63, 2**64, "", "x", "0", "0é", "refs:0", "\u0000", [], {}, [[]], [None], {"": None}, "E" * 44, "eng", "Text", "Array[Text]", "refs:E", "refn:x", "${0}", "${9}", "$x", ["Text"], [["Text"]], [["Nope"]], "😀"]


def paths(d, at=()):
    out = [at]
    if isinstance(d, dict):
        for k in d:
            out += paths(d[k], at + (k,))
    elif isinstance(d, list):
        for i, x in enumerate(d):
            out += paths(x, at + (i,))
    return out


def bent(r, d):
    """a document close to a valid one"""
    d = copy.deepcopy(d)
    for _ in range(r.choice([1, 1, 1, 2, 4])):
        ps = [p for p in paths(d) if p]
        if not ps:
            break
        p = r.choice(ps)
        x = d
        for k in p[:-1]:
            x = x[k]
        m = r.random()
        if m < 0.25:
            del x[p[-1]]
        elif m < 0.7:
            x[p[-1]] = copy.deepcopy(r.choice(WEIRD))
        elif m < 0.8 and isinstance(x, dict):
            x[r.choice(["zz", "", "d", "v", "type", "language", "attributes", "overlays", "capture_base", "dependencies"])] = x.pop(p[-1])
        elif isinstance(x, list):
            x.append(copy.deepcopy(r.choice([x[p[-1]], r.choice(WEIRD)])))
        else:
            q = r.choice(ps)
            y = d
            for k in q[:-1]:
                y = y[k] if (isinstance(y, dict) and k in y) or (isinstance(y, list) and isinstance(k, int) and k < len(y)) else None
                if y is None:
                    break
            if isinstance(y, dict) and q[-1] in y:
                x[p[-1]] = copy.deepcopy(y[q[-1]])
    return d


def chopped(r, t):
    for _ in range(r.choice([1, 1, 2, 3])):
        i = r.randrange(len(t) + 1)
        k = r.random()
        if k < 0.3:
            t = t[:i]
        elif k < 0.6:
            t = t[:i] + t[i + 1:]
        else:
            t = t[:i] + r.choice(["\"", "{", "}", "[", "]", ",", ":", "null", "1", "\\", "\\u0000", "\\ud800", "é", "\u0001", " "]) + t[i:]
    return t


def doc(r, kind, pool, raw=False):
    base = r.choice(pool)
    if kind == "plain":
        return base
    d = json.loads(base)
    if kind == "near":
        return json.dumps(bent(r, d), ensure_ascii=False, separators=(",", ":"))
    if kind == "odd":
        return chopped(r, base)
    if kind == "junk":
        return r.choice(["", " ", "null", "0", "[]", "{}", "\"x\"", "[{}]", "{\"d\":null}", "{\"v\":\"\"}", "{\"v\":\"OCAS11JSON000000_\"}", "not json", "\u0000", "[" * 300, "{\"a\":" * 200, "{\"overlays\":{}}",
                         "{\"v\":\"OCAB00JSON000000_\",\"m\":null,\"t\":[]}", "{\"m\":{},\"t\":{}}", "NaN", "1e999", "{\"d\":\"\",\"capture_base\":{},\"overlays\":{}}"])
    # huge
    ps = [p for p in paths(d) if p]
    p = r.choice(ps)
    x = d
    for k in p[:-1]:
        x = x[k]
    m = r.random()
    x[p[-1]] = "x" * 100000 if m < 0.4 else {"k%d" % i: "v" for i in range(3000)} if m < 0.7 else ["Text"] * 5000 if m < 0.85 else json.loads("[" * 100 + "]" * 100)
    return json.dumps(d, ensure_ascii=False, separators=(",", ":"))


def cond(r, kind):
    if kind == "plain":
        return sv.expr(r)
    if kind == "near":
        return chopped(r, sv.expr(r))
    if kind == "odd":
        return sv.odd(r)
    if kind == "junk":
        return "".join(r.choice(["${", "}", "${0}", "${1}", "${99999999999999999999}", "${-1}", "$", "{", "(", ")", "and", " or ", "not ", "nil", "'", "\"", "=", "==", "\\", "[[", "--", "#", "%", "\u0000", "é", "1", "."]) for _ in range(r.choice([0, 1, 4, 12])))
    n = r.choice([100, 1000])
    return r.choice(["(" * n + "1" + ")" * n, "not " * n + "true", " and ".join(["${a} > 1"] * n), "(" * n, "1" * n, "'" + "x" * n, "- " * n + "1 == 1", " .. ".join(["'x'"] * n) + " == 'x'"])


def word(r, kind, saids):
    """what should be an identifier"""
    return {"plain": lambda: r.choice(saids), "near": lambda: chopped(r, r.choice(["@{b}", gens.SAIDS[0]]) if False else gens.SAIDS[0]), "odd": lambda: r.choice(gens.SAIDS + [sv.FAKE]),
            "junk": lambda: r.choice(["", " ", "E", "x", "0", "0é", "é", "E" * 44, "\u0000", "e" * 44, "A" * 44, "core_model." + gens.SAIDS[0], "..", "/", "E" + "-" * 43]),
            "huge": lambda: "E" * r.choice([45, 1000, 100000])}[kind]()


def call(r, name, kind, pools, saids):
    if name in ("parse", "rt", "pure"):
        return {"op": name, "text": text(r, kind) if name != "parse" or r.random() < 0.7 else ttext(r, kind)}
    if name == "build":
        return {"op": "build", "text": text(r, kind)}
    if name == "validate":
        o = {"op": "validate", "text": text(r, kind), "models": True, "store": r.random() < 0.6}
        return o
    if name == "named":
        # files that refer to others
        t = text(r, kind)
        x = r.choice(saids)
        t = r.choice(["FROM %s\n%s" % (x, t), "%sADD ATTRIBUTE zz=refs:%s\n" % (t, x), "%sADD ATTRIBUTE zy=refn:%s\n" % (t, r.choice(["n1", "n2", "nobody"])), "%sADD LINK refn:%s ATTRS a=b\n" % (t, r.choice(["n1", "nobody"]))])
        if r.random() < 0.4:
            ext = {r.choice(["n1", "nobody", "n2"]): r.choice(saids + ["x", "", "E" * 44])}
            return {"op": "validate", "text": t, "ext": ext}
        return {"op": "build", "text": t}
    if name in ("tparse", "tbuild"):
        return {"op": name, "text": ttext(r, kind), "direct": r.random() < 0.5}
    if name == "cond":
        t = cond(r, kind)
        if r.random() < 0.4:
            return {"op": "cond", "attr": "z", "text": t}
        return {"op": "condcheck", "attr": r.choice("za"), "text": t, "values": {x: r.choice(sv.VALUES + ["", "(", "'", "nil nil"]) for x in "abc" if r.random() < 0.8}}
    if name in ("load", "vbundle", "toast", "togen"):
        o = {"op": name, "json": doc(r, kind, pools["bundle"])}
        if name == "vbundle":
            o["langs"] = r.choice([[], ["en"], ["en", "fr"]])
        return o
    if name == "continue":
        return {"op": "continue", "json": doc(r, r.choice(["plain", "plain", "near"]), pools["bundle"]), "text": text(r, kind)}
    if name == "tload":
        return {"op": "tload", "json": doc(r, kind, pools["transformation"])}
    if name == "loadcombined":
        return {"op": "loadcombined", "json": doc(r, kind, pools["combined"])}
    if name == "combine":
        return {"op": "combine", "json": doc(r, kind, pools["bundle"]), "texts": [ttext(r, "plain") for _ in range(r.choice([0, 1, 3]))], "direct": False, "at": 0, "fill": r.random() < 0.5}
    if name == "gen":
        return {"op": "gen", "cmds": [doc(r, kind, pools["command"]) for _ in range(r.choice([1, 1, 2]))]}
    if name in ("get", "steps", "ocafile", "ast", "explore", "bundle_ocafile"):
        return {"op": name, "said": word(r, kind, saids), "dep": r.random() < 0.5, "deref": r.random() < 0.5}
    if name == "objects":
        return {"op": "objects", "saids": [word(r, kind, saids) for _ in range(r.choice([0, 1, 3]))]}
    if name in ("list_b", "list_cb", "search"):
        o = {"op": name, "limit": r.choice(BIG if kind in ("odd", "huge") else [1, 2, 100]), "page": r.choice(BIG if kind in ("junk", "huge") else [1, 1, 2, 9])}
        if name == "search":
            o["q"] = r.choice(["name", "nam", "alpha beta"]) if kind == "plain" else chopped(r, "name descr") if kind == "near" else r.choice(QUERIES) if kind != "junk" else junk_text(r, 3)
            o["lang"] = r.choice(["en", "fr", None, "aa"])
        return o
    return {"op": name}


def script(r, calls, pools, db="mem"):
    ops = [{"op": "open", "db": db, "cache": db}]
    plan = []
    saids = []
    base = ["-- name=n1\nADD ATTRIBUTE a=Text b=Numeric\nADD META en PROPS name=\"name one\" description=\"first\"\n", "-- name=n2\nADD ATTRIBUTE a=Text c=refn:n1\nADD LABEL fr ATTRS a=\"x\"\n"]
    for i, t in enumerate(base[: r.choice([0, 1, 2, 2])]):
        ops.append({"op": "build", "text": t, "as": "s%d" % i})
        saids.append("@{s%d}" % i)
    saids = saids or gens.SAIDS[:1]
    for name, kind in calls:
        o = call(r, name, kind, pools, saids)
        for _ in range(2 if r.random() < 0.35 else 1):
            plan.append((len(ops), name, kind))
            ops.append(o)
            ops += PROBE
    return {"ops": ops, "plan": plan}


def steadied(j):
    """a document whose members come in the same order every time"""
    return json.dumps(json.loads(j), sort_keys=True, ensure_ascii=False, separators=(",", ":"))


def pools(ctx):
    """documents the library itself writes"""
    r = ctx.rng
    out = {"bundle": [], "transformation": [], "combined": [], "command": []}
    scripts = []
    for i in range(40):
        cmds = gens.Gen(r, bad=0.0, names=()).cmds(r.choice([2, 6, 14])) if i % 8 else gens.scale(r)
        scripts.append({"id": "p%d" % i, "ops": [{"op": "open"}, {"op": "build", "text": ocafile.render(cmds, ())[0], "as": "x"}, {"op": "steps", "said": "@{x}"},
                                                 {"op": "combine", "of": 1, "texts": [tf.text(r, full=1.0)[0] for _ in range(2)], "direct": False, "at": 0, "fill": False}]})
    for x in c.run_scripts(ctx, scripts):
        if x.get("dead"):
            continue
        o = x["obs"]
        if "ok" in o[1]:
            out["bundle"].append(steadied(x["bundles"][o[1]["ok"]["b"]]["json"]))
            out["command"] += [steadied(y["cmd"]) for y in o[2]["ok"]["steps"]]
        if "ok" in o[3] and isinstance(o[3]["ok"].get("json"), str):
            j = steadied(o[3]["ok"]["json"])
            out["combined"].append(j)
            out["transformation"] += [json.dumps(y, ensure_ascii=False, separators=(",", ":")) for y in json.loads(j).get("t") or []]
    out["command"] = sorted(set(out["command"]))
    for k, v in out.items():
        if not v:
            raise c.ToolError("the library wrote no %s" % k)
    return out


def corpus(ctx):
    r = ctx.rng
    gen = c.behaviours(c.tlc(ctx, "MC_Session", "GEN_Session.cfg", workers=8)[1])
    gen = [h for h in gen if len(h) == 2]
    if not gen:
        raise c.ToolError("the model printed no behaviours")
    ctx.stats["behaviours_of_model"] = len(gen)
    r.shuffle(gen)
    ps = pools(ctx)
    out = []
    if not ctx.thorough:
        gen = gen[:9000]
    for _ in range(1 if not ctx.thorough else 4):
        r.shuffle(gen)
        for i in range(0, len(gen), 5):
            out.append(script(r, [x for h in gen[i:i + 5] for x in h], ps, r.choice(["mem"] * 12 + ["sled", "fs"])))
    out += [chain(r, 2500, 1), chain(r, 40, 2), chain(r, 15, 3)]
    for i, s in enumerate(out):
        s["id"] = "C10-%d" % i
    return out


def chain(r, n, k):
    """bundles each of which refers to the one before in k ways: everything asked of the last"""
    ops = [{"op": "open"}, {"op": "build", "text": "ADD ATTRIBUTE a=Text\n", "as": "x0"}]
    for i in range(n):
        ops.append({"op": "build", "text": "ADD ATTRIBUTE" + "".join(" %s=refs:@{x%d}" % ("abc"[m], i) for m in range(k)) + "\n", "as": "x%d" % (i + 1)})
    plan = []
    for name in ("get", "get", "steps", "explore", "ocafile"):
        plan.append((len(ops), name, "huge"))
        ops.append({"op": name, "said": "@{x%d}" % n, "dep": True, "deref": False})
        ops += [{"op": "list_b", "limit": 2}, {"op": "refs"}, {"op": "refs"}, {"op": "refs"}]
    return {"ops": ops, "plan": plan}


def known():
    """what is known to end badly: each in a process of its own"""
    n = 60000
    out = []
    for kf, op in [("deep-array", {"op": "parse", "text": "ADD ATTRIBUTE a=" + "Array[" * n + "Text" + "]" * n + "\n"}),
                   ("deep-framing", {"op": "parse", "text": "ADD ATTRIBUTE a=Text\nADD ATTR_FRAMING id=x ATTRS a=" + '{"x":' * n + '"y"' + "}" * n + "\n"}),
                   ("lua-program", {"op": "condcheck", "attr": "z", "text": "(function() while true do end end)()", "values": {}}),
                   ("long-name", {"op": "build", "text": "-- name=%s\nADD ATTRIBUTE a=Text\n" % ("n" * 300)}),
                   ("lua-overflow", {"op": "condcheck", "attr": "z", "text": "1 << 64 == 0", "values": {}})]:
        out.append({"id": "C10-" + kf, "kf": kf, "ops": [{"op": "open", "db": "fs" if kf == "long-name" else "mem"}, op] + PROBE, "plan": [(1, op["op"], "known")]})
    return out


def ended(o):
    if "parse" in o:
        o = o["parse"]
    return "err" if "verr" in o else sc.outcome(o)


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, ensure_ascii=False).encode()).hexdigest()[:24]


def steady(x):
    """an answer without what has no order"""
    if isinstance(x, dict):
        return {k: sorted((steady(y) for y in v), key=lambda z: json.dumps(z, sort_keys=True)) if k in ("err", "verr", "meta", "ov") and isinstance(v, list) else steady(v) for k, v in x.items()}
    if isinstance(x, list):
        return [steady(y) for y in x]
    return x


def trace(s, res):
    ev, at = [], []
    obs = res["obs"]
    first = True
    for k, name, kind in s["plan"]:
        o = obs[k]
        out = ended(o)
        if out == "skip":
            continue
        kept = digest(obs[k + 1:k + 1 + len(PROBE)])
        if first:
            # what the store held before the first call is not known: the call is made, the rest is compared to it
            ev.append({"e": "call", "id": "", "writes": True, "out": "ok", "ans": "", "kept": kept, "first": True})
            at.append(k)
            first = False
            if out not in ("ok", "err"):
                ev.append({"e": "call", "id": "first", "writes": True, "out": out, "ans": "", "kept": kept, "first": False})
                at.append(k)
            continue
        panics = "panic" in json.dumps([x for x in obs[k:k + 1 + len(PROBE)]]) and any(deep(x) for x in obs[k:k + 1 + len(PROBE)])
        if name in ("toast", "togen", "bundle_ocafile") and "ok" in o:
            # the order of the entries of a mapping says nothing
            o = dict(o, ok="".join(sorted(json.dumps(o["ok"]))))
        ev.append({"e": "call", "id": digest(s["ops"][k]), "writes": name in WRITES, "out": "panic" if panics else out, "ans": digest(steady(o)), "kept": kept, "first": False})
        at.append(k)
    return {"id": s["id"], "events": ev, "bundles": []}, at


def deep(x):
    """a panic anywhere in an observation"""
    if isinstance(x, dict):
        return ("panic" in x and isinstance(x["panic"], str) and x["panic"].startswith("panicked")) or any(deep(v) for v in x.values())
    return isinstance(x, list) and any(deep(v) for v in x)


def run(ctx):
    c.model_check(ctx, "MC_Session", "MC_Session%s.cfg" % ("_deep" if ctx.thorough else ""), workers=8, timeout=1200)
    scripts = ctx.only if ctx.only else corpus(ctx)
    res = c.run_scripts(ctx, scripts)
    if not ctx.only:
        k = known()
        scripts = scripts + k
        res = res + c.run_scripts(ctx, k, procs=len(k), optimeout=4)
    traces, ats, back = [], [], []
    for s, x in zip(scripts, res):
        if x.get("dead"):
            c.report(ctx, [x["dead"]], s, "the process %s at op %s" % (x["dead"], x.get("op")))
            continue
        t, at = trace(s, x)
        traces.append(t)
        ats.append(at)
        back.append((s, x))
    for k, e, bad, ix in c.validate(ctx, "TraceSession", traces, maxbytes=8_000_000):
        if k is None:
            continue
        s, x = back[k]
        op = ats[k][e]
        c.report(ctx, bad, s, json.dumps({"op": op, "what": s["ops"][op], "obs": x["obs"][op]}, ensure_ascii=False)[:2500])
    ctx.stats["scripts"] = len(scripts)
    ctx.stats["calls"] = sum(len(s["plan"]) for s in scripts)
    kinds = {}
    for s, x in zip(scripts, res):
        for k, name, kind in s["plan"]:
            if not x.get("dead"):
                key = "%s/%s:%s" % (name, kind, ended(x["obs"][k]))
                kinds[key] = kinds.get(key, 0) + 1
    ctx.cov["outcomes"] = kinds
    ctx.cov["samples"] = [scripts[i]["ops"][:4] for i in range(0, len(scripts), max(1, len(scripts) // 3))][:3]
    return "model_checking"
