"""C22-C24: conditions and the bundle validator."""
import copy
import json

import common as c
import facts
import gens
import ocafile
import suite_content as sc

L3 = {"en": "eng", "fr": "fra", "de": "deu", "pl": "pol", "es": "spa"}
MORE = dict(L3, it="ita", pt="por", nl="nld", sv="swe", da="dan", fi="fin", cs="ces", sk="slk", hu="hun", ro="ron", bg="bul", el="ell", tr="tur", ja="jpn", ko="kor", zh="zho", ar="ara", he="heb", hi="hin")
ALL = {
    "C22": {"validate-panic", "accepted-tampered", "wrong-said-errors", "rejected-built"},
    "C23": {"validate-panic", "accepted-untranslated", "wrong-translation-errors"},
    "C24": {"validate-panic", "condition-panic", "condition-stored", "condition-deps", "condition-lost", "condition-restored", "condition-rejected",
            "condition-accepted", "condition-value", "condition-error", "accepted-condition", "wrong-condition-errors"},
}
CATS = {"cond": [], "said": [], "trans": []}


def short(m):
    return m.split(": ")[0] if "has invalid condition" in m else m


def split(msgs):
    out = {"cond": [], "said": [], "trans": []}
    for m in msgs:
        k = "cond" if m.startswith("Attribute '") else "trans" if " overlay: " in m else "said"
        out[k].append(short(m))
    return out


def vb_event(op, o):
    r = {"e": "vb", "b": (o.get("src") or 0) + 1, "langs": [MORE[x] for x in op.get("langs", [])], "cond": [], "said": [], "trans": [], "out": "ok", "canon": bool(o.get("canon"))}
    if "panic" in o:
        r["out"] = "panic"
    elif "err" in o:
        r["out"] = "unread"
    elif "verr" in o:
        r["out"] = "err"
        r.update(split(o["verr"]))
    return r


def trace(script, res):
    ev, at = [], []
    for p in script["plan"]:
        k = p[1]
        o = res["obs"][k]
        op = script["ops"][k]
        out = sc.outcome(o)
        if p[0] == "vb":
            if o.get("src") is None or "nobundle" in o:
                if "panic" not in o:
                    continue
                o["src"] = 0
            ev.append(vb_event(op, o))
        elif p[0] == "cond":
            ok = o.get("ok", {})
            ev.append({"e": "cond", "out": out, "text": op["text"], "stored": ok.get("stored") or "", "deps": ok.get("deps") or []})
        elif p[0] == "check":
            ok = o.get("ok", {})
            ev.append({"e": "check", "out": out, "attr": op["attr"], "text": op["text"], "values": sorted([a, b] for a, b in op["values"].items()),
                       "value": "true" if ok.get("value") else "false", "msgs": [short(m) for m in o.get("err", [])]})
        elif p[0] == "restore":
            # p[2]: attribute, p[3]: the condition as written
            if sc.outcome(res["obs"][op["of"]]) != "ok":
                continue
            back = [v.get("val") for x in o.get("ok", {}).get("cmds", []) if x["o"] == "Conditional" for a, v in x["attrs"] if a == p[2]]
            ev.append({"e": "restore", "out": "ok" if len(back) == 1 else "err", "text": p[3], "back": back[0] if len(back) == 1 else ""})
        at.append(k)
    return {"id": script["id"], "events": ev, "bundles": [facts.bundle(b) for b in res["bundles"]]}, at


# ------------------------------------------------------------- conditions
ALLATOMS = ["${a}", "${b}", "${c}", "${a}", "${b}", "1", "3", "2", "0", "1.5", "10", "'x'", "\"x\"", "'and'", "true", "false", "nil", "x", "20"]
CMP = ["==", "~=", "<", ">", "<=", ">="]
BROKEN = ["${a} >", "== 1", "(${a} > 1", "${a} = 1", "${a} && ${b}", "and", "${a} > 1)", "not", "1 2", "${a} ${b}", "'x", "if ${a}", "${a} @ 1", "${a > 1", "${} == 1"]
NUMS = ["0", "1", "2", "-3", "15", "20", "1.5"]
VALUES = ["0", "1", "2", "-3", "15", "1.5", "'x'", "'y'", "true", "false", "nil", "x", "2021-01-01"]


NATOMS = ["${a}", "${b}", "${c}", "1", "2", "0", "1.5", "10", "20"]


def expr(r, d=0):
    ATOMS = NATOMS if r.random() < 0.85 else ALLATOMS
    m = r.random()
    if d > 2 or m < 0.3:
        return "%s %s %s" % (r.choice(ATOMS), r.choice(CMP), r.choice(ATOMS))
    if m < 0.36:
        return r.choice(["true", "false", "${a}", "nil", "1"])
    if m < 0.5:
        return "not " + (expr(r, d + 1) if r.random() < 0.4 else "(" + expr(r, d + 1) + ")")
    if m < 0.6:
        return "(" + expr(r, d + 1) + ")"
    if m < 0.68:
        return "%s %s %s %s %s" % (r.choice(ATOMS), r.choice(["+", "-"]), r.choice(ATOMS), r.choice(CMP), r.choice(ATOMS))
    return expr(r, d + 1) + r.choice([" and ", " or ", "  and ", " or\t"]) + expr(r, d + 1)


def odd(r):
    """references in unusual places"""
    names = ["a", "b", "c", "0", "1", "a b", "x.y", "ą", "a-1", "longer_name", "", "10"]
    return "".join(r.choice(["${%s}" % r.choice(names), "${%s}" % r.choice(names), "$", "{", "}", " > ", "${", "}1", " and ", "'", "1", "$$", "\\"]) for _ in range(r.randint(1, 8)))


def cond_scripts(ctx):
    r = ctx.rng
    out = []
    toks = ["${a}", "${b}", "1", "'x'", "true", "and", "or", "not", "==", "<", "-", "(", ")"]
    gen = c.behaviours(c.tlc(ctx, "MC_Cond", "GEN_Cond.cfg")[1])
    ctx.stats["behaviours_of_model"] = len(gen)
    if not gen:
        raise c.ToolError("the model printed no behaviours")
    r.shuffle(gen)
    ops = []
    for h in gen[: len(gen) if ctx.thorough else 9000]:
        ops.append({"op": "condcheck", "attr": "z", "text": " ".join(toks[i - 1] for i in h), "values": {"a": "2", "b": "'x'"}})
    for _ in range(40000 if ctx.thorough else 5000):
        t = expr(r) if r.random() < 0.88 else r.choice(BROKEN)
        attr = r.choice(["z", "z", "z", "z", "a"])
        have = [x for x in "abc" if r.random() < 0.93]
        ops.append({"op": "condcheck", "attr": attr, "text": t, "values": {x: r.choice(NUMS if r.random() < 0.75 else VALUES) for x in have}})
    for _ in range(2000 if ctx.thorough else 250):
        names = ["v%d" % i for i in range(r.choice([11, 14, 25, 25, 70]))]
        ks = names + [r.choice(names) for _ in range(r.choice([0, 5]))]
        r.shuffle(ks)
        vals = {x: str(r.randint(0, 30)) for x in names}
        op = r.choice([" and ", " or "])
        t = op.join("${%s} %s %s" % (x, r.choice(["==", "<=", ">="]) if op == " and " else r.choice(["~=", "<", ">"]), vals[x] if r.random() < 0.95 else "7") for x in ks)
        if r.random() < 0.1:
            del vals[r.choice(names)]
        ops.append({"op": "condcheck", "attr": "z", "text": t, "values": vals})
        ops.append({"op": "cond", "attr": "z", "text": t})
    for _ in range(20000 if ctx.thorough else 3000):
        t = expr(r) if r.random() < 0.4 else odd(r)
        ops.append({"op": "cond", "attr": "z", "text": t})
    for i in range(0, len(ops), 100):
        o = ops[i:i + 100]
        out.append({"ops": o, "plan": [("check" if x["op"] == "condcheck" else "cond", k) for k, x in enumerate(o)]})
    for _ in range(300 if ctx.thorough else 30):
        names = ["v%d" % i for i in range(r.choice([12, 20, 70]))]
        ks = names + [r.choice(names) for _ in range(4)]
        r.shuffle(ks)
        t = r.choice([" and ", " or "]).join("${%s} %s %d" % (x, r.choice(["==", "<=", ">="]), r.randint(0, 3)) for x in ks)
        if r.random() < 0.2:
            t += " and ${nope} == 1"
        elif r.random() < 0.2:
            t += " or ${z} == 1"
        cmds = [gens.add_attr([(a, gens.T("Numeric")) for a in names] + [("z", gens.T())]), gens.ov("Conditional", [("z", gens.V(t))])]
        if r.random() < 0.2:
            cmds.append(gens.rm_attr([r.choice(names)]))
        text, _ = ocafile.render(cmds, (), None)
        out.append({"ops": [{"op": "pure", "text": text}, {"op": "toast", "of": 0}, {"op": "vbundle", "of": 0, "src": True}],
                    "plan": [("restore", 1, "z", t), ("vb", 2)]})
    # conditions of bundles: built, read back, validated on the types of what they refer to
    for _ in range(4000 if ctx.thorough else 700):
        types = [(a, gens.T(r.choice(gens.TYPES + ["Numeric"] * 4), r.choice([0] * 9 + [1, 2]))) for a in "abc"]
        if r.random() < 0.1:
            types[2] = ("c", gens.T(gens.SAIDS[0], 0, "s"))
        t = expr(r) if r.random() < 0.85 else r.choice([b for b in BROKEN])
        own = r.choice(["z", "z", "z", "a", "b"])
        if r.random() < 0.15:
            t += " and ${nope} == 1"
        if '"' in t and "'" in t:
            t = t.replace('"', "'")
        cmds = [gens.add_attr(types + [("z", gens.T())]), gens.ov("Conditional", [(own, gens.V(t))])]
        if r.random() < 0.25:
            cmds.append(gens.rm_attr([r.choice([x for x in "abc" if x != own])]))
        if r.random() < 0.2 and own != "z":
            cmds.append(gens.ov("Conditional", [("z", gens.V(r.choice(["${a} == 1", "true", "${b} > 1"])))]))
        text, _ = ocafile.render(cmds, (), None)
        out.append({"ops": [{"op": "pure", "text": text}, {"op": "toast", "of": 0}, {"op": "vbundle", "of": 0, "src": True}],
                    "plan": [("restore", 1, own, t), ("vb", 2)]})
    return out


# --------------------------------------------------------------- bundles
def bundles(ctx, n, kinds=None, cond=True):
    """-> JSON texts of built bundles"""
    r = ctx.rng
    scripts = []
    for i in range(n):
        G = gens.Gen(r, bad=0.0, kinds=kinds or [k for k in gens.OVER if k != "Conditional"])
        cmds = [x for x in G.cmds(r.choice([2, 4, 8, 14]))]
        if cond and r.random() < 0.3:
            cmds = [gens.add_attr([("n1", gens.T("Numeric")), ("n2", gens.T("Text"))])] + cmds + [gens.ov("Conditional", [("n2", gens.V("${n1} > 1"))])]
        if i % 12 == 0:
            cmds = gens.scale(r, r.choice(["wide", "links", "frames", "codes", "metas", "restate"]), ["en", "fr", "de", "pl"])
        if i % 40 == 1:
            cmds = gens.very_many(r, longest=17000)
        text, _ = ocafile.render(cmds, (), None)
        scripts.append({"id": "b%d" % i, "ops": [{"op": "pure", "text": text}]})
    res = c.run_scripts(ctx, scripts)
    return [x["bundles"][x["obs"][0]["ok"]["b"]]["json"] for x in res if x.get("bundles") and "ok" in x["obs"][0]]


FAKE = "EAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"


def overlays(b):
    for k, x in b["overlays"].items():
        for i, o in enumerate(x if isinstance(x, list) else [x]):
            yield k, (i if isinstance(x, list) else None), o


def hidden(r, b, o, ovs, text):
    """another overlay of its kind beside the one of the bundle, valid by itself"""
    ovs = [y for y in ovs if y[0] != "conditional"]
    if not ovs:
        return None
    k, i, x = r.choice([y for y in ovs if y[1] is None] or ovs)
    more = [y for kk, _, y in overlays(o) if kk == k and y != x]
    if more and r.random() < 0.5:
        n = dict(r.choice(more), capture_base=x["capture_base"])
    else:
        n = copy.deepcopy(x)
        mps = [y for y in n if isinstance(n[y], dict) and n[y] and y != "category_labels"]
        if not mps:
            return None
        mp = n[r.choice(mps)]
        a = r.choice(list(mp))
        if not isinstance(mp[a], str):
            return None
        mp[a] = "iso-8859-1" if k == "character_encoding" and mp[a] != "iso-8859-1" else "utf-16" if k == "character_encoding" else mp[a] + "Y"
    h = r.random()
    if h < 0.7:
        old = b["overlays"][k] if i is not None else [x]
        b["overlays"][k] = [n] + old if r.random() < 0.5 else old + [n]
    else:
        b["overlays"][r.choice(["aaa", "zzz"])] = n
        b["overlays"] = {y: b["overlays"][y] for y in sorted(b["overlays"])}
    t = json.dumps(b, ensure_ascii=False, separators=(",", ":"))
    return (t, r.choice([["ov"], ["ov"], ["links", "ov"], []])) if t != text else None


def tamper(r, text, other):
    """-> (tampered text, refill) or None"""
    b = json.loads(text)
    o = json.loads(other)
    ovs = list(overlays(b))
    refill = r.choice([[], [], [], ["ov"], ["cb"], ["cb", "links"], ["b"], ["cb", "links", "ov"]])
    m = r.random()
    cb = b["capture_base"]
    if ovs and r.random() < 0.1:
        # one more overlay of a kind the bundle already has
        return hidden(r, b, o, ovs, text)
    if m < 0.08:
        b["d"] = FAKE
        refill = []
    elif m < 0.14:
        cb["d"] = FAKE
    elif m < 0.24 and ovs:
        k, i, x = r.choice(ovs)
        x["d"] = FAKE
    elif m < 0.32 and ovs:
        k, i, x = r.choice(ovs)
        x["capture_base"] = FAKE
    elif m < 0.38:
        cb["classification"] = cb.get("classification", "") + "x"
    elif m < 0.44 and cb["attributes"]:
        a = r.choice(list(cb["attributes"]))
        cb["attributes"][a] = r.choice([t for t in ["Text", "Numeric", ["Boolean"]] if t != cb["attributes"][a]])
    elif m < 0.49:
        cb["attributes"]["zzz"] = "Text"
    elif m < 0.54 and cb["attributes"]:
        del cb["attributes"][r.choice(list(cb["attributes"]))]
    elif m < 0.58 and cb["attributes"]:
        fl = cb.get("flagged_attributes", [])
        a = r.choice(list(cb["attributes"]))
        cb["flagged_attributes"] = [x for x in fl if x != a] if a in fl else sorted(fl + [a])
        if not cb["flagged_attributes"]:
            pass
    elif m < 0.66 and ovs:
        # an overlay is taken out
        k, i, x = r.choice(ovs)
        if i is None:
            del b["overlays"][k]
        else:
            del b["overlays"][k][i]
            if not b["overlays"][k]:
                del b["overlays"][k]
    elif m < 0.72:
        # one of another bundle is put in
        oo = [x for x in overlays(o) if x[1] is not None]
        if not oo:
            return None
        k, i, x = r.choice(oo)
        b["overlays"].setdefault(k, [])
        if x in b["overlays"][k]:
            return None
        b["overlays"][k].append(x)
        b["overlays"] = {y: b["overlays"][y] for y in sorted(b["overlays"])}
    elif m < 0.79 and ovs:
        # parts that are not about attributes
        k, i, x = r.choice(ovs)
        h = r.random()
        if h < 0.2:
            cb["type"] = "spec/capture_base/1.0"
        elif h < 0.4:
            x["type"] = x["type"].replace("1.1", "1.0")
        elif h < 0.5:
            del x["d"]
        elif h < 0.6:
            b["d"] = None
            refill = []
        elif h < 0.75 and i is not None:
            b["overlays"][k].append(copy.deepcopy(x))
            refill = []
        elif "attribute_categories" in x:
            x["attribute_categories"] = ["c"]
        elif "framing_metadata" in x:
            x["framing_metadata"]["frame_zz"] = "x"
        elif "target_bundle" in x:
            x["target_bundle"] = FAKE
        else:
            return None
    elif ovs:
        # something inside an overlay is changed, added or removed
        k, i, x = r.choice(ovs)
        body = [y for y in x if y not in ("d", "type", "capture_base", "language", "target_bundle", "framing_metadata", "category_labels", "attribute_categories")]
        if k == "meta":
            y = r.choice(body)
            h = r.random()
            if h < 0.4:
                x[y] += "!"
            elif h < 0.7 or len(body) == 1:
                x[y + "0"] = "new"
                if len(body) > 1 and list(x) != sorted(x):
                    x[y] += "!"
            else:
                del x[y]
        else:
            if not body:
                return None
            y = r.choice(body)
            mp = x[y]
            if not isinstance(mp, dict) or not mp:
                return None
            a = r.choice(list(mp))
            h = r.random()
            if h < 0.3 and len(mp) > 1 and k != "conditional":
                del mp[a]
            elif isinstance(mp[a], str):
                mp[a] = "Y" if k not in ("character_encoding", "conditional") else "iso-8859-1" if k == "character_encoding" and mp[a] != "iso-8859-1" else "utf-16" if k != "conditional" else mp[a] + " "
            elif isinstance(mp[a], list):
                mp[a] = mp[a] + ["zzz"] if k != "conditional" else mp[a][:-1] + ["n9"]
            elif isinstance(mp[a], dict):
                mp[a]["zz"] = {"predicate_id": "q", "framing_justification": "q"} if k == "attribute_framing" else ["q"] if k == "entry_code" else "q"
        if h < 0.1 and "language" in x:
            x["language"] = "spa" if x["language"] != "spa" else "eng"
    else:
        return None
    t = json.dumps(b, ensure_ascii=False, separators=(",", ":"))
    return (t, refill) if t != text else None


def tampered_scripts(ctx):
    r = ctx.rng
    js = bundles(ctx, 1500 if ctx.thorough else 350)
    out = []
    for j in js:
        ops = [{"op": "vbundle", "json": j, "src": True}]
        for _ in range(12):
            t = tamper(r, j, r.choice(js))
            if t:
                ops.append({"op": "vbundle", "json": t[0], "refill": t[1], "src": True})
                if r.random() < 0.1:
                    ops[-1]["langs"] = r.sample(list(L3), 2)
        out.append({"ops": ops, "plan": [("vb", k) for k in range(len(ops))]})
    return out


def translated_scripts(ctx):
    r = ctx.rng
    out = []
    for _ in range(6000 if ctx.thorough else 900):
        attrs = r.sample(["a", "b", "c", "d"], r.choice([1, 2, 3, 4]))
        langs = r.sample(["en", "fr", "de", "pl"], r.choice([1, 1, 2, 2, 3, 4]))
        crowd = r.random() < 0.06
        if crowd:
            attrs = ["a%d" % i for i in range(r.choice([5, 11, 40, 70]))]
            langs = r.sample(list(MORE), r.choice([1, 5, 9, 12, 24] if len(attrs) < 40 else [2, 5]))
        cmds = [gens.add_attr([(a, gens.T()) for a in attrs])]
        miss = r.choice([0.0, 0.0, 0.1, 0.3] if not crowd else [0.0, 0.01, 0.1])
        for o in r.sample(["Meta", "Label", "Information", "Entry"], r.choice([1, 2, 3, 4])):
            sub = [a for a in attrs if r.random() < 0.8] or attrs[:1]
            for l in langs:
                if r.random() < miss:
                    continue
                if o == "Meta":
                    ks = [k for k in ("name", "description", "note") if r.random() > miss]
                    if ks:
                        cmds.append(gens.meta(l, **{k: "v" for k in ks}))
                    continue
                here = [a for a in sub if r.random() > miss]
                if here:
                    cmds.append(gens.ov(o, [(a, {"obj": [["o1", gens.V("x")]]} if o == "Entry" else gens.V("x")) for a in here], [("lang", gens.V(l))]))
        if r.random() < 0.2:
            cmds.append(gens.ov("Format", [(attrs[0], gens.V("x"))]))
        if r.random() < 0.1 and len(attrs) > 1:
            cmds.append(gens.rm_attr([attrs[0]]))
        text, _ = ocafile.render(cmds, (), None)
        ops = [{"op": "pure", "text": text}]
        for _ in range(3):
            m = r.random()
            ls = langs if m < 0.45 else r.sample(list(MORE if crowd else L3), r.choice([0, 1, 2, 3] if not crowd else [1, 4, 11, 20])) if m < 0.9 else langs + [langs[0]]
            ops.append({"op": "vbundle", "of": 0, "langs": ls, "src": True})
        out.append({"ops": ops, "plan": [("vb", k) for k in range(1, len(ops))]})
    return out


def run(ctx):
    pid = ctx.pid
    if pid == "C24":
        c.model_check(ctx, "MC_Cond", "MC_Cond_deep.cfg" if ctx.thorough else "MC_Cond.cfg", workers=8, timeout=1200)
    else:
        c.model_check(ctx, "MC_Validator", "MC_Validator_deep.cfg" if ctx.thorough else "MC_Validator.cfg", workers=8, timeout=1200)
    scripts = ctx.only or {"C22": tampered_scripts, "C23": translated_scripts, "C24": cond_scripts}[pid](ctx)
    for i, s in enumerate(scripts):
        s.setdefault("id", "%s-%d" % (pid, i))
    res = c.run_scripts(ctx, scripts)
    traces, ats, back = [], [], []
    for s, r in zip(scripts, res):
        if r.get("dead"):
            c.report(ctx, [r["dead"]], s, "the process %s" % r["dead"])
            continue
        t, at = trace(s, r)
        traces.append(t)
        ats.append(at)
        back.append((s, r))
    for k, e, bad, ix in c.validate(ctx, "TraceValidator", traces, maxbytes=8_000_000):
        if k is None:
            continue
        s, r = back[k]
        bad = [x for x in bad if x in ALL[pid]]
        if bad:
            op = ats[k][e]
            c.report(ctx, bad, dict(s, ops=[s["ops"][op]] if s["plan"][0][0] in ("cond", "check") else s["ops"],
                                    plan=[[s["plan"][e][0], 0]] if s["plan"][0][0] in ("cond", "check") else s["plan"]),
                     json.dumps({"op": s["ops"][op], "ev": traces[k]["events"][e]}, ensure_ascii=False)[:3000])
    ctx.stats["scripts"] = len(scripts)
    kinds = {}
    for t in traces:
        for e in t["events"]:
            key = e["e"] + ":" + e["out"]
            kinds[key] = kinds.get(key, 0) + 1
    ctx.stats["event_kinds"] = kinds
    ctx.cov["samples"] = [scripts[i]["ops"][:3] for i in range(0, len(scripts), max(1, len(scripts) // 3))][:3]
    return "model_checking"
