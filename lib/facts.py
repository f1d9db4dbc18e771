"""Projection of observed JSON documents to the abstract state of the specification.

content  = list of facts, each a list of strings (see spec/OcaContent.tla)
objects  = identity records of the capture base and overlays"""
import json

SINGLE = {"character_encoding": ("attribute_character_encoding", "enc"),
          "conformance": ("attribute_conformance", "conf"),
          "format": ("attribute_formats", "fmt"),
          "unit": ("attribute_unit", "unit"),
          "cardinality": ("attribute_cardinality", "card")}
MANY = {"meta", "entry", "label", "information", "link", "attribute_framing"}
KINDS = MANY | {"character_encoding", "conformance", "format", "unit", "cardinality", "conditional", "entry_code"}
HEAD = {"d", "capture_base", "type"}


def attr_type(t):
    d = 0
    while isinstance(t, list):
        if len(t) != 1:
            return [str(d), "bad", json.dumps(t)]
        d += 1
        t = t[0]
    if not isinstance(t, str):
        return [str(d), "bad", json.dumps(t)]
    if t.startswith("refs:"):
        return [str(d), "s", t[5:]]
    if t.startswith("refn:"):
        return [str(d), "n", t[5:]]
    return [str(d), "v", t]


def cb_facts(cb):
    out = []
    for k, v in cb.items():
        if k in ("d",):
            continue
        if k == "type":
            if v != "spec/capture_base/1.1":
                out.append(["junk", "cb", "type", str(v)])
        elif k == "attributes":
            for a, t in v.items():
                out.append(["attr", a] + attr_type(t))
        elif k == "classification":
            if v != "":
                out.append(["class", v])
        elif k == "flagged_attributes":
            for a in v:
                out.append(["flag", a])
        else:
            out.append(["junk", "cb", k, json.dumps(v)])
    return out


def codes_facts(a, v):
    out = []
    if isinstance(v, str):
        out.append(["ecS", a, v])
    elif isinstance(v, list):
        out.append(["ecK", a, "arr"])
        cnt = {}
        for c in v:
            cnt[c] = cnt.get(c, 0) + 1
        for c, n in cnt.items():
            out.append(["ecA", a, str(c), str(n)])
    elif isinstance(v, dict):
        out.append(["ecK", a, "grp"])
        for g, l in v.items():
            out.append(["ecG", a, g, str(len(l))])
            for i, c in enumerate(l):
                out.append(["ecC", a, g, str(i + 1), str(c)])
    return out


def ov_facts(kind, o):
    out = []

    def junk(*x):
        out.append(["junk", kind] + [str(y) for y in x])

    want = "spec/overlays/%s/1.1" % kind
    if o.get("type") != want:
        junk("type", o.get("type"))
    body = {k: v for k, v in o.items() if k not in HEAD}
    lang = body.pop("language", None)
    try:
        if kind in SINGLE:
            key, tag = SINGLE[kind]
            m = body.pop(key, None)
            if not m:
                junk("empty")
            for a, v in (m or {}).items():
                out.append([tag, a, str(v)])
        elif kind == "label":
            m = body.pop("attribute_labels", {})
            for k in ("attribute_categories", "category_labels"):
                if body.pop(k, None):
                    junk(k)
            for a, v in m.items():
                out.append(["label", a, str(lang), str(v)])
            if not m:
                junk("empty")
        elif kind == "information":
            m = body.pop("attribute_information", {})
            for a, v in m.items():
                out.append(["info", a, str(lang), str(v)])
            if not m:
                junk("empty")
        elif kind == "meta":
            for k, v in body.items():
                out.append(["meta", str(lang), k, str(v)])
            if not body:
                junk("empty")
            body = {}
        elif kind == "entry":
            m = body.pop("attribute_entries", {})
            for a, v in m.items():
                if isinstance(v, str):
                    out.append(["enS", a, str(lang), v])
                else:
                    out.append(["enK", a, str(lang), "obj"])
                    for k, t in v.items():
                        out.append(["en", a, str(lang), k, str(t)])
            if not m:
                junk("empty")
        elif kind == "entry_code":
            m = body.pop("attribute_entry_codes", {})
            for a, v in m.items():
                out += codes_facts(a, v)
            if not m:
                junk("empty")
        elif kind == "conditional":
            m = body.pop("attribute_conditions", {})
            deps = body.pop("attribute_dependencies", {})
            for a, v in m.items():
                out.append(["cond", a, str(v)])
            for a, l in deps.items():
                if a not in m:
                    junk("dep", a)
                for i, d in enumerate(l):
                    out.append(["conddep", a, str(i), d])
            if not m:
                junk("empty")
        elif kind == "link":
            tgt = body.pop("target_bundle", None)
            m = body.pop("attribute_mapping", {})
            for a, v in m.items():
                out.append(["link", a, str(tgt), str(v)])
            if not m:
                junk("empty")
        elif kind == "attribute_framing":
            md = dict(body.pop("framing_metadata", {}))
            fid = md.pop("frame_id", "")
            for k, v in md.items():
                out.append(["fmeta", fid, k, str(v)])
            m = body.pop("attribute_framing", {})
            for a, sc in m.items():
                out.append(["frame", a, fid])
                for term, s in sc.items():
                    s = dict(s)
                    out.append(["fscope", a, fid, term, str(s.pop("predicate_id", None)),
                                str(s.pop("framing_justification", None))])
                    for k, v in s.items():
                        junk("scope", k, v)
            if not m:
                junk("empty")
        else:
            junk("unknown")
    except AttributeError as e:
        junk("shape", e)
    for k, v in body.items():
        junk(k, json.dumps(v))
    if lang is not None and kind not in ("label", "information", "meta", "entry"):
        junk("language", lang)
    return out


def ov_sub(kind, o):
    if kind in ("label", "information", "meta", "entry"):
        return str(o.get("language"))
    if kind == "link":
        return str(o.get("target_bundle"))
    if kind == "attribute_framing":
        return str(o.get("framing_metadata", {}).get("frame_id", ""))
    return ""


UNREADABLE = {"bad": True, "said": "", "facts": [["junk", "json"]], "cf": [], "dig": "", "v": "", "len": 0,
              "objs": [{"kind": "cb", "sub": "", "said": "", "dig": "?", "cb": "", "f": []}]}


def bundle(entry):
    try:
        return _bundle(entry)
    except Exception:
        return dict(UNREADABLE)


def _bundle(entry):
    """entry: {"json": text, "dig": {...}} as written by the harness -> record for the
    trace specification"""
    text, dig = entry["json"], entry["dig"]
    b = json.loads(text)
    cb = b.get("capture_base", {})
    facts = cb_facts(cb)
    for k in b:
        if k not in ("v", "d", "capture_base", "overlays"):
            facts.append(["junk", "bundle", k])
    objs = [{"kind": "cb", "sub": "", "said": str(cb.get("d") or ""), "dig": dig.get("cb", ""), "cb": str(cb.get("d") or ""), "f": cb_facts(cb)}]
    digs = list(dig.get("ov", []))
    i = 0
    for key, x in b.get("overlays", {}).items():
        kind, many = key, isinstance(x, list)
        if key not in KINDS:
            # an overlay under a name that is not one of a kind
            facts.append(["junk", "overlays", key])
            kind = (x[0] if many else x)["type"].split("/")[2]
        if many != (kind in MANY):
            facts.append(["junk", kind, "list"])
        for o in (x if many else [x]):
            f = ov_facts(kind, o)
            facts += f
            objs.append({"kind": kind, "sub": ov_sub(kind, o), "said": str(o.get("d") or ""), "dig": digs[i]["dig"],
                         "cb": str(o.get("capture_base") or ""), "f": f})
            i += 1
    return {"bad": False, "said": str(b.get("d") or ""), "facts": facts, "objs": objs, "dig": dig.get("b", ""),
            "v": str(b.get("v") or ""), "len": dig.get("len", 0)}
