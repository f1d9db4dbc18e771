"""Abstract command -> the record shape read by the TLA+ modules."""
import re


def toks(text):
    out, i = [], 0
    for m in re.finditer(r"\$\{([^}]*)\}", text):
        if m.start() > i:
            out.append(["t", text[i:m.start()]])
        out.append(["r", m.group(1)])
        i = m.end()
    if i < len(text):
        out.append(["t", text[i:]])
    return out


def cmd(c):
    P = {k: v for k, v in c["props"]}
    lang = P.get("lang", {}).get("val", "") if c["o"] in ("Meta", "Label", "Information", "Entry") else ""
    tgt = P.get("target") if c["o"] == "Link" else None
    r = {"k": c["k"], "o": c["o"], "lang": lang,
         "types": [[a, str(t["d"]), t["k"], t["v"]] for a, t in c["types"]],
         "flagged": list(c["flagged"]),
         "tr": tgt["ref"] if tgt else "", "tgt": tgt["to"] if tgt else "",
         "frame": P["id"]["val"] if c["o"] == "AttributeFraming" and "id" in P else "",
         "props": [[k, v["val"]] for k, v in c["props"] if "val" in v and not (k == "lang" and c["o"] in ("Meta", "Label", "Information", "Entry") or k == "id" and c["o"] == "AttributeFraming")]
         if c["o"] != "EntryCode" else [],
         "said": P["said"]["to"] if c["k"] == "from" else "",
         "attrs": []}
    for a, v in c["attrs"]:
        x = {"a": a, "t": "other", "v": "", "toks": [], "codes": [], "groups": [], "entries": [], "scopes": []}
        if "val" in v:
            x["t"], x["v"] = "val", v["val"]
            if c["o"] == "Conditional":
                x["toks"] = toks(v["val"])
        elif "arr" in v:
            x["t"], x["codes"] = "arr", [y.get("val", "") for y in v["arr"]]
        elif "obj" in v and c["o"] == "EntryCode":
            x["t"] = "grp"
            x["groups"] = [[g, [z.get("val", "") for z in y.get("arr", [])]] for g, y in v["obj"]]
        elif "obj" in v and c["o"] == "Entry":
            x["t"] = "ent"
            x["entries"] = [[k, y.get("val", "")] for k, y in v["obj"]]
        elif "obj" in v:
            x["t"] = "scopes"
            x["scopes"] = [[k, [[k2, y2.get("val", "")] for k2, y2 in y.get("obj", [])]] for k, y in v["obj"]]
        r["attrs"].append(x)
    return r
