"""Writes the small command alphabets explored exhaustively by the models
(spec/alphabet_*.json).  Run by hand after changing them; the files are committed."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gens as g
import specform

S1 = g.SAIDS[0]
V, T, ov, meta = g.V, g.T, g.ov, g.meta


def content():
    lang = lambda l: [("lang", V(l))]
    sc = lambda *p: {"obj": [[t, {"obj": [["predicate_id", V(a)], ["framing_justification", V(b)]]}] for t, a, b in p]}
    return [
        g.add_attr([("a", T("Text"))]),
        g.add_attr([("b", T("Numeric", 1))]),
        g.add_attr([("a", T("Boolean")), ("b", T("Text"))]),
        g.rm_attr(["a"]),
        g.rm_attr(["b"]),
        g.cls("C1"), g.cls("C2"), g.rm_cls(),
        g.flag(["a"]), g.flag(["b", "a"]),
        meta("en", name="N1"), meta("en", name="N2", description="D"), meta("fr", name="N1"), meta("xx", name="N"),
        ov("Label", [("a", V("L1"))], lang("en")), ov("Label", [("a", V("L2")), ("b", V("L3"))], lang("en")), ov("Label", [("a", V("L1"))], lang("fr")),
        ov("Information", [("a", V("I1"))], lang("en")), ov("Information", [("a", V("I2")), ("b", V("I1"))], lang("en")),
        ov("CharacterEncoding", [("a", V("utf-8"))]), ov("CharacterEncoding", [("a", V("base64")), ("b", V("utf-8"))]), ov("CharacterEncoding", [("a", V("utf-7"))]),
        ov("Conformance", [("a", V("M"))]), ov("Conformance", [("a", V("O"))]),
        ov("Format", [("a", V("F1"))]), ov("Format", [("b", V("F2")), ("a", V("F2"))]),
        ov("Unit", [("a", V("kg"))]), ov("Unit", [("a", V("m")), ("b", V("kg"))]),
        ov("Cardinality", [("a", V("1"))]), ov("Cardinality", [("a", V("1-2"))]),
        ov("Conditional", [("a", V("${b} == 1"))]), ov("Conditional", [("a", V("${b} > 1 and ${a} < ${b}"))]),
        ov("EntryCode", [("a", V(S1))]), ov("EntryCode", [("a", {"arr": [V("o1"), V("o2")]})]),
        ov("EntryCode", [("a", {"obj": [["g1", {"arr": [V("o1")]}], ["g2", {"arr": [V("o2"), V("o1")]}]]})]),
        ov("Entry", [("a", V(S1))], lang("en")), ov("Entry", [("a", {"obj": [["o1", V("One")], ["o2", V("Two")]]})], lang("en")),
        ov("Entry", [("a", {"obj": [["o1", V("Uno")]]})], lang("en")), ov("Entry", [("a", {"obj": [["o1", V("Un")]]})], lang("fr")),
        ov("Link", [("a", V("x"))], [("target", {"ref": "s", "to": S1})]), ov("Link", [("a", V("y")), ("b", V("x"))], [("target", {"ref": "s", "to": S1})]),
        ov("Link", [("a", V("x"))], [("target", {"ref": "s", "to": g.SAIDS[1]})]),
        ov("AttributeFraming", [("a", sc(("u:1", "p1", "j1")))], [("id", V("F1")), ("label", V("l1"))]),
        ov("AttributeFraming", [("a", sc(("u:1", "p2", "j1"), ("u:2", "p1", "j2"))), ("b", sc(("u:1", "p1", "j1")))], [("id", V("F1")), ("version", V("1"))]),
        ov("AttributeFraming", [("a", sc(("u:1", "p1", "j1")))], [("id", V("F2"))]),
    ]


def store():
    """files: (commands, takes a base, name)"""
    lang = lambda l: [("lang", V(l))]
    A = g.add_attr([("a", T("Text"))])
    LA = ov("Label", [("a", V("L1"))], lang("en"))
    LB = ov("Label", [("a", V("L2"))], lang("en"))
    M = meta("en", name="Alpha")
    R = g.add_attr([("b", T("n1", 1, "n"))])
    LK = ov("Link", [("a", V("x"))], [("target", {"ref": "n", "to": "n1"})])
    return [
        ([A], False, "n1"), ([A], False, ""), ([A, LA], False, "n1"), ([M, A, LA], False, ""), ([A, M, LA], False, ""), ([A, LB, LA], False, ""),
        ([LA], True, ""), ([LA], True, "n1"), ([M], True, ""), ([R], True, ""), ([R], False, "n2"), ([A, LK], False, ""), ([LK], True, ""),
        ([A, g.rm_attr(["a"])], False, ""), ([g.rm_cls() if False else g.cls("C"), g.rm_cls()], False, "n1"), ([], True, "n2"),
        ([g.add_attr([("a", T("Text"))])], True, ""), ([R], False, "n1"), ([A, LK], False, "n1"),
    ]


def rule():
    """what the rule of a file looks at, and what it must not look at"""
    lang = lambda l: [("lang", V(l))]
    return [
        g.add_attr([("a", T("Text"))]), g.add_attr([("b", T("Numeric"))]), g.add_attr([("a", T("Boolean", 1)), ("b", T("Text"))]),
        g.rm_attr(["a"]), g.rm_attr(["b"]), g.rm_attr(["b", "a"]), g.cls("C1"), g.rm_cls(),
        ov("Label", [("a", V("L1"))], lang("en")), g.flag(["b"]), dict(ov("Label", [], lang("en")), k="remove"),
    ]


if __name__ == "__main__":
    root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
    for name, cmds in (("content", content()), ("rule", rule())):
        json.dump([specform.cmd(c) for c in cmds], open(os.path.join(root, "alphabet_%s.json" % name), "w"), indent=0)
        json.dump(cmds, open(os.path.join(root, "alphabet_%s_raw.json" % name), "w"), indent=0)
        print(name, len(cmds))
    fs = store()
    json.dump([{"cmds": [specform.cmd(c) for c in cs], "based": b, "name": n} for cs, b, n in fs], open(os.path.join(root, "alphabet_store.json"), "w"), indent=0)
    json.dump([{"cmds": cs, "based": b, "name": n} for cs, b, n in fs], open(os.path.join(root, "alphabet_store_raw.json"), "w"), indent=0)
    print("store", len(fs))
