"""Seeded generators of abstract commands (richer values than the exhaustive
models use).  They know the alphabet of the specification, not its answers."""
import random

ATTRS = ["a", "b", "c", "d-1", "e_2", "f.x", "A", "D-1"]
LANGS = ["en", "fr", "de", "pl"]
BADLANGS = ["xx", "zz", "en-US", "fr-FR", "EN"]
TYPES = ["Text", "Numeric", "Boolean", "Binary", "DateTime"]
ENCS = ["utf-8", "utf-16", "utf-16be", "utf-16le", "iso-8859-1", "base64"]
BADENCS = ["utf-7", "UTF-8", "ascii", " utf-8", "utf-16 ", "utf8", "utf-16-be", "iso-8859-15", "", "Base64", "base64\\n"]
VALS = ["x", "Alpha beta", "it's", "a=b", "1", "", "zażółć", "日本", "x,y;z", "ADD ATTRIBUTE q=Text", "# no comment",
        "a\\nb", "tab\\t", 'quoted \\" q', "null", "refs", "{}", "[1]", "Long text with several words in it", "-- name=x",
        " lead", "trail ", "/:._-", "M", "O"]
UNITS = ["kg", "m/s", "cm2", "%", "°C", "mg/dl"]
SAIDS = ["EKbH1V2gMbBTiNCE6SGTMd1wOjvpmIL-9vg1xzXfIcJe", "ENrf7niTCnz7HD-Ci88rlxHlxkpQ2NIZNNv08fQnXANI",
         "EHx8Gjzpyfs6tqSJcDyBKpbdxrSpgXuTWMOjnkPgSGvc"]
OVER = ["Label", "Information", "CharacterEncoding", "Conformance", "Format", "Unit", "Cardinality", "Conditional",
        "EntryCode", "Entry", "Link", "AttributeFraming", "Meta"]


def add_attr(types):
    return {"k": "add", "o": "CaptureBase", "types": [[a, t] for a, t in types], "attrs": [], "props": [], "flagged": []}


def T(v="Text", d=0, k="v"):
    return {"d": d, "k": k, "v": v}


def cls(v):
    return {"k": "add", "o": "CaptureBase", "types": [], "attrs": [], "props": [["classification", {"val": v}]], "flagged": []}


def rm_attr(names):
    return {"k": "remove", "o": "CaptureBase", "types": [[a, {"d": 0, "k": "null", "v": ""}] for a in names], "attrs": [], "props": [], "flagged": []}


def rm_cls():
    return {"k": "remove", "o": "CaptureBase", "types": [], "attrs": [], "props": [["classification", {"val": ""}]], "flagged": []}


def flag(names):
    return {"k": "add", "o": "CaptureBase", "types": [], "attrs": [], "props": [], "flagged": list(names)}


def frm(said):
    return {"k": "from", "o": "OCABundle", "types": [], "attrs": [], "props": [["said", {"ref": "s", "to": said}]], "flagged": []}


def ov(o, attrs=(), props=(), k="add"):
    return {"k": k, "o": o, "types": [], "attrs": [[a, v] for a, v in attrs], "props": [[n, v] for n, v in props], "flagged": []}


def V(s):
    return {"val": s}


def meta(lang, **kw):
    return ov("Meta", (), [("lang", V(lang))] + [(k, V(v)) for k, v in kw.items()])


def other(r, v):
    """a value of the same kind, different if that is easy"""
    if "val" in v:
        return v
    if "arr" in v:
        a = list(v["arr"])
        return {"arr": a[1:] if a and r.random() < 0.5 else a + [V("o4")]}
    return {"obj": [[k, (V(x["val"] + "2") if "val" in x and r.random() < 0.5 else other(r, x)) if not x.get("obj") or r.random() < 0.5 else x] for k, x in v["obj"]]}


def said_of(i):
    import base64
    import hashlib
    return "E" + base64.urlsafe_b64encode(b"\0" + hashlib.sha256(str(i).encode()).digest()).decode()[1:]


EMOJI = ["🙂", "𝒳", "é", "e\u0301", "ß", "İ", "漢", "ñ", "Ω", "\u200b"]
MANY = ["en", "fr", "de", "pl", "es", "it", "pt", "nl", "sv", "da", "fi", "cs", "sk", "hu", "ro", "bg", "el", "tr", "ja", "ko", "zh", "ar", "he", "hi"]


def scale(r, kind=None, langs=MANY, big=False):
    """commands that state many of something, or (big) very many of a few things"""
    if big:
        return very_many(r, kind)
    kind = kind or r.choice(["wide", "conds", "langs", "links", "frames", "codes", "long", "arrays", "metas", "restate"])
    n = r.choice([11, 12, 13, 17, 26, 40])
    names = ["w%d" % i for i in range(n)]
    r.shuffle(names)
    if r.random() < 0.3:
        names[0] = "n" * 70 + "_1"
    types = [(a, T(r.choice(TYPES), r.choice([0, 0, 0, 1]))) for a in names]
    cut = r.choice([n, n // 2, 3])
    cmds = [add_attr(types[:cut])] + ([add_attr(types[cut:])] if types[cut:] else [])
    half = r.sample(names, n // 2)
    en = [("lang", V("en"))]
    if kind == "wide":
        for o, v in r.sample([("Label", "l"), ("Information", "i"), ("Format", "f"), ("Cardinality", "1"), ("Conformance", "M"), ("Unit", "kg"), ("CharacterEncoding", "utf-8")], 4):
            cmds.append(ov(o, [(a, V(v)) for a in r.sample(names, r.choice([n, n // 2]))], en if o in ("Label", "Information") else []))
        cmds.append(flag(half))
        cmds.append(rm_attr(r.sample(names, n // 3)))
    elif kind == "conds":
        for a in r.sample(names, 2):
            refs = [x for x in names if x != a]
            ks = [r.choice(refs) for _ in range(r.choice([5, 15, 30]))] + refs[: r.choice([0, 10, 25])]
            r.shuffle(ks)
            cmds.append(ov("Conditional", [(a, V((" and " if r.random() < 0.8 else " or ").join("${%s} %s %d" % (x, r.choice(["==", ">", "<"]), r.randint(0, 20)) for x in ks)))]))
    elif kind == "langs":
        ls = r.sample(list(langs), min(len(langs), r.choice([11, 15, 24])))
        for l in ls:
            o = r.choice(["Label", "Information", "Entry", "Meta"])
            at = r.sample(names, r.choice([1, 2, 12 if n > 12 else 3]))
            if o == "Meta":
                cmds.append(meta(l, name="n " + l, description="d"))
            else:
                cmds.append(ov(o, [(a, {"obj": [["o1", V("e " + l)]]} if o == "Entry" else V("v " + l)) for a in at], [("lang", V(l))]))
        for l in ls:
            if r.random() < 0.5:
                cmds.append(ov("Label", [(names[1], V("again " + l))], [("lang", V(l))]))
    elif kind == "links":
        ts = [said_of(i) for i in range(r.choice([5, 11, 14]))]
        for t in ts + r.sample(ts, 2):
            cmds.append(ov("Link", [(a, V("m" + a)) for a in r.sample(names, r.choice([1, 2, 5]))], [("target", {"ref": "s", "to": t})]))
    elif kind == "frames":
        for i in list(range(r.choice([5, 11, 13]))) + [1, 2]:
            at = [(a, {"obj": [["http://t/%d" % j, {"obj": [["predicate_id", V("p%d" % j)], ["framing_justification", V("semapv:A")]]}] for j in r.sample(range(20), r.choice([1, 3, 12]))]})
                  for a in r.sample(names, r.choice([1, 2, 3]))]
            cmds.append(ov("AttributeFraming", at, [("id", V("frame%d" % i)), ("label", V("x %d" % i)), ("version", V("%d.0" % i))]))
    elif kind == "codes":
        big = ["c%d" % i for i in range(r.choice([11, 25]))]
        r.shuffle(big)
        cmds.append(ov("EntryCode", [(names[0], {"arr": [V(x) for x in big]}), (names[1], {"obj": [["g%d" % g, {"arr": [V(x) for x in r.sample(big, r.choice([0, 1, 11]))]}] for g in range(12)]})]))
        for l in ("en", "fr", "en"):
            cmds.append(ov("Entry", [(a, {"obj": [[x, V(l + x)] for x in r.sample(big, len(big) - 1)]}) for a in names[:2]], [("lang", V(l))]))
    elif kind == "long":
        for o in ("Label", "Information", "Format"):
            cmds.append(ov(o, [(a, V("".join(r.choice(EMOJI + ["x", "y ", "abc"]) for _ in range(r.choice([1, 90, 300, 2000]))))) for a in names[:3]], en if o != "Format" else []))
        cmds.append(meta("en", name="".join(r.choice(EMOJI + ["w "]) for _ in range(300)), description="d" * 5000))
        cmds.append(cls("c" * 300))
    elif kind == "arrays":
        cmds.append(add_attr([("deep%d" % d, T(r.choice(TYPES), d)) for d in (2, 3, 4, 7, r.choice([12, 40, 100]))] + [("deepref", T(said_of(7), 6, "s"))]))
    elif kind == "metas":
        for l in r.sample(list(langs), 4) * 2:
            cmds.append(meta(l, **{"k%d" % i: "v%d" % r.randint(0, 9) for i in r.sample(range(30), 14)}))
    else:
        G = Gen(r, attrs=names, names=())
        G.have = set(names)
        for _ in range(4):
            G.past.append(G.overlay())
        cmds += G.past + [G.restated() for _ in range(8)]
        if r.random() < 0.4:
            gone = r.sample(names, 3)
            cmds += [rm_attr(gone), add_attr([(a, T("Boolean")) for a in gone])]
    return cmds


VERY = ["attrs", "one", "cmds", "links", "frames", "codes", "entries", "long", "metas", "name", "restated"]


def very_many(r, kind=None, longest=66000):
    """more than 64, 100, 128, 255, 256 or 300 of something, or values of more than 16 and 64 KB"""
    kind = kind or r.choice(VERY)
    n = r.choice([65, 101, 130, 258, 301])
    names = ["w%d" % i for i in range(n)]
    r.shuffle(names)
    en = [("lang", V("en"))]
    few = [add_attr([(a, T(r.choice(TYPES))) for a in names[:3]])]
    if kind == "attrs":
        o = r.choice(["Label", "Format", "Cardinality", "Conformance", "Unit", "CharacterEncoding"])
        v = {"Cardinality": "1", "Conformance": "M", "Unit": "kg", "CharacterEncoding": "utf-8"}.get(o, "x")
        return [add_attr([(a, T(r.choice(TYPES))) for a in names]), ov(o, [(a, V(v)) for a in r.sample(names, n - 1)], en if o == "Label" else []), flag(r.sample(names, n - 2))]
    if kind == "one":
        # an ADD command each
        return [add_attr([(a, T(r.choice(TYPES)))]) for a in names] + [rm_attr(names[:3])]
    if kind == "cmds":
        G = Gen(r, attrs=names[:8], names=())
        return [add_attr([(a, T(r.choice(TYPES))) for a in names[:8]])] + [ov("Label", [(r.choice(names[:8]), V("v%d" % i))], en) for i in range(n)]
    if kind == "links":
        return few + [ov("Link", [(names[0], V("m%d" % i))], [("target", {"ref": "s", "to": said_of(i)})]) for i in range(min(n, 70))]
    if kind == "frames":
        return few + [ov("AttributeFraming", [(names[0], {"obj": [["http://t/%d" % i, {"obj": [["predicate_id", V("p")], ["framing_justification", V("semapv:A")]]}]]})], [("id", V("frame%d" % i))]) for i in range(min(n, 70))]
    if kind == "codes":
        cs = ["c%d" % i for i in range(n)]
        r.shuffle(cs)
        return few + [ov("EntryCode", [(names[0], {"arr": [V(x) for x in cs]}), (names[1], {"obj": [["g%d" % i, {"arr": [V("x%d" % i)]}] for i in range(n)]})])]
    if kind == "entries":
        return few + [ov("Entry", [(names[0], {"obj": [["c%d" % i, V("e%d" % i)] for i in r.sample(range(n), n)]})], en)]
    if kind == "long":
        k = r.choice([4100, 17000, longest])
        return few + [ov("Label", [(names[0], V("é x" * (k // 3) + "end"))], en), meta("en", name="n", description="y " * (k // 2) + "z")]
    if kind == "metas":
        return few + [meta("en", **{"k%d" % i: "v%d" % i for i in range(n)})]
    if kind == "name":
        long = "n" * r.choice([129, 260, 1100])
        return [add_attr([(long + "a", T()), (long + "b", T("Numeric"))]), ov("Label", [(long + "b", V("x"))], en), flag([long + "a"])]
    G = Gen(r, attrs=names[:12], names=())
    cmds = [add_attr([(a, T(r.choice(TYPES))) for a in names[:12]])]
    G.have = set(names[:12])
    for _ in range(n // 2):
        x = G.overlay()
        cmds.append(x)
        G.past.append(x)
    return cmds + [G.restated() for _ in range(20)]


class Gen:
    def __init__(self, rng, attrs=ATTRS, langs=LANGS, vals=VALS, saids=SAIDS, names=(), bad=0.0, kinds=OVER, depth=3):
        self.r, self.attrs, self.langs, self.vals = rng, list(attrs), list(langs), list(vals)
        self.saids, self.names, self.bad, self.kinds, self.depth = list(saids), list(names), bad, list(kinds), depth
        self.have = set()
        self.clsf = False
        self.retype = set()     # attributes of the base this file may give another type
        self.past = []

    def v(self):
        return self.r.choice(self.vals)

    def lang(self):
        if self.r.random() < self.bad:
            return self.r.choice(BADLANGS)
        return self.r.choice(self.langs)

    def pick(self, n=None):
        have = sorted(self.have)
        if self.r.random() < self.bad or not have:
            pool = self.attrs
        else:
            pool = have
        n = n or self.r.choice([1, 1, 1, 2, 2, 3])
        n = min(n, len(pool))
        return self.r.sample(pool, n)

    def type(self):
        d = self.r.choice([0, 0, 0, 0, 1, 1, 2, 3][: 4 + self.depth + 1])
        c = self.r.random()
        if c < 0.15 and self.saids:
            return T(self.r.choice(self.saids), d, "s")
        if c < 0.3 and self.names:
            return T(self.r.choice(self.names), d, "n")
        return T(self.r.choice(TYPES), d)

    def add_attribute(self):
        new = [a for a in self.attrs if a not in self.have or a in self.retype]
        if self.r.random() < self.bad * 0.5:
            new = self.attrs
        elif not new:
            return self.overlay()
        names = self.r.sample(new, min(len(new), self.r.choice([1, 1, 2, 3])))
        self.have |= set(names)
        self.retype -= set(names)
        return add_attr([(a, self.type()) for a in names])

    def condition(self, own):
        refs = [a for a in sorted(self.have) if a != own] or [own]
        parts = []
        for _ in range(self.r.choice([1, 2, 2, 3])):
            parts.append("${%s} %s %s" % (self.r.choice(refs), self.r.choice(["==", ">", "<", "~="]), self.r.choice(["1", "2", "${%s}" % self.r.choice(refs)])))
        return self.r.choice([" and ", " or "]).join(parts)

    def overlay(self):
        o = self.r.choice(self.kinds)
        r = self.r
        if o == "Meta":
            ks = r.sample(["name", "description", "note", "x-y", "Name2", "Note"], r.choice([1, 1, 2, 3]))
            return ov("Meta", (), [("lang", V(self.lang()))] + [(k, V(self.v())) for k in ks])
        names = self.pick()
        props = []
        if o in ("Label", "Information", "Entry"):
            props = [("lang", V(self.lang()))]
        if o in ("Label", "Information", "Format", "Cardinality", "Conformance"):
            at = [(a, V(self.v())) for a in names]
        elif o == "CharacterEncoding":
            at = [(a, V(r.choice(BADENCS) if r.random() < self.bad else r.choice(ENCS))) for a in names]
        elif o == "Unit":
            at = [(a, V(r.choice(UNITS + self.vals))) for a in names]
        elif o == "Conditional":
            at = [(a, V(self.condition(a))) for a in names]
        elif o == "EntryCode":
            at = []
            for a in names:
                c = r.random()
                if c < 0.25:
                    at.append((a, V(r.choice(self.saids))))
                elif c < 0.7:
                    at.append((a, {"arr": [V(x) for x in r.sample(["o1", "o2", "o3", "z", "B", "b", "O1", "o10", "ą", "o1"], r.choice([0, 1, 2, 3]))]}))
                else:
                    at.append((a, {"obj": [[g, {"arr": [V(x) for x in r.sample(["o1", "o2", "o3"], r.choice([0, 1, 2]))]}]
                                           for g in r.sample(["g1", "g2", "A", "a", "b"], r.choice([1, 2, 3]))]}))
        elif o == "Entry":
            at = []
            for a in names:
                if r.random() < 0.25:
                    at.append((a, V(r.choice(self.saids))))
                else:
                    at.append((a, {"obj": [[k, V(self.v())] for k in r.sample(["o1", "o2", "o3", "O1", "Z z"], r.choice([0, 1, 2, 3]))]}))
        elif o == "Link":
            t = {"ref": "n", "to": r.choice(self.names)} if self.names and r.random() < 0.4 else {"ref": "s", "to": r.choice(self.saids)}
            props = [("target", t)]
            at = [(a, V(r.choice(["x", "y", "z1", self.v()]))) for a in names]
        else:
            ps = r.sample(["label", "version", "location"], r.choice([0, 1, 2, 3]))
            props = [("id", V(r.choice(["F1", "F2"])))] + [(p, V(r.choice(["p", "q 1", "http://x.y/z"]))) for p in ps]
            r.shuffle(props)
            at = []
            for a in names:
                sc = []
                for t in r.sample(["http://t/1", "http://t/2", "u:3"], r.choice([1, 1, 2])):
                    sc.append([t, {"obj": [["predicate_id", V(r.choice(["skos:exactMatch", "skos:narrowMatch"]))],
                                           ["framing_justification", V(r.choice(["semapv:A", "semapv:B"]))]]}])
                at.append((a, {"obj": sc}))
        return ov(o, at, props)

    def removal(self):
        if self.clsf and self.r.random() < 0.4:
            self.clsf = False
            return rm_cls()
        have = sorted(self.have)
        if not have:
            return self.add_attribute()
        names = self.r.sample(have, min(len(have), self.r.choice([1, 1, 2])))
        self.have -= set(names)
        self.retype -= set(names)
        return rm_attr(names)

    def restated(self):
        """an overlay command given before, once more: in part, or with other values"""
        o = dict(self.r.choice(self.past))
        o["attrs"] = [x for x in o["attrs"] if x[0] in self.have and self.r.random() < 0.8]
        if o["attrs"] and self.r.random() < 0.7:
            o["attrs"] = [[a, other(self.r, v)] for a, v in o["attrs"]]
        if o["o"] == "Meta":
            o["props"] = [p if p[0] == "lang" or self.r.random() < 0.4 else [p[0], V(self.v())] for p in o["props"]]
        elif not o["attrs"]:
            return self.overlay()
        return o

    def cmd(self):
        x = self.cmd1()
        if x["k"] == "add" and x["o"] != "CaptureBase":
            self.past.append(x)
        return x

    def cmd1(self):
        c = self.r.random()
        if self.past and c > 0.93:
            return self.restated()
        if not self.have or c < 0.2:
            return self.add_attribute()
        if c < 0.27:
            self.clsf = True
            return cls(self.r.choice(["GICS:1010", "x", "a/b", "C_1"]))
        if c < 0.38:
            return self.removal()
        if c < 0.44:
            return flag(self.pick())
        return self.overlay()

    def cmds(self, n):
        return [self.cmd() for _ in range(n)]
