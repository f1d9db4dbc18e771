"""Concrete syntax: renders abstract commands (the records the specification
works on) as OCAFILE text in a chosen layout.  The rendering is checked against
spec/OcaText.tla by the text suite; nothing of the library is used here."""
import random
import string

BARE = set(string.ascii_letters + string.digits + ".-_/:")
KW = {"Label": "LABEL", "Information": "INFORMATION", "CharacterEncoding": "CHARACTER_ENCODING",
      "Format": "FORMAT", "Conformance": "CONFORMANCE", "Unit": "UNIT", "Cardinality": "CARDINALITY",
      "Conditional": "CONDITION", "EntryCode": "ENTRY_CODE", "Entry": "ENTRY", "Link": "LINK",
      "AttributeFraming": "ATTR_FRAMING", "Meta": "META"}


class Layout:
    """plain layout: one command a line, double quotes, upper-case keywords"""

    def kw(self, w):
        return w

    def sp(self):
        return " "

    def eq(self):
        return "="

    def eqx(self):
        """'=' where the grammar allows no space around it"""
        return "="

    def q(self, v, bare_ok=True):
        if '"' in v.replace('\\"', ""):
            return "'" + v + "'"
        return '"' + v + '"'

    def comma(self):
        return ", "

    def colon(self):
        return ": "

    def before(self):
        return []

    def eol(self):
        return "\n"

    def tail(self):
        return ""


class RandomLayout(Layout):
    def __init__(self, rng, cont=True, case=True, comments=True, quotes=True, crlf=False):
        self.r, self.cont, self.case, self.comments, self.quotes, self.crlf = rng, cont, case, comments, quotes, crlf

    def kw(self, w):
        if not self.case:
            return w
        c = self.r.random()
        if c < 0.5:
            return w
        if c < 0.75:
            return w.lower()
        return "".join(self.r.choice([x.lower(), x.upper()]) for x in w)

    def _cont(self):
        s = self.r.choice(["", " "]) + "\\" + self.r.choice(["", " "]) + "\n"
        while self.r.random() < 0.3:
            s += self.r.choice(["# note = \"x\"\n", "\n", "  # y\n", "  \n"])
        return s + self.r.choice(["", " ", "    "])

    def sp(self):
        c = self.r.random()
        if c < 0.6:
            return " "
        if c < 0.75:
            return self.r.choice(["  ", "\t", " \t "])
        if self.cont and c < 0.85:
            return " " + self._cont()
        return " "

    def eq(self):
        c = self.r.random()
        if c < 0.7:
            return "="
        return self.r.choice([" = ", "= ", " =", "\t=\t"])

    def q(self, v, bare_ok=True):
        opts = []
        if '"' not in v.replace('\\"', ""):
            opts.append('"' + v + '"')
        if "'" not in v.replace("\\'", ""):
            opts.append("'" + v + "'")
        if bare_ok and v and set(v) <= BARE:
            opts.append(v)
        if not self.quotes:
            return opts[0]
        return self.r.choice(opts)

    def comma(self):
        return self.r.choice([",", ", ", ",  "])

    def colon(self):
        return self.r.choice([":", ": ", ":  "])

    def before(self):
        out = []
        if not self.comments:
            return out
        while self.r.random() < 0.25:
            out.append(self.r.choice(["", "# a comment", "  # ADD ATTRIBUTE zz=Text", "   ", "#", "\t"]))
        return out

    def tail(self):
        return ""


def type_str(t):
    s = {"v": "", "s": "refs:", "n": "refn:"}[t["k"]] + t["v"]
    return "Array[" * t["d"] + s + "]" * t["d"]


def ref_str(r):
    return ("refs:" if r["ref"] == "s" else "refn:") + r["to"]


def props_of(c):
    return {k: v for k, v in c["props"]}


def val(L, v, ctx):
    if "val" in v:
        return L.q(v["val"], bare_ok=True)
    if "arr" in v:
        return "[" + join(L, [L.q(x["val"], False) for x in v["arr"]]) + "]"
    if ctx == "entry":
        return "{" + join(L, [L.q(k, False) + ":" + L.colon()[1:] + L.q(x["val"], False) for k, x in v["obj"]]) + "}"
    if ctx == "framing":
        return "{" + ", ".join(L.q(k, False) + ": " + "{" + ", ".join(L.q(k2, False) + ": " + L.q(x2["val"], False)
                               for k2, x2 in x["obj"]) + "}" for k, x in v["obj"]) + "}"
    return "{" + join(L, [L.q(k, False) + ":" + L.colon()[1:] + val(L, x, "list") for k, x in v["obj"]]) + "}"


def join(L, xs):
    out = ""
    for i, x in enumerate(xs):
        out += (L.comma() if i else "") + x
    return out


def command(c, L):
    """text of one abstract command (without the line end)"""
    k, o = c["k"], c["o"]
    P = props_of(c)
    if k == "from":
        return L.kw("FROM") + " " + P["said"]["to"]
    if k == "remove":
        s = L.kw("REMOVE") + " "
        if o == "CaptureBase":
            if c["types"]:
                return s + L.kw("ATTRIBUTE") + "".join(L.sp() + a for a, _ in c["types"])
            return s + L.kw("CLASSIFICATION")
        if o == "Meta":
            return s + L.kw("META") + L.sp() + P["lang"]["val"]
        if o == "Label":
            return s + L.kw("LABEL") + L.sp() + P["lang"]["val"]
    elif k == "modify":
        return L.kw("MODIFY") + "x"
    else:
        s = L.kw("ADD") + L.sp()
        if o == "CaptureBase":
            if c["types"]:
                return s + L.kw("ATTRIBUTE") + "".join(L.sp() + a + L.eq() + type_str(t) for a, t in c["types"])
            if c["flagged"]:
                return s + L.kw("FLAGGED_ATTRIBUTES") + "".join(L.sp() + a for a in c["flagged"])
            return s + L.kw("CLASSIFICATION") + L.sp() + L.q(P["classification"]["val"])
    s += L.kw(KW[o])
    if "lang" in P:
        s += L.sp() + P["lang"]["val"]
    if o == "Meta":
        s += L.sp() + L.kw("PROPS")
        return s + "".join(L.sp() + n + L.eq() + L.q(v["val"]) for n, v in c["props"] if n != "lang")
    if o == "Link":
        s += L.sp() + ref_str(P["target"])
    if o == "AttributeFraming":
        s += "".join(L.sp() + n + L.eq() + L.q(v["val"]) for n, v in c["props"])
    if o == "CharacterEncoding" and c["props"]:
        s += L.sp() + L.kw("PROPS")
        return s + "".join(L.sp() + n + L.eq() + L.q(v["val"]) for n, v in c["props"])
    s += L.sp() + L.kw("ATTRS")
    ctx = {"Entry": "entry", "AttributeFraming": "framing"}.get(o, "list")
    for a, v in c["attrs"]:
        eq = L.eqx() if o in ("Entry", "EntryCode") else L.eq()
        s += L.sp() + a + eq + val(L, v, ctx)
    return s


def render(cmds, meta=(), L=None):
    """-> (text, [[line number, first line of the command], ..])"""
    L = L or Layout()
    lines = []
    for k, v in meta:
        lines.append("-- %s=%s" % (k, L.q(v)))
    where = []
    text = "".join(x + "\n" for x in lines)
    n = len(lines) + 1
    for i, c in enumerate(cmds):
        for b in L.before():
            text += b + "\n"
            n += 1
        t = command(c, L)
        where.append([n, t.split("\n")[0].strip()])
        last = i == len(cmds) - 1
        t += L.eol() if not last or not getattr(L, "noeol", False) else ""
        text += t
        n += t.count("\n")
    return text, where
