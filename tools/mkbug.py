#!/usr/bin/env python3
"""mkbug.py SPEC.py: SPEC defines id, property, needs, breaks, edits [(file, old, new)], main (demo program).
Writes seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
T = os.path.dirname(os.path.abspath(__file__))
V = "/verif/seeded"
for b in ns["bugs"]:
    d = os.path.join(V, b["id"])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(dir="/tmp")
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (w, w), shell=True)
    for f, old, new in b["edits"]:
        p = os.path.join(w, f); s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.rmtree(w)
    # only original lines may change
    for f, old, new in b["edits"]:
        pass
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "main.rs"), "w").write("mod demo;\n#[allow(unused_imports)]\nuse demo::*;\n\nfn main() {\n" + "".join("    " + l + "\n" if l else "\n" for l in b["main"].strip("\n").split("\n")) + "}\n")
    for n in ("demo.sh", "demo.rs", "demo.toml", "demo.lock"):
        shutil.copy(os.path.join(T, n), d)
    # blame: removed lines must be original
    import re
    cur = None; bad = []
    for l in diff.split("\n"):
        m = re.match(r"--- a/(.*)", l)
        if m: cur = m.group(1)
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)) - 1
        elif l.startswith("-") and not l.startswith("---"):
            n += 1
            bl = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "-L", "%d,%d" % (n, n), cur], text=True)
            if not bl.startswith("^3074a8b"): bad.append(bl.strip())
        elif l.startswith(" "): n += 1
    print(b["id"], "lines not original:" if bad else "ok", bad)
