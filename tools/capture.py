#!/usr/bin/env python3
"""capture.py OUT.jsonl [N]: the scripts every check runs, at most N of each (for mutate.py)"""
import importlib, json, os, random, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/lib")
import common as c
src = open(R + "/run.py").read()
ns = {}
exec([l for l in src.split("\n") if l.startswith("SUITES")][0], ns)
real = c.run_scripts
got = []
c.validate = lambda *a, **k: []
c.model_check = lambda *a, **k: None
c.report = lambda *a, **k: None
N = int(sys.argv[2]) if len(sys.argv) > 2 else 120
with open(sys.argv[1], "w") as f:
    for suite, pids in ns["SUITES"].items():
        m = importlib.import_module("suite_" + suite)
        for pid in pids:
            ctx = c.Ctx(pid, 1, "quick"); ctx.only = None
            c.build(ctx, hooks=True)
            got = []
            def rec(cx, scripts, *a, **k):
                got.extend(scripts)
                return real(cx, scripts, *a, **k)
            c.run_scripts = rec
            try:
                m.run(ctx)
            except Exception as e:
                print(pid, "stopped:", repr(e)[:200])
            rnd = random.Random(pid)
            n0 = len(got)
            by = {s["id"]: s for s in got}   # the last of a name: with what a first run showed
            xs = list(by.values())
            rnd.shuffle(xs)
            xs = xs[:N]
            for s in xs:
                f.write(json.dumps({"pid": pid, "script": s}) + "\n")
            print(pid, n0, len(xs), flush=True)
            ctx.close()
