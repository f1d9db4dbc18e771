#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--replay FILE]: decides one property."""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common as c

SUITES = {"content": ["C01", "C02", "C03", "C04", "C05"], "store": ["C11", "C12", "C13", "C14", "C15", "C17", "C19", "C20"], "crash": ["C18"], "valid": ["C22", "C23", "C24"], "gen": ["C06"], "storage": ["C21"], "dag": ["C25"], "text": ["C07", "C08", "C09"], "transf": ["C26"], "model": ["C16"], "robust": ["C10"]}


def main():
    pid = sys.argv[1]
    a = sys.argv[2:]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    suite = [s for s, ps in SUITES.items() if pid in ps][0]
    ctx = c.Ctx(pid, seed, tier)
    ctx.only = None
    if "--replay" in a:
        s = json.load(open(a[a.index("--replay") + 1]))["script"]
        ctx.only = s.get("scripts") or [s]
    try:
        c.build(ctx, hooks=suite == "crash")
        ctx.stats["build_s"] = round(c.time.time() - ctx.t0, 1)
        level = importlib.import_module("suite_" + suite).run(ctx)
        c.evidence(ctx, level)
        return c.finish(ctx)
    except c.ToolError as e:
        print("ERROR", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


sys.exit(main())
