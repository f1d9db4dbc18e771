#!/usr/bin/env python3
"""mutate.py worker SLOT NSLOTS LIST.jsonl OUT.jsonl SCRIPTS.jsonl   (run in a private mount, see mutants.sh)
mutate.py list SEED N FILE...  > LIST.jsonl
Small edits to single places of /repo: does any script see them, and do the checks say so?"""
import importlib, json, os, random, re, subprocess, sys, time, collections
R = "/verif"
sys.path.insert(0, R + "/lib")

RULES = [
    (r"(?<![=!<>])==(?!=)", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|(?! *\{)(?=\s*[^|])", ["&&"]),
    (r"(?<=\s)<(?=\s)", ["<="]), (r"(?<=\s)>(?=\s)", [">="]), (r"(?<=\s)<=(?=\s)", ["<"]), (r"(?<=\s)>=(?=\s)", [">"]),
    (r"\+ 1\b", ["+ 0", "+ 2"]), (r"- 1\b", ["- 0"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.is_empty\(\)", [".is_empty() == false"]),
    (r"\.is_ok\(\)", [".is_err()"]), (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
    (r"\bif (?!let)(?=[^{]*\{)", ["if !"]), (r"\.rev\(\)", [""]), (r"\.sort\(\);", [";"]), (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["continue;"]),
    (r"\.to_lowercase\(\)", [".to_string()"]), (r"\.trim\(\)", [""]), (r"\bunwrap_or\(0\)", ["unwrap_or(1)"]), (r"\.skip\(1\)", [".skip(0)"]),
    (r"\.contains_key\(", ["DROP"]), (r"LIMIT", ["DROP"]),
    (r"\* (?=\()", ["+ "]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\bSome\((\w+)\)(?=[;,)]?$)", ["None"]),
    (r"^\s+[\w\.&\*\(\)]+\.(push|insert|remove|extend|append|retain|clear|add_\w+|set_\w+|merge\w*|fill\w*|sort\w*|dedup\w*|save|calculate\w*|compute\w*)\([^;]*\)\??;$", [""]),
    (r"^\s+self\.\w+(\.\w+)? = [^;]*;$", [""]), (r"^\s+return [^;]*;$", [""]), (r"\.filter\([^()]*(\([^()]*\)[^()]*)*\)", [""]),
    (r'"([a-z_]{3,})"', ['"\\1x"']), (r"\.chain\([^()]*(\([^()]*\)[^()]*)*\)", [""]), (r"\.clone\(\)\.unwrap_or_default\(\)", ["DROP"]),
]


def sites(path):
    t = open(path).read()
    cut = t.find("#[cfg(test)]")
    body = t if cut < 0 else t[:cut]
    out = []
    pos = 0
    for ln, line in enumerate(body.split("\n"), 1):
        st = line.strip()
        if not st.startswith(("//", "#[", "use ", "pub use", "debug!", "info!", "println", "log::", "assert")):
            code = line.split("//")[0]
            for pat, reps in RULES:
                for m in re.finditer(pat, code):
                    for rep in reps:
                        if rep == "DROP":
                            continue
                        new = m.expand(rep) if "\\1" in rep else rep
                        out.append({"file": path, "line": ln, "at": pos + m.start(), "old": m.group(0), "new": new, "text": st})
        pos += len(line) + 1
    return out


def listing(seed, n, files):
    r = random.Random(seed)
    alls = []
    for f in files:
        alls += sites(f)
    r.shuffle(alls)
    for i, x in enumerate(alls[:n]):
        x["id"] = i
        print(json.dumps(x))
    print(len(alls), "sites", file=sys.stderr)


LOOSE = ("C06", "C16", "C10", "C08", "C18")     # printed text has no fixed order


def norm(o, loose=False):
    t = json.dumps(o, sort_keys=True)
    return "".join(sorted(re.sub(r"E[\w-]{43}", "", t))) if loose else t


def worker(slot, nslots, lst, outp, scripts_path):
    import common as c
    ns = {}
    exec([l for l in open(R + "/run.py").read().split("\n") if l.startswith("SUITES")][0], ns)
    suite_of = {p: s for s, ps in ns["SUITES"].items() for p in ps}
    td = "/tmp/mut/%d/target" % slot
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=td, CARGO_PROFILE_DEV_DEBUG="line-tables-only",
               CARGO_INCREMENTAL="1", RUSTFLAGS="--cfg oca_conform")
    allsc = [json.loads(l) for l in open(scripts_path)]
    allsc = [x for x in allsc if ("plan" in x["script"] or x["pid"] in ("C07", "C08", "C09", "C16", "C21", "C26")) and len(json.dumps(x["script"]["ops"])) < 200000]
    for x in allsc:
        x["run"] = {"id": x["pid"] + "/" + x["script"]["id"], "ops": x["script"]["ops"]}

    def mk():
        p = subprocess.run(["timeout", "300", "cargo", "build", "--offline", "--locked"], cwd=R + "/harness", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode == 0, p.stdout

    real_build, real_mc, real_val, real_run = c.build, c.model_check, c.validate, c.run_scripts
    c.build = lambda *a, **k: None
    c.model_check = lambda *a, **k: None

    def newctx(pid):
        ctx = c.Ctx(pid, 1, "quick")
        ctx.only = None
        ctx.harness = ctx.scratch + "/oca-conform"
        subprocess.check_call(["cp", td + "/debug/oca-conform", ctx.harness])
        return ctx

    def obs(xs):
        ctx = newctx("C01")
        try:
            rs = real_run(ctx, [x["run"] for x in xs], procs=3, timeout=900, optimeout=4)
        finally:
            ctx.close()
        return [[norm(o, x["pid"] in LOOSE) for o in r["obs"]] + [norm(b, x["pid"] in LOOSE) for b in r["bundles"]] + [r.get("dead", "")] for x, r in zip(xs, rs)]

    ok, log = mk()
    assert ok, log[-3000:]
    base = obs(allsc)
    loose = [set() for _ in base]
    for _ in range(2):
        o2 = obs(allsc)
        for i, (a, b) in enumerate(zip(base, o2)):
            if len(a) != len(b):
                loose[i].add(-1)
            for j in range(min(len(a), len(b))):
                if a[j] != b[j]:
                    loose[i].add(j)
    keep = [i for i in range(len(allsc)) if -1 not in loose[i] and base[i][-1] == ""]
    print("slot", slot, "scripts", len(allsc), "kept", len(keep), "loose", sum(1 for l in loose if l), flush=True)
    sc = [allsc[i] for i in keep]
    base = [base[i] for i in keep]
    loose = [loose[i] for i in keep]
    done = {json.loads(l)["key"] for l in open(outp)} if os.path.exists(outp) else set()
    out = open(outp, "a")
    for m in [json.loads(l) for l in open(lst)]:
        if m["id"] % nslots != slot:
            continue
        m["key"] = "%s:%s:%s:%s" % (m["file"], m["text"], m["old"], m["new"])
        if m["key"] in done:
            continue
        src = open(m["file"]).read()
        if src[m["at"]:m["at"] + len(m["old"])] != m["old"]:
            continue
        t0 = time.time()
        rec = dict(m)
        rec["ph"] = []
        try:
            open(m["file"], "w").write(src[:m["at"]] + m["new"] + src[m["at"] + len(m["old"]):])
            ok, log = mk()
            if not ok:
                rec["res"] = "nobuild"
            else:
                try:
                    rec["ph"].append(round(time.time() - t0))
                    got = obs(sc)
                    rec["ph"].append(round(time.time() - t0))
                except c.ToolError as e:
                    got = None
                    rec["ph"].append(-1)
                    rec["res"] = "tool:" + str(e)[:200]
                if got is not None:
                    diff = collections.defaultdict(list)
                    for x, a, b, l in zip(sc, base, got, loose):
                        if len(a) != len(b) or any(a[j] != b[j] and j not in l for j in range(len(a))):
                            j = next((j for j in range(min(len(a), len(b))) if a[j] != b[j] and j not in l), 0)
                            diff[x["pid"]].append((x, a[j][:300], b[j][:300], j))
                    rec["diff"] = {p: len(v) for p, v in diff.items()}
                    if not diff:
                        rec["res"] = "equal"
                    else:
                        rec["caught"] = []
                        rec["quiet"] = []
                        rec["ex"] = []
                        for pid, v in sorted(diff.items(), key=lambda kv: -len(kv[1])):
                            if len(rec["caught"]) >= 2:
                                break
                            ctx = newctx(pid)
                            said = []
                            c.report = lambda cx, classes, script, detail: said.append((sorted(classes), script.get("kf")))
                            try:
                                ctx.only = [json.loads(json.dumps(x[0]["script"])) for x in v[:10]]
                                importlib.import_module("suite_" + suite_of[pid]).run(ctx)
                            except Exception as e:
                                rec.setdefault("trouble", []).append(pid + ": " + repr(e)[:300])
                            finally:
                                ctx.close()
                            if said:
                                rec["caught"].append([pid, said[0][0]])
                            else:
                                rec["quiet"].append(pid)
                                x, a, b, j = v[0]
                                rec["ex"].append([pid, x["script"]["id"], json.dumps(x["run"]["ops"][j])[:400] if j < len(x["run"]["ops"]) else "", a, b])
                        rec["res"] = "caught" if rec["caught"] else "SURVIVED"
        finally:
            open(m["file"], "w").write(src)
        rec["t"] = round(time.time() - t0, 1)
        out.write(json.dumps(rec) + "\n")
        out.flush()


if sys.argv[1] == "list":
    listing(sys.argv[2], int(sys.argv[3]), sys.argv[4:])
else:
    worker(int(sys.argv[2]), int(sys.argv[3]), *sys.argv[4:7])
