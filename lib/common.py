"""Runner plumbing: builds the harness from the working tree, runs scripts in
it, hands the recorded traces to TLC and collects what the specification says."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
OURS = ["oca-rs", "oca-ast-semantics", "oca-bundle-semantics", "oca-file-semantics", "oca-dag-semantics", "oca-file",
        "oca-ast-transformation", "oca-file-transformation", "transformation-file", "oca-conform"]


class ToolError(Exception):
    pass


class Ctx:
    def __init__(self, pid, seed, tier):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.rng = random.Random("%s/%s" % (pid, seed))
        self.scratch = tempfile.mkdtemp(prefix="ocav_")
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.notes = []
        self.harness = None
        self.lock = threading.Lock()
        self.stats = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def left(self):
        """seconds left of the time this tier may take"""
        budget = float(os.environ.get("VERIF_BUDGET", "1500" if self.thorough else "150"))
        return budget - (time.time() - self.t0)

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


# ------------------------------------------------------------------ building
def repo_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target", "node_modules"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".pest", ".lock")):
                p = os.path.join(base, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def build(ctx, hooks=False):
    td = os.environ.get("VERIF_TARGET")
    if not td:
        td = os.path.join(REPO, "target") if os.path.isdir(os.path.join(REPO, "target/debug/deps")) else os.path.join(ROOT, ".build")
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=td,
               CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
               HOME="/root", CARGO_HOME="/root/.cargo")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTFLAGS", "RUST_LOG", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    if hooks:
        env["RUSTFLAGS"] = "--cfg oca_conform"
    os.makedirs(td, exist_ok=True)
    stamp = os.path.join(td, ".ocav_stamp")
    want = repo_hash()
    lock = os.path.join(td, ".ocav_lock")
    import fcntl
    with open(lock, "w") as lf:
        fcntl.flock(lf, fcntl.LOCK_EX)
        have = open(stamp).read() if os.path.exists(stamp) else ""
        hd = os.path.join(ROOT, "harness")
        if have != want:
            # copied trees can carry old modification times: never trust them
            args = ["cargo", "clean", "--offline"]
            for d in OURS:
                args += ["-p", d]
            subprocess.run(args, cwd=hd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=hd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("harness does not build:\n" + r.stdout[-4000:])
        with open(stamp, "w") as f:
            f.write(want)
        src = os.path.join(td, "debug/oca-conform")
        ctx.harness = os.path.join(ctx.scratch, "oca-conform")
        shutil.copy2(src, ctx.harness)


# ------------------------------------------------------------------- harness
def _shard_run(ctx, scripts, timeout, optimeout):
    """-> list of results in order; a script that killed or hung the process
    gets {"dead": "abort"|"hang"}"""
    out = {}
    pend = list(scripts)
    env = dict(os.environ, CONFORM_SCRATCH=ctx.scratch, OP_TIMEOUT=str(optimeout), RUST_BACKTRACE="0")
    t0 = time.time()
    while pend:
        data = "".join(json.dumps({"id": s["id"], "ops": s["ops"]}) + "\n" for s in pend)
        try:
            p = subprocess.run([ctx.harness], input=data.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                               timeout=max(10, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            raise ToolError("harness timed out")
        done = 0
        hang = False
        for line in p.stdout.decode("utf-8", "replace").split("\n"):
            if not line.strip():
                continue
            r = json.loads(line)
            if "hang" in r:
                hang = True
                out[r["hang"]["id"]] = {"id": r["hang"]["id"], "dead": "hang", "op": r["hang"]["op"], "obs": [], "bundles": [], "vars": {}}
                continue
            out[r["id"]] = r
            done += 1
        if p.returncode == 3 or p.returncode == 2:
            raise ToolError("harness failed: " + p.stderr.decode("utf-8", "replace")[-2000:])
        if hang:
            pend = pend[done + 1:]
        elif p.returncode != 0:
            if done >= len(pend):
                break
            s = pend[done]
            out[s["id"]] = {"id": s["id"], "dead": "abort", "op": -1, "obs": [], "bundles": [], "vars": {}}
            pend = pend[done + 1:]
        else:
            if done != len(pend):
                raise ToolError("harness stopped early")
            pend = []
    return [out[s["id"]] for s in scripts]


def run_scripts(ctx, scripts, procs=8, timeout=600, optimeout=10):
    if not scripts:
        return []
    n = max(1, min(procs, len(scripts)))
    shards = [scripts[i::n] for i in range(n)]
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda sh: _shard_run(ctx, sh, timeout, optimeout), shards))
    by = {}
    for rs in res:
        for r in rs:
            by[r["id"]] = r
    # a dead one is run once more, alone and with more time: a busy machine is no finding
    for s in [s for s in scripts if by[s["id"]].get("dead")][:4]:
        by[s["id"]] = _shard_run(ctx, [s], timeout, 3 * optimeout)[0]
    return [by[s["id"]] for s in scripts]


# ----------------------------------------------------------------------- TLC
def tlc(ctx, module, cfg, env=None, workers=1, timeout=800, heap="3g", args=()):
    md = tempfile.mkdtemp(prefix="tlc_", dir=ctx.scratch)
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Dfile.encoding=UTF-8", "-Dsun.stdout.encoding=UTF-8",
           "-Dstdout.encoding=UTF-8", "-cp", CP, "tlc2.TLC", "-metadir", md, "-workers", str(workers), "-noGenerateSpecTE",
           "-config", cfg, *args, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        shutil.rmtree(md, ignore_errors=True)
        raise ToolError("TLC timed out on " + module)
    shutil.rmtree(md, ignore_errors=True)
    return p.returncode, p.stdout.decode("utf-8", "replace")




def plain(x):
    """what TLC reads: no null"""
    if x is None:
        return ""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def _trace_shard(ctx, module, items, heap="3g", timeout=800):
    path = tempfile.mktemp(prefix="trace_", suffix=".ndjson", dir=ctx.scratch)
    with open(path, "w") as f:
        for t in items:
            f.write(json.dumps(plain(t), ensure_ascii=False) + "\n")
    cfg = module + ".cfg" if os.path.exists(os.path.join(SPEC, module + ".cfg")) else "Trace.cfg"
    rc, out = tlc(ctx, module, cfg, env={"TRACE": path}, heap=heap, timeout=timeout)
    os.unlink(path)
    if os.environ.get("DEBUG"):
        print("\n".join(l for l in out.split("\n") if not l.startswith(("Progress", "Computing", "Parsing", "Semantic")))[-6000:])
    m = re.search(r'<<"DONE", (\d+)>>', out)
    if rc != 0 or not m or int(m.group(1)) != len(items):
        keep = os.path.join(ROOT, "out")
        os.makedirs(keep, exist_ok=True)
        with open(os.path.join(keep, "tlc_error.txt"), "w") as f:
            f.write(out)
        raise ToolError("TLC failed on %s (rc %d):\n%s" % (module, rc, out[-3000:]))
    mm = []
    for s, e, bad in printed(out, "MM"):
        mm.append((s - 1, e - 1, sorted(bad)))
    st = re.search(r"(\d+) states generated, (\d+) distinct", out)
    return mm, (int(st.group(1)), int(st.group(2))) if st else (0, 0)


def validate(ctx, module, traces, procs=8, group=None, maxbytes=12_000_000):
    """traces: list of {id, events, bundles}; -> [(trace index or None, event, classes)]"""
    if not traces:
        return []
    total = sum(len(json.dumps(t)) for t in traces)
    n = max(1, min(len(traces), max(procs, -(-total // maxbytes))))
    idx = [list(range(i, len(traces), n)) for i in range(n)] if group is None else _grouped(traces, group, n)
    idx = [x for x in idx if x]
    with ThreadPoolExecutor(procs) as ex:
        res = list(ex.map(lambda ix: _trace_shard(ctx, module, [traces[i] for i in ix]), idx))
    out = []
    for ix, (mm, st) in zip(idx, res):
        for s, e, bad in mm:
            out.append((ix[s] if s >= 0 else None, e, bad, ix))
        ctx.cov["states"] += st[1]
        ctx.cov["transitions"] += st[0]
    ctx.cov["traces_validated_against_impl"] += len(traces)
    return out


def _grouped(traces, group, n):
    out = [[] for _ in range(n)]
    for i, t in enumerate(traces):
        out[int(hashlib.sha256(str(group(t)).encode()).hexdigest(), 16) % n].append(i)
    return out


def model_check(ctx, module, cfg=None, workers=4, timeout=800, env=None, heap="6g", args=()):
    """exhaustive TLC run of a design model; a violated invariant here is an
    error of the specification, not of the code"""
    rc, out = tlc(ctx, module, cfg or module + ".cfg", env=env, workers=workers, timeout=timeout, heap=heap, args=args)
    if rc != 0:
        raise ToolError("model %s does not check (rc %d):\n%s" % (module, rc, out[-3000:]))
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        ctx.cov["states"] += int(m[-1][1])
        ctx.cov["transitions"] += int(m[-1][0])
        ctx.stats["mc:" + module] = int(m[-1][1])
    return out


def printed(out, tag):
    """what a specification printed as "TAG json": one string, which TLC does not break across lines"""
    n = out.count('"%s ' % tag)
    res = [json.loads(json.loads(m.group(1))[len(tag) + 1:]) for m in re.finditer(r'^("%s (?:[^"\\]|\\.)*")$' % tag, out, re.M)]
    if len(res) != n:
        raise ToolError("cannot read what TLC printed")
    return res


def behaviours(out):
    return printed(out, "B")


# ------------------------------------------------------------------ reporting
def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def report(ctx, cls, script, detail):
    """cls: list of mismatch classes; script: the dict that was run"""
    kf = script.get("kf") if script else None
    if kf:
        for k in known_findings():
            if k["id"] == kf and k["property"] == ctx.pid and set(cls) <= set(k["classes"]):
                if kf not in [x["id"] for x in ctx.known]:
                    ctx.known.append(k)
                return
    ctx.violations.append({"classes": cls, "script": script, "detail": detail})


def evidence(ctx, level, extra=None):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": ctx.cov,
          "assumptions": extra or [], "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.violations)}
    if ctx.stats:
        ev["coverage"]["stats"] = ctx.stats
    with open(os.path.join(d, ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)


def finish(ctx):
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (ctx.pid, k["what"]))
    if not ctx.violations:
        print("OK property=%s states=%s traces=%s wall=%.1fs %s" % (
            ctx.pid, ctx.cov.get("states"), ctx.cov.get("traces_validated_against_impl"), time.time() - ctx.t0, json.dumps(ctx.stats)))
        return 0
    out = os.path.join(ROOT, "out")
    os.makedirs(out, exist_ok=True)
    seen = set()
    n = 0
    for v in ctx.violations:
        key = tuple(v["classes"])
        if key in seen and n >= 1:
            continue
        seen.add(key)
        p = os.path.join(out, "%s-%d.json" % (ctx.pid, n))
        with open(p, "w") as f:
            json.dump(v, f, indent=1, ensure_ascii=False)
        print("VIOLATION property=%s replay=%s" % (ctx.pid, p))
        print("  " + ",".join(v["classes"]) + " :: " + str(v["detail"])[:600].replace("\n", " | "))
        n += 1
        if n >= 8:
            break
    print("%d mismatching events in all" % len(ctx.violations))
    return 1
