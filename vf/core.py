"""Shared machinery of the checks: building harness crates, running TLC, replaying, evidence."""
import collections
import json, os, re, subprocess, sys, time, shutil, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


import threading
_LOCK = threading.Lock()


class ToolError(Exception):
    """The machinery itself failed (exit 2): never reported as a violation."""


class Found(Exception):
    """The code under test failed in a way that leaves nothing more to observe: the violation is recorded already."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(ROOT, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.out = os.path.join(ROOT, "out")
        os.makedirs(self.out, exist_ok=True)
        self.states = 0          # distinct states TLC found
        self.transitions = 0     # states TLC generated (transitions taken)
        self.replayed = 0        # behaviours / records executed on or recorded from the real code and decided by the spec
        self.samples = []
        self.violations = []     # dicts
        self.notes = {}
        self.steps = []
        self.quick = tier == "quick"

    def q(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, msg):
        print("[%6.1fs] %s" % (time.time() - self.t0, msg), flush=True)

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, what, data):
        self.violations.append({"what": what, "data": data})


def sh(cmd, timeout=None, cwd=None, env=None, stdin=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("timeout: %s" % (cmd,))


def try_build(ctx, crate, bins=None, features=None):
    """Builds harness/<crate> against /repo's working tree; returns the directory of the binaries, or None and the errors."""
    d = os.path.join(HARNESS, crate)
    env = {"CARGO_NET_OFFLINE": "true", "RUSTUP_TOOLCHAIN": "nightly-2026-02-15", "CARGO_TERM_COLOR": "never"}
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
        os.environ.pop(k, None)
    if not os.path.exists(os.path.join(d, "Cargo.lock")):
        shutil.copy("/opt/vp/oaks/Cargo.lock", os.path.join(d, "Cargo.lock"))
    t = time.time()
    cmd = ["cargo", "build", "--offline"]
    if bins:
        for b in bins:
            cmd += ["--bin", b]
    if features:
        cmd += ["--features", ",".join(features)]
    r = sh(cmd, cwd=d, env=env, timeout=800)
    if r.returncode != 0:
        return None, r.stderr
    ctx.log("built harness/%s in %.1fs" % (crate, time.time() - t))
    return os.path.join(d, "target", "debug"), None


def build(ctx, crate, bins=None):
    path, err = try_build(ctx, crate, bins)
    if err is not None:
        raise ToolError("building harness/%s failed:\n%s" % (crate, err[-4000:]))
    return path


class TlcResult:
    pass


def tlc(ctx, module, cfg, env=None, args=(), workers="8", timeout=600, heap="6g", ok_codes=(0,), label=None, count=True, cwd=None):
    """Runs TLC. Returns a TlcResult (ok, out, distinct, generated). Anything but success or a property violation is a ToolError."""
    t = time.time()
    with _LOCK:
        ctx.steps.append(None)
        meta = os.path.join(ctx.work, "tlc-%s-%d" % (module, len(ctx.steps)))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m", "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers), "-config", cfg, *args, module + ".tla"]
    r = sh(cmd, cwd=cwd or SPEC, env=env, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    res = TlcResult()
    res.out = r.stdout
    res.code = r.returncode
    gen, dist = (0, 0)
    mm = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", r.stdout)
    if mm:
        gen, dist = [int(x.replace(",", "")) for x in mm[-1]]
    else:
        mm = re.findall(r"The number of states generated: ([\d,]+)", r.stdout)
        if mm:
            gen = dist = int(mm[-1].replace(",", ""))
    res.generated, res.distinct = gen, dist
    # 0 ok; 10..13 assumption/deadlock/safety/liveness violated
    res.ok = r.returncode == 0
    res.violated = r.returncode in (10, 11, 12, 13)
    if not res.ok and not res.violated:
        raise ToolError("TLC failed on %s (%s), exit %d:\n%s\n%s" % (module, cfg, r.returncode, r.stdout[-2500:], r.stderr[-1500:]))
    if count:
        ctx.states += dist
        ctx.transitions += gen
    ctx.log("TLC %s/%s: exit %d, %d generated, %d distinct, %.1fs" % (module, os.path.basename(cfg), r.returncode, gen, dist, time.time() - t))
    return res


def model_check(ctx, module, cfg, **kw):
    """Model-checks the specification itself: a violation here is a fault of the specification."""
    r = tlc(ctx, module, cfg, **kw)
    if not r.ok:
        raise ToolError("the specification %s does not satisfy its own properties:\n%s" % (module, r.out[-4000:]))
    return r


def emitted(out):
    """The JSON values a TLC run printed with PrintT(ToJson(..)) (one string per line, prefixed by @)."""
    res = []
    for line in out.splitlines():
        if line.startswith('"@'):
            res.append(json.loads(json.loads(line)[1:]))
    return res


def generate(ctx, module, cfg, **kw):
    """Runs TLC to enumerate behaviours with expected observations; returns the list of behaviours (JSON texts)."""
    r = tlc(ctx, module, cfg, **kw)
    if not r.ok:
        raise ToolError("behaviour generation failed on %s:\n%s" % (module, r.out[-4000:]))
    b = [json.loads(l)[1:] for l in r.out.splitlines() if l.startswith('"@')]
    if not b:
        raise ToolError("behaviour generation on %s emitted nothing:\n%s" % (module, r.out[-3000:]))
    return b


def write_lines(path, items):
    with open(path, "w") as f:
        for x in items:
            f.write((x if isinstance(x, str) else json.dumps(x, separators=(",", ":"))) + "\n")
    return path


LIMIT = 6 << 30      # address space of a harness process: code that allocates without end aborts
ENVIRONMENT = ("No space left", "Cannot allocate memory", "Too many open files", "Resource temporarily unavailable", "Read-only file system")


def run_code(ctx, cmd, timeout, what, stdin=None, hang=None, **kw):
    """Runs a harness process, that is, the code under test: one that panics, crashes or does not come to an end
    violates the property (on the unchanged tree none does). Returns its summary, the last line it printed."""
    import resource
    limit = min(timeout, 240) if ctx.quick else timeout

    def bad(text, **more):
        ctx.violation(what, dict(what=text, command=[str(c) for c in cmd], **more))
        raise Found(text)
    try:
        r = subprocess.run([str(c) for c in cmd], input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=limit,
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (LIMIT, LIMIT)), **kw)
    except subprocess.TimeoutExpired:
        bad(hang or "the code under test does not come to an end", seconds=limit)
    if r.returncode != 0:
        if any(x in r.stderr for x in ENVIRONMENT) or r.returncode not in (-6, -11, -8, -4, -7, 101, 134, 139):
            raise ToolError("%s failed (exit %d):\n%s\n%s" % (cmd, r.returncode, r.stdout[-1000:], r.stderr[-2000:]))
        bad("the code under test " + ("panics" if r.returncode == 101 else "crashes"), exit=r.returncode, stderr=r.stderr[-800:])
    return json.loads(r.stdout.strip().split("\n")[-1])


def run_bin(ctx, path, args, timeout=600, stdin=None, what="the code under test is driven by the harness"):
    """Runs a harness binary; its last stdout line is a JSON summary {evaluated, violations:[...], samples:[...], ...}."""
    t = time.time()
    s = run_code(ctx, [path, *args], timeout, what, stdin)
    ctx.log("%s %s: %s in %.1fs" % (os.path.basename(path), " ".join(str(a) for a in args)[:60], {k: v for k, v in s.items() if isinstance(v, (int, float))}, time.time() - t))
    return s


def replay(ctx, path, mode, items, what, args=(), timeout=600, shards=8, hang=None):
    """Spec -> code: splits the behaviours over parallel runs of a harness mode and takes over their summaries."""
    shards = max(1, min(shards, len(items)))
    t = time.time()

    def one(k):
        f = write_lines("%s/%s-%d.ndjson" % (ctx.work, mode, k), items[k::shards])
        return run_code(ctx, [path, mode, f, *args], timeout, what, hang=hang)
    rs = parallel(one, range(shards))
    tot = collections.defaultdict(int)
    for s in rs:
        absorb(ctx, s, what)
        for k, v in s.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                tot[k] = tot.get(k, 0) + v
    ctx.log("%s %s: %s in %.1fs" % (os.path.basename(path), mode, dict(tot), time.time() - t))
    return tot


def parallel(one, items):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, items))


def absorb(ctx, s, what):
    """Takes over the summary of a replay: counts, samples, violations."""
    ctx.replayed += s.get("evaluated", 0)
    for x in s.get("samples", [])[:2]:
        ctx.sample({"step": what, "case": x})
    for v in s.get("violations", []):
        ctx.violation(what, v)


def validate(ctx, module, cfg, trace, env=None, workers="1", timeout=600, heap="3g", what=None, shards=1, args=()):
    """Code -> spec: TLC decides whether the recorded records are behaviours of the specification.
    The trace specifications report a rejected record by printing "@{\"bad\":i,...}" lines.
    With shards > 1 the (independent) records are split and judged by parallel TLC runs."""
    from concurrent.futures import ThreadPoolExecutor
    lines = open(trace).read().splitlines()
    n = len(lines)
    if n == 0:
        raise ToolError("empty trace for %s" % module)
    shards = max(1, min(shards, n))
    files = []
    if shards == 1:
        files = [(trace, lines)]
    else:
        for k in range(shards):
            part = lines[k::shards]
            p = "%s.%d" % (trace, k)
            with open(p, "w") as f:
                f.write("\n".join(part) + "\n")
            files.append((p, part))

    def one(fp):
        e = {"TRACE": fp[0]}
        if env:
            e.update(env)
        return tlc(ctx, module, cfg, env=e, workers=workers, timeout=timeout, heap=heap, args=args)
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, files))
    for (p, part), r in zip(files, rs):
        bad = [x for x in emitted(r.out) if isinstance(x, dict) and "bad" in x]
        if not r.ok and not bad:
            raise ToolError("trace validation on %s failed without naming a record:\n%s" % (module, r.out[-4000:]))
        for b in bad[:5]:
            i = b["bad"]
            rec = json.loads(part[i - 1]) if isinstance(i, int) and 0 < i <= len(part) else None
            ctx.violation(what or module, {"rejected_by_spec": b, "record": rec})
    return rs


def known_findings():
    p = os.path.join(ROOT, "known", "known_findings.jsonl")
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                res.append(json.loads(l))
    return res


def finish(ctx, level="model_checking", assumptions=None, exhaustive=None, extra=None):
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.replayed, "samples": ctx.samples or ["none"]}
    if exhaustive is not None:
        cov["exhaustive"] = exhaustive
    cov.update(ctx.notes)
    if extra:
        cov.update(extra)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": assumptions or [], "wall_s": round(time.time() - ctx.t0, 1), "violations": len(ctx.violations)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if ctx.violations:
        p = os.path.join(ctx.out, "%s-violation.json" % ctx.prop)
        with open(p, "w") as f:
            json.dump(ctx.violations[:20], f, indent=1)
        for v in ctx.violations[:3]:
            print("  %s: %s" % (v["what"], json.dumps(v["data"])[:1500]))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, p), flush=True)
        return 1
    ctx.log("held on everything explored (%d states, %d transitions, %d validated against the code)" % (ctx.states, ctx.transitions, ctx.replayed))
    return 0
