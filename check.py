#!/usr/bin/env python3
"""Run the monitors of one property against /repo's working tree.

  check.py C01                 tier from VERIF_TIER (quick|thorough), seed from VERIF_SEED
  check.py C01 --replay FILE   re-run one recorded violating case
  check.py --setup             build everything once (setup_cmd)

exit 0: held on everything explored; exit 1 + "VIOLATION property=.. replay=..": broken;
exit 2: no verdict (build failure, watchdog, harness error).
"""
import concurrent.futures, hashlib, json, os, resource, signal, struct, subprocess, sys, time, importlib.util

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
WORK = os.path.join(VERIF, "work")
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import cfg  # noqa: E402

TRIPLE = "x86_64-unknown-linux-gnu"
BASE = "-C target-cpu=x86-64"
VARIANTS = {
    # name: (toolchain args, profile, features, rustflags, target triple?)
    "std-fast": ([], "fast", ["std"], BASE, False),
    "alloc-fast": ([], "fast", [], BASE, False),
    "alloc-chk": ([], "chk", [], BASE, False),
    "std-chk": ([], "chk", ["std"], BASE, False),
    "plot-fast": ([], "fast", ["plot"], BASE, False),
    "asan": (["+nightly"], "fast", ["std"], BASE + " -Zsanitizer=address -Cdebuginfo=1", True),
    "tsan": (["+nightly"], "fast", ["std"], BASE + " -Zsanitizer=thread", True),  # with -Zbuild-std: std is instrumented too
    "msan": (["+nightly"], "fast", ["std"], BASE + " -Zsanitizer=memory", True),  # likewise: uninitialised reads
    "miri": (["+nightly"], "miri", ["std"], "", False),
}


class NoVerdict(Exception):
    pass


def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                try:
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                except OSError:
                    pass
                h.update(b"\1")
    return h.hexdigest()


def cargo_env(flags):
    e = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["RUSTFLAGS"] = flags
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def bin_path(variant, b):
    _, prof, _, _, trip = VARIANTS[variant]
    d = os.path.join(TARGET, variant)
    return os.path.join(d, TRIPLE, prof, b) if trip else os.path.join(d, prof, b)


def build(variant, bins, rh):
    tc, prof, feats, flags, trip = VARIANTS[variant]
    if variant == "miri":
        return  # cargo miri run builds on its own
    tdir = os.path.join(TARGET, variant)
    os.makedirs(tdir, exist_ok=True)
    stamp = os.path.join(tdir, "repo.hash")
    env = cargo_env(flags)
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != rh and os.path.exists(stamp):
        # never trust mtimes: the library and everything on top of it is rebuilt when its text changed
        cmd = ["cargo"] + tc + ["clean", "--offline", "--profile", prof, "--target-dir", tdir, "-p", "sci-rs", "-p", "harness"]
        if trip:
            cmd += ["--target", TRIPLE]
        subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if os.path.exists(stamp) and old != rh:
        os.unlink(stamp)
    cmd = ["cargo"] + tc + ["build", "--offline", "--locked", "--profile", prof, "--target-dir", tdir]
    if variant in ("tsan", "msan"):
        cmd += ["-Zbuild-std"]
    if feats:
        cmd += ["--features", ",".join(feats)]
    if trip:
        cmd += ["--target", TRIPLE]
    for b in bins:
        cmd += ["--bin", b]
    r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise NoVerdict("build of %s failed:\n%s" % (variant, r.stdout[-6000:]))
    with open(stamp, "w") as f:
        f.write(rh)


def limits(cpu=None, mem=None):
    def f():
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run_env(variant):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:halt_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=8192"
    e["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:exitcode=66:second_deadlock_stack=1"
    e["MSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=8192"
    e["RUST_BACKTRACE"] = "0"
    return e


CRASH = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP)


class Run:
    """One execution of one monitor binary in one build variant."""

    def __init__(self, ctx, variant, b, extra=(), scale=1.0, timeout=None, silent=False):
        self.silent = silent
        self.ctx, self.variant, self.bin = ctx, variant, b
        self.extra, self.scale = list(extra), scale
        self.timeout = timeout or (240 if not ctx.thorough else 5400)
        self.res = None

    def args(self):
        return ["--seed", str(self.ctx.seed), "--thorough", "1" if self.ctx.thorough else "0", "--variant", self.variant,
                "--scale", str(self.scale)] + self.extra

    def cmd(self):
        if self.variant == "miri":
            return ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--quiet", "--features", "std",
                    "--target-dir", os.path.join(TARGET, "miri"), "--bin", self.bin, "--"]
        return [bin_path(self.variant, self.bin)]

    def env(self):
        e = run_env(self.variant)
        if self.variant == "miri":
            e = cargo_env("")
            e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-permissive-provenance"
        return e

    def execute(self, more=(), cpu=None, timeout=None, tag="run"):
        base = os.path.join(WORK, "%s-%s-%s-%s" % (self.ctx.prop, self.variant, self.bin, tag))
        out, infl, err = base + ".json", base + ".inflight", base + ".stderr"
        for p in (out, infl, err):
            if os.path.exists(p):
                os.unlink(p)
        mem = None if self.variant in ("asan", "tsan", "msan", "miri") else 20 << 30
        cmd = self.cmd() + self.args() + ["--out", out, "--inflight", infl] + list(more)
        with open(err, "wb") as eh:
            p = subprocess.Popen(cmd, cwd=HARNESS if self.variant == "miri" else WORK, env=self.env(), stdout=eh, stderr=eh,
                                 preexec_fn=limits(cpu, mem), start_new_session=True)
            try:
                rc = p.wait(timeout=timeout or self.timeout)
            except subprocess.TimeoutExpired:
                rc = None
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        res = None
        if os.path.exists(out):
            with open(out) as f:
                res = json.load(f)
        with open(err, errors="replace") as f:
            log = f.read()
        return rc, res, infl, log

    def inflight(self, path):
        c = []
        try:
            b = open(path, "rb").read()
        except OSError:
            return c
        for o in range(0, len(b) - 23, 24):
            live, no, idx = struct.unpack("<QQQ", b[o:o + 24])
            if live == 1:
                c.append((no, idx))
        return c

    def stream_names(self):
        # stream numbers -> names are recovered by listing (a zero-scale run is cheap)
        return None

    def go(self):
        ctx = self.ctx
        budget = cfg.BUDGET["thorough" if ctx.thorough else "quick"]
        rc, res, infl, log = self.execute(["--budget", str(budget)])
        if rc in (0, 3) and res is not None:
            self.res = res
            if self.silent and log.strip():
                ctx.violation(self, "whole-run", 0, "output", "the run wrote to standard output or error: " + log[:600])
            for v in res["violations"]:
                ctx.violation(self, v["stream"], v["idx"], v["sig"], v["detail"])
            return
        crashed = rc is not None and rc < 0 and -rc in CRASH
        san = self.variant in ("asan", "tsan", "msan", "miri") and any(
            s in log for s in ("ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "WARNING: MemorySanitizer", "error: Undefined Behavior", "Undefined Behavior"))
        hung = rc is None
        if not (crashed or hung or san):
            raise NoVerdict("%s/%s ended with %s without a result:\n%s" % (self.variant, self.bin, rc, log[-4000:]))
        # attribute: re-run the in-flight cases one at a time
        names = self.list_streams()
        cands = self.inflight(infl)
        for no, idx in cands[:16]:
            if no >= len(names):
                continue
            name = names[no]
            rc2, res2, _, log2 = self.execute(["--replay", "%s:%d" % (name, idx), "--threads", "1"], cpu=40, timeout=90, tag="replay")
            if rc2 is not None and rc2 < 0 and -rc2 in CRASH or (self.variant in ("asan", "tsan", "msan", "miri") and rc2 not in (0, 3) and rc2 is not None and report_of(log2)):
                ctx.violation(self, name, idx, "crash", "process died (%s) on this case: %s" % (rc2, report_of(log2) or tail(log2)))
                return
            if rc2 is not None and rc2 < 0 and -rc2 in (signal.SIGXCPU, signal.SIGKILL):
                ctx.violation(self, name, idx, "no-termination", "case did not finish within 40 s of CPU time (cases take milliseconds)")
                return
        if crashed or san:
            # memory corruption may need the whole history: report if it happens again
            rc3, res3, _, log3 = self.execute(["--budget", str(budget)], tag="again")
            if rc3 is not None and rc3 < 0 and -rc3 in CRASH or (san and report_of(log3)):
                ctx.violation(self, "whole-run", 0, "crash", "process died twice (%s): %s" % (rc3, report_of(log3) or report_of(log) or tail(log3)))
                return
        raise NoVerdict("%s/%s ended with %s, not reproducible on the in-flight cases:\n%s" % (self.variant, self.bin, rc, log[-3000:]))

    def list_streams(self):
        rc, res, _, log = self.execute(["--replay", "@none:0", "--list", "1"], timeout=120, tag="list")
        return (res or {}).get("names", [])


def report_of(log):
    for k in ("ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "WARNING: MemorySanitizer", "error: Undefined Behavior", "unsafe precondition"):
        i = log.find(k)
        if i >= 0:
            return log[i:i + 1500]
    return ""


def tail(log):
    return log[-800:]


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.viol = []
        self.known_hits = {}
        self.runs = []
        self.extra_cov = {}
        self.known = load_known(prop)

    def violation(self, run, stream, idx, sig, detail):
        if sig in self.known:
            self.known_hits[sig] = self.known_hits.get(sig, 0) + 1
            return
        self.viol.append({"property": self.prop, "variant": run.variant if run else None, "bin": run.bin if run else None,
                          "extra": run.extra if run else [], "seed": self.seed, "tier": self.tier, "stream": stream, "idx": idx,
                          "sig": sig, "detail": detail})


def load_known(prop):
    known = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: "):
                w = line.strip().split(" ", 3)
                if w[1] == "property=" + prop:
                    known[w[2][len("sig="):]] = w[3]
    return known


def write_evidence(ctx, spec, wall):
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": spec["rule"], "samples": [], "events_observed": 0, "runs": []}
    classes = {}
    for r in ctx.runs:
        if not r.res:
            continue
        cov["evaluations"] += r.res["evaluations"]
        cov["events_observed"] += r.res["events"]
        cov["distinct_nontrivial"] = max(cov["distinct_nontrivial"], r.res["distinct"])
        cov["runs"].append({"variant": r.variant, "monitor": r.bin, "evaluations": r.res["evaluations"], "distinct": r.res["distinct"],
                            "events": r.res["events"], "truncated_by_budget": r.res["truncated"], "wall_s": r.res["wall_s"],
                            "streams": r.res["streams"], "worst_error_over_tolerance": r.res["ratios"]})
        for k, v in r.res["classes"].items():
            classes[k] = classes.get(k, 0) + v
        cov["samples"] += [r.variant + "/" + s for s in r.res["samples"][:6]]
    if len(classes) > 300:
        classes = dict(sorted(classes.items(), key=lambda kv: -kv[1])[:300])
    cov["observed_classes"] = classes
    cov["samples"] = cov["samples"][:24] or ["(no case ran)"]
    cov["known_findings_observed"] = ctx.known_hits
    cov.update(ctx.extra_cov)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assumptions", []) + ["the reference models and tolerances of /verif/harness", "rustc, std and the dependency crates"],
          "wall_s": round(wall, 2), "violations": len(ctx.viol)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return cov


def prepare(runspecs):
    rh = repo_hash()
    need = {}
    for r in runspecs:
        need.setdefault(r["variant"], set()).add(r["bin"])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(build, v, sorted(b), rh) for v, b in need.items()]
        for f in futs:
            f.result()


def check(prop):
    t0 = time.time()
    ctx = Ctx(prop)
    spec = cfg.PROPS[prop]
    os.makedirs(WORK, exist_ok=True)
    rs = spec["runs"]
    try:
        try:
            prepare(rs)
        except NoVerdict as e:
            v = spec.get("build_violation")
            if not v or "build of %s failed" % v not in str(e):
                raise
            prepare([r for r in rs if r["variant"] != v])  # the other configuration builds: an operation is missing from this one
            ctx.violation(None, "build", 0, "unavailable", "the monitor of all shared operations builds with std but not without: " + str(e)[-2500:])
            raise
        def one(r):
            scale = r.get("tscale", r.get("scale", 1.0)) if ctx.thorough else r.get("scale", 1.0) * cfg.MULT.get(prop, 1)
            run = Run(ctx, r["variant"], r["bin"], r.get("extra", ()), scale, silent=r.get("silent", False))
            ctx.runs.append(run)
            run.go()
        groups = [[r for r in rs if not r.get("bg")], [r for r in rs if r.get("bg")]]
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            def seq(g):
                for r in g:
                    one(r)
            for f in [ex.submit(seq, g) for g in groups if g]:
                f.result()
        if spec.get("post"):
            m = importlib.import_module(spec["post"])
            m.post(ctx, sys.modules[__name__])
        cov = write_evidence(ctx, spec, time.time() - t0)
        if not ctx.viol and (cov["evaluations"] == 0 or cov["events_observed"] == 0 or cov["distinct_nontrivial"] < 2):
            raise NoVerdict("the monitors observed nothing")
    except NoVerdict as e:
        if not ctx.viol:
            try:
                write_evidence(ctx, spec, time.time() - t0)
            except Exception:
                pass
            print("NO-VERDICT property=%s: %s" % (prop, e))
            return 2
        write_evidence(ctx, spec, time.time() - t0)
    for sig, what in ctx.known.items():
        if ctx.known_hits.get(sig):
            print("KNOWN-FINDING: property=%s %s [sig %s, seen %d times]" % (prop, what, sig, ctx.known_hits[sig]))
    if ctx.viol:
        d = os.path.join(WORK, "replay")
        os.makedirs(d, exist_ok=True)
        seen = set()
        n = 0
        for v in ctx.viol:
            k = (v["variant"], v["bin"], v["sig"])
            if k in seen:
                continue
            seen.add(k)
            path = os.path.join(d, "%s-%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  [%s %s %s:%s] %s: %s" % (v["variant"], v["bin"], v["stream"], v["idx"], v["sig"], v["detail"][:700]))
            n += 1
            if n >= 8:
                break
        return 1
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d events=%d wall=%.1fs" % (
        prop, ctx.tier, ctx.seed, cov["evaluations"], cov["distinct_nontrivial"], cov["events_observed"], time.time() - t0))
    return 0


def replay(prop, path):
    v = json.load(open(path))
    ctx = Ctx(prop)
    ctx.seed, ctx.thorough = v["seed"], v["tier"] == "thorough"
    os.makedirs(WORK, exist_ok=True)
    prepare([{"variant": v["variant"], "bin": v["bin"]}])
    r = Run(ctx, v["variant"], v["bin"], v["extra"])
    if v["stream"] == "whole-run":
        rc, res, _, log = r.execute()
    else:
        rc, res, _, log = r.execute(["--replay", "%s:%d" % (v["stream"], v["idx"]), "--threads", "1"], cpu=120, tag="replay")
    print("exit", rc)
    print(json.dumps((res or {}).get("violations"), indent=1), report_of(log))
    return 0 if rc == 0 else 1


def setup():
    allruns = []
    for s in cfg.PROPS.values():
        allruns += s["runs"]
    rh = repo_hash()
    need = {}
    for r in allruns:
        need.setdefault(r["variant"], set()).add(r["bin"])
    for v, b in need.items():
        try:
            build(v, sorted(b), rh)
        except NoVerdict as e:
            print(e)
            return 1
    if "miri" in need:
        subprocess.run(["cargo", "+nightly", "miri", "setup"], cwd=HARNESS, env=cargo_env(""))
    return 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a == ["--setup"]:
        sys.exit(setup())
    if len(a) == 3 and a[1] == "--replay":
        sys.exit(replay(a[0], a[2]))
    sys.exit(check(a[0]))
