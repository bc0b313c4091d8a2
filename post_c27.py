"""Offline check of the scripts the plotting helper fed to the stand-in interpreter (C27)."""
import json, os, subprocess, sys

RUNNER = r'''
import ast, json, struct, sys, types, warnings
warnings.simplefilter("ignore")
import numpy as np
import importlib.abc, importlib.machinery
np.seterr(all="ignore")
events = []
class Any:
    def __init__(self, name): self.__dict__["_n"] = name
    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"): raise AttributeError(k)
        return Any(k)
    def __setattr__(self, k, v): pass
    def __call__(self, *a, **kw):
        if self._n in ("plot", "show", "savefig"): events.append((self._n, a, kw))
        return Any(self._n + "()")
    def __getitem__(self, k): return Any("item")
    def __iter__(self): return iter([Any("item") for _ in range(64)])
    def __enter__(self): return self
    def __exit__(self, *a): return False
class Mod(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"): raise AttributeError(k)
        return Any(k)
class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] == "matplotlib":
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
    def create_module(self, spec):
        m = Mod(spec.name); m.__path__ = []; return m
    def exec_module(self, m): pass
sys.meta_path.insert(0, Finder())
def bits(v):
    v = float(v)
    if v != v: return "nan"
    try: b = struct.unpack("<I", struct.pack("<f", v))[0]
    except OverflowError: return "big"
    return b
def series(y):
    try: return [bits(v) for v in np.asarray(y, dtype=object).ravel()]
    except Exception: return None
def covered(calls, want):
    k = 0
    for y in calls:
        if k < len(want) and y == want[k]: k += 1
    return k == len(want)
import scipy.signal
n = 0; executed = 0; plotted = 0; values = 0
for line in open(sys.argv[1]):
    r = json.loads(line); n += 1
    want = [["nan" if (b & 0x7fffffff) > 0x7f800000 else b for b in s] for s in r["bits"]]
    raw = bytes.fromhex(r["script"])
    def bad(sig, text):
        print(json.dumps({"i": r["i"], "sig": sig, "detail": text + "; mode %s, lengths %s, script starts %r" % (r["mode"], [len(s) for s in want], raw[:400])}))
    try: src = raw.decode("utf-8")
    except UnicodeDecodeError as e: bad("encoding", str(e)); continue
    if not src.strip(): bad("no-script", "the interpreter received no script"); continue
    try: code = compile(src, "<script>", "exec")
    except (SyntaxError, ValueError) as e: bad("syntax", "the script does not parse: %s" % e); continue
    del events[:]
    ns = {"__name__": "__main__"}
    err = None
    try: exec(code, ns); executed += 1
    except SystemExit: executed += 1
    except BaseException as e: err = e
    calls = [series(a[-1]) for k, a, kw in events if k == "plot" and a]
    values += sum(map(len, want))
    ok = covered(calls, want)
    held = False
    if not ok:
        for v in list(ns.values()):
            try:
                if isinstance(v, (list, tuple)) and len(v) == len(want) and [series(x) for x in v] == want: held = True
            except Exception: pass
    if not ok and not held:
        bad("data", "the given series are neither plotted nor held by the script (exception: %r)" % (err,)); continue
    if want and all(want):
        if err is not None: bad("execution", "the script fails: %r" % (err,)); continue
        if not ok: bad("not-plotted", "not every series is plotted in order"); continue
        if not any(k == "show" for k, a, kw in events): bad("not-shown", "the plot is never shown"); continue
        # normalised autocorrelations
        exp = []
        for s in r["bits"]:
            x = np.array([struct.unpack("<f", struct.pack("<I", b))[0] for b in s], dtype=float)
            if not np.all(np.isfinite(x)) or not np.any(x) or len(x) > 3000 or np.max(np.abs(x)) > 1e18 or np.max(np.abs(x)) < 1e-18: continue
            c = scipy.signal.correlate(x, x, mode="full", method="direct")
            exp.append((list(range(-len(x) + 1, len(x))), c / c.max()))
        got = [a for k, a, kw in events if k == "plot" and len(a) >= 2]
        k = 0
        for a in got:
            if k < len(exp):
                try:
                    if [int(t) for t in a[0]] == exp[k][0] and np.max(np.abs(np.asarray(a[1], dtype=float) - exp[k][1])) < 1e-6: k += 1
                except Exception: pass
        plotted += k
        if k < len(exp): bad("autocorrelation", "autocorrelation plots do not match the series (%d of %d)" % (k, len(exp))); continue
print(json.dumps({"scripts": n, "executed": executed, "autocorrelations": plotted, "values": values}))
'''


def post(ctx, chk):
    log = os.path.join(chk.WORK, "c27.log")
    run = ctx.runs[0]
    p = subprocess.run(["python3-vt", "-c", RUNNER, log], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800 if not ctx.thorough else 5000)
    if p.returncode != 0:
        raise chk.NoVerdict("the script checker failed: " + p.stderr[-2000:])
    seen, tot = set(), None
    for line in p.stdout.splitlines():
        d = json.loads(line)
        if "scripts" in d:
            tot = d
        elif d["sig"] not in seen:
            seen.add(d["sig"])
            ctx.violation(run, "plots", d["i"], d["sig"], d["detail"])
    if not tot or not tot["scripts"]:
        raise chk.NoVerdict("no script was recorded")
    ctx.extra_cov["recorded_scripts"] = tot
    os.unlink(log)
