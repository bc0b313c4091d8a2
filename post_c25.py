"""Offline comparison of the call logs recorded in the std and the alloc configuration (C25)."""
import json, math, os

TOL = {False: 1e-9, True: 1e-3}


def load(path):
    d = {}
    with open(path) as f:
        for line in f:
            r = json.loads(line)
            d[r["i"]] = r
    return d


def flat(v):
    if isinstance(v, list):
        return [y for x in v for y in flat(x)]
    return [] if v is None else [v]


def same(u, v):
    return u == v or (isinstance(u, float) and isinstance(v, float) and u != u and v != v)


def compare(x, y):
    """None, or (signature, text); also returns the worst relative difference"""
    op = x["op"]
    if x["op"] != y["op"] or any(len(flat(x["args"][k])) != len(flat(y["args"][k])) or not all(map(same, flat(x["args"][k]), flat(y["args"][k]))) for k in x["args"]):
        return ("harness", "different calls"), 0
    if ("panic" in x) != ("panic" in y):
        return ("acceptance:" + op, "std: %s, alloc: %s" % (x.get("panic", "accepted"), y.get("panic", "accepted"))), 0
    if "panic" in x:
        return None, 0
    worst = 0.0
    if x["out"].keys() != y["out"].keys():
        return ("format:" + op, "%s / %s" % (list(x["out"]), list(y["out"]))), 0
    for k in x["out"]:
        u, v = flat(x["out"][k]), flat(y["out"][k])
        if len(u) != len(v):
            return ("length:" + op, "%s has %d values in std, %d in alloc" % (k, len(u), len(v))), 0
        if op == "design_any" or all(map(same, u, v)):
            continue
        if x["arith"]:
            return ("bits:" + op, "%s: std %s alloc %s" % (k, u[:40], v[:40])), 0
        m = max([abs(t) for t in u if math.isfinite(t)] + [1e-300])
        if op == "savgol_filter":
            # cancellation: errors are relative to the input and the spacing
            a = x["args"]
            m = max([m] + [abs(t) / min(1.0, abs(a["delta"])) ** a["d"] for t in a["x"]])
        for s, t in zip(u, v):
            if same(s, t):
                continue
            if not (math.isfinite(s) and math.isfinite(t)):
                return ("value:" + op, "%s: std %r alloc %r" % (k, s, t)), 0
            e = abs(s - t) / m / TOL[x["f32"]]
            worst = max(worst, e)
            if e > 1:
                return ("value:" + op, "%s: std %r alloc %r (norm %g)" % (k, s, t, m)), worst
    return None, worst


def post(ctx, chk):
    a = load(os.path.join(chk.WORK, "c25-std.log"))
    b = load(os.path.join(chk.WORK, "c25-alloc.log"))
    run = ctx.runs[0]
    worst, n, exact = {}, 0, 0
    if set(a) != set(b):
        raise chk.NoVerdict("the two configurations logged different numbers of calls (%d, %d)" % (len(a), len(b)))
    seen = set()
    for i in sorted(a):
        bad, w = compare(a[i], b[i])
        n += 1
        exact += w == 0 and bad is None
        k = a[i]["op"] + (" f32" if a[i]["f32"] else " f64")
        worst[k] = max(worst.get(k, 0), w)
        if bad and bad[0] == "harness":
            raise chk.NoVerdict("call %d differs between the logs" % i)
        if bad and bad[0] not in seen:
            seen.add(bad[0])
            ctx.violation(run, "calls", i, bad[0], bad[1] + "; call " + json.dumps(a[i])[:900])
    ctx.extra_cov["calls_compared"] = n
    ctx.extra_cov["calls_bit_identical"] = exact
    ctx.extra_cov["worst_difference_over_tolerance"] = worst
    if n == 0:
        raise chk.NoVerdict("nothing was recorded")
    for f in ("c25-std.log", "c25-alloc.log"):
        os.unlink(os.path.join(chk.WORK, f))
