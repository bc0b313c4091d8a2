"""Offline re-evaluation of the recorded call log with SciPy (C28)."""
import json, os, subprocess


def post(ctx, chk):
    log = os.path.join(chk.WORK, "c28.log")
    env = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run(["python3-vt", os.path.join(chk.VERIF, "c28_scipy.py"), log, "8"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       timeout=600 if not ctx.thorough else 6000)
    if p.returncode != 0:
        raise chk.NoVerdict("the SciPy checker failed: " + p.stderr[-2000:])
    run, seen, tot = ctx.runs[0], set(), None
    for line in p.stdout.splitlines():
        d = json.loads(line)
        if "total" in d:
            tot = d
        elif d["sig"] == "checker":
            raise chk.NoVerdict("the SciPy checker failed: " + d["detail"])
        elif d["sig"] not in seen:
            seen.add(d["sig"])
            ctx.violation(run, "calls", d["i"], "scipy:" + d["sig"], d["detail"])
    if not tot:
        raise chk.NoVerdict("no summary from the SciPy checker")
    ctx.extra_cov["calls_compared_with_scipy"] = {k: v[0] for k, v in tot["total"].items() if v[0]}
    ctx.extra_cov["calls_without_counterpart"] = {k: v[1] for k, v in tot["total"].items() if v[1]}
    ctx.extra_cov["worst_difference_over_tolerance"] = {k: v[2] for k, v in tot["total"].items() if v[0]}
    if sum(v[0] for v in tot["total"].values()) < 1000:
        raise chk.NoVerdict("too few calls compared")
    os.unlink(log)
