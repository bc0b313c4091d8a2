"""Re-evaluates a recorded call log with SciPy (run by python3-vt from post_c28.py): c28_scipy.py LOG WORKERS"""
import json, math, multiprocessing, sys, warnings
warnings.simplefilter("ignore")
import numpy as np
import scipy.linalg, scipy.signal as sg, scipy.special as sp, scipy.stats
from scipy.signal._arraytools import odd_ext, even_ext, const_ext
from scipy.signal._filter_design import _cplxreal as cplxreal
np.seterr(all="ignore")
SKIP = "skip"
TOL = {False: 1e-9, True: 1e-3}


class Bad(Exception):
    pass


class ScipyFails(Exception):
    """SciPy itself crashes (zpk2sos on odd-order analog Chebyshev II band-pass systems)"""


def A(x):
    return np.array(x, dtype=float)


def C(x):
    return np.array([complex(a, b) for a, b in x], dtype=complex)


def rows(x):
    return A(x).reshape(-1, 6)


def close(r, what, got, want, norm=None, tol=None):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Bad("%s: shape %s, SciPy %s" % (what, got.shape, want.shape))
    if got.size == 0:
        return 0.0
    tol = tol or TOL[r["f32"]]
    if not np.all(np.isfinite(want)):
        return 0.0
    m = max(float(np.max(np.abs(want))), norm or 0.0, 1e-300)
    e = float(np.max(np.abs(got - want))) / m / tol
    if not e <= 1:
        k = int(np.argmax(np.abs(got - want)))
        raise Bad("%s: element %d is %r, SciPy has %r (norm %g)" % (what, k, got.ravel()[k], want.ravel()[k], m))
    return e


def multiset(r, what, got, want):
    """roots in any order; the distance of matched roots relative to the largest"""
    if len(got) != len(want):
        raise Bad("%s: %d roots, SciPy %d" % (what, len(got), len(want)))
    if not len(want):
        return 0.0
    if not np.all(np.isfinite(want)):
        return 0.0
    if not np.all(np.isfinite(got)):
        raise Bad("%s: not finite" % what)
    import scipy.optimize
    d = np.abs(got[:, None] - want[None, :])
    i, j = scipy.optimize.linear_sum_assignment(d)
    e = float(np.max(d[i, j])) / max(float(np.max(np.abs(want))), 1e-300) / (1e-6 if not r["f32"] else 2e-2)
    if not e <= 1:
        raise Bad("%s: root sets differ: %s / SciPy %s" % (what, got, want))
    return e


def zpk(r, o, w):
    e = multiset(r, "zeros", C(o["z"]), np.asarray(w[0], dtype=complex))
    e = max(e, multiset(r, "poles", C(o["p"]), np.asarray(w[1], dtype=complex)))
    return max(e, close(r, "gain", A([o["k"]]), A([np.real(w[2])]), tol=1e-6 if not r["f32"] else 2e-2))


def sos(r, got, want):
    got, want = rows(got), np.asarray(want)
    if got.shape != want.shape:
        raise Bad("sections: shape %s, SciPy %s" % (got.shape, want.shape))
    tol = 1e-6 if not r["f32"] else 2e-2
    e = 0.0
    for g, w in zip(got, want):
        nb, na = max(np.max(np.abs(w[:3])), 1e-300), max(np.max(np.abs(w[3:])), 1e-300)
        e = max(e, np.max(np.abs(g[:3] - w[:3])) / nb / tol, np.max(np.abs(g[3:] - w[3:])) / na / tol)
    return float(e), (lambda: "sections %s, SciPy %s" % (got.tolist(), want.tolist()))


def sos_strict(r, got, again):
    """sections in SciPy's order; where SciPy's own pairing flips under a rounding-size perturbation, any of its answers will do"""
    best, text = sos(r, got, again(0.0))
    if best <= 1:
        return best
    for h in (1e-12, -1e-12, 1e-10, -1e-10) if not r["f32"] else (1e-7, -1e-7, 1e-5, -1e-5, 1e-4, -1e-4):
        try:
            e, _ = sos(r, got, again(h))
        except (Bad, ValueError, IndexError, AssertionError):
            continue
        if e <= 1:
            return 0.0
    raise Bad(text())


def expect(r, f):
    """SciPy's answer, or None if it rejects; acceptance must agree"""
    try:
        w = f()
    except (IndexError, AssertionError):
        raise ScipyFails()
    except (ValueError, TypeError, np.linalg.LinAlgError) as e:
        if "panic" not in r:
            raise Bad("accepted, but SciPy rejects: %s" % e)
        return None
    if "panic" in r:
        raise Bad("rejected (%s), but SciPy accepts" % r["panic"])
    return w


FAM = {"Butter": "butter", "Cheb1": "cheby1", "Cheb2": "cheby2"}
BAND = {"Lp": "lowpass", "Hp": "highpass", "Bp": "bandpass", "Bs": "bandstop"}


def design(r, a, o):
    kw = dict(btype=BAND[a["band"]], analog=bool(a["analog"]), ftype=FAM[a["fam"]], output=a["fmt"].lower(), fs=a["fs"])
    if a["fam"] == "Cheb1":
        kw["rp"] = a["r"]
    if a["fam"] == "Cheb2":
        kw["rs"] = a["r"]
    if a["fam"] == "Butter" and a["r"] < 0 or len(a["wn"]) > 2:
        return SKIP
    wn = a["wn"]

    def f(h=0.0):
        w = [x * (1 + h * (i + 1)) for i, x in enumerate(wn)]
        return sg.iirfilter(a["order"], w[0] if len(w) == 1 else w, **kw)
    w = expect(r, f)
    if w is None:
        return 0.0
    if kw["output"] == "ba":
        if "b" not in o:
            raise Bad("format")
        b, aa = A(o["b"]), A(o["a"])
        # the polynomial form loses digits with the order: compare relative to the largest coefficient
        wb = np.asarray(w[0], dtype=float)
        if len(b) < len(wb):
            raise Bad("numerator has %d coefficients, SciPy %d" % (len(b), len(wb)))
        lead = b[: len(b) - len(wb)]
        if np.any(lead != 0):
            raise Bad("numerator has %d leading coefficients more than SciPy" % len(lead))
        e = close(r, "numerator", b[len(b) - len(wb):], wb, tol=1e-7 if not r["f32"] else 2e-2)
        return max(e, close(r, "denominator", aa, w[1], tol=1e-7 if not r["f32"] else 2e-2))
    if kw["output"] == "zpk":
        if "z" not in o:
            raise Bad("format")
        return zpk(r, o, w)
    if "sos" not in o:
        raise Bad("format")
    return sos_strict(r, o["sos"], f)


def filt(r, a, o):
    if "panic" in r:
        if r["op"] in ("sosfilt_fast32_st",) and a["zlen"] != len(a["x"]):
            return SKIP
        raise Bad("rejected (%s)" % r["panic"])
    s, z, x = rows(a["sos"]), A(a["zi"]).reshape(-1, 2), A(a["x"])
    if len(s) == 0:
        return close(r, "output", A(o["y"]), x)
    y, zf, m = x, [], float(np.max(np.abs(x))) if len(x) else 0.0
    for k in range(len(s)):
        if len(y) == 0:
            zf.append(z[k])
            continue
        y, q = sg.sosfilt(s[k:k + 1], y, zi=z[k:k + 1])
        zf.append(q[0])
        m = max(m, float(np.max(np.abs(y))), float(np.max(np.abs(q))))
    return max(close(r, "output", A(o["y"]), y, m), close(r, "final state", A(o["zf"]), np.array(zf).ravel(), m))


def ev(r):
    op, a, o = r["op"], r["args"], r.get("out")
    if op in ("sosfilt_dyn", "sosfilt_st", "sosfilt_item", "sosfilt_fast32_st", "sosfilt_ifast32_st"):
        return filt(r, a, o)
    if op == "sosfilt_zi":
        s = rows(a["sos"])
        if len(s) == 0:
            return SKIP
        w = expect(r, lambda: sg.sosfilt_zi(s))
        return close(r, "zi", A(o["zi"]), np.asarray(w).ravel(), tol=1e-7 if not r["f32"] else 2e-2)
    if op == "lfilter_zi":
        w = expect(r, lambda: sg.lfilter_zi(A(a["b"]), A(a["a"])))
        return close(r, "zi", A(o["zi"]), w, tol=1e-7 if not r["f32"] else 2e-2)
    if op == "sosfiltfilt":
        s, x = rows(a["sos"]), A(a["x"])
        if len(s) == 0:
            return SKIP
        w = expect(r, lambda: sg.sosfiltfilt(s, x))
        if w is None:
            return 0.0
        m = float(np.max(np.abs(x)))
        for k in range(1, len(s)):
            m = max(m, float(np.max(np.abs(sg.sosfiltfilt(s[:k], x, padlen=0)))))
        return close(r, "output", A(o["y"]), w, m, tol=1e-7 if not r["f32"] else 2e-2)
    if op == "pad":
        if a["kind"] == 0 or (a["kind"] == 3 and a["edge"] >= (a["m"], a["n"])[a["axis"]]):
            return SKIP
        x = A(a["data"]).reshape(a["n"], a["m"]).T
        f = {1: odd_ext, 2: even_ext, 3: const_ext}[a["kind"]]
        w = expect(r, lambda: f(x, a["edge"], axis=a["axis"]))
        if w is None:
            return 0.0
        return close(r, "padded", A(o["data"]).reshape(o["cols"], o["rows"]).T, w)
    if op == "design":
        return design(r, a, o)
    if op in ("cheb1ap", "cheb2ap"):
        f = sg.cheb1ap if op == "cheb1ap" else sg.cheb2ap
        w = expect(r, lambda: f(a["n"], a["rp" if op == "cheb1ap" else "rs"]))
        return 0.0 if w is None else zpk(r, o, w)
    if op in ("lp2lp", "lp2hp", "lp2bp", "lp2bs", "bilinear"):
        z, p, k = C(a["z"]), C(a["p"]), a["k"]
        if op == "bilinear":
            f = lambda: sg.bilinear_zpk(z, p, k, 1.0 if a["wo"] is None else a["wo"])
        else:
            kw = {}
            if a["wo"] is not None:
                kw["wo"] = a["wo"]
                if op in ("lp2bp", "lp2bs"):
                    kw["bw"] = a["bw"]
            f = lambda: getattr(sg, op + "_zpk")(z, p, k, **kw)
        w = expect(r, f)
        return 0.0 if w is None else zpk(r, o, w)
    if op == "zpk2tf":
        w = expect(r, lambda: sg.zpk2tf(C(a["z"]), C(a["p"]), a["k"]))
        b, aa = A(o["b"]), A(o["a"])
        wb = np.real(np.atleast_1d(w[0]))
        if len(b) > len(wb) and np.all(b[: len(b) - len(wb)] == 0):
            b = b[len(b) - len(wb):]
        return max(close(r, "numerator", b, wb), close(r, "denominator", aa, np.real(w[1])))
    if op == "zpk2sos":
        def pair(x):
            # the tolerance for conjugates and real roots is SciPy's, in the precision of the call
            if not r["f32"]:
                return x
            c, re = cplxreal(x.astype(np.complex64))
            return np.concatenate([np.stack([c, np.conj(c)], 1).ravel(), re]).astype(complex)

        def f(h=0.0):
            return sg.zpk2sos(pair(C(a["z"])) * (1 + h), pair(C(a["p"])) * (1 - h), a["k"])
        if expect(r, f) is None:
            return 0.0
        return sos_strict(r, o["sos"], f)
    if op == "zpk2sos_min":
        def f(h=0.0):
            return sg.zpk2sos(C(a["z"]) * (1 + h), C(a["p"]) * (1 - h), a["k"], pairing="minimal", analog=bool(a["analog"]))
        if "panic" in r:
            # with nearly equal distances a greedy pairing may fail or not, depending on rounding
            try:
                for h in (1e-12, -1e-12) if not r["f32"] else (1e-6, -1e-6, 1e-4, -1e-4):
                    f(h)
            except (IndexError, AssertionError):
                raise ScipyFails()
            except ValueError:
                pass
        if expect(r, f) is None:
            return 0.0
        return sos_strict(r, o["sos"], f)
    if op == "poly":
        w = np.poly(C(a["z"])) if len(a["z"]) else np.array([1.0])
        return close(r, "polynomial", C(o["p"]), np.atleast_1d(w).astype(complex))
    if op == "savgol_coeffs":
        if a["w"] % 2 == 0 or a["w"] < a["p"] + 2:
            return SKIP
        w = expect(r, lambda: sg.savgol_coeffs(a["w"], a["p"], deriv=a["d"], delta=a["delta"]))
        return close(r, "coefficients", A(o["c"]), w, norm=None if np.any(w) else 1.0, tol=1e-7 if not r["f32"] else 2e-2)
    if op == "savgol_filter":
        if a["w"] % 2 == 0 or a["w"] < a["p"] + 2 or len(a["x"]) == 0:
            return SKIP
        w = expect(r, lambda: sg.savgol_filter(A(a["x"]), a["w"], a["p"], deriv=a["d"], delta=a["delta"], mode="nearest"))
        m = float(np.max(np.abs(A(a["x"])))) / min(1.0, abs(a["delta"])) ** a["d"]
        return close(r, "output", A(o["y"]), w, m, tol=1e-7 if not r["f32"] else 2e-2)
    if op in ("mean", "variance", "stdev", "median", "median_f", "mad", "zscore"):
        x = A(a["x"])
        if len(x) == 0:
            return SKIP
        if "panic" in r:
            raise Bad("rejected (%s)" % r["panic"])
        m = float(np.max(np.abs(x)))
        if op == "zscore":
            if np.std(x) < 1e-3 * m:
                return SKIP
            return close(r, "z-scores", A(o["y"]), scipy.stats.zscore(x), 1.0, tol=1e-9 if not r["f32"] else 1e-2)
        w = {"mean": np.mean, "variance": np.var, "stdev": np.std, "median": np.median, "median_f": np.median, "mad": scipy.stats.median_abs_deviation}[op](x)
        if o["n"] != len(x):
            raise Bad("count %d of %d" % (o["n"], len(x)))
        return close(r, op, A([o["v"]]), A([w]), {"variance": m * m}.get(op, m), tol=1e-9 if not r["f32"] else 1e-3)
    if op in ("convolve", "fftconvolve", "correlate"):
        x, y = A(a["x"]), A(a["y"])
        w = expect(r, lambda: getattr(sg, op)(x, y, mode=a["mode"]))
        return close(r, "output", A(o["y"]), w, float(np.linalg.norm(x) * np.linalg.norm(y)))
    if op in ("bessel", "bessel_vec"):
        x = np.atleast_1d(A(a["x"]))
        t = 1e-12 if not r["f32"] else 1e-5
        e = 0.0
        for k, f in (("i0", sp.i0), ("i0e", sp.i0e)):
            g, w = np.atleast_1d(A(o[k])), f(x)
            if g.shape != w.shape:
                raise Bad("%s: shape" % k)
            for u, v in zip(g, w):
                e = max(e, close(r, k, A([u]), A([v]), tol=t))
        return e
    if op == "companion":
        c = A(a["a"])
        if a["m"] != len(c) or len(c) < 2 or c[0] == 0:
            return SKIP
        w = expect(r, lambda: scipy.linalg.companion(c))
        return close(r, "matrix", A(o["data"]).reshape(o["cols"], o["rows"]).T, w)
    if op == "square":
        t, d = A(a["t"]), a["duty"]
        if not 0 <= d <= 1:
            return SKIP
        w = expect(r, lambda: sg.square(t, d))
        y = A(o["y"])
        if y.shape != w.shape:
            raise Bad("shape")
        m = np.mod(t, 2 * np.pi)
        far = (np.abs(m - 2 * np.pi * d) > 1e-4) & (m > 1e-4) & (m < 2 * np.pi - 1e-4)
        return close(r, "wave", y[far], w[far])
    if op in ("factorial", "factorial2", "factorialk", "comb", "comb_rep", "perm", "stirling2"):
        n, k = a["n"], a["k"]
        if op == "comb_rep" and (n <= 0 or k < 0):
            return SKIP
        f = {"factorial": lambda: sp.factorial(n, exact=True), "factorial2": lambda: sp.factorial2(n, exact=True),
             "factorialk": lambda: sp.factorialk(n, k, exact=True), "comb": lambda: sp.comb(n, k, exact=True),
             "comb_rep": lambda: sp.comb(n, k, exact=True, repetition=True), "perm": lambda: sp.perm(n, k, exact=True),
             "stirling2": lambda: sp.stirling2(n, k, exact=True)}[op]
        if op == "factorialk" and k <= 0:
            expect(r, f)
            return 0.0
        w = int(f())
        bits = int(a["type"][1:])
        if w > 2 ** (bits - (a["type"][0] == "i")) - 1:
            return SKIP
        if "panic" in r:
            raise Bad("rejected (%s), SciPy has %d" % (r["panic"], w))
        if o["v"] != w:
            raise Bad("%s(%d, %d) as %s is %d, SciPy has %d" % (op, n, k, a["type"], o["v"], w))
        return 0.0
    if op in ("imean", "imedian"):
        x = sorted(int(v) for v in a["x"])
        if not x:
            return SKIP
        if op == "imedian":
            q = x[len(x) // 2] if len(x) % 2 else (x[len(x) // 2 - 1] + x[len(x) // 2]) / 2
        else:
            q = sum(x) / len(x)
        # NumPy's value, truncated to the integer type
        if o["n"] != len(x) or o["v"] != (int(q) if abs(q) < 2 ** 52 else o["v"]):
            raise Bad("%r of %d, expected %r of %d" % (o["v"], o["n"], q, len(x)))
        return 0.0
    return SKIP


def work(lines):
    stats, bad = {}, []
    for line in lines:
        r = json.loads(line)
        k = r["op"] + (" f32" if r["f32"] else "")
        s = stats.setdefault(k, [0, 0, 0.0])
        try:
            e = ev(r)
        except Bad as x:
            bad.append({"i": r["i"], "sig": r["op"], "detail": "%s; call %s" % (x, json.dumps(r)[:1500])})
            s[0] += 1
            continue
        except ScipyFails:
            e = SKIP
        except Exception as x:  # a failure of this checker, never a verdict
            bad.append({"i": r["i"], "sig": "checker", "detail": "%r on %s" % (x, line[:600])})
            continue
        if e == SKIP:
            s[1] += 1
        else:
            s[0] += 1
            s[2] = max(s[2], e)
    return stats, bad


if __name__ == "__main__":
    lines = open(sys.argv[1]).readlines()
    ch = [lines[i:i + 400] for i in range(0, len(lines), 400)]
    total, n = {}, {}
    with multiprocessing.Pool(int(sys.argv[2])) as pool:
        for st, bad in pool.imap_unordered(work, ch):
            for b in bad:
                n[b["sig"]] = n.get(b["sig"], 0) + 1
                if n[b["sig"]] <= 3:
                    print(json.dumps(b))
            for k, v in st.items():
                t = total.setdefault(k, [0, 0, 0.0])
                t[0] += v[0]
                t[1] += v[1]
                t[2] = max(t[2], v[2])
    print(json.dumps({"total": total, "bad": n}))
