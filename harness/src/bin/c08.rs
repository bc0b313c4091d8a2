//! C08: frequency transformations implement their substitution.
use harness::*;
use sci_rs::na::Complex;
use sci_rs::signal::filter::design::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum T {
    Lp,
    Hp,
    Bp,
    Bs,
    Bil,
}
fn gen_roots<F: Fl>(r: &mut Rng, n: usize, closed: bool, left: bool, sc: f64) -> Vec<(f64, f64)> {
    let mut v = vec![];
    let q = |x: f64| F::of(x).d();
    while v.len() < n {
        let re = if left { -r.logf(0.05, 2.0) } else { r.f(-2.0, 2.0) } * sc;
        match r.below(4) {
            0 if !left => {
                // on the imaginary axis
                let im = r.logf(0.1, 3.0) * sc;
                if closed && n - v.len() >= 2 {
                    v.push((0.0, q(im)));
                    v.push((0.0, q(-im)));
                } else if !closed {
                    v.push((0.0, q(im)));
                }
            }
            1 => v.push((q(re), 0.0)),
            _ => {
                let im = r.f(-2.0, 2.0) * sc;
                if closed {
                    if n - v.len() >= 2 {
                        v.push((q(re), q(im)));
                        v.push((q(re), q(-im)));
                    } else {
                        v.push((q(re), 0.0));
                    }
                } else {
                    v.push((q(re), q(im)));
                }
            }
        }
    }
    v.truncate(n);
    r.shuffle(&mut v);
    v
}
fn mk<F: Fl>(v: &[(f64, f64)]) -> Vec<Complex<F>> {
    v.iter().map(|g| Complex::new(F::of(g.0), F::of(g.1))).collect()
}
fn cds(v: &[(f64, f64)]) -> Vec<CD> {
    v.iter().map(|g| cd(g.0, g.1)).collect()
}
fn h_of(z: &[CD], p: &[CD], k: f64, s: CD) -> CD {
    let mut h = cd(k, 0.0);
    for a in z {
        h = h * (s - *a);
    }
    for a in p {
        h = h / (s - *a);
    }
    h
}
fn sub(t: T, s: CD, wo: f64, bw: f64) -> CD {
    let (w, b) = (DD::from(wo), DD::from(bw));
    match t {
        T::Lp => CD { re: s.re / w, im: s.im / w },
        T::Hp => CD { re: w, im: DD::ZERO } / s,
        T::Bp => (s * s + CD { re: w * w, im: DD::ZERO }) / s.scale(b),
        T::Bs => s.scale(b) / (s * s + CD { re: w * w, im: DD::ZERO }),
        T::Bil => (s - CD::ONE).scale(w + w) / (s + CD::ONE),
    }
}
/// relative error of the factor a root contributes at point s, in units of eps
fn fac(t: T, root: CD, s: CD, wo: f64, bw: f64) -> f64 {
    let r = root.norm();
    match t {
        T::Lp => r * wo / (s - root.scale(DD::from(wo))).norm() + 1.0,
        T::Hp => {
            let q = cd(wo, 0.0) / root;
            q.norm() / (s - q).norm() + 1.0
        }
        T::Bp | T::Bs => {
            let a = if t == T::Bp { root.scale(DD::from(bw / 2.0)) } else { cd(bw / 2.0, 0.0) / root };
            let f = s * s - (a * s).scale(DD::from(2.0)) + cd(wo * wo, 0.0);
            let m = a.norm() + wo;
            m * (m + s.norm()) / f.norm() + 1.0
        }
        T::Bil => {
            let f2 = 2.0 * wo;
            let d = (cd(f2, 0.0) - root).norm();
            let z = (cd(f2, 0.0) + root) / (cd(f2, 0.0) - root);
            let e = (f2 + r) / d * (1.0 + z.norm());
            e / (s - z).norm() + (f2 + r) / d
        }
    }
}
fn run<F: Fl>(t: T, z: &[(f64, f64)], p: &[(f64, f64)], k: f64, wo: Option<f64>, bw: Option<f64>) -> ZpkFormatFilter<F> {
    let f = ZpkFormatFilter::new(mk::<F>(z), mk::<F>(p), F::of(k));
    let (w, b) = (wo.map(F::of), bw.map(F::of));
    match t {
        T::Lp => lp2lp_zpk_dyn(f, w),
        T::Hp => lp2hp_zpk_dyn(f, w),
        T::Bp => lp2bp_zpk_dyn(f, w, b),
        T::Bs => lp2bs_zpk_dyn(f, w, b),
        T::Bil => bilinear_zpk_dyn(f, F::of(wo.unwrap())),
    }
}
/// what the code of lp2hp / lp2bs is known to compute for finite zeros (pinned by its own unit tests)
fn pinned_wrong(t: T, z: &[CD], p: &[CD], k: f64, wo: f64, bw: f64) -> (Vec<CD>, f64) {
    let i = cd(0.0, 1.0);
    let den = p.iter().fold(CD::ONE, |a, r| a * -*r);
    if t == T::Hp {
        let zh = z.iter().map(|r| i.scale(DD::from(2.0 * wo)) / *r).collect::<Vec<_>>();
        let num = z.iter().fold(CD::ONE, |a, r| a * (*r - CD::ONE));
        (zh, k * (num / den).re.f())
    } else {
        let mut a = vec![];
        let mut b = vec![];
        for r in z {
            let h = i.scale(DD::from(bw)) / *r;
            let d = h.re.f() * h.re.f() - wo * wo;
            let im = if d < 0.0 { (-d).sqrt() } else { 0.0 };
            a.push(CD { re: h.re, im: DD::from(im) });
            b.push(CD { re: h.re, im: DD::from(-im) });
        }
        a.extend(b);
        let num = z.iter().fold(1.0, |m, r| m * r.re.f());
        (a, k * num / den.re.f())
    }
}
fn case<F: Fl>(c: &mut Case) {
    let t = c.rng.pick(&[T::Lp, T::Hp, T::Bp, T::Bs, T::Bil]);
    let np = if c.rng.one_in(8) { c.rng.urange(11, 40) } else { c.rng.below(11) };
    let nz = match c.rng.below(4) {
        0 => np,
        1 => 0,
        _ => c.rng.below(np + 1),
    };
    let closed = !matches!(t, T::Lp | T::Bp) || c.rng.bool();
    let sc = c.rng.pick(&[1.0, 1.0, 0.01, 50.0]);
    let z = gen_roots::<F>(&mut c.rng, nz, closed, false, sc);
    let p = gen_roots::<F>(&mut c.rng, np, closed, true, sc);
    if matches!(t, T::Hp | T::Bs) && z.iter().any(|g| g.0 == 0.0 && g.1 == 0.0) {
        return;
    }
    // single precision: the gain compensation must fit the number range
    let prod = |v: &[(f64, f64)]| v.iter().fold(1.0, |m, g| m * g.0.hypot(g.1));
    if F::NAME == "f32" && matches!(t, T::Hp | T::Bs) && !(prod(&p) > 1e-17 && prod(&p) < 1e17 && prod(&z) < 1e17) {
        c.cls("out-of-range");
        return;
    }
    let k = F::of(c.rng.logf(1e-3, 1e3) * c.rng.pick(&[1.0, -1.0])).d();
    let g = |c: &mut Case| match c.rng.below(4) {
        0 => None,
        1 => Some(c.rng.pick(&[1.0, 2.0, 0.5, 1.0])),
        _ => Some(F::of(c.rng.logf(0.01, 100.0)).d()),
    };
    let (mut wo, bw) = (g(c), g(c));
    if t == T::Bil {
        wo = Some(wo.unwrap_or(2.0));
    }
    let (w, b) = (wo.unwrap_or(1.0), bw.unwrap_or(1.0));
    let deg = (np - nz) as i32;
    let gain = k.abs().log10() + match t {
        T::Lp => deg as f64 * w.log10(),
        T::Bp => deg as f64 * b.log10(),
        T::Bil => {
            let l = |g: &(f64, f64)| (2.0 * w - g.0).hypot(g.1).log10();
            z.iter().map(l).sum::<f64>() - p.iter().map(l).sum::<f64>()
        }
        _ => 0.0,
    };
    if F::NAME == "f32" && gain.abs() > 25.0 {
        c.cls("out-of-range");
        return;
    }
    let ctx = || format!("{} {t:?} z={z:?} p={p:?} k={k:e} wo/fs={wo:?} bw={bw:?}", F::NAME);
    c.key(H::default().s(&ctx()).0);
    let lump = |n: usize| if n > 10 { n / 10 * 10 } else { n };
    c.cls(format!("{} {t:?} np={} nz={} closed={closed}", F::NAME, lump(np), lump(nz)));
    c.cls(format!("{t:?} wo={} bw={}", wo.is_some(), bw.is_some()));
    c.sample(ctx);
    let Some(f) = c.must("transform", ctx, || run::<F>(t, &z, &p, k, wo, bw)) else { return };
    let (wz, wp) = match t {
        T::Lp => (nz, np),
        T::Hp | T::Bil => (np, np),
        T::Bp => (np + nz, 2 * np),
        T::Bs => (2 * np, 2 * np),
    };
    c.ev(2);
    if f.z.len() != wz || f.p.len() != wp {
        c.fail(format!("{t:?}:counts"), format!("{} zeros {} poles, expected {wz} {wp}; {}", f.z.len(), f.p.len(), ctx()));
        return;
    }
    let (zc, pc) = (cds(&z), cds(&p));
    let (zr, pr) = (zd(&f.z), zd(&f.p));
    let ref_scale = match t {
        T::Bil => 1.0,
        T::Lp => w * sc,
        T::Hp => w / sc,
        T::Bp | T::Bs => w,
    };
    let mut bad = None;
    for _ in 0..8 {
        let s = cd(ref_scale * c.rng.f(-3.0, 3.0), ref_scale * c.rng.f(-3.0, 3.0));
        let want = h_of(&zc, &pc, k, sub(t, s, w, b));
        let got = h_of(&zr, &pr, f.k.d(), s);
        let cond: f64 = zc.iter().chain(pc.iter()).map(|r| fac(t, *r, s, w, b)).sum::<f64>()
            // zeros moved from infinity: exact, except wo rounding for band-stop
            + if t == T::Bs { 4.0 * np as f64 * (w * (w + s.norm()) / (s * s + cd(w * w, 0.0)).norm()) } else { 0.0 };
        let tol = 60.0 * F::EPS * (cond + 4.0 + 2.0 * np as f64);
        if !(tol < 1e-2) || !(want.norm() > 1e-200 && want.norm() < 1e200) {
            c.cls("point-skipped");
            continue;
        }
        c.ev(1);
        let e = ((got - want) / want).norm();
        if e <= tol && (nz == 0 || !matches!(t, T::Hp | T::Bs)) {
            c.ratio(&format!("{t:?} {}", F::NAME), e / tol);
        }
        if !(e <= tol) {
            bad = Some(format!("H'={got:?} expected {want:?} (rel {e:e}, tol {tol:e}) at {s:?}; {}", ctx()));
            break;
        }
    }
    let Some(msg) = bad else { return };
    if matches!(t, T::Hp | T::Bs) && nz > 0 {
        // the recorded defect, and nothing else, is filtered by its exact formula
        let (wz, wk) = pinned_wrong(t, &zc, &pc, k, w, b);
        let tol = 1e4 * F::EPS;
        let n = wz.len();
        let near = |x: CD, y: CD| (x - y).norm() <= tol * (x.norm() + w) || t == T::Bs && ((x - y).norm() <= 30.0 * F::EPS.sqrt() * (x.norm() + w) || (x.conj() - y).norm() <= 30.0 * F::EPS.sqrt() * (x.norm() + w));
        let zs_ok = n <= zr.len() && wz.iter().zip(&zr).all(|(x, y)| near(*x, *y));
        let k_ok = (f.k.d() - wk).abs() <= tol * zc.iter().fold(wk.abs().max(k.abs()), |m, r| m * (2.0 + r.norm()));
        if zs_ok && k_ok {
            c.fail_known(if t == T::Hp { "lp2hp-finite-zeros" } else { "lp2bs-finite-zeros" }, msg);
            return;
        }
    }
    c.fail(format!("{t:?}:substitution"), msg);
}
fn improper<F: Fl>(c: &mut Case) {
    let t = c.rng.pick(&[T::Lp, T::Hp, T::Bp, T::Bs, T::Bil]);
    let np = if c.rng.one_in(6) { c.rng.urange(8, 30) } else { c.rng.below(8) };
    let nz = np + 1 + c.rng.below(3);
    let z = gen_roots::<F>(&mut c.rng, nz, true, false, 1.0);
    let p = gen_roots::<F>(&mut c.rng, np, true, true, 1.0);
    c.key(H::default().s(&format!("{t:?}{z:?}{p:?}")).0);
    c.cls(format!("improper {t:?}"));
    c.must_panic(&format!("improper-{t:?}"), || format!("{nz} zeros, {np} poles"), || run::<F>(t, &z, &p, 1.0, Some(1.5), Some(0.5)));
}
fn main() {
    let r = Runner::new("C08");
    r.stream("substitution-f64", 60000, 1_500_000, case::<f64>);
    r.stream("substitution-f32", 40000, 800_000, case::<f32>);
    r.stream("improper", 8000, 80000, |c| if c.rng.bool() { improper::<f64>(c) } else { improper::<f32>(c) });
    r.finish()
}
