//! C09: analog prototypes and analog designs have the closed-form response.
use harness::*;
use sci_rs::signal::filter::design::*;

const K: f64 = 60.0;
fn proto<F: Fl>(c: &mut Case) {
    let n = c.rng.below(21);
    let one = c.rng.bool();
    let f32_ = F::NAME == "f32";
    let (lo, hi) = if f32_ { (0.05, 40.0) } else { (0.01, 100.0) };
    let r = match c.rng.below(4) {
        0 => c.rng.pick(&[0.1, 0.5, 1.0, 3.0, 6.0, 10.0, 20.0, 40.0]),
        1 => c.rng.pick(&[lo, hi]),
        _ => c.rng.logf(lo, hi),
    };
    let r = F::of(r).d();
    let fam = if one { Fam::Cheb1 } else { Fam::Cheb2 };
    let ctx = || format!("{} {fam:?} prototype n={n} ripple={r}", F::NAME);
    c.key(H::default().s(&ctx()).0);
    c.cls(format!("proto {} {fam:?} n={n}", F::NAME));
    c.sample(ctx);
    let Some(f) = c.must("prototype", ctx, || if one { cheb1ap_dyn(n, F::of(r)) } else { cheb2ap_dyn(n, F::of(r)) }) else { return };
    let nz = if one { 0 } else { n - n % 2 };
    c.ev(2);
    if f.p.len() != n || f.z.len() != nz {
        c.fail("prototype-counts", format!("{} zeros {} poles; {}", f.z.len(), f.p.len(), ctx()));
        return;
    }
    let (z, p) = (zd(&f.z), zd(&f.p));
    c.ev(2 * n);
    if let Some(x) = p.iter().find(|x| !(x.re.f() < 0.0) || !x.finite()) {
        c.fail("prototype-halfplane", format!("pole {x:?}; {}", ctx()));
        return;
    }
    if let Some(x) = z.iter().find(|x| !(x.re.f().abs() <= 100.0 * F::EPS * x.norm()) || !x.finite()) {
        c.fail("prototype-zero-axis", format!("zero {x:?}; {}", ctx()));
        return;
    }
    let lim = 1000.0 * F::EPS;
    let g = conj_gap(&z).max(conj_gap(&p));
    c.ratio("conj", g / lim);
    if !(g <= lim) {
        c.fail("prototype-conjugates", format!("gap {g:e}; {}", ctx()));
        return;
    }
    if n == 0 {
        let want = if one { (10f64).powf(-r / 20.0) } else { 1.0 };
        if !((f.k.d() / want - 1.0).abs() <= 1e3 * F::EPS) {
            c.fail("prototype-order0", format!("k={} expected {want}; {}", f.k.d(), ctx()));
        }
        return;
    }
    let q = Req { fam, band: Band::Lp, order: n, wn: vec![1.0], r, fs: None, analog: true, out: Out::Zpk, omit: false, generic: true };
    let gmin = (10f64).powf(-r / 20.0);
    let mut w: Vec<f64> = vec![0.0, 1.0];
    for _ in 0..12 {
        w.push(c.rng.f(0.0, 1.2));
        w.push(c.rng.logf(0.01, 100.0));
    }
    for t in w {
        let s = cd(0.0, t);
        let e = eval_zpk(&f, s);
        // relative error of the roots: their real and imaginary parts are products of accurate factors
        let want = q.mag(t);
        let tol = K * F::EPS * (e.cond + n as f64 + 4.0) + ref_sens::<F>(&q, t, want);
        if !(tol < 0.05) {
            c.cls("proto-point-skipped");
            continue;
        }
        let got = e.h.norm();
        let err = (got / want - 1.0).abs();
        c.ev(1);
        c.ratio(&format!("proto {} {fam:?}", F::NAME), err / tol);
        if !(err <= tol) {
            c.fail(format!("prototype-magnitude:{fam:?}"), format!("|H(j{t})|={got:e} closed form {want:e} (rel {err:e} tol {tol:e}); {}", ctx()));
            return;
        }
        // the specification itself
        if one && t <= 1.0 && !(got >= gmin * (1.0 - tol) && got <= 1.0 + tol) {
            c.fail("passband-ripple", format!("|H(j{t})|={got:e} outside [{gmin:e}, 1]; {}", ctx()));
            return;
        }
        if !one && t >= 1.0 && !(got <= gmin * (1.0 + tol)) {
            c.fail("stopband-attenuation", format!("|H(j{t})|={got:e} above {gmin:e}; {}", ctx()));
            return;
        }
    }
    // positive real gain at DC
    let e = eval_zpk(&f, cd(0.0, 0.0));
    if !(e.h.re.f() > 0.0) || !(e.h.im.f().abs() <= 1e3 * F::EPS * (n as f64 + 1.0) * e.h.norm()) {
        c.fail("prototype-dc-sign", format!("H(0)={:?}; {}", e.h, ctx()));
    }
}
fn gen<F: Fl>(r: &mut Rng) -> Req {
    let f32_ = F::NAME == "f32";
    let mut q = gen_req::<F>(r, 12);
    q.analog = true;
    q.fs = None;
    let (lo, hi) = if f32_ { (0.1, 30.0) } else { (1e-3, 1e4) };
    let e = |r: &mut Rng| match r.below(4) {
        0 => r.pick(&[0.5, 1.0, 2.0, 0.25, 10.0, 1.5]),
        _ => r.logf(lo, hi),
    };
    if q.band.two() {
        loop {
            let a = e(r);
            let b = if r.bool() { a * (1.0 + r.logf(0.01, 3.0)) } else { e(r) };
            let (a, b) = (F::of(a.min(b)).d(), F::of(a.max(b)).d());
            if b >= a * 1.01 && b / a < 300.0 && b <= hi * 4.0 {
                q.wn = vec![a, b];
                break;
            }
        }
    } else {
        q.wn = vec![F::of(e(r)).d()];
    }
    q
}
fn design<F: Fl>(c: &mut Case) {
    let q = gen::<F>(&mut c.rng);
    let q = &q;
    let ctx = || format!("{} {q:?}", F::NAME);
    c.cls(format!("analog {} {:?} {:?} n={} {:?}", F::NAME, q.fam, q.band, q.order, q.out));
    c.key(H::default().s(&ctx()).0);
    c.sample(ctx);
    let Some(f) = c.must("design", ctx, || q.run::<F>()) else { return };
    let mut q2 = q.clone();
    q2.out = Out::Zpk;
    q2.omit = false;
    let Some(DigitalFilter::Zpk(zf)) = c.must("design", ctx, || q2.run::<F>()) else { return };
    let n = q.order;
    let np = q.npoles();
    let nzp = if q.fam == Fam::Cheb2 { n - n % 2 } else { 0 };
    let nz = match q.band {
        Band::Lp => nzp,
        Band::Hp => n,
        Band::Bp => nzp + n,
        Band::Bs => 2 * n,
    };
    c.ev(3);
    match &f {
        DigitalFilter::Zpk(f) => {
            if q.out != Out::Zpk {
                c.fail("format", ctx());
                return;
            }
            if f.z.len() != nz || f.p.len() != np {
                c.fail("counts", format!("{} zeros {} poles, expected {nz} {np}; {}", f.z.len(), f.p.len(), ctx()));
                return;
            }
            if let Some(x) = zd(&f.p).iter().find(|x| !(x.re.f() < 0.0) || !x.finite()) {
                c.fail("halfplane", format!("pole {x:?}; {}", ctx()));
                return;
            }
            let lim = 1000.0 * F::EPS;
            let sc = q.edges().iter().fold(0.0f64, |m, e| m.max(*e)) * 10.0;
            if let Some(x) = zd(&f.z).iter().find(|x| !(x.re.f().abs() <= lim * (x.norm() + sc))) {
                c.fail("zero-axis", format!("zero {x:?}; {}", ctx()));
                return;
            }
        }
        DigitalFilter::Sos(f) => {
            if q.out != Out::Sos {
                c.fail("format", ctx());
                return;
            }
            if f.sos.len() != np.max(nz).div_ceil(2) {
                c.fail("section-count", format!("{} sections, {np} poles {nz} zeros; {}", f.sos.len(), ctx()));
                return;
            }
            if f.sos.iter().any(|s| s.zi0.d() != 0.0 || s.zi1.d() != 0.0) {
                c.fail("section-state", ctx());
                return;
            }
        }
        DigitalFilter::Ba(f) => {
            if q.out != Out::Ba {
                c.fail("format", ctx());
                return;
            }
            // degree in s: leading zeros do not matter, trailing ones do
            let da = f.a.iter().position(|x| x.d() != 0.0).map(|i| f.a.len() - 1 - i);
            let db = f.b.iter().position(|x| x.d() != 0.0).map(|i| f.b.len() - 1 - i);
            if da != Some(np) || db != Some(nz) {
                c.fail("ba-degree", format!("degrees {db:?}/{da:?} expected {nz}/{np}: b={:?} a={:?}; {}", f.b, f.a, ctx()));
                return;
            }
        }
    }
    let npts = if c.thorough { 40 } else { 24 };
    let mut pts = gen_points(&mut c.rng, q, npts);
    if !matches!(q.band, Band::Hp | Band::Bp) {
        pts.push(0.0);
    }
    let mut used = 0;
    for t in pts {
        let s = cd(0.0, t);
        let dc = design_cond(q, &zf, s);
        let sb = zd(&zf.z).iter().fold(zf.k.d().abs(), |m, r| m * (t + r.norm()));
        let sa = zd(&zf.p).iter().fold(1.0, |m, r| m * (t + r.norm()));
        let e = match &f {
            DigitalFilter::Zpk(f) => Eval { h: eval_zpk(f, s).h, cond: dc },
            DigitalFilter::Sos(f) => {
                let e = eval_sos(&f.sos, s);
                Eval { h: e.h, cond: dc + e.cond }
            }
            DigitalFilter::Ba(f) => {
                let b: Vec<f64> = f.b.iter().map(|x| x.d()).collect();
                let a: Vec<f64> = f.a.iter().map(|x| x.d()).collect();
                let bb = eval_ba(&b, &[1.0], s).h.norm();
                let aa = eval_ba(&a, &[1.0], s).h.norm();
                Eval { h: eval_ba(&b, &a, s).h, cond: dc + np as f64 * (sb / bb + sa / aa) }
            }
        };
        let want = if t == 0.0 { proto_mag(q.fam, n, q.r, 0.0) } else { q.mag(t) };
        let rt = if t == 0.0 { 100.0 * F::EPS } else { ref_sens::<F>(q, t, want) };
        let tol = K * F::EPS * (e.cond + np as f64 + 4.0) + rt;
        // the reference arithmetic squares magnitudes
        let over = sa.max(sb).max(1.0 / sa).max(1.0 / sb) > 1e140;
        if !(tol < 0.05) || !(want > 1e-25) || over {
            c.cls(format!("point-skipped {:?}", q.out));
            continue;
        }
        used += 1;
        let got = e.h.norm();
        let err = (got / want - 1.0).abs();
        if err <= tol {
            c.ratio(&format!("mag {} {:?}", F::NAME, q.out), err / tol);
        }
        if !(err <= tol) {
            c.fail(format!("magnitude:{:?}:{:?}:{:?}", q.fam, q.band, q.out), format!("|H(j{t:e})|={got:e} closed form {want:e} (rel {err:e} tol {tol:e}), prototype frequency {:.6}; {}", q.omega(t), ctx()));
            return;
        }
    }
    c.ev(used);
    if used > 0 {
        c.cls("design-observed");
    }
}
fn main() {
    let r = Runner::new("C09");
    r.stream("prototypes-f64", 20000, 400_000, proto::<f64>);
    r.stream("prototypes-f32", 12000, 200_000, proto::<f32>);
    r.stream("designs-f64", 40000, 1_000_000, design::<f64>);
    r.stream("designs-f32", 25000, 500_000, design::<f32>);
    r.finish()
}
