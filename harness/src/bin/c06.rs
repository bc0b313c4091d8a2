//! C06: digital designs have the closed-form magnitude response, are stable and well formed.
use harness::*;
use sci_rs::signal::filter::design::*;

const K: f64 = 40.0;
fn check<F: Fl>(c: &mut Case, q: &Req) {
    let ctx = || format!("{} {q:?}", F::NAME);
    c.cls(format!("{} {:?} {:?} n={}", F::NAME, q.fam, q.band, q.order));
    c.cls(format!("out={:?} omit={} generic={} fs={}", q.out, q.omit, q.generic, q.fs.is_some()));
    c.key(H::default().s(F::NAME).s(&format!("{q:?}")).0);
    c.sample(ctx);
    let Some(f) = c.must("design", ctx, || q.run::<F>()) else { return };
    let np = q.npoles();
    let n_pts = if c.thorough { 40 } else { 24 };
    let pts = gen_points(&mut c.rng, q, n_pts);
    // sizes
    let mut q2 = q.clone();
    q2.out = Out::Zpk;
    q2.omit = false;
    let Some(DigitalFilter::Zpk(zf)) = c.must("design", ctx, || q2.run::<F>()) else { return };
    match &f {
        DigitalFilter::Zpk(f) => {
            if f.z.len() != np || f.p.len() != np {
                c.fail("counts", format!("{} zeros {} poles, expected {np}; {}", f.z.len(), f.p.len(), ctx()));
                return;
            }
            if q.out != Out::Zpk {
                c.fail("format", format!("zpk returned; {}", ctx()));
            }
            let (z, p) = (zd(&f.z), zd(&f.p));
            c.ev(2 * np);
            for r in &p {
                if !(r.norm() < 1.0) || !r.finite() {
                    c.fail("unstable", format!("pole {r:?}; {}", ctx()));
                    return;
                }
            }
            let lim = 1000.0 * F::EPS;
            for r in &z {
                let d = (r.norm() - 1.0).abs();
                c.ratio("zero-on-circle", d / lim);
                if !(d <= lim) {
                    c.fail("zero-off-circle", format!("zero {r:?} |.|-1={d:e}; {}", ctx()));
                    return;
                }
            }
            let g = conj_gap(&z).max(conj_gap(&p));
            c.ratio("conj", g / lim);
            if !(g <= lim) {
                c.fail("conjugates", format!("gap {g:e}; {}", ctx()));
                return;
            }
        }
        DigitalFilter::Sos(f) => {
            if q.out != Out::Sos {
                c.fail("format", format!("sos returned; {}", ctx()));
            }
            if f.sos.len() != np.div_ceil(2) {
                c.fail("section-count", format!("{} sections for {np} poles; {}", f.sos.len(), ctx()));
                return;
            }
            for s in &f.sos {
                c.ev(1);
                if s.zi0.d() != 0.0 || s.zi1.d() != 0.0 {
                    c.fail("section-state", format!("fresh section has state {:?} {:?}; {}", s.zi0, s.zi1, ctx()));
                    return;
                }
                if s.a[0].d() != 1.0 {
                    c.fail("section-a0", format!("a={:?}; {}", s.a, ctx()));
                    return;
                }
                // Jury: poles inside the circle
                let (a1, a2) = (s.a[1].d(), s.a[2].d());
                if !(a2 < 1.0 && a2 > -1.0 && a1.abs() < 1.0 + a2 + 4.0 * F::EPS) {
                    c.fail("unstable", format!("section a={:?}; {}", s.a, ctx()));
                    return;
                }
            }
        }
        DigitalFilter::Ba(f) => {
            if q.out != Out::Ba {
                c.fail("format", format!("ba returned; {}", ctx()));
            }
            if f.a[0].d() != 1.0 || f.b.len() < np + 1 || f.a.len() < np + 1 {
                c.fail("ba-form", format!("a={:?} b={:?}; {}", f.a, f.b, ctx()));
                return;
            }
            if f.a[np + 1..].iter().chain(&f.b[np + 1..]).any(|x| x.d() != 0.0) {
                c.fail("ba-degree", format!("more than {} coefficients: a={:?}; {}", np + 1, f.a, ctx()));
                return;
            }
        }
    }
    // product of (1+|root|): conditioning of the polynomial form
    let sb = zd(&zf.z).iter().fold(zf.k.d().abs(), |m, r| m * (1.0 + r.norm()));
    let sa = zd(&zf.p).iter().fold(1.0, |m, r| m * (1.0 + r.norm()));
    let ev = |s: CD| -> Eval {
        let dc = design_cond(q, &zf, s);
        match &f {
            DigitalFilter::Zpk(f) => Eval { h: eval_zpk(f, s).h, cond: dc },
            DigitalFilter::Sos(f) => {
                let e = eval_sos(&f.sos, s);
                Eval { h: e.h, cond: dc + e.cond }
            }
            DigitalFilter::Ba(f) => {
                let b: Vec<f64> = f.b.iter().map(|x| x.d()).collect();
                let a: Vec<f64> = f.a.iter().map(|x| x.d()).collect();
                let bb = eval_ba(&b, &[1.0], s).h.norm();
                let aa = eval_ba(&a, &[1.0], s).h.norm();
                Eval { h: eval_ba(&b, &a, s).h, cond: dc + np as f64 * (sb / bb + sa / aa) }
            }
        }
    };
    let kk = K * F::EPS;
    let mut used = 0;
    for t in pts {
        let s = circle(t);
        let e = ev(s);
        let got = e.h.norm();
        let want = q.mag(t);
        // sensitivity of the reference to the rounding of the requested edges
        let tol = kk * (e.cond + np as f64 + 4.0) + ref_sens::<F>(q, t, want);
        if !(tol < 0.05) {
            c.cls(format!("point-skipped {:?}", q.out));
            if want < 1e-30 || !(want > 0.0) {
                continue;
            }
            // even badly conditioned points must not exceed the bound grossly
            continue;
        }
        used += 1;
        let err = (got / want - 1.0).abs();
        c.ratio(&format!("mag {} {:?}", F::NAME, q.out), err / tol);
        if !(err <= tol) {
            c.fail(
                format!("magnitude:{:?}:{:?}:{:?}", q.fam, q.band, q.out),
                format!("|H|={got:e} closed form {want:e} (rel err {err:e}, tol {tol:e}) at w={:.6} pi, prototype frequency {:.6}; {}", 2.0 * t.atan() / std::f64::consts::PI, q.omega(t), ctx()),
            );
            return;
        }
    }
    c.ev(used);
    // sign at the reference frequency
    let e = q.edges();
    let refp = match q.band {
        Band::Lp | Band::Bs => cd(1.0, 0.0),
        Band::Hp => cd(-1.0, 0.0),
        Band::Bp => circle((e[0] * e[1]).sqrt()),
    };
    let x = ev(refp);
    let tol = kk * (x.cond + np as f64 + 4.0) + 1e-9;
    let g = proto_mag(q.fam, q.order, q.r, 0.0);
    if tol < 0.05 {
        c.ev(1);
        c.cls("sign-observed");
        let (re, im) = (x.h.re.f() / g, x.h.im.f() / g);
        if !((re - 1.0).abs() <= tol && im.abs() <= tol.max(1e-6)) {
            c.fail("reference-gain", format!("H at the reference frequency is ({re:e}, {im:e}) times the expected positive gain; {}", ctx()));
        }
    }
}
fn main() {
    let r = Runner::new("C06");
    r.stream("random-f64", 60000, 1_500_000, |c| {
        let q = gen_req::<f64>(&mut c.rng, 12);
        check::<f64>(c, &q)
    });
    r.stream("random-f32", 40000, 800_000, |c| {
        let q = gen_req::<f32>(&mut c.rng, 12);
        check::<f32>(c, &q)
    });
    // every order, family, band, output, both calling styles, at benign frequencies
    r.stream("grid", 12 * 3 * 4 * 3 * 4 * 2, 12 * 3 * 4 * 3 * 4 * 20, |c| {
        let mut i = c.idx as usize;
        let mut take = |n: usize| {
            let v = i % n;
            i /= n;
            v
        };
        let order = 1 + take(12);
        let fam = [Fam::Butter, Fam::Cheb1, Fam::Cheb2][take(3)];
        let band = [Band::Lp, Band::Hp, Band::Bp, Band::Bs][take(4)];
        let out = [Out::Ba, Out::Zpk, Out::Sos][take(3)];
        let (omit, generic) = (take(2) == 1, take(2) == 1);
        if fam == Fam::Cheb2 && matches!(band, Band::Hp | Band::Bs) {
            return;
        }
        let a = c.rng.f(0.15, 0.45);
        let mut q = Req {
            fam,
            band,
            order,
            wn: if band.two() { vec![a, a + c.rng.f(0.2, 0.35)] } else { vec![a] },
            r: c.rng.f(0.5, 15.0),
            fs: if c.rng.bool() { Some(1000.0) } else { None },
            analog: false,
            out,
            omit,
            generic,
        };
        if c.rng.one_in(4) {
            // decimal-friendly arguments
            q.r = c.rng.pick(&[1.0, 3.0, 10.0]);
            q.wn = if band.two() { vec![0.25, 0.5] } else { vec![c.rng.pick(&[0.25, 0.5])] };
        }
        if q.fs.is_some() {
            for w in q.wn.iter_mut() {
                *w *= 500.0;
            }
        }
        if c.rng.bool() {
            check::<f64>(c, &q)
        } else {
            q.wn = q.wn.iter().map(|x| *x as f32 as f64).collect();
            q.r = q.r as f32 as f64;
            check::<f32>(c, &q)
        }
    });
    r.finish()
}
