//! C03: step-response initial conditions are the steady state.
use harness::*;
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::*;

fn lf<F: Fl>(c: &mut Case, m: usize) {
    // exact: normalised A(1) is a power of two, everything dyadic and small
    let lead = if m > 2 && c.rng.one_in(3) { { let t = c.rng.urange(1, 3); t.min(m - 2).max(if c.rng.one_in(4) { c.rng.urange(1, m - 2) } else { 1 }) } } else { 0 };
    let a0 = c.rng.pick(&[1i64, 1, 1, 2, -1, -2, 4]);
    let mut a = vec![0i64; m];
    a[lead] = a0;
    let last = m - 1;
    if last > lead {
        for v in a[lead + 1..last].iter_mut() {
            *v = c.rng.range(-4, 4);
            if c.rng.one_in(4) {
                *v = 0;
            }
        }
        let s: i64 = a.iter().sum();
        let goal = a0 * c.rng.pick(&[1i64, 2, 4, 8, -1, -2, -4]);
        a[last] = goal - s;
    }
    let b: Vec<i64> = (0..m).map(|_| if c.rng.one_in(4) { 0 } else { c.rng.range(-5, 5) }).collect();
    let bf: Vec<f64> = b.iter().map(|v| *v as f64).collect();
    let af: Vec<f64> = a.iter().map(|v| *v as f64).collect();
    let Some((zi, _, g)) = zi_ref::<F>(&bf, &af) else { return };
    c.key(H::default().s(F::NAME).is(&b).is(&a).0);
    c.cls(format!("exact m={m} lead={lead}"));
    c.sample(|| format!("{} b={b:?} a={a:?} -> dc gain {}", F::NAME, g.f()));
    let (bv, av) = (to::<F>(&bf), to::<F>(&af));
    let Some(got) = c.must("lfilter_zi", || format!("b={b:?} a={a:?}"), || lfilter_zi_dyn(&bv, &av)) else { return };
    c.ev(m);
    if got.len() != m - 1 {
        c.fail("lfilter_zi:length", format!("{} conditions for {m} coefficients; b={b:?} a={a:?}", got.len()));
        return;
    }
    for i in 0..m - 1 {
        if got[i].d() != zi[i].f() {
            c.fail("lfilter_zi:value", format!("{} zi[{i}]={:?}, exact {}; b={b:?} a={a:?}", F::NAME, got[i], zi[i].f()));
            return;
        }
    }
}
fn lf_float<F: Fl>(c: &mut Case) {
    let m = if c.rng.one_in(8) { c.rng.urange(13, 48) } else { c.rng.urange(2, 12) };
    let sc = c.rng.pick(&[1.0, 1.0, 1e-3, 1e4, 0.37]);
    let mk = |c: &mut Case, n: usize| -> Vec<f64> { (0..n).map(|_| F::of(sc * c.rng.normal()).d()).collect() };
    let b = mk(c, m);
    let mut a = mk(c, m);
    if c.rng.bool() {
        a[0] = 1.0;
    }
    if m > 2 && c.rng.one_in(6) {
        let lead = c.rng.urange(1, m - 2);
        a[..lead].fill(0.0);
    }
    if a.iter().all(|v| *v == 0.0) {
        return;
    }
    let Some((zi, err, _)) = zi_ref::<F>(&b, &a) else { return };
    let mag = zi.iter().fold(0.0f64, |x, y| x.max(y.0.abs()));
    if !(err < 1e-2 * mag.max(1e-30)) {
        c.cls("float:skipped-ill-conditioned");
        return;
    }
    c.key(H::default().s(F::NAME).fs(&b).fs(&a).0);
    let (bv, av) = (to::<F>(&b), to::<F>(&a));
    let Some(got) = c.must("lfilter_zi", || format!("b={b:?} a={a:?}"), || lfilter_zi_dyn(&bv, &av)) else { return };
    c.ev(m);
    c.cls(format!("float m={m}"));
    if got.len() != m - 1 {
        c.fail("lfilter_zi:length", format!("{} for m={m}", got.len()));
        return;
    }
    for i in 0..m - 1 {
        let e = (got[i].d() - zi[i].f()).abs();
        c.ratio("lfilter_zi", e / err);
        if !(e <= err) {
            c.fail("lfilter_zi:value", format!("{} zi[{i}]={:?} reference {:e} tol {err:e}; b={b:?} a={a:?}", F::NAME, got[i], zi[i].f()));
            return;
        }
    }
}
fn cascade<F: Fl>(c: &mut Case) {
    let n = if c.rng.one_in(8) { c.rng.urange(17, 90) } else { c.rng.below(17) };
    let exact = c.rng.bool();
    let mut secs = if exact {
        (0..n)
            .map(|_| {
                let a = c.rng.pick(&[[1.0, 0.0, 0.0], [1.0, 1.0, 0.0], [1.0, 0.0, 1.0], [1.0, -1.0, 1.0], [1.0, 0.5, 0.5], [1.0, -0.5, 0.0], [1.0, 0.25, -0.25], [1.0, -1.0, 0.5]]);
                let a1: f64 = a.iter().sum();
                // B(1) = +-A(1)*{1,2,1/2} keeps the running gain a power of two
                let g = a1 * c.rng.pick(&[1.0, -1.0, 1.0, 2.0, 0.5, 1.0, -1.0, -2.0, -0.5, 0.0]);
                let (b1, b2) = (c.rng.range(-3, 3) as f64, if c.rng.bool() { 0.0 } else { c.rng.range(-3, 3) as f64 });
                FSec { b: [g - b1 - b2, b1, b2], a, z: [9.0, -7.0] }
            })
            .collect::<Vec<_>>()
    } else {
        gen_fsecs::<F>(&mut c.rng, n, if n < 4 { 0.99 } else { 0.9 })
    };
    if !exact && c.rng.one_in(3) {
        // high-pass and band-pass like sections: the gain at z = 1 vanishes exactly
        for s in secs.iter_mut() {
            if c.rng.one_in(4) {
                let g = s.b[0];
                s.b = c.rng.pick(&[[g, -2.0 * g, g], [g, 0.0, -g], [g, -g, 0.0]]);
            }
        }
    }
    for s in secs.iter_mut() {
        // leftovers must not matter
        s.z = [c.rng.f(-5.0, 5.0), f64::NAN];
    }
    let Some((zi, err, gain)) = zi_cascade::<F>(&secs) else { return };
    if gain.0.abs() > 1e12 {
        return;
    }
    let mut sos: Vec<Sos<F>> = secs.iter().map(|s| s.sos()).collect();
    c.key(H::default().s(F::NAME).u(exact as u64).fs(secs.iter().flat_map(|s| s.b.iter().chain(s.a.iter()))).0);
    c.cls(format!("cascade exact={exact} n={n}"));
    if c.must("sosfilt_zi", || format!("{secs:?}"), || sosfilt_zi_dyn::<F, _, Sos<F>>(sos.iter_mut())).is_none() {
        return;
    }
    c.ev(2 * n);
    for k in 0..n {
        let g = [sos[k].zi0.d(), sos[k].zi1.d()];
        for j in 0..2 {
            let e = (g[j] - zi[k][j].f()).abs();
            let tol = if exact { 0.0 } else { err[k] };
            if !exact {
                c.ratio("sosfilt_zi", e / err[k]);
            }
            if !(e <= tol) {
                c.fail("sosfilt_zi:value", format!("{} section {k}/{n} zi{j}={:?} reference {:e} tol {tol:e}; sections {}", F::NAME, g[j], zi[k][j].f(), short(&secs)));
                return;
            }
        }
        for j in 0..3 {
            if sos[k].b[j].d() != secs[k].b[j] || sos[k].a[j].d() != secs[k].a[j] {
                c.fail("sosfilt_zi:coefs", format!("section {k} coefficients changed"));
                return;
            }
        }
    }
    if exact {
        // seeded filter on a constant: steady from the first sample on, state unchanged
        let cst = c.rng.pick(&[1.0, -3.0, 64.0, 1024.0]);
        let before: Vec<_> = sos.iter().map(|s| (s.zi0.d() * cst, s.zi1.d() * cst)).collect();
        for s in sos.iter_mut() {
            s.zi0 = F::of(s.zi0.d() * cst);
            s.zi1 = F::of(s.zi1.d() * cst);
        }
        let len = c.rng.urange(1, 20);
        let e = c.rng.below(6);
        let y = run_entry(e, &vec![F::of(cst); len], &mut sos);
        c.ev(len);
        let want = gain.f() * cst;
        let bad = y.iter().position(|v| v.d() != want);
        let moved = sos.iter().zip(&before).any(|(s, b)| s.zi0.d() != b.0 || s.zi1.d() != b.1);
        if bad.is_some() || moved {
            c.fail("steady-state", format!("{} constant {cst} through {n} seeded sections: outputs {} expected {want}, state moved: {moved}; sections {}", F::NAME, short(&y), short(&secs)));
        }
    }
}
fn main() {
    let r = Runner::new("C03");
    r.stream("exact", 11 * 2 * 3000, 11 * 2 * 60000, |c| {
        let m = 2 + (c.idx / 2 % 11) as usize;
        if c.idx % 2 == 0 {
            lf::<f32>(c, m)
        } else {
            lf::<f64>(c, m)
        }
    });
    r.stream("wide", 8000, 100_000, |c| {
        let m = c.rng.urange(13, 64);
        if c.rng.bool() {
            lf::<f32>(c, m)
        } else {
            lf::<f64>(c, m)
        }
    });
    r.stream("float", 60000, 1_000_000, |c| if c.rng.bool() { lf_float::<f32>(c) } else { lf_float::<f64>(c) });
    r.stream("cascade", 60000, 1_000_000, |c| if c.rng.bool() { cascade::<f32>(c) } else { cascade::<f64>(c) });
    r.stream("reject", 2000, 2000, |c| {
        let (m, n) = (c.rng.urange(1, 8), c.rng.urange(1, 8));
        c.key(H::default().u(m as u64).u(n as u64).0);
        if m != n {
            c.must_panic("lfilter_zi-mismatch", || format!("b len {m} a len {n}"), || lfilter_zi_dyn(&vec![1.0f64; m], &vec![1.0f64; n]));
        }
        c.must_panic("lfilter_zi-zero-a", || format!("a all zero, m={m}"), || lfilter_zi_dyn(&vec![1.0f64; m], &vec![0.0f64; m]));
    });
    r.finish()
}
