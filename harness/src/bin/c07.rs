//! C07: zpk, polynomial and section forms describe the same filter.
use harness::*;
use sci_rs::na::Complex;
use sci_rs::signal::filter::design::*;

type G = (i64, i64); // Gaussian integer
fn gen_roots(r: &mut Rng, n: usize, amp: i64) -> Vec<G> {
    let mut v = vec![];
    while v.len() < n {
        if n - v.len() >= 2 && r.bool() {
            let (a, b) = (r.range(-amp, amp), r.range(1, amp));
            v.push((a, b));
            v.push((a, -b));
        } else {
            v.push((r.range(-amp, amp), 0));
        }
    }
    // repeated roots now and then
    if v.len() >= 4 && r.one_in(3) && v[0].1 == -v[1].1 && v[0].1 != 0 && v[2].1 == -v[3].1 {
        v[2] = v[0];
        v[3] = v[1];
    }
    r.shuffle(&mut v);
    v
}
/// product of (s - root), descending powers, exact
fn ipoly(v: &[G]) -> Vec<i128> {
    let mut p: Vec<(i128, i128)> = vec![(1, 0)];
    for &(a, b) in v {
        let (a, b) = (a as i128, b as i128);
        let mut q = vec![(0, 0); p.len() + 1];
        for (i, c) in p.iter().enumerate() {
            q[i].0 += c.0;
            q[i].1 += c.1;
            q[i + 1].0 -= c.0 * a - c.1 * b;
            q[i + 1].1 -= c.0 * b + c.1 * a;
        }
        p = q;
    }
    p.iter()
        .map(|c| {
            assert!(c.1 == 0);
            c.0
        })
        .collect()
}
fn mul(a: &[i128], b: &[i128]) -> Vec<i128> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut o = vec![0; a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            o[i + j] += x * y;
        }
    }
    o
}
fn trim_tail(mut v: Vec<i128>) -> Vec<i128> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}
fn trim_head(v: Vec<i128>) -> Vec<i128> {
    v.into_iter().skip_while(|x| *x == 0).collect()
}
fn ints<F: Fl>(v: &[F]) -> Option<Vec<i128>> {
    v.iter().map(|x| if x.d() == x.d().trunc() && x.d().abs() < 1e17 { Some(x.d() as i128) } else { None }).collect()
}
fn cx<F: Fl>(v: &[G]) -> Vec<Complex<F>> {
    v.iter().map(|g| Complex::new(F::of(g.0 as f64), F::of(g.1 as f64))).collect()
}
fn fits<F: Fl>(v: &[G], k: i64) -> bool {
    let m: f64 = v.iter().map(|g| 1.0 + (g.0.abs() + g.1.abs()) as f64).product();
    m * k.abs() as f64 * 4.0 < F::IMAX
}
fn exact_tf<F: Fl>(c: &mut Case) {
    let np = if c.rng.one_in(6) { c.rng.urange(13, 30) } else { c.rng.below(13) };
    let nz = if c.rng.bool() { np } else { c.rng.below(np + 1) };
    let amp = if np > 8 { 1 } else { 3 };
    let (z, p) = (gen_roots(&mut c.rng, nz, amp), gen_roots(&mut c.rng, np, amp));
    let k = c.rng.pick(&[1i64, -1, 2, 3, -4, 7]);
    if !fits::<F>(&z, k) || !fits::<F>(&p, 1) {
        return;
    }
    c.key(H::default().s(F::NAME).s(&format!("{z:?}{p:?}{k}")).0);
    c.cls(format!("tf exact {} np={np} nz={nz}", F::NAME));
    c.sample(|| format!("z={z:?} p={p:?} k={k}"));
    let ctx = || format!("{} z={z:?} p={p:?} k={k}", F::NAME);
    let Some(f) = c.must("zpk2tf", ctx, || zpk2tf_dyn(np.max(1), &cx::<F>(&z), &cx::<F>(&p), F::of(k as f64))) else { return };
    let (Some(b), Some(a)) = (ints(&f.b), ints(&f.a)) else {
        c.fail("zpk2tf:inexact", format!("b={:?} a={:?}; {}", f.b, f.a, ctx()));
        return;
    };
    c.ev(b.len() + a.len());
    let be: Vec<i128> = ipoly(&z).iter().map(|x| x * k as i128).collect();
    let ae = ipoly(&p);
    // same rational function: b/a = be/ae as polynomials in descending powers
    if trim_head(mul(&b, &ae)) != trim_head(mul(&be, &a)) {
        c.fail("zpk2tf:transfer-function", format!("b={b:?} a={a:?}, exact {be:?} / {ae:?}; {}", ctx()));
        return;
    }
    if a.first() != Some(&1) {
        c.fail("zpk2tf:monic", format!("a={a:?}; {}", ctx()));
    }
    let Some(pl) = c.must("poly", ctx, || poly_dyn(&cx::<F>(&p))) else { return };
    if pl.iter().any(|x| x.im.d() != 0.0) || ints(&pl.iter().map(|x| x.re).collect::<Vec<_>>()) != Some(ae.clone()) {
        c.fail("poly:value", format!("{pl:?} exact {ae:?}; {}", ctx()));
    }
    // polynomials of arbitrary (not conjugate-closed) roots
    let q: Vec<G> = (0..c.rng.below(7)).map(|_| (c.rng.range(-3, 3), c.rng.range(-3, 3))).collect();
    let Some(pl) = c.must("poly", || format!("{q:?}"), || poly_dyn(&cx::<F>(&q))) else { return };
    let mut e: Vec<(i128, i128)> = vec![(1, 0)];
    for &(x, y) in &q {
        let mut n = vec![(0, 0); e.len() + 1];
        for (i, v) in e.iter().enumerate() {
            n[i].0 += v.0;
            n[i].1 += v.1;
            n[i + 1].0 -= v.0 * x as i128 - v.1 * y as i128;
            n[i + 1].1 -= v.0 * y as i128 + v.1 * x as i128;
        }
        e = n;
    }
    c.ev(e.len());
    if pl.len() != e.len() || pl.iter().zip(&e).any(|(g, w)| g.re.d() != w.0 as f64 || g.im.d() != w.1 as f64) {
        c.fail("poly:complex", format!("roots {q:?}: {pl:?} exact {e:?}"));
    }
}
/// distance of the section's worst pole from the unit circle
fn worst<F: Fl>(s: &Sos<F>) -> f64 {
    let (a1, a2) = (s.a[1].d(), s.a[2].d());
    let disc = a1 * a1 - 4.0 * a2;
    if disc < 0.0 {
        (1.0 - a2.max(0.0).sqrt()).abs()
    } else {
        let q = disc.sqrt();
        let (x, y) = ((-a1 + q) / 2.0, (-a1 - q) / 2.0);
        (1.0 - x.abs()).abs().min((1.0 - y.abs()).abs())
    }
}
fn form<F: Fl>(c: &mut Case, s: &[Sos<F>], n: usize, k: f64, ctx: &dyn Fn() -> String) -> bool {
    let want = n.div_ceil(2).max(1);
    if s.len() != want {
        c.fail("sos:count", format!("{} sections for {n} poles; {}", s.len(), ctx()));
        return false;
    }
    for (i, q) in s.iter().enumerate() {
        c.ev(1);
        if q.a[0].d() != 1.0 || q.zi0.d() != 0.0 || q.zi1.d() != 0.0 {
            c.fail("sos:form", format!("section {i}: a={:?} state ({:?},{:?}); {}", q.a, q.zi0, q.zi1, ctx()));
            return false;
        }
        let g = if i == 0 { k } else { 1.0 };
        if q.b[0].d() != F::of(g).d() {
            c.fail("sos:gain-place", format!("section {i} leading b {:?}, expected {g}; {}", q.b, ctx()));
            return false;
        }
    }
    for w in s.windows(2) {
        let (x, y) = (worst(&w[0]), worst(&w[1]));
        let tol = 8.0 * F::EPS.sqrt() * (1.0 + x.abs());
        if y > x + tol {
            c.fail("sos:order", format!("section pole distances {x} then {y} from the unit circle; {}", ctx()));
            return false;
        }
    }
    true
}
fn exact_sos<F: Fl>(c: &mut Case) {
    let np = if c.rng.one_in(6) { c.rng.urange(12, 34) } else { c.rng.below(12) };
    let nz = match c.rng.below(4) {
        0 => c.rng.below(np + 1),
        1 => np + c.rng.below(4),
        _ => np,
    };
    let (z, p) = (gen_roots(&mut c.rng, nz, 3), gen_roots(&mut c.rng, np, 3));
    let k = c.rng.pick(&[1i64, -1, 2, 3, -4, 7]);
    c.key(H::default().s(F::NAME).s(&format!("{z:?}{p:?}{k}")).0);
    c.cls(format!("sos exact {} np={np} nz={nz}", F::NAME));
    let ctx = || format!("{} z={z:?} p={p:?} k={k}", F::NAME);
    let omit = c.rng.bool();
    let Some(f) = c.must("zpk2sos", ctx, || {
        let zpk = ZpkFormatFilter::new(cx::<F>(&z), cx::<F>(&p), F::of(k as f64));
        if omit {
            zpk2sos_dyn(np.max(1), zpk, None, None)
        } else {
            zpk2sos_dyn(np.max(1), zpk, Some(ZpkPairing::Nearest), Some(false))
        }
    }) else {
        return;
    };
    if !form(c, &f.sos, np.max(nz), k as f64, &ctx) {
        return;
    }
    // product of sections in powers of z^-1 equals k prod(1 - z x) / prod(1 - p x)
    let (mut b, mut a) = (vec![1i128], vec![1i128]);
    for s in &f.sos {
        let (Some(x), Some(y)) = (ints(&s.b), ints(&s.a)) else {
            c.fail("sos:inexact", format!("section {s:?}; {}", ctx()));
            return;
        };
        b = mul(&b, &x);
        a = mul(&a, &y);
    }
    let be: Vec<i128> = ipoly(&z).iter().map(|x| x * k as i128).collect();
    c.ev(b.len());
    if trim_tail(b.clone()) != trim_tail(be.clone()) || trim_tail(a.clone()) != trim_tail(ipoly(&p)) {
        c.fail("sos:transfer-function", format!("product b={b:?} a={a:?}, exact {be:?} {:?}; {}", ipoly(&p), ctx()));
    }
}
/// analog (minimal pairing): sections are polynomials in s, right aligned
fn exact_analog<F: Fl>(c: &mut Case) {
    let np = if c.rng.one_in(6) { c.rng.urange(11, 24) } else { c.rng.below(11) };
    let nz = if c.rng.bool() { np } else { c.rng.below(np + 1) };
    let (mut z, mut p) = (gen_roots(&mut c.rng, nz, 3), gen_roots(&mut c.rng, np, 3));
    if c.rng.one_in(4) && np > 0 {
        // one real zero and one real pole, all others in pairs
        let h = np / 2;
        let mut pairs = |im: i64| {
            let mut v = vec![(c.rng.range(-3, 3), 0)];
            for _ in 0..h {
                let (re, im) = (c.rng.range(-3, 3), c.rng.range(1, im));
                v.push((re, im));
                v.push((re, -im));
            }
            v
        };
        (z, p) = (pairs(9), pairs(2));
    }
    let (nz, np) = (z.len(), p.len());
    let k = c.rng.pick(&[1i64, -1, 2, 5]);
    let zr = z.iter().filter(|g| g.1 == 0).count();
    let ctx = || format!("{} analog z={z:?} p={p:?} k={k}", F::NAME);
    let pr = p.iter().filter(|g| g.1 == 0).count();
    // the pole pairs and the single real pole must leave room for the zeros, whatever the order of selection;
    // for other mixes a rejection is legitimate (SciPy's algorithm fails on them as well)
    let room = zr == nz || zr == 0 && nz <= np / 2 * 2 || np % 2 == 0 && zr % 2 == 0 || zr == 1 && pr == 1 && nz == np;
    c.key(H::default().s(F::NAME).s(&format!("{z:?}{p:?}{k}")).0);
    c.cls(format!("sos analog {} np={np} nz={nz} room={room}", F::NAME));
    let zpk = || ZpkFormatFilter::new(cx::<F>(&z), cx::<F>(&p), F::of(k as f64));
    let Ok(f) = call(|| zpk2sos_dyn(np.max(1), zpk(), None, Some(true))) else {
        if room {
            c.must("zpk2sos-analog", ctx, || zpk2sos_dyn(np.max(1), zpk(), None, Some(true)));
        } else {
            c.cls("sos analog: rejected mix");
        }
        return;
    };
    if f.sos.len() != np.div_ceil(2).max(1) {
        c.fail("sos-analog:count", format!("{} sections; {}", f.sos.len(), ctx()));
        return;
    }
    let (mut b, mut a) = (vec![1i128], vec![1i128]);
    for s in &f.sos {
        let (Some(x), Some(y)) = (ints(&s.b), ints(&s.a)) else {
            c.fail("sos-analog:inexact", format!("section {s:?}; {}", ctx()));
            return;
        };
        b = mul(&b, &x);
        a = mul(&a, &y);
    }
    c.ev(b.len());
    let be: Vec<i128> = ipoly(&z).iter().map(|x| x * k as i128).collect();
    if trim_head(mul(&b, &ipoly(&p))) != trim_head(mul(&be, &a)) {
        c.fail("sos-analog:transfer-function", format!("product b={b:?} a={a:?}, exact {be:?} {:?}; {}", ipoly(&p), ctx()));
    }
}
fn float_conv<F: Fl>(c: &mut Case) {
    let n = if c.rng.one_in(6) { c.rng.urange(15, 40) } else { c.rng.urange(1, 14) };
    let noise = c.rng.bool();
    // some pairs on a common vertical line, up to rounding errors
    let line = c.rng.one_in(3);
    let cr = F::of(c.rng.f(-0.9, 0.9)).d();
    let gen = |r: &mut Rng, n: usize| -> Vec<(f64, f64)> {
        let mut v = vec![];
        while v.len() < n {
            let (rad, th) = (r.f(0.05, 1.2), r.f(0.1, 3.0));
            if n - v.len() >= 2 && r.bool() {
                let e = |r: &mut Rng| if noise { 1.0 + r.range(-3, 3) as f64 * F::EPS } else { 1.0 };
                let (mut x, y) = (F::of(rad * th.cos()).d(), F::of(rad * th.sin()).d());
                if line && r.below(3) > 0 {
                    x = F::of(cr * e(r)).d();
                }
                v.push((x, y));
                v.push((F::of(x * e(r)).d(), F::of(-y * e(r)).d()));
            } else {
                let x = F::of(r.f(-1.2, 1.2)).d();
                v.push((x, if noise && r.bool() { F::of(x * F::EPS * r.f(-4.0, 4.0)).d() } else { 0.0 }));
            }
        }
        r.shuffle(&mut v);
        v
    };
    let (z, p) = (gen(&mut c.rng, n), gen(&mut c.rng, n));
    let k = F::of(c.rng.logf(1e-6, 1e3) * c.rng.pick(&[1.0, -1.0])).d();
    let mk = |v: &[(f64, f64)]| -> Vec<Complex<F>> { v.iter().map(|g| Complex::new(F::of(g.0), F::of(g.1))).collect() };
    c.key(H::default().s(F::NAME).s(&format!("{z:?}{p:?}{k}")).0);
    c.cls(format!("float {} n={n} noise={noise}", F::NAME));
    let ctx = || format!("{} z={z:?} p={p:?} k={k:e}", F::NAME);
    let zpk = ZpkFormatFilter::new(mk(&z), mk(&p), F::of(k));
    let sos = c.must("zpk2sos", ctx, || zpk2sos_dyn(n, ZpkFormatFilter::new(mk(&z), mk(&p), F::of(k)), None, None));
    let Some(sos) = sos else { return };
    if !form(c, &sos.sos, n, k, &ctx) {
        return;
    }
    let tf = if noise { None } else { c.must("zpk2tf", ctx, || zpk2tf_dyn(n, &mk(&z), &mk(&p), F::of(k))) };
    let sp = |v: &[(f64, f64)]| v.iter().map(|g| 1.0 + g.0.hypot(g.1)).product::<f64>();
    for _ in 0..6 {
        let s = circle((c.rng.f(-1.55, 1.55)).tan());
        let e0 = eval_zpk(&zpk, s);
        let h0 = e0.h;
        let e1 = eval_sos(&sos.sos, s);
        let tol = 60.0 * F::EPS * (e0.cond + e1.cond + n as f64);
        let err = ((e1.h - h0) / h0).norm();
        c.ev(1);
        if tol < 0.05 {
            c.ratio(&format!("sos {}", F::NAME), err / tol);
            if !(err <= tol) {
                c.fail("sos:response", format!("H={:?} expected {h0:?} rel {err:e} tol {tol:e}; {}", e1.h, ctx()));
                return;
            }
        }
        if let Some(f) = &tf {
            let b: Vec<f64> = f.b.iter().map(|x| x.d()).collect();
            let a: Vec<f64> = f.a.iter().map(|x| x.d()).collect();
            let e = eval_ba(&b, &a, s);
            let bn = eval_ba(&b, &[1.0], s).h.norm();
            let an = eval_ba(&a, &[1.0], s).h.norm();
            let tol = 10.0 * n as f64 * F::EPS * (sp(&z) * k.abs() / bn + sp(&p) / an);
            let err = ((e.h - h0) / h0).norm();
            if tol < 0.05 {
                c.ratio(&format!("tf {}", F::NAME), err / tol);
                if !(err <= tol) {
                    c.fail("tf:response", format!("H={:?} expected {h0:?} rel {err:e} tol {tol:e}; {}", e.h, ctx()));
                    return;
                }
            }
        }
    }
}
/// the three output formats of one design request
fn formats<F: Fl>(c: &mut Case) {
    let mut q = gen_req::<F>(&mut c.rng, 12);
    if q.fam == Fam::Cheb2 && c.rng.bool() {
        q.fam = Fam::Cheb1;
        q.r = q.r.min(20.0);
    }
    let ctx = || format!("{} {q:?}", F::NAME);
    c.key(H::default().s(F::NAME).s(&format!("{q:?}")).0);
    let get = |o: Out| {
        let mut r = q.clone();
        r.out = o;
        call(|| r.run::<F>())
    };
    let (Ok(DigitalFilter::Zpk(zf)), Ok(DigitalFilter::Ba(ba)), Ok(DigitalFilter::Sos(so))) = (get(Out::Zpk), get(Out::Ba), get(Out::Sos)) else {
        c.fail("formats:design", format!("a format was not returned; {}", ctx()));
        return;
    };
    let np = q.npoles();
    c.cls(format!("formats {} np={np}", F::NAME));
    // polynomial coefficients against the exact expansion of the roots
    for (roots, k, got, what) in [(zd(&zf.z), zf.k.d(), &ba.b, "b"), (zd(&zf.p), 1.0, &ba.a, "a")] {
        let mut e = vec![cd(k, 0.0)];
        let mut m = vec![k.abs()];
        for r in &roots {
            let mut n = vec![CD::ZERO; e.len() + 1];
            let mut nm = vec![0.0; e.len() + 1];
            for i in 0..e.len() {
                n[i] = n[i] + e[i];
                n[i + 1] = n[i + 1] - e[i] * *r;
                nm[i] += m[i];
                nm[i + 1] += m[i] * r.norm();
            }
            e = n;
            m = nm;
        }
        if got.len() < e.len() || got[e.len()..].iter().any(|x| x.d() != 0.0) {
            c.fail("formats:ba-length", format!("{what} has {} coefficients for {} roots; {}", got.len(), roots.len(), ctx()));
            return;
        }
        for i in 0..e.len() {
            let tol = 8.0 * (np + 1) as f64 * F::EPS * m[i] + F::TINY;
            let err = (got[i].d() - e[i].re.f()).abs();
            c.ratio(&format!("formats ba {}", F::NAME), err / tol);
            if !(err <= tol) {
                c.fail("formats:ba", format!("{what}[{i}]={:?}, roots give {:e} (tol {tol:e}); {}", got[i], e[i].re.f(), ctx()));
                return;
            }
        }
        c.ev(e.len());
    }
    if !form(c, &so.sos, np, zf.k.d(), &ctx) {
        return;
    }
    for _ in 0..5 {
        let s = circle((c.rng.f(0.01, 1.56)).tan());
        let (e0, e1) = (eval_zpk(&zf, s), eval_sos(&so.sos, s));
        let tol = 60.0 * F::EPS * (e0.cond + e1.cond + np as f64);
        if tol < 0.05 {
            c.ev(1);
            let err = ((e1.h - e0.h) / e0.h).norm();
            c.ratio(&format!("formats sos {}", F::NAME), err / tol);
            if !(err <= tol) {
                c.fail("formats:sos", format!("rel {err:e} tol {tol:e}; {}", ctx()));
                return;
            }
        }
    }
}
fn reject<F: Fl>(c: &mut Case) {
    let n = c.rng.urange(1, 8);
    let mut z = gen_roots(&mut c.rng, n, 3);
    match c.rng.below(3) {
        0 => {
            let im = c.rng.range(1, 3);
            z.push((c.rng.range(-3, 3), im));
        }
        1 => {
            let (a, b) = (c.rng.range(-3, 3), c.rng.range(1, 3));
            z.push((a, b));
            z.push((a, b));
        }
        _ => {
            let (a, b) = (c.rng.range(-3, 3), c.rng.range(1, 3));
            z.push((a + 9, b));
            z.push((a + 10, -b));
        }
    }
    let m = z.len();
    let other = gen_roots(&mut c.rng, m, 3);
    let swap = c.rng.bool();
    c.key(H::default().s(&format!("{z:?}{other:?}{swap}")).0);
    c.cls("reject unmatched");
    let ctx = || format!("{} unmatched roots {z:?} in {}", F::NAME, if swap { "poles" } else { "zeros" });
    c.must_panic("unmatched-root", ctx, || {
        let (a, b) = if swap { (&other, &z) } else { (&z, &other) };
        zpk2sos_dyn(m, ZpkFormatFilter::new(cx::<F>(a), cx::<F>(b), F::of(1.0)), None, None)
    });
}
/// conjugates that differ by clearly more than the documented tolerance (100 eps) are rejected
fn near_miss<F: Fl>(c: &mut Case) {
    let m = c.rng.urange(1, 5);
    let mut v: Vec<(f64, f64)> = vec![];
    for i in 0..m {
        let (x, y) = (c.rng.f(-1.0, 1.0), 0.1 + 0.2 * i as f64);
        v.push((x, y));
        v.push((x, -y));
    }
    let j = c.rng.below(2 * m);
    let e = F::EPS * c.rng.logf(3e3, 1e6) * v[j].0.hypot(v[j].1) * c.rng.pick(&[1.0, -1.0]);
    if c.rng.bool() {
        v[j].0 += e;
    } else {
        v[j].1 += e;
    }
    c.rng.shuffle(&mut v);
    let mk = |v: &[(f64, f64)]| -> Vec<Complex<F>> { v.iter().map(|g| Complex::new(F::of(g.0), F::of(g.1))).collect() };
    let swap = c.rng.bool();
    c.key(H::default().s(&format!("{v:?}{swap}")).0);
    c.cls("reject near miss");
    c.must_panic("near-miss", || format!("{} {v:?} in {}", F::NAME, if swap { "poles" } else { "zeros" }), || {
        let (a, b) = if swap { (vec![], mk(&v)) } else { (mk(&v), vec![]) };
        zpk2sos_dyn(2 * m, ZpkFormatFilter::new(a, b, F::of(1.0)), None, None)
    });
}
fn scipy<F: Fl>(c: &mut Case) {
    let n = c.rng.below(30);
    let mut v: Vec<f64> = (0..6 * n).map(|_| F::of(c.rng.normal()).d()).collect();
    for x in v.iter_mut() {
        if c.rng.one_in(20) {
            *x = c.rng.pick(&[0.0, -0.0, f64::INFINITY, f64::NAN, 1.0, F::TINY]);
        }
    }
    c.key(H::default().fs(&v).0);
    c.cls(format!("from_scipy {} n={}", F::NAME, n));
    let x = to::<F>(&v);
    let Some(s) = c.must("from_scipy", || format!("{n} sections"), || Sos::from_scipy_dyn(n, x.clone())) else { return };
    c.ev(6 * n);
    if s.len() != n {
        c.fail("from_scipy:count", format!("{} for {n}", s.len()));
        return;
    }
    for i in 0..n {
        for j in 0..3 {
            if s[i].b[j].bits() != x[6 * i + j].bits() || s[i].a[j].bits() != x[6 * i + 3 + j].bits() {
                c.fail("from_scipy:coef", format!("section {i}: {:?} from {:?}", s[i], &x[6 * i..6 * i + 6]));
                return;
            }
        }
        if s[i].zi0.d() != 0.0 || s[i].zi1.d() != 0.0 {
            c.fail("from_scipy:state", format!("{:?}", s[i]));
        }
    }
    let m = c.rng.below(6 * n + 20);
    if m != 6 * n {
        c.must_panic("from_scipy-length", || format!("{m} coefficients for {n} sections"), || Sos::from_scipy_dyn(n, vec![F::of(1.0); m]));
    }
}
fn main() {
    let r = Runner::new("C07");
    macro_rules! both {
        ($n:literal, $q:expr, $t:expr, $f:ident) => {
            r.stream($n, $q, $t, |c| if c.idx % 2 == 0 { $f::<f64>(c) } else { $f::<f32>(c) })
        };
    }
    both!("tf-exact", 60000, 1_000_000, exact_tf);
    both!("sos-exact", 60000, 1_000_000, exact_sos);
    both!("sos-analog", 40000, 500_000, exact_analog);
    both!("float", 60000, 1_000_000, float_conv);
    both!("formats", 40000, 600_000, formats);
    both!("reject", 20000, 200_000, reject);
    both!("near-miss", 20000, 200_000, near_miss);
    both!("from-scipy", 20000, 200_000, scipy);
    r.finish()
}
