//! C04: zero-phase filtering equals its forward-backward definition.
use harness::*;
use sci_rs::signal::filter::design::*;
use sci_rs::signal::filter::*;

fn ntaps(b2a2: impl Iterator<Item = (bool, bool)>) -> usize {
    let (mut n, mut bz, mut az) = (0, 0, 0);
    for (b, a) in b2a2 {
        n += 1;
        bz += b as usize;
        az += a as usize;
    }
    2 * n + 1 - bz.min(az)
}
fn odd_ext<T: Copy>(x: &[T], e: usize, refl: impl Fn(T, T) -> T) -> Vec<T> {
    let n = x.len();
    let mut v = vec![];
    for i in (1..=e).rev() {
        v.push(refl(x[0], x[i]));
    }
    v.extend_from_slice(x);
    for i in 1..=e {
        v.push(refl(x[n - 1], x[n - 1 - i]));
    }
    v
}
fn iseeds(secs: &[ISec], x0: i64) -> Vec<ISec> {
    let mut scale = 1i64;
    secs.iter()
        .map(|s| {
            let (b1, a1): (i64, i64) = (s.b.iter().sum(), s.a.iter().sum());
            let g = b1 / a1;
            let z1 = s.b[2] - s.a[2] * g;
            let z0 = s.b[1] - s.a[1] * g + z1;
            let r = ISec { b: s.b, a: s.a, z: [scale * z0 * x0, scale * z1 * x0] };
            scale *= g;
            r
        })
        .collect()
}
fn gen_sec(r: &mut Rng, lively: bool, nozero2: bool) -> ISec {
    let a = if lively { r.pick(&[[1i64, 0, 0], [1, -1, 1], [1, 1, 0], [1, 0, 1], [1, -1, 1]]) } else { [1, 0, 0] };
    let a1: i64 = a.iter().sum();
    let mut b = if lively {
        [r.range(-2, 2), r.range(-2, 2), if r.bool() { 0 } else { r.range(-2, 2) }]
    } else {
        let s = r.pick(&[1i64, -1]);
        r.pick(&[[s, 0, 0], [0, s, 0], [0, 0, s]])
    };
    if nozero2 && b[2] == 0 {
        b = [b[1], b[0], 1];
    }
    let s: i64 = b.iter().sum();
    if s % a1 != 0 {
        b[0] += 1;
    }
    ISec { b, a, z: [0, 0] }
}
fn exact<F: Fl>(c: &mut Case, n: usize) {
    for attempt in 0..4 {
        let nozero2 = c.rng.one_in(3);
        let secs: Vec<ISec> = (0..n).map(|_| gen_sec(&mut c.rng, attempt < 2 && n <= 6 || attempt == 0 && n < 12, nozero2)).collect();
        let nt = ntaps(secs.iter().map(|s| (s.b[2] == 0, s.a[2] == 0)));
        let edge = 3 * nt;
        let len = edge
            + match c.rng.below(6) {
                0 => 1,
                1 => 2,
                2 => c.rng.urange(1, 8),
                3 => edge,
                _ => c.rng.urange(1, 60),
            };
        let amp = c.rng.pick(&[3i64, 9, 100]);
        let x = gen_ints(&mut c.rng, len, amp);
        let ext = odd_ext(&x, edge, |a, b| 2 * a - b);
        let mut fwd = iseeds(&secs, ext[0]);
        let lim = F::IMAX;
        if fwd.iter().any(|s| (s.z[0].abs().max(s.z[1].abs()) as f64) > lim) {
            continue;
        }
        let Ok(mut y) = irun(&mut fwd, &ext, lim) else { continue };
        y.reverse();
        let mut bwd = iseeds(&secs, y[0]);
        if bwd.iter().any(|s| (s.z[0].abs().max(s.z[1].abs()) as f64) > lim) {
            continue;
        }
        let Ok(mut w) = irun(&mut bwd, &y, lim) else { continue };
        w.reverse();
        let want = &w[edge..edge + len];
        c.key(H::default().s(F::NAME).is(&x).is(secs.iter().flat_map(|s| s.b.iter().chain(s.a.iter()))).0);
        c.cls(format!("exact {} n={n} attempt={attempt} edge={edge}", F::NAME));
        if len == edge + 1 {
            c.cls("shortest-allowed");
        }
        let xf: Vec<F> = x.iter().map(|v| F::of(*v as f64)).collect();
        let mut sos: Vec<Sos<F>> = to_sos(&secs);
        // whatever state the caller's sections hold is ignored
        let junk = c.rng.below(3);
        for s in sos.iter_mut() {
            (s.zi0, s.zi1) = match junk {
                0 => (F::of(0.0), F::of(0.0)),
                1 => (F::of(c.rng.f(-1e3, 1e3)), F::of(c.rng.f(-1e3, 1e3))),
                _ => (F::of(f64::NAN), F::of(f64::INFINITY)),
            };
        }
        c.sample(|| format!("{} sections {:?} x={x:?} -> {want:?}", F::NAME, secs));
        let ctx = || format!("{} sections={secs:?} x={x:?}", F::NAME);
        let owned = c.rng.bool();
        for rep in 0..2 {
            let Some(got) = c.must("sosfiltfilt", ctx, || {
                if owned {
                    sosfiltfilt_dyn(xf.clone().into_iter(), &sos)
                } else {
                    sosfiltfilt_dyn(xf.iter(), &sos)
                }
            }) else {
                return;
            };
            c.ev(len);
            if got.len() != len {
                c.fail("length", format!("{} outputs for {len} samples, {}", got.len(), ctx()));
                return;
            }
            if let Some(i) = (0..len).find(|i| got[*i].d() != want[*i] as f64) {
                c.fail("value", format!("rep {rep}: out[{i}]={:?}, definition gives {}; edge {edge}; {}", got[i], want[i], ctx()));
                return;
            }
        }
        return;
    }
    c.cls("exact:not-representable");
}
fn float<F: Fl>(c: &mut Case, long: bool) {
    let kind = c.rng.below(3);
    let mut secs: Vec<FSec> = if kind == 0 {
        // designed sections
        let order = c.rng.urange(1, 10);
        let band = c.rng.below(4);
        let lo = c.rng.f(0.05, 0.5);
        let hi = lo + c.rng.f(0.15, 0.4);
        let (bt, wn) = match band {
            0 => (FilterBandType::Lowpass, vec![F::of(lo)]),
            1 => (FilterBandType::Highpass, vec![F::of(lo)]),
            2 => (FilterBandType::Bandpass, vec![F::of(lo), F::of(hi)]),
            _ => (FilterBandType::Bandstop, vec![F::of(lo), F::of(hi)]),
        };
        let d = call(|| butter_dyn(order, wn, Some(bt), Some(false), Some(FilterOutputType::Sos), None));
        let Ok(DigitalFilter::Sos(s)) = d else { return };
        s.sos.iter().map(FSec::of).collect()
    } else {
        let n = if c.rng.one_in(12) { c.rng.urange(10, 50) } else { c.rng.below(if kind == 1 { 4 } else { 10 }) };
        gen_fsecs::<F>(&mut c.rng, n, if n < 3 { 0.98 } else if n < 10 { 0.85 } else { 0.4 })
    };
    if kind != 0 && c.rng.one_in(5) {
        // tiny is not zero: such sections still count as second order
        for s in secs.iter_mut() {
            for q in [&mut s.b, &mut s.a] {
                if c.rng.one_in(3) {
                    q[2] = F::of(c.rng.pick(&[1.0, -1.0]) * c.rng.logf(1e-30, 1e-12)).d();
                }
            }
        }
    }
    if secs.iter().any(|s| s.b.iter().chain(s.a.iter()).any(|v| !v.is_finite())) {
        return;
    }
    let n = secs.len();
    let nt = ntaps(secs.iter().map(|s| (s.b[2] == 0.0, s.a[2] == 0.0)));
    let edge = 3 * nt;
    let len = edge + 1 + if long { c.rng.logf(4000.0, 150_000.0) as usize } else { gen_len(&mut c.rng, 3000) };
    let (x, cls) = gen_signal::<F>(&mut c.rng, len);
    let Some((zi, zerr, _)) = zi_cascade::<F>(&secs) else { return };
    let ext = odd_ext(&x.iter().map(|v| DD::from(*v)).collect::<Vec<_>>(), edge, |a, b| a + a - b);
    let m0 = ext.iter().fold(0.0f64, |m, v| m.max(v.0.abs()));
    let tot = ext.len();
    let lh: Vec<f64> = secs.iter().map(|s| l1_h(s, tot)).collect();
    let la: Vec<f64> = secs.iter().map(|s| l1_a(s, tot)).collect();
    let gain: f64 = lh.iter().product();
    let pass = |sig: Vec<DD>, tin: f64| -> (Vec<DD>, f64) {
        let x0 = sig[0];
        let z: Vec<[DD; 2]> = zi.iter().map(|z| [z[0] * x0, z[1] * x0]).collect();
        let (run, y) = ddrun_dd::<F>(&secs, sig, &z);
        let mut e = 0.0;
        for i in 0..n {
            let zm = zi[i][0].0.abs().max(zi[i][1].0.abs());
            let s = zerr[i] * (x0.0.abs() + tin) + zm * (tin + 2.0 * F::EPS * x0.0.abs()) + F::TINY;
            e += 2.0 * s * la[i] * lh[i + 1..].iter().product::<f64>();
        }
        (y, run.tol + tin * gain + e)
    };
    let (mut y, t1) = pass(ext, 2.0 * F::EPS * m0);
    y.reverse();
    let ym = y.iter().fold(0.0f64, |m, v| m.max(v.0.abs()));
    let (mut w, t2) = pass(y, t1);
    w.reverse();
    let scale = ym.max(m0);
    if !(t2 < 1e-2 * scale) || !(scale < F::MAXF * 1e-6) {
        c.cls("float:skipped-ill-conditioned");
        return;
    }
    c.cls(format!("float {} kind={kind} n={n} {cls}", F::NAME));
    c.key(H::default().s(F::NAME).u(len as u64).fs(&x[..x.len().min(32)]).fs(secs.iter().flat_map(|s| s.b.iter().chain(s.a.iter()))).0);
    let sos: Vec<Sos<F>> = secs
        .iter()
        .map(|s| {
            let mut q = s.sos::<F>();
            q.zi0 = F::of(c.rng.f(-9.0, 9.0));
            q.zi1 = F::of(f64::NAN);
            q
        })
        .collect();
    let xf = to::<F>(&x);
    let ctx = || format!("{} len={len} {cls} sections={}", F::NAME, short(&secs));
    let Some(got) = c.must("sosfiltfilt", ctx, || sosfiltfilt_dyn(xf.iter(), &sos)) else { return };
    c.ev(len);
    if got.len() != len {
        c.fail("length", format!("{} outputs, {}", got.len(), ctx()));
        return;
    }
    for i in 0..len {
        let e = (got[i].d() - w[edge + i].f()).abs();
        c.ratio("float", e / t2);
        if !(e <= t2) {
            c.fail("value", format!("out[{i}]={:?} reference {:e} tol {t2:e}; {}", got[i], w[edge + i].f(), ctx()));
            return;
        }
    }
    let again = call(|| sosfiltfilt_dyn(xf.clone().into_iter(), &sos));
    if again.map(|a| a.iter().zip(&got).any(|(p, q)| p.bits() != q.bits())).unwrap_or(true) {
        c.fail("repeat", format!("second call differs; {}", ctx()));
    }
}
fn reject<F: Fl>(c: &mut Case) {
    let n = if c.rng.one_in(8) { c.rng.urange(14, 90) } else { c.rng.below(14) };
    let secs: Vec<ISec> = (0..n).map(|_| gen_sec(&mut c.rng, true, false)).collect();
    let edge = 3 * ntaps(secs.iter().map(|s| (s.b[2] == 0, s.a[2] == 0)));
    let len = if c.rng.bool() { edge - c.rng.below(3) } else { c.rng.below(edge + 1) };
    c.key(H::default().u(n as u64).u(len as u64).0);
    c.cls(format!("reject n={n}"));
    let sos = to_sos::<F>(&secs);
    let x = vec![F::of(1.0); len];
    c.must_panic("short-input", || format!("{n} sections, extension {edge}, {len} samples"), || sosfiltfilt_dyn(x.iter(), &sos));
}
fn main() {
    let r = Runner::new("C04");
    r.stream("exact", 26 * 2 * 800, 26 * 2 * 20000, |c| {
        let n = (c.idx / 2 % 26) as usize;
        if c.idx % 2 == 0 {
            exact::<f32>(c, n)
        } else {
            exact::<f64>(c, n)
        }
    });
    r.stream("many", 3000, 60_000, |c| {
        let n = c.rng.urange(26, 120);
        if c.rng.bool() {
            exact::<f32>(c, n)
        } else {
            exact::<f64>(c, n)
        }
    });
    r.stream("float", 12000, 300_000, |c| if c.rng.bool() { float::<f32>(c, false) } else { float::<f64>(c, false) });
    r.stream("long", 60, 1500, |c| if c.rng.bool() { float::<f32>(c, true) } else { float::<f64>(c, true) });
    r.stream("reject", 4000, 40000, |c| if c.rng.bool() { reject::<f32>(c) } else { reject::<f64>(c) });
    r.finish()
}
