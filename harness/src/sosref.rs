//! Reference semantics of a biquad cascade: exact integer simulation and double-double simulation
//! with a rounding-error bound; plus an adapter over every public filtering entry point.
use crate::*;
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::*;

/// integer section: b, a, z
#[derive(Clone, Debug, PartialEq)]
pub struct ISec {
    pub b: [i64; 3],
    pub a: [i64; 3],
    pub z: [i64; 2],
}
impl ISec {
    pub fn sos<F: Fl>(&self) -> Sos<F> {
        let mut s = Sos::new(self.b.map(|x| F::of(x as f64)), self.a.map(|x| F::of(x as f64)));
        s.zi0 = F::of(self.z[0] as f64);
        s.zi1 = F::of(self.z[1] as f64);
        s
    }
}
pub fn to_sos<F: Fl>(v: &[ISec]) -> Vec<Sos<F>> {
    v.iter().map(|s| s.sos()).collect()
}
/// One exact step; None if any intermediate could exceed `lim` (then float evaluation need not be exact).
pub fn istep(secs: &mut [ISec], x: i64, lim: f64) -> Option<i64> {
    let mut x = x as i128;
    let lim = lim as i128;
    if x.abs() > lim {
        return None;
    }
    for s in secs.iter_mut() {
        let b = s.b.map(|v| v as i128);
        let a = s.a.map(|v| v as i128);
        let z = s.z.map(|v| v as i128);
        let y = b[0] * x + z[0];
        if (b[0] * x).abs() + z[0].abs() > lim {
            return None;
        }
        if (b[1] * x).abs() + (a[1] * y).abs() + z[1].abs() > lim || (b[2] * x).abs() + (a[2] * y).abs() > lim {
            return None;
        }
        s.z = [(b[1] * x - a[1] * y + z[1]) as i64, (b[2] * x - a[2] * y) as i64];
        x = y;
    }
    Some(x as i64)
}
/// run the exact model; returns outputs, or the number of samples that stayed exact
pub fn irun(secs: &mut [ISec], x: &[i64], lim: f64) -> Result<Vec<i64>, usize> {
    let mut o = Vec::with_capacity(x.len());
    for (i, v) in x.iter().enumerate() {
        match istep(secs, *v, lim) {
            Some(y) => o.push(y),
            None => return Err(i),
        }
    }
    Ok(o)
}
pub fn gen_isecs(r: &mut Rng, n: usize, tame: bool) -> Vec<ISec> {
    (0..n)
        .map(|_| {
            let lively = !tame && r.one_in(1 + n / 3);
            let b = if lively {
                [r.range(-3, 3), r.range(-3, 3), r.range(-3, 3)]
            } else {
                let s = r.pick(&[1i64, -1]);
                match r.below(6) {
                    0 | 1 => [s, 0, 0],
                    2 => [0, s, 0],
                    3 => [0, 0, s],
                    4 if n < 12 => [1, s, 0],
                    _ => [s, 0, 0],
                }
            };
            let a = if lively {
                r.pick(&[[1, -1, 0], [1, 1, 0], [1, 0, 1], [1, 0, -1], [1, 1, 1], [1, -1, 1], [1, -2, 1], [1, 2, 1], [1, 0, 0], [1, -1, -1]])
            } else if !tame && r.one_in(2 + n / 4) {
                r.pick(&[[1, 1, 1], [1, -1, 1], [1, 0, 1], [1, 1, 0]])
            } else {
                [1, 0, 0]
            };
            let z = if r.one_in(3) { [0, 0] } else { [r.range(-9, 9), r.range(-9, 9)] };
            ISec { b, a, z }
        })
        .collect()
}
pub fn gen_ints(r: &mut Rng, n: usize, amp: i64) -> Vec<i64> {
    let k = r.below(4);
    (0..n)
        .map(|_| match k {
            0 => r.range(-amp, amp),
            1 => {
                if r.one_in(7) {
                    r.range(-amp, amp)
                } else {
                    0
                }
            }
            2 => r.range(0, 1),
            _ => r.range(-2, 2),
        })
        .collect()
}
/// sections and an input of exactly `len` samples on which float filtering of type F must be exact
pub fn gen_exact(r: &mut Rng, nsec: usize, len: usize, amp: i64, lim: f64) -> (Vec<ISec>, Vec<i64>, Vec<ISec>, Vec<i64>) {
    for attempt in 0..4 {
        let secs = gen_isecs(r, nsec, attempt >= 1);
        let x = gen_ints(r, len, if attempt < 2 { amp } else { amp.min(3) });
        let mut end = secs.clone();
        if let Ok(y) = irun(&mut end, &x, lim) {
            return (secs, x, end, y);
        }
    }
    let secs: Vec<ISec> = (0..nsec).map(|i| ISec { b: [1, 0, 0], a: [1, 0, 0], z: [(i % 5) as i64 - 2, i as i64 % 3] }).collect();
    let x = gen_ints(r, len, 3);
    let mut end = secs.clone();
    let y = irun(&mut end, &x, lim).expect("identity cascade is exact");
    (secs, x, end, y)
}

/// float section (values representable in F)
#[derive(Clone, Debug)]
pub struct FSec {
    pub b: [f64; 3],
    pub a: [f64; 3],
    pub z: [f64; 2],
}
impl FSec {
    pub fn sos<F: Fl>(&self) -> Sos<F> {
        let mut s = Sos::new(self.b.map(F::of), self.a.map(F::of));
        s.zi0 = F::of(self.z[0]);
        s.zi1 = F::of(self.z[1]);
        s
    }
    pub fn of<F: Fl>(s: &Sos<F>) -> FSec {
        FSec { b: s.b.map(|x| x.d()), a: s.a.map(|x| x.d()), z: [s.zi0.d(), s.zi1.d()] }
    }
}
pub fn gen_fsecs<F: Fl>(r: &mut Rng, n: usize, rmax: f64) -> Vec<FSec> {
    let q = |x: f64| F::of(x).d();
    (0..n)
        .map(|_| {
            let (a1, a2) = match r.below(4) {
                0 => (q(r.f(-rmax, rmax)), 0.0),
                1 => {
                    let (p, s) = (r.f(-rmax, rmax), r.f(-rmax, rmax));
                    (q(-(p + s)), q(p * s))
                }
                _ => {
                    let (rad, th) = (r.f(0.0, rmax), r.f(0.0, 3.1416));
                    (q(-2.0 * rad * th.cos()), q(rad * rad))
                }
            };
            let g = r.f(0.2, 1.2);
            let b = match r.below(4) {
                0 => [q(g), q(g * r.f(-2.0, 2.0)), q(g * r.f(-1.0, 1.0))],
                1 => [q(g), q(2.0 * g), q(g)],
                2 => [q(g), q(g), 0.0],
                _ => [q(r.f(-1.0, 1.0)), q(r.f(-1.0, 1.0)), q(r.f(-1.0, 1.0))],
            };
            FSec { b, a: [1.0, a1, a2], z: [0.0, 0.0] }
        })
        .collect()
}
pub struct DdRun {
    pub y: Vec<f64>,
    pub z: Vec<[f64; 2]>,
    /// absolute tolerance of the outputs
    pub tol: f64,
    /// absolute tolerance of each section's states
    pub ztol: Vec<f64>,
    /// largest intermediate magnitude
    pub mag: f64,
}
fn l1(b: [f64; 3], a: [f64; 3], n: usize) -> f64 {
    // L1 norm of the impulse response of B/A over n samples
    let (mut z0, mut z1, mut s) = (0.0, 0.0, 0.0);
    for i in 0..n {
        let x = if i == 0 { 1.0 } else { 0.0 };
        let y = b[0] * x + z0;
        z0 = b[1] * x - a[1] * y + z1;
        z1 = b[2] * x - a[2] * y;
        s += f64::abs(y);
    }
    s
}
/// Double-double run plus a bound on the rounding error of any straightforward evaluation in F.
pub fn ddrun<F: Fl>(secs: &[FSec], x: &[f64]) -> DdRun {
    let sig: Vec<DD> = x.iter().map(|v| DD::from(*v)).collect();
    let z: Vec<[DD; 2]> = secs.iter().map(|s| s.z.map(DD::from)).collect();
    ddrun_dd::<F>(secs, sig, &z).0
}
pub fn ddrun_dd<F: Fl>(secs: &[FSec], mut sig: Vec<DD>, zin: &[[DD; 2]]) -> (DdRun, Vec<DD>) {
    let n = sig.len();
    let mut tol = 0.0;
    let mut z = vec![];
    let mut ztol = vec![];
    let mut mag = sig.iter().fold(0.0f64, |m, v| m.max(v.0.abs()));
    for (s, zi) in secs.iter().zip(zin) {
        let b = s.b.map(DD::from);
        let a = s.a.map(DD::from);
        let mut z0 = zi[0];
        let mut z1 = zi[1];
        let mut m = 0.0f64;
        for v in sig.iter_mut() {
            let x = *v;
            let y = b[0] * x + z0;
            m = m.max(
                (s.b[0] * x.0).abs() + z0.0.abs() + (s.b[1] * x.0).abs() + (s.a[1] * y.0).abs() + z1.0.abs() + (s.b[2] * x.0).abs() + (s.a[2] * y.0).abs(),
            );
            z0 = b[1] * x - a[1] * y + z1;
            z1 = b[2] * x - a[2] * y;
            *v = y;
        }
        mag = mag.max(m);
        let inj = 6.0 * F::EPS * m + 4.0 * F::TINY;
        let gh = l1(s.b, s.a, n);
        let ga = l1([1.0, 0.0, 0.0], s.a, n);
        let tin = tol;
        tol = tin * gh + inj * (ga + 1.0);
        let zt = (s.b[1].abs() + s.b[2].abs()) * tin + (s.a[1].abs() + s.a[2].abs()) * tol + 2.0 * inj;
        z.push([z0.f(), z1.f()]);
        ztol.push(zt);
    }
    (DdRun { y: sig.iter().map(|v| v.f()).collect(), z, tol, ztol, mag }, sig)
}
pub fn l1_h(s: &FSec, n: usize) -> f64 {
    l1(s.b, s.a, n)
}
pub fn l1_a(s: &FSec, n: usize) -> f64 {
    l1([1.0, 0.0, 0.0], s.a, n)
}
/// Steady-state initial conditions of b/a (leading zeros of a stripped, normalised), with an error bound for
/// evaluation in F. None if the denominator sum is too small to bound.
pub fn zi_ref<F: Fl>(b: &[f64], a: &[f64]) -> Option<(Vec<DD>, f64, DD)> {
    let m = b.len();
    let k = a.iter().position(|x| *x != 0.0)?;
    let a0 = DD::from(a[k]);
    let mut an: Vec<DD> = a[k..].iter().map(|x| DD::from(*x) / a0).collect();
    an.resize(m, DD::ZERO);
    let bn: Vec<DD> = b.iter().map(|x| DD::from(*x) / a0).collect();
    let sum = |v: &[DD]| v.iter().fold(DD::ZERO, |s, x| s + *x);
    let abs = |v: &[DD]| v.iter().fold(0.0, |s, x| s + x.0.abs());
    let a1 = sum(&an);
    let (sa, sb) = (abs(&an), abs(&bn));
    if a1.0.abs() < 1e-9 * sa {
        return None;
    }
    let g = sum(&bn) / a1;
    let mut zi = vec![DD::ZERO; m - 1];
    let mut acc = DD::ZERO;
    for j in (1..m).rev() {
        acc += bn[j] - an[j] * g;
        zi[j - 1] = acc;
    }
    let z0 = zi[0].0.abs();
    let mf = 4.0 * m as f64 * F::EPS;
    let b0 = bn[0].0.abs();
    let e0 = mf * ((sb + sa * b0) / a1.0.abs() + z0 * sa / a1.0.abs());
    let err = sa * e0 + e0 + mf * (sa * z0 + sb + sa * b0) + F::TINY * 4.0;
    Some((zi, err, g))
}
/// Cascade seeds for unit step, with error bounds, plus overall DC gain.
pub fn zi_cascade<F: Fl>(secs: &[FSec]) -> Option<(Vec<[DD; 2]>, Vec<f64>, DD)> {
    let mut scale = DD::ONE;
    let mut serr = 0.0; // relative error of scale
    let mut out = vec![];
    let mut errs = vec![];
    for s in secs {
        let (z, e, g) = zi_ref::<F>(&s.b, &s.a)?;
        out.push([scale * z[0], scale * z[1]]);
        let zm = z[0].0.abs().max(z[1].0.abs());
        errs.push(scale.0.abs() * (e + zm * (serr + 2.0 * F::EPS)) + F::TINY);
        let sb: f64 = s.b.iter().map(|x| x.abs()).sum();
        let sa: f64 = s.a.iter().map(|x| x.abs()).sum();
        let (b1, a1): (f64, f64) = (s.b.iter().sum::<f64>().abs(), s.a.iter().sum::<f64>().abs());
        // relative error of the section's DC gain
        serr += 8.0 * F::EPS * (sb / b1.max(1e-300) + sa / a1 + 1.0);
        scale = scale * g;
        if !(serr < 1e-2) {
            // vanishing DC gain: later seeds are dominated by cancellation; bound absolutely instead
            if b1 == 0.0 {
                serr = 0.0;
            } else {
                return None;
            }
        }
    }
    Some((out, errs, scale))
}
/// Entry points usable with both precisions.
pub const ENTRIES: [&str; 6] = ["dyn-ref", "dyn-owned", "st-ref", "st-owned", "item-val", "item-ref"];
pub fn run_entry<F: Fl>(e: usize, x: &[F], sos: &mut [Sos<F>]) -> Vec<F> {
    match e {
        0 => sosfilt_dyn(x.iter(), sos),
        1 => sosfilt_dyn(x.to_vec(), sos),
        2 => sosfilt_st(x.iter(), sos).collect(),
        3 => sosfilt_st(x.to_vec(), sos).collect(),
        4 => x.iter().map(|v| sosfilt_item(*v, sos)).collect(),
        _ => x.iter().map(|v| sosfilt_item(v, sos)).collect(),
    }
}
pub fn run_fast32(x: &[f32], sos: &mut [Sos<f32>]) -> Vec<f32> {
    let mut z = vec![f32::NAN; x.len()];
    sosfilt_fast32_st(x, sos, &mut z);
    z
}
pub fn run_ifast32<I: Into<isize> + Copy>(x: &[I], sos: &mut [Sos<f32>]) -> Vec<f32> {
    let mut z = vec![f32::NAN; x.len()];
    sosfilt_ifast32_st(x, sos, &mut z);
    z
}
#[derive(Clone, Copy, Debug)]
pub struct Samp32(pub i32);
impl From<Samp32> for isize {
    fn from(s: Samp32) -> isize {
        s.0 as isize
    }
}
/// one, or a power of two such that exactly representable integers times it stay exactly representable
pub fn gen_pow2<F: Fl>(r: &mut Rng) -> f64 {
    if r.bool() {
        return 1.0;
    }
    let m = if F::NAME == "f32" { 80 } else { 400 };
    2f64.powi(r.range(-m, m) as i32)
}
pub fn rescale<F: Fl>(sos: &mut [Sos<F>], y: &mut [F], k: f64) {
    for s in sos.iter_mut() {
        s.zi0 = F::of(s.zi0.d() * k);
        s.zi1 = F::of(s.zi1.d() * k);
    }
    for v in y.iter_mut() {
        *v = F::of(v.d() * k);
    }
}
/// compare exact outputs and states; describes the first difference
pub fn cmp_exact<F: Fl>(got: &[F], sos: &[Sos<F>], y: &[i64], end: &[ISec]) -> Option<String> {
    if got.len() != y.len() {
        return Some(format!("output length {} for {} samples", got.len(), y.len()));
    }
    for (i, (g, w)) in got.iter().zip(y).enumerate() {
        if g.d() != *w as f64 {
            return Some(format!("output[{i}] = {:?}, exact value {}", g, w));
        }
    }
    for (k, (s, e)) in sos.iter().zip(end).enumerate() {
        if s.zi0.d() != e.z[0] as f64 || s.zi1.d() != e.z[1] as f64 {
            return Some(format!("section {k} of {} left state ({:?}, {:?}), exact ({}, {})", end.len(), s.zi0, s.zi1, e.z[0], e.z[1]));
        }
        for j in 0..3 {
            if s.b[j].d() != e.b[j] as f64 || s.a[j].d() != e.a[j] as f64 {
                return Some(format!("section {k} coefficients changed: b={:?} a={:?}", s.b, s.a));
            }
        }
    }
    None
}
