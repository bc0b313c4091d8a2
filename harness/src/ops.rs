//! One registry of all public operations with argument generators: each call is recorded as (operation, arguments, result).
//! Used by the purity (C24), configuration (C25) and SciPy (C28) monitors.
use crate::*;
use sci_rs::linalg::companion_dyn;
use sci_rs::na::{Complex, DMatrix};
use sci_rs::signal::filter::design::*;
use sci_rs::signal::filter::*;
use sci_rs::special::*;
use sci_rs::stats::*;
use std::fmt::Write as _;

#[derive(Clone, Debug)]
pub enum V {
    F(Vec<f64>),
    C(Vec<(f64, f64)>),
    X(f64),
    I(i128),
    U(u128),
    S(String),
    N,
}
pub struct Rec {
    pub op: &'static str,
    /// single precision?
    pub single: bool,
    /// only additions, multiplications, divisions, comparisons: bit-identical in every configuration
    pub arith: bool,
    pub args: Vec<(&'static str, V)>,
    pub out: Result<Vec<(&'static str, V)>, String>,
}
pub type OpFn = fn(&mut Rng) -> Rec;
fn jf(o: &mut String, x: f64) {
    if x.is_nan() {
        o.push_str("NaN");
    } else if x.is_infinite() {
        o.push_str(if x > 0.0 { "Infinity" } else { "-Infinity" });
    } else {
        let _ = write!(o, "{x:?}");
    }
}
impl V {
    fn json(&self, o: &mut String) {
        match self {
            V::F(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    jf(o, *x);
                }
                o.push(']');
            }
            V::C(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push('[');
                    jf(o, x.0);
                    o.push(',');
                    jf(o, x.1);
                    o.push(']');
                }
                o.push(']');
            }
            V::X(x) => jf(o, *x),
            V::I(x) => {
                let _ = write!(o, "{x}");
            }
            V::U(x) => {
                let _ = write!(o, "{x}");
            }
            V::S(s) => o.push_str(&json_str(s)),
            V::N => o.push_str("null"),
        }
    }
    fn bits(&self, h: &mut Vec<u64>) {
        let b = |x: f64| if x.is_nan() { u64::MAX } else { x.to_bits() };
        match self {
            V::F(v) => {
                h.push(v.len() as u64);
                h.extend(v.iter().map(|x| b(*x)))
            }
            V::C(v) => {
                h.push(v.len() as u64);
                for x in v {
                    h.push(b(x.0));
                    h.push(b(x.1));
                }
            }
            V::X(x) => h.push(b(*x)),
            V::I(x) => {
                h.push(*x as u64);
                h.push((*x >> 64) as u64)
            }
            V::U(x) => {
                h.push(*x as u64);
                h.push((*x >> 64) as u64)
            }
            V::S(s) => h.push(fnv(s.as_bytes(), 1)),
            V::N => h.push(7),
        }
    }
}
impl Rec {
    pub fn json(&self, idx: u64) -> String {
        let mut o = String::new();
        let _ = write!(o, "{{\"op\":\"{}\",\"i\":{},\"f32\":{},\"arith\":{},\"args\":{{", self.op, idx, self.single, self.arith);
        for (i, (k, v)) in self.args.iter().enumerate() {
            let _ = write!(o, "{}\"{}\":", if i > 0 { "," } else { "" }, k);
            v.json(&mut o);
        }
        match &self.out {
            Ok(out) => {
                o.push_str("},\"out\":{");
                for (i, (k, v)) in out.iter().enumerate() {
                    let _ = write!(o, "{}\"{}\":", if i > 0 { "," } else { "" }, k);
                    v.json(&mut o);
                }
                o.push_str("}}");
            }
            Err(m) => {
                o.push_str("},\"panic\":");
                o.push_str(&json_str(m));
                o.push('}');
            }
        }
        o
    }
    /// result bits (panic message without its location counts as the result)
    pub fn bits(&self) -> Vec<u64> {
        let mut h = vec![];
        match &self.out {
            Ok(o) => {
                for (_, v) in o {
                    v.bits(&mut h)
                }
            }
            Err(_) => h.push(0xdead),
        }
        h
    }
    pub fn arg_hash(&self) -> u64 {
        let mut h = vec![fnv(self.op.as_bytes(), 3)];
        for (_, v) in &self.args {
            v.bits(&mut h)
        }
        let mut x = H::default();
        for b in h {
            x = x.u(b);
        }
        x.0
    }
}
fn rec<F: Fl>(op: &'static str, args: Vec<(&'static str, V)>, f: impl FnOnce() -> Vec<(&'static str, V)>) -> Rec {
    Rec { op, single: F::NAME == "f32", arith: false, args, out: call(f) }
}
fn reca<F: Fl>(op: &'static str, args: Vec<(&'static str, V)>, f: impl FnOnce() -> Vec<(&'static str, V)>) -> Rec {
    let mut r = rec::<F>(op, args, f);
    r.arith = true;
    r
}
pub fn vf<F: Fl>(v: &[F]) -> V {
    V::F(v.iter().map(|x| x.d()).collect())
}
pub fn vc<F: Fl>(v: &[Complex<F>]) -> V {
    V::C(v.iter().map(|x| (x.re.d(), x.im.d())).collect())
}
fn vx<F: Fl>(x: F) -> V {
    V::X(x.d())
}
fn vi(x: usize) -> V {
    V::I(x as i128)
}
fn vsos<F: Fl>(v: &[Sos<F>]) -> V {
    V::F(v.iter().flat_map(|s| s.b.iter().chain(s.a.iter()).map(|x| x.d()).collect::<Vec<_>>()).collect())
}
fn vzi<F: Fl>(v: &[Sos<F>]) -> V {
    V::F(v.iter().flat_map(|s| [s.zi0.d(), s.zi1.d()]).collect())
}
fn vm<F: Fl>(m: &DMatrix<F>) -> Vec<(&'static str, V)> {
    vec![("rows", vi(m.nrows())), ("cols", vi(m.ncols())), ("data", V::F(m.iter().map(|x| x.d()).collect()))]
}
fn sig<F: Fl>(r: &mut Rng, max: usize) -> Vec<F> {
    let n = if r.one_in(12) { r.below(max + 1) } else { r.urange(1, 40.min(max)) };
    sign::<F>(r, n)
}
fn sign<F: Fl>(r: &mut Rng, n: usize) -> Vec<F> {
    let k = r.below(6);
    let w = r.f(0.01, 3.0);
    let sc = if r.one_in(4) { r.logf(1e-6, 1e6) } else { 1.0 };
    (0..n)
        .map(|i| {
            F::of(sc * match k {
                0 => r.normal(),
                1 => (w * i as f64).sin() + 0.2 * r.normal(),
                2 => r.range(-9, 9) as f64,
                3 => i as f64 * 0.5 + r.f(-0.1, 0.1),
                4 => 100.0 + r.normal(),
                _ => r.f(-1.0, 1.0),
            })
        })
        .collect()
}
fn secs<F: Fl>(r: &mut Rng, n: usize) -> Vec<Sos<F>> {
    gen_fsecs::<F>(r, n, 0.95).iter().map(|s| s.sos::<F>()).collect()
}
/// number of sections: mostly few, sometimes many
fn nsec(r: &mut Rng) -> usize {
    if r.one_in(8) {
        r.urange(7, 24)
    } else {
        r.below(7)
    }
}
fn filt<F: Fl>(e: usize, r: &mut Rng) -> Rec {
    let n = nsec(r);
    let mut s = secs::<F>(r, n);
    for q in s.iter_mut() {
        if r.bool() {
            q.zi0 = F::of(r.normal());
            q.zi1 = F::of(r.normal());
        }
    }
    let x = sig::<F>(r, 300);
    let args = vec![("sos", vsos(&s)), ("zi", vzi(&s)), ("x", vf(&x))];
    reca::<F>(["sosfilt_dyn", "sosfilt_st", "sosfilt_item"][e], args, || {
        let y: Vec<F> = match e {
            0 => sosfilt_dyn(x.iter(), &mut s),
            1 => sosfilt_st(x.iter(), &mut s).collect(),
            _ => x.iter().map(|v| sosfilt_item(v, &mut s)).collect(),
        };
        vec![("y", vf(&y)), ("zf", vzi(&s)), ("sos", vsos(&s))]
    })
}
fn filt_dyn<F: Fl>(r: &mut Rng) -> Rec {
    filt::<F>(0, r)
}
fn filt_st<F: Fl>(r: &mut Rng) -> Rec {
    filt::<F>(1, r)
}
fn filt_item<F: Fl>(r: &mut Rng) -> Rec {
    filt::<F>(2, r)
}
fn fast32(r: &mut Rng) -> Rec {
    let n = nsec(r);
    let mut s = secs::<f32>(r, n);
    let x = sig::<f32>(r, 300);
    let m = if r.one_in(12) { x.len() + r.urange(1, 3) } else { x.len() };
    let args = vec![("sos", vsos(&s)), ("zi", vzi(&s)), ("x", vf(&x)), ("zlen", vi(m))];
    reca::<f32>("sosfilt_fast32_st", args, || {
        let mut z = vec![0f32; m];
        sosfilt_fast32_st(&x, &mut s, &mut z);
        vec![("y", vf(&z)), ("zf", vzi(&s)), ("sos", vsos(&s))]
    })
}
fn ifast32(r: &mut Rng) -> Rec {
    let n = nsec(r);
    let mut s = secs::<f32>(r, n);
    let k = gen_len(r, 300);
    let x: Vec<i16> = (0..k).map(|_| r.u64() as i16 >> r.below(15)).collect();
    let args = vec![("sos", vsos(&s)), ("zi", vzi(&s)), ("x", V::F(x.iter().map(|v| *v as f64).collect())), ("zlen", vi(k))];
    reca::<f32>("sosfilt_ifast32_st", args, || {
        let mut z = vec![0f32; k];
        sosfilt_ifast32_st(&x, &mut s, &mut z);
        vec![("y", vf(&z)), ("zf", vzi(&s)), ("sos", vsos(&s))]
    })
}
fn zi<F: Fl>(r: &mut Rng) -> Rec {
    let n = nsec(r);
    let mut s = secs::<F>(r, n);
    rec::<F>("sosfilt_zi", vec![("sos", vsos(&s))], || {
        sosfilt_zi_dyn::<F, _, Sos<F>>(s.iter_mut());
        vec![("zi", vzi(&s)), ("sos", vsos(&s))]
    })
}
/// polynomial with roots inside the unit circle
fn poly_in<F: Fl>(r: &mut Rng, n: usize) -> Vec<F> {
    let mut p = vec![1.0f64];
    let mut left = n;
    while left > 0 {
        let q = if left >= 2 && r.bool() {
            let (m, t) = (r.f(0.1, 0.9), r.f(0.1, 3.0));
            vec![1.0, -2.0 * m * t.cos(), m * m]
        } else {
            vec![1.0, r.f(-0.9, 0.9)]
        };
        left -= q.len() - 1;
        let mut o = vec![0.0; p.len() + q.len() - 1];
        for (i, a) in p.iter().enumerate() {
            for (j, b) in q.iter().enumerate() {
                o[i + j] += a * b;
            }
        }
        p = o;
    }
    p.into_iter().map(F::of).collect()
}
fn lzi<F: Fl>(r: &mut Rng) -> Rec {
    let n = if r.one_in(8) { r.urange(7, 9) } else { r.urange(1, 6) };
    let g = if r.bool() { 1.0 } else { r.logf(0.1, 10.0) };
    let a: Vec<F> = poly_in::<F>(r, n).iter().map(|x| F::of(x.d() * g)).collect();
    let b: Vec<F> = (0..=n).map(|_| F::of(r.f(-2.0, 2.0))).collect();
    rec::<F>("lfilter_zi", vec![("b", vf(&b)), ("a", vf(&a))], || vec![("zi", vf(&lfilter_zi_dyn(&b, &a)))])
}
fn filtfilt<F: Fl>(r: &mut Rng) -> Rec {
    let n = if F::NAME == "f32" { r.below(6) } else { nsec(r) };
    let s = secs::<F>(r, n);
    let l = if r.one_in(8) { r.urange(1, 3 * (2 * n + 1)) } else { r.urange(3 * (2 * n + 1) + 1, 90 + 6 * n) };
    let x = sign::<F>(r, l);
    rec::<F>("sosfiltfilt", vec![("sos", vsos(&s)), ("x", vf(&x))], || {
        let y = sosfiltfilt_dyn(x.iter(), &s);
        vec![("y", vf(&y))]
    })
}
fn pad_op<F: Fl>(r: &mut Rng) -> Rec {
    let (m, n) = if r.one_in(8) { (r.urange(1, 40), r.urange(1, 40)) } else { (r.urange(1, 9), r.urange(1, 9)) };
    let data = sign::<F>(r, m * n);
    let axis = r.below(2);
    let len = if axis == 0 { m } else { n };
    let k = r.below(4);
    let edge = if r.one_in(8) { len + r.below(3) } else { r.below(len) };
    let x = DMatrix::from_vec(m, n, data.clone());
    let args = vec![("m", vi(m)), ("n", vi(n)), ("axis", vi(axis)), ("kind", vi(k)), ("edge", vi(edge)), ("data", vf(&data))];
    reca::<F>("pad", args, || {
        let p = match k {
            0 => Pad::None,
            1 => Pad::Odd,
            2 => Pad::Even,
            _ => Pad::Constant,
        };
        let (e, m) = pad(p, Some(edge), x, axis, 2);
        let mut o = vm(&m);
        o.push(("edge", vi(e)));
        o
    })
}
pub fn filter_out<F: Fl>(f: &DigitalFilter<F>) -> Vec<(&'static str, V)> {
    match f {
        DigitalFilter::Ba(f) => vec![("b", vf(&f.b)), ("a", vf(&f.a))],
        DigitalFilter::Zpk(f) => vec![("z", vc(&f.z)), ("p", vc(&f.p)), ("k", vx(f.k))],
        DigitalFilter::Sos(f) => vec![("sos", vsos(&f.sos)), ("zi", vzi(&f.sos))],
    }
}
/// requests that are well away from degenerate (rounding differences stay small), plus invalid ones
pub fn tame_req<F: Fl>(r: &mut Rng) -> Req {
    let fam = r.pick(&[Fam::Butter, Fam::Cheb1, Fam::Cheb2]);
    let band = if fam == Fam::Cheb2 { r.pick(&[Band::Lp, Band::Bp]) } else { r.pick(&[Band::Lp, Band::Hp, Band::Bp, Band::Bs]) };
    let order = r.urange(1, if F::NAME == "f32" { 4 } else if band.two() { 5 } else { 8 });
    let analog = r.one_in(4);
    let mut wn = vec![r.f(0.1, if band.two() { 0.45 } else { 0.85 })];
    if band.two() {
        let w = wn[0] + r.f(0.12, 0.4);
        wn.push(w);
    }
    let fs = if !analog && r.bool() { Some(r.pick(&[1.0, 2.0, 100.0, 1666.0, 44100.0])) } else { None };
    let fs = fs.map(|f| F::of(f).d());
    let sc = if analog { r.logf(0.1, 100.0) } else { fs.map(|f| f / 2.0).unwrap_or(1.0) };
    let wn = wn.iter().map(|w| F::of(w * sc).d()).collect();
    let rdb = F::of(if fam == Fam::Cheb2 { r.f(15.0, 60.0) } else { r.f(0.1, 3.0) }).d();
    Req { fam, band, order, wn, r: rdb, fs, analog, out: r.pick(&[Out::Ba, Out::Zpk, Out::Sos]), omit: r.one_in(3), generic: r.one_in(3) }
}
fn design<F: Fl>(r: &mut Rng) -> Rec {
    let mut q = tame_req::<F>(r);
    if r.one_in(8) {
        let nyq = q.fs.map(|f| f / 2.0).unwrap_or(1.0);
        let last = q.wn.len() - 1;
        match r.below(10) {
            0 => q.wn[0] = -q.wn[0],
            1 => q.wn = vec![0.1, 0.2, 0.3],
            2 => q.wn.reverse(),
            3 => q.r = -1.0,
            4 => q.wn[0] = q.wn[last],
            5 if !q.analog => q.wn[last] = nyq,
            6 if !q.analog => q.wn[last] = F::of(nyq * 1.5).d(),
            7 => {
                q.analog = true;
                q.fs = Some(2.0);
            }
            8 => {
                // one edge too few or too many for the band type
                let w = q.wn[last];
                q.wn = if last == 1 { vec![w] } else { vec![F::of(w * 0.5).d(), w] };
            }
            _ => q.wn[0] = 0.0,
        }
    }
    let args = vec![
        ("fam", V::S(format!("{:?}", q.fam))),
        ("band", V::S(format!("{:?}", q.band))),
        ("order", vi(q.order)),
        ("wn", V::F(q.wn.clone())),
        ("r", V::X(q.r)),
        ("fs", q.fs.map(V::X).unwrap_or(V::N)),
        ("analog", V::I(q.analog as i128)),
        ("fmt", V::S(format!("{:?}", q.out))),
        ("omit", V::I(q.omit as i128)),
        ("generic", V::I(q.generic as i128)),
    ];
    rec::<F>("design", args, || filter_out(&q.run::<F>()))
}
fn cheb1ap<F: Fl>(r: &mut Rng) -> Rec {
    let (n, d) = (r.below(13), F::of(r.logf(0.05, 20.0)));
    rec::<F>("cheb1ap", vec![("n", vi(n)), ("rp", vx(d))], || {
        let f = cheb1ap_dyn(n, d);
        vec![("z", vc(&f.z)), ("p", vc(&f.p)), ("k", vx(f.k))]
    })
}
fn cheb2ap<F: Fl>(r: &mut Rng) -> Rec {
    let (n, d) = (r.below(13), F::of(r.logf(1.0, 80.0)));
    rec::<F>("cheb2ap", vec![("n", vi(n)), ("rs", vx(d))], || {
        let f = cheb2ap_dyn(n, d);
        vec![("z", vc(&f.z)), ("p", vc(&f.p)), ("k", vx(f.k))]
    })
}
/// conjugate-closed roots with distinct moduli, so that rounding cannot change pairing decisions
fn roots<F: Fl>(r: &mut Rng, n: usize, disc: bool) -> Vec<Complex<F>> {
    let mut v = vec![];
    let mut i = 0;
    while v.len() < n {
        i += 1;
        let m = if disc { 0.95 * (i as f64 + r.f(-0.3, 0.3)) / (n as f64 + 1.0) } else { r.logf(0.2, 5.0) };
        if n - v.len() >= 2 && r.bool() {
            let t = r.f(0.25, 2.9);
            let t = if disc { t } else { std::f64::consts::PI - 0.5 * t };
            let (a, b) = (F::of(m * t.cos()), F::of(m * t.sin()));
            v.push(Complex::new(a, b));
            v.push(Complex::new(a, -b));
        } else {
            v.push(Complex::new(F::of(if disc { m * r.pick(&[-1.0, 1.0]) } else { -m }), F::of(0.0)));
        }
    }
    v
}
fn transform<F: Fl>(r: &mut Rng) -> Rec {
    let np = if r.one_in(6) { r.urange(7, 14) } else { r.urange(1, 6) };
    let p = roots::<F>(r, np, false);
    let t = r.below(5);
    let nz = if t == 1 || t == 3 { 0 } else { r.below(np + 1) };
    let nz = if r.one_in(12) { np + 1 } else { nz };
    let z = roots::<F>(r, nz, false);
    let (k, wo, bw) = (F::of(r.f(0.2, 5.0)), F::of(r.logf(0.3, 10.0)), F::of(r.logf(0.3, 10.0)));
    let none = r.one_in(6);
    let name = ["lp2lp", "lp2hp", "lp2bp", "lp2bs", "bilinear"][t];
    let args = vec![("z", vc(&z)), ("p", vc(&p)), ("k", vx(k)), ("wo", if none { V::N } else { vx(wo) }), ("bw", if none { V::N } else { vx(bw) })];
    rec::<F>(name, args, || {
        let f = ZpkFormatFilter::new(z.clone(), p.clone(), k);
        let (w, b) = if none { (None, None) } else { (Some(wo), Some(bw)) };
        let f = match t {
            0 => lp2lp_zpk_dyn(f, w),
            1 => lp2hp_zpk_dyn(f, w),
            2 => lp2bp_zpk_dyn(f, w, b),
            3 => lp2bs_zpk_dyn(f, w, b),
            _ => bilinear_zpk_dyn(f, w.unwrap_or(F::of(1.0))),
        };
        vec![("z", vc(&f.z)), ("p", vc(&f.p)), ("k", vx(f.k))]
    })
}
/// move one root away from (exact) conjugacy or realness, by clearly less or clearly more than the tolerance of 100 eps
fn disturb<F: Fl>(r: &mut Rng, v: &mut [Complex<F>]) {
    if v.is_empty() {
        return;
    }
    let i = r.below(v.len());
    let e = r.pick(&[3.0, 12.0, 25.0, 1e3, 3e4, 1e6]) * F::EPS * v[i].re.d().hypot(v[i].im.d()) * r.pick(&[1.0, -1.0]);
    if v[i].im.d() == 0.0 || r.bool() {
        v[i].im = F::of(v[i].im.d() + e);
    } else {
        v[i].re = F::of(v[i].re.d() + e);
    }
}
fn conv_zpk<F: Fl>(r: &mut Rng) -> Rec {
    let np = if r.one_in(6) { r.urange(9, 18) } else { r.urange(1, 8) };
    let mut p = roots::<F>(r, np, true);
    let nz = r.below(np + 1);
    let mut z = roots::<F>(r, nz, true);
    let k = F::of(r.f(0.2, 5.0));
    let t = r.below(3);
    if t == 2 {
        return conv_minimal::<F>(r);
    }
    if t == 1 && r.one_in(3) {
        if r.bool() {
            disturb(r, &mut p);
        } else {
            disturb(r, &mut z);
        }
    }
    let args = vec![("z", vc(&z)), ("p", vc(&p)), ("k", vx(k))];
    rec::<F>(["zpk2tf", "zpk2sos"][t], args, || {
        if t == 0 {
            let f = zpk2tf_dyn(np, &z, &p, k);
            vec![("b", vf(&f.b)), ("a", vf(&f.a))]
        } else {
            let f = zpk2sos_dyn(np, ZpkFormatFilter::new(z.clone(), p.clone(), k), None, None);
            vec![("sos", vsos(&f.sos)), ("zi", vzi(&f.sos))]
        }
    })
}
/// minimal pairing, as analog designs use it
fn conv_minimal<F: Fl>(r: &mut Rng) -> Rec {
    let np = if r.one_in(6) { r.urange(9, 14) } else { r.urange(0, 8) };
    let digital = r.one_in(3);
    let p = roots::<F>(r, np, digital);
    let nz = if r.bool() { np } else { r.below(np + 2) };
    let disc = digital || r.bool();
    let z = roots::<F>(r, nz, disc);
    let k = F::of(r.f(0.2, 5.0));
    let explicit = digital || r.bool();
    rec::<F>("zpk2sos_min", vec![("z", vc(&z)), ("p", vc(&p)), ("k", vx(k)), ("analog", V::I(!digital as i128))], || {
        let pairing = if explicit { Some(ZpkPairing::Minimal) } else { None };
        let f = zpk2sos_dyn(np, ZpkFormatFilter::new(z.clone(), p.clone(), k), pairing, Some(!digital));
        vec![("sos", vsos(&f.sos)), ("zi", vzi(&f.sos))]
    })
}
fn poly<F: Fl>(r: &mut Rng) -> Rec {
    let n = r.below(9);
    let z = roots::<F>(r, n, true);
    rec::<F>("poly", vec![("z", vc(&z))], || vec![("p", vc(&poly_dyn(&z)))])
}
fn from_scipy<F: Fl>(r: &mut Rng) -> Rec {
    let n = r.below(7);
    let l = if r.one_in(6) { r.below(50) } else { n * 6 };
    let x = sign::<F>(r, l);
    reca::<F>("from_scipy", vec![("n", vi(n)), ("x", vf(&x))], || vec![("sos", vsos(&Sos::from_scipy_dyn(n, x.clone())))])
}
fn savgol_c<F: Fl>(r: &mut Rng) -> Rec {
    let (w, p) = if F::NAME == "f32" {
        (r.urange(1, 11), r.below(4))
    } else if r.one_in(6) {
        (2 * r.urange(10, 50) + 1, r.below(4))
    } else {
        (r.urange(1, 21), r.below(5))
    };
    let (d, s) = (r.below(4), F::of(r.pick(&[1.0, 0.5, 2.0, -1.0])));
    rec::<F>("savgol_coeffs", vec![("w", vi(w)), ("p", vi(p)), ("d", vi(d)), ("delta", vx(s))], || vec![("c", vf(&savgol_coeffs_dyn(w, p, Some(d), Some(s))))])
}
fn savgol_f<F: Fl>(r: &mut Rng) -> Rec {
    let (w, p) = if F::NAME == "f32" {
        (2 * r.below(6) + 1, r.below(4))
    } else if r.one_in(6) {
        (2 * r.urange(10, 50) + 1, r.below(4))
    } else {
        (2 * r.below(11) + 1, r.below(5))
    };
    let w = if r.one_in(10) { w + 1 } else { w };
    let (d, s) = (r.below(3), F::of(r.pick(&[1.0, 0.5, 2.0, -1.0])));
    let x = sig::<F>(r, 200);
    rec::<F>("savgol_filter", vec![("x", vf(&x)), ("w", vi(w)), ("p", vi(p)), ("d", vi(d)), ("delta", vx(s))], || {
        vec![("y", vf(&savgol_filter_dyn::<_, F>(x.iter(), w, p, Some(d), Some(s))))]
    })
}
fn stats1<F: Fl>(r: &mut Rng) -> Rec {
    let x = sig::<F>(r, 400);
    let k = r.below(9);
    let lag = r.below(x.len() + 2);
    let name = ["mean", "variance", "stdev", "median", "mad", "autocorr", "rmssd", "lag_diff", "median_f"][k];
    let f = || {
        let p = |(a, n): (F, usize)| vec![("v", vx(a)), ("n", vi(n))];
        match k {
            0 => p(mean(x.iter())),
            1 => p(variance(x.iter())),
            2 => p(stdev(x.iter())),
            3 | 8 => p(median(x.iter())),
            4 => p(median_abs_deviation(x.iter())),
            5 => vec![("v", vx(autocorr::<_, F>(x.iter(), lag)))],
            6 => vec![("v", vx(rmssd::<_, F>(x.iter())))],
            _ => vec![("y", vf(&lag_diff::<_, F>(x.iter()).collect::<Vec<_>>()))],
        }
    };
    let mut q = rec::<F>(name, vec![("x", vf(&x)), ("lag", vi(lag))], f);
    q.arith = k != 6;
    q
}
fn zsc<F: Fl>(r: &mut Rng) -> Rec {
    let x = sig::<F>(r, 300);
    let k = r.below(2);
    reca::<F>(["zscore", "mod_zscore"][k], vec![("x", vf(&x))], || {
        let y: Vec<F> = if k == 0 { zscore(x.iter()).collect() } else { mod_zscore(x.iter()).collect() };
        vec![("y", vf(&y))]
    })
}
fn fast_n<const N: usize, const M: usize, const SKIP: usize>(r: &mut Rng) -> Rec {
    let x = sign::<f32>(r, N);
    reca::<f32>("fast_stats", vec![("x", vf(&x)), ("lags", vi(M)), ("skip", vi(SKIP))], || {
        let mut y = [0f32; N];
        y.copy_from_slice(&x);
        let rms = rms_fast32(&y);
        let mut o = [0f32; M];
        let v = autocorr_fast32::<N, M, SKIP>(&mut y, &mut o);
        vec![("rms", vx(rms)), ("var", vx(v)), ("ac", vf(&o)), ("y", vf(&y))]
    })
}
fn fast_stats(r: &mut Rng) -> Rec {
    let t: [OpFn; 12] = [
        fast_n::<23, 9, 2>, fast_n::<1, 1, 0>, fast_n::<4, 4, 0>, fast_n::<8, 3, 2>, fast_n::<9, 4, 4>, fast_n::<16, 8, 5>, fast_n::<24, 12, 0>, fast_n::<31, 30, 1>,
        fast_n::<32, 1, 31>, fast_n::<64, 20, 32>, fast_n::<101, 50, 1>, fast_n::<256, 8, 0>,
    ];
    t[r.below(t.len())](r)
}
fn int_stats(r: &mut Rng) -> Rec {
    let n = if r.one_in(8) { r.below(300) } else { r.below(20) };
    let sh = r.below(40);
    let x: Vec<i64> = (0..n).map(|_| (r.u64() as i64 >> 20) >> sh).collect();
    let k = r.below(2);
    reca::<f64>(["imean", "imedian"][k], vec![("x", V::F(x.iter().map(|v| *v as f64).collect()))], || {
        let (v, n): (i64, usize) = if k == 0 { mean(x.iter()) } else { median(x.iter()) };
        vec![("v", V::I(v as i128)), ("n", vi(n))]
    })
}
macro_rules! intop {
    ($name:ident, $t:ty, $lim:expr) => {
        fn $name(r: &mut Rng) -> Rec {
            let neg = |r: &mut Rng, v: $t| if r.one_in(12) { (0 as $t).wrapping_sub(v) } else { v };
            let lim = if r.one_in(6) { 3 * $lim } else { $lim };
            let n = r.below(lim) as $t;
            let k = r.below(lim) as $t;
            let (n, k) = if <$t>::MIN == 0 { (n, k) } else { (neg(r, n), neg(r, k)) };
            let f = r.below(7);
            let name = ["factorial", "factorial2", "factorialk", "comb", "comb_rep", "perm", "stirling2"][f];
            let args = vec![("n", V::I(n as i128)), ("k", V::I(k as i128)), ("type", V::S(stringify!($t).to_string()))];
            let mut q = reca::<f64>(name, args, || {
                let v = match f {
                    0 => n.factorial(),
                    1 => n.factorial2(),
                    2 => n.factorialk(k),
                    3 => n.comb(k),
                    4 => n.comb_rep(k),
                    5 => n.perm(k),
                    _ => n.stirling2(k),
                };
                vec![("v", if <$t>::MIN == 0 { V::U(v as u128) } else { V::I(v as i128) })]
            });
            q.single = false;
            q
        }
    };
}
intop!(int_u8, u8, 6);
intop!(int_i32, i32, 13);
intop!(int_u64, u64, 21);
intop!(int_i64, i64, 20);
intop!(int_u128, u128, 34);
fn bessel<F: Fl + Bessel>(r: &mut Rng) -> Rec {
    let m = if F::NAME == "f32" { 80.0 } else { 600.0 };
    let x = F::of(match r.below(3) {
        0 => r.f(-10.0, 10.0),
        1 => r.f(-m, m),
        _ => r.logf(1e-9, m),
    });
    rec::<F>("bessel", vec![("x", vx(x))], || vec![("i0", vx(x.i0())), ("i0e", vx(x.i0e()))])
}
fn companion<F: Fl>(r: &mut Rng) -> Rec {
    let n = if r.one_in(8) { r.below(40) } else { r.below(9) };
    let a = sign::<F>(r, n);
    let m = if r.one_in(8) { r.below(9) } else { n };
    reca::<F>("companion", vec![("a", vf(&a)), ("m", vi(m))], || vm(&companion_dyn::<F, _, _>(a.iter(), m)))
}
fn square_op<F: Fl>(r: &mut Rng) -> Rec {
    let n = r.below(60);
    let m = if r.one_in(4) { r.logf(0.1, 1000.0) } else { 40.0 };
    let t: Vec<F> = (0..n).map(|_| F::of(r.f(-m, m))).collect();
    let duty = F::of(match r.below(4) {
        0 => r.pick(&[0.0, 0.25, 0.5, 1.0]),
        1 => r.pick(&[-0.1, 1.1]),
        _ => r.unit(),
    });
    rec::<F>("square", vec![("t", vf(&t)), ("duty", vx(duty))], || {
        let a = ndarray::Array1::from_vec(t.clone());
        let y = sci_rs::signal::wave::square(&a, duty);
        vec![("y", V::F(y.iter().map(|x: &F| x.d()).collect()))]
    })
}
/// numbers at and beyond the edges of the type
fn hostile<F: Fl>(r: &mut Rng, n: usize) -> Vec<F> {
    let mut x = sign::<F>(r, n);
    let sc = r.pick(&[1.0, 1.0, F::TINY, F::TINY * F::EPS * 4.0, F::MAXF / 4.0, F::MAXF.sqrt()]);
    for v in x.iter_mut() {
        *v = F::of(v.d().clamp(-4.0, 4.0) * sc);
    }
    for _ in 0..r.below(3) {
        if n > 0 {
            x[r.below(n)] = F::of(r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, F::MAXF, -F::MAXF, F::TINY, -0.0, 0.0]));
        }
    }
    x
}
fn hostile_op<F: Fl + Bessel>(r: &mut Rng) -> Rec {
    let l = r.below(40);
    let x = hostile::<F>(r, l);
    let k = r.below(16);
    let n = nsec(r);
    let mut s = secs::<F>(r, n);
    let lag = r.below(l + 2);
    let z = hostile::<F>(r, 2 * s.len());
    for (i, q) in s.iter_mut().enumerate() {
        q.zi0 = z[2 * i];
        q.zi1 = z[2 * i + 1];
    }
    let name = ["h_filt", "h_filt_st", "h_filtfilt", "h_zi", "h_mean", "h_variance", "h_stdev", "h_median", "h_mad", "h_autocorr", "h_rmssd", "h_lag_diff", "h_zscore", "h_mod_zscore", "h_companion", "h_bessel"][k];
    let args = vec![("x", vf(&x)), ("lag", vi(lag)), ("sos", vsos(&s)), ("z", vf(&z))];
    let p = |(a, n): (F, usize)| vec![("v", vx(a)), ("n", vi(n))];
    let mut q = rec::<F>(name, args, || match k {
        0 => {
            let y: Vec<F> = sosfilt_dyn(x.iter(), &mut s);
            vec![("y", vf(&y)), ("zf", vzi(&s))]
        }
        1 => {
            let y: Vec<F> = sosfilt_st(x.iter(), &mut s).collect();
            vec![("y", vf(&y)), ("zf", vzi(&s))]
        }
        2 => vec![("y", vf(&sosfiltfilt_dyn(x.iter(), &s)))],
        3 => {
            sosfilt_zi_dyn::<F, _, Sos<F>>(s.iter_mut());
            vec![("zi", vzi(&s))]
        }
        4 => p(mean(x.iter())),
        5 => p(variance(x.iter())),
        6 => p(stdev(x.iter())),
        7 => p(median(x.iter())),
        8 => p(median_abs_deviation(x.iter())),
        9 => vec![("v", vx(autocorr::<_, F>(x.iter(), lag)))],
        10 => vec![("v", vx(rmssd::<_, F>(x.iter())))],
        11 => vec![("y", vf(&lag_diff::<_, F>(x.iter()).collect::<Vec<_>>()))],
        12 => vec![("y", vf(&zscore(x.iter()).collect::<Vec<F>>()))],
        13 => vec![("y", vf(&mod_zscore(x.iter()).collect::<Vec<F>>()))],
        14 => vm(&companion_dyn::<F, _, _>(x.iter(), l)),
        _ => vec![("i0", V::F(x.iter().map(|v| v.i0().d()).collect())), ("i0e", V::F(x.iter().map(|v| v.i0e().d()).collect()))],
    });
    q.arith = k != 15 && k != 10;
    q
}
/// any design request at all, however extreme: only acceptance and the shape of the result are comparable between math libraries
fn design_any<F: Fl>(r: &mut Rng) -> Rec {
    let fam = r.pick(&[None, Some(Fam::Butter), Some(Fam::Cheb1), Some(Fam::Cheb2)]);
    let band = r.pick(&[None, Some(Band::Lp), Some(Band::Hp), Some(Band::Bp), Some(Band::Bs)]);
    let order = if r.one_in(6) { r.below(20) } else { r.below(8) };
    let analog = r.pick(&[None, Some(false), Some(false), Some(true)]);
    let fs = if r.bool() { None } else { Some(F::of(r.pick(&[1.0, 2.0, 100.0, 44100.0, 0.0, -1.0, 1e-3])).d()) };
    let nyq = fs.unwrap_or(2.0) / 2.0;
    let nw = if r.one_in(6) { r.below(4) } else if matches!(band, None | Some(Band::Bp) | Some(Band::Bs)) { 2 } else { 1 };
    let mut wn: Vec<f64> = (0..nw).map(|_| F::of(nyq * if r.one_in(4) { r.pick(&[0.0, -0.0, 1.0, 0.5, -0.1, 1.5, 1.0 - 1e-9, 1e-9, f64::NAN, f64::INFINITY]) } else { r.unit() }).d()).collect();
    if !r.one_in(8) {
        wn.sort_by(|a, b| a.total_cmp(b));
    }
    if wn.len() == 2 && r.one_in(12) {
        wn[1] = wn[0];
    }
    let db = |r: &mut Rng| if r.one_in(8) { None } else { Some(F::of(r.pick(&[0.0, -0.0, -1.0, 0.01, 0.5, 1.0, 3.0, 20.0, 60.0, 100.0, f64::NAN])).d()) };
    let (rp, rs) = (db(r), db(r));
    let out = r.pick(&[None, Some(Out::Ba), Some(Out::Zpk), Some(Out::Sos)]);
    let o = |x: Option<f64>| x.map(V::X).unwrap_or(V::N);
    let args = vec![
        ("fam", V::S(format!("{fam:?}"))), ("band", V::S(format!("{band:?}"))), ("order", vi(order)), ("wn", V::F(wn.clone())), ("rp", o(rp)), ("rs", o(rs)),
        ("fs", o(fs)), ("analog", V::S(format!("{analog:?}"))), ("fmt", V::S(format!("{out:?}"))),
    ];
    rec::<F>("design_any", args, || {
        let ft = fam.map(|f| match f {
            Fam::Butter => FilterType::Butterworth,
            Fam::Cheb1 => FilterType::ChebyshevI,
            Fam::Cheb2 => FilterType::ChebyshevII,
        });
        filter_out(&iirfilter_dyn(order, to::<F>(&wn), rp.map(F::of), rs.map(F::of), band.map(|b| b.lib()), ft, analog, out.map(|o| o.lib()), fs.map(F::of)))
    })
}
#[cfg(feature = "std")]
mod stdops {
    use super::*;
    use sci_rs::signal::convolve::*;
    use sci_rs::signal::resample::resample;
    pub fn conv(r: &mut Rng) -> Rec {
        let (n, m) = if r.one_in(8) { (r.urange(1, 300), r.urange(1, 300)) } else { (r.urange(1, 40), r.urange(1, 40)) };
        let (x, y) = (sign::<f64>(r, n), sign::<f64>(r, m));
        let (k, mode) = (r.below(3), r.below(3));
        let args = vec![("x", vf(&x)), ("y", vf(&y)), ("mode", V::S(["full", "same", "valid"][mode].into()))];
        rec::<f64>(["convolve", "fftconvolve", "correlate"][k], args, || {
            let md = || match mode {
                0 => ConvolveMode::Full,
                1 => ConvolveMode::Same,
                _ => ConvolveMode::Valid,
            };
            let o = match k {
                0 => convolve(&x, &y, md()),
                1 => fftconvolve(&x, &y, md()),
                _ => correlate(&x, &y, md()),
            };
            vec![("y", vf(&o))]
        })
    }
    pub fn conv32(r: &mut Rng) -> Rec {
        let (n, m) = (r.urange(1, 40), r.urange(1, 40));
        let (x, y) = (sign::<f32>(r, n), sign::<f32>(r, m));
        let mode = r.below(3);
        rec::<f32>("convolve", vec![("x", vf(&x)), ("y", vf(&y)), ("mode", V::S(["full", "same", "valid"][mode].into()))], || {
            let md = match mode {
                0 => ConvolveMode::Full,
                1 => ConvolveMode::Same,
                _ => ConvolveMode::Valid,
            };
            vec![("y", vf(&convolve(&x, &y, md)))]
        })
    }
    pub fn resamp(r: &mut Rng) -> Rec {
        let (n, m) = (r.urange(2, 60), r.urange(2, 60));
        let x = sign::<f64>(r, n);
        rec::<f64>("resample", vec![("x", vf(&x)), ("n", vi(m))], || vec![("y", vf(&resample(&x, m)))])
    }
    pub fn besselv(r: &mut Rng) -> Rec {
        let n = r.below(12);
        let x: Vec<f64> = (0..n).map(|_| r.f(-30.0, 30.0)).collect();
        rec::<f64>("bessel_vec", vec![("x", vf(&x))], || vec![("i0", vf(&x.i0())), ("i0e", vf(&x.i0e()))])
    }
}
#[allow(unused_mut)]
pub fn registry(shared_only: bool, wide: bool) -> Vec<OpFn> {
    let mut v: Vec<OpFn> = vec![
        filt_dyn::<f64>, filt_dyn::<f32>, filt_st::<f64>, filt_st::<f32>, filt_item::<f64>, filt_item::<f32>, fast32, ifast32,
        zi::<f64>, zi::<f32>, lzi::<f64>, lzi::<f32>, filtfilt::<f64>, filtfilt::<f32>, pad_op::<f64>, pad_op::<f32>,
        design::<f64>, design::<f64>, design::<f64>, design::<f32>, cheb1ap::<f64>, cheb1ap::<f32>, cheb2ap::<f64>, cheb2ap::<f32>,
        transform::<f64>, transform::<f32>, conv_zpk::<f64>, conv_zpk::<f32>, poly::<f64>, from_scipy::<f64>,
        savgol_c::<f64>, savgol_c::<f32>, savgol_f::<f64>, savgol_f::<f32>,
        stats1::<f64>, stats1::<f32>, zsc::<f64>, zsc::<f32>, fast_stats, int_stats,
        int_u8, int_i32, int_u64, int_i64, int_u128, bessel::<f64>, bessel::<f32>, companion::<f64>, companion::<f32>, square_op::<f64>, square_op::<f32>,
    ];
    #[cfg(feature = "std")]
    if !shared_only {
        v.extend([stdops::conv as OpFn, stdops::conv32, stdops::resamp, stdops::besselv]);
    }
    let _ = shared_only;
    if wide {
        v.extend([hostile_op::<f64> as OpFn, hostile_op::<f32>, hostile_op::<f64>, hostile_op::<f32>, design_any::<f64>, design_any::<f32>]);
    }
    v
}
