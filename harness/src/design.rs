//! Filter design requests, closed-form references and response evaluation.
use crate::*;
use sci_rs::na::Complex;
use sci_rs::signal::filter::design::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fam {
    Butter,
    Cheb1,
    Cheb2,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Band {
    Lp,
    Hp,
    Bp,
    Bs,
}
impl Band {
    pub fn two(self) -> bool {
        matches!(self, Band::Bp | Band::Bs)
    }
    pub fn lib(self) -> FilterBandType {
        match self {
            Band::Lp => FilterBandType::Lowpass,
            Band::Hp => FilterBandType::Highpass,
            Band::Bp => FilterBandType::Bandpass,
            Band::Bs => FilterBandType::Bandstop,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Out {
    Ba,
    Zpk,
    Sos,
}
impl Out {
    pub fn lib(self) -> FilterOutputType {
        match self {
            Out::Ba => FilterOutputType::Ba,
            Out::Zpk => FilterOutputType::Zpk,
            Out::Sos => FilterOutputType::Sos,
        }
    }
}
#[derive(Clone, Debug)]
pub struct Req {
    pub fam: Fam,
    pub band: Band,
    pub order: usize,
    /// as passed (units of fs, or normalised, or rad/s)
    pub wn: Vec<f64>,
    /// ripple or attenuation, dB
    pub r: f64,
    pub fs: Option<f64>,
    pub analog: bool,
    pub out: Out,
    /// omit arguments whose default is the requested value; go through iirfilter_dyn
    pub omit: bool,
    pub generic: bool,
}
impl Req {
    /// run the request on the real code
    pub fn run<F: Fl>(&self) -> DigitalFilter<F> {
        let wn = to::<F>(&self.wn);
        let r = F::of(self.r);
        let fs = self.fs.map(F::of);
        let out = if self.omit && self.out == Out::Ba { None } else { Some(self.out.lib()) };
        let analog = if self.omit && !self.analog { None } else { Some(self.analog) };
        if self.generic {
            let bt = if self.omit && self.band == Band::Bp { None } else { Some(self.band.lib()) };
            let ft = match self.fam {
                Fam::Butter if self.omit => None,
                Fam::Butter => Some(FilterType::Butterworth),
                Fam::Cheb1 => Some(FilterType::ChebyshevI),
                Fam::Cheb2 => Some(FilterType::ChebyshevII),
            };
            let (rp, rs) = match self.fam {
                Fam::Butter => (None, None),
                Fam::Cheb1 => (Some(r), None),
                Fam::Cheb2 => (None, Some(r)),
            };
            return iirfilter_dyn(self.order, wn, rp, rs, bt, ft, analog, out, fs);
        }
        let bt = if self.omit && self.band == Band::Lp { None } else { Some(self.band.lib()) };
        match self.fam {
            Fam::Butter => butter_dyn(self.order, wn, bt, analog, out, fs),
            Fam::Cheb1 => cheby1_dyn(self.order, r, wn, bt, analog, out, fs),
            Fam::Cheb2 => cheby2_dyn(self.order, r, wn, bt, analog, out, fs),
        }
    }
    pub fn npoles(&self) -> usize {
        self.order * if self.band.two() { 2 } else { 1 }
    }
    /// warped band edges t = tan(w/2) (digital) or the edges themselves (analog)
    pub fn edges(&self) -> Vec<f64> {
        self.wn
            .iter()
            .map(|w| {
                if self.analog {
                    *w
                } else {
                    let x = match self.fs {
                        Some(fs) => 2.0 * w / fs,
                        None => *w,
                    };
                    (std::f64::consts::FRAC_PI_2 * x).tan()
                }
            })
            .collect()
    }
    /// prototype frequency for warped frequency t >= 0
    pub fn omega(&self, t: f64) -> f64 {
        let e = self.edges();
        match self.band {
            Band::Lp => t / e[0],
            Band::Hp => e[0] / t,
            Band::Bp => ((t - e[0] * e[1] / t) / (e[1] - e[0])).abs(),
            Band::Bs => 1.0 / ((t - e[0] * e[1] / t) / (e[1] - e[0])).abs(),
        }
    }
    /// closed-form magnitude at warped frequency t
    pub fn mag(&self, t: f64) -> f64 {
        proto_mag(self.fam, self.order, self.r, self.omega(t))
    }
}
pub fn cheb_t(n: usize, x: f64) -> f64 {
    let x = x.abs();
    if x < 0.7 {
        // accurate near x = 0
        let u = n as f64 * x.asin();
        let s = if (n / 2) % 2 == 1 { -1.0 } else { 1.0 };
        s * if n % 2 == 1 { u.sin() } else { u.cos() }
    } else if x <= 1.0 {
        (n as f64 * x.acos()).cos()
    } else {
        (n as f64 * x.acosh()).cosh()
    }
}
pub fn proto_mag(f: Fam, n: usize, r: f64, om: f64) -> f64 {
    match f {
        Fam::Butter => {
            let q = om.powi(n as i32);
            1.0 / 1f64.hypot(q)
        }
        Fam::Cheb1 => {
            let e = ((r / 10.0 * std::f64::consts::LN_10).exp_m1()).sqrt();
            1.0 / 1f64.hypot(e * cheb_t(n, om))
        }
        Fam::Cheb2 => {
            let ei = ((r / 10.0 * std::f64::consts::LN_10).exp_m1()).sqrt(); // 1/eps
            if om == 0.0 {
                return 1.0;
            }
            let t = cheb_t(n, 1.0 / om);
            1.0 / 1f64.hypot(ei / t)
        }
    }
}
/// point on the unit circle with tan(w/2) = t, in double-double
pub fn circle(t: f64) -> CD {
    cd(1.0, t) / cd(1.0, -t)
}
pub struct Eval {
    pub h: CD,
    /// sum over roots of 1/distance, and coefficient condition numbers (to be multiplied by eps)
    pub cond: f64,
}
fn polyval(c: &[f64], z: CD) -> (CD, f64) {
    // descending powers
    let mut v = CD::ZERO;
    let mut m = 0.0;
    let a = z.norm();
    for x in c {
        v = v * z + cd(*x, 0.0);
        m = m * a + x.abs();
    }
    (v, m)
}
pub fn eval_zpk<F: Fl>(f: &ZpkFormatFilter<F>, s: CD) -> Eval {
    let mut h = cd(f.k.d(), 0.0);
    let mut cond = 0.0;
    for z in &f.z {
        let d = s - cf(*z);
        h = h * d;
        cond += cf(*z).norm().max(s.norm()) / d.norm();
    }
    for p in &f.p {
        let d = s - cf(*p);
        h = h / d;
        cond += cf(*p).norm().max(s.norm()) / d.norm();
    }
    Eval { h, cond }
}
pub fn eval_ba(b: &[f64], a: &[f64], s: CD) -> Eval {
    let (nb, mb) = polyval(b, s);
    let (na, ma) = polyval(a, s);
    Eval { h: nb / na, cond: mb / nb.norm() + ma / na.norm() }
}
/// sections as polynomials in descending powers of the variable
pub fn eval_sos<F: Fl>(v: &[Sos<F>], s: CD) -> Eval {
    let mut h = CD::ONE;
    let mut cond = 0.0;
    for q in v {
        let e = eval_ba(&q.b.map(|x| x.d()), &q.a.map(|x| x.d()), s);
        h = h * e.h;
        cond += e.cond;
    }
    Eval { h, cond }
}
pub fn zd<F: Fl>(v: &[Complex<F>]) -> Vec<CD> {
    v.iter().map(|z| cf(*z)).collect()
}
/// largest distance (relative to scale max(1,|z|)) of the conjugated multiset from itself, greedy
pub fn conj_gap(v: &[CD]) -> f64 {
    let mut rest: Vec<CD> = v.to_vec();
    let mut worst: f64 = 0.0;
    for z in v {
        let w = z.conj();
        let Some((i, d)) = rest
            .iter()
            .enumerate()
            .map(|(i, q)| (i, (*q - w).norm()))
            .min_by(|a, b| a.1.partial_cmp(&b.1).unwrap_or(std::cmp::Ordering::Equal))
        else {
            return f64::INFINITY;
        };
        worst = worst.max(d / z.norm().max(1e-300));
        rest.swap_remove(i);
    }
    worst
}
/// distance between two multisets (greedy nearest), absolute
pub fn set_gap(a: &[CD], b: &[CD]) -> f64 {
    if a.len() != b.len() {
        return f64::INFINITY;
    }
    let mut rest: Vec<CD> = b.to_vec();
    let mut worst: f64 = 0.0;
    for z in a {
        let (i, d) = rest
            .iter()
            .enumerate()
            .map(|(i, q)| (i, (*q - *z).norm()))
            .min_by(|x, y| x.1.partial_cmp(&y.1).unwrap_or(std::cmp::Ordering::Equal))
            .unwrap();
        worst = if d.is_nan() { f64::INFINITY } else { worst.max(d) };
        rest.swap_remove(i);
    }
    worst
}
pub fn gen_edge<F: Fl>(r: &mut Rng, lo: f64) -> f64 {
    // in (lo, 1-lo), denser near both ends
    match r.below(5) {
        0 => r.logf(lo, 0.5),
        1 => 1.0 - r.logf(lo, 0.5),
        2 => r.pick(&[0.1, 0.125, 0.2, 0.25, 0.3, 0.4, 0.5, 0.6, 0.75, 0.8, 0.9]),
        _ => r.f(lo, 1.0 - lo),
    }
}
/// digital request inside the claimed range
pub fn gen_req<F: Fl>(r: &mut Rng, maxorder: usize) -> Req {
    let fam = r.pick(&[Fam::Butter, Fam::Cheb1, Fam::Cheb2]);
    let band = if fam == Fam::Cheb2 { r.pick(&[Band::Lp, Band::Bp]) } else { r.pick(&[Band::Lp, Band::Hp, Band::Bp, Band::Bs]) };
    let order = r.urange(1, maxorder);
    let f32_ = F::NAME == "f32";
    let min = if f32_ { 2e-2 } else { 1e-3 } * 1.001;
    let mut wn = vec![gen_edge::<F>(r, min)];
    if band.two() {
        loop {
            let mut w2 = gen_edge::<F>(r, min);
            if r.one_in(3) {
                w2 = wn[0] + r.logf(min, 0.3);
            }
            let (a, b) = (wn[0].min(w2), wn[0].max(w2));
            // relative bandwidth in the digital and the warped domain
            if b < 1.0 - min && b - a >= min * b {
                wn = vec![a, b];
                break;
            }
            wn[0] = gen_edge::<F>(r, min);
        }
    }
    let hi = if f32_ && fam == Fam::Cheb1 { 20.0 } else { 80.0 };
    let rr = match r.below(3) {
        0 => r.pick(&[0.05, 0.1, 0.5, 1.0, 2.0, 3.0, 5.0, 10.0, 20.0]),
        1 => r.pick(&[0.05, hi, 1.0, 12.3]),
        _ => r.logf(0.05, hi),
    };
    let fs = match r.below(4) {
        0 => Some(r.pick(&[1.0, 2.0, 100.0, 1666.0, 44100.0, 48000.0])),
        1 => Some(r.logf(1e-3, 1e6)),
        _ => None,
    };
    if let Some(f) = fs {
        for w in wn.iter_mut() {
            *w *= f / 2.0;
        }
    }
    Req {
        fam,
        band,
        order,
        wn: wn.iter().map(|w| F::of(*w).d()).collect(),
        r: F::of(rr).d(),
        fs: fs.map(|f| F::of(f).d()),
        analog: false,
        out: r.pick(&[Out::Zpk, Out::Sos, Out::Ba]),
        omit: r.one_in(3),
        generic: r.bool(),
    }
}
/// warped frequencies at which to observe a response
pub fn gen_points(r: &mut Rng, q: &Req, n: usize) -> Vec<f64> {
    let e = q.edges();
    let mut v = e.clone();
    if e.len() == 2 {
        v.push((e[0] * e[1]).sqrt());
        for _ in 0..n / 3 {
            v.push(r.f(e[0], e[1]));
        }
    }
    while v.len() < n {
        let c = r.pick(&e);
        v.push(match r.below(4) {
            0 => c * (1.0 + 0.1 * r.f(-1.0, 1.0)),
            1 => c * r.logf(1e-3, 1e3),
            2 if !q.analog => (r.f(0.001, 1.57)).tan(),
            _ => c * r.logf(0.1, 10.0),
        });
    }
    v
}

/// bound (in units of eps) on the error of a designed root: band transforms lose the smaller of two partner roots
pub fn root_err(q: &Req, z: CD) -> f64 {
    let e = q.edges();
    if q.analog {
        let m = z.norm();
        let w2 = if q.band.two() { e[0] * e[1] } else { 0.0 };
        return if m == 0.0 { 0.0 } else { m.max(w2 / m) };
    }
    let (zm, zp) = ((z - CD::ONE).norm(), (z + CD::ONE).norm());
    if zm == 0.0 || zp == 0.0 {
        return 0.0;
    }
    let mut d: f64 = 1.0 + zm * zp / 2.0;
    if q.band.two() {
        d = d.max(e[0] * e[1] * zp * zp * zp / (2.0 * zm));
    }
    d
}
/// relative response error at s implied by the root errors, in units of eps
pub fn design_cond<F: Fl>(q: &Req, f: &ZpkFormatFilter<F>, s: CD) -> f64 {
    zd(&f.z).iter().chain(zd(&f.p).iter()).map(|r| root_err(q, *r) / (s - *r).norm().max(1e-300)).filter(|x| !x.is_nan()).sum()
}

/// relative change of the closed-form magnitude when edges, ripple and frequency move by a few roundings
pub fn ref_sens<F: Fl>(q: &Req, t: f64, want: f64) -> f64 {
    let d = 8.0 * F::EPS;
    let mut e: f64 = 0.0;
    for s in [1.0, -1.0] {
        e = e.max((q.mag(t * (1.0 + s * d)) - want).abs());
        let mut sum = 0.0;
        for i in 0..q.wn.len() {
            let mut q2 = q.clone();
            q2.wn[i] *= 1.0 + s * d;
            sum += (q2.mag(t) - want).abs();
        }
        e = e.max(sum);
        if q.fam != Fam::Butter {
            let mut q2 = q.clone();
            let dr = 10.0 / std::f64::consts::LN_10 * d * (1.0 + q.r * 0.24);
            q2.r = (q.r + s * dr).max(q.r * 0.5);
            e = e.max((q2.mag(t) - want).abs());
        }
    }
    2.0 * e / want
}
