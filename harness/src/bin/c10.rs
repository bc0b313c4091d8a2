//! C10: invalid design requests are rejected, valid ones return a filter of the requested kind.
use harness::*;
use sci_rs::signal::filter::design::*;

#[derive(Clone, Debug)]
struct Args {
    order: usize,
    wn: Vec<f64>,
    rp: Option<f64>,
    rs: Option<f64>,
    band: Option<Band>,
    fam: Option<Fam>,
    analog: Option<bool>,
    out: Option<Out>,
    fs: Option<f64>,
    /// 0 iirfilter, 1 family function
    entry: usize,
}
impl Args {
    fn run<F: Fl>(&self) -> DigitalFilter<F> {
        let wn = to::<F>(&self.wn);
        let bt = self.band.map(|b| b.lib());
        let out = self.out.map(|o| o.lib());
        let fs = self.fs.map(F::of);
        if self.entry == 0 {
            let ft = self.fam.map(|f| match f {
                Fam::Butter => FilterType::Butterworth,
                Fam::Cheb1 => FilterType::ChebyshevI,
                Fam::Cheb2 => FilterType::ChebyshevII,
            });
            iirfilter_dyn(self.order, wn, self.rp.map(F::of), self.rs.map(F::of), bt, ft, self.analog, out, fs)
        } else {
            match self.fam.unwrap() {
                Fam::Butter => butter_dyn(self.order, wn, bt, self.analog, out, fs),
                Fam::Cheb1 => cheby1_dyn(self.order, F::of(self.rp.unwrap()), wn, bt, self.analog, out, fs),
                Fam::Cheb2 => cheby2_dyn(self.order, F::of(self.rs.unwrap()), wn, bt, self.analog, out, fs),
            }
        }
    }
}
/// a valid request; every optional argument is present or absent at random
fn valid<F: Fl>(r: &mut Rng) -> Args {
    let f32_ = F::NAME == "f32";
    let mut q = gen_req::<F>(r, 16);
    let analog = r.one_in(3);
    if analog {
        q.fs = None;
        let e = |r: &mut Rng| F::of(if r.one_in(3) { r.pick(&[1.0, 2.0, 0.5, 3.0]) } else { r.logf(0.3, 12.0) }).d();
        if q.band.two() {
            let a = e(r);
            let b = F::of(a * (1.0 + r.logf(0.05, 2.0))).d();
            q.wn = vec![a, b];
        } else {
            q.wn = vec![e(r)];
        }
        if f32_ {
            q.order = q.order.min(6);
        }
    }
    if r.one_in(4) && !f32_ {
        q.r = r.pick(&[0.01, 0.02, 60.0, 100.0, 99.5]);
    }
    if q.fam == Fam::Cheb1 && f32_ {
        q.r = q.r.min(10.0);
    }
    // Chebyshev II high-pass and band-stop are in scope here: only the panic/format contract is checked
    if q.fam == Fam::Cheb2 && r.one_in(3) {
        q.band = if q.band == Band::Lp { Band::Hp } else { Band::Bs };
    }
    let extra = |r: &mut Rng| if r.one_in(3) { Some(r.pick(&[0.0, 1.0, 40.0])) } else { None };
    let entry = r.below(2);
    let (mut rp, mut rs) = (extra(r), extra(r));
    match q.fam {
        Fam::Cheb1 => rp = Some(q.r),
        Fam::Cheb2 => rs = Some(q.r),
        Fam::Butter => {}
    }
    let default_band = if entry == 0 { Band::Bp } else { Band::Lp };
    Args {
        order: q.order,
        wn: q.wn,
        rp,
        rs,
        band: if q.band == default_band && r.bool() { None } else { Some(q.band) },
        fam: if entry == 0 && q.fam == Fam::Butter && r.bool() { None } else { Some(q.fam) },
        analog: if analog { Some(true) } else { r.pick(&[None, Some(false)]) },
        out: if q.out == Out::Ba && r.bool() { None } else { Some(q.out) },
        fs: q.fs,
        entry,
    }
}
/// valid, but far outside the range in which the response is specified: only acceptance and format are checked
fn extreme<F: Fl>(r: &mut Rng) -> Args {
    let mut a = valid::<F>(r);
    let analog = a.analog == Some(true);
    let nyq = a.fs.map(|f| f / 2.0).unwrap_or(1.0);
    let tiny = if F::NAME == "f32" { 1e-6 } else { 1e-14 };
    let edge = |r: &mut Rng| match r.below(4) {
        _ if analog => r.logf(1.0 / 1e6, 1e6),
        0 => r.logf(tiny, 1.0) * nyq,
        1 => (1.0 - r.logf(tiny, 0.5)) * nyq,
        _ => r.f(0.0, 1.0) * nyq,
    };
    let w0 = edge(r);
    a.wn = if a.wn.len() == 2 {
        let w1 = if r.bool() { edge(r) } else { w0 * (1.0 + r.logf(4.0 * F::EPS, 0.5)) };
        vec![F::of(w0.min(w1)).d(), F::of(w0.max(w1)).d()]
    } else {
        vec![F::of(w0).d()]
    };
    if r.bool() {
        let v = F::of(r.logf(1e-6, if F::NAME == "f32" { 20.0 } else { 100.0 })).d();
        match a.fam {
            Some(Fam::Cheb1) => a.rp = Some(v),
            Some(Fam::Cheb2) => a.rs = Some(v),
            _ => {}
        }
    }
    a
}
fn accept_extreme<F: Fl>(c: &mut Case) {
    let a = extreme::<F>(&mut c.rng);
    let scaled: Vec<f64> = a.wn.iter().map(|w| a.fs.map(|f| F::of(F::of(2.0).d() * w).d() / f).unwrap_or(*w)).collect();
    let analog = a.analog == Some(true);
    if scaled.iter().any(|w| !(*w > 0.0) || !analog && *w > 1.0 - 4.0 * F::EPS) || scaled.len() == 2 && !(scaled[1] > scaled[0] * (1.0 + 2.0 * F::EPS)) {
        return;
    }
    let ctx = || format!("{} {a:?}", F::NAME);
    c.key(H::default().s(&ctx()).0);
    c.cls(format!("extreme {} {:?} {:?} {:?} analog={analog}", F::NAME, a.fam, a.band, a.out));
    c.sample(ctx);
    let Some(f) = c.must("valid-extreme", ctx, || a.run::<F>()) else { return };
    c.ev(1);
    let kind = match &f {
        DigitalFilter::Zpk(_) => Out::Zpk,
        DigitalFilter::Ba(_) => Out::Ba,
        DigitalFilter::Sos(_) => Out::Sos,
    };
    if kind != a.out.unwrap_or(Out::Ba) {
        c.fail("wrong-format", format!("returned {kind:?}; {}", ctx()));
    }
}
fn accept<F: Fl>(c: &mut Case) {
    let a = valid::<F>(&mut c.rng);
    let ctx = || format!("{} {a:?}", F::NAME);
    c.key(H::default().s(&ctx()).0);
    c.cls(format!("valid {} {:?} {:?} {:?} analog={:?} entry={}", F::NAME, a.fam, a.band, a.out, a.analog, a.entry));
    c.sample(ctx);
    let Some(f) = c.must("valid-request", ctx, || a.run::<F>()) else { return };
    c.ev(1);
    let cheb2_hp = a.fam == Some(Fam::Cheb2) && matches!(a.band, Some(Band::Hp) | Some(Band::Bs));
    let (kind, v): (Out, Vec<f64>) = match &f {
        DigitalFilter::Zpk(f) => {
            let mut v = vec![f.k.d()];
            for z in f.z.iter().chain(&f.p) {
                v.push(z.re.d());
                v.push(z.im.d());
            }
            (Out::Zpk, v)
        }
        DigitalFilter::Ba(f) => (Out::Ba, f.b.iter().chain(&f.a).map(|x| x.d()).collect()),
        DigitalFilter::Sos(f) => (Out::Sos, f.sos.iter().flat_map(|s| s.b.iter().chain(&s.a).map(|x| x.d()).collect::<Vec<_>>()).collect()),
    };
    if kind != a.out.unwrap_or(Out::Ba) {
        c.fail("wrong-format", format!("returned {kind:?}; {}", ctx()));
        return;
    }
    c.ev(v.len());
    if !cheb2_hp && (v.is_empty() || v.iter().any(|x| !x.is_finite())) {
        c.fail("non-finite", format!("{}; {}", short(&v), ctx()));
    }
}
/// one defect is injected into an otherwise valid request
fn reject<F: Fl>(c: &mut Case) {
    let mut a = valid::<F>(&mut c.rng);
    let analog = a.analog == Some(true);
    let nyq = |a: &Args| a.fs.map(|f| f / 2.0).unwrap_or(1.0);
    let two = a.wn.len() == 2;
    let kind = c.rng.below(12);
    let what = match kind {
        0 => {
            // three or more frequencies
            let top = *a.wn.last().unwrap();
            let lim = if analog { top * 3.0 } else { nyq(&a) };
            for i in 0..c.rng.urange(if two { 1 } else { 2 }, 4) {
                let x = top + (lim - top) * (0.2 + 0.15 * i as f64);
                a.wn.push(F::of(x).d());
            }
            "many"
        }
        1 => {
            a.wn = vec![];
            "none"
        }
        2 => {
            let i = c.rng.below(a.wn.len());
            a.wn[i] = c.rng.pick(&[0.0, -0.0]);
            "zero-frequency"
        }
        3 => {
            let i = c.rng.below(a.wn.len());
            a.wn[i] = -c.rng.pick(&[1e-6, a.wn[i], 0.5, 1e3, 1e-30]);
            "negative-frequency"
        }
        4 => {
            // keep a fixed: Nyquist exactly (or infinity for both kinds)
            if analog {
                return;
            }
            let i = a.wn.len() - 1;
            a.wn[i] = F::of(nyq(&a)).d();
            "nyquist"
        }
        5 => {
            if analog {
                return;
            }
            let i = a.wn.len() - 1;
            a.wn[i] = F::of(nyq(&a) * c.rng.pick(&[1.0 + 4.0 * F::EPS, 1.001, 2.0, 10.0])).d();
            if a.wn[i] <= nyq(&a) {
                return;
            }
            "above-nyquist"
        }
        6 => {
            if !two {
                return;
            }
            a.wn.swap(0, 1);
            "swapped"
        }
        7 => {
            if !two {
                return;
            }
            a.wn[1] = a.wn[0];
            "equal-edges"
        }
        8 => {
            // frequency count does not fit the band
            if two {
                a.wn.truncate(1);
            } else {
                let lim = if analog { a.wn[0] * 3.0 } else { nyq(&a) };
                let w = F::of(a.wn[0] + (lim - a.wn[0]) * 0.5).d();
                if !(w > a.wn[0]) || !analog && w >= nyq(&a) {
                    return;
                }
                a.wn.push(w);
            }
            "count-vs-band"
        }
        9 => {
            // negative ripple or attenuation, also one the family does not use
            let v = -c.rng.pick(&[1e-6, 0.5, 3.0, 100.0, 1e-30]);
            if a.entry == 0 {
                if c.rng.bool() {
                    a.rp = Some(v);
                    "negative-rp"
                } else {
                    a.rs = Some(v);
                    "negative-rs"
                }
            } else {
                match a.fam.unwrap() {
                    Fam::Cheb1 => {
                        a.rp = Some(v);
                        "negative-rp"
                    }
                    Fam::Cheb2 => {
                        a.rs = Some(v);
                        "negative-rs"
                    }
                    Fam::Butter => return,
                }
            }
        }
        10 => {
            if a.entry == 1 {
                return;
            }
            match a.fam {
                Some(Fam::Cheb1) => {
                    a.rp = None;
                    "missing-rp"
                }
                Some(Fam::Cheb2) => {
                    a.rs = None;
                    "missing-rs"
                }
                _ => return,
            }
        }
        _ => {
            if !analog {
                return;
            }
            a.fs = Some(F::of(a.wn.last().unwrap() * c.rng.pick(&[0.5, 1.0, 2.0, 4.0, 100.0])).d());
            "fs-on-analog"
        }
    };
    let ctx = || format!("{} {what}: {a:?}", F::NAME);
    c.key(H::default().s(&ctx()).0);
    c.cls(format!("invalid {what} {:?} analog={analog} entry={}", a.fam, a.entry));
    c.sample(ctx);
    c.must_panic(what, ctx, || a.run::<F>());
}
fn main() {
    let r = Runner::new("C10");
    r.stream("valid-f64", 40000, 1_000_000, accept::<f64>);
    r.stream("valid-f32", 25000, 400_000, accept::<f32>);
    r.stream("extreme-f64", 40000, 1_000_000, accept_extreme::<f64>);
    r.stream("extreme-f32", 25000, 400_000, accept_extreme::<f32>);
    r.stream("invalid-f64", 60000, 1_000_000, reject::<f64>);
    r.stream("invalid-f32", 40000, 500_000, reject::<f32>);
    r.finish()
}
