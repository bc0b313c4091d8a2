//! C22: hostile but safe calls. The verdict comes from the build: AddressSanitizer, Miri, overflow checks, debug
//! assertions and std's unsafe-precondition checks; this program only has to survive and stay usable.
use harness::*;
use sci_rs::linalg::companion_dyn;
use sci_rs::na::{Complex, DMatrix, DVector, SMatrix};
use sci_rs::signal::filter::design::*;
use sci_rs::signal::filter::*;
use sci_rs::special::*;
use sci_rs::stats::*;
use std::borrow::Borrow;
use std::cell::Cell;
use std::hint::black_box;

/// values that break assumptions
fn wild<F: Fl>(r: &mut Rng) -> F {
    F::of(match r.below(16) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => 0.0,
        4 => -0.0,
        5 => 1.0,
        6 => -1.0,
        7 => F::MAXF,
        8 => -F::MAXF,
        9 => F::TINY,
        10 => 5e-324,
        11 => 1e30,
        12 => r.normal(),
        13 => r.range(-5, 5) as f64,
        14 => r.logf(1e-20, 1e20),
        _ => r.unit(),
    })
}
/// mostly ordinary values, sometimes wild ones
fn mixed<F: Fl>(r: &mut Rng, n: usize) -> Vec<F> {
    let w = r.pick(&[0usize, 0, 2, 8, 30]);
    (0..n).map(|_| if w > 0 && r.one_in(w) { wild(r) } else { F::of(r.normal()) }).collect()
}
fn len(r: &mut Rng) -> usize {
    let m = if cfg!(miri) { 12 } else { 200 };
    match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.below(4),
        3 => r.below(9),
        4 => r.below(20.min(m)),
        _ => r.below(m),
    }
}
fn sizes(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => usize::MAX - r.below(3),
        1 => (1 << 32) + r.below(3),
        2 => usize::MAX / r.urange(2, 7) + r.below(3),
        3 => 1 << 63,
        _ => r.below(24),
    }
}
/// a counted item: every one created must be dropped exactly once
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
struct Item<F: Fl> {
    v: Box<F>,
    bomb: bool,
}
impl<F: Fl> Item<F> {
    fn new(v: F, bomb: bool) -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Item { v: Box::new(v), bomb }
    }
}
impl<F: Fl> Clone for Item<F> {
    fn clone(&self) -> Self {
        Item::new(*self.v, self.bomb)
    }
}
impl<F: Fl> Drop for Item<F> {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl<F: Fl> Borrow<F> for Item<F> {
    fn borrow(&self) -> &F {
        if self.bomb {
            panic!("borrow bomb")
        }
        &self.v
    }
}
/// an iterator that lies about its length, panics on request and does not fuse
#[derive(Clone)]
struct Liar<F: Fl> {
    data: Vec<F>,
    pos: usize,
    lie: (usize, Option<usize>),
    bomb_at: usize,
    borrow_bomb_at: usize,
    resurrect: bool,
}
impl<F: Fl> Liar<F> {
    fn new(r: &mut Rng) -> Self {
        let n = len(r);
        let data = mixed(r, n);
        let lie = match r.below(7) {
            0 => (n, Some(n)),
            1 => (0, Some(0)),
            2 => (n + r.below(50), Some(n + r.below(50))),
            3 => (0, Some(n / 2)),
            4 => (n / 2, Some(usize::MAX)),
            5 => (n + 1, None),
            _ => (0, None),
        };
        let bomb_at = if r.one_in(3) { r.below(n + 2) } else { usize::MAX };
        let borrow_bomb_at = if r.one_in(4) { r.below(n + 2) } else { usize::MAX };
        Liar { data, pos: 0, lie, bomb_at, borrow_bomb_at, resurrect: r.one_in(4) }
    }
}
impl<F: Fl> Iterator for Liar<F> {
    type Item = Item<F>;
    fn next(&mut self) -> Option<Item<F>> {
        let i = self.pos;
        self.pos += 1;
        if i == self.bomb_at {
            panic!("iterator bomb");
        }
        if i < self.data.len() {
            Some(Item::new(self.data[i], i == self.borrow_bomb_at))
        } else if self.resurrect && i > self.data.len() && i < self.data.len() + 20 {
            Some(Item::new(F::of(1.0), false))
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.lie
    }
}
fn stable<F: Fl>(c: &mut Case) {
    // the library still works after whatever happened
    let y = [1.0, 2.0, 4.0, 8.0].map(F::of);
    let mut s = [Sos::new([F::of(1.0), F::of(1.0), F::of(0.0)], [F::of(1.0), F::of(0.0), F::of(0.0)])];
    let f = sosfilt_dyn(y.iter(), &mut s);
    let ok = mean(y.iter()) == (F::of(3.75), 4) && median(y.iter()) == (F::of(3.0), 4) && f == [1.0, 3.0, 6.0, 12.0].map(F::of);
    c.ev(1);
    if !ok {
        c.fail("unusable", format!("after hostile calls simple results are wrong: {:?} {:?} {f:?}", mean::<_, F>(y.iter()), median::<_, F>(y.iter())));
    }
}
fn sections<F: Fl>(r: &mut Rng) -> Vec<Sos<F>> {
    let n = r.below(if cfg!(miri) { 4 } else { 14 });
    (0..n)
        .map(|_| {
            let v = mixed::<F>(r, 8);
            let mut s = Sos::new([v[0], v[1], v[2]], [v[3], v[4], v[5]]);
            s.zi0 = v[6];
            s.zi1 = v[7];
            s
        })
        .collect()
}
/// every value is looked at (branched on), so that MemorySanitizer and Miri see uninitialised results
static TOUCH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
struct Sink;
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        black_box(s.len());
        Ok(())
    }
}
fn touch<T: std::fmt::Debug>(v: &T) {
    if TOUCH.load(std::sync::atomic::Ordering::Relaxed) {
        let _ = std::fmt::write(&mut Sink, format_args!("{v:?}"));
    }
}
/// run a hostile call; both outcomes are fine, only counted
fn go<T: std::fmt::Debug>(c: &mut Case, name: &str, f: impl FnOnce() -> T) {
    let live = LIVE.with(|l| l.get());
    let r = call(f);
    c.ev(1);
    c.cls(format!("{name} {}", if r.is_ok() { "returned" } else { "panicked" }));
    if let Ok(v) = black_box(r) {
        touch(&v);
    }
    let now = LIVE.with(|l| l.get());
    if now != live {
        c.fail(format!("drops:{name}"), format!("{} items more live after the call than before", now - live));
        LIVE.with(|l| l.set(live));
    }
}
fn iters<F: Fl>(c: &mut Case) {
    let mut s = sections::<F>(&mut c.rng);
    let i = Liar::<F>::new(&mut c.rng);
    let k = c.rng.below(20);
    c.key(H::default().u(i.data.len() as u64).u(i.bomb_at as u64).fs(&i.data.iter().map(|v| v.d()).collect::<Vec<_>>()).0);
    c.sample(|| format!("{} {} items, hint {:?}, iterator panics at {}, item panics at {}", F::NAME, i.data.len(), i.lie, i.bomb_at, i.borrow_bomb_at));
    let plain: Vec<F> = i.data.clone();
    go(c, "sosfilt_dyn", || sosfilt_dyn(i.clone(), &mut s));
    go(c, "sosfilt_st", || sosfilt_st(i.clone(), &mut s).take(k).collect::<Vec<_>>());
    go(c, "sosfiltfilt_dyn", || sosfiltfilt_dyn(i.clone(), &s));
    let (w, p) = (2 * c.rng.below(8) + 1, c.rng.below(5));
    let del = wild::<F>(&mut c.rng);
    let der = c.rng.below(6);
    go(c, "savgol_filter_dyn", || savgol_filter_dyn::<_, F>(i.clone(), w, p, Some(der), if k % 2 == 0 { Some(del) } else { None }));
    go(c, "mean", || mean::<_, F>(i.clone()));
    go(c, "variance", || variance::<_, F>(i.clone()));
    go(c, "stdev", || stdev::<_, F>(i.clone()));
    go(c, "median", || median::<_, F>(i.clone()));
    go(c, "median_abs_deviation", || median_abs_deviation::<_, F>(i.clone()));
    go(c, "autocorr", || autocorr::<_, F>(i.clone(), k));
    go(c, "autocorr", || autocorr::<_, F>(plain.iter(), usize::MAX - k));
    go(c, "lag_diff", || lag_diff::<_, F>(i.clone()).take(300).count());
    go(c, "rmssd", || rmssd::<_, F>(plain.iter()));
    go(c, "zscore", || zscore::<_, F>(i.clone()).take(k).collect::<Vec<_>>());
    go(c, "mod_zscore", || mod_zscore::<_, F>(i.clone()).take(300).collect::<Vec<_>>());
    let m = sizes(&mut c.rng);
    let m = if m < 40 || (m - 1).checked_mul(m - 1).is_none() { m } else { 5 };
    go(c, "companion_dyn", || companion_dyn::<F, _, _>(i.clone(), m));
    go(c, "sosfilt_zi_dyn", || sosfilt_zi_dyn::<F, _, Sos<F>>(s.iter_mut()));
    touch(&s);
    stable::<F>(c);
}
fn slices(c: &mut Case) {
    let mut s = sections::<f32>(&mut c.rng);
    let n = len(&mut c.rng);
    let m = if c.rng.bool() { n } else { len(&mut c.rng) };
    let x = mixed::<f32>(&mut c.rng, n);
    let mut z = vec![0f32; m];
    c.key(H::default().u(n as u64).u(m as u64).u(s.len() as u64).fs(&x.iter().map(|v| *v as f64).collect::<Vec<_>>()).0);
    c.sample(|| format!("{n} samples into {m}, {} sections", s.len()));
    go(c, "sosfilt_fast32_st", || sosfilt_fast32_st(&x, &mut s, &mut z));
    let xi: Vec<isize> = (0..n).map(|_| c.rng.u64() as isize).collect();
    go(c, "sosfilt_ifast32_st", || sosfilt_ifast32_st(&xi, &mut s, &mut z));
    let b: Vec<u8> = (0..n).map(|_| c.rng.u64() as u8).collect();
    go(c, "sosfilt_ifast32_st u8", || sosfilt_ifast32_st(&b, &mut s, &mut z));
    let a = mixed::<f64>(&mut c.rng, n % 14);
    let bl = if c.rng.one_in(3) { m % 14 } else { n % 14 };
    let b = mixed::<f64>(&mut c.rng, bl);
    go(c, "lfilter_zi_dyn", || lfilter_zi_dyn(&b, &a));
    let mut az = a.clone();
    let zeros = c.rng.below(az.len() + 1);
    az[..zeros].iter_mut().for_each(|v| *v = 0.0);
    go(c, "lfilter_zi_dyn", || lfilter_zi_dyn(&b, &az));
    let mut arr = [0f32; 13];
    let mut out = [0f32; 5];
    for q in arr.iter_mut() {
        *q = wild(&mut c.rng);
    }
    go(c, "rms_fast32", || (rms_fast32(&arr), rms_fast32(&[0f32; 0])));
    go(c, "autocorr_fast32", || autocorr_fast32::<13, 5, 1>(&mut arr, &mut out));
    go(c, "autocorr_fast32", || autocorr_fast32::<13, 5, 8>(&mut arr, &mut out));
    go(c, "autocorr_fast32", || autocorr_fast32::<13, 5, 9>(&mut arr, &mut out));
    go(c, "autocorr_fast32", || autocorr_fast32::<0, 0, 0>(&mut [], &mut []));
    go(c, "autocorr_fast32", || autocorr_fast32::<1, 1, 0>(&mut [1.0], &mut [0.0]));
    let order = sizes(&mut c.rng);
    let cs = mixed::<f64>(&mut c.rng, n);
    go(c, "from_scipy_dyn", || Sos::<f64>::from_scipy_dyn(order, cs.clone()));
    touch(&(&s, &z, &arr, &out));
    stable::<f32>(c);
}
fn padk(k: usize) -> Pad {
    match k % 4 {
        0 => Pad::Odd,
        1 => Pad::Even,
        2 => Pad::Constant,
        _ => Pad::None,
    }
}
fn pads(c: &mut Case) {
    let mm = if cfg!(miri) { 5 } else { 14 };
    let (m, n) = (c.rng.below(mm), c.rng.below(mm));
    let axis = if c.rng.one_in(6) { sizes(&mut c.rng) } else { c.rng.below(2) };
    let len = if axis == 0 { m } else { n };
    let e = match c.rng.below(5) {
        0 => sizes(&mut c.rng),
        1 => len,
        2 => len.wrapping_sub(1),
        _ => c.rng.below(len + 2),
    };
    let t = sizes(&mut c.rng);
    let k = c.rng.below(4);
    c.key(H::default().u(m as u64).u(n as u64).u(axis as u64).u(e as u64).u(t as u64).u(k as u64).0);
    c.sample(|| format!("{m}x{n} axis {axis} extension {e} taps {t} kind {k}"));
    let x = DMatrix::<f64>::from_fn(m, n, |i, j| (i * 10 + j) as f64);
    go(c, "odd_ext_dyn", || odd_ext_dyn(x.clone(), e, axis));
    go(c, "pad", || pad(padk(k), Some(e), x.clone(), axis, t));
    go(c, "pad default", || pad(padk(k), None, x.clone(), axis, t));
    let y = x.map(|v| v as u8);
    go(c, "pad u8", || pad(Pad::Constant, Some(e), y.clone(), axis, t));
    let v = DVector::<f32>::from_fn(m, |i, _| i as f32);
    go(c, "pad vector", || pad(padk(k), Some(e), v.clone(), axis, t));
    let s = SMatrix::<i32, 3, 5>::from_fn(|i, j| (i + j) as i32);
    go(c, "odd_ext_dyn static", || odd_ext_dyn(s, e, axis));
    let z = DMatrix::<Complex<f64>>::from_fn(m, n, |i, j| Complex::new(i as f64, j as f64));
    go(c, "odd_ext_dyn complex", || odd_ext_dyn(z.clone(), e, axis));
    stable::<f64>(c);
}
fn roots<F: Fl>(r: &mut Rng) -> Vec<Complex<F>> {
    let n = r.below(if cfg!(miri) { 5 } else { 12 });
    let mut v: Vec<Complex<F>> = vec![];
    let w = r.pick(&[0usize, 0, 3, 12]);
    while v.len() < n {
        let mut x = |r: &mut Rng| if w > 0 && r.one_in(w) { wild::<F>(r) } else { F::of(r.normal()) };
        let z = Complex::new(x(r), if r.bool() { F::of(0.0) } else { x(r) });
        v.push(z);
        if !r.one_in(5) {
            v.push(z.conj());
        }
        if r.one_in(5) {
            v.push(z);
        }
    }
    r.shuffle(&mut v);
    v
}
fn zpk<F: Fl>(c: &mut Case) {
    let (z, p) = (roots::<F>(&mut c.rng), roots::<F>(&mut c.rng));
    let k = wild::<F>(&mut c.rng);
    let order = if c.rng.bool() { p.len() } else { sizes(&mut c.rng) };
    let order = if order > 1000 { 50 } else { order };
    let h = |v: &[Complex<F>]| v.iter().flat_map(|x| [x.re.d(), x.im.d()]).collect::<Vec<_>>();
    c.key(H::default().fs(&h(&z)).fs(&h(&p)).u(order as u64).0);
    c.sample(|| format!("{} zeros {z:?} poles {p:?} gain {k:?} order {order}", F::NAME));
    let f = || ZpkFormatFilter::new(z.clone(), p.clone(), k);
    let o = |r: &mut Rng| if r.one_in(4) { None } else { Some(wild::<F>(r)) };
    let (w, b) = (o(&mut c.rng), o(&mut c.rng));
    let fs = wild::<F>(&mut c.rng);
    go(c, "zpk2tf_dyn", || zpk2tf_dyn(order, &z, &p, k));
    go(c, "zpk2sos_dyn", || zpk2sos_dyn(order, f(), None, None));
    go(c, "zpk2sos_dyn analog", || zpk2sos_dyn(order, f(), None, Some(true)));
    go(c, "zpk2sos_dyn minimal", || zpk2sos_dyn(order, f(), Some(ZpkPairing::Minimal), Some(false)));
    go(c, "poly_dyn", || poly_dyn(&z));
    go(c, "lp2lp_zpk_dyn", || lp2lp_zpk_dyn(f(), w));
    go(c, "lp2hp_zpk_dyn", || lp2hp_zpk_dyn(f(), w));
    go(c, "lp2bp_zpk_dyn", || lp2bp_zpk_dyn(f(), w, b));
    go(c, "lp2bs_zpk_dyn", || lp2bs_zpk_dyn(f(), w, b));
    go(c, "bilinear_zpk_dyn", || bilinear_zpk_dyn(f(), fs));
    stable::<F>(c);
}
fn designs<F: Fl>(c: &mut Case) {
    let r = &mut c.rng;
    let order = if r.one_in(6) { r.below(if cfg!(miri) { 8 } else { 60 }) } else { r.below(7) };
    let n = r.below(4);
    let wn: Vec<F> = (0..n).map(|_| if r.one_in(5) { wild(r) } else { F::of(r.unit()) }).collect();
    let o = |r: &mut Rng| if r.one_in(4) { None } else if r.one_in(4) { Some(wild::<F>(r)) } else { Some(F::of(r.f(0.0, 60.0))) };
    let (rp, rs) = (o(r), o(r));
    let fs = if r.one_in(3) { Some(wild::<F>(r)) } else { None };
    let bands = |k: usize| match k {
        0 => Some(FilterBandType::Lowpass),
        1 => Some(FilterBandType::Highpass),
        2 => Some(FilterBandType::Bandpass),
        3 => Some(FilterBandType::Bandstop),
        _ => None,
    };
    let outs = |k: usize| match k {
        0 => Some(FilterOutputType::Ba),
        1 => Some(FilterOutputType::Zpk),
        2 => Some(FilterOutputType::Sos),
        _ => None,
    };
    let types = |k: usize| match k {
        0 => Some(FilterType::Butterworth),
        1 => Some(FilterType::ChebyshevI),
        2 => Some(FilterType::ChebyshevII),
        3 => Some(FilterType::CauerElliptic),
        4 => Some(FilterType::BesselThomson(BesselThomsonNorm::Phase)),
        _ => None,
    };
    let (b, q, t, an) = (r.below(5), r.below(4), r.below(6), r.pick(&[None, Some(true), Some(false)]));
    c.key(H::default().u(order as u64).u((b * 100 + q * 10 + t) as u64).fs(&wn.iter().map(|x| x.d()).collect::<Vec<_>>()).0);
    c.sample(|| format!("{} order {order} wn {wn:?} rp {rp:?} rs {rs:?} fs {fs:?} band {b} out {q} type {t} analog {an:?}", F::NAME));
    go(c, "iirfilter_dyn", || iirfilter_dyn(order, wn.clone(), rp, rs, bands(b), types(t), an, outs(q), fs));
    go(c, "butter_dyn", || butter_dyn(order, wn.clone(), bands(b), an, outs(q), fs));
    go(c, "cheby1_dyn", || cheby1_dyn(order, rp.unwrap_or(F::of(1.0)), wn.clone(), bands(b), an, outs(q), fs));
    go(c, "cheby2_dyn", || cheby2_dyn(order, rs.unwrap_or(F::of(40.0)), wn.clone(), bands(b), an, outs(q), fs));
    go(c, "cheb1ap_dyn", || cheb1ap_dyn(order, rp.unwrap_or(F::of(0.0))));
    go(c, "cheb2ap_dyn", || cheb2ap_dyn(order, rs.unwrap_or(F::of(0.0))));
    let (w, p, d) = (c.rng.below(60), if c.rng.one_in(5) { sizes(&mut c.rng) } else { c.rng.below(8) }, c.rng.below(9));
    let w = if c.rng.one_in(20) { usize::MAX - c.rng.below(3) } else { w };
    let del = wild::<F>(&mut c.rng);
    go(c, "savgol_coeffs_dyn", || savgol_coeffs_dyn::<F>(w, p, Some(d), Some(del)));
    let x = mixed::<F>(&mut c.rng, 20);
    go(c, "savgol_filter_dyn", || savgol_filter_dyn::<_, F>(x.iter(), w, p, Some(d), Some(del)));
    stable::<F>(c);
}
macro_rules! ints {
    ($c:expr, $($t:ty),*) => {$({
        let c = &mut *$c;
        let bits = 8 * std::mem::size_of::<$t>() as u32;
        let mut v = || { let s = c.rng.u64() as u128 | (c.rng.u64() as u128) << 64; (s >> (c.rng.below(bits as usize) as u32 + 128 - bits)) as $t };
        // the time of these functions grows with the magnitude: hostile in sign, width and combination, bounded in work
        let (n, k) = (v(), v());
        let sm = |x: $t| if x > 4000u16 as $t { 1 + x % 120 as $t } else { x };
        let name = |f: &str| format!("{f} {}", stringify!($t));
        go(c, &name("factorial"), || sm(n).factorial());
        go(c, &name("factorial2"), || sm(n).factorial2());
        go(c, &name("factorialk"), || sm(n).factorialk(k));
        go(c, &name("comb"), || sm(n).comb(k));
        go(c, &name("comb_rep"), || sm(n).comb_rep(sm(k)));
        go(c, &name("perm"), || sm(n).perm(k));
        go(c, &name("stirling2"), || sm(n).stirling2(sm(k)));
    })*};
}
#[allow(unused_comparisons)]
fn special(c: &mut Case) {
    c.key(c.idx);
    ints!(c, u8, u16, u32, u64, u128, usize);
    if c.rng.bool() {
        ints!(c, i16, i32, i64, i128, isize);
    }
    let x = f64::from_bits(c.rng.u64());
    let w = wild::<f64>(&mut c.rng);
    go(c, "i0", || (x.i0(), x.i0e(), w.i0(), w.i0e(), (x as f32).i0(), (w as f32).i0e()));
    let n = len(&mut c.rng);
    let t = mixed::<f64>(&mut c.rng, n);
    let d = if c.rng.bool() { c.rng.unit() } else { w };
    go(c, "square", || sci_rs::signal::wave::square(&ndarray::Array1::from_vec(t.clone()), d));
    let a = ndarray::Array2::from_shape_fn((n % 7, n % 5), |(i, j)| (i * j) as f64 * w);
    go(c, "square 2d", || sci_rs::signal::wave::square(&a.t(), d));
    go(c, "square 2d", || sci_rs::signal::wave::square(&a.slice(ndarray::s![..;2, ..;-1]), d));
    stable::<f64>(c);
}
#[cfg(feature = "std")]
fn ffts(c: &mut Case) {
    use sci_rs::signal::convolve::*;
    use sci_rs::signal::resample::resample;
    let (n, m) = (len(&mut c.rng), len(&mut c.rng));
    let x = mixed::<f64>(&mut c.rng, n);
    let y = mixed::<f64>(&mut c.rng, m);
    let t = len(&mut c.rng);
    c.key(H::default().u(n as u64).u(m as u64).fs(&x).fs(&y).0);
    c.sample(|| format!("{n} and {m} samples, resampled to {t}"));
    for k in 0..3 {
        let md = || match k {
            0 => ConvolveMode::Full,
            1 => ConvolveMode::Same,
            _ => ConvolveMode::Valid,
        };
        go(c, "convolve", || convolve(&x, &y, md()));
        go(c, "fftconvolve", || fftconvolve(&x, &y, md()));
        go(c, "correlate", || correlate(&x, &y, md()));
    }
    let xf: Vec<f32> = x.iter().map(|v| *v as f32).collect();
    go(c, "resample", || resample(&x, t));
    go(c, "resample f32", || resample(&xf, t));
    go(c, "bessel vec", || (x.i0(), x.i0e()));
    go(c, "bessel array", || ndarray::ArrayD::from_shape_vec(vec![n], x.clone()).unwrap().i0());
    stable::<f64>(c);
}
fn main() {
    let r = Runner::new("C22");
    TOUCH.store(matches!(r.variant.as_str(), "msan" | "miri" | "asan"), std::sync::atomic::Ordering::Relaxed);
    if cfg!(miri) {
        // an interpreter: a few cases of each kind, the cheap ones first
        r.stream("pads", 12, 120, pads);
        r.stream("slices", 8, 80, slices);
        r.stream("iterators", 8, 80, |c| if c.idx % 2 == 0 { iters::<f64>(c) } else { iters::<f32>(c) });
        r.stream("roots", 8, 80, |c| if c.idx % 2 == 0 { zpk::<f64>(c) } else { zpk::<f32>(c) });
        r.stream("special", 2, 20, special);
        #[cfg(feature = "std")]
        r.stream("ffts", 4, 40, ffts);
        r.stream("designs", 4, 60, |c| if c.idx % 2 == 0 { designs::<f64>(c) } else { designs::<f32>(c) });
        r.finish();
        return;
    }
    let (q, t) = (20_000, 600_000);
    r.stream("iterators", q, t, |c| if c.idx % 2 == 0 { iters::<f64>(c) } else { iters::<f32>(c) });
    r.stream("slices", q, t, slices);
    r.stream("pads", 3 * q, 3 * t, pads);
    r.stream("roots", 2 * q, 2 * t, |c| if c.idx % 2 == 0 { zpk::<f64>(c) } else { zpk::<f32>(c) });
    r.stream("designs", 2 * q, 2 * t, |c| if c.idx % 2 == 0 { designs::<f64>(c) } else { designs::<f32>(c) });
    r.stream("special", q, t, special);
    #[cfg(feature = "std")]
    r.stream("ffts", q, t, ffts);
    r.finish()
}
