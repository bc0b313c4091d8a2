//! C23: the non-allocating API never touches the heap. Monitor: a counting global allocator.
use harness::*;
use sci_rs::signal::filter::design::*;
use sci_rs::signal::filter::*;
use sci_rs::special::*;
use sci_rs::stats::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::hint::black_box;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}
struct Counting;
fn hit(n: usize) {
    let _ = ON.try_with(|o| {
        if o.get() {
            let _ = COUNT.try_with(|c| {
                let v = c.get();
                c.set((v.0 + 1, v.1 + n as u64))
            });
        }
    });
}
// SAFETY: forwards to the system allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        hit(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        hit(0);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        hit(n);
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        hit(l.size());
        System.alloc_zeroed(l)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// heap calls made by f
fn heap(f: impl FnOnce()) -> (u64, u64) {
    COUNT.with(|c| c.set((0, 0)));
    ON.with(|o| o.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ON.with(|o| o.set(false));
    if r.is_err() {
        return (u64::MAX, 0);
    }
    COUNT.with(|c| c.get())
}
fn check(c: &mut Case, name: &str, ctx: impl FnOnce() -> String, f: impl FnOnce()) {
    let (n, b) = heap(f);
    c.ev(1);
    c.cls(name.to_string());
    if n == u64::MAX {
        c.fail(format!("{name}:unexpected-panic"), format!("panicked; {}", ctx()));
    } else if n > 0 {
        c.fail(format!("heap:{name}"), format!("{n} heap calls, {b} bytes; {}", ctx()));
    }
}
fn filt<F: Fl>(c: &mut Case) {
    let ns = if c.rng.one_in(12) { c.rng.below(40) } else { c.rng.below(14) };
    let n = gen_len(&mut c.rng, 5000);
    let secs = gen_fsecs::<F>(&mut c.rng, ns, 0.95);
    let mut s: Vec<Sos<F>> = secs.iter().map(|q| q.sos()).collect();
    let (x, _) = gen_signal::<F>(&mut c.rng, n);
    let x = to::<F>(&x);
    c.key(H::default().u(n as u64).u(ns as u64).fs(&x.iter().map(|v| v.d()).collect::<Vec<_>>()).0);
    let ctx = || format!("{} {ns} sections, {n} samples", F::NAME);
    c.sample(ctx);
    check(c, "sosfilt_st", ctx, || {
        for y in sosfilt_st(x.iter(), &mut s) {
            black_box(y);
        }
    });
    check(c, "sosfilt_st (partial)", ctx, || {
        for y in sosfilt_st(x.iter().copied(), &mut s).take(n / 2) {
            black_box(y);
        }
    });
    check(c, "sosfilt_item", ctx, || {
        for v in &x {
            black_box(sosfilt_item(v, &mut s));
        }
    });
    check(c, "Sos::new, copy", ctx, || {
        for q in &secs {
            black_box(Sos::<F>::new(q.b.map(F::of), q.a.map(F::of)));
        }
        black_box(Sos::<F>::default());
        for q in &s {
            black_box(*q);
        }
    });
}
fn fast(c: &mut Case) {
    let ns = if c.rng.one_in(12) { c.rng.below(40) } else { c.rng.below(14) };
    let n = gen_len(&mut c.rng, 5000);
    let mut s: Vec<Sos<f32>> = gen_fsecs::<f32>(&mut c.rng, ns, 0.95).iter().map(|q| q.sos()).collect();
    let (x, _) = gen_signal::<f32>(&mut c.rng, n);
    let x = to::<f32>(&x);
    let xi: Vec<i16> = (0..n).map(|_| c.rng.u64() as i16).collect();
    let xb: Vec<u8> = (0..n).map(|_| c.rng.u64() as u8).collect();
    let mut z = vec![0f32; n];
    c.key(H::default().u(n as u64).u(ns as u64).fs(&x.iter().map(|v| *v as f64).collect::<Vec<_>>()).0);
    let ctx = || format!("{ns} sections, {n} samples");
    c.sample(ctx);
    check(c, "sosfilt_fast32_st", ctx, || sosfilt_fast32_st(&x, &mut s, &mut z));
    check(c, "sosfilt_ifast32_st i16", ctx, || sosfilt_ifast32_st(&xi, &mut s, &mut z));
    check(c, "sosfilt_ifast32_st u8", ctx, || sosfilt_ifast32_st(&xb, &mut s, &mut z));
}
fn stats<F: Fl>(c: &mut Case) {
    let n = gen_len(&mut c.rng, 100_000);
    let (x, _) = gen_signal::<F>(&mut c.rng, n);
    let x = to::<F>(&x);
    let lag = c.rng.below(n + 2);
    c.key(H::default().u(n as u64).fs(&x.iter().map(|v| v.d()).collect::<Vec<_>>()).0);
    let ctx = || format!("{} {n} samples lag {lag}", F::NAME);
    c.sample(ctx);
    check(c, "mean", ctx, || {
        black_box(mean::<_, F>(x.iter()));
    });
    check(c, "variance", ctx, || {
        black_box(variance::<_, F>(x.iter()));
    });
    check(c, "stdev", ctx, || {
        black_box(stdev::<_, F>(x.iter()));
    });
    check(c, "zscore", ctx, || {
        for v in zscore::<_, F>(x.iter()) {
            black_box(v);
        }
    });
    check(c, "autocorr", ctx, || {
        black_box(autocorr::<_, F>(x.iter(), lag));
    });
    check(c, "lag_diff", ctx, || {
        for v in lag_diff::<_, F>(x.iter()) {
            black_box(v);
        }
    });
    check(c, "rmssd", ctx, || {
        black_box(rmssd::<_, F>(x.iter()));
    });
    // through iterators without a size hint
    check(c, "mean (filtered)", ctx, || {
        black_box(mean::<_, F>(x.iter().filter(|v| v.d() == v.d())));
        black_box(stdev::<_, F>(x.iter().skip_while(|v| v.d() != v.d())));
    });
    let xi: Vec<i64> = x.iter().map(|v| (v.d() as i64) % 1000).collect();
    check(c, "mean (integers)", ctx, || {
        black_box(mean::<_, i64>(xi.iter()));
    });
}
fn fixed<const N: usize, const M: usize>(c: &mut Case) {
    let (x, _) = gen_signal::<f32>(&mut c.rng, N);
    let x = to::<f32>(&x);
    let mut y = [0f32; N];
    y.copy_from_slice(&x);
    let mut o = [0f32; M];
    let ctx = || format!("N={N} M={M}");
    check(c, "rms_fast32", ctx, || {
        black_box(rms_fast32(&y));
    });
    check(c, "autocorr_fast32", ctx, || {
        black_box(autocorr_fast32::<N, M, 1>(&mut y, &mut o));
    });
}
macro_rules! ints {
    ($c:expr, $($t:ty),*) => {$(
        let c = &mut *$c;
        // n small enough for every result to be representable, or zero by definition
        let lim: usize = match std::mem::size_of::<$t>() { 1 => 5, 2 => 7, 4 => 12, 8 => 20, _ => 33 };
        let n = c.rng.below(lim + 1) as $t;
        let k = c.rng.below(lim + 1) as $t;
        let big = <$t>::MAX - c.rng.below(5) as $t;
        let ctx = || format!("{} n={n} k={k}", stringify!($t));
        check(c, concat!("integers ", stringify!($t)), ctx, || {
            black_box(n.factorial());
            black_box(n.factorial2());
            black_box(n.factorialk(k.max(1)));
            black_box(big.factorialk(big));
            black_box(n.comb(k));
            black_box(k.comb(big));
            black_box(big.comb(1 as $t));
            black_box(n.perm(k));
            black_box(n.stirling2(k));
            black_box(if n > 0 { (n / 2 + 1).comb_rep(k / 2) } else { 0 });
        });
    )*};
}
fn special(c: &mut Case) {
    ints!(c, u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize);
    let x = f64::from_bits(c.rng.u64());
    let y = c.rng.f(-700.0, 700.0);
    c.key(x.to_bits());
    check(c, "bessel", || format!("{x:e} {y}"), || {
        black_box(x.i0());
        black_box(x.i0e());
        black_box(y.i0());
        black_box(y.i0e());
        black_box((y as f32).i0());
        black_box((y as f32).i0e());
        black_box((x as f32).i0e());
    });
    fixed::<1, 0>(c);
    fixed::<2, 1>(c);
    fixed::<7, 3>(c);
    fixed::<64, 40>(c);
    fixed::<1001, 33>(c);
}
fn main() {
    let r = Runner::new("C23");
    // the monitor sees allocations at all
    let (n, b) = heap(|| {
        black_box(Vec::<u8>::with_capacity(black_box(100)));
    });
    assert!(n == 2 && b == 100, "the allocator monitor is blind: {n} {b}");
    r.stream("filters", 20_000, 1_000_000, |c| if c.idx % 2 == 0 { filt::<f64>(c) } else { filt::<f32>(c) });
    r.stream("f32-slices", 20_000, 1_000_000, fast);
    r.stream("statistics", 10_000, 400_000, |c| if c.idx % 2 == 0 { stats::<f64>(c) } else { stats::<f32>(c) });
    r.stream("special", 40_000, 2_000_000, special);
    r.finish()
}
