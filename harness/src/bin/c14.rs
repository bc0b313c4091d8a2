//! C14: factorial, double factorial, k-factorial.
use harness::*;
use sci_rs::special::Factorial;

/// n(n-k)(n-2k)... as u128, None if it exceeds u128
fn kfact(n: u128, k: u128) -> Option<u128> {
    let mut r = 1u128;
    let mut v = n;
    while v > 0 {
        r = r.checked_mul(v)?;
        if v <= k {
            break;
        }
        v -= k;
    }
    Some(r)
}
const CHK: bool = cfg!(debug_assertions);

macro_rules! imp {
    ($m:ident, $t:ty) => {
        mod $m {
            use super::*;
            type T = $t;
            const NAME: &str = stringify!($t);
            const SIGNED: bool = <$t>::MIN != 0;
            fn judge(c: &mut Case, what: &str, n: T, k: Option<T>, f: impl FnOnce() -> T) {
                let neg = SIGNED && n < 0 as T;
                let want = if neg { Some(0) } else { kfact(n as u128, k.unwrap_or(1) as u128) };
                let ctx = || match k {
                    Some(k) => format!("{n}_{NAME} step {k}"),
                    None => format!("{n}_{NAME}"),
                };
                match want.filter(|w| *w <= T::MAX as u128) {
                    Some(w) => {
                        let w = w as T;
                        c.ev(1);
                        if let Some(g) = c.must(what, ctx, f) {
                            if g != w {
                                c.fail(format!("{what}:value"), format!("{} -> {g} expected {w}", ctx()));
                            }
                        }
                        c.cls(format!("{what} {NAME} representable"));
                    }
                    None => {
                        if CHK {
                            c.must_panic(&format!("{what}-overflow"), ctx, f);
                            c.cls(format!("{what} {NAME} not representable: rejected"));
                        }
                    }
                }
            }
            pub fn three(c: &mut Case, n: T, k: T) {
                c.key(H::default().s(NAME).u(n as u64).u((n as i128 >> 64) as u64).u(k as u64).0);
                judge(c, "factorial", n, None, || n.factorial());
                let two = 2 as T;
                let f2 = || n.factorial2();
                judge(c, "factorial2", n, Some(two), f2);
                if k > 0 as T {
                    judge(c, "factorialk", n, Some(k), || n.factorialk(k));
                } else {
                    c.must_panic("factorialk-step", || format!("{n}_{NAME} step {k}"), || n.factorialk(k));
                }
                c.sample(|| format!("{NAME} n={n} k={k}"));
            }
            /// representative values of the type
            pub fn val(r: &mut Rng) -> T {
                let bits = T::BITS as usize;
                let x: u128 = match r.below(9) {
                    0..=2 => r.below(60) as u128,
                    3 => (T::MAX as u128).wrapping_sub(r.below(40) as u128),
                    4 => (1u128 << r.below(bits)).wrapping_add(r.below(5) as u128).wrapping_sub(2),
                    5 => r.below(300) as u128,
                    6 => (T::MAX as u128 / (1 + r.below(20)) as u128).wrapping_add(r.below(5) as u128).wrapping_sub(2),
                    7 => ((r.u64() as u128) << 64) | r.u64() as u128,
                    _ => (r.u64() as u128) >> r.below(64),
                };
                let v = x as T;
                if SIGNED && r.one_in(12) {
                    (0 as T).wrapping_sub(v)
                } else {
                    v
                }
            }
            /// n close to a multiple of k with few factors, so the product stays small enough
            pub fn near(r: &mut Rng) -> (T, T) {
                // choose a number of factors, then the largest step that may still be representable
                let f = r.urange(1, 6) as u32;
                let m = T::MAX as u128;
                let root = (m as f64).powf(1.0 / f as f64);
                let n = (root * r.f(0.2, 1.3)).min(m as f64 * 0.999999) as u128;
                let k = (n / f as u128).max(1);
                let n = n.wrapping_add(r.below(5) as u128).wrapping_sub(2).min(m);
                let k = k.wrapping_add(r.below(3) as u128).saturating_sub(1).clamp(1, m);
                (n as T, k as T)
            }
        }
    };
}
imp!(m_u8, u8);
imp!(m_i8, i8);
imp!(m_u16, u16);
imp!(m_i16, i16);
imp!(m_u32, u32);
imp!(m_i32, i32);
imp!(m_u64, u64);
imp!(m_i64, i64);
imp!(m_u128, u128);
imp!(m_i128, i128);
imp!(m_usize, usize);
imp!(m_isize, isize);

fn main() {
    let r = Runner::new("C14");
    r.exhaust("all-u8", 65536, |c| m_u8::three(c, (c.idx >> 8) as u8, c.idx as u8));
    r.exhaust("all-i8", 65536, |c| m_i8::three(c, (c.idx >> 8) as i8, c.idx as i8));
    macro_rules! every {
        ($($m:ident $t:ty),*) => {$(
            // every argument up to well past the largest representable result, every step up to 80
            r.exhaust(concat!("grid-", stringify!($t)), 130 * 80, |c| {
                let (n, k) = (c.idx / 80, c.idx % 80);
                $m::three(c, n as $t, k as $t)
            });
            r.stream(concat!("random-", stringify!($t)), 300_000, 5_000_000, |c| {
                let (n, k) = ($m::val(&mut c.rng), $m::val(&mut c.rng));
                // the reference and the code walk n/k factors; representable products have few
                $m::three(c, n, k)
            });
            r.stream(concat!("few-factors-", stringify!($t)), 200_000, 4_000_000, |c| {
                let (n, k) = $m::near(&mut c.rng);
                $m::three(c, n, k)
            });
            r.stream(concat!("extremes-", stringify!($t)), 4000, 40_000, |c| {
                let n = if c.idx % 2 == 0 { <$t>::MAX.wrapping_sub((c.idx / 2 % 40) as $t) } else { $m::val(&mut c.rng) };
                let k = match c.rng.below(4) { 0 => n, 1 => n.wrapping_sub(1 as $t), 2 => <$t>::MAX, _ => n / 2 as $t };
                $m::three(c, n, k)
            });
        )*};
    }
    every!(m_u16 u16, m_i16 i16, m_u32 u32, m_i32 i32, m_u64 u64, m_i64 i64, m_u128 u128, m_i128 i128, m_usize usize, m_isize isize);
    r.finish()
}
