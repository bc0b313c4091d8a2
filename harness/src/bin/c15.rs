//! C15: combinations, permutations, Stirling numbers.
use harness::*;
use sci_rs::special::Combinatoric;

fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
fn comb(n: u128, k: u128) -> Option<u128> {
    if k > n {
        return Some(0);
    }
    let k = k.min(n - k);
    let mut r = 1u128;
    for i in 1..=k {
        let g = gcd(r, i);
        let d = i / g;
        r = (r / g).checked_mul((n - i + 1) / d)?;
    }
    Some(r)
}
fn comb_rep(n: u128, k: u128) -> Option<u128> {
    if n == 0 {
        return Some(0);
    }
    if k == 0 || n == 1 {
        return Some(1);
    }
    comb((n - 1).checked_add(k)?, k)
}
fn perm(n: u128, k: u128) -> Option<u128> {
    if k > n {
        return Some(0);
    }
    let mut r = 1u128;
    for i in 0..k {
        r = r.checked_mul(n - i)?;
    }
    Some(r)
}
const TAB: usize = 300;
fn table() -> Vec<Vec<Option<u128>>> {
    let mut t = vec![vec![Some(0u128); TAB + 1]; TAB + 1];
    t[0][0] = Some(1);
    for n in 1..=TAB {
        for k in 1..=n {
            t[n][k] = match (t[n - 1][k], t[n - 1][k - 1]) {
                (Some(a), Some(b)) => a.checked_mul(k as u128).and_then(|x| x.checked_add(b)),
                _ => None,
            };
        }
    }
    t
}
/// Err(()) where the reference is not available cheaply
fn stirling(t: &[Vec<Option<u128>>], n: u128, k: u128) -> Result<Option<u128>, ()> {
    if k > n {
        return Ok(Some(0));
    }
    if n <= TAB as u128 {
        return Ok(t[n as usize][k as usize]);
    }
    let d = n - k;
    Ok(match (k, d) {
        (0, _) => Some(0),
        (1, _) | (_, 0) => Some(1),
        (2, _) => {
            if n - 1 >= 128 {
                None
            } else {
                Some((1u128 << (n - 1)) - 1)
            }
        }
        (_, 1) => comb(n, 2),
        (_, 2) => comb(n, 4).and_then(|x| x.checked_mul(3)).and_then(|x| comb(n, 3).and_then(|y| x.checked_add(y))),
        // k^(n-k) alone exceeds u128
        _ if d >= 128 => None,
        _ => return Err(()),
    })
}
const CHK: bool = cfg!(debug_assertions);

macro_rules! imp {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub type T = $t;
            const NAME: &str = stringify!($t);
            const SIGNED: bool = <$t>::MIN != 0;
            fn judge(c: &mut Case, what: &str, n: T, k: T, want: Option<u128>, f: impl FnOnce() -> T) {
                let ctx = || format!("({n}, {k}) in {NAME}");
                match want.filter(|w| *w <= T::MAX as u128) {
                    Some(w) => {
                        let w = w as T;
                        c.ev(1);
                        if let Some(g) = c.must(what, ctx, f) {
                            if g != w {
                                c.fail(format!("{what}:value"), format!("{} -> {g} expected {w}", ctx()));
                            }
                        }
                        c.cls(format!("{what} {NAME} representable"));
                    }
                    None => {
                        if CHK {
                            c.must_panic(&format!("{what}-overflow"), ctx, f);
                            c.cls(format!("{what} {NAME} not representable: rejected"));
                        }
                    }
                }
            }
            pub fn all(c: &mut Case, t: &[Vec<Option<u128>>], n: T, k: T) {
                c.key(H::default().s(NAME).u(n as u64).u((n as i128 >> 64) as u64).u(k as u64).u((k as i128 >> 64) as u64).0);
                let neg = SIGNED && (n < 0 as T || k < 0 as T);
                let (un, uk) = (n as u128, k as u128);
                let z = |f: &dyn Fn() -> Option<u128>| if neg { Some(0) } else { f() };
                judge(c, "comb", n, k, z(&|| comb(un, uk)), || n.comb(k));
                if !(n == 0 as T && k == 0 as T) {
                    judge(c, "comb_rep", n, k, z(&|| comb_rep(un, uk)), || n.comb_rep(k));
                }
                judge(c, "perm", n, k, z(&|| perm(un, uk)), || n.perm(k));
                let s = if neg { Ok(Some(0)) } else { stirling(t, un, uk) };
                // large k costs time proportional to k
                if let Ok(w) = s {
                    if neg || un <= 300 || uk <= 40_000 || n == k || k > n {
                        judge(c, "stirling2", n, k, w, || n.stirling2(k));
                    }
                }
                c.sample(|| format!("{NAME} ({n}, {k})"));
            }
            pub fn val(r: &mut Rng) -> T {
                let bits = T::BITS as usize;
                let x: u128 = match r.below(9) {
                    0..=2 => r.below(70) as u128,
                    3 => (T::MAX as u128).wrapping_sub(r.below(40) as u128),
                    4 => (1u128 << r.below(bits)).wrapping_add(r.below(5) as u128).wrapping_sub(2),
                    5 => r.below(300) as u128,
                    6 => (T::MAX as u128 / (1 + r.below(20)) as u128).wrapping_add(r.below(5) as u128).wrapping_sub(2),
                    7 => ((r.u64() as u128) << 64) | r.u64() as u128,
                    _ => (r.u64() as u128) >> r.below(64),
                };
                let v = x as T;
                if SIGNED && r.one_in(12) {
                    (0 as T).wrapping_sub(v)
                } else {
                    v
                }
            }
            /// the largest n for which C(n,k) / n!/(n-k)! is representable, and its neighbours
            pub fn edge(r: &mut Rng, k: u128, perm_: bool, near_n: bool) -> (T, T) {
                let f = |n: u128| if perm_ { perm(n, k) } else { comb(n, k) };
                let ok = |n: u128| f(n).is_some_and(|v| v <= T::MAX as u128);
                let (mut lo, mut hi) = (k.min(T::MAX as u128), T::MAX as u128);
                while lo < hi {
                    let mid = lo + (hi - lo).div_ceil(2);
                    if ok(mid) {
                        lo = mid
                    } else {
                        hi = mid - 1
                    }
                }
                let n = (lo as i128).wrapping_add(r.range(-6, 2) as i128) as u128;
                let n = n.min(T::MAX as u128);
                let kk = if near_n && n >= k { n - k } else { k };
                (n as T, kk as T)
            }
        }
    };
}
imp!(m_u8, u8);
imp!(m_i8, i8);
imp!(m_u16, u16);
imp!(m_i16, i16);
imp!(m_u32, u32);
imp!(m_i32, i32);
imp!(m_u64, u64);
imp!(m_i64, i64);
imp!(m_u128, u128);
imp!(m_i128, i128);
imp!(m_usize, usize);
imp!(m_isize, isize);

fn main() {
    let r = Runner::new("C15");
    let t = table();
    let t = &t[..];
    r.exhaust("all-u8", 65536, |c| m_u8::all(c, t, (c.idx >> 8) as u8, c.idx as u8));
    r.exhaust("all-i8", 65536, |c| m_i8::all(c, t, (c.idx >> 8) as i8, c.idx as i8));
    macro_rules! every {
        ($($m:ident $t:ty),*) => {$(
            r.exhaust(concat!("grid-", stringify!($t)), 140 * 140, |c| {
                let (n, k) = (c.idx / 140, c.idx % 140);
                $m::all(c, t, n as $t, k as $t)
            });
            r.stream(concat!("random-", stringify!($t)), 300_000, 5_000_000, |c| {
                let (n, mut k) = ($m::val(&mut c.rng), $m::val(&mut c.rng));
                if c.rng.one_in(3) { k = (c.rng.below(12)) as $t }
                if c.rng.one_in(3) && n >= k { k = n.wrapping_sub(k) }
                $m::all(c, t, n, k)
            });
            r.stream(concat!("edges-", stringify!($t)), 100_000, 2_000_000, |c| {
                let kmax = if c.rng.bool() { 12 } else { <$t>::BITS as usize + 2 };
                let k = c.rng.below(kmax) as u128;
                let (p, q) = (c.rng.one_in(3), c.rng.one_in(3));
                let (n, k) = $m::edge(&mut c.rng, k, p, q);
                $m::all(c, t, n, k);
                // the same number written as a multiset coefficient
                if k >= 1 as $t && n >= k { $m::all(c, t, n - k + 1 as $t, k) }
            });
            r.stream(concat!("large-stirling-", stringify!($t)), 200, 4000, |c| {
                let n = (c.rng.logf(200.0, 1e6) as u128).min(<$t>::MAX as u128) as $t;
                let k = match c.rng.below(5) { 0 => 1 as $t, 1 => 2 as $t, 2 => n - 1 as $t, 3 => n, _ => n - 2 as $t };
                $m::all(c, t, n, k)
            });
        )*};
    }
    every!(m_u16 u16, m_i16 i16, m_u32 u32, m_i32 i32, m_u64 u64, m_i64 i64, m_u128 u128, m_i128 i128, m_usize usize, m_isize isize);
    r.finish()
}
