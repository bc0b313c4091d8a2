//! C17: companion matrix.
use harness::*;
use sci_rs::linalg::companion_dyn;
use sci_rs::na::{Complex, DMatrix, Scalar};
use std::fmt::Debug;
use std::ops::{Div, Neg};

fn layout<T>(c: &mut Case, a: &[T], ty: &str, close: &dyn Fn(T, T) -> bool)
where
    T: Scalar + num_traits::One + num_traits::Zero + Div<Output = T> + Neg<Output = T> + Copy + PartialEq + Debug,
{
    let m = a.len();
    let ctx = || format!("{ty} m={m} a={}", short(a));
    c.cls(format!("{ty} m={}", if m < 24 { m.to_string() } else { ">=24".into() }));
    let by_ref: Option<DMatrix<T>> = c.must("companion", ctx, || companion_dyn(a.iter(), m));
    let by_val: Option<DMatrix<T>> = c.must("companion", ctx, || companion_dyn(a.iter().copied(), m));
    let (Some(x), Some(y)) = (by_ref, by_val) else { return };
    c.ev(2 * (m - 1) * (m - 1));
    for (k, g) in [&x, &y].iter().enumerate() {
        if g.shape() != (m - 1, m - 1) {
            c.fail("shape", format!("shape {:?}; {}", g.shape(), ctx()));
            return;
        }
        for i in 0..m - 1 {
            for j in 0..m - 1 {
                let ok = if i == 0 {
                    close(g[(i, j)], -a[j + 1] / a[0])
                } else if i == j + 1 {
                    g[(i, j)] == T::one()
                } else {
                    g[(i, j)] == T::zero()
                };
                if !ok {
                    c.fail("layout", format!("[{i},{j}] = {:?} (by {}); {}", g[(i, j)], ["reference", "value"][k], ctx()));
                    return;
                }
            }
        }
    }
    // announced size too small, or no size at all
    for n in 0..m {
        if n < 2 || c.rng.one_in(3) || n + 1 == m {
            c.must_panic("size", || format!("stated size {n}; {}", ctx()), || companion_dyn::<T, _, _>(a.iter(), n));
        }
    }
    let e: &[T] = &[];
    c.must_panic("empty", ctx, || companion_dyn::<T, _, _>(e.iter(), m));
}
fn fclose<F: Fl>(a: F, b: F) -> bool {
    let (x, y) = (a.d(), b.d());
    x == y || (x.is_nan() && y.is_nan()) || (x - y).abs() <= 2.0 * F::EPS * y.abs() + F::TINY * F::EPS
}
fn fl<F: Fl>(c: &mut Case, m: usize) {
    let (mut v, _) = gen_signal::<F>(&mut c.rng, m);
    if v[0] == 0.0 {
        v[0] = 1.0 + c.rng.unit();
    }
    let a = to::<F>(&v);
    c.key(H::default().s(F::NAME).fs(&v).0);
    c.sample(|| format!("{} {}", F::NAME, short(&v)));
    layout(c, &a, F::NAME, &fclose);
}
/// a polynomial with known small integer roots: C v = r v for v = (r^(n-1), ..., r, 1), exactly
fn eigen(c: &mut Case) {
    let n = c.rng.urange(1, 7);
    let roots: Vec<i64> = (0..n).map(|_| c.rng.range(-4, 4)).collect();
    let mut p = vec![1i64];
    for r in &roots {
        let mut q = vec![0i64; p.len() + 1];
        for (i, v) in p.iter().enumerate() {
            q[i] += v;
            q[i + 1] -= v * r;
        }
        p = q;
    }
    let lead = c.rng.pick(&[1i64, 1, 2, -3, 5]);
    let a: Vec<f64> = p.iter().map(|v| (v * lead) as f64).collect();
    c.key(H::default().fs(&a).0);
    let Some(m) = c.must("companion", || format!("roots {roots:?}"), || companion_dyn::<f64, _, _>(a.iter(), a.len())) else { return };
    for r in &roots {
        let v: Vec<f64> = (0..n).map(|i| (*r as f64).powi((n - 1 - i) as i32)).collect();
        for i in 0..n {
            let s: f64 = (0..n).map(|j| m[(i, j)] * v[j]).sum();
            c.ev(1);
            if s != *r as f64 * v[i] {
                c.fail("eigenvector", format!("row {i} gives {s}, expected {} for root {r} of {a:?}", *r as f64 * v[i]));
                return;
            }
        }
    }
    c.cls("eigenvectors of integer-rooted polynomials");
}
fn main() {
    let r = Runner::new("C17");
    r.stream("floats", 60_000, 1_000_000, |c| {
        let m = 2 + (c.idx % 40) as usize;
        if c.rng.bool() {
            fl::<f32>(c, m)
        } else {
            fl::<f64>(c, m)
        }
    });
    r.stream("big", 200, 4000, |c| {
        let m = c.rng.urange(40, 300);
        fl::<f64>(c, m)
    });
    r.stream("integers", 60_000, 1_000_000, |c| {
        let m = if c.rng.one_in(50) { c.rng.urange(22, 120) } else { 2 + (c.idx % 20) as usize };
        let mut v: Vec<i64> = (0..m).map(|_| c.rng.range(-30, 30)).collect();
        if v[0] == 0 {
            v[0] = c.rng.pick(&[1, -1, 7]);
        }
        c.key(H::default().is(&v).0);
        match c.rng.below(4) {
            0 => layout(c, &v, "i64", &|a, b| a == b),
            1 => layout(c, &v.iter().map(|x| *x as i32).collect::<Vec<_>>(), "i32", &|a, b| a == b),
            2 => layout(c, &v.iter().map(|x| *x as i8).collect::<Vec<_>>(), "i8", &|a, b| a == b),
            _ => layout(c, &v.iter().map(|x| *x as i128).collect::<Vec<_>>(), "i128", &|a, b| a == b),
        }
    });
    r.stream("complex", 30_000, 500_000, |c| {
        let m = if c.rng.one_in(50) { c.rng.urange(16, 100) } else { 2 + (c.idx % 14) as usize };
        let mut v: Vec<Complex<f64>> = (0..m).map(|_| Complex::new(c.rng.normal(), c.rng.normal())).collect();
        if c.rng.one_in(4) {
            for z in v.iter_mut() {
                z.im = 0.0
            }
        }
        c.key(H::default().fs(v.iter().flat_map(|z| [&z.re, &z.im])).0);
        layout(c, &v, "complex", &|a, b| (a - b).norm_sqr().sqrt() <= 1e-14 * (1.0 + b.norm_sqr().sqrt()));
    });
    r.stream("eigen", 30_000, 500_000, eigen);
    r.finish()
}
