//! C05: padding / odd extension.
use harness::*;
use sci_rs::na::{Complex, DMatrix, DVector, Dyn, OMatrix, RowDVector, SMatrix, Scalar};
use sci_rs::signal::filter::*;
use std::fmt::Debug;

fn ext_ref(x: &[Vec<i64>], n: usize, axis: usize, kind: u8) -> Vec<Vec<i64>> {
    let rows = x.len();
    let cols = x[0].len();
    let line = |v: &[i64]| -> Vec<i64> {
        let l = v.len() as i64;
        (0..l + 2 * n as i64)
            .map(|i| {
                let j = i - n as i64;
                if j >= 0 && j < l {
                    v[j as usize]
                } else if j < 0 {
                    match kind {
                        0 => 2 * v[0] - v[(-j) as usize],
                        1 => v[(-j) as usize],
                        _ => v[0],
                    }
                } else {
                    let m = (2 * (l - 1) - j) as usize;
                    match kind {
                        0 => 2 * v[(l - 1) as usize] - v[m],
                        1 => v[m],
                        _ => v[(l - 1) as usize],
                    }
                }
            })
            .collect()
    };
    if axis == 1 {
        x.iter().map(|r| line(r)).collect()
    } else {
        let t: Vec<Vec<i64>> = (0..cols).map(|j| line(&(0..rows).map(|i| x[i][j]).collect::<Vec<_>>())).collect();
        (0..t[0].len()).map(|i| (0..cols).map(|j| t[j][i]).collect()).collect()
    }
}
fn same<T: Scalar + PartialEq + Debug>(c: &mut Case, sig: &str, m: &OMatrix<T, Dyn, Dyn>, want: &[Vec<i64>], cv: &dyn Fn(i64) -> T, ctx: &dyn Fn() -> String) -> bool {
    let (r, k) = (want.len(), want[0].len());
    if m.shape() != (r, k) {
        c.fail(format!("{sig}:shape"), format!("shape {:?} expected {:?}; {}", m.shape(), (r, k), ctx()));
        return false;
    }
    c.ev(r * k);
    for i in 0..r {
        for j in 0..k {
            if m[(i, j)] != cv(want[i][j]) {
                c.fail(format!("{sig}:value"), format!("[{i},{j}] = {:?} expected {:?}; {}", m[(i, j)], want[i][j], ctx()));
                return false;
            }
        }
    }
    true
}
fn padt(k: u8) -> Pad {
    match k {
        0 => Pad::Odd,
        1 => Pad::Even,
        2 => Pad::Constant,
        _ => Pad::None,
    }
}
fn one<T>(c: &mut Case, rows: usize, cols: usize, n: usize, axis: usize, cv: &dyn Fn(i64) -> T, x: &[Vec<i64>], ty: &str)
where
    T: Scalar + Copy + num_traits::Zero + num_traits::One + std::ops::Sub<Output = T> + PartialEq + Debug,
{
    let ctx = || format!("{ty} {rows}x{cols} axis {axis} n {n} x {}", short(&x));
    let mk = || DMatrix::<T>::from_fn(rows, cols, |i, j| cv(x[i][j]));
    let want = ext_ref(x, n, axis, 0);
    if let Some(m) = c.must("odd_ext", ctx, || odd_ext_dyn(mk(), n, axis)) {
        same(c, "odd_ext", &m, &want, cv, &ctx);
    }
    // pad: explicit length
    if let Some((e, m)) = c.must("pad-odd", ctx, || pad(Pad::Odd, Some(n), mk(), axis, 777)) {
        if e != n {
            c.fail("pad:edge", format!("edge {e} for requested {n}; {}", ctx()));
        }
        same(c, "pad-odd", &m, &want, cv, &ctx);
    }
    for k in 1..=2u8 {
        let name = ["", "pad-even", "pad-const"][k as usize];
        if let Some((e, m)) = c.must(name, ctx, || pad(padt(k), Some(n), mk(), axis, 5)) {
            if e != n {
                c.fail(format!("{name}:edge"), format!("edge {e} for requested {n}; {}", ctx()));
            }
            same(c, name, &m, &ext_ref(x, n, axis, k), cv, &ctx);
        }
    }
    // none ignores everything
    if let Some((e, m)) = c.must("pad-none", ctx, || pad(Pad::None, if n % 2 == 0 { Some(n) } else { None }, mk(), axis, 1000)) {
        if e != 0 {
            c.fail("pad-none:edge", format!("edge {e}"));
        }
        same(c, "pad-none", &m, x, cv, &ctx);
    }
    // default length: three times the taps
    let al = if axis == 0 { rows } else { cols };
    let t = n % 7;
    if 3 * t < al {
        if let Some((e, m)) = c.must("pad-default", ctx, || pad(Pad::Odd, None, mk(), axis, t)) {
            if e != 3 * t {
                c.fail("pad-default:edge", format!("edge {e} for ntaps {t}"));
            }
            same(c, "pad-default", &m, &ext_ref(x, 3 * t, axis, 0), cv, &ctx);
        }
    } else {
        c.must_panic("pad-default-too-long", ctx, || pad(Pad::Odd, None, mk(), axis, t));
    }
    // rejections
    for big in [al, al + 1, al + 1 + n] {
        c.must_panic("odd_ext-too-long", ctx, || odd_ext_dyn(mk(), big, axis));
        for k in 0..3 {
            c.must_panic("pad-too-long", ctx, || pad(padt(k), Some(big), mk(), axis, 1));
        }
    }
    c.must_panic("odd_ext-axis", ctx, || odd_ext_dyn(mk(), n, 2));
    c.must_panic("pad-axis", ctx, || pad(Pad::Odd, Some(n), mk(), 2 + n, 1));
}
fn case(c: &mut Case, rows: usize, cols: usize, axis: usize, n: usize) {
    let amp = c.rng.pick(&[9, 30, 1000]);
    let x: Vec<Vec<i64>> = (0..rows).map(|_| (0..cols).map(|_| c.rng.range(-amp, amp)).collect()).collect();
    c.key(H::default().u(rows as u64).u(cols as u64).u(axis as u64).u(n as u64).is(x.iter().flatten()).0);
    c.cls(format!("axis={axis} n={}", if n < 40 { n.to_string() } else { ">=40".into() }));
    c.sample(|| format!("{rows}x{cols} axis {axis} n {n}: {}", short(&x)));
    match c.rng.below(6) {
        0 => one::<f64>(c, rows, cols, n, axis, &|v| v as f64, &x, "f64"),
        1 => one::<f32>(c, rows, cols, n, axis, &|v| v as f32, &x, "f32"),
        2 => one::<i64>(c, rows, cols, n, axis, &|v| v, &x, "i64"),
        3 => one::<i32>(c, rows, cols, n, axis, &|v| v as i32, &x, "i32"),
        4 => one::<i16>(c, rows, cols, n, axis, &|v| v as i16, &x, "i16"),
        _ => one::<Complex<f64>>(c, rows, cols, n, axis, &|v| Complex::new(v as f64, -2.0 * v as f64), &x, "complex"),
    }
}
fn stat<const R: usize, const C: usize>(c: &mut Case) {
    let x: Vec<Vec<i64>> = (0..R).map(|_| (0..C).map(|_| c.rng.range(-99, 99)).collect()).collect();
    let m = SMatrix::<f64, R, C>::from_fn(|i, j| x[i][j] as f64);
    for axis in 0..2 {
        for n in 0..(if axis == 0 { R } else { C }) {
            let ctx = || format!("static {R}x{C} axis {axis} n {n}");
            if let Some(g) = c.must("odd_ext-static", ctx, || odd_ext_dyn(m, n, axis)) {
                same(c, "odd_ext-static", &g, &ext_ref(&x, n, axis, 0), &|v| v as f64, &ctx);
            }
            if let Some((e, g)) = c.must("pad-static", ctx, || pad(Pad::Odd, Some(n), m, axis, 3)) {
                if e != n {
                    c.fail("pad-static:edge", format!("edge {e} n {n}"));
                }
                same(c, "pad-static", &g, &ext_ref(&x, n, axis, 0), &|v| v as f64, &ctx);
            }
        }
    }
    c.key(H::default().u(R as u64).u(C as u64).is(x.iter().flatten()).0);
}
fn float_vec<F: Fl>(c: &mut Case) {
    // long float vectors: values within rounding of 2*edge - mirrored
    let len = gen_len(&mut c.rng, 5000).max(2);
    let n = c.rng.below(len);
    let (x, _) = gen_signal::<F>(&mut c.rng, len);
    let col = c.rng.bool();
    let xf = to::<F>(&x);
    let ctx = || format!("{} vector len {len} n {n} column {col}", F::NAME);
    let g: Option<Vec<F>> = if col {
        c.must("odd_ext-vec", ctx, || odd_ext_dyn(DVector::from_vec(xf.clone()), n, 0).iter().cloned().collect())
    } else {
        c.must("odd_ext-vec", ctx, || odd_ext_dyn(RowDVector::from_vec(xf.clone()), n, 1).iter().cloned().collect())
    };
    let Some(g) = g else { return };
    c.key(H::default().u(n as u64).fs(&x).0);
    c.ev(g.len());
    if g.len() != len + 2 * n {
        c.fail("odd_ext-vec:length", format!("{} expected {}", g.len(), len + 2 * n));
        return;
    }
    for i in 0..g.len() {
        let (want, tol) = if i < n {
            let w = 2.0 * x[0] - x[n - i];
            (w, 4.0 * F::EPS * (2.0 * x[0].abs() + x[n - i].abs()))
        } else if i < n + len {
            (x[i - n], 0.0)
        } else {
            let m = len - 2 - (i - n - len);
            (2.0 * x[len - 1] - x[m], 4.0 * F::EPS * (2.0 * x[len - 1].abs() + x[m].abs()))
        };
        if !((g[i].d() - want).abs() <= tol) {
            c.fail("odd_ext-vec:value", format!("[{i}]={:?} expected {want:e}; {}", g[i], ctx()));
            return;
        }
    }
}
fn main() {
    let r = Runner::new("C05");
    // all shapes up to 7x7, all extension lengths, both axes
    let mut grid = vec![];
    for rows in 1..=9 {
        for cols in 1..=9 {
            for axis in 0..2 {
                let al = if axis == 0 { rows } else { cols };
                for n in 0..al {
                    grid.push((rows, cols, axis, n));
                }
            }
        }
    }
    let g = grid.len() as u64;
    r.stream("grid", g * 24, g * 400, |c| {
        let (a, b, ax, n) = grid[(c.idx % g) as usize];
        case(c, a, b, ax, n)
    });
    r.stream("random", 8000, 100_000, |c| {
        let (rows, cols) = match c.rng.below(10) {
            0 => (c.rng.urange(1, 300), c.rng.urange(1, 6)),
            1 => (c.rng.urange(1, 6), c.rng.urange(1, 300)),
            _ => (c.rng.urange(1, 40), c.rng.urange(1, 40)),
        };
        let axis = c.rng.below(2);
        let al = if axis == 0 { rows } else { cols };
        let n = c.rng.below(al);
        case(c, rows, cols, axis, n)
    });
    r.stream("static", 600, 6000, |c| match c.idx % 6 {
        0 => stat::<1, 5>(c),
        1 => stat::<6, 1>(c),
        2 => stat::<3, 4>(c),
        3 => stat::<5, 2>(c),
        4 => stat::<1, 1>(c),
        _ => stat::<8, 8>(c),
    });
    r.stream("vectors", 6000, 60_000, |c| if c.rng.bool() { float_vec::<f32>(c) } else { float_vec::<f64>(c) });
    r.finish()
}
