//! C01: every SOS filtering entry point computes the biquad-cascade recurrence.
use harness::*;
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::*;

fn exact_all<F: Fl>(c: &mut Case, nsec: usize, len: usize) {
    let amp = c.rng.pick(&[3i64, 9, 50, 127]);
    let (secs, xi, end, y) = gen_exact(&mut c.rng, nsec, len, amp, F::IMAX);
    // a power of two keeps everything exact: no absolute threshold may matter
    let sc = gen_pow2::<F>(&mut c.rng);
    let x: Vec<F> = xi.iter().map(|v| F::of(*v as f64 * sc)).collect();
    c.key(H::default().u(nsec as u64).u(len as u64).s(F::NAME).is(&xi).0);
    c.sample(|| format!("{} sections {:?} input {}", F::NAME, secs.iter().take(4).collect::<Vec<_>>(), short(&xi)));
    for e in 0..ENTRIES.len() {
        let mut s = to_sos::<F>(&secs);
        rescale(&mut s, &mut [], sc);
        let Some(mut got) = c.must(ENTRIES[e], || format!("{} sections, {} samples, {}", nsec, len, F::NAME), || run_entry(e, &x, &mut s)) else { continue };
        c.ev(len + 2 * nsec);
        rescale(&mut s, &mut got, 1.0 / sc);
        if let Some(d) = cmp_exact(&got, &s, &y, &end) {
            c.fail(format!("{}:value", ENTRIES[e]), format!("{} {} sections={} len={} scale={sc:e}: {d}; sections {:?} input {}", F::NAME, ENTRIES[e], nsec, len, short(&secs), short(&xi)));
        }
    }
    if F::NAME == "f32" {
        let x32: Vec<f32> = xi.iter().map(|v| *v as f32).collect();
        let run = |c: &mut Case, name: &str, f: &dyn Fn(&mut [Sos<f32>]) -> Vec<f32>| {
            let mut s = to_sos::<f32>(&secs);
            let Some(got) = c.must(name, || format!("{nsec} sections, {len} samples"), || f(&mut s)) else { return };
            c.ev(len + 2 * nsec);
            if let Some(d) = cmp_exact(&got, &s, &y, &end) {
                c.fail(format!("{name}:value"), format!("{name} sections={nsec} len={len}: {d}; sections {} input {}", short(&secs), short(&xi)));
            }
        };
        let x32s: Vec<f32> = xi.iter().map(|v| (*v as f64 * sc) as f32).collect();
        run(c, "fast32", &|s| run_fast32(&x32, s));
        if sc != 1.0 {
            run(c, "fast32-scaled", &|s| {
                rescale(s, &mut [], sc);
                let mut y = run_fast32(&x32s, s);
                rescale(s, &mut y, 1.0 / sc);
                y
            });
        }
        let b8: Vec<i8> = xi.iter().map(|v| *v as i8).collect();
        run(c, "ifast32-i8", &|s| run_ifast32(&b8, s));
        let b16: Vec<i16> = xi.iter().map(|v| *v as i16).collect();
        run(c, "ifast32-i16", &|s| run_ifast32(&b16, s));
        let bs: Vec<isize> = xi.iter().map(|v| *v as isize).collect();
        run(c, "ifast32-isize", &|s| run_ifast32(&bs, s));
        let bn: Vec<Samp32> = xi.iter().map(|v| Samp32(*v as i32)).collect();
        run(c, "ifast32-newtype", &|s| run_ifast32(&bn, s));
        if xi.iter().all(|v| *v >= 0) {
            let bu: Vec<u8> = xi.iter().map(|v| *v as u8).collect();
            run(c, "ifast32-u8", &|s| run_ifast32(&bu, s));
            if xi.iter().all(|v| *v <= 1) {
                let bb: Vec<bool> = xi.iter().map(|v| *v == 1).collect();
                run(c, "ifast32-bool", &|s| run_ifast32(&bb, s));
            }
        }
        c.cls(format!("tile-arm sections={} len%4={}", if nsec <= 12 { nsec.to_string() } else { ">12".into() }, len % 4));
    }
    c.cls(format!("{}:sections={}", F::NAME, if nsec <= 40 { nsec.to_string() } else { ">40".into() }));
}

fn float_all<F: Fl>(c: &mut Case) {
    let nsec = match c.rng.below(3) {
        0 => c.rng.below(3),
        1 => c.rng.below(8),
        _ => c.rng.below(24),
    };
    let rmax = if nsec <= 2 { 0.999 } else if nsec <= 5 { 0.97 } else { 0.8 };
    let len = gen_len(&mut c.rng, 700);
    let (x, kind) = gen_signal::<F>(&mut c.rng, len);
    let mut secs = gen_fsecs::<F>(&mut c.rng, nsec, rmax);
    let amp = x.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    if c.rng.bool() {
        for s in secs.iter_mut() {
            s.z = [F::of(amp * c.rng.f(-1.0, 1.0)).d(), F::of(amp * c.rng.f(-1.0, 1.0)).d()];
        }
    }
    let r = ddrun::<F>(&secs, &x);
    if r.mag > F::MAXF / 64.0 || !(r.tol < 1e-3 * r.mag.max(F::TINY)) {
        c.cls("float:skipped-ill-conditioned");
        return;
    }
    c.key(H::default().u(nsec as u64).s(F::NAME).fs(&x).0);
    c.cls(format!("float:{}:{kind}", F::NAME));
    c.sample(|| format!("{} {} float sections, {kind} input {}, tol {:.2e} mag {:.2e}", F::NAME, nsec, short(&x), r.tol, r.mag));
    let xf = to::<F>(&x);
    let check = |c: &mut Case, name: &str, got: Vec<F>, s: Vec<Sos<F>>| {
        if got.len() != len {
            c.fail(format!("{name}:length"), format!("{} outputs for {len} inputs", got.len()));
            return;
        }
        c.ev(len + 2 * nsec);
        for i in 0..len {
            let e = (got[i].d() - r.y[i]).abs();
            c.ratio("float-output", e / r.tol.max(1e-300));
            if !(e <= r.tol) {
                c.fail(format!("{name}:value"), format!("{} {name} sections={nsec} len={len} output[{i}]={:?} reference {:e} tol {:e}; sections {} input {}", F::NAME, got[i], r.y[i], r.tol, short(&secs), short(&x)));
                return;
            }
        }
        for k in 0..nsec {
            if !((s[k].zi0.d() - r.z[k][0]).abs() <= r.ztol[k]) || !((s[k].zi1.d() - r.z[k][1]).abs() <= r.ztol[k]) {
                c.fail(format!("{name}:state"), format!("{} {name} sections={nsec} len={len} section {k} state ({:?},{:?}) reference {:?} tol {:e}", F::NAME, s[k].zi0, s[k].zi1, r.z[k], r.ztol[k]));
                return;
            }
        }
    };
    for e in 0..ENTRIES.len() {
        let mut s: Vec<Sos<F>> = secs.iter().map(|s| s.sos()).collect();
        if let Some(got) = c.must(ENTRIES[e], || format!("{nsec} sections {len} samples"), || run_entry(e, &xf, &mut s)) {
            check(c, ENTRIES[e], got, s);
        }
    }
    if F::NAME == "f32" {
        let x32: Vec<f32> = x.iter().map(|v| *v as f32).collect();
        let mut s: Vec<Sos<f32>> = secs.iter().map(|s| s.sos()).collect();
        if let Some(got) = c.must("fast32", || format!("{nsec} sections {len} samples"), || run_fast32(&x32, &mut s)) {
            let got = got.iter().map(|v| F::of(*v as f64)).collect();
            let s = s.iter().map(|q| FSec::of(q).sos::<F>()).collect();
            check(c, "fast32", got, s);
        }
    }
}

fn iconv(c: &mut Case) {
    // conversion of integer samples: identity cascades with n sections; expected nearest f32
    let nsec = c.rng.below(14);
    let len = c.rng.below(40);
    let x: Vec<isize> = (0..len)
        .map(|_| match c.rng.below(6) {
            5 => {
                // just beside the middle of two neighbouring f32: rounding twice goes wrong
                let s = c.rng.urange(2, 39);
                let m = c.rng.range(1 << 23, (1 << 24) - 1) as i128;
                let v = (m << s) + (1i128 << (s - 1)) + c.rng.range(-1, 1) as i128;
                v.min(isize::MAX as i128) as isize * c.rng.pick(&[1, -1])
            }
            0 => c.rng.u64() as isize,
            1 => (1isize << c.rng.below(63)) + c.rng.range(-3, 3) as isize,
            2 => c.rng.pick(&[isize::MAX, isize::MIN, 0, -1, 16777217, -16777217, 16777219]),
            3 => c.rng.range(-40000, 40000) as isize,
            _ => (c.rng.u64() >> c.rng.below(60)) as isize,
        })
        .collect();
    let mut s: Vec<Sos<f32>> = (0..nsec).map(|_| Sos::new([1.0, 0.0, 0.0], [1.0, 0.0, 0.0])).collect();
    c.key(H::default().u(nsec as u64).is(&x.iter().map(|v| *v as i64).collect::<Vec<_>>()).0);
    c.ev(len);
    c.sample(|| format!("integer samples {} through {nsec} identity sections", short(&x)));
    if let Some(got) = c.must("ifast32", || format!("{x:?}"), || run_ifast32(&x, &mut s)) {
        for (i, v) in x.iter().enumerate() {
            if got[i].to_bits() != (*v as f32).to_bits() && !(*v == 0 && got[i] == 0.0) {
                c.fail("ifast32:convert", format!("sample {v} became {:?}, nearest f32 is {:?} (sections {nsec}, len {len}, index {i})", got[i], *v as f32));
                return;
            }
        }
    }
}

fn nans<F: Fl>(c: &mut Case) {
    let nsec = c.rng.below(24);
    let len = c.rng.urange(1, 30);
    let (secs, xi, _, y) = gen_exact(&mut c.rng, nsec, len, 9, F::IMAX);
    let at = c.rng.below(len);
    let mut x: Vec<F> = xi.iter().map(|v| F::of(*v as f64)).collect();
    x[at] = F::of(f64::NAN);
    c.key(H::default().u(at as u64).is(&xi).0);
    let check = |c: &mut Case, name: &str, got: Vec<f64>| {
        c.ev(len);
        if got.len() != len {
            c.fail(format!("{name}:length"), format!("{} outputs for {len}", got.len()));
            return;
        }
        for i in 0..len {
            let ok = if i < at || (nsec == 0 && i != at) { got[i] == y[i] as f64 } else { got[i].is_nan() };
            if !ok {
                c.fail(format!("{name}:nan"), format!("NaN at sample {at}: output[{i}] = {:?} (exact without NaN {}), sections {nsec} len {len}", got[i], y[i]));
                return;
            }
        }
    };
    for e in 0..ENTRIES.len() {
        let mut s = to_sos::<F>(&secs);
        if let Some(g) = c.must(ENTRIES[e], || "nan".into(), || run_entry(e, &x, &mut s)) {
            check(c, ENTRIES[e], g.iter().map(|v| v.d()).collect());
        }
    }
    if F::NAME == "f32" {
        let x32: Vec<f32> = x.iter().map(|v| v.d() as f32).collect();
        let mut s = to_sos::<f32>(&secs);
        if let Some(g) = c.must("fast32", || "nan".into(), || run_fast32(&x32, &mut s)) {
            check(c, "fast32", g.iter().map(|v| *v as f64).collect());
        }
    }
}

fn main() {
    let r = Runner::new("C01");
    // every (section count, length, precision) in a dense grid
    const S: u64 = 28;
    const L: u64 = 36;
    r.stream("grid", S * L * 2 * 60, S * L * 2 * 800, |c| {
        let i = c.idx % (S * L * 2);
        let (ns, ln) = ((i / 2 % S) as usize, (i / 2 / S) as usize);
        if i % 2 == 0 {
            exact_all::<f32>(c, ns, ln)
        } else {
            exact_all::<f64>(c, ns, ln)
        }
    });
    r.stream("lens", 20000, 400000, |c| {
        let ns = match c.rng.below(4) {
            0 => c.rng.below(22),
            1 => c.rng.below(66),
            2 => c.rng.pick(&[2usize, 3, 4, 5, 6, 8, 10, 12, 14, 16, 18, 20]),
            _ => c.rng.pick(&[7usize, 9, 11, 13, 22, 24, 30, 32, 33, 64, 100, 128, 255, 256, 257]),
        };
        let max = (400_000 / (ns + 1)).min(9000);
        let ln = gen_len(&mut c.rng, max);
        if c.rng.bool() {
            exact_all::<f32>(c, ns, ln)
        } else {
            exact_all::<f64>(c, ns, ln)
        }
    });
    r.stream("long", 60, 1000, |c| {
        let ns = c.rng.pick(&[0usize, 1, 2, 3, 4, 5, 6, 8, 10, 12]);
        let ln = c.rng.pick(&[65535usize, 65536, 65537, 70001, 131072, 200_003, 262_144, 300_000]);
        if c.rng.bool() {
            exact_all::<f32>(c, ns, ln)
        } else {
            exact_all::<f64>(c, ns, ln)
        }
    });
    r.stream("float", 40000, 600000, |c| {
        if c.rng.bool() {
            float_all::<f32>(c)
        } else {
            float_all::<f64>(c)
        }
    });
    r.stream("iconv", 40000, 600000, iconv);
    r.stream("nan", 20000, 200000, |c| {
        if c.rng.bool() {
            nans::<f32>(c)
        } else {
            nans::<f64>(c)
        }
    });
    r.stream("mismatch", 1500, 10000, |c| {
        let nsec = c.rng.below(14);
        let n = c.rng.below(24);
        let m = if c.rng.bool() { n + 1 + c.rng.below(4) } else { c.rng.below(n + 1) };
        if n == m {
            return;
        }
        c.key(H::default().u(nsec as u64).u(n as u64).u(m as u64).0);
        let y = vec![1f32; n];
        let yi = vec![1i16; n];
        let mut z = vec![0f32; m];
        let mut s: Vec<Sos<f32>> = (0..nsec).map(|_| Sos::new([1.0, 0.0, 0.0], [1.0, 0.0, 0.0])).collect();
        let t = || format!("{nsec} sections, input {n}, output buffer {m}");
        c.must_panic("fast32-mismatch", t, || sosfilt_fast32_st(&y, &mut s, &mut z));
        c.must_panic("ifast32-mismatch", t, || sosfilt_ifast32_st(&yi, &mut s, &mut z));
    });
    r.finish()
}
