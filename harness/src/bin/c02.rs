//! C02: filter state carries over under any chunking, entry-point mix, early drop, snapshot/restore.
use harness::*;
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::*;
use std::cell::Cell;

/// feed a chunk through entry point e of filter type F (fast paths only when F = f32)
fn feed<F: Fl>(e: usize, x: &[i64], sos: &mut Vec<Sos<F>>) -> Vec<F> {
    let xf: Vec<F> = x.iter().map(|v| F::of(*v as f64)).collect();
    if e < 6 || F::NAME != "f32" {
        return run_entry(e % 6, &xf, sos);
    }
    let mut s: Vec<Sos<f32>> = sos.iter().map(|q| FSec::of(q).sos::<f32>()).collect();
    let y = match e {
        6 => run_fast32(&x.iter().map(|v| *v as f32).collect::<Vec<_>>(), &mut s),
        7 => run_ifast32(&x.iter().map(|v| *v as i16).collect::<Vec<_>>(), &mut s),
        _ => run_ifast32(&x.iter().map(|v| *v as isize).collect::<Vec<_>>(), &mut s),
    };
    *sos = s.iter().map(|q| FSec::of(q).sos::<F>()).collect();
    y.iter().map(|v| F::of(*v as f64)).collect()
}
struct Flt<F: Fl> {
    model: Vec<ISec>,
    real: Vec<Sos<F>>,
}
fn fresh<F: Fl>(c: &mut Case) -> Flt<F> {
    let n = match c.rng.below(3) {
        0 => c.rng.below(6),
        1 => c.rng.pick(&[2usize, 3, 4, 5, 6, 8, 10, 12, 14, 16, 18, 20]),
        _ => c.rng.below(26),
    };
    let tame = c.rng.bool();
    let model = gen_isecs(&mut c.rng, n, tame);
    Flt { real: to_sos(&model), model }
}
fn history<F: Fl>(c: &mut Case) {
    let nf = c.rng.urange(1, 4);
    let mut fl: Vec<Flt<F>> = (0..nf).map(|_| fresh(c)).collect();
    let mut snap: Vec<Option<(Vec<ISec>, Vec<Sos<F>>)>> = (0..nf).map(|_| None).collect();
    let ops = c.rng.urange(4, 30);
    let mut log: Vec<String> = vec![];
    let mut h = H::default();
    for _ in 0..ops {
        let k = c.rng.below(nf);
        let op = c.rng.below(12);
        match op {
            0 => {
                snap[k] = Some((fl[k].model.clone(), fl[k].real.clone()));
                log.push(format!("f{k}.snapshot"));
                h = h.u(1000 + k as u64);
            }
            1 => {
                if let Some((m, r)) = snap[k].clone() {
                    fl[k] = Flt { model: m, real: r };
                    log.push(format!("f{k}.restore"));
                    h = h.u(2000 + k as u64);
                }
            }
            2 | 3 | 4 => {
                // lazily filtered stream, dropped early
                let n = c.rng.below(14);
                let take = c.rng.below(n + 1);
                let x = gen_ints(&mut c.rng, n, 9);
                let how = c.rng.below(4);
                let mut m2 = fl[k].model.clone();
                // how many samples get consumed, and which outputs are visible
                let (consumed, visible): (usize, Vec<usize>) = match how {
                    0 | 3 => (take, (0..take).collect()),
                    1 => {
                        // nth(take): consumes take+1 if available
                        let cns = (take + 1).min(n);
                        (cns, if take < n { vec![take] } else { vec![] })
                    }
                    _ => (n, (0..n).filter(|i| i % 3 == 0).collect()),
                };
                let Ok(y) = irun(&mut m2, &x[..consumed], F::IMAX) else { continue };
                log.push(format!("f{k}.lazy(n={n}, consumed={consumed}, how={how}, x={x:?})"));
                h = h.u(3000 + k as u64 + 10 * how as u64).is(&x);
                let pulled = Cell::new(0usize);
                let xf: Vec<F> = x.iter().map(|v| F::of(*v as f64)).collect();
                let real = &mut fl[k].real;
                let got = call(|| {
                    let it = xf.iter().inspect(|_| pulled.set(pulled.get() + 1));
                    let mut st = sosfilt_st(it, real);
                    let mut g: Vec<F> = vec![];
                    match how {
                        0 => {
                            for _ in 0..take {
                                g.extend(st.next());
                            }
                        }
                        1 => g.extend(st.nth(take)),
                        2 => g.extend(st.step_by(3)),
                        _ => g.extend(st.by_ref().take(take)),
                    }
                    g
                });
                let got = match got {
                    Ok(g) => g,
                    Err(m) => {
                        c.fail("lazy:unexpected-panic", format!("{m}; history {log:?}"));
                        return;
                    }
                };
                let want: Vec<i64> = visible.iter().map(|i| y[*i]).collect();
                c.ev(want.len() + 1);
                if how != 2 && pulled.get() != consumed {
                    c.fail("lazy:consumption", format!("pulled {} input samples while yielding outputs for {consumed}; history {log:?}", pulled.get()));
                    return;
                }
                fl[k].model = m2;
                if let Some(d) = cmp_exact(&got, &fl[k].real, &want, &fl[k].model) {
                    c.fail("lazy:value", format!("{} {d}; history {log:?}", F::NAME));
                    return;
                }
            }
            _ => {
                let e = c.rng.below(if F::NAME == "f32" { 9 } else { 6 });
                let n = match c.rng.below(8) {
                    0 => 0,
                    1..=4 => c.rng.below(7),
                    5 | 6 => c.rng.below(33),
                    _ => c.rng.pick(&[4usize, 8, 12, 16, 63, 64, 65, 128, 255]),
                };
                let x = gen_ints(&mut c.rng, n, 9);
                let mut m2 = fl[k].model.clone();
                let Ok(y) = irun(&mut m2, &x, F::IMAX) else {
                    fl[k] = fresh(c);
                    snap[k] = None;
                    continue;
                };
                log.push(format!("f{k}.feed(entry={e}, {})", short(&x)));
                h = h.u(4000 + k as u64 + 10 * e as u64).is(&x);
                let r = &mut fl[k].real;
                let got = match call(|| feed::<F>(e, &x, r)) {
                    Ok(g) => g,
                    Err(m) => {
                        c.fail("feed:unexpected-panic", format!("{m}; history {log:?}"));
                        return;
                    }
                };
                fl[k].model = m2;
                c.ev(n + 2 * fl[k].model.len());
                if let Some(d) = cmp_exact(&got, &fl[k].real, &y, &fl[k].model) {
                    c.fail("feed:value", format!("{} entry {e}: {d}; history {log:?}", F::NAME));
                    return;
                }
            }
        }
        // isolation: every other filter still has exactly its model state
        for (j, f) in fl.iter().enumerate() {
            if let Some(d) = cmp_exact::<F>(&[], &f.real, &[], &f.model) {
                c.fail("isolation", format!("filter {j} after op on {k}: {d}; history {log:?}"));
                return;
            }
        }
        c.ev(nf);
    }
    c.cls(format!("{} filters={nf} ops={}", F::NAME, log.len() / 5 * 5));
    c.key(h.0);
    c.sample(|| format!("{} {} filters: {}", F::NAME, nf, log.join("; ")));
}
fn float_chunks<F: Fl>(c: &mut Case) {
    let nsec = c.rng.below(8);
    let len = gen_len(&mut c.rng, 900);
    let (x, kind) = gen_signal::<F>(&mut c.rng, len);
    let secs = gen_fsecs::<F>(&mut c.rng, nsec, if nsec <= 2 { 0.99 } else { 0.9 });
    let r = ddrun::<F>(&secs, &x);
    if r.mag > F::MAXF / 64.0 || !(r.tol < 1e-3 * r.mag.max(F::TINY)) {
        return;
    }
    let mut sos: Vec<Sos<F>> = secs.iter().map(|s| s.sos()).collect();
    let mut out: Vec<F> = vec![];
    let mut i = 0;
    let mut plan = vec![];
    while i < len {
        let n = c.rng.below(40).min(len - i);
        let e = c.rng.below(if F::NAME == "f32" { 7 } else { 6 });
        plan.push((e, n));
        let xf = to::<F>(&x[i..i + n]);
        if e < 6 {
            out.extend(run_entry(e, &xf, &mut sos));
        } else {
            let mut s: Vec<Sos<f32>> = sos.iter().map(|q| FSec::of(q).sos::<f32>()).collect();
            out.extend(run_fast32(&x[i..i + n].iter().map(|v| *v as f32).collect::<Vec<_>>(), &mut s).iter().map(|v| F::of(*v as f64)));
            sos = s.iter().map(|q| FSec::of(q).sos::<F>()).collect();
        }
        i += n;
    }
    c.key(H::default().fs(&x).u(plan.len() as u64).0);
    c.cls(format!("float-chunks:{}:{kind}", F::NAME));
    c.ev(len);
    if out.len() != len {
        c.fail("chunk:length", format!("{} outputs for {len}", out.len()));
        return;
    }
    for i in 0..len {
        let e = (out[i].d() - r.y[i]).abs();
        c.ratio("chunked", e / r.tol.max(1e-300));
        if !(e <= r.tol) {
            c.fail("chunk:value", format!("{} output[{i}]={:?} whole-stream reference {:e} tol {:e} plan {:?}", F::NAME, out[i], r.y[i], r.tol, short(&plan)));
            return;
        }
    }
    for k in 0..nsec {
        if !((sos[k].zi0.d() - r.z[k][0]).abs() <= r.ztol[k] && (sos[k].zi1.d() - r.z[k][1]).abs() <= r.ztol[k]) {
            c.fail("chunk:state", format!("section {k} state ({:?},{:?}) reference {:?} tol {:e} plan {:?}", sos[k].zi0, sos[k].zi1, r.z[k], r.ztol[k], short(&plan)));
            return;
        }
    }
}
/// long streams in chunks of very different sizes, exact, at any scale
fn long_chunks<F: Fl>(c: &mut Case) {
    let ns = c.rng.pick(&[1usize, 2, 2, 3, 4, 5, 6, 7, 8, 10, 12]);
    let len = c.rng.urange(3000, 20_000);
    let (secs, xi, end, y) = gen_exact(&mut c.rng, ns, len, 9, F::IMAX);
    let sc = gen_pow2::<F>(&mut c.rng);
    let x: Vec<F> = xi.iter().map(|v| F::of(*v as f64 * sc)).collect();
    let mut sos = to_sos::<F>(&secs);
    rescale(&mut sos, &mut [], sc);
    let mut got: Vec<F> = vec![];
    let mut plan = vec![];
    let mut i = 0;
    while i < len {
        let n = match c.rng.below(4) {
            0 => c.rng.below(9),
            1 => c.rng.below(300),
            _ => c.rng.logf(100.0, 20_000.0) as usize,
        }
        .min(len - i);
        let e = c.rng.below(if F::NAME == "f32" { 8 } else { 7 });
        plan.push((e, n));
        match e {
            6 => {
                // lazily, from a stream that goes on
                let mut it = x[i..].iter();
                got.extend(sosfilt_st(it.by_ref(), &mut sos).take(n));
                if it.len() != len - i - n {
                    c.fail("long:pulled", format!("a lazy stream that yielded {n} samples took {}", len - i - it.len()));
                    return;
                }
            }
            7 => {
                let mut s: Vec<Sos<f32>> = sos.iter().map(|q| FSec::of(q).sos::<f32>()).collect();
                let xs: Vec<f32> = x[i..i + n].iter().map(|v| v.d() as f32).collect();
                got.extend(run_fast32(&xs, &mut s).iter().map(|v| F::of(*v as f64)));
                sos = s.iter().map(|q| FSec::of(q).sos::<F>()).collect();
            }
            _ => got.extend(run_entry(e, &x[i..i + n], &mut sos)),
        }
        i += n;
    }
    c.key(H::default().s(F::NAME).u(plan.len() as u64).is(&xi[..64]).0);
    c.cls(format!("long-chunks:{} sections={ns}", F::NAME));
    c.ev(len + 2 * ns);
    rescale(&mut sos, &mut got, 1.0 / sc);
    if let Some(d) = cmp_exact(&got, &sos, &y, &end) {
        c.fail("long:value", format!("{} {len} samples scale {sc:e} plan (entry, samples) {}: {d}; sections {}", F::NAME, short(&plan), short(&secs)));
    }
}
fn main() {
    let r = Runner::new("C02");
    r.stream("long-chunks", 600, 20_000, |c| if c.rng.bool() { long_chunks::<f32>(c) } else { long_chunks::<f64>(c) });
    r.stream("history", 120000, 2_000_000, |c| if c.rng.bool() { history::<f32>(c) } else { history::<f64>(c) });
    // every split point of short streams, every pair of entry points
    r.stream("splits", 26 * 81 * 4, 26 * 81 * 60, |c| {
        let i = c.idx % (26 * 81);
        let (ns, pair) = ((i % 26) as usize, (i / 26) as usize);
        let (e1, e2) = (pair % 9, pair / 9);
        let len = c.rng.urange(1, 21);
        let (secs, x, end, y) = gen_exact(&mut c.rng, ns, len, 9, f32::IMAX);
        c.key(H::default().u(i).is(&x).0);
        for cut in 0..=len {
            let mut s = to_sos::<f32>(&secs);
            let mut g = feed::<f32>(e1, &x[..cut], &mut s);
            g.extend(feed::<f32>(e2, &x[cut..], &mut s));
            c.ev(len + 2 * ns);
            if let Some(d) = cmp_exact(&g, &s, &y, &end) {
                c.fail("split:value", format!("entries {e1}+{e2} cut {cut} of {len}, {ns} sections: {d}; sections {} input {x:?}", short(&secs)));
                return;
            }
        }
    });
    r.stream("float-chunks", 8000, 200_000, |c| if c.rng.bool() { float_chunks::<f32>(c) } else { float_chunks::<f64>(c) });
    r.finish()
}
