//! C26: iterator inputs are consumed once, in order, however they are presented.
use harness::*;
use sci_rs::linalg::companion_dyn;
use sci_rs::signal::filter::design::*;
use sci_rs::signal::filter::*;
use sci_rs::stats::*;
use std::cell::{Cell, RefCell};
use std::collections::{LinkedList, VecDeque};
use std::rc::Rc;

#[derive(Default, Debug)]
struct Log {
    /// per clone: (items handed out, calls answered with None)
    clones: Vec<(usize, usize)>,
    hints: usize,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Hint {
    Exact,
    Unknown,
    HugeUpper(usize),
    HalfLower,
    NoneUpper,
}
const HINTS: [Hint; 8] = [
    Hint::Exact,
    Hint::Unknown,
    Hint::HugeUpper(usize::MAX),
    Hint::HugeUpper(1 << 45),
    Hint::HugeUpper(1 << 33),
    Hint::HugeUpper(1),
    Hint::HalfLower,
    Hint::NoneUpper,
];
/// an iterator that records every call; truthful size hints; not fused: after the end it answers None once and then poison
struct Src<T: Copy> {
    data: Rc<Vec<T>>,
    pos: usize,
    ended: bool,
    poison: Option<T>,
    hint: Hint,
    log: Rc<RefCell<Log>>,
    id: usize,
}
impl<T: Copy> Src<T> {
    fn new(data: &[T], hint: Hint, poison: Option<T>) -> (Src<T>, Rc<RefCell<Log>>) {
        let log = Rc::new(RefCell::new(Log { clones: vec![(0, 0)], hints: 0 }));
        (Src { data: Rc::new(data.to_vec()), pos: 0, ended: false, poison, hint, log: log.clone(), id: 0 }, log)
    }
}
impl<T: Copy> Clone for Src<T> {
    fn clone(&self) -> Self {
        let mut l = self.log.borrow_mut();
        let id = l.clones.len();
        l.clones.push((self.pos, 0));
        Src { data: self.data.clone(), pos: self.pos, ended: self.ended, poison: self.poison, hint: self.hint, log: self.log.clone(), id }
    }
}
impl<T: Copy> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let mut l = self.log.borrow_mut();
        if self.ended {
            l.clones[self.id].1 += 1;
            return self.poison;
        }
        if self.pos < self.data.len() {
            self.pos += 1;
            l.clones[self.id].0 = self.pos;
            Some(self.data[self.pos - 1])
        } else {
            self.ended = true;
            l.clones[self.id].1 += 1;
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.log.borrow_mut().hints += 1;
        let n = self.data.len() - self.pos;
        match self.hint {
            Hint::Exact => (n, Some(n)),
            Hint::Unknown => (0, None),
            Hint::HugeUpper(u) => (0, Some(u.max(n + 1))),
            Hint::HalfLower => (n / 2, Some(n + n / 2 + 3)),
            Hint::NoneUpper => (n, None),
        }
    }
}
fn fb<F: Fl>(x: F) -> u64 {
    if x.d().is_nan() {
        u64::MAX
    } else {
        x.bits()
    }
}
fn fv<F: Fl>(v: &[F]) -> Vec<u64> {
    v.iter().map(|x| fb(*x)).collect()
}
fn ss<F: Fl>(v: &[Sos<F>]) -> Vec<u64> {
    v.iter().flat_map(|s| [s.b[0], s.b[1], s.b[2], s.a[0], s.a[1], s.a[2], s.zi0, s.zi1]).map(fb).collect()
}
fn pr<F: Fl>(t: (F, usize)) -> Vec<u64> {
    vec![fb(t.0), t.1 as u64]
}
struct Ctx<F: Fl> {
    sos: Vec<Sos<F>>,
    lag: usize,
    w: usize,
    p: usize,
    short: bool, // too short for sosfiltfilt
}
const NAMES: [&str; 15] = [
    "sosfilt_dyn", "sosfilt_st", "sosfiltfilt_dyn", "savgol_filter_dyn", "mean", "variance", "stdev", "median", "median_abs_deviation", "autocorr", "lag_diff",
    "rmssd", "zscore", "mod_zscore", "companion_dyn",
];
/// one function on one iterator
fn one<F: Fl, I>(f: usize, i: I, x: &Ctx<F>, n: usize) -> Vec<u64>
where
    I: Iterator + Clone,
    I::Item: std::borrow::Borrow<F> + Copy,
{
    let mut sos = x.sos.clone();
    let st = |s: &[Sos<F>]| s.iter().flat_map(|q| [fb(q.zi0), fb(q.zi1)]).collect::<Vec<_>>();
    match f {
        0 => {
            let mut y = fv(&sosfilt_dyn(i, &mut sos));
            y.extend(st(&sos));
            y
        }
        1 => {
            let mut y = fv(&sosfilt_st(i, &mut sos).collect::<Vec<F>>());
            y.extend(st(&sos));
            y
        }
        2 => {
            if x.short {
                return match call(|| sosfiltfilt_dyn(i, &sos)) {
                    Ok(y) => fv(&y),
                    Err(_) => vec![999],
                };
            }
            fv(&sosfiltfilt_dyn(i, &sos))
        }
        3 => fv(&savgol_filter_dyn::<I, F>(i, x.w, x.p, None, None)),
        4 => pr(mean::<I, F>(i)),
        5 => pr(variance::<I, F>(i)),
        6 => pr(stdev::<I, F>(i)),
        7 => pr(median::<I, F>(i)),
        8 => pr(median_abs_deviation::<I, F>(i)),
        9 => vec![fb(autocorr::<I, F>(i, x.lag))],
        10 => fv(&lag_diff::<I, F>(i).collect::<Vec<F>>()),
        11 => vec![fb(rmssd::<I, F>(i))],
        12 => fv(&zscore::<I, F>(i).collect::<Vec<F>>()),
        13 => fv(&mod_zscore::<I, F>(i).collect::<Vec<F>>()),
        _ => match call(|| companion_dyn::<F, _, _>(i, n)) {
            Ok(m) => m.iter().map(|v| fb(*v)).collect(),
            Err(_) => vec![999],
        },
    }
}
fn shapes<F: Fl>(c: &mut Case, data: &[F], x: &Ctx<F>) {
    let n = data.len();
    for f in 0..NAMES.len() {
        let name = NAMES[f];
        let base = match call(|| one(f, data.iter(), x, n)) {
            Ok(b) => b,
            Err(m) => {
                c.fail(format!("{name}:unexpected-panic"), format!("panicked on a slice iterator: {m}; n={n}"));
                continue;
            }
        };
        macro_rules! cmp {
            ($label:expr, $it:expr) => {{
                let it = $it;
                match call(|| one(f, it, x, n)) {
                    Err(m) => c.fail(format!("{name}:panic"), format!("{} {name} on {}: panicked: {m}; n={n} data {}", F::NAME, $label, short(data))),
                    Ok(got) => {
                        c.ev(got.len());
                        if got != base {
                            let at = got.iter().zip(&base).position(|(a, b)| a != b);
                            c.fail(
                                format!("{name}:differs"),
                                format!("{} {name} on {}: {} words, differs at {at:?} from the slice iterator ({} words); n={n} lag={} w={} p={} data {}", F::NAME, $label, got.len(), base.len(), x.lag, x.w, x.p, short(data)),
                            )
                        }
                    }
                }
            }};
        }
        cmp!("copied", data.iter().copied());
        cmp!("vec::IntoIter", data.to_vec().into_iter());
        let k = c.rng.below(n + 1);
        cmp!("chain", data[..k].iter().chain(data[k..].iter()));
        cmp!("filter", data.iter().filter(|_| true));
        let rev: Vec<F> = data.iter().rev().copied().collect();
        cmp!("rev", rev.iter().rev());
        let dbl: Vec<F> = data.iter().flat_map(|v| [*v, F::of(77.0)]).collect();
        cmp!("step_by", dbl.iter().step_by(2));
        cmp!("take_while", data.iter().take_while(|_| true));
        cmp!("huge range take_while", (0..1usize << 40).take_while(|i| *i < n).map(|i| data[i]));
        cmp!("endless map_while", (0u64..).map_while(|i| data.get(i as usize).copied()));
        cmp!("filter_map of a range", (0..3 * n).filter_map(|i| if i % 3 == 1 { Some(data[i / 3]) } else { None }));
        cmp!("flat_map", data.chunks(3).flat_map(|c| c.iter()));
        let vd: VecDeque<F> = {
            let mut v = VecDeque::with_capacity(n + 3);
            for q in &data[k..] {
                v.push_back(*q);
            }
            for q in data[..k].iter().rev() {
                v.push_front(*q);
            }
            v
        };
        cmp!("VecDeque", vd.iter());
        let ll: LinkedList<F> = data.iter().copied().collect();
        cmp!("LinkedList", ll.iter());
        cmp!("peekable", {
            let mut p = data.iter().peekable();
            p.peek();
            p
        });
        if n > 0 {
            cmp!("cycle take", data.iter().cycle().take(n));
        }
        cmp!("skip", dbl[..k].iter().chain(data.iter()).skip(k));
        for h in HINTS {
            let poison = if c.rng.bool() { Some(F::of(f64::NAN)) } else { None };
            let (s, log) = Src::new(data, h, poison);
            cmp!(format!("instrumented iterator, size hint {h:?}, {}", if poison.is_some() { "not fused" } else { "fused" }), s);
            let l = log.borrow();
            c.ev(l.clones.iter().map(|q| q.0 + q.1).sum());
            c.cls(format!("{name} passes={} hint-calls={}", l.clones.iter().filter(|q| q.0 > 0).count().min(6), l.hints.min(9)));
            // every item handed out by at least one pass, and the end seen
            if !l.clones.iter().any(|q| q.0 == n) && !(f == 14 && n < 2 || x.short && f == 2) {
                c.fail(format!("{name}:incomplete"), format!("{name}: no pass reached the end of {n} items: {:?}", l.clones));
            }
            // by reference
            let refs: Vec<&F> = data.iter().collect();
            let (s, _) = Src::new(&refs, h, None);
            cmp!(format!("references, size hint {h:?}"), s);
        }
    }
}
fn gen_ctx<F: Fl>(c: &mut Case, n: usize) -> Ctx<F> {
    let ns = c.rng.below(8);
    let mut sos: Vec<Sos<F>> = gen_fsecs::<F>(&mut c.rng, ns, 0.9).iter().map(|s| s.sos::<F>()).collect();
    for s in sos.iter_mut() {
        s.zi0 = F::of(c.rng.normal());
        s.zi1 = F::of(c.rng.normal());
    }
    let p = c.rng.below(3);
    Ctx { sos, lag: c.rng.below(n + 2), w: 2 * c.rng.urange(1, 4) + 1 + 2 * (p / 2), p, short: n <= 3 * (2 * ns + 1) }
}
fn vals<F: Fl>(c: &mut Case, n: usize) -> Vec<F> {
    let mut v: Vec<F> = (0..n).map(|_| F::of(c.rng.normal() * 4.0)).collect();
    if c.rng.one_in(3) {
        v.iter_mut().for_each(|x| *x = F::of(x.d().round()));
    }
    if n > 0 && v[0].d() == 0.0 {
        v[0] = F::of(1.0);
    }
    v
}
fn eager<F: Fl>(c: &mut Case) {
    let n = if c.idx < 20 { c.idx as usize / 2 } else { gen_len(&mut c.rng, 120) };
    let data = vals::<F>(c, n);
    let x = gen_ctx::<F>(c, n);
    c.key(H::default().u(n as u64).fs(&data.iter().map(|v| v.d()).collect::<Vec<_>>()).0);
    c.sample(|| format!("{} n={n} sections={} lag={} window={} order={}; 15 functions x 32 iterator shapes", F::NAME, x.sos.len(), x.lag, x.w, x.p));
    shapes(c, &data, &x);
}
/// IntoIterator arguments of the filters: arrays, references to collections, options
fn into_iter_forms<F: Fl>(c: &mut Case) {
    let data = vals::<F>(c, 4);
    let x = gen_ctx::<F>(c, 4);
    c.key(H::default().fs(&data.iter().map(|v| v.d()).collect::<Vec<_>>()).0);
    let mut s0 = x.sos.clone();
    let base = fv(&sosfilt_dyn(data.iter(), &mut s0));
    let arr = [data[0], data[1], data[2], data[3]];
    macro_rules! cmp {
        ($label:expr, $e:expr) => {{
            let mut s = x.sos.clone();
            let a = fv(&sosfilt_dyn($e, &mut s));
            let mut t = x.sos.clone();
            let b = fv(&sosfilt_st($e, &mut t).collect::<Vec<F>>());
            c.ev(8);
            if a != base || b != base || ss(&s) != ss(&s0) || ss(&t) != ss(&s0) {
                c.fail("into_iter", format!("{} filtering {} differs from the slice iterator: {a:?} {b:?} {base:?}", F::NAME, $label));
            }
        }};
    }
    cmp!("an array", arr);
    cmp!("a reference to an array", &arr);
    cmp!("a vector", data.clone());
    cmp!("a reference to a vector", &data);
    cmp!("a slice", &data[..]);
    cmp!("boxed items", data.iter().map(|v| Box::new(*v)));
    cmp!("a drained vector", data.clone().drain(..));
    cmp!("from_fn", {
        let mut i = 0;
        let d = data.clone();
        std::iter::from_fn(move || {
            i += 1;
            d.get(i - 1).copied()
        })
    });
    let mut s = x.sos.clone();
    let a = fv(&sosfilt_dyn(Some(data[0]), &mut s));
    let mut t = x.sos.clone();
    let b = vec![fb(sosfilt_item(data[0], &mut t))];
    let mut u = x.sos.clone();
    let d = vec![fb(sosfilt_item(&data[0], &mut u))];
    if a != base[..1] || b != a || d != a || ss(&s) != ss(&t) || ss(&t) != ss(&u) {
        c.fail("single", format!("one sample: {a:?} {b:?} {d:?} {:?}", &base[..1]));
    }
    // sections through chains and filtered iterators
    let mut s1 = x.sos.clone();
    if s1.iter().all(|q| (q.a[0] + q.a[1] + q.a[2]).d().abs() > 1e-3) {
        let mut s2 = s1.clone();
        let mut s3 = s1.clone();
        sosfilt_zi_dyn::<F, _, Sos<F>>(s1.iter_mut());
        let k = s2.len() / 2;
        let (a, b) = s2.split_at_mut(k);
        sosfilt_zi_dyn::<F, _, Sos<F>>(a.iter_mut().chain(b.iter_mut()));
        sosfilt_zi_dyn::<F, _, Sos<F>>(s3.iter_mut().filter(|_| true));
        c.ev(3 * s1.len());
        if ss(&s1) != ss(&s2) || ss(&s1) != ss(&s3) {
            c.fail("zi", format!("section iterators differ: {s1:?} {s2:?} {s3:?}"));
        }
    }
}
fn lazy<F: Fl>(c: &mut Case) {
    let n = c.rng.urange(2, 60);
    let data = vals::<F>(c, n);
    let x = gen_ctx::<F>(c, n);
    c.key(H::default().u(n as u64).fs(&data.iter().map(|v| v.d()).collect::<Vec<_>>()).0);
    let h = c.rng.pick(&HINTS);
    // filtering pulls exactly one item per output, and nothing before
    let mut s = x.sos.clone();
    let mut s_ref = x.sos.clone();
    let (src, log) = Src::new(&data, h, None);
    {
        let mut it = sosfilt_st(src, &mut s);
        if log.borrow().clones[0] != (0, 0) {
            c.fail("sosfilt_st:eager", "input was pulled before the first output was requested");
        }
        for i in 0..n {
            let y = it.next();
            let want = sosfilt_item(data[i], &mut s_ref);
            let l = log.borrow().clones[0];
            c.ev(2);
            if l != (i + 1, 0) {
                c.fail("sosfilt_st:pulls", format!("after {} outputs {l:?} (items, ends) were pulled", i + 1));
                break;
            }
            match y {
                Some(v) if fb(v) == fb(want) => {}
                _ => {
                    c.fail("sosfilt_st:value", format!("output {i}: {y:?}, expected {want:?}"));
                    break;
                }
            }
        }
        if it.next().is_some() || log.borrow().clones[0] != (n, 1) {
            c.fail("sosfilt_st:end", format!("did not end with its input: {:?}", log.borrow().clones));
        }
    }
    // dropped early: exactly the samples yielded are accounted for
    let k = c.rng.below(n + 1);
    let mut s1 = x.sos.clone();
    let got: Vec<F> = sosfilt_st(data.iter(), &mut s1).take(k).collect();
    let mut s2 = x.sos.clone();
    let want: Vec<F> = data[..k].iter().map(|v| sosfilt_item(v, &mut s2)).collect();
    if fv(&got) != fv(&want) || ss(&s1) != ss(&s2) {
        c.fail("sosfilt_st:drop", format!("after dropping at {k} of {n} the sections are {s1:?}, expected {s2:?}"));
    }
    // feedback loop: each input depends on the previous output
    let cell = Rc::new(Cell::new(F::of(0.0)));
    let c2 = cell.clone();
    let mut s1 = x.sos.clone();
    let mut s2 = x.sos.clone();
    let half = F::of(0.25);
    let d2 = data.clone();
    let mut it = sosfilt_st((0..n).map(move |i| d2[i] - half * c2.get()), &mut s1);
    let mut prev = F::of(0.0);
    for i in 0..n {
        let y = it.next().unwrap();
        cell.set(y);
        let w = sosfilt_item(data[i] - half * prev, &mut s2);
        prev = w;
        c.ev(1);
        if fb(y) != fb(w) {
            c.fail("sosfilt_st:feedback", format!("closed loop diverged at sample {i}: {y:?} expected {w:?}"));
            break;
        }
    }
    drop(it);
    // differences: at most one item of lookahead, also on endless input
    let (src, log) = Src::new(&data, h, None);
    let mut it = lag_diff::<_, F>(src);
    for i in 0..n - 1 {
        let y = it.next();
        c.ev(1);
        if y.map(fb) != Some(fb(data[i + 1] - data[i])) {
            c.fail("lag_diff:value", format!("item {i}: {y:?}"));
            break;
        }
        if log.borrow().clones.iter().any(|q| q.0 > i + 2) {
            c.fail("lag_diff:pulls", format!("after {} outputs: {:?}", i + 1, log.borrow().clones));
            break;
        }
    }
    if it.next().is_some() {
        c.fail("lag_diff:end", "more differences than pairs");
    }
    let e: Vec<F> = lag_diff::<_, F>((0u64..).map(|i| F::of((i * i % 1024) as f64))).take(9).collect();
    if fv(&e) != fv(&(0..9).map(|i| F::of((2 * i + 1) as f64)).collect::<Vec<F>>()) {
        c.fail("lag_diff:endless", format!("{e:?}"));
    }
    let mut s1 = x.sos.clone();
    let mut s2 = x.sos.clone();
    let e: Vec<F> = sosfilt_st((0u64..).map(|i| F::of((i % 7) as f64)), &mut s1).take(9).collect();
    let w: Vec<F> = (0..9u64).map(|i| sosfilt_item(F::of((i % 7) as f64), &mut s2)).collect();
    if fv(&e) != fv(&w) {
        c.fail("sosfilt_st:endless", format!("{e:?} {w:?}"));
    }
    // scores: the final pass is as lazy as its consumer
    for q in 0..2 {
        let (src, log) = Src::new(&data, h, None);
        let want: Vec<F> = if q == 0 { zscore::<_, F>(data.iter()).collect() } else { mod_zscore::<_, F>(data.iter()).collect() };
        let mut it: Box<dyn Iterator<Item = F>> = if q == 0 { Box::new(zscore::<_, F>(src)) } else { Box::new(mod_zscore::<_, F>(src)) };
        let before: Vec<usize> = log.borrow().clones.iter().map(|q| q.0).collect();
        let mut k = 0;
        while let Some(v) = it.next() {
            if k >= n || fb(v) != fb(want[k]) {
                c.fail("score:value", format!("item {k}: {v:?}"));
                break;
            }
            k += 1;
            let now: Vec<usize> = log.borrow().clones.iter().map(|q| q.0).collect();
            let pulled: usize = now.iter().sum::<usize>() - before.iter().sum::<usize>();
            c.ev(1);
            if pulled > k && before.iter().filter(|p| **p == n).count() != before.len() {
                c.fail("score:pulls", format!("{pulled} items pulled for {k} outputs"));
                break;
            }
        }
        if k != n && !c.failed() {
            c.fail("score:end", format!("{k} outputs for {n} items"));
        }
    }
    c.cls(format!("lazy {} {h:?}", F::NAME));
    c.sample(|| format!("lazy {} n={n} hint {h:?} dropped at {k}", F::NAME));
}
fn main() {
    let r = Runner::new("C26");
    let q = if cfg!(miri) { 2 } else { 1 };
    r.stream("shapes", 6_000 / q, 200_000, |c| if c.idx % 2 == 0 { eager::<f64>(c) } else { eager::<f32>(c) });
    r.stream("into-iterator", 20_000 / q, 400_000, |c| if c.idx % 2 == 0 { into_iter_forms::<f64>(c) } else { into_iter_forms::<f32>(c) });
    r.stream("lazy", 30_000 / q, 600_000, |c| if c.idx % 2 == 0 { lazy::<f64>(c) } else { lazy::<f32>(c) });
    r.finish()
}
