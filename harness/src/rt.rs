//! Case-stream runner: parallel, replayable, with crash attribution and observation counters.
use crate::rng::{fnv, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m}{loc}"));
    }));
}
/// Run a library call; Err(message) if it panicked.
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub stream: String,
    pub idx: u64,
    pub sig: String,
    pub detail: String,
}
#[derive(Default)]
struct Acc {
    evals: u64,
    events: u64,
    keys: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<Violation>,
    maxerr: BTreeMap<String, f64>,
}
pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub thorough: bool,
    pub stream: &'a str,
    acc: &'a mut Acc,
    failed: u32,
    verbose: bool,
}
impl Case<'_> {
    /// count observed events (values compared, state snapshots checked, panics observed)
    pub fn ev(&mut self, n: usize) {
        self.acc.events += n as u64;
    }
    pub fn cls(&mut self, s: impl Into<String>) {
        *self.acc.classes.entry(s.into()).or_insert(0) += 1;
    }
    /// this case is non-trivial and identified by h
    pub fn key(&mut self, h: u64) {
        if self.acc.keys.len() < 4_000_000 {
            let h = fnv(self.stream.as_bytes(), h ^ 0xcbf29ce484222325);
            self.acc.keys.insert(h);
        }
    }
    pub fn want_sample(&self) -> bool {
        self.idx < 2 || self.verbose
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.want_sample() {
            let mut s = format!("{}#{}: {}", self.stream, self.idx, s());
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.acc.samples.push(s);
        }
    }
    /// worst error/tolerance ratio per label
    pub fn ratio(&mut self, label: &str, r: f64) {
        match self.acc.maxerr.get_mut(label) {
            Some(e) => {
                if r > *e {
                    *e = r
                }
            }
            None => {
                self.acc.maxerr.insert(label.to_string(), r);
            }
        }
    }
    pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        self.failed += 1;
        if self.failed <= 4 {
            let mut d = detail.into();
            if d.len() > 4000 {
                let mut k = 4000;
                while !d.is_char_boundary(k) {
                    k -= 1;
                }
                d.truncate(k);
            }
            self.acc.violations.push(Violation {
                stream: self.stream.to_string(),
                idx: self.idx,
                sig: sig.into(),
                detail: d,
            });
        }
    }
    /// a recorded known finding: reported once per worker, so that it never cuts the exploration short
    pub fn fail_known(&mut self, sig: &str, detail: impl Into<String>) {
        self.cls(format!("known-finding {sig}"));
        if !self.acc.violations.iter().any(|v| v.sig == sig) {
            self.fail(sig, detail);
        }
    }
    pub fn failed(&self) -> bool {
        self.failed > 0
    }
    /// run a call that must not panic
    pub fn must<T>(&mut self, sig: &str, ctx: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match call(f) {
            Ok(v) => Some(v),
            Err(m) => {
                self.fail(format!("{sig}:unexpected-panic"), format!("panicked: {m}; {}", ctx()));
                None
            }
        }
    }
    /// run a call that must panic
    pub fn must_panic<T>(&mut self, sig: &str, ctx: impl FnOnce() -> String, f: impl FnOnce() -> T) {
        self.ev(1);
        if call(f).is_ok() {
            self.fail(format!("{sig}:accepted"), format!("returned instead of rejecting; {}", ctx()));
        }
    }
}
pub struct Runner {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub variant: String,
    scale: f64,
    out: Option<String>,
    replay: Option<(String, u64)>,
    inflight: Option<std::fs::File>,
    budget: f64,
    start: Instant,
    acc: Mutex<Acc>,
    streams: Mutex<Vec<(String, u64, u64, f64)>>,
    truncated: AtomicBool,
    stream_no: AtomicU64,
    replayed: AtomicU64,
    names: Mutex<Vec<String>>,
}
pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
impl Runner {
    pub fn new(prop: &str) -> Runner {
        quiet_panics();
        let mut r = Runner {
            prop: prop.to_string(),
            seed: 1,
            thorough: false,
            threads: if cfg!(miri) { 1 } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) },
            variant: String::new(),
            scale: 1.0,
            out: None,
            replay: None,
            inflight: None,
            budget: 1e9,
            start: Instant::now(),
            acc: Mutex::new(Acc::default()),
            streams: Mutex::new(vec![]),
            truncated: AtomicBool::new(false),
            stream_no: AtomicU64::new(0),
            replayed: AtomicU64::new(0),
            names: Mutex::new(vec![]),
        };
        let a: Vec<String> = std::env::args().collect();
        let mut i = 1;
        while i < a.len() {
            let v = || a[i + 1].clone();
            match a[i].as_str() {
                "--seed" => r.seed = v().parse().unwrap(),
                "--thorough" => r.thorough = v() == "1",
                "--threads" => r.threads = v().parse().unwrap(),
                "--variant" => r.variant = v(),
                "--scale" => r.scale = v().parse().unwrap(),
                "--out" => r.out = Some(v()),
                "--budget" => r.budget = v().parse().unwrap(),
                "--inflight" => {
                    r.inflight = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(v()).ok()
                }
                "--replay" => {
                    let s = v();
                    let (n, k) = s.rsplit_once(':').unwrap();
                    r.replay = Some((n.to_string(), k.parse().unwrap()));
                }
                _ => {
                    i += 1;
                    continue;
                }
            }
            i += 2;
        }
        r
    }
    pub fn is_replay(&self) -> bool {
        self.replay.is_some()
    }
    /// Run `quick` (or `thorough`) cases of the stream.
    pub fn stream<F: Fn(&mut Case) + Sync>(&self, name: &str, quick: u64, thorough: u64, f: F) {
        let no = self.stream_no.fetch_add(1, SeqCst);
        let n = ((if self.thorough { thorough } else { quick }) as f64 * self.scale).ceil() as u64;
        self.run(name, no, n, f)
    }
    /// Same, for finite enumerations: never scaled.
    pub fn exhaust<F: Fn(&mut Case) + Sync>(&self, name: &str, n: u64, f: F) {
        let no = self.stream_no.fetch_add(1, SeqCst);
        self.run(name, no, n, f)
    }
    fn run<F: Fn(&mut Case) + Sync>(&self, name: &str, no: u64, n: u64, f: F) {
        let one = |idx: u64, acc: &mut Acc, verbose: bool| {
            let mut c = Case {
                rng: Rng::new(self.seed, name, idx),
                idx,
                thorough: self.thorough,
                stream: name,
                acc,
                failed: 0,
                verbose,
            };
            c.acc.evals += 1;
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
            if r.is_err() {
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                c.fail("unexpected-panic", format!("case panicked: {m}"));
            }
        };
        self.names.lock().unwrap().push(name.to_string());
        if let Some((s, k)) = &self.replay {
            if s == name {
                self.replayed.fetch_add(1, SeqCst);
                one(*k, &mut self.acc.lock().unwrap(), true);
            }
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicU64::new(0);
        let threads = self.threads.min(n.max(1) as usize).max(1);
        let chunk = (n / (threads as u64 * 16)).clamp(1, 64);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (next, stop, done, one, this) = (&next, &stop, &done, &one, self);
                let b = std::thread::Builder::new().stack_size(16 << 20);
                b.spawn_scoped(sc, move || {
                    let mut acc = Acc::default();
                    loop {
                        let i0 = next.fetch_add(chunk, SeqCst);
                        if i0 >= n || stop.load(SeqCst) {
                            break;
                        }
                        if this.start.elapsed().as_secs_f64() > this.budget {
                            this.truncated.store(true, SeqCst);
                            break;
                        }
                        for idx in i0..(i0 + chunk).min(n) {
                            if let Some(fh) = &this.inflight {
                                let mut b = [0u8; 24];
                                b[..8].copy_from_slice(&1u64.to_le_bytes());
                                b[8..16].copy_from_slice(&no.to_le_bytes());
                                b[16..].copy_from_slice(&idx.to_le_bytes());
                                let _ = fh.write_at(&b, t as u64 * 24);
                            }
                            one(idx, &mut acc, false);
                            done.fetch_add(1, SeqCst);
                        }
                        if acc.violations.len() > 30 {
                            stop.store(true, SeqCst);
                            break;
                        }
                    }
                    if let Some(fh) = &this.inflight {
                        let _ = fh.write_at(&[0u8; 8], t as u64 * 24);
                    }
                    let mut g = this.acc.lock().unwrap();
                    g.evals += acc.evals;
                    g.events += acc.events;
                    if g.keys.len() < 8_000_000 {
                        g.keys.extend(acc.keys);
                    }
                    for (k, v) in acc.classes {
                        *g.classes.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in acc.maxerr {
                        let e = g.maxerr.entry(k).or_insert(0.0);
                        if v > *e || v.is_nan() {
                            *e = v
                        }
                    }
                    g.samples.extend(acc.samples);
                    g.violations.extend(acc.violations);
                })
                .unwrap();
            }
        });
        self.streams.lock().unwrap().push((name.to_string(), n, done.load(SeqCst), t0.elapsed().as_secs_f64()));
    }
    pub fn note(&self, cls: &str, n: u64) {
        *self.acc.lock().unwrap().classes.entry(cls.to_string()).or_insert(0) += n;
    }
    pub fn finish(self) -> ! {
        let mut a = self.acc.into_inner().unwrap();
        a.samples.sort();
        a.violations.sort_by(|x, y| (x.stream.as_str(), x.idx).cmp(&(y.stream.as_str(), y.idx)));
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"prop\":{},\"variant\":{},\"seed\":{},\"evaluations\":{},\"events\":{},\"distinct\":{},\"truncated\":{},\"replayed\":{},\"wall_s\":{:.3},",
            json_str(&self.prop),
            json_str(&self.variant),
            self.seed,
            a.evals,
            a.events,
            a.keys.len(),
            self.truncated.load(SeqCst),
            self.replayed.load(SeqCst),
            self.start.elapsed().as_secs_f64()
        );
        let names: Vec<String> = self.names.lock().unwrap().iter().map(|n| json_str(n)).collect();
        let _ = write!(o, "\"names\":[{}],", names.join(","));
        o.push_str("\"streams\":[");
        for (i, (n, w, d, s)) in self.streams.lock().unwrap().iter().enumerate() {
            let _ = write!(o, "{}{{\"name\":{},\"planned\":{},\"done\":{},\"wall_s\":{:.2}}}", if i > 0 { "," } else { "" }, json_str(n), w, d, s);
        }
        o.push_str("],\"classes\":{");
        for (i, (k, v)) in a.classes.iter().enumerate() {
            let _ = write!(o, "{}{}:{}", if i > 0 { "," } else { "" }, json_str(k), v);
        }
        o.push_str("},\"ratios\":{");
        for (i, (k, v)) in a.maxerr.iter().enumerate() {
            let _ = write!(o, "{}{}:\"{:.3e}\"", if i > 0 { "," } else { "" }, json_str(k), v);
        }
        o.push_str("},\"samples\":[");
        for (i, s) in a.samples.iter().take(16).enumerate() {
            let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, json_str(s));
        }
        o.push_str("],\"violations\":[");
        for (i, v) in a.violations.iter().take(200).enumerate() {
            let _ = write!(
                o,
                "{}{{\"stream\":{},\"idx\":{},\"sig\":{},\"detail\":{}}}",
                if i > 0 { "," } else { "" },
                json_str(&v.stream),
                v.idx,
                json_str(&v.sig),
                json_str(&v.detail)
            );
        }
        o.push_str("]}");
        match &self.out {
            Some(p) => std::fs::write(p, o).unwrap(),
            None => {
                if a.violations.is_empty() {
                    println!("{o}")
                } else {
                    println!("{}", o.split("\"violations\"").next().unwrap());
                    let mut seen = BTreeMap::new();
                    for v in &a.violations {
                        *seen.entry(v.sig.clone()).or_insert(0) += 1;
                    }
                    println!("sigs {seen:?}");
                    for v in a.violations.iter().take(400) {
                        println!("VIOL {}:{} [{}] {}", v.stream, v.idx, v.sig, v.detail);
                    }
                    println!("{} violations", a.violations.len());
                }
            }
        }
        std::process::exit(if a.violations.is_empty() { 0 } else { 3 })
    }
}
/// content hash of a case
pub struct H(pub u64);
impl Default for H {
    fn default() -> Self {
        H(0xcbf29ce484222325)
    }
}
impl H {
    pub fn u(mut self, v: u64) -> H {
        self.0 = fnv(&v.to_le_bytes(), self.0);
        self
    }
    pub fn fs<'a>(mut self, v: impl IntoIterator<Item = &'a f64>) -> H {
        for x in v {
            self.0 = fnv(&x.to_bits().to_le_bytes(), self.0);
        }
        self
    }
    pub fn is<'a>(mut self, v: impl IntoIterator<Item = &'a i64>) -> H {
        for x in v {
            self.0 = fnv(&x.to_le_bytes(), self.0);
        }
        self
    }
    pub fn s(mut self, v: &str) -> H {
        self.0 = fnv(v.as_bytes(), self.0);
        self
    }
}
