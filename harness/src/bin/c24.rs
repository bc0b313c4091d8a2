//! C24: results depend only on arguments — repeated, reordered and concurrent executions, bitwise.
use harness::ops::*;
use harness::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Barrier, Mutex};

const MAXT: usize = 64;
static RUNNING: [AtomicUsize; MAXT] = [const { AtomicUsize::new(usize::MAX) }; MAXT];
static SLOT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static ME: usize = SLOT.fetch_add(1, SeqCst) % MAXT;
    static LAST: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
#[cfg(all(target_arch = "x86_64", not(miri)))]
fn fpenv() -> u32 {
    let mut m: u32 = 0;
    // SAFETY: stores the control/status register to a local
    unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut m, options(nostack)) };
    m & 0xffc0
}
#[cfg(not(all(target_arch = "x86_64", not(miri))))]
fn fpenv() -> u32 {
    0
}
struct Pool {
    ops: Vec<OpFn>,
    refs: Vec<(usize, u64, u64, Vec<u64>)>, // op, argument seed, argument hash, result bits
    seed: u64,
}
/// argument set k of the pool: groups of eight siblings that differ in one draw (one argument) or share a prefix,
/// so that anything remembered under a partial key would be found again for different arguments
fn arg_rng(seed: u64, op: usize, k: u64) -> Rng {
    let id = |k: u64| (op as u64) << 32 | k;
    let base = Rng::new(seed, "pool", id(k / 8));
    if k % 8 == 0 {
        return base;
    }
    let mut m = Rng::new(seed, "sibling", id(k));
    let at = if m.bool() { 1 + m.below(14) as u64 } else { 1 + m.below(120) as u64 };
    if k % 8 <= 5 {
        base.mutated(at, m.u64())
    } else {
        base.switched(at, &m)
    }
}
struct Seen {
    order: Mutex<HashSet<(usize, usize)>>,
    overlap: Mutex<HashSet<(usize, usize)>>,
    calls: AtomicU64,
}
fn run(p: &Pool, op: usize, k: u64, seen: &Seen) -> Rec {
    let mut r = arg_rng(p.seed, op, k);
    let me = ME.with(|m| *m);
    let last = LAST.with(|l| l.replace(op));
    RUNNING[me].store(op, Relaxed);
    let rec = (p.ops[op])(&mut r);
    let n = seen.calls.fetch_add(1, Relaxed);
    let mut ov = vec![];
    for (t, q) in RUNNING.iter().enumerate() {
        let o = q.load(Relaxed);
        if t != me && o != usize::MAX {
            ov.push((op.min(o), op.max(o)));
        }
    }
    RUNNING[me].store(usize::MAX, Relaxed);
    if n % 4 == 0 {
        if last != usize::MAX {
            seen.order.lock().unwrap().insert((last, op));
        }
        seen.overlap.lock().unwrap().extend(ov);
    }
    rec
}
fn compare(c: &mut Case, p: &Pool, i: usize, rec: &Rec, what: &str) {
    let (op, k, h, bits) = &p.refs[i];
    let _ = op;
    c.ev(bits.len());
    if rec.arg_hash() != *h {
        c.fail("harness", "argument generation is not deterministic");
        return;
    }
    let got = rec.bits();
    if &got != bits {
        let at = got.iter().zip(bits).position(|(a, b)| a != b);
        c.fail(
            format!("impure:{}", rec.op),
            format!("{what}: {} (argument set {k}) returned {} words differing first at {at:?} from the first evaluation ({} words); {}", rec.op, got.len(), bits.len(), rec.json(*k).chars().take(1200).collect::<String>()),
        );
    }
}
fn main() {
    let r = Runner::new("C24");
    let ops = registry(false, true);
    let nops = ops.len();
    let slow = cfg!(miri) || r.variant == "tsan";
    let per = if cfg!(miri) { 8 } else if r.variant == "tsan" { 64 } else { 320 };
    let seen = Seen { order: Mutex::new(HashSet::new()), overlap: Mutex::new(HashSet::new()), calls: AtomicU64::new(0) };
    let mut p = Pool { ops, refs: vec![], seed: r.seed };
    let env0 = fpenv();
    // first evaluation, in order, on one thread
    for op in 0..nops {
        for k in 0..per {
            let rec = run(&p, op, k, &seen);
            p.refs.push((op, k, rec.arg_hash(), rec.bits()));
        }
    }
    let p = &p;
    let seen = &seen;
    let n = p.refs.len();
    // the same calls in the opposite order
    r.exhaust("reversed", n as u64, |c| {
        let i = n - 1 - c.idx as usize;
        let (op, k, h, _) = &p.refs[i];
        c.key(H::default().u(*h).0);
        let rec = run(p, *op, *k, seen);
        c.cls(format!("{} {}", rec.op, if rec.out.is_ok() { "ok" } else { "rejected" }));
        compare(c, p, i, &rec, "in reversed order");
        let rec = run(p, *op, *k, seen);
        compare(c, p, i, &rec, "immediately repeated");
        if c.want_sample() {
            c.sample(|| rec.json(*k));
        }
        if fpenv() != env0 {
            c.fail("fp-environment", format!("{} changed the floating-point control register", rec.op));
        }
    });
    // histories: biased towards few operations and few argument sets so that any memo, cache or leftover is hit again
    r.stream("history", if slow { 5_000 } else { 100_000 }, 1_000_000, |c| {
        let few: Vec<usize> = (0..c.rng.urange(1, 6)).map(|_| c.rng.below(nops)).collect();
        let len = c.rng.urange(10, 60);
        let width = c.rng.pick(&[2, 8, 8, 16, per as usize]).min(per as usize);
        let off = c.rng.below(per as usize / 8 + 1) * 8;
        let mut h = H::default();
        for step in 0..len {
            let op = c.rng.pick(&few);
            let i = op * per as usize + (off + c.rng.below(width)) % per as usize;
            h = h.u(i as u64);
            let rec = run(p, op, p.refs[i].1, seen);
            compare(c, p, i, &rec, &format!("step {step} of a history over operations {few:?}"));
        }
        if fpenv() != env0 {
            c.fail("fp-environment", "a history changed the floating-point control register");
        }
        c.key(h.0);
        c.cls(format!("history over {} operations", few.len()));
    });
    // a new thread starts from nothing
    r.stream("fresh-thread", if slow { 1000 } else { 10_000 }, 200_000, |c| {
        let i = c.rng.below(n);
        let (op, k, h, _) = &p.refs[i];
        c.key(*h);
        let rec = std::thread::scope(|s| s.spawn(|| run(p, *op, *k, seen)).join()).unwrap();
        compare(c, p, i, &rec, "on a fresh thread");
        c.cls("fresh thread");
    });
    // storms: all threads released together on the same operation (same or different arguments)
    let nt = if cfg!(miri) { 2 } else { 6 };
    let storm = |c: &mut Case| {
        let op = (c.idx as usize) % nops;
        let same = c.rng.bool();
        let other = c.rng.below(nops);
        let mixed = c.rng.one_in(3);
        let base = c.rng.below(per as usize);
        let reps = c.rng.urange(1, 4);
        let bar = Barrier::new(nt);
        let out: Vec<Vec<(usize, Rec)>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..nt)
                .map(|t| {
                    let bar = &bar;
                    s.spawn(move || {
                        let mut v = vec![];
                        for q in 0..reps {
                            let o = if mixed && t % 2 == 1 { other } else { op };
                            let k = if same { base } else { (base + t + q) % per as usize };
                            let i = o * per as usize + k;
                            bar.wait();
                            v.push((i, run(p, o, p.refs[i].1, seen)));
                        }
                        v
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut h = H::default();
        for (i, rec) in out.iter().flatten() {
            h = h.u(*i as u64);
            compare(c, p, *i, rec, "under concurrent load");
        }
        c.key(h.0);
        c.cls(format!("storm {} {}", if same { "same arguments" } else { "different arguments" }, if mixed { "mixed operations" } else { "one operation" }));
    };
    r.stream("storm", if cfg!(miri) { 2 } else if slow { 20 * nops as u64 } else { 100 * nops as u64 }, 400 * nops as u64, storm);
    r.note("distinct operation orders (previous, next) observed", seen.order.lock().unwrap().len() as u64);
    r.note("distinct concurrently overlapping operation pairs observed", seen.overlap.lock().unwrap().len() as u64);
    r.note("operation executions", seen.calls.load(SeqCst));
    r.finish()
}
