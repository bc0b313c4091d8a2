//! C25 / C28: record calls of the public operations (arguments and results) for offline comparison.
use harness::ops::*;
use harness::*;
use std::io::Write;
use std::sync::Mutex;

fn main() {
    let r = Runner::new("C25");
    let a: Vec<String> = std::env::args().collect();
    let log = a.iter().position(|x| x == "--log").map(|i| a[i + 1].clone());
    let shared = !a.iter().any(|x| x == "--all");
    let file = log.map(|p| Mutex::new(std::io::BufWriter::with_capacity(1 << 20, std::fs::File::create(p).unwrap())));
    let ops = registry(shared, shared);
    let nops = ops.len() as u64;
    let (ops, file) = (&ops, &file);
    let body = |c: &mut Case| {
        let op = (c.idx % nops) as usize;
        let rec = (ops[op])(&mut c.rng);
        c.key(rec.arg_hash());
        c.ev(rec.bits().len());
        c.cls(format!("{} {} {}", rec.op, if rec.single { "f32" } else { "f64" }, if rec.out.is_ok() { "ok" } else { "rejected" }));
        let j = rec.json(c.idx);
        if c.want_sample() {
            c.sample(|| j.clone());
        }
        if let Some(f) = file {
            let mut f = f.lock().unwrap();
            f.write_all(j.as_bytes()).unwrap();
            f.write_all(b"\n").unwrap();
        }
    };
    r.stream("calls", nops * 800, nops * 20_000, body);
    if let Some(f) = file {
        f.lock().unwrap().flush().unwrap();
    }
    r.finish()
}
