//! C27: what the plotting helper does to the interpreter. Monitor: this program, linked as `python` in scratch
//! directories, records what it is given and misbehaves on request; post_c27.py then runs every recorded script.
use harness::*;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

const MODES: [&str; 15] = [
    "record", "slow", "late", "exit-early", "exit-code", "close-input", "half", "killed", "killed-late", "noisy", "signals", "stopped", "missing", "not-executable",
    "directory",
];
extern "C" fn noop(_: i32) {}
extern "C" {
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn getpid() -> i32;
    fn signal(sig: i32, handler: extern "C" fn(i32)) -> usize;
    fn siginterrupt(sig: i32, flag: i32) -> i32;
    fn pthread_self() -> usize;
    fn pthread_kill(thread: usize, sig: i32) -> i32;
}

/// the stand-in interpreter
fn interpreter() -> ! {
    let out = PathBuf::from(std::env::var("C27_OUT").unwrap());
    let mode = std::env::var("C27_MODE").unwrap();
    let stuck = out.with_extension("stuck");
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(12));
        let _ = std::fs::write(stuck, "12 s");
        std::process::exit(9);
    });
    // every start is recorded
    let mut starts = std::fs::OpenOptions::new().create(true).append(true).open(out.with_extension("starts")).unwrap();
    starts.write_all(b"s").unwrap();
    let done = |code: i32| -> ! {
        std::fs::write(out.with_extension("done"), "x").unwrap();
        std::process::exit(code)
    };
    let args: Vec<String> = std::env::args().skip(1).collect();
    let script = || -> Vec<u8> {
        let mut b = vec![];
        if let Some(k) = args.iter().position(|a| a == "-c") {
            b = args.get(k + 1).map(|s| s.clone().into_bytes()).unwrap_or_default();
        } else if let Some(f) = args.iter().find(|a| !a.starts_with('-')) {
            b = std::fs::read(f).unwrap_or_default();
        } else {
            std::io::stdin().lock().read_to_end(&mut b).unwrap();
        }
        b
    };
    match mode.as_str() {
        "slow" | "signals" => {
            let mut b = vec![];
            let mut buf = [0u8; 3000];
            let mut i = std::io::stdin().lock();
            let mut k = 0;
            while let Ok(n) = i.read(&mut buf) {
                if n == 0 {
                    break;
                }
                b.extend_from_slice(&buf[..n]);
                k += 1;
                if k < 20 {
                    std::thread::sleep(Duration::from_millis(1));
                }
            }
            std::fs::write(&out, b).unwrap();
        }
        "stopped" => {
            let b = script();
            std::fs::write(out.with_extension("pid"), unsafe { getpid() }.to_string()).unwrap();
            unsafe { kill(getpid(), 19) };
            std::fs::write(&out, b).unwrap();
        }
        "late" => {
            let b = script();
            std::thread::sleep(Duration::from_millis(30));
            std::fs::write(&out, b).unwrap();
        }
        "exit-early" => done(0),
        "exit-code" => {
            std::fs::write(&out, script()).unwrap();
            done(3)
        }
        "close-input" => {
            unsafe { close(0) };
            std::thread::sleep(Duration::from_millis(30));
        }
        "half" => {
            let mut b = [0u8; 50];
            let _ = std::io::stdin().lock().read(&mut b);
            unsafe { close(0) };
            std::thread::sleep(Duration::from_millis(20));
            done(1)
        }
        "killed" | "killed-late" => {
            if mode == "killed-late" {
                std::fs::write(&out, script()).unwrap();
                std::thread::sleep(Duration::from_millis(20));
            }
            std::fs::write(out.with_extension("done"), "x").unwrap();
            unsafe { kill(getpid(), 9) };
        }
        "noisy" => {
            let blob = vec![b'n'; 300_000];
            let _ = std::io::stdout().write_all(&blob);
            let _ = std::io::stderr().write_all(&blob);
            std::fs::write(&out, script()).unwrap();
            let _ = std::io::stdout().write_all(&blob);
            let _ = std::io::stderr().write_all(&blob);
        }
        _ => std::fs::write(&out, script()).unwrap(),
    }
    done(0)
}
fn value(r: &mut Rng, style: usize) -> f32 {
    match style {
        0 => r.normal() as f32,
        1 => f32::from_bits(r.u64() as u32),
        2 => r.range(-1000, 1000) as f32,
        3 => *[0.0, -0.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, -1e-45, f32::EPSILON, 1.0, -1.0, 16777216.0, 1e16, 1e-5, 0.1]
            .get(r.below(14))
            .unwrap(),
        4 => r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -f32::NAN]),
        _ => {
            if r.one_in(6) {
                value(r, 4)
            } else {
                let s = r.below(4);
                value(r, s)
            }
        }
    }
}
fn case(c: &mut Case, dir: &Path, log: &mut std::fs::File) {
    let mode = MODES[c.idx as usize % MODES.len()];
    let k = match c.rng.below(6) {
        0 => 0,
        1 => 1,
        _ => c.rng.urange(1, 6),
    };
    let style = c.rng.below(6);
    let big = c.rng.one_in(4) || mode == "signals";
    let xs: Vec<Vec<f32>> = (0..k)
        .map(|_| {
            let n = match c.rng.below(8) {
                0 => 0,
                1 => 1,
                2 if big && c.rng.one_in(6) => c.rng.urange(60_000, 250_000),
                2 if big => c.rng.urange(5_000, 60_000),
                3 if big => c.rng.urange(500, 8_000),
                _ => c.rng.urange(1, 40),
            };
            (0..n).map(|_| value(&mut c.rng, style)).collect()
        })
        .collect();
    let mut h = H::default().u(c.idx % MODES.len() as u64);
    for x in &xs {
        h = h.fs(&x.iter().map(|v| *v as f64).collect::<Vec<_>>());
    }
    c.key(h.0);
    c.sample(|| format!("interpreter {mode}, {k} series of lengths {:?}", xs.iter().map(|x| x.len()).collect::<Vec<_>>()));
    c.cls(format!("interpreter {mode}"));
    c.cls(format!("values style {style}"));
    let out = dir.join("rec");
    for e in ["", "done", "stuck", "starts", "pid"] {
        let _ = std::fs::remove_file(if e.is_empty() { out.clone() } else { out.with_extension(e) });
    }
    std::env::set_var("C27_OUT", &out);
    std::env::set_var("C27_MODE", mode);
    std::env::set_var("PATH", dir.join(if matches!(mode, "missing" | "not-executable" | "directory") { mode } else { "bin" }));
    let fds = || std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0);
    let f0 = fds();
    let t0 = Instant::now();
    // signals that arrive at the calling thread, and an interpreter that is stopped and continued
    let over = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let helper = matches!(mode, "signals" | "stopped").then(|| {
        let (over, me, pidf, sig) = (over.clone(), unsafe { pthread_self() }, out.with_extension("pid"), mode == "signals");
        std::thread::spawn(move || {
            while !over.load(std::sync::atomic::Ordering::SeqCst) {
                std::thread::sleep(Duration::from_micros(if sig { 300 } else { 15_000 }));
                if sig {
                    unsafe { pthread_kill(me, 10) };
                } else if let Some(p) = std::fs::read_to_string(&pidf).ok().and_then(|s| s.parse().ok()) {
                    unsafe { kill(p, 18) };
                }
            }
        })
    });
    let r = call(|| sci_rs::plot::python_plot(xs.iter().map(|x| &x[..]).collect()));
    let wall = t0.elapsed();
    over.store(true, std::sync::atomic::Ordering::SeqCst);
    if let Some(h) = helper {
        let _ = h.join();
    }
    c.ev(1);
    if let Err(m) = r {
        c.fail(format!("panic:{mode}"), format!("panicked: {m}"));
    }
    // every child has been waited for
    let mut st = 0;
    let w = unsafe { waitpid(-1, &mut st, 1) };
    c.ev(1);
    if w >= 0 {
        c.fail("not-waited", format!("interpreter {mode}: the process {} after the call returned", if w == 0 { "is still running" } else { "was left as a zombie" }));
        while w == 0 && unsafe { waitpid(-1, &mut st, 0) } > 0 {}
    }
    if fds() != f0 {
        c.fail("fd-leak", format!("{} file descriptors before, {} after", f0, fds()));
    }
    if out.with_extension("stuck").exists() {
        c.fail(format!("stuck:{mode}"), format!("caller and interpreter waited for each other (12 s); call took {wall:?}"));
    }
    let run = !matches!(mode, "missing" | "not-executable" | "directory");
    if run {
        let starts = std::fs::read(out.with_extension("starts")).unwrap_or_default().len();
        c.ev(1);
        if starts != 1 {
            c.fail("starts", format!("the interpreter was started {starts} times"));
        }
        if !out.with_extension("done").exists() {
            c.fail("not-waited", format!("interpreter {mode}: the call returned before the interpreter was done"));
        }
    }
    if matches!(mode, "record" | "slow" | "late" | "exit-code" | "killed-late" | "noisy" | "signals" | "stopped") {
        c.ev(1);
        let s = std::fs::read(&out).unwrap_or_default();
        let hex = |b: &[u8]| b.iter().map(|b| format!("{b:02x}")).collect::<String>();
        let bits: Vec<String> = xs.iter().map(|x| format!("[{}]", x.iter().map(|v| v.to_bits().to_string()).collect::<Vec<_>>().join(","))).collect();
        writeln!(log, "{{\"i\":{},\"mode\":\"{mode}\",\"bits\":[{}],\"script\":\"{}\"}}", c.idx, bits.join(","), hex(&s)).unwrap();
    }
}
fn main() {
    if std::env::args().next().is_some_and(|a| a.ends_with("python")) {
        interpreter();
    }
    let a: Vec<String> = std::env::args().collect();
    let logf = a.iter().position(|x| x == "--log").map(|i| a[i + 1].clone()).unwrap_or("/dev/null".into());
    let r = Runner::new("C27");
    let dir = std::env::current_dir().unwrap().join(format!("c27-scratch-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    for d in ["bin", "missing", "not-executable", "directory/python"] {
        std::fs::create_dir_all(dir.join(d)).unwrap();
    }
    std::os::unix::fs::symlink(std::env::current_exe().unwrap(), dir.join("bin/python")).unwrap();
    std::fs::write(dir.join("not-executable/python"), "#!/bin/sh\nexit 0\n").unwrap();
    unsafe {
        signal(10, noop);
        siginterrupt(10, 1);
    }
    let log = std::sync::Mutex::new(std::fs::File::create(logf).unwrap());
    r.stream("plots", 600, 20_000, |c| case(c, &dir, &mut log.lock().unwrap_or_else(|e| e.into_inner())));
    let _ = std::fs::remove_dir_all(&dir);
    r.finish()
}
