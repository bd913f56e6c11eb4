//! Worker side: executes runs. `worker` runs a slice of the seeds, `try` one tape.
use crate::cx::{Cx, Viol, R};
use crate::tape::{seed_of, Tape};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering};

extern "C" {
    fn setrlimit(r: i32, v: *const [u64; 2]) -> i32;
    fn syscall(n: i64, ...) -> i64;
}

fn find(prop: &str) -> Option<fn(&mut Cx) -> R> {
    crate::PROPS.iter().find(|p| p.0 == prop).map(|p| p.1)
}

pub struct Outcome {
    pub cx: Cx,
    pub res: Result<R, String>,
}

/// One run on a fresh thread: nothing thread-local survives from one run to the next.
pub fn run_one(prop: &str, tape: Tape, tracing: bool) -> Outcome {
    let f = find(prop).expect("unknown property");
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let mut cx = Cx::new(tape, tracing);
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut cx)));
            cx.finish();
            let res = res.map_err(|e| {
                e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into())
            });
            Outcome { cx, res }
        })
        .expect("thread")
        .join()
        .expect("run thread")
}

fn cpu_ns() -> u64 {
    let mut t = [0i64; 2];
    unsafe { syscall(228, 2i64, &mut t as *mut [i64; 2]) };
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}

static RUN_START: AtomicU64 = AtomicU64::new(0);

fn watchdog(limit_s: u64) {
    RUN_START.store(cpu_ns(), Ordering::SeqCst);
    std::thread::spawn(move || {
        let mut seen = (0, 0);
        let mut still = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let s = RUN_START.load(Ordering::SeqCst);
            if s != 0 && cpu_ns().saturating_sub(s) > limit_s * 1_000_000_000 {
                eprintln!("SIM-HANG: a run used more than {} s of CPU time", limit_s);
                unsafe { syscall(231, 97i64) };
            }
            // a deadlock: no thread could run for a long time, and none made a call
            let now = (s, crate::sim::CALLS.load(Ordering::SeqCst));
            still = if s != 0 && now == seen { still + 1 } else { 0 };
            seen = now;
            if still > 25 && !all_asleep() {
                still = 25;
            }
            if still > 75 {
                eprintln!("SIM-HANG: all threads of a run wait for each other");
                unsafe { syscall(231, 97i64) };
            }
        }
    });
}

/// Whether no other thread of this process could run.
fn all_asleep() -> bool {
    let me = unsafe { syscall(186) };
    let tasks = match std::fs::read_dir("/proc/self/task") {
        Ok(t) => t,
        Err(_) => return false,
    };
    for t in tasks.flatten() {
        if t.file_name().to_string_lossy().parse::<i64>().ok() == Some(me) {
            continue;
        }
        let state = std::fs::read_to_string(t.path().join("stat")).ok().and_then(|s| s.rsplit(')').next().and_then(|r| r.trim().chars().next()));
        if state != Some('S') {
            return false;
        }
    }
    true
}

fn limits() {
    // memory: a run that asks for absurd amounts fails instead of taking the machine down
    unsafe { setrlimit(9, &[6 << 30, 6 << 30]) };
    // no core files
    unsafe { setrlimit(4, &[0, 0]) };
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn viol_json(prop: &str, run: u64, v: &Viol, tape: &[u64]) -> String {
    format!(
        "{{\"property\":\"{}\",\"run\":{},\"class\":\"{}\",\"message\":\"{}\",\"tape\":[{}]}}",
        prop,
        run,
        esc(&v.class),
        esc(&v.msg),
        tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
    )
}

/// worker PROP SEED FIRST STRIDE COUNT SECONDS DIR SLOT
fn worker(a: &[String]) -> i32 {
    let prop = a[0].as_str();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, first, stride, count, secs) = (n(1), n(2), n(3), n(4), n(5));
    let (dir, slot) = (&a[6], n(7));
    let known: Vec<String> = a.get(8).map(|s| s.split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default();
    let progress = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(format!("{}/progress.{}", dir, slot)).unwrap();
    let bound = std::fs::OpenOptions::new().read(true).write(true).open(format!("{}/bound", dir)).unwrap();
    let start = std::time::Instant::now();
    let mut runs = 0u64;
    let mut evals = 0u64;
    let mut nontrivial = 0u64;
    let (mut steps, mut ns, mut sw, mut cr, mut rs) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut fired: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: Vec<u8> = Vec::new();
    let mut samples: Vec<String> = Vec::new();
    let mut rechecked = 0u64;
    let mut mismatched = 0u64;
    let mut knowns: BTreeMap<String, u64> = BTreeMap::new();
    let mut code = 0;
    for i in 0..count {
        let run = first + i * stride;
        if start.elapsed().as_secs() >= secs {
            break;
        }
        let mut b = [0u8; 8];
        if bound.read_at(&mut b, 0).unwrap_or(0) == 8 && u64::from_le_bytes(b) < run {
            break;
        }
        let _ = progress.write_at(format!("{:<20}\n", run).as_bytes(), 0);
        RUN_START.store(cpu_ns(), Ordering::SeqCst);
        let s = seed_of(seed, prop, run);
        let o = run_one(prop, Tape::search(s), false);
        runs += 1;
        match o.res {
            Err(m) => {
                eprintln!("harness error in run {}: {}", run, m);
                let _ = std::fs::write(format!("{}/harness.{}", dir, slot), format!("run {}: {}\n", run, m));
                code = 2;
                break;
            }
            Ok(Err(v)) if known.contains(&v.class) => {
                *knowns.entry(v.class.clone()).or_insert(0) += 1;
            }
            Ok(Err(v)) => {
                let _ = std::fs::write(format!("{}/viol.{}", dir, slot), viol_json(prop, run, &v, &o.cx.t.used));
                // others need not go beyond this run
                let mut b = [0u8; 8];
                let cur = if bound.read_at(&mut b, 0).unwrap_or(0) == 8 { u64::from_le_bytes(b) } else { u64::MAX };
                if run < cur {
                    let _ = bound.write_at(&run.to_le_bytes(), 0);
                }
                code = 1;
                break;
            }
            Ok(Ok(())) => {}
        }
        let c = &o.cx;
        evals += c.evals;
        steps += c.steps;
        ns += c.sim_ns;
        sw += c.switches;
        cr += c.crashes;
        rs += c.restarts;
        for (k, v) in &c.fired {
            *fired.entry(k.clone()).or_insert(0) += v;
        }
        if c.nontrivial {
            nontrivial += 1;
            if samples.len() < 3 && !c.sample.is_empty() {
                samples.push(format!("run {}: {}", run, c.sample));
            }
        }
        hashes.extend_from_slice(&c.log.0.to_le_bytes());
        hashes.extend_from_slice(&c.shape.0.to_le_bytes());
        hashes.push(c.nontrivial as u8);
        // determinism: the same tape must give the same execution
        if i % 101 == 7 {
            let o2 = run_one(prop, Tape::replay(c.t.used.clone()), false);
            rechecked += 1;
            if o2.cx.log.0 != c.log.0 {
                // the code under test keeps state between calls; reported with the evidence
                mismatched += 1;
            }
        }
    }
    RUN_START.store(0, Ordering::SeqCst);
    let _ = std::fs::write(format!("{}/hashes.{}", dir, slot), &hashes);
    let js = |v: &[String]| v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",");
    let jm = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(",");
    let out = format!(
        "{{\"runs\":{},\"evals\":{},\"nontrivial\":{},\"steps\":{},\"sim_ns\":{},\"switches\":{},\"crashes\":{},\"restarts\":{},\"rechecked\":{},\"mismatched\":{},\"fired\":{{{}}},\"known\":{{{}}},\"samples\":[{}]}}",
        runs, evals, nontrivial, steps, ns, sw, cr, rs, rechecked, mismatched, jm(&fired), jm(&knowns), js(&samples)
    );
    let _ = std::fs::write(format!("{}/stats.{}", dir, slot), out);
    code
}

/// try PROP [trace]: a tape on standard input, the outcome on standard output.
fn try_one(a: &[String]) -> i32 {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let tape: Vec<u64> = s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(0)).collect();
    let tracing = a.get(1).map_or(false, |x| x == "trace");
    print_outcome(run_one(&a[0], Tape::replay(tape), tracing), tracing)
}

fn print_outcome(o: Outcome, tracing: bool) -> i32 {
    let mut out = std::io::stdout().lock();
    if tracing {
        for l in &o.cx.trace {
            let _ = writeln!(out, "T {}", l);
        }
    }
    let _ = writeln!(out, "U {}", o.cx.t.used.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    let _ = writeln!(out, "H {:016x}", o.cx.log.0);
    match o.res {
        Err(m) => {
            let _ = writeln!(out, "E {}", m);
            2
        }
        Ok(Err(v)) => {
            let _ = writeln!(out, "V {}\t{}", v.class, v.msg.replace('\n', " "));
            1
        }
        Ok(Ok(())) => {
            let _ = writeln!(out, "OK");
            0
        }
    }
}

/// seq PROP SEED [trace]: executes the runs named on standard input one after the other in this process; the outcome
/// is that of the last. For violations that need the process's history.
fn seq(a: &[String]) -> i32 {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let runs: Vec<u64> = s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(0)).collect();
    let seed = a[1].parse().unwrap();
    let tracing = a.get(2).map_or(false, |x| x == "trace");
    let mut code = 0;
    for (i, &r) in runs.iter().enumerate() {
        let last = i + 1 == runs.len();
        RUN_START.store(cpu_ns(), Ordering::SeqCst);
        let o = run_one(&a[0], Tape::search(seed_of(seed, &a[0], r)), tracing && last);
        if last {
            code = print_outcome(o, tracing);
        }
    }
    code
}

/// tape PROP SEED RUN: the choices of a run (for runs that took the process down).
fn tape_of(a: &[String]) -> i32 {
    // the tape is written as it is drawn, so that it survives the end of the process
    let s = seed_of(a[1].parse().unwrap(), &a[0], a[2].parse().unwrap());
    let mut t = Tape::search(s);
    t.mirror(&a[3]);
    let o = run_one(&a[0], t, false);
    match o.res {
        Ok(Err(_)) => 1,
        Ok(Ok(())) => 0,
        Err(_) => 2,
    }
}

pub fn main() -> i32 {
    crate::sim::install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("worker") => {
            limits();
            watchdog(40);
            worker(&a[1..])
        }
        Some("try") => {
            limits();
            watchdog(20);
            try_one(&a[1..])
        }
        Some("seq") => {
            limits();
            watchdog(40);
            seq(&a[1..])
        }
        Some("tape") => {
            limits();
            watchdog(40);
            tape_of(&a[1..])
        }
        Some("list") => {
            for p in crate::PROPS {
                println!("{}", p.0);
            }
            0
        }
        _ => {
            eprintln!("usage: sim worker|try|tape|list ...");
            2
        }
    }
}
