// Cases, observations and verdicts; worker processes and their supervision.
use crate::rng::{hash_bytes, mix, Rng};
use crate::sut::{self, Out};
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- memory

// the sanitizer this harness is built with, if any
pub fn sanitizer() -> Option<String> {
    std::env::var("VH_SAN").ok().filter(|x| !x.is_empty())
}

fn stack() -> usize {
    // frames are several times larger with sanitizers
    if sanitizer().is_some() {
        128 << 20
    } else {
        8 << 20
    }
}

pub struct Counting;
pub static MEM: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

const EXIT_HANG: i32 = 77;
const EXIT_MEMORY: i32 = 78;

fn grow(n: usize) {
    let m = MEM.fetch_add(n, Ordering::Relaxed) + n;
    if m > PEAK.load(Ordering::Relaxed) {
        PEAK.store(m, Ordering::Relaxed);
    }
    if m > LIMIT.load(Ordering::Relaxed) {
        unsafe { libc::_exit(EXIT_MEMORY) }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        MEM.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            grow(n - l.size());
        } else {
            MEM.fetch_sub(l.size() - n, Ordering::Relaxed);
        }
        System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------- cases

// what makes a case end early
pub enum Stop {
    Violation(String),
    Harness(String),
}
pub type Res = Result<(), Stop>;

#[macro_export]
macro_rules! violated {
    ($($x:tt)*) => { return Err($crate::core::Stop::Violation(format!($($x)*))) };
}
#[macro_export]
macro_rules! harness {
    ($($x:tt)*) => { return Err($crate::core::Stop::Harness(format!($($x)*))) };
}

pub struct Ctx {
    pub thorough: bool,
    pub seed: u64,
    pub bins: PathBuf,    // folder of the binaries of the repository
    pub scratch: PathBuf, // folder for files of this worker
    pub docs: Vec<(String, Vec<u8>)>, // documents of the current case
    pub seen: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub case: u64,
}

impl Ctx {
    pub fn doc(&mut self, name: &str, b: &[u8]) {
        self.docs.push((name.to_string(), b.to_vec()));
    }
    pub fn saw(&mut self, what: &str) {
        self.saw_n(what, 1);
    }
    pub fn saw_n(&mut self, what: &str, n: u64) {
        match self.seen.get_mut(what) {
            Some(x) => *x += n,
            None => {
                self.seen.insert(what.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, what: &str, n: u64) {
        let k = format!("max {}", what);
        let x = self.seen.entry(k).or_insert(0);
        *x = (*x).max(n);
    }
    // a non-trivial case, identified by what it consists of
    pub fn nontrivial(&mut self, parts: &[&[u8]]) {
        let mut h = 7;
        for p in parts {
            h = mix(h, hash_bytes(p));
        }
        self.distinct.insert(h);
    }
    pub fn sample(&mut self, v: impl FnOnce() -> Value) {
        if self.samples.len() < 3 {
            let v = v();
            self.samples.push(v);
        }
    }
}

pub fn text(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.len() > 1500 {
        let mut t: String = s.chars().take(1400).collect();
        t.push_str(&format!("... ({} bytes)", b.len()));
        t
    } else {
        s.to_string()
    }
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub required: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub cases: fn(thorough: bool) -> u64,
    pub run: fn(&mut Ctx, &mut Rng, u64) -> Res,
    pub workers: usize,
}

// results of calls: a crash is a violation
pub fn ok<X>(what: &str, o: Out<X>) -> Result<Result<X, sut::ErrInfo>, Stop> {
    match o {
        Out::Ok(x) => Ok(Ok(x)),
        Out::Err(e) => Ok(Err(e)),
        Out::Crash(m) => Err(Stop::Violation(format!("{}: {}", what, m))),
    }
}

fn case_rng(id: &str, seed: u64, i: u64) -> Rng {
    Rng::new(mix(mix(seed, hash_bytes(id.as_bytes())), i))
}

fn run_case(c: &Check, ctx: &mut Ctx, i: u64) -> Res {
    ctx.docs.clear();
    ctx.case = i;
    let mut r = case_rng(c.id, ctx.seed, i);
    match catch_unwind(AssertUnwindSafe(|| (c.run)(ctx, &mut r, i))) {
        Ok(x) => x,
        Err(_) => Err(Stop::Harness(format!("the harness panicked in case {}: {}", i, sut::last_panic()))),
    }
}

// ---------------------------------------------------------------- workers

fn thread_cpu(clock: libc::clockid_t) -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(clock, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

// 0: index of the current case; 1: calls before the current one
fn status_file(p: &Path) -> *mut u64 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(p).unwrap();
    f.set_len(64).unwrap();
    unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            64,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        ) as *mut u64
    }
}

pub struct WorkerArgs {
    pub check: &'static Check,
    pub thorough: bool,
    pub seed: u64,
    pub from: u64,
    pub to: u64,
    pub step: u64,
    pub scratch: PathBuf,
    pub bins: PathBuf,
    pub cpu_limit: f64,
    pub deadline: f64,
}

pub fn worker(a: WorkerArgs) -> i32 {
    sut::install_hook();
    std::fs::create_dir_all(&a.scratch).unwrap();
    let status = status_file(&a.scratch.join("status")) as usize;
    let (tx, rx) = std::sync::mpsc::channel();
    let cpu_limit = a.cpu_limit;
    let t = std::thread::Builder::new()
        .stack_size(stack())
        .spawn(move || {
            let mut clock: libc::clockid_t = 0;
            unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
            tx.send(clock).unwrap();
            let status = status as *mut AtomicU64;
            let start = Instant::now();
            let mut ctx = Ctx {
                thorough: a.thorough,
                seed: a.seed,
                bins: a.bins.clone(),
                scratch: a.scratch.clone(),
                docs: vec![],
                seen: BTreeMap::new(),
                distinct: HashSet::new(),
                samples: vec![],
                case: 0,
            };
            let mut done = 0u64;
            let mut i = a.from;
            let mut stop = Value::Null;
            while i < a.to {
                if start.elapsed().as_secs_f64() > a.deadline {
                    break;
                }
                unsafe { (*status).store(i, Ordering::SeqCst) };
                LIMIT.store(MEM.load(Ordering::Relaxed) + (1500 << 20), Ordering::Relaxed);
                let r = run_case(a.check, &mut ctx, i);
                done += 1;
                match r {
                    Ok(()) => {}
                    Err(Stop::Violation(m)) => {
                        stop = json!({ "kind": "violation", "case": i, "what": m,
                            "docs": ctx.docs.iter().map(|(n, b)| json!([n, b])).collect::<Vec<_>>() });
                        break;
                    }
                    Err(Stop::Harness(m)) => {
                        stop = json!({ "kind": "harness", "case": i, "what": m,
                            "docs": ctx.docs.iter().map(|(n, b)| json!([n, b])).collect::<Vec<_>>() });
                        break;
                    }
                }
                i += a.step;
            }
            LIMIT.store(usize::MAX, Ordering::Relaxed);
            let hashes: Vec<u8> = ctx.distinct.iter().flat_map(|h| h.to_le_bytes()).collect();
            std::fs::write(a.scratch.join("hashes"), hashes).unwrap();
            ctx.max("CPU milliseconds of a call", sut::SLOWEST.load(Ordering::Relaxed));
            let out = json!({
                "done": done,
                "seen": ctx.seen,
                "samples": ctx.samples,
                "stop": stop,
                "calls": sut::CALLS.load(Ordering::Relaxed),
                "bytes": sut::BYTES.load(Ordering::Relaxed),
                "peak": PEAK.load(Ordering::Relaxed),
            });
            std::fs::write(a.scratch.join("result.json"), out.to_string()).unwrap();
        })
        .unwrap();
    let clock = rx.recv().unwrap();
    // watchdog: CPU time spent in one call, or in one case
    let mut case = u64::MAX;
    let mut calls = u64::MAX;
    let mut since_call = 0.0;
    while !t.is_finished() {
        std::thread::sleep(Duration::from_millis(if case == u64::MAX { 1 } else { 20 }));
        let now = thread_cpu(clock);
        let c = unsafe { (*(status as *mut AtomicU64)).load(Ordering::SeqCst) };
        let k = sut::CALLS.load(Ordering::Relaxed);
        if c != case || k != calls {
            case = c;
            calls = k;
            since_call = now;
        }
        if now - since_call > cpu_limit {
            let code = if sut::IN_SUT.load(Ordering::SeqCst) { EXIT_HANG } else { 79 };
            if t.is_finished() {
                break;
            }
            unsafe { libc::_exit(code) }
        }
    }
    match t.join() {
        Ok(()) => 0,
        Err(_) => {
            eprintln!("worker failed: {}", sut::last_panic());
            2
        }
    }
}

// one case, reported on standard output
pub fn one(c: &'static Check, thorough: bool, seed: u64, i: u64, verif: &Path, bins: &Path) -> i32 {
    sut::install_hook();
    let scratch = verif.join("build").join("scratch").join(format!("one-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let (s2, bins) = (scratch.clone(), bins.to_path_buf());
    let t = std::thread::Builder::new()
        .stack_size(stack())
        .spawn(move || {
            let mut ctx = Ctx {
                thorough,
                seed,
                bins,
                scratch: s2,
                docs: vec![],
                seen: BTreeMap::new(),
                distinct: HashSet::new(),
                samples: vec![],
                case: 0,
            };
            let t = Instant::now();
            let r = run_case(c, &mut ctx, i);
            for (n, b) in &ctx.docs {
                println!("--- {} ({} bytes)\n{}", n, b.len(), text(b));
            }
            println!("{:?} in {:.3} s", ctx.seen, t.elapsed().as_secs_f64());
            match r {
                Ok(()) => 0,
                Err(Stop::Violation(m)) => {
                    println!("VIOLATED: {}", m);
                    1
                }
                Err(Stop::Harness(m)) => {
                    println!("no verdict: {}", m);
                    2
                }
            }
        })
        .unwrap();
    let code = t.join().unwrap_or(2);
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

// ---------------------------------------------------------------- supervision

pub struct Run {
    pub check: &'static Check,
    pub thorough: bool,
    pub seed: u64,
    pub verif: PathBuf,
    pub bins: PathBuf,
}

enum End {
    Done(Value),
    Crashed(u64, String), // in the code under test
    Hang(u64),
    Memory(u64),
    Broken(String),
}

fn spawn(run: &Run, exe: &Path, scratch: &Path, from: u64, to: u64, step: u64, cpu: f64, deadline: f64) -> End {
    let _ = std::fs::remove_dir_all(scratch);
    std::fs::create_dir_all(scratch).unwrap();
    let mut c = Command::new(exe);
    c.arg("worker")
        .arg(run.check.id)
        .arg(if run.thorough { "thorough" } else { "quick" })
        .arg(run.seed.to_string())
        .arg(from.to_string())
        .arg(to.to_string())
        .arg(step.to_string())
        .arg(scratch)
        .arg(&run.bins)
        .arg(cpu.to_string())
        .arg(deadline.to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped());
    let mut child = match c.spawn() {
        Ok(c) => c,
        Err(e) => return End::Broken(format!("cannot start a worker: {}", e)),
    };
    let mut err = child.stderr.take().unwrap();
    let eh = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = err.read_to_end(&mut v);
        String::from_utf8_lossy(&v).chars().take(2000).collect::<String>()
    });
    // a generous bound on the wall clock; when it is reached there is no answer
    let start = Instant::now();
    let st = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {}
            Err(e) => return End::Broken(format!("waiting for a worker: {}", e)),
        }
        if start.elapsed().as_secs_f64() > deadline + 4.0 * cpu + 60.0 {
            let _ = child.kill();
            let _ = child.wait();
            return End::Broken("a worker made no progress (wall clock)".to_string());
        }
        std::thread::sleep(Duration::from_millis(10));
    };
    let stderr = eh.join().unwrap_or_default();
    let case = std::fs::read(scratch.join("status"))
        .ok()
        .and_then(|b| b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap())))
        .unwrap_or(0);
    if let Some(sig) = st.signal() {
        return match sig {
            libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGILL | libc::SIGFPE => {
                End::Crashed(case, format!("signal {}: {}", sig, stderr.trim()))
            }
            _ => End::Broken(format!("worker ended by signal {}", sig)),
        };
    }
    match st.code() {
        Some(0) => match std::fs::read_to_string(scratch.join("result.json")).ok().and_then(|s| serde_json::from_str(&s).ok()) {
            Some(v) => End::Done(v),
            None => End::Broken("no result from a worker".to_string()),
        },
        Some(EXIT_HANG) => End::Hang(case),
        Some(EXIT_MEMORY) => End::Memory(case),
        c => End::Broken(format!("worker ended with {:?}: {}", c, stderr.trim())),
    }
}

pub fn supervise(run: Run) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let start = Instant::now();
    let c = run.check;
    let san = sanitizer();
    let mut n = (c.cases)(run.thorough);
    let mut budget = if run.thorough { 540.0 } else { 420.0 };
    let mut cpu = 20.0;
    if san.is_some() {
        n = n.min(100_000);
        budget = 75.0;
        cpu = 200.0;
    }
    let budget: f64 = std::env::var("VERIF_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(budget);
    let w = c.workers.min(n as usize).max(1);
    let base = run.verif.join("build").join("scratch").join(format!("{}-{}", c.id, std::process::id()));
    let deadline = budget;
    struct Acc {
        evaluations: u64,
        seen: BTreeMap<String, u64>,
        distinct: HashSet<u64>,
        samples: Vec<Value>,
        calls: u64,
        bytes: u64,
        peak: u64,
        violation: Option<(u64, String, Vec<(String, Vec<u8>)>)>,
        broken: Option<String>,
    }
    let acc = Arc::new(Mutex::new(Acc {
        evaluations: 0,
        seen: BTreeMap::new(),
        distinct: HashSet::new(),
        samples: vec![],
        calls: 0,
        bytes: 0,
        peak: 0,
        violation: None,
        broken: None,
    }));
    let run = Arc::new(run);
    let next_chunk = Arc::new(AtomicU64::new(0));
    // cases are handed out in chunks, so that a crash loses little
    let chunks = (w * if san.is_some() { 1 } else if run.thorough { 16 } else { 4 }).min(n as usize) as u64;
    let hs: Vec<_> = (0..w)
        .map(|k| {
            let (acc, run, exe, next) = (acc.clone(), run.clone(), exe.clone(), next_chunk.clone());
            let scratch = base.join(k.to_string());
            std::thread::spawn(move || loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                if k >= chunks {
                    return;
                }
                {
                    let a = acc.lock().unwrap();
                    if a.violation.is_some() || a.broken.is_some() {
                        return;
                    }
                }
                let left = deadline - start.elapsed().as_secs_f64();
                if left <= 0.0 {
                    return;
                }
                let end = spawn(&run, &exe, &scratch, k, n, chunks, cpu, left);
                let confirm = |case: u64, what: &str| {
                    // again, in isolation and with more time
                    let s = scratch.join("again");
                    for _ in 0..3 {
                        match spawn(&run, &exe, &s, case, case + 1, 1, cpu, 300.0) {
                            End::Crashed(_, m) => return Some(format!("{} (again in isolation: {})", what, m)),
                            End::Hang(_) => {
                                return Some(format!("{} (again in isolation: no end after 20 s of CPU time)", what))
                            }
                            End::Memory(_) => {
                                return Some(format!("{} (again in isolation: more than 1.5 GB of memory)", what))
                            }
                            End::Done(v) if v["stop"]["kind"] == "violation" => {
                                return Some(format!("{} (in isolation: {})", what, v["stop"]["what"]))
                            }
                            _ => {}
                        }
                    }
                    None
                };
                match end {
                    End::Done(v) => {
                        let mut a = acc.lock().unwrap();
                        a.evaluations += v["done"].as_u64().unwrap_or(0);
                        a.calls += v["calls"].as_u64().unwrap_or(0);
                        a.bytes += v["bytes"].as_u64().unwrap_or(0);
                        a.peak = a.peak.max(v["peak"].as_u64().unwrap_or(0));
                        for (k, x) in v["seen"].as_object().unwrap() {
                            let x = x.as_u64().unwrap();
                            let e = a.seen.entry(k.clone()).or_insert(0);
                            if k.starts_with("max ") {
                                *e = (*e).max(x);
                            } else {
                                *e += x;
                            }
                        }
                        for b in std::fs::read(scratch.join("hashes")).unwrap_or_default().chunks_exact(8) {
                            a.distinct.insert(u64::from_le_bytes(b.try_into().unwrap()));
                        }
                        if let Some(s) = v["samples"].as_array() {
                            for x in s {
                                if a.samples.len() < 6 {
                                    a.samples.push(x.clone());
                                }
                            }
                        }
                        let stop = &v["stop"];
                        if !stop.is_null() {
                            let what = stop["what"].as_str().unwrap_or("").to_string();
                            let docs: Vec<(String, Vec<u8>)> = stop["docs"]
                                .as_array()
                                .unwrap()
                                .iter()
                                .map(|x| {
                                    (
                                        x[0].as_str().unwrap().to_string(),
                                        x[1].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect(),
                                    )
                                })
                                .collect();
                            let case = stop["case"].as_u64().unwrap();
                            if stop["kind"] == "violation" {
                                if a.violation.is_none() {
                                    a.violation = Some((case, what, docs));
                                }
                            } else {
                                for (n, b) in &docs {
                                    eprintln!("--- {}\n{}", n, text(b));
                                }
                                a.broken = Some(what);
                            }
                        }
                    }
                    End::Broken(m) => acc.lock().unwrap().broken = Some(m),
                    other => {
                        let died = matches!(other, End::Crashed(..));
                        let (case, what) = match other {
                            End::Crashed(i, m) => (i, format!("the analysis ended the process ({})", m)),
                            End::Hang(i) => (i, "an analysis did not end within 20 s of CPU time".to_string()),
                            End::Memory(i) => (i, "an analysis needed more than 1.5 GB of memory".to_string()),
                            _ => unreachable!(),
                        };
                        let r = confirm(case, &what);
                        let mut a = acc.lock().unwrap();
                        match r {
                            Some(m) => {
                                if a.violation.is_none() {
                                    a.violation = Some((case, m, vec![]));
                                }
                            }
                            // a crash is one even if it takes a certain history or schedule
                            None if died => {
                                if a.violation.is_none() {
                                    a.violation = Some((case, format!("{} (not again in isolation)", what), vec![]));
                                }
                            }
                            None => a.broken = Some(format!("case {}: {}, but not again in isolation", case, what)),
                        }
                    }
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let _ = std::fs::remove_dir_all(&base);
    let a = acc.lock().unwrap();
    let replay = run.verif.join("evidence").join("replay").join(c.id);
    let _ = std::fs::remove_dir_all(&replay);
    let mut code = 0;
    if let Some((case, what, docs)) = &a.violation {
        std::fs::create_dir_all(&replay).unwrap();
        for (n, b) in docs {
            let _ = std::fs::write(replay.join(n), b);
        }
        let mut f = std::fs::File::create(replay.join("README")).unwrap();
        let _ = writeln!(
            f,
            "{}\n\ncase {} of seed {}; run it again: VERIF_SEED={} VERIF_TIER={} /verif/check.sh {} case {}\n",
            what,
            case,
            run.seed,
            run.seed,
            if run.thorough { "thorough" } else { "quick" },
            c.id,
            case
        );
        println!("{}", what);
        println!("VIOLATION property={} replay={}", c.id, replay.display());
        code = 1;
    } else if let Some(m) = &a.broken {
        eprintln!("no verdict: {}", m);
        code = 2;
    } else {
        for q in c.required.iter().filter(|_| san.is_none()) {
            if a.seen.get(*q).copied().unwrap_or(0) == 0 {
                eprintln!("no verdict: never observed: {}", q);
                code = 2;
            }
        }
        if a.evaluations == 0 || a.distinct.is_empty() {
            eprintln!("no verdict: nothing observed");
            code = 2;
        }
    }
    // the runs with sanitizers that came before this one
    let mut sanitizers = vec![];
    let san_dir = run.verif.join("build").join("san");
    if san.is_none() && run.thorough {
        for s in ["address", "thread"] {
            let p = san_dir.join(format!("{}-{}.json", c.id, s));
            if let Some(v) = std::fs::read_to_string(&p).ok().and_then(|x| serde_json::from_str::<Value>(&x).ok()) {
                sanitizers.push(v);
            }
        }
    }
    let mut ev = json!({
        "property": c.id,
        "tier": if run.thorough { "thorough" } else { "quick" },
        "seed": run.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": a.evaluations,
            "distinct_nontrivial": a.distinct.len(),
            "rule": c.rule,
            "samples": a.samples,
            "planned_cases": n,
            "analysis_calls_monitored": a.calls,
            "bytes_analysed": a.bytes,
            "peak_memory_bytes": a.peak,
            "observed": a.seen,
        },
        "assumptions": c.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": if code == 1 { 1 } else { 0 },
    });
    if !sanitizers.is_empty() {
        ev["coverage"]["sanitizers"] = json!(sanitizers);
    }
    if let Some(s) = &san {
        std::fs::create_dir_all(&san_dir).unwrap();
        let v = json!({ "sanitizer": s, "cases": a.evaluations, "analysis_calls_monitored": a.calls, "bytes_analysed": a.bytes,
            "observed": a.seen, "wall_s": start.elapsed().as_secs_f64() });
        std::fs::write(san_dir.join(format!("{}-{}.json", c.id, s)), v.to_string()).unwrap();
    }
    if san.is_none() || code == 1 {
        std::fs::create_dir_all(run.verif.join("evidence")).unwrap();
        std::fs::write(
            run.verif.join("evidence").join(format!("{}.json", c.id)),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .unwrap();
    }
    if let Some(s) = &san {
        print!("[{} sanitizer] ", s);
    }
    println!(
        "{} {}: {} cases, {} distinct and non-trivial, {} monitored calls, {:.1} s",
        c.id,
        ["held on everything observed", "VIOLATED", "no verdict"][code as usize],
        a.evaluations,
        a.distinct.len(),
        a.calls,
        start.elapsed().as_secs_f64()
    );
    code
}
