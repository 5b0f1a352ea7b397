//! Runs a property over many generated cases in parallel worker processes,
//! shrinks a failure to a minimal choice tape and writes evidence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::source::{hash, mix, Source};

pub type Res = Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// generated cases of the quick and the thorough tier
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Source, &mut Ctx) -> Res,
    /// Finite part enumerated completely; gets (worker, workers, thorough).
    pub exhaustive: Option<fn(&mut Ctx, u64, u64, bool) -> Res>,
}

pub struct Ctx {
    pub text: String,
    pub key: u64,
    pub nontrivial: bool,
    pub want_text: bool,
    labels: BTreeMap<String, u64>,
    case_labels: Vec<String>,
    pub scratch: PathBuf,
    pub enumerated: u64,
    out: OwnedFd,
    err: OwnedFd,
    pub cli: PathBuf,
    pub shim: PathBuf,
    pub repo: PathBuf,
}

impl Ctx {
    /// Describes the case that was generated. `key` tells cases apart.
    pub fn case(&mut self, key: &[u8], text: impl FnOnce() -> String) {
        self.key = hash(key);
        if self.want_text {
            self.text = text();
        }
    }

    pub fn label(&mut self, l: &str) {
        self.case_labels.push(l.to_string());
    }

    pub fn label_if(&mut self, cond: bool, l: &str) {
        if cond {
            self.label(l);
        }
    }

    /// What was printed to standard output since the last call.
    pub fn take_output(&mut self) -> String {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        drain(self.out.as_raw_fd())
    }

    /// What was printed to standard error since the last call; panics do not show.
    pub fn take_errors(&mut self) -> String {
        drain(self.err.as_raw_fd())
    }

    /// Empty scratch directory of this worker.
    pub fn fresh_dir(&self, name: &str) -> PathBuf {
        let dir = self.scratch.join(name);
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).expect("scratch directory");
        dir
    }
}

fn drain(fd: i32) -> String {
    let mut buf = Vec::new();
    unsafe {
        let len = libc::lseek(fd, 0, libc::SEEK_END);
        buf.resize(len.max(0) as usize, 0u8);
        let mut off = 0usize;
        while off < buf.len() {
            let n = libc::pread(fd, buf[off..].as_mut_ptr() as *mut _, buf.len() - off, off as i64);
            if n <= 0 {
                break;
            }
            off += n as usize;
        }
        buf.truncate(off);
        libc::ftruncate(fd, 0);
        libc::lseek(fd, 0, libc::SEEK_SET);
    }
    String::from_utf8_lossy(&buf).into_owned()
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Runs code under test; a panic becomes an error with its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(format!("panicked at {loc}: {msg}"))
        }
    }
}

enum Outcome {
    Held,
    Failed(String),
    /// a panic inside the harness itself
    Broken(String),
}

fn run_case(f: impl FnOnce(&mut Ctx) -> Res, ctx: &mut Ctx) -> Outcome {
    ctx.text.clear();
    ctx.key = 0;
    ctx.nontrivial = false;
    ctx.case_labels.clear();
    match catch_unwind(AssertUnwindSafe(|| f(ctx))) {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(m)) => Outcome::Failed(m),
        Err(_) => {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.contains("check/src/") {
                Outcome::Broken(format!("harness panicked at {loc}: {msg}"))
            } else {
                Outcome::Failed(format!("panicked at {loc}: {msg}"))
            }
        }
    }
}

/* Processor time a single case may take: cases take milliseconds, so one that
 * uses this much does not end. */
const CASE_CPU_S: i64 = 40;

extern "C" {
    fn setitimer(which: i32, new: *const libc::itimerval, old: *mut libc::itimerval) -> i32;
}

fn arm_watchdog(seconds: i64) {
    unsafe {
        let t = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: seconds, tv_usec: 0 },
        };
        setitimer(2 /* ITIMER_PROF */, &t, std::ptr::null_mut());
    }
}

pub fn limit_memory(bytes: u64) {
    unsafe {
        let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
        // endless output, which is kept in memory
        let c = libc::rlimit { rlim_cur: 256 << 20, rlim_max: 256 << 20 };
        libc::setrlimit(libc::RLIMIT_FSIZE, &c);
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
}

fn make_ctx(root: &Path, name: &str) -> Ctx {
    let scratch = std::env::temp_dir().join(format!("bfcheck-{}-{}", std::process::id(), name));
    fs::create_dir_all(&scratch).expect("scratch");
    let out = unsafe {
        let fd = libc::memfd_create(b"out\0".as_ptr() as *const _, libc::MFD_CLOEXEC);
        assert!(fd >= 0, "memfd");
        libc::dup2(fd, 1);
        OwnedFd::from_raw_fd(fd)
    };
    let err = unsafe {
        let fd = libc::memfd_create(b"err\0".as_ptr() as *const _, libc::MFD_CLOEXEC);
        assert!(fd >= 0, "memfd");
        libc::dup2(fd, 2);
        OwnedFd::from_raw_fd(fd)
    };
    Ctx {
        text: String::new(),
        key: 0,
        nontrivial: false,
        want_text: false,
        labels: BTreeMap::new(),
        case_labels: vec![],
        scratch,
        enumerated: 0,
        out,
        err,
        cli: root.join("harness/target/debug/burn_fm"),
        shim: root.join("harness/target/shim.so"),
        repo: PathBuf::from("/repo"),
    }
}

fn case_seed(prop: &Prop, seed: u64, worker: u64, case: u64) -> u64 {
    mix(mix(hash(prop.id.as_bytes()), seed), mix(worker, case))
}

/// Smaller tape that still fails, found by deleting and lowering draws.
fn shrink(tape: Vec<u32>, mut fails: impl FnMut(&[u32]) -> bool, budget: Duration, max_evals: usize) -> Vec<u32> {
    let start = Instant::now();
    let mut best = tape;
    let mut evals = 0usize;
    let mut check = |t: &[u32], evals: &mut usize| -> bool {
        *evals += 1;
        fails(t)
    };
    let spent = |evals: usize| start.elapsed() > budget || evals > max_evals;
    loop {
        let before = best.clone();
        // drop the tail
        let mut cut = best.len() / 2;
        while cut > 0 && !spent(evals) {
            let n = best.len().saturating_sub(cut);
            let cand = best[..n].to_vec();
            if check(&cand, &mut evals) {
                best = cand;
                cut = cut.min(best.len() / 2);
            } else {
                cut /= 2;
            }
        }
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && !spent(evals) {
            let mut i = best.len();
            while i > 0 && !spent(evals) {
                let lo = i.saturating_sub(size);
                let mut cand = best[..lo].to_vec();
                cand.extend_from_slice(&best[i..]);
                if cand.len() < best.len() && check(&cand, &mut evals) {
                    best = cand;
                    i = lo.min(best.len());
                } else {
                    i = lo;
                }
            }
            size /= 2;
        }
        // zero blocks
        let mut size = 16usize;
        while size >= 1 && !spent(evals) {
            let mut i = 0;
            while i < best.len() && !spent(evals) {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    cand[i..hi].iter_mut().for_each(|x| *x = 0);
                    if check(&cand, &mut evals) {
                        best = cand;
                    }
                }
                i = hi;
            }
            size /= 2;
        }
        // lower single draws
        let mut i = 0;
        while i < best.len() && !spent(evals) {
            let mut lo = 0u32; // known not to fail (or untried)
            let mut hi = best[i];
            while hi > lo && hi - lo > (best[i] >> 10).max(1) && !spent(evals) {
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if check(&cand, &mut evals) {
                    hi = mid;
                    best = cand;
                } else {
                    lo = mid;
                }
            }
            i += 1;
        }
        if best == before || spent(evals) {
            return best;
        }
    }
}

fn write_json(path: &Path, v: &Value) {
    fs::write(path, serde_json::to_string_pretty(v).unwrap() + "\n").expect("write json");
}

/// Worker process: cases worker, worker + workers, ...
pub fn worker(prop: &Prop, root: &Path, dir: &Path, seed: u64, thorough: bool, w: u64, n: u64, until: u64) -> i32 {
    install_panic_hook();
    limit_memory(3 << 30);
    let mut ctx = make_ctx(root, &format!("w{w}"));
    let total = if thorough { prop.thorough } else { prop.quick };
    let mine = total / n + if w < total % n { 1 } else { 0 };
    let progress = fs::File::create(dir.join(format!("progress-{w}"))).expect("progress");
    let mark = |case: u64, evaluated: u64| {
        let mut b = case.to_le_bytes().to_vec();
        b.extend_from_slice(&evaluated.to_le_bytes());
        unsafe { libc::pwrite(progress.as_raw_fd(), b.as_ptr() as *const _, 16, 0) };
    };
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut nontrivial = 0u64;
    let mut evals = 0u64;
    let finish = |ctx: &mut Ctx, code: i32| -> i32 {
        let _ = fs::remove_dir_all(&ctx.scratch);
        code
    };

    if let Some(f) = prop.exhaustive {
        mark(u64::MAX, 0);
        arm_watchdog(600);
        match run_case(|c| f(c, w, n, thorough), &mut ctx) {
            Outcome::Held => {}
            Outcome::Failed(m) => {
                write_json(&dir.join(format!("fail-{w}.json")), &json!({"message": m, "enumerated": true, "tape": []}));
                return finish(&mut ctx, 3);
            }
            Outcome::Broken(m) => {
                write_json(&dir.join(format!("broken-{w}.json")), &json!({"message": m}));
                return finish(&mut ctx, 2);
            }
        }
    }

    let begun = Instant::now();
    let mut early = false;
    for case in 0..mine {
        if begun.elapsed() > Duration::from_secs(until) {
            early = true;
            break;
        }
        mark(case, evals);
        arm_watchdog(CASE_CPU_S);
        let mut src = Source::random(case_seed(prop, seed, w, case));
        // written out only if it may become a sample
        ctx.want_text = samples.len() < 3 && case >= mine / 3;
        let r = run_case(|c| (prop.run)(&mut src, c), &mut ctx);
        evals += 1;
        ctx.take_output();
        ctx.take_errors();
        match r {
            Outcome::Held => {
                for l in std::mem::take(&mut ctx.case_labels) {
                    *ctx.labels.entry(l).or_insert(0) += 1;
                }
                if ctx.nontrivial {
                    nontrivial += 1;
                    distinct.insert(ctx.key);
                    if ctx.want_text && !ctx.text.is_empty() {
                        let mut t: String = ctx.text.chars().take(3000).collect();
                        if t.len() < ctx.text.len() {
                            t.push_str(" ...");
                        }
                        samples.push(t);
                    }
                }
            }
            Outcome::Failed(m) => {
                let tape = src.tape.clone();
                let _ = fs::write(dir.join(format!("found-{w}")), &m);
                let (tape, message, text) = {
                    let best = shrink(
                        tape,
                        |t| {
                            arm_watchdog(CASE_CPU_S);
                            let mut s = Source::replay(t.to_vec());
                            let r = run_case(|c| (prop.run)(&mut s, c), &mut ctx);
                            ctx.take_output();
                            ctx.take_errors();
                            matches!(r, Outcome::Failed(_))
                        },
                        Duration::from_secs(25),
                        20_000,
                    );
                    arm_watchdog(CASE_CPU_S);
                    ctx.want_text = true;
                    let mut s = Source::replay(best.clone());
                    let r = run_case(|c| (prop.run)(&mut s, c), &mut ctx);
                    let msg = match r {
                        Outcome::Failed(m) => m,
                        _ => m,
                    };
                    (best, msg, ctx.text.clone())
                };
                write_json(&dir.join(format!("fail-{w}.json")), &json!({"message": message, "tape": tape, "case": text}));
                return finish(&mut ctx, 3);
            }
            Outcome::Broken(m) => {
                write_json(
                    &dir.join(format!("broken-{w}.json")),
                    &json!({"message": m, "worker": w, "case": case}),
                );
                return finish(&mut ctx, 2);
            }
        }
    }
    mark(if early { evals } else { mine }, evals);
    let hashes: Vec<u8> = distinct.iter().flat_map(|h| h.to_le_bytes()).collect();
    fs::write(dir.join(format!("hashes-{w}")), hashes).expect("hashes");
    write_json(
        &dir.join(format!("done-{w}.json")),
        &json!({"evaluations": evals, "enumerated": ctx.enumerated, "nontrivial": nontrivial,
                "labels": ctx.labels, "samples": samples, "early": early}),
    );
    finish(&mut ctx, 0)
}

/// Runs one case in this process: exit 0 if it held, 3 if it failed, 4 broken.
pub fn single(prop: &Prop, root: &Path, tape: Option<Vec<u32>>, seed: u64, log: Option<&Path>, cpu: i64, result: Option<&Path>) -> i32 {
    install_panic_hook();
    limit_memory(3 << 30);
    let mut ctx = make_ctx(root, "single");
    arm_watchdog(cpu);
    let mut src = match (tape, log) {
        (Some(t), _) => Source::replay(t),
        (None, Some(p)) => Source::logged(seed, fs::File::create(p).expect("log")),
        (None, None) => Source::random(seed),
    };
    ctx.want_text = true;
    let r = run_case(|c| (prop.run)(&mut src, c), &mut ctx);
    ctx.take_output();
    let (code, msg) = match r {
        Outcome::Held => (0, String::new()),
        Outcome::Failed(m) => (3, m),
        Outcome::Broken(m) => (4, m),
    };
    if let Some(p) = result {
        write_json(p, &json!({"message": msg, "case": ctx.text, "nontrivial": ctx.nontrivial, "draws": src.used()}));
    }
    let _ = fs::remove_dir_all(&ctx.scratch);
    code
}

pub fn single_exhaustive(prop: &Prop, root: &Path, result: &Path) -> i32 {
    install_panic_hook();
    let mut ctx = make_ctx(root, "single");
    let r = match prop.exhaustive {
        Some(f) => run_case(|c| f(c, 0, 1, false), &mut ctx),
        None => Outcome::Held,
    };
    let (code, msg) = match r {
        Outcome::Held => (0, String::new()),
        Outcome::Failed(m) => (3, m),
        Outcome::Broken(m) => (4, m),
    };
    write_json(result, &json!({"message": msg, "case": "enumeration"}));
    let _ = fs::remove_dir_all(&ctx.scratch);
    code
}

/// Runs the input of a known finding: exit 0 if it no longer fails, 3 if it does.
pub fn finding(prop: &Prop, root: &Path, name: &str, result: &Path) -> i32 {
    install_panic_hook();
    limit_memory(3 << 30);
    let Some(f) = crate::findings::findings().into_iter().find(|f| f.id == prop.id && f.name == name) else {
        return 2;
    };
    let mut ctx = make_ctx(root, "finding");
    arm_watchdog(15);
    let r = run_case(|c| (f.run)(c), &mut ctx);
    let (code, msg) = match r {
        Outcome::Held => (0, String::new()),
        Outcome::Failed(m) => (3, m),
        Outcome::Broken(m) => (4, m),
    };
    write_json(result, &json!({"message": msg}));
    let _ = fs::remove_dir_all(&ctx.scratch);
    code
}

/// Prints a line for every listed finding of the property that still fails.
fn known_findings(prop: &Prop, root: &Path, dir: &Path) -> Result<Vec<String>, String> {
    let list = fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    let mut names = vec![];
    for line in list.lines() {
        let Some(rest) = line.strip_prefix("finding: property=") else {
            continue;
        };
        let mut it = rest.splitn(3, ' ');
        let (id, name, what) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
        if id != prop.id {
            continue;
        }
        let result = dir.join("finding.json");
        let _ = fs::remove_file(&result);
        let st = Command::new(exe())
            .args(["finding", prop.id, name, "--root"])
            .arg(root)
            .arg("--result")
            .arg(&result)
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .map_err(|e| e.to_string())?;
        let fails = match (st.code(), st.signal()) {
            (Some(0), _) => false,
            (Some(3), _) => true,
            (_, Some(s)) if describe_death(s).is_some() => true,
            _ => return Err(format!("the listed finding {name} did not run: {st}")),
        };
        if fails {
            println!("KNOWN-FINDING: property={} {name}: {what}", prop.id);
            names.push(name.to_string());
        } else {
            println!("{}: the listed finding {name} no longer fails", prop.id);
        }
    }
    Ok(names)
}

fn describe_death(sig: i32) -> Option<&'static str> {
    match sig {
        libc::SIGSEGV => Some("segmentation fault"),
        libc::SIGABRT => Some("process aborted (abort, stack overflow or out of memory)"),
        libc::SIGBUS => Some("bus error"),
        libc::SIGILL => Some("illegal instruction"),
        libc::SIGFPE => Some("arithmetic fault"),
        libc::SIGPROF => Some("does not terminate (processor time limit of a single case)"),
        _ => None,
    }
}

fn write_tape(path: &Path, tape: &[u32]) {
    fs::write(path, tape.iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<u8>>()).expect("tape");
}

pub fn read_tape(path: &Path) -> Vec<u32> {
    fs::read(path)
        .unwrap_or_default()
        .chunks_exact(4)
        .map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]]))
        .collect()
}

fn exe() -> PathBuf {
    std::env::current_exe().expect("own path")
}

fn run_tape(prop: &Prop, root: &Path, dir: &Path, tape: &[u32], cpu: i64) -> std::process::ExitStatus {
    let p = dir.join("candidate.tape");
    write_tape(&p, tape);
    Command::new(exe())
        .args(["single", prop.id, "--root"])
        .arg(root)
        .arg("--tape")
        .arg(&p)
        .args(["--cpu", &cpu.to_string()])
        .arg("--result")
        .arg(dir.join("candidate.json"))
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .expect("run case")
}

/// A worker died: find the case, confirm it alone, shrink it in children.
fn investigate_death(prop: &Prop, root: &Path, dir: &Path, seed: u64, w: u64, sig: i32) -> Result<Option<Value>, String> {
    let what = match describe_death(sig) {
        Some(x) => x,
        None => return Err(format!("worker {w} ended by signal {sig}")),
    };
    let b = fs::read(dir.join(format!("progress-{w}"))).unwrap_or_default();
    if b.len() < 8 {
        return Err(format!("worker {w} ended by signal {sig} before its first case"));
    }
    let case = u64::from_le_bytes(b[0..8].try_into().unwrap());
    if case == u64::MAX {
        return Ok(Some(json!({"message": format!("{what} during enumeration"), "enumerated": true, "tape": []})));
    }
    let log = dir.join(format!("tape-{w}"));
    let status = Command::new(exe())
        .args(["single", prop.id, "--root"])
        .arg(root)
        .args(["--seed", &case_seed(prop, seed, w, case).to_string()])
        .arg("--log")
        .arg(&log)
        .args(["--cpu", &CASE_CPU_S.to_string()])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .map_err(|e| e.to_string())?;
    let sig2 = status.signal().unwrap_or(0);
    if describe_death(sig2).is_none() {
        if status.code() == Some(3) {
            // fails without dying when run alone; report it as it is
            return Ok(Some(json!({"message": format!("{what}"), "tape": read_tape(&log), "case": ""})));
        }
        return Err(format!("worker {w} died of signal {sig} in case {case}, which runs alone with {status}"));
    }
    let slow = sig2 == libc::SIGPROF;
    let cpu = if slow { 10 } else { CASE_CPU_S };
    let (budget, evals) = if slow { (Duration::from_secs(100), 60) } else { (Duration::from_secs(40), 1500) };
    let best = shrink(
        read_tape(&log),
        |t| run_tape(prop, root, dir, t, cpu).signal() == Some(sig2),
        budget,
        evals,
    );
    Ok(Some(json!({"message": describe_death(sig2).unwrap(), "tape": best, "signal": sig2})))
}

struct Worker {
    w: u64,
    child: Child,
    done: bool,
}

pub fn check(prop: &Prop, root: &Path, seed: u64, thorough: bool, workers: u64, deadline_s: u64, cases: Option<u64>) -> i32 {
    let start = Instant::now();
    let dir = std::env::temp_dir().join(format!("bfcheck-{}-{}", prop.id, std::process::id()));
    fs::create_dir_all(&dir).expect("work directory");
    let mut ws: Vec<Worker> = (0..workers)
        .map(|w| {
            let mut c = Command::new(exe());
            c.args(["worker", prop.id, "--root"])
                .arg(root)
                .arg("--dir")
                .arg(&dir)
                .args(["--seed", &seed.to_string(), "--worker", &w.to_string(), "--workers", &workers.to_string()]);
            // what is slow for some reason outside is explored less far
            c.args(["--until", &(deadline_s * 2 / 3).to_string()]);
            if thorough {
                c.arg("--thorough");
            }
            if let Some(n) = cases {
                c.args(["--cases", &n.to_string()]);
            }
            Worker { w, child: c.stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("worker"), done: false }
        })
        .collect();

    let mut failure: Option<Value> = None;
    let mut error: Option<String> = None;
    let mut settle: Option<Instant> = None;
    loop {
        let mut running = 0;
        for i in 0..ws.len() {
            if ws[i].done {
                continue;
            }
            let w = ws[i].w;
            match ws[i].child.try_wait() {
                Ok(None) => running += 1,
                Ok(Some(st)) => {
                    ws[i].done = true;
                    match st.code() {
                        Some(0) => {}
                        Some(3) => {
                            let v = fs::read_to_string(dir.join(format!("fail-{w}.json"))).unwrap_or_default();
                            let v: Value = serde_json::from_str(&v).unwrap_or(json!({"message": "unreadable failure", "tape": []}));
                            let better = match &failure {
                                None => true,
                                Some(f) => tape_len(&v) < tape_len(f),
                            };
                            if better {
                                failure = Some(v);
                            }
                            settle.get_or_insert(Instant::now());
                        }
                        Some(2) => {
                            let v = fs::read_to_string(dir.join(format!("broken-{w}.json"))).unwrap_or_default();
                            error.get_or_insert(v);
                        }
                        Some(c) => {
                            error.get_or_insert(format!("worker {w} ended with code {c}"));
                        }
                        None => {
                            let sig = st.signal().unwrap_or(0);
                            if failure.is_none() {
                                match investigate_death(prop, root, &dir, seed, w, sig) {
                                    Ok(Some(v)) => {
                                        failure = Some(v);
                                        settle.get_or_insert(Instant::now());
                                    }
                                    Ok(None) => {}
                                    Err(e) => {
                                        error.get_or_insert(e);
                                    }
                                }
                            }
                        }
                    }
                }
                Err(e) => {
                    error.get_or_insert(e.to_string());
                    ws[i].done = true;
                }
            }
        }
        if running == 0 {
            break;
        }
        let stop = settle.is_some_and(|t| t.elapsed() > Duration::from_secs(3)) || (error.is_some() && failure.is_none());
        if stop {
            break;
        }
        if start.elapsed() > Duration::from_secs(deadline_s) {
            error.get_or_insert(format!("not finished after {deadline_s} s"));
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for w in &mut ws {
        if !w.done {
            let _ = w.child.kill();
            let _ = w.child.wait();
        }
        let _ = fs::remove_dir_all(std::env::temp_dir().join(format!("bfcheck-{}-w{}", w.child.id(), w.w)));
    }

    let mut known = vec![];
    if failure.is_none() {
        match known_findings(prop, root, &dir) {
            Ok(k) => known = k,
            Err(e) => {
                error.get_or_insert(e);
            }
        }
    }

    // aggregate
    let mut evaluations = 0u64;
    let mut enumerated = 0u64;
    let mut nontrivial = 0u64;
    let mut early = false;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut distinct: HashSet<[u8; 8]> = HashSet::new();
    for w in 0..workers {
        if let Ok(s) = fs::read_to_string(dir.join(format!("done-{w}.json"))) {
            let v: Value = serde_json::from_str(&s).unwrap_or(Value::Null);
            evaluations += v["evaluations"].as_u64().unwrap_or(0);
            enumerated += v["enumerated"].as_u64().unwrap_or(0);
            nontrivial += v["nontrivial"].as_u64().unwrap_or(0);
            early |= v["early"].as_bool().unwrap_or(false);
            if let Some(m) = v["labels"].as_object() {
                for (k, n) in m {
                    *labels.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
                }
            }
            if let Some(a) = v["samples"].as_array() {
                if samples.len() < 4 {
                    samples.extend(a.iter().take(1).cloned());
                }
            }
            for h in fs::read(dir.join(format!("hashes-{w}"))).unwrap_or_default().chunks_exact(8) {
                distinct.insert(h.try_into().unwrap());
            }
        } else if let Ok(b) = fs::read(dir.join(format!("progress-{w}"))) {
            if b.len() >= 16 {
                evaluations += u64::from_le_bytes(b[8..16].try_into().unwrap());
            }
        }
    }
    if early {
        println!("NOTE: {} cases of {} in the time there was", evaluations, cases.unwrap_or(if thorough { prop.thorough } else { prop.quick }));
        if nontrivial == 0 {
            error.get_or_insert("no non-trivial case in the time there was".to_string());
        }
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some(f) = &failure {
        violations = 1;
        code = 1;
        let replays = root.join("replays");
        let _ = fs::create_dir_all(&replays);
        let body = json!({
            "property": prop.id, "seed": seed,
            "message": f["message"], "case": f["case"], "tape": f["tape"],
            "enumerated": f["enumerated"].as_bool().unwrap_or(false),
            "replay_with": format!("{}/run.sh replay <this file>", root.display()),
        });
        let text = serde_json::to_string_pretty(&body).unwrap();
        let path = replays.join(format!("{}-{:016x}.json", prop.id, hash(text.as_bytes())));
        let _ = fs::write(&path, text);
        println!("{}: {}", prop.id, f["message"].as_str().unwrap_or(""));
        let case: String = f["case"].as_str().unwrap_or("").chars().take(4000).collect();
        if !case.is_empty() {
            println!("{case}");
        }
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        if samples.is_empty() {
            samples.push(json!(case));
        }
    } else if let Some(e) = &error {
        println!("ERROR: the check of {} did not complete: {e}", prop.id);
        code = 2;
    }
    let wall = start.elapsed().as_secs_f64();
    let mut coverage = json!({
        "evaluations": evaluations + enumerated,
        "generated_cases": evaluations,
        "nontrivial": nontrivial,
        "distinct_nontrivial": distinct.len(),
        "rule": prop.rule,
        "samples": samples,
        "classes": labels,
        "workers": workers,
    });
    if early {
        coverage["ended_by_time"] = json!(true);
    }
    if !known.is_empty() {
        coverage["known_findings"] = json!(known);
    }
    if prop.exhaustive.is_some() {
        coverage["enumerated"] = json!(enumerated);
    }
    let ev = json!({
        "property": prop.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": prop.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
    });
    if cases.is_none() {
        let evdir = root.join("evidence");
        let _ = fs::create_dir_all(&evdir);
        write_json(&evdir.join(format!("{}.json", prop.id)), &ev);
    }
    println!(
        "{} {}: {} generated cases ({} non-trivial, {} distinct), {} enumerated, {:.1} s{}",
        prop.id,
        if code == 0 { "held" } else if code == 1 { "VIOLATED" } else { "error" },
        evaluations,
        nontrivial,
        distinct.len(),
        enumerated,
        wall,
        if labels.is_empty() { String::new() } else { format!("; {labels:?}") },
    );
    let _ = fs::remove_dir_all(&dir);
    code
}

fn tape_len(v: &Value) -> usize {
    v["tape"].as_array().map(|a| a.len()).unwrap_or(usize::MAX)
}

pub fn replay(prop: &Prop, root: &Path, v: &Value) -> i32 {
    let dir = std::env::temp_dir().join(format!("bfreplay-{}", std::process::id()));
    fs::create_dir_all(&dir).expect("dir");
    let result = dir.join("result.json");
    let status = if v["enumerated"].as_bool().unwrap_or(false) {
        Command::new(exe()).args(["enumerate", prop.id, "--root"]).arg(root).arg("--result").arg(&result).status()
    } else {
        let tape: Vec<u32> = v["tape"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default();
        let p = dir.join("tape");
        write_tape(&p, &tape);
        Command::new(exe())
            .args(["single", prop.id, "--root"])
            .arg(root)
            .arg("--tape")
            .arg(&p)
            .args(["--cpu", &CASE_CPU_S.to_string()])
            .arg("--result")
            .arg(&result)
            .status()
    }
    .expect("replay");
    let r: Value = fs::read_to_string(&result).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(Value::Null);
    println!("{}", r["case"].as_str().unwrap_or(""));
    println!("{}", r["message"].as_str().unwrap_or(""));
    let _ = fs::remove_dir_all(&dir);
    match (status.code(), status.signal()) {
        (Some(0), _) => {
            println!("property {} holds on this case", prop.id);
            0
        }
        (Some(3), _) => {
            println!("property {} is violated by this case", prop.id);
            1
        }
        (_, Some(s)) if describe_death(s).is_some() => {
            println!("property {} is violated by this case: {}", prop.id, describe_death(s).unwrap());
            1
        }
        _ => 2,
    }
}
