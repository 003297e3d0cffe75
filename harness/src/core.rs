//! Monitor core: case contexts, library-call boundary, allocation/CPU monitors, worker/driver protocol.
use crate::rng::{fnv, Rng};
use serde_json::{json, Map, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicPtr, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocation monitor
pub struct Mon;
static LIVE: AtomicI64 = AtomicI64::new(0); // live bytes allocated since the current case's lib call began
static PEAK: AtomicI64 = AtomicI64::new(0);
static BUDGET: AtomicI64 = AtomicI64::new(i64::MAX);
static ACTIVE: AtomicBool = AtomicBool::new(false);
static SHARED: AtomicPtr<Shared> = AtomicPtr::new(std::ptr::null_mut());

/// State shared (mmap) with the driver: survives an abort of the worker.
#[repr(C)]
pub struct Shared {
    pub idx: AtomicU64,
    pub in_lib: AtomicU64,
    pub over_req: AtomicU64,
    pub over_budget: AtomicU64,
    pub cpu_kill: AtomicU64,
    pub op_len: AtomicU64,
    pub op: [u8; 200],
}

#[inline]
fn account(delta: i64) {
    let l = LIVE.fetch_add(delta, Relaxed) + delta;
    if delta > 0 {
        PEAK.fetch_max(l, Relaxed);
    }
}
unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ACTIVE.load(Relaxed) {
            if LIVE.load(Relaxed) + l.size() as i64 > BUDGET.load(Relaxed) {
                note_over(l.size());
                return std::ptr::null_mut();
            }
            account(l.size() as i64);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ACTIVE.load(Relaxed) {
            account(-(l.size() as i64));
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ACTIVE.load(Relaxed) {
            if LIVE.load(Relaxed) + l.size() as i64 > BUDGET.load(Relaxed) {
                note_over(l.size());
                return std::ptr::null_mut();
            }
            account(l.size() as i64);
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ACTIVE.load(Relaxed) {
            let d = n as i64 - l.size() as i64;
            if d > 0 && LIVE.load(Relaxed) + d > BUDGET.load(Relaxed) {
                note_over(n);
                return std::ptr::null_mut();
            }
            account(d);
        }
        System.realloc(p, l, n)
    }
}
fn note_over(req: usize) {
    let s = SHARED.load(Relaxed);
    if !s.is_null() {
        unsafe {
            (*s).over_req.store(req as u64, SeqCst);
            (*s).over_budget.store(BUDGET.load(Relaxed) as u64, SeqCst);
        }
    }
}

// ---------------------------------------------------------------- panics
thread_local! {
    static IN_LIB: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} @ {loc}"));
        if IN_LIB.with(|c| c.get()) == 0 {
            eprintln!("HARNESS PANIC: {msg} @ {loc}");
        }
    }));
}
/// Run a call into the code under test on any thread; a panic is its message.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_LIB.with(|c| c.set(c.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_LIB.with(|c| c.set(c.get() - 1));
    r.map_err(|_| last_panic())
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

// ---------------------------------------------------------------- context
#[derive(Clone, Debug)]
pub struct Viol {
    pub key: String,
    pub detail: String,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub idx: u64,
    pub thorough: bool,
    pub rng: Rng,
    pub dir: PathBuf,
    pub counters: BTreeMap<String, u64>,
    pub fps: Vec<u64>,
    pub viols: Vec<Viol>,
    pub sample: Option<Value>,
    pub verbose: bool,
}

impl Ctx {
    pub fn count(&mut self, k: &str) {
        *self.counters.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(format!("max:{k}")).or_insert(0);
        *e = (*e).max(n);
    }
    /// Record a distinct non-trivial observed state.
    pub fn distinct(&mut self, s: &str) {
        self.fps.push(fnv(s.as_bytes()));
    }
    pub fn viol(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        let (key, detail) = (key.into(), detail.into());
        if self.verbose {
            eprintln!("  viol {key}: {detail}");
        }
        if self.viols.len() < 20 {
            self.viols.push(Viol { key, detail });
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, detail: impl FnOnce() -> String) -> bool {
        self.count("checks");
        if !ok {
            let d = detail();
            self.viol(key, d);
        }
        ok
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.dir.join(name)
    }
    /// Run a call into the code under test. A panic there is a violation (key `panic:<op>`), returns None.
    pub fn lib<T>(&mut self, op: &str, f: impl FnOnce() -> T) -> Option<T> {
        self.lib_budget(op, i64::MAX, f)
    }
    /// As `lib`, with a bound on the bytes the call may hold at once.
    pub fn lib_budget<T>(&mut self, op: &str, budget: i64, f: impl FnOnce() -> T) -> Option<T> {
        match self.lib_quiet(op, budget, f) {
            Ok(v) => Some(v),
            Err(p) => {
                // The key keeps the panic site's file (not line) and the message without numbers.
                let k: String = p.chars().map(|c| if c.is_ascii_digit() { 'N' } else { c }).collect();
                let k = k.split(" @ ").next().unwrap_or("").chars().take(80).collect::<String>();
                self.viol(format!("panic:{op}:{k}"), format!("{op} panicked: {p}"));
                None
            }
        }
    }
    pub fn lib_quiet<T>(&mut self, op: &str, budget: i64, f: impl FnOnce() -> T) -> Result<T, String> {
        self.count("lib_calls");
        set_op(op, 1);
        LIVE.store(0, Relaxed);
        PEAK.store(0, Relaxed);
        BUDGET.store(budget, Relaxed);
        IN_LIB.with(|c| c.set(c.get() + 1));
        ACTIVE.store(true, SeqCst);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        ACTIVE.store(false, SeqCst);
        IN_LIB.with(|c| c.set(c.get() - 1));
        set_op("", 0);
        r.map_err(|_| last_panic())
    }
    pub fn last_peak(&self) -> u64 {
        PEAK.load(Relaxed).max(0) as u64
    }
    pub fn err_note(&mut self, op: &str, e: &mopaq::Error) {
        let k = format!("{e:?}");
        let k = k.split(['(', '{', ' ']).next().unwrap_or("?").to_string();
        self.count(&format!("err:{op}:{k}"));
    }
}

fn set_op(op: &str, in_lib: u64) {
    let s = SHARED.load(Relaxed);
    if s.is_null() {
        return;
    }
    unsafe {
        if in_lib == 1 {
            let n = op.len().min(200);
            std::ptr::copy_nonoverlapping(op.as_ptr(), std::ptr::addr_of_mut!((*s).op) as *mut u8, n);
            (*s).op_len.store(n as u64, SeqCst);
            (*s).over_req.store(0, SeqCst);
        }
        (*s).in_lib.store(in_lib, SeqCst);
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
/// Short description of the first difference between two byte strings.
pub fn diff(got: &[u8], want: &[u8]) -> String {
    let n = got.len().min(want.len());
    let at = (0..n).find(|&i| got[i] != want[i]).unwrap_or(n);
    let w = |b: &[u8]| hex(&b[at.min(b.len())..(at + 8).min(b.len())]);
    format!("len got={} want={}, first difference at {}: got {} want {}", got.len(), want.len(), at, w(got), w(want))
}

// ---------------------------------------------------------------- property registry
pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx),
    /// counters that must reach this value for the run to say anything
    pub need: &'static [(&'static str, u64)],
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub workers: usize,
}

fn map_shared(path: &Path) -> *mut Shared {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    f.set_len(4096).unwrap();
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut Shared
    }
}

fn cpu_now() -> f64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts);
        ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
    }
}

pub const CPU_LIMIT: f64 = 90.0;

/// Calls `hung` when every other thread of the process has been waiting for IDLE_LIMIT seconds without a break: no
/// processor time used, none runnable, none waiting for a device. (A process that is merely starved is runnable.)
pub fn watch_idle(hung: impl Fn() + Send + 'static) {
    std::thread::spawn(move || {
        let me = unsafe { libc::syscall(libc::SYS_gettid) } as i64;
        let (mut idle, mut last) = (0, 0.0);
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = cpu_now();
            let asleep = || {
                std::fs::read_dir("/proc/self/task").map_or(false, |d| {
                    d.filter_map(|e| e.ok()).all(|e| {
                        e.file_name().to_string_lossy().parse() == Ok(me)
                            || std::fs::read_to_string(e.path().join("stat")).map_or(false, |s| s.rsplit(") ").next().is_some_and(|x| x.starts_with('S')))
                    })
                })
            };
            // (other watching threads may be awake for an instant)
            let quiet = (0..5).any(|k| {
                std::thread::sleep(Duration::from_millis(7 * k));
                asleep()
            });
            idle = if now - last < 0.02 && quiet { idle + 1 } else { 0 };
            last = now;
            if idle >= 2 * IDLE_LIMIT {
                hung();
                idle = 0;
            }
        }
    });
}
pub const IDLE_LIMIT: u32 = 60;

static CASE_CPU0: AtomicU64 = AtomicU64::new(0);

/// Worker: runs cases idx = start, start+step, ... < end and reports JSON lines on stdout.
pub fn worker(p: &Prop, seed: u64, thorough: bool, start: u64, step: u64, end: u64, scratch: &Path, shm: &Path) {
    install_panic_hook();
    let sh = map_shared(shm);
    SHARED.store(sh, SeqCst);
    unsafe {
        // no core files; bounded address space so that a runaway allocation cannot take the machine down
        let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &r);
        let mut r: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_AS, &mut r);
        r.rlim_cur = (24 << 30).min(r.rlim_max);
        libc::setrlimit(libc::RLIMIT_AS, &r);
    }
    watch_idle(|| {
        let s = SHARED.load(Relaxed);
        unsafe {
            if (*s).in_lib.load(SeqCst) == 1 {
                (*s).cpu_kill.store(2, SeqCst);
                libc::_exit(77);
            }
        }
    });
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let c0 = f64::from_bits(CASE_CPU0.load(SeqCst));
        if cpu_now() - c0 > CPU_LIMIT {
            let s = SHARED.load(Relaxed);
            unsafe {
                if (*s).in_lib.load(SeqCst) == 1 {
                    (*s).cpu_kill.store(1, SeqCst);
                }
                libc::_exit(77);
            }
        }
    });
    let out = std::io::stdout();
    let mut idx = start;
    while idx < end {
        unsafe { (*sh).idx.store(idx, SeqCst) };
        CASE_CPU0.store(cpu_now().to_bits(), SeqCst);
        let (ctx, ok) = run_case(p, seed, thorough, idx, scratch, false);
        let mut m = Map::new();
        m.insert("idx".into(), json!(idx));
        m.insert("c".into(), json!(ctx.counters));
        m.insert("f".into(), json!(ctx.fps));
        if !ctx.viols.is_empty() {
            m.insert(
                "v".into(),
                Value::Array(ctx.viols.iter().map(|v| json!([v.key, v.detail])).collect()),
            );
        }
        if let Some(s) = &ctx.sample {
            m.insert("s".into(), s.clone());
        }
        if !ok {
            m.insert("harness_error".into(), json!(last_panic()));
        }
        let mut o = out.lock();
        let _ = writeln!(o, "{}", Value::Object(m));
        let _ = o.flush();
        idx += step;
    }
}

pub fn run_case(p: &Prop, seed: u64, thorough: bool, idx: u64, scratch: &Path, verbose: bool) -> (Ctx, bool) {
    let dir = scratch.join(format!("c{idx}"));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let mut ctx = Ctx {
        prop: p.id.into(),
        seed,
        idx,
        thorough,
        rng: Rng::for_case(p.id, seed, idx),
        dir: dir.clone(),
        counters: BTreeMap::new(),
        fps: vec![],
        viols: vec![],
        sample: None,
        verbose,
    };
    let run = p.run;
    let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&mut ctx))).is_ok();
    let _ = std::fs::remove_dir_all(&dir);
    (ctx, ok)
}

#[derive(Default)]
struct Agg {
    counters: BTreeMap<String, u64>,
    fps: HashSet<u64>,
    viols: Vec<(u64, String, String)>,
    samples: Vec<Value>,
    errors: Vec<String>,
    cases: u64,
}

fn known(prop: &str) -> Vec<(String, String)> {
    // lines: "finding: property=<id> key=<exact key> :: <text>"
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string("/verif/known_findings.txt") {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                if let Some((id, rest)) = r.split_once(' ') {
                    if id == prop {
                        if let Some((k, t)) = rest.strip_prefix("key=").and_then(|x| x.split_once(" :: ")) {
                            v.push((k.to_string(), t.to_string()));
                        }
                    }
                }
            }
        }
    }
    v
}

pub fn drive(p: &Prop, seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let n = std::env::var("VH_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    let cap = if thorough { 3000.0 } else { 420.0 };
    let scratch = PathBuf::from(std::env::var("VH_SCRATCH").unwrap_or_else(|_| "/tmp".into()))
        .join(format!("vh-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let exe = std::env::current_exe().unwrap();
    let nw = p.workers as u64;
    let agg = std::sync::Mutex::new(Agg::default());
    let stop = AtomicBool::new(false);
    std::thread::scope(|sc| {
        for w in 0..nw {
            let (agg, stop, scratch, exe) = (&agg, &stop, &scratch, &exe);
            sc.spawn(move || {
                let mut start = w;
                let shm = scratch.join(format!("shm{w}"));
                let sh = map_shared(&shm);
                while start < n && !stop.load(SeqCst) {
                    let wd = scratch.join(format!("w{w}"));
                    let _ = std::fs::create_dir_all(&wd);
                    let errf = std::fs::File::create(scratch.join(format!("err{w}"))).unwrap();
                    let mut ch = std::process::Command::new(exe)
                        .args(["worker", p.id, &seed.to_string(), if thorough { "thorough" } else { "quick" }])
                        .args([start.to_string(), nw.to_string(), n.to_string()])
                        .arg(&wd)
                        .arg(&shm)
                        .current_dir(&wd)
                        .stdout(std::process::Stdio::piped())
                        .stderr(errf)
                        .spawn()
                        .expect("spawn worker");
                    let rd = BufReader::new(ch.stdout.take().unwrap());
                    let mut last: Option<u64> = None;
                    for line in rd.lines() {
                        let Ok(line) = line else { break };
                        let Ok(v) = serde_json::from_str::<Value>(&line) else { continue };
                        let idx = v["idx"].as_u64().unwrap_or(0);
                        last = Some(idx);
                        let mut a = agg.lock().unwrap();
                        a.cases += 1;
                        if let Some(m) = v["c"].as_object() {
                            for (k, x) in m {
                                let x = x.as_u64().unwrap_or(0);
                                let e = a.counters.entry(k.clone()).or_insert(0);
                                if k.starts_with("max:") {
                                    *e = (*e).max(x);
                                } else {
                                    *e += x;
                                }
                            }
                        }
                        if let Some(f) = v["f"].as_array() {
                            for x in f {
                                a.fps.insert(x.as_u64().unwrap_or(0));
                            }
                        }
                        if let Some(vs) = v["v"].as_array() {
                            for x in vs {
                                a.viols.push((idx, x[0].as_str().unwrap_or("").into(), x[1].as_str().unwrap_or("").into()));
                            }
                        }
                        if let Some(h) = v.get("harness_error") {
                            a.errors.push(format!("case {idx}: {h}"));
                        }
                        if let Some(s) = v.get("s") {
                            if a.samples.len() < 12 {
                                a.samples.push(s.clone());
                            }
                        }
                        let many = a.viols.len() > 200 || a.errors.len() > 50;
                        drop(a);
                        if many || t0.elapsed().as_secs_f64() > cap {
                            stop.store(true, SeqCst);
                        }
                        if stop.load(SeqCst) {
                            let _ = ch.kill();
                            break;
                        }
                    }
                    let st = ch.wait().expect("wait");
                    let _ = std::fs::remove_dir_all(&wd);
                    if stop.load(SeqCst) || st.success() {
                        break;
                    }
                    // The worker died: attribute it.
                    use std::os::unix::process::ExitStatusExt;
                    let (idx, in_lib, req, bud, cpu, op) = unsafe {
                        let s = &*sh;
                        let n = s.op_len.load(SeqCst) as usize;
                        (
                            s.idx.load(SeqCst),
                            s.in_lib.load(SeqCst),
                            s.over_req.load(SeqCst),
                            s.over_budget.load(SeqCst),
                            s.cpu_kill.load(SeqCst),
                            String::from_utf8_lossy(&s.op[..n.min(200)]).to_string(),
                        )
                    };
                    let err = std::fs::read_to_string(scratch.join(format!("err{w}"))).unwrap_or_default();
                    let tail: String = err.lines().rev().take(4).collect::<Vec<_>>().join(" | ");
                    let mut a = agg.lock().unwrap();
                    let sig = st.signal();
                    if st.code() == Some(79) && last == Some(idx) {
                        // the case has been reported by the worker before it ended itself
                    } else if last == Some(idx) && in_lib == 0 && sig.is_none() {
                        a.errors.push(format!("worker {w} exited {st:?} after case {idx}: {tail}"));
                    } else if cpu == 2 {
                        a.viols.push((idx, format!("nonterm:{op}"), format!("{op}: every thread has been waiting for more than {IDLE_LIMIT} s")));
                    } else if cpu == 1 {
                        a.viols.push((idx, format!("nonterm:{op}"), format!("{op} used more than {CPU_LIMIT} s of CPU time without returning")));
                    } else if in_lib == 1 && sig == Some(libc::SIGABRT) && req > 0 {
                        a.viols.push((idx, format!("alloc:{op}"), format!("{op} aborted the process: asked for {req} bytes while limited to {bud} for this input ({tail})")));
                    } else if in_lib == 1 && matches!(sig, Some(libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE)) {
                        a.viols.push((idx, format!("crash:{op}"), format!("{op} killed the process with signal {} ({tail})", sig.unwrap())));
                    } else {
                        a.errors.push(format!("worker {w} died {st:?} in case {idx} (in_lib={in_lib} op={op}): {tail}"));
                    }
                    unsafe {
                        (*sh).cpu_kill.store(0, SeqCst);
                        (*sh).over_req.store(0, SeqCst);
                        (*sh).in_lib.store(0, SeqCst);
                    }
                    a.cases += 1;
                    // (calls that never return take long to establish: two are enough)
                    if a.viols.len() > 200 || a.errors.len() > 50 || a.viols.iter().filter(|v| v.1.starts_with("nonterm:")).count() >= 2 {
                        stop.store(true, SeqCst);
                    }
                    start = idx + nw;
                }
            });
        }
    });
    let _ = std::fs::remove_dir_all(&scratch);
    let a = agg.into_inner().unwrap();
    finish(p.id, p.level, p.rule, p.assumptions, p.need, seed, thorough, t0, a.cases, a.counters, a.fps.len() as u64, a.viols, a.samples, a.errors)
}

/// Common end of a run: known findings, evidence, verdict.
#[allow(clippy::too_many_arguments)]
pub fn finish(
    id: &str,
    level: &str,
    rule: &str,
    assumptions: &[&str],
    need: &[(&str, u64)],
    seed: u64,
    thorough: bool,
    t0: Instant,
    cases: u64,
    counters: BTreeMap<String, u64>,
    distinct: u64,
    viols: Vec<(u64, String, String)>,
    samples: Vec<Value>,
    errors: Vec<String>,
) -> i32 {
    let kf = known(id);
    let evd = PathBuf::from("/verif/evidence");
    let rpd = evd.join("replay");
    let _ = std::fs::create_dir_all(&rpd);
    let mut new = vec![];
    let mut seen_known = BTreeSet::new();
    for v in &viols {
        if kf.iter().any(|(k, _)| *k == v.1) {
            seen_known.insert(v.1.clone());
        } else {
            new.push(v.clone());
        }
    }
    for (k, t) in &kf {
        println!("KNOWN-FINDING: property={id} {t} [key={k}{}]", if seen_known.contains(k) { ", observed in this run" } else { "" });
    }
    let mut keys: Vec<&str> = vec![];
    let mut printed = 0;
    for (idx, key, detail) in &new {
        if keys.contains(&key.as_str()) {
            continue;
        }
        keys.push(key);
        if printed < 10 {
            let name: String = key.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).take(60).collect();
            let rp = rpd.join(format!("{id}-{seed}-{idx}-{name}.json"));
            let _ = std::fs::write(
                &rp,
                serde_json::to_string_pretty(&json!({"property": id, "seed": seed, "idx": idx, "tier": if thorough {"thorough"} else {"quick"}, "key": key, "detail": detail, "how": format!("/verif/run.sh replay {}", rp.display())})).unwrap(),
            );
            println!("VIOLATION property={id} replay={}", rp.display());
            println!("  {key}: {detail}");
            printed += 1;
        }
    }
    let mut short = vec![];
    for (k, n) in need {
        let have = counters.get(*k).copied().unwrap_or(0);
        if have < *n {
            short.push(format!("{k}: observed {have}, need {n}"));
        }
    }
    let evals = counters.get("checks").copied().unwrap_or(0);
    let ev = json!({
        "property": id,
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": seed,
        "level": level,
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": distinct,
            "rule": rule,
            "samples": samples,
            "observed": counters,
        },
        "wall_s": t0.elapsed().as_secs_f64(),
        "assumptions": assumptions,
        "violations": new.len(),
        "known_findings_observed": seen_known,
        "harness_errors": errors,
    });
    std::fs::write(evd.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    eprintln!(
        "{id}: {cases} cases, {evals} checks, {distinct} distinct, {} violations ({} distinct keys), {} errors, {:.1}s",
        new.len(),
        keys.len(),
        errors.len(),
        t0.elapsed().as_secs_f64()
    );
    if !new.is_empty() {
        return 1;
    }
    if !errors.is_empty() {
        for e in errors.iter().take(10) {
            eprintln!("HARNESS-ERROR {e}");
        }
        return 2;
    }
    if !short.is_empty() {
        eprintln!("INCONCLUSIVE: {}", short.join("; "));
        return 2;
    }
    0
}
