//! C14: the C interface, several callers. Programs of two to four threads over shared archives and files
//! run under a scheduler that decides, at every lock and between calls, who goes on; each history has to
//! fit some order of its calls that respects their real-time order (linearizability against the model),
//! and every run has to end. Free-running threads (also under ThreadSanitizer) do the same uncontrolled.
use crate::api::{exec, exec_nested, Op, Resp};
use crate::c13::show;
use crate::core::{Ctx, Prop};
use crate::model::{self, ArchM, Disk, State};
use crate::rng::{fnv, Rng};
use serde_json::json;
use std::collections::HashSet;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vh_sync::sched;

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        quick: 12000,
        thorough: 240000,
        run,
        need: &[
            ("controlled_runs", 50000),
            ("free_runs", 30000),
            ("histories_linearized", 90000),
            ("overlapping_calls", 50000),
            ("close_overlaps_open", 300),
        ],
        rule: "distinct schedules (sequences of lock acquisitions, releases and waits by thread) of distinct programs, each with its history linearized",
        level: "exploration",
        assumptions: &[
            "switches happen at locks, atomics and between calls; between them threads share nothing (what they may not share is watched by ThreadSanitizer)",
            "changing one archive file on disk from several threads at once is not judged",
        ],
        workers: 8,
    }
}

/// A call of a thread's program; handles are chosen when it is made.
#[derive(Clone, Debug)]
enum Src {
    /// handle made by the setup
    Arch(usize),
    File(usize),
    /// the last handle this thread got
    Mine,
    /// the last handle any thread got
    Latest,
    Bogus,
}
#[derive(Clone, Debug)]
struct Call {
    src: Src,
    op: Op,
    /// calls made from the callback of an enumeration
    nested: Vec<Call>,
    /// keep the handle it returns as Mine/Latest
    keep: bool,
}
#[derive(Clone)]
struct Prog {
    threads: Vec<Vec<Call>>,
    open: usize,
    files: Vec<(usize, Vec<u8>)>,
}
#[derive(Clone, Debug)]
struct Ev {
    t: usize,
    call: u64,
    ret: u64,
    op: Op,
    resp: Resp,
}

fn with_handle(op: &Op, h: u64) -> Op {
    let mut o = op.clone();
    match &mut o {
        Op::CloseArchive(x) | Op::CloseFile(x) => *x = h,
        Op::OpenFile { a, .. } | Op::Has { a, .. } | Op::ArchName { a, .. } | Op::Enum { a, .. } | Op::Extract { a, .. } | Op::VerifyFile { a, .. } | Op::VerifyArchive { a, .. } => *a = h,
        Op::Read { h: x, .. } | Op::Size { h: x, .. } | Op::Seek { h: x, .. } | Op::Info { h: x, .. } | Op::FileName { h: x, .. } => *x = h,
        _ => {}
    }
    o
}

fn gen_call(r: &mut Rng, archs: &[(Vec<u8>, Arc<ArchM>)], nopen: usize, nfiles: usize, dir: &[u8], uid: &mut u32, depth: usize) -> Call {
    let ai = r.usize(nopen.max(1));
    let m = &archs[ai % archs.len()].1;
    let e = &m.entries[r.usize(m.entries.len())];
    let name = if r.chance(1, 10) { b"nope".to_vec() } else { e.name.clone().into_bytes() };
    let arch_src = |r: &mut Rng| match r.below(12) {
        0 => Src::Latest,
        1 => Src::Mine,
        2 if nfiles > 0 => Src::File(r.usize(nfiles)),
        3 if r.bool() => Src::Bogus,
        _ => Src::Arch(ai),
    };
    let file_src = |r: &mut Rng| match r.below(10) {
        0..=2 => Src::Mine,
        3..=4 => Src::Latest,
        5 if r.chance(1, 3) => Src::Arch(ai),
        _ if nfiles > 0 => Src::File(r.usize(nfiles)),
        _ => Src::Mine,
    };
    let c = |src: Src, op: Op, keep: bool| Call { src, op, nested: vec![], keep };
    let k = if depth > 0 { *r.pick(&[10u64, 20, 30, 50, 60, 70, 5]) } else { r.below(100) };
    match k {
        0..=3 => c(Src::Bogus, Op::OpenArchive { path: Some(archs[r.usize(archs.len())].0.clone()), out: true }, true),
        4..=17 => c(arch_src(r), Op::OpenFile { a: 0, name: Some(name), out: true }, true),
        18..=27 => c(arch_src(r), Op::CloseArchive(0), false),
        28..=35 => c(file_src(r), Op::CloseFile(0), false),
        36..=50 => c(file_src(r), Op::Read { h: 0, n: *r.pick(&[1u32, 7, 100, 600, 2000]), buf: true, cnt: true }, false),
        51..=58 => c(file_src(r), Op::Seek { h: 0, lo: *r.pick(&[0i32, 1, -1, 10, -10, 100, -5]), hi: if r.bool() { None } else { Some(0) }, m: r.below(3) as u32 }, false),
        59..=62 => c(file_src(r), Op::Size { h: 0, high: true }, false),
        63..=67 => {
            if r.bool() {
                c(file_src(r), Op::Info { h: 0, class: *r.pick(&[7u32, 10, 10]), n: 8, buf: true, need: true, skew: 0 }, false)
            } else {
                c(arch_src(r), Op::Info { h: 0, class: *r.pick(&[1u32, 4]), n: 8, buf: true, need: true, skew: 0 }, false)
            }
        }
        68..=71 => c(arch_src(r), Op::Has { a: 0, name: Some(name) }, false),
        72..=74 => c(file_src(r), Op::FileName { h: 0, buf: true, room: 600 }, false),
        75..=76 => c(arch_src(r), Op::ArchName { a: 0, n: 600, buf: true }, false),
        77..=83 => {
            let mut x = c(arch_src(r), Op::Enum { a: 0, mask: None, stop: if r.chance(1, 3) { Some(1) } else { None }, cb: true }, false);
            if r.bool() {
                for _ in 0..r.range(1, 2) {
                    let n = gen_call(r, archs, nopen, nfiles, dir, uid, depth + 1);
                    x.nested.push(n);
                }
            }
            x
        }
        84..=87 => c(arch_src(r), Op::VerifyFile { a: 0, name: Some(name), flags: *r.pick(&[0u32, 1, 7]) }, false),
        88..=90 => c(arch_src(r), Op::VerifyArchive { a: 0, flags: *r.pick(&[0x20u32, 0x10, 0xFF]) }, false),
        91..=93 => {
            *uid += 1;
            c(arch_src(r), Op::Extract { a: 0, name: Some(name), dest: Some([dir, format!("/x{uid}").as_bytes()].concat()) }, false)
        }
        _ => match r.below(4) {
            0 => c(Src::Bogus, Op::SetLocale(r.below(1000) as u32), false),
            1 => c(Src::Bogus, Op::GetLocale, false),
            2 => c(Src::Bogus, Op::SetErr(1000 + r.below(1000) as u32), false),
            _ => c(Src::Bogus, Op::GetErr, false),
        },
    }
}

fn gen_prog(r: &mut Rng, archs: &[(Vec<u8>, Arc<ArchM>)], dir: &[u8], uid: &mut u32) -> Prog {
    let open = r.range(1, 2);
    let nf = r.usize(3);
    let mut files = vec![];
    for _ in 0..nf {
        let a = r.usize(open);
        let m = &archs[a % archs.len()].1;
        let ok: Vec<_> = m.entries.iter().filter(|e| !e.broken).collect();
        files.push((a, r.pick(&ok).name.clone().into_bytes()));
    }
    let nt = *r.pick(&[2usize, 2, 2, 3, 3, 4]);
    let per = if nt == 4 { 2 } else { r.range(2, 4) };
    let mut threads = vec![];
    for _ in 0..nt {
        threads.push((0..per).map(|_| gen_call(r, archs, open, nf, dir, uid, 0)).collect());
    }
    Prog { threads, open, files }
}

static CLOCK: AtomicU64 = AtomicU64::new(1);
static LATEST: AtomicU64 = AtomicU64::new(0);

fn resolve(s: &Src, setup: &(Vec<u64>, Vec<u64>), mine: u64) -> u64 {
    match s {
        Src::Arch(i) => setup.0[*i % setup.0.len()],
        Src::File(i) => setup.1.get(*i).copied().unwrap_or(0),
        Src::Mine => mine,
        Src::Latest => LATEST.load(SeqCst),
        Src::Bogus => 1 << 61,
    }
}
fn perform(t: usize, c: &Call, setup: &(Vec<u64>, Vec<u64>), mine: &mut u64, evs: &mut Vec<Ev>) {
    sched::point();
    let op = with_handle(&c.op, resolve(&c.src, setup, *mine));
    let call = CLOCK.fetch_add(1, SeqCst);
    let resp = if c.nested.is_empty() {
        exec(&op)
    } else {
        let mut inner: Vec<Ev> = vec![];
        let mut my = *mine;
        let resp = {
            let mut left = 2;
            let mut cb = |_: &[u8]| {
                if left > 0 {
                    left -= 1;
                    for n in &c.nested {
                        perform(t, n, setup, &mut my, &mut inner);
                    }
                }
            };
            exec_nested(&op, Some(&mut cb))
        };
        *mine = my;
        evs.append(&mut inner);
        resp
    };
    let ret = CLOCK.fetch_add(1, SeqCst);
    if c.keep && resp.ret == 1 {
        *mine = resp.h;
        LATEST.store(resp.h, SeqCst);
    }
    evs.push(Ev { t, call, ret, op, resp });
}

static REPORT: Mutex<Option<(u64, String)>> = Mutex::new(None);
/// Report the case as failed and end the worker: threads that wait for each other cannot be stopped.
fn dead(what: String) {
    let g = REPORT.lock().unwrap_or_else(|e| e.into_inner());
    let (idx, prog) = g.clone().unwrap_or((0, String::new()));
    let line = json!({"idx": idx, "c": {"deadlocks": 1}, "f": [], "v": [["deadlock", format!("{what}; program: {prog}")]]});
    println!("{line}");
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(79) };
}

/// Is there an order of the calls that fits the model and their real-time order?
fn linearize(st: &State, evs: &[Ev]) -> Result<u64, String> {
    let n = evs.len();
    assert!(n <= 64);
    let mut seen: HashSet<(u64, u64)> = HashSet::new();
    let mut best: (u32, String) = (0, String::new());
    let mut steps = 0u64;
    // pred[i]: events that returned before i was called
    let pred: Vec<u64> = (0..n).map(|i| (0..n).filter(|&j| j != i && evs[j].ret < evs[i].call).fold(0, |m, j| m | 1 << j)).collect();
    let full = if n == 64 { u64::MAX } else { (1u64 << n) - 1 };
    let mut stack: Vec<(u64, State)> = vec![(0, st.clone())];
    while let Some((mask, s)) = stack.pop() {
        if mask == full {
            return Ok(steps);
        }
        for i in (0..n).rev() {
            if mask >> i & 1 == 1 || pred[i] & !mask != 0 {
                continue;
            }
            steps += 1;
            let mut x = s.clone();
            if matches!(evs[i].op, Op::GetErr) {
                // checked per thread, in the order of returns
                stack.push((mask | 1 << i, x));
                break;
            }
            match x.apply(evs[i].t, &evs[i].op, &evs[i].resp) {
                Ok(()) => {
                    let m = mask | 1 << i;
                    let key = fnv(
                        format!("{:?}{:?}{:?}", x.archives.keys().collect::<Vec<_>>(), x.files.iter().map(|(h, f)| (*h, f.pos)).collect::<Vec<_>>(), &x.locale).as_bytes(),
                    );
                    if seen.insert((m, key)) {
                        stack.push((m, x));
                    }
                }
                Err(e) => {
                    let k = mask.count_ones();
                    if best.1.is_empty() || k >= best.0 {
                        best = (k, format!("after {k} of {n} calls, {} by thread {}: {e}", show(&evs[i].op), evs[i].t));
                    }
                }
            }
        }
        if steps > 400_000 {
            return Ok(steps); // undecided: counted by the caller
        }
    }
    Err(best.1)
}

/// The last error a thread reads is the one its own last call left.
fn own_errors(evs: &[Ev], nt: usize) -> Option<String> {
    for t in 0..nt {
        let mut mine: Vec<&Ev> = evs.iter().filter(|e| e.t == t).collect();
        mine.sort_by_key(|e| e.ret);
        let mut last: Option<u32> = None;
        for e in mine {
            if let (Op::GetErr, Some(l)) = (&e.op, last) {
                if e.resp.ret != l as u64 {
                    return Some(format!("thread {t} reads last error {:#x}, its last call left {l:#x}", e.resp.ret));
                }
            }
            last = Some(e.resp.err);
        }
    }
    None
}

fn show_history(evs: &[Ev]) -> String {
    let mut v: Vec<&Ev> = evs.iter().collect();
    v.sort_by_key(|e| e.call);
    v.iter()
        .map(|e| format!("t{} [{}-{}] {} -> {:#x} err {} h {:#x}", e.t, e.call, e.ret, show(&e.op), e.resp.ret, model::err_name(e.resp.err), if e.resp.h == crate::api::UNSET { 0 } else { e.resp.h }))
        .collect::<Vec<_>>()
        .join("\n      ")
}

enum How {
    Controlled(u64, Option<u64>),
    Free(u64),
}

/// One run of a program. Returns the number of overlapping calls seen, or the violation.
#[allow(clippy::type_complexity)]
fn run_once(prog: &Prog, base: &State, archs: &[(Vec<u8>, Arc<ArchM>)], how: How) -> Result<(u64, u64, Option<sched::Outcome>, u64), (String, String)> {
    let mut st = base.clone();
    let mut setup = (vec![], vec![]);
    let mut pre = |op: Op, out: &mut Vec<u64>, st: &mut State| -> Result<(), (String, String)> {
        let resp = exec(&op);
        st.apply(99, &op, &resp).map_err(|e| ("setup".to_string(), format!("{}: {e}", show(&op))))?;
        out.push(resp.h);
        Ok(())
    };
    for i in 0..prog.open {
        pre(Op::OpenArchive { path: Some(archs[i % archs.len()].0.clone()), out: true }, &mut setup.0, &mut st)?;
    }
    for (a, n) in &prog.files {
        pre(Op::OpenFile { a: setup.0[*a], name: Some(n.clone()), out: true }, &mut setup.1, &mut st)?;
    }
    LATEST.store(setup.1.last().copied().unwrap_or(setup.0[0]), SeqCst);
    let setup = Arc::new(setup);
    let hist: Arc<Mutex<Vec<Ev>>> = Arc::new(Mutex::new(vec![]));
    let nt = prog.threads.len();
    let free = matches!(how, How::Free(_));
    let barrier = Arc::new(std::sync::Barrier::new(nt));
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, calls) in prog.threads.iter().enumerate() {
        let (calls, setup, hist, barrier) = (calls.clone(), setup.clone(), hist.clone(), barrier.clone());
        let mut jit = match how {
            How::Free(s) => Rng::new(s ^ (t as u64) << 32),
            _ => Rng::new(0),
        };
        bodies.push(Box::new(move || {
            if free {
                barrier.wait();
            }
            let mut mine = 0;
            let mut evs = vec![];
            for c in &calls {
                if free {
                    match jit.below(4) {
                        0 => std::thread::yield_now(),
                        1 => {
                            for _ in 0..jit.below(3000) {
                                std::hint::spin_loop();
                            }
                        }
                        _ => {}
                    }
                }
                perform(t, c, &setup, &mut mine, &mut evs);
            }
            hist.lock().unwrap().append(&mut evs);
        }));
    }
    let mut outcome = None;
    match how {
        How::Controlled(seed, pct) => {
            let o = sched::run(bodies, seed, pct, dead);
            if o.stalled {
                // released from control: the threads have to end by themselves
                let t0 = Instant::now();
                let want: usize = nt;
                let _ = want;
                while Arc::strong_count(&hist) > 1 {
                    if t0.elapsed() > Duration::from_secs(60) {
                        dead("threads did not end".into());
                    }
                    std::thread::sleep(Duration::from_millis(20));
                }
            }
            outcome = Some(o);
        }
        How::Free(_) => {
            let hs: Vec<_> = bodies.into_iter().map(std::thread::spawn).collect();
            let t0 = Instant::now();
            while !hs.iter().all(|h| h.is_finished()) {
                if t0.elapsed() > Duration::from_secs(60) {
                    dead("free-running threads did not end within 60 s".into());
                }
                if t0.elapsed() > Duration::from_millis(5) {
                    std::thread::sleep(Duration::from_micros(200));
                } else {
                    std::thread::yield_now();
                }
            }
            for h in hs {
                if h.join().is_err() {
                    return Err(("panic".into(), crate::core::last_panic()));
                }
            }
        }
    }
    let mut evs = std::mem::take(&mut *hist.lock().unwrap());
    evs.sort_by_key(|e| e.call);
    let overlaps = (0..evs.len()).map(|i| (i + 1..evs.len()).filter(|&j| evs[j].call < evs[i].ret && evs[j].t != evs[i].t).count() as u64).sum::<u64>();
    let close_open = evs
        .iter()
        .filter(|e| matches!(e.op, Op::CloseArchive(_)) && e.resp.ret == 1)
        .map(|c| evs.iter().filter(|o| matches!(o.op, Op::OpenFile { .. }) && o.t != c.t && o.call < c.ret && c.call < o.ret).count() as u64)
        .sum::<u64>();
    // what is open now: ask every handle that was ever issued
    let mut hs: Vec<u64> = setup.0.iter().chain(setup.1.iter()).copied().collect();
    hs.extend(evs.iter().filter(|e| e.resp.ret == 1 && matches!(e.op, Op::OpenArchive { .. } | Op::OpenFile { .. })).map(|e| e.resp.h));
    for h in &hs {
        for op in [Op::Info { h: *h, class: 10, n: 8, buf: true, need: true, skew: 0 }, Op::ArchName { a: *h, n: 600, buf: true }] {
            if evs.len() >= 60 {
                break;
            }
            let call = CLOCK.fetch_add(1, SeqCst);
            let resp = exec(&op);
            let ret = CLOCK.fetch_add(1, SeqCst);
            evs.push(Ev { t: 98, call, ret, op, resp });
        }
    }
    let mut own = own_errors(&evs, nt);
    let r = linearize(&st, &evs).and_then(|x| own.take().map_or(Ok(x), Err));
    for h in &hs {
        exec(&Op::CloseArchive(*h));
    }
    for h in &hs {
        exec(&Op::CloseFile(*h));
    }
    match r {
        Ok(steps) => Ok((overlaps, close_open, outcome, steps)),
        Err(e) => Err(("linearizability".into(), format!("no order of the calls explains their results ({e})\n      {}", show_history(&evs)))),
    }
}

fn world(ctx: &mut Ctx, r: &mut Rng, dir: &Path) -> Option<(State, Vec<(Vec<u8>, Arc<ArchM>)>, Vec<u8>)> {
    use std::os::unix::ffi::OsStrExt;
    let mut st = State::default();
    let mut archs = vec![];
    for n in ["p.mpq", "q.mpq"] {
        let p = dir.join(n);
        let m = model::make(ctx, r, &p, true)?;
        let b = p.as_os_str().as_bytes().to_vec();
        st.disk.insert(b.clone(), Disk::Archive(m.clone()));
        archs.push((b, m));
    }
    Some((st, archs, dir.as_os_str().as_bytes().to_vec()))
}

pub fn run(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    if ctx.idx % 400 == 7 {
        if let Ok(exe) = std::env::var("VF_TSAN") {
            return tsan_case(ctx, &exe);
        }
        ctx.count("tsan_unavailable");
    }
    let dir = ctx.dir.clone();
    let Some((base, archs, db)) = world(ctx, &mut r, &dir) else { return };
    let mut uid = 0;
    for _ in 0..3 {
        let prog = gen_prog(&mut r, &archs, &db, &mut uid);
        let text = format!("{} open, files {:?}, threads {:?}", prog.open, prog.files.iter().map(|f| String::from_utf8_lossy(&f.1).to_string()).collect::<Vec<_>>(), prog.threads.iter().map(|t| t.iter().map(|c| format!("{:?} {}", c.src, show(&c.op))).collect::<Vec<_>>()).collect::<Vec<_>>());
        *REPORT.lock().unwrap() = Some((ctx.idx, text.clone()));
        for k in 0..5 {
            // destinations of extractions start absent
            clean(&dir);
            let how = match k {
                0 | 1 => How::Controlled(r.next(), None),
                2 => How::Controlled(r.next(), Some(r.range(1, 4) as u64)),
                _ => How::Free(r.next()),
            };
            let controlled = k <= 2;
            let Some(res) = ctx.lib("SFile calls of several threads", || run_once(&prog, &base, &archs, how)) else { return };
            ctx.count("checks");
            ctx.count(if controlled { "controlled_runs" } else { "free_runs" });
            match res {
                Ok((ov, co, out, steps)) => {
                    ctx.add("overlapping_calls", ov);
                    ctx.add("close_overlaps_open", co);
                    ctx.add("linearization_steps", steps);
                    if steps > 400_000 {
                        ctx.count("undecided");
                    } else {
                        ctx.count("histories_linearized");
                    }
                    if let Some(o) = out {
                        ctx.add("switches", o.switches);
                        ctx.add("waits_for_locks", o.contended);
                        ctx.add("lock_events", o.trace.len() as u64);
                        if o.stalled {
                            ctx.count("stalled");
                        }
                        let ops: Vec<String> = prog.threads.iter().flatten().map(|c| format!("{:?}", c.op).split([' ', '(']).next().unwrap().to_string()).collect();
                        ctx.distinct(&format!("{ops:?} {:?}", o.trace));
                    }
                }
                Err((k, d)) => {
                    ctx.viol(format!("ffi-threads:{k}"), format!("{d}\n      program: {text}"));
                    return;
                }
            }
        }
        if ctx.idx % 64 == 0 {
            ctx.sample = Some(json!(text));
        }
    }
}
fn clean(dir: &Path) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            if e.file_name().to_string_lossy().starts_with('x') {
                let _ = std::fs::remove_file(e.path());
            }
        }
    }
}

/// The same, uncontrolled, in a process instrumented by ThreadSanitizer.
fn tsan_case(ctx: &mut Ctx, exe: &str) {
    let n = 120;
    use std::os::unix::process::CommandExt;
    let mut cmd = std::process::Command::new("timeout");
    unsafe {
        cmd.pre_exec(|| {
            // the sanitizer's shadow needs the whole address space
            let mut r: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_AS, &mut r);
            r.rlim_cur = r.rlim_max;
            libc::setrlimit(libc::RLIMIT_AS, &r);
            Ok(())
        });
    }
    let out = cmd
        .args(["-k", "5", "240", exe, "tsan", &ctx.seed.to_string(), &ctx.idx.to_string(), &n.to_string()])
        .arg(&ctx.dir)
        .env("TSAN_OPTIONS", "exitcode=66 halt_on_error=0 second_deadlock_stack=1 history_size=4 detect_deadlocks=1")
        .output();
    let out = match out {
        Ok(o) => o,
        Err(e) => panic!("cannot run {exe}: {e}"),
    };
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    let so = String::from_utf8_lossy(&out.stdout).to_string();
    ctx.count("checks");
    ctx.count("tsan_processes");
    if let Some(i) = err.find("WARNING: ThreadSanitizer:") {
        let rep: String = err[i..].lines().take(40).collect::<Vec<_>>().join("\n      ");
        let kind: String = err[i..].lines().next().unwrap_or("").chars().filter(|c| c.is_ascii_alphabetic() || *c == ' ').take(60).collect();
        ctx.viol(format!("tsan:{}", kind.trim()), rep);
        return;
    }
    if let Some(l) = so.lines().find(|l| l.starts_with("VIOL ")) {
        ctx.viol("ffi-threads:free", l.to_string());
        return;
    }
    use std::os::unix::process::ExitStatusExt;
    match out.status.code() {
        Some(0) => ctx.add("tsan_runs", n),
        Some(79) => ctx.viol("deadlock", so.chars().take(600).collect::<String>()),
        Some(124) => ctx.count("tsan_timeout"),
        // the sanitizer itself cannot start here
        _ if err.contains("FATAL: ThreadSanitizer") || err.contains("Re-execing") => ctx.count("tsan_unavailable"),
        c => {
            if matches!(out.status.signal(), Some(libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS)) {
                ctx.viol("crash:tsan", format!("{:?}: {}", out.status, err.lines().rev().take(5).collect::<Vec<_>>().join(" | ")));
            } else {
                panic!("TSan child ended with {c:?} {:?}: {}", out.status, err.lines().rev().take(5).collect::<Vec<_>>().join(" | "));
            }
        }
    }
}
pub fn tsan_child(seed: u64, idx: u64, n: u64, dir: &Path) {
    let mut ctx = Ctx {
        prop: "C14".into(),
        seed,
        idx,
        thorough: false,
        rng: Rng::for_case("C14-tsan", seed, idx),
        dir: dir.to_path_buf(),
        counters: Default::default(),
        fps: vec![],
        viols: vec![],
        sample: None,
        verbose: false,
    };
    let mut r = ctx.rng.clone();
    let Some((base, archs, db)) = world(&mut ctx, &mut r, dir) else {
        println!("VIOL building an archive failed: {:?}", ctx.viols);
        return;
    };
    let mut uid = 0;
    for _ in 0..n {
        clean(dir);
        let prog = gen_prog(&mut r, &archs, &db, &mut uid);
        *REPORT.lock().unwrap() = Some((idx, format!("{:?}", prog.threads)));
        if let Err((k, d)) = run_once(&prog, &base, &archs, How::Free(r.next())) {
            println!("VIOL {k} {}", d.replace('\n', " "));
            std::process::exit(0);
        }
    }
}
