//! C19: independent work in several threads (and processes) stays independent. Handles, builders, codecs and hashes are
//! used from several threads at once; every answer is compared with the one the same call gives alone.
use crate::core::{diff, Ctx, Prop};
use crate::gen::{self, Spec};
use crate::refm;
use crate::rng::Rng;
use mopaq::compression::{compress, decompress};
use mopaq::{Archive, ArchiveBuilder, OpenOptions};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        quick: 6000,
        thorough: 40000,
        run,
        need: &[("calls_overlapping", 20000), ("builds_overlapping", 500), ("handles_passed_on", 500), ("shared_path_seen", 500), ("processes", 20), ("codec_calls", 1000), ("hammered", 10000)],
        rule: "distinct pairs (call, call of another thread under way when it began) with their outcome classes",
        level: "exploration",
        assumptions: &["interleavings are those the operating system produces, with delays injected at the file system calls; an Archive is used by one thread at a time (its methods need exclusive access)"],
        workers: 6,
    }
}

/// What a complete archive answers, seen from outside.
#[derive(Clone, PartialEq, Debug)]
struct Face {
    list: String,
    files: Vec<String>,
}

enum Op {
    /// a read-only call on a handle, and what it answers alone
    Step(usize, u64, String, String),
    /// open another handle in the place of one
    Reopen(usize, usize, bool),
    /// give the handle to whoever takes it, and take another one
    Swap(usize),
    /// build to a path of its own
    Build(Box<ArchiveBuilder>, PathBuf),
    /// build to the path that several threads build to
    BuildShared(Box<ArchiveBuilder>),
    /// read the shared path
    Watch,
    Codec(u8, Arc<Vec<u8>>, Arc<Vec<u8>>, Arc<Vec<u8>>),
    Hash(String, [u32; 4], u64),
    Crypt(Vec<u32>, u32, Vec<u32>),
}
const KINDS: [&str; 9] = ["step", "open", "swap", "build", "build-shared", "watch", "codec", "hash", "crypt"];
fn kind(o: &Op) -> usize {
    match o {
        Op::Step(..) => 0,
        Op::Reopen(..) => 1,
        Op::Swap(..) => 2,
        Op::Build(..) => 3,
        Op::BuildShared(..) => 4,
        Op::Watch => 5,
        Op::Codec(..) => 6,
        Op::Hash(..) => 7,
        Op::Crypt(..) => 8,
    }
}

#[derive(Default)]
struct Out {
    viols: Vec<(String, String)>,
    counts: BTreeMap<&'static str, u64>,
    seen: BTreeSet<String>,
}
impl Out {
    fn n(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
    fn viol(&mut self, k: &str, d: String) {
        if self.viols.len() < 5 {
            self.viols.push((k.into(), d));
        }
    }
}

struct Arch {
    path: PathBuf,
    names: Vec<String>,
    desc: String,
    memo: BTreeMap<(u64, String), String>,
}

struct World {
    archs: Vec<PathBuf>,
    shared: PathBuf,
    /// bytes the shared path may hold (None: builds are not reproducible byte for byte, judged by contents only)
    bytes: Option<Vec<Arc<Vec<u8>>>>,
    faces: Vec<Face>,
    names: Vec<String>,
    pool: Mutex<Vec<(usize, Archive)>>,
    now: Vec<AtomicUsize>,
}

fn face(p: &Path, names: &[String]) -> Result<Face, String> {
    let mut a = Archive::open(p).map_err(|e| format!("open: {e}"))?;
    let list = super::c16::step(&mut a, 4, "");
    Ok(Face { list, files: names.iter().map(|n| super::c16::step(&mut a, 0, n)).collect() })
}

fn open(p: &Path, lazy: bool) -> mopaq::Result<Archive> {
    if lazy {
        // (the tables are loaded by whichever call needs them first, in whichever thread)
        OpenOptions::new().load_tables(false).open(p)
    } else {
        Archive::open(p)
    }
}

fn exec(w: &World, me: usize, ops: Vec<Op>, mut hs: Vec<(usize, Archive)>, jitter: u64) -> Out {
    let mut o = Out::default();
    crate::fault::jitter(jitter);
    for op in ops {
        let k = kind(&op);
        let others: Vec<usize> = (0..w.now.len()).filter(|i| *i != me).map(|i| w.now[i].load(SeqCst)).filter(|x| *x > 0).collect();
        w.now[me].store(k + 1, SeqCst);
        o.n("calls");
        if !others.is_empty() {
            o.n("calls_overlapping");
            if matches!(k, 3 | 4) && others.iter().any(|x| matches!(x - 1, 3 | 4)) {
                o.n("builds_overlapping");
            }
        }
        let mut class = "ok".to_string();
        let res = crate::core::quiet(|| match op {
            Op::Step(s, c, name, want) => {
                let (arch, a) = &mut hs[s];
                if c == 10 {
                    // (find_file is not judged on a handle whose tables nothing has loaded yet)
                    let _ = a.load_tables();
                }
                let got = super::c16::step(a, c, &name);
                class = got[..2].to_string() + &c.to_string();
                if got != want {
                    o.viol("disturbed", format!("call {c} on {name:?} of archive {arch} answered {got:?}, alone it answers {want:?}"));
                }
            }
            Op::Reopen(s, arch, lazy) => match open(&w.archs[arch], lazy) {
                Ok(a) => hs[s] = (arch, a),
                Err(e) => o.viol("open-error", format!("archive {arch}, lazy {lazy}: {e}")),
            },
            Op::Swap(s) => {
                // (the archive of the slot stays the same: what follows was computed for it)
                let mut p = w.pool.lock().unwrap();
                let mine = hs[s].0;
                if let Some(k) = p.iter().position(|h| h.0 == mine) {
                    let other = p.swap_remove(k);
                    let mine = std::mem::replace(&mut hs[s], other);
                    p.push(mine);
                    o.n("handles_passed_on");
                }
            }
            Op::Build(b, path) => {
                if let Err(e) = b.build(&path) {
                    o.viol("build-error", format!("build to {:?}: {e}", path.file_name()));
                }
            }
            Op::BuildShared(b) => {
                if let Err(e) = b.build(&w.shared) {
                    o.viol("build-error", format!("build to the shared path: {e}"));
                }
            }
            Op::Watch => {
                o.n("shared_path_seen");
                if let Some(all) = &w.bytes {
                    let got = std::fs::read(&w.shared);
                    match got {
                        Ok(g) => {
                            let at = all.iter().position(|x| **x == g);
                            class = format!("{at:?}");
                            if at.is_none() {
                                o.viol("torn", format!("the shared path holds {} bytes that are none of the archives built there", g.len()));
                            }
                        }
                        Err(e) => o.viol("torn", format!("the shared path cannot be read: {e}")),
                    }
                }
                match face(&w.shared, &w.names) {
                    Ok(f) => {
                        if !w.faces.contains(&f) {
                            o.viol("torn", format!("the archive opened at the shared path is none of those built there: {f:?}"));
                        }
                    }
                    Err(e) => o.viol("torn", format!("the archive at the shared path: {e}")),
                }
            }
            Op::Codec(m, d, c, back) => {
                o.n("codec_calls");
                match compress(&d, m) {
                    Ok(g) if g == *c => {}
                    Ok(g) => o.viol("codec", format!("compress of {} bytes with {m:#x}: {}", d.len(), diff(&g, &c))),
                    Err(e) => o.viol("codec", format!("compress of {} bytes with {m:#x}: {e}", d.len())),
                }
                if c.len() < d.len() && !c.is_empty() {
                    match decompress(&c[1..], c[0], d.len()) {
                        Ok(g) if g == *back => {}
                        Ok(g) => o.viol("codec", format!("decompress of {} bytes with {m:#x}: {}", d.len(), diff(&g, &back))),
                        Err(e) => o.viol("codec", format!("decompress of {} bytes with {m:#x}: {e}", d.len())),
                    }
                }
            }
            Op::Hash(n, h, j) => {
                for t in 0..4u32 {
                    let g = mopaq::hash_string(&n, t);
                    if g != h[t as usize] {
                        o.viol("hash", format!("hash_string({n:?}, {t}) = {g:#x}, alone {:#x}", h[t as usize]));
                    }
                }
                let g = mopaq::jenkins_hash(&n);
                if g != j {
                    o.viol("hash", format!("jenkins_hash({n:?}) = {g:#x}, alone {j:#x}"));
                }
            }
            Op::Crypt(plain, key, enc) => {
                let mut b = plain.clone();
                mopaq::encrypt_block(&mut b, key);
                if b != enc {
                    o.viol("crypt", format!("encrypt_block of {} words with {key:#x} differs from what it gives alone", plain.len()));
                }
                mopaq::decrypt_block(&mut b, key);
                if b != plain {
                    o.viol("crypt", format!("decrypt_block of {} words with {key:#x} does not give the words back", plain.len()));
                }
            }
        });
        w.now[me].store(0, SeqCst);
        if let Err(p) = res {
            o.viol(&format!("panic:{}", KINDS[k]), format!("{} panicked: {p}", KINDS[k]));
            break;
        }
        for x in others {
            o.seen.insert(format!("{} during {} {class}", KINDS[k], KINDS[x - 1]));
        }
        if !o.viols.is_empty() {
            break;
        }
    }
    crate::fault::jitter(0);
    o
}

fn small(r: &mut Rng) -> Spec {
    let mut s = gen::spec(r);
    s.files.truncate(6);
    s.files.retain(|f| f.data.len() < 300_000);
    s.bs = s.bs.min(8);
    s
}

/// Sources of one builder in a directory of its own.
fn builder(ctx: &Ctx, s: &Spec, tag: &mut u32) -> ArchiveBuilder {
    *tag += 1;
    let d = ctx.path(&format!("s{tag}"));
    std::fs::create_dir_all(&d).unwrap();
    s.builder(&d)
}

/// Child process: builds the archives of its turn into the shared directory.
pub fn child(seed: u64, idx: u64, k: u64, dir: &Path) -> i32 {
    let mut r = Rng::for_case("C19", seed, idx);
    let specs: Vec<Spec> = (0..3).map(|_| small(&mut r)).collect();
    crate::core::install_panic_hook();
    let src = dir.join(format!("p{k}"));
    std::fs::create_dir_all(&src).unwrap();
    // all start together: when the parent lets go of its end of the pipe
    let mut b = [0u8; 1];
    let _ = std::io::Read::read(&mut std::io::stdin(), &mut b);
    crate::core::watch_idle(|| {
        eprintln!("every thread has been waiting for more than {} s", crate::core::IDLE_LIMIT);
        std::process::exit(4);
    });
    crate::fault::jitter(seed ^ idx << 8 ^ k | 1);
    for n in 0..6u64 {
        let s = &specs[((k + n) % 3) as usize];
        let dst = if n % 2 == 0 { dir.join("out").join(format!("own{k}.mpq")) } else { dir.join("out").join("shared.mpq") };
        if let Err(e) = s.builder(&src).build(&dst) {
            eprintln!("{e}");
            return 3;
        }
    }
    0
}

fn processes(ctx: &mut Ctx) {
    use std::process::{Command, Stdio};
    let mut r = Rng::for_case("C19", ctx.seed, ctx.idx);
    let specs: Vec<Spec> = (0..3).map(|_| small(&mut r)).collect();
    let out = ctx.path("out");
    std::fs::create_dir_all(&out).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for k in 0..3u64 {
        let mut c = Command::new(&exe)
            .args(["c19child", &ctx.seed.to_string(), &ctx.idx.to_string(), &k.to_string()])
            .arg(&ctx.dir)
            .stdin(Stdio::piped())
            .stdout(Stdio::null())
            .stderr(Stdio::piped())
            .spawn()
            .unwrap();
        kids.push((c.stdin.take(), c));
    }
    std::thread::sleep(std::time::Duration::from_millis(3));
    let mut wait = vec![];
    for (i, c) in kids {
        drop(i);
        wait.push(c);
    }
    for c in wait {
        let o = c.wait_with_output().unwrap();
        ctx.count("processes");
        ctx.check(o.status.success(), "process-build-error", || format!("a build beside those of other processes ended with {}: {}", o.status, String::from_utf8_lossy(&o.stderr)));
    }
    let mut left: Vec<String> = std::fs::read_dir(&out).unwrap().filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect();
    left.sort();
    ctx.check(left == ["own0.mpq", "own1.mpq", "own2.mpq", "shared.mpq"], "left-behind", || format!("after the builds of three processes the directory holds {left:?}"));
    let models: Vec<Vec<(String, Vec<u8>)>> = specs.iter().map(|s| s.model()).collect();
    for f in left {
        let p = out.join(&f);
        let fits = |m: &Vec<(String, Vec<u8>)>| {
            let Ok(mut a) = Archive::open(&p) else { return false };
            m.iter().all(|(n, d)| a.read_file(n).is_ok_and(|g| g == *d)) && a.get_info().is_ok_and(|i| i.file_count == m.len())
        };
        let Some(ok) = ctx.lib("Archive", || models.iter().any(&fits)) else { return };
        // each process wrote its own path last with its fifth build
        ctx.check(ok, "process-build", || format!("{f} is none of the archives the three processes built: {}", specs.iter().map(|s| s.brief()).collect::<Vec<_>>().join(" / ")));
    }
}

pub fn run(ctx: &mut Ctx) {
    if ctx.idx % 40 == 3 {
        return processes(ctx);
    }
    if ctx.idx % 400 == 7 {
        if let Ok(exe) = std::env::var("VH_TSAN") {
            return tsan(ctx, &exe);
        }
        ctx.count("tsan_unavailable");
    }
    either(ctx);
}

fn either(ctx: &mut Ctx) {
    if ctx.idx % 6 == 5 {
        hammer(ctx)
    } else {
        threads(ctx)
    }
}

/// The same few functions called by all threads over and over, each with inputs of its own.
fn hammer(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let nt = r.range(3, 6);
    let m = *r.pick(&[refm::ZLIB, refm::BZIP2, refm::LZMA, refm::SPARSE, refm::SPARSE, refm::PKWARE, refm::PKWARE, 0x40, 0x80, 0x41, 0x42, 0x22]);
    let n = 4 * r.range(1, 1500);
    let rounds = if ctx.thorough { 120 } else { 40 };
    let mut own: Vec<Vec<(Vec<u8>, Vec<u8>, Vec<u8>, String, Vec<u32>, u32, Vec<u32>)>> = vec![];
    let pool: Vec<String> = (0..2).map(|_| gen::name(&mut r)).collect();
    for _ in 0..nt {
        let mut mine = vec![];
        for _ in 0..2 {
            // of the same length in every thread, so that a mix-up is not stopped by a length check; and compressible
            let kind = r.below(4);
            let mut d = gen::content_kind(&mut r, kind, n, 4096);
            let z = r.usize(d.len() / 2 + 1);
            d[z..].iter_mut().take(n / 3).for_each(|b| *b = 0);
            let Some(alone) = ctx.lib("codec alone", || {
                let c = compress(&d, m).ok()?;
                let back = if c.len() < d.len() && !c.is_empty() { decompress(&c[1..], c[0], d.len()).ok()? } else { vec![] };
                Some((c, back))
            }) else {
                return;
            };
            let Some((c, back)) = alone else { continue };
            let name = if r.bool() { r.pick(&pool).clone() } else { gen::name(&mut r) };
            let plain: Vec<u32> = (0..r.usize(200)).map(|_| r.u32()).collect();
            let key = r.u32();
            let mut enc = plain.clone();
            refm::crypt(&mut enc, key, true);
            mine.push((d, c, back, name, plain, key, enc));
        }
        if mine.is_empty() {
            return;
        }
        own.push(mine);
    }
    let bar = Barrier::new(own.len());
    let nt = own.len();
    let outs = ctx.lib("calls of several threads", || {
        std::thread::scope(|s| {
            let hs: Vec<_> = own
                .iter()
                .map(|mine| {
                    let bar = &bar;
                    s.spawn(move || {
                        bar.wait();
                        crate::core::quiet(|| {
                            let mut o = Out::default();
                            for k in 0..rounds {
                                let (d, c, back, name, plain, key, enc) = &mine[k % mine.len()];
                                o.n("calls");
                                o.n("hammered");
                                match compress(d, m) {
                                    Ok(g) if g == *c => {}
                                    Ok(g) => o.viol("codec", format!("compress of {} bytes with {m:#x}: {}", d.len(), diff(&g, c))),
                                    Err(e) => o.viol("codec", format!("compress of {} bytes with {m:#x}: {e}", d.len())),
                                }
                                for _ in 0..3 {
                                    if !back.is_empty() {
                                        match decompress(&c[1..], c[0], d.len()) {
                                            Ok(g) if g == *back => {}
                                            Ok(g) => o.viol("codec", format!("decompress of {} bytes with {m:#x}: {}", d.len(), diff(&g, back))),
                                            Err(e) => o.viol("codec", format!("decompress of {} bytes with {m:#x}: {e}", d.len())),
                                        }
                                    }
                                    for t in 0..4 {
                                        let (g, want) = (mopaq::hash_string(name, t), refm::hash_string(name, t));
                                        if g != want {
                                            o.viol("hash", format!("hash_string({name:?}, {t}) = {g:#x}, alone {want:#x}"));
                                        }
                                    }
                                    let mut b = plain.clone();
                                    mopaq::encrypt_block(&mut b, *key);
                                    if b != *enc {
                                        o.viol("crypt", format!("encrypt_block of {} words with {key:#x} differs from what it gives alone", plain.len()));
                                    }
                                    mopaq::decrypt_block(&mut b, *key);
                                    if b != *plain {
                                        o.viol("crypt", format!("decrypt_block of {} words with {key:#x} does not give the words back", plain.len()));
                                    }
                                }
                                if !o.viols.is_empty() {
                                    break;
                                }
                            }
                            o
                        })
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
        })
    });
    for o in outs.into_iter().flatten() {
        match o {
            Ok(Ok(o)) => {
                for (k, v) in o.counts {
                    ctx.add(k, v);
                }
                for (k, d) in o.viols {
                    ctx.viol(&k, format!("{d} ({nt} threads calling the same functions)"));
                }
            }
            Ok(Err(p)) => ctx.viol("panic:codec", format!("a call panicked: {p} ({nt} threads, method {m:#x})")),
            Err(_) => ctx.viol("panic:codec", format!("a thread panicked ({nt} threads, method {m:#x})")),
        }
    }
    ctx.distinct(&format!("hammer {m:#x}"));
}

/// The same in a process of its own, instrumented by ThreadSanitizer.
fn tsan(ctx: &mut Ctx, exe: &str) {
    let cases = if ctx.thorough { 60 } else { 12 };
    let o = std::process::Command::new(exe)
        .args(["c19tsan", &ctx.seed.to_string(), &ctx.idx.to_string(), &cases.to_string()])
        .env("TSAN_OPTIONS", "halt_on_error=0 report_thread_leaks=0 exitcode=0")
        .output();
    let o = match o {
        Ok(o) => o,
        Err(_) => return ctx.count("tsan_unavailable"),
    };
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    if out.contains("c19tsan hung") {
        return ctx.viol("nonterm:calls of several threads", format!("every thread has been waiting for more than {} s", crate::core::IDLE_LIMIT));
    }
    if !out.contains("c19tsan done") {
        // it did not run here: nothing was observed
        ctx.count("tsan_unavailable");
        return;
    }
    ctx.count("tsan_runs");
    ctx.add("tsan_calls", out.split("calls=").nth(1).and_then(|s| s.split_whitespace().next()).and_then(|s| s.parse().ok()).unwrap_or(0));
    // a race in the code of the repository
    let race = err.split("WARNING: ThreadSanitizer: ").skip(1).find(|w| w.starts_with("data race") && w.contains("mopaq"));
    ctx.check(race.is_none(), "data-race", || format!("ThreadSanitizer: {}", race.unwrap_or("").lines().filter(|l| l.contains('#')).take(8).collect::<Vec<_>>().join(" | ")));
}

/// The ThreadSanitizer process.
pub fn tsan_child(seed: u64, idx: u64, cases: u64) {
    crate::core::install_panic_hook();
    let scratch = std::env::temp_dir().join(format!("vh-tsan-{}", std::process::id()));
    let dir = scratch.clone();
    crate::core::watch_idle(move || {
        let _ = std::fs::remove_dir_all(&dir);
        println!("c19tsan hung");
        std::process::exit(4);
    });
    let mut calls = 0;
    let p = Prop { run: either, ..prop() };
    for k in 0..cases {
        let (ctx, _) = crate::core::run_case(&p, seed, false, 1_000_000 + idx * 1000 + k, &scratch, false);
        calls += ctx.counters.get("calls").copied().unwrap_or(0);
    }
    let _ = std::fs::remove_dir_all(&scratch);
    println!("c19tsan done calls={calls}");
}

fn threads(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let dir = ctx.path("d");
    std::fs::create_dir_all(&dir).unwrap();
    let mut tag = 0;
    // archives that are read
    let mut archs: Vec<Arch> = vec![];
    for k in 0..r.range(1, 3) {
        let path = dir.join(format!("a{k}.mpq"));
        let (names, desc);
        if r.chance(1, 4) {
            let f = crate::foreign::foreign(ctx, &mut r, true, path.clone());
            if std::fs::metadata(&path).map_or(true, |m| m.len() > 4 << 20) {
                let _ = std::fs::remove_file(&path);
                continue;
            }
            names = f.files.iter().map(|f| f.name.clone()).collect();
            desc = f.desc;
            ctx.count("foreign");
        } else {
            let s = small(&mut r);
            let b = builder(ctx, &s, &mut tag);
            match ctx.lib("ArchiveBuilder::build", || b.build(&path)) {
                Some(Ok(())) => {}
                Some(Err(e)) => return ctx.viol("build-error", format!("{e} ({})", s.brief())),
                None => return,
            }
            names = s.model().into_iter().map(|m| m.0).collect();
            desc = s.brief();
        }
        let mut names: Vec<String> = names;
        names.push("absent.txt".into());
        archs.push(Arch { path, names, desc, memo: BTreeMap::new() });
    }
    if archs.is_empty() {
        return;
    }
    // archives that are built, to paths of their own or to the shared one
    let specs: Vec<Spec> = (0..3).map(|_| small(&mut r)).collect();
    let shared = dir.join("shared.mpq");
    let mut bytes: Vec<Arc<Vec<u8>>> = vec![];
    let mut faces = vec![];
    let mut names: Vec<String> = specs.iter().flat_map(|s| s.model().into_iter().map(|m| m.0).take(3)).collect();
    names.sort();
    names.dedup();
    let mut same = true;
    for s in &specs {
        let mut two = vec![];
        for _ in 0..2 {
            let b = builder(ctx, s, &mut tag);
            match ctx.lib("ArchiveBuilder::build", || b.build(&shared)) {
                Some(Ok(())) => two.push(std::fs::read(&shared).unwrap_or_default()),
                Some(Err(e)) => return ctx.viol("build-error", format!("{e} ({})", s.brief())),
                None => return,
            }
        }
        match ctx.lib("Archive", || face(&shared, &names)) {
            Some(Ok(f)) => faces.push(f),
            Some(Err(e)) => return ctx.viol("open-error", format!("{e} ({})", s.brief())),
            None => return,
        }
        same &= two[0] == two[1];
        bytes.push(Arc::new(two.pop().unwrap()));
    }
    if !same {
        ctx.count("builds_not_reproducible");
    }
    // what each thread does
    let nt = r.range(2, 4);
    let steps = if ctx.thorough { 40 } else { 24 };
    let mut scripts: Vec<(Vec<Op>, Vec<(usize, Archive)>, u64)> = vec![];
    let mut own: Vec<(PathBuf, usize)> = vec![];
    let mut codec: Vec<(u8, Arc<Vec<u8>>, Arc<Vec<u8>>, Arc<Vec<u8>>)> = vec![];
    for _ in 0..3 {
        let m = *r.pick(&[refm::ZLIB, refm::BZIP2, refm::LZMA, refm::SPARSE, refm::PKWARE, 0x40, 0x80, 0x42]);
        let n = 4 * r.usize(1500);
        let d = gen::content(&mut r, n, 4096);
        let alone = ctx.lib("codec alone", || {
            let c = compress(&d, m).ok()?;
            let back = if c.len() < d.len() && !c.is_empty() { decompress(&c[1..], c[0], d.len()).ok()? } else { vec![] };
            Some((c, back))
        });
        match alone {
            Some(Some((c, back))) => codec.push((m, Arc::new(d), Arc::new(c), Arc::new(back))),
            Some(None) => {}
            None => return,
        }
    }
    let focus = r.below(4);
    for t in 0..nt {
        let mut at: Vec<usize> = vec![];
        let mut hs = vec![];
        for _ in 0..2 {
            let k = r.usize(archs.len());
            let lazy = r.bool();
            match ctx.lib("Archive::open", || open(&archs[k].path, lazy)) {
                Some(Ok(a)) => hs.push((k, a)),
                Some(Err(e)) => return ctx.viol("open-error", format!("{e} ({})", archs[k].desc)),
                None => return,
            }
            at.push(k);
        }
        let mut ops = vec![];
        for i in 0..steps {
            let s = r.usize(2);
            let x = match (focus, r.bool()) {
                (0, true) => 0,
                (1, true) => *r.pick(&[9u64, 10, 11, 12]),
                (2, true) => *r.pick(&[13u64, 14, 15]),
                _ => r.below(16),
            };
            ops.push(match x {
                7 => {
                    at[s] = r.usize(archs.len());
                    Op::Reopen(s, at[s], r.bool())
                }
                8 => Op::Swap(s),
                9 => {
                    let j = r.usize(3);
                    let p = dir.join(format!("own-{t}-{i}.mpq"));
                    own.push((p.clone(), j));
                    Op::Build(Box::new(builder(ctx, &specs[j], &mut tag)), p)
                }
                10 => Op::BuildShared(Box::new(builder(ctx, &specs[r.usize(3)], &mut tag))),
                11 | 12 => Op::Watch,
                13 if !codec.is_empty() => {
                    let (m, d, c, back) = r.pick(&codec).clone();
                    Op::Codec(m, d, c, back)
                }
                14 => {
                    let n = gen::name(&mut r);
                    Op::Hash(n.clone(), [0, 1, 2, 3].map(|t| refm::hash_string(&n, t)), mopaq::jenkins_hash(&n))
                }
                15 => {
                    let n = r.usize(400);
                    let plain: Vec<u32> = (0..n).map(|_| r.u32()).collect();
                    let key = r.u32();
                    let mut enc = plain.clone();
                    mopaq::encrypt_block(&mut enc, key);
                    Op::Crypt(plain, key, enc)
                }
                _ => {
                    let k = at[s];
                    let op = if r.bool() { 0 } else { r.below(super::c16::OPS) };
                    let name = r.pick(&archs[k].names).clone();
                    let key = (op.max(2), if op < 3 || op == 10 { name.clone() } else { String::new() });
                    let want = match archs[k].memo.get(&key) {
                        Some(w) => w.clone(),
                        None => {
                            let p = archs[k].path.clone();
                            let Some(w) = ctx.lib("alone", || super::c16::step(&mut Archive::open(&p).unwrap(), op, &name)) else { return };
                            archs[k].memo.insert(key, w.clone());
                            w
                        }
                    };
                    Op::Step(s, op, name, want)
                }
            });
        }
        scripts.push((ops, hs, r.next() | 1));
    }
    let brief = format!("{} threads; reading {}; building {}", nt, archs.iter().map(|a| a.desc.clone()).collect::<Vec<_>>().join(" / "), specs.iter().map(|s| s.brief()).collect::<Vec<_>>().join(" / "));
    let mut pool = vec![];
    for (k, a) in archs.iter().enumerate() {
        if let Some(Ok(h)) = ctx.lib("Archive::open", || Archive::open(&a.path)) {
            pool.push((k, h));
        }
    }
    let w = World { archs: archs.iter().map(|a| a.path.clone()).collect(), shared: shared.clone(), bytes: same.then(|| bytes.clone()), faces: faces.clone(), names: names.clone(), pool: Mutex::new(pool), now: (0..nt).map(|_| AtomicUsize::new(0)).collect() };
    let bar = Barrier::new(nt);
    let Some(outs) = ctx.lib("calls of several threads", || {
        std::thread::scope(|s| {
            let hs: Vec<_> = scripts
                .into_iter()
                .enumerate()
                .map(|(me, (ops, hs, j))| {
                    let (w, bar) = (&w, &bar);
                    s.spawn(move || {
                        bar.wait();
                        exec(w, me, ops, hs, j)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
        })
    }) else {
        return;
    };
    for o in outs {
        match o {
            Ok(o) => {
                for (k, n) in o.counts {
                    ctx.add(k, n);
                }
                ctx.add("checks", 1);
                for s in o.seen {
                    ctx.distinct(&s);
                }
                for (k, d) in o.viols {
                    ctx.viol(k, format!("{d} ({brief})"));
                }
            }
            Err(_) => ctx.viol("panic", format!("a thread panicked ({brief})")),
        }
    }
    if !ctx.viols.is_empty() {
        return;
    }
    // afterwards: everything complete, nothing else
    for (p, j) in &own {
        if same {
            let g = std::fs::read(p).unwrap_or_default();
            ctx.check(g == **bytes[*j], "build-differs", || format!("built beside other threads, {:?} differs from the same archive built alone: {} ({brief})", p.file_name(), diff(&g, &bytes[*j])));
        } else {
            let f = ctx.lib("Archive", || face(p, &names));
            ctx.check(f == Some(Ok(faces[*j].clone())), "build-differs", || format!("{:?}: {f:?} ({brief})", p.file_name()));
        }
    }
    let f = ctx.lib("Archive", || face(&shared, &names));
    ctx.check(f.is_some_and(|f| f.is_ok_and(|f| faces.contains(&f))), "torn", || format!("the shared path does not hold one of the archives built there ({brief})"));
    let want: BTreeSet<PathBuf> = own.iter().map(|o| o.0.clone()).chain(archs.iter().map(|a| a.path.clone())).chain([shared]).collect();
    let left: Vec<PathBuf> = std::fs::read_dir(&dir).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| !want.contains(p)).collect();
    ctx.check(left.is_empty(), "left-behind", || format!("the builds left {left:?} ({brief})"));
    if ctx.idx % 64 == 0 {
        ctx.sample = Some(json!({"threads": nt, "what": brief}));
    }
}
