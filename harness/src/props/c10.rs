//! C10: building an archive is all or nothing. At every system call of a build, under every injected
//! fault, the destination holds what it held before or the complete new archive; an error leaves nothing behind.
use crate::core::{Ctx, Prop};
use crate::gen::{self, Spec};
use crate::rng::Rng;
use crate::trace::{self, Fault};
use mopaq::{Archive, ArchiveBuilder, OpenOptions};
use serde_json::json;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        quick: 800,
        thorough: 12000,
        run,
        need: &[("crash_points", 20000), ("faults_injected", 3000), ("faulted_build_failed", 800), ("faulted_build_ok", 500), ("natural_errors", 100), ("destination_changes", 300), ("no_tmpdir", 1000), ("short_transfers", 300)],
        rule: "distinct (version, destination before, system call hit and its ordinal class, fault, outcome) crash and fault points observed",
        level: "fault_enumeration",
        assumptions: &[
            "process crashes and failing system calls (loss of power with unflushed caches is outside what a process can observe)",
            "a failing unlink may leave the temporary file behind",
        ],
        workers: 8,
    }
}

const OLD_KINDS: [&str; 4] = ["absent", "archive", "garbage", "empty"];

struct Plan {
    spec: Spec,
    old: usize,
    relative: bool,
    create: bool,
}
fn plan(r: &mut Rng) -> Plan {
    let mut spec = gen::spec(r);
    let n = r.range(1, 5);
    spec.files.truncate(n);
    if r.chance(1, 3) {
        for f in spec.files.iter_mut() {
            f.via_path = true;
        }
    }
    Plan { spec, old: r.usize(4), relative: r.chance(1, 4), create: r.chance(1, 12) }
}

/// The traced child: rebuilds the plan of a case and builds the archive.
pub fn child(seed: u64, idx: u64, dir: &Path) -> i32 {
    let mut r = Rng::for_case("C10", seed, idx);
    let p = plan(&mut r);
    let b = p.spec.builder(&dir.join("src"));
    let dst = if p.relative {
        std::env::set_current_dir(dir.join("out")).unwrap();
        PathBuf::from("x.mpq")
    } else {
        dir.join("out").join("x.mpq")
    };
    let ver = gen::VERSIONS[p.spec.ver];
    crate::core::install_panic_hook();
    trace::mark(trace::MARK_BEGIN);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if p.create { OpenOptions::new().version(ver).create(&dst).map(|_| ()) } else { b.build(&dst) }));
    trace::mark(trace::MARK_END);
    match res {
        Ok(Ok(())) => 0,
        Ok(Err(e)) => {
            eprintln!("{e}");
            3
        }
        Err(_) => {
            eprintln!("panic: {}", crate::core::last_panic());
            4
        }
    }
}

fn names(d: &Path) -> BTreeSet<String> {
    std::fs::read_dir(d).map(|i| i.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default()
}

/// None if the complete new archive is at `path`, else what is wrong with it. `want`: what an undisturbed
/// build writes.
fn complete(path: &Path, want: &[u8], model: &[(String, Vec<u8>)]) -> Option<String> {
    if std::fs::read(path).is_ok_and(|b| b == want) {
        return None;
    }
    let r = std::panic::catch_unwind(|| -> Result<(), String> {
        let mut a = Archive::open(path).map_err(|e| format!("does not open: {e}"))?;
        for (n, w) in model {
            let g = a.read_file(n).map_err(|e| format!("{n:?} unreadable: {e}"))?;
            if g != *w {
                return Err(format!("{n:?}: {}", crate::core::diff(&g, w)));
            }
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(e),
        Err(_) => Some(crate::core::last_panic()),
    }
}

pub fn run(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let p = plan(&mut r);
    let model = if p.create {
        vec![("(listfile)".to_string(), b"(listfile)\r\n".to_vec())]
    } else {
        p.spec.model()
    };
    if ctx.idx % 5 == 4 {
        natural(ctx, &mut r, &p);
    }
    let dir = ctx.dir.clone();
    let (src, out) = (dir.join("src"), dir.join("out"));
    let dst = out.join("x.mpq");
    let old: Option<Vec<u8>> = match p.old {
        0 => None,
        1 => {
            let q = ctx.path("old.mpq");
            ArchiveBuilder::new().add_file_data(vec![7; 3000], "old.txt").build(&q).expect("old archive");
            let b = std::fs::read(&q).unwrap();
            std::fs::remove_file(&q).unwrap();
            Some(b)
        }
        2 => Some(r.bytes(700)),
        _ => Some(vec![]),
    };
    let reset = || {
        let _ = std::fs::remove_dir_all(&src);
        let _ = std::fs::remove_dir_all(&out);
        std::fs::create_dir_all(&src).unwrap();
        std::fs::create_dir_all(&out).unwrap();
        std::fs::write(out.join("bystander"), b"untouched").unwrap();
        if let Some(o) = &old {
            std::fs::write(&dst, o).unwrap();
        }
    };
    // an undisturbed build
    let want = {
        reset();
        let q = ctx.path("undisturbed.mpq");
        let b = p.spec.builder(&src);
        let ver = gen::VERSIONS[p.spec.ver];
        let res = ctx.lib("ArchiveBuilder::build", || if p.create { OpenOptions::new().version(ver).create(&q).map(|_| ()) } else { b.build(&q) });
        match res {
            Some(Ok(())) => {}
            Some(Err(e)) => return ctx.viol("build-error", format!("build without any fault failed: {e} ({})", p.spec.brief())),
            None => return,
        }
        let b = std::fs::read(&q).unwrap();
        std::fs::remove_file(&q).unwrap();
        b
    };
    let exe = std::env::current_exe().unwrap();
    let mut bad: Vec<(String, String)> = vec![];
    let brief = format!("{} {} relative{} create{}", p.spec.brief(), OLD_KINDS[p.old], p.relative, p.create);
    let mut n_calls = 0usize;
    let mut calls0: Vec<trace::Call> = vec![];
    let mut runs = 0;
    let mut todo: Vec<Option<(usize, Fault)>> = vec![None];
    while let Some(fault) = todo.pop() {
        reset();
        let mut cmd = std::process::Command::new(&exe);
        cmd.args(["c10child", &ctx.seed.to_string(), &ctx.idx.to_string()]).arg(&dir).current_dir(&dir).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null());
        if ctx.idx % 2 == 0 {
            // no other place for temporary files than the destination's directory: only from there can the archive be moved in one step
            cmd.env("TMPDIR", dir.join("no-such-directory"));
            ctx.count("no_tmpdir");
        }
        let errp = dir.join("stderr");
        cmd.stderr(std::fs::File::create(&errp).unwrap());
        // state of the destination: None = as before; Some = other content already judged
        let mut last: Option<Option<Vec<u8>>> = None;
        let mut changes = 0u64;
        let mut points = 0u64;
        let mut partial: Option<String> = None;
        let mut became_new = false;
        let res = trace::run(&mut cmd, &dir.to_string_lossy(), fault, || {
            points += 1;
            let now = std::fs::read(&dst).ok();
            if last.as_ref() == Some(&now) {
                return;
            }
            if last.is_some() {
                changes += 1;
            }
            if now == old {
                if became_new {
                    partial = Some("the destination went back to its old content".into());
                }
            } else if let Some(e) = complete(&dst, &want, &model) {
                if partial.is_none() {
                    partial = Some(format!("a crash here leaves {} at the destination: {e}", if now.is_none() { "nothing".to_string() } else { format!("{} bytes", now.as_ref().unwrap().len()) }));
                }
            } else {
                became_new = true;
            }
            last = Some(now);
        });
        runs += 1;
        let o = match res {
            Ok(o) => o,
            Err(e) => panic!("tracer: {e}"),
        };
        assert!(o.began, "child did not begin: {}", std::fs::read_to_string(&errp).unwrap_or_default());
        let err = std::fs::read_to_string(&errp).unwrap_or_default();
        let err: String = err.chars().take(300).collect();
        ctx.add("crash_points", points);
        ctx.add("destination_changes", changes);
        ctx.add("renames_seen", o.calls.iter().filter(|c| c.name == "rename").count() as u64);
        let fdesc = match (&fault, &o.injected) {
            (Some((k, f)), Some(c)) => format!("{f:?} at call {k} ({} {})", c.name, c.path.rsplit('/').next().unwrap_or("")),
            (None, _) => "no fault".into(),
            _ => "fault not reached".into(),
        };
        if let Some(e) = partial {
            bad.push(("partial-archive".into(), format!("{fdesc}: {e} ({brief})")));
        }
        let fin = std::fs::read(&dst).ok();
        let is_old = fin == old;
        let comp = if is_old { None } else { complete(&dst, &want, &model) };
        let is_new = comp.is_none() && (!is_old || complete(&dst, &want, &model).is_none());
        ctx.count("checks");
        if !is_old && !is_new {
            bad.push(("partial-archive".into(), format!("{fdesc}: afterwards the destination is neither the old content nor the new archive: {} ({brief})", comp.unwrap_or_default())));
        }
        let left: BTreeSet<String> = names(&out).into_iter().filter(|n| n != "x.mpq" && n != "bystander").collect();
        let unlink_hit = o.injected.as_ref().is_some_and(|c| c.name == "unlink");
        match (o.status, o.signal) {
            (0, 0) => {
                if fault.is_some() {
                    ctx.count("faulted_build_ok");
                }
                if !is_new {
                    bad.push(("success-without-archive".into(), format!("{fdesc}: build reported success, the archive is not there or incomplete ({brief})")));
                }
                if !left.is_empty() && !unlink_hit {
                    bad.push(("leftovers".into(), format!("{fdesc}: build reported success and left {left:?} ({brief})")));
                }
                if fault.is_none() {
                    n_calls = o.calls.len();
                    calls0 = o.calls.clone();
                }
            }
            (3, 0) => {
                if fault.is_none() {
                    bad.push(("build-error".into(), format!("build without any fault failed: {err} ({brief})")));
                } else {
                    ctx.count("faulted_build_failed");
                    if matches!(fault, Some((_, Fault::Short(_) | Fault::AllShort(_)))) {
                        bad.push(("short-transfer-error".into(), format!("{fdesc}: a short transfer is not an error, build failed: {err} ({brief})")));
                    }
                }
                if !left.is_empty() && !unlink_hit {
                    bad.push(("leftovers".into(), format!("{fdesc}: build failed ({err}) and left {left:?} ({brief})")));
                }
            }
            (_, s) if s == libc::SIGKILL && matches!(fault, Some((_, Fault::Kill))) => {
                ctx.count("killed");
            }
            (st, s) => bad.push((format!("crash-under-fault:{st}:{s}"), format!("{fdesc}: build ended with status {st} signal {s}: {err} ({brief})"))),
        }
        let by = std::fs::read(out.join("bystander")).ok();
        if by.as_deref() != Some(b"untouched") {
            bad.push(("bystander".into(), format!("{fdesc}: another file in the directory changed ({brief})")));
        }
        if !p.create {
            for (i, f) in p.spec.files.iter().enumerate() {
                if f.via_path && std::fs::read(src.join(format!("src{i}"))).ok().as_ref() != Some(&f.data) {
                    bad.push(("source-changed".into(), format!("{fdesc}: source of {:?} changed ({brief})", f.name)));
                }
            }
        }
        if let (Some((k, f)), Some(c)) = (&fault, &o.injected) {
            ctx.count("faults_injected");
            if matches!(f, Fault::Short(_) | Fault::AllShort(_)) {
                ctx.count("short_transfers");
            }
            let pos = if n_calls == 0 { 0 } else { k * 8 / n_calls };
            let fc = match f {
                Fault::Short(_) => "short".to_string(),
                Fault::AllShort(_) => "allshort".to_string(),
                f => format!("{f:?}"),
            };
            ctx.distinct(&format!("v{} {} {} p{pos} {fc} st{}", p.spec.ver + 1, OLD_KINDS[p.old], c.name, o.status));
        }
        for (k, d) in bad.drain(..) {
            ctx.viol(k, d);
        }
        if !ctx.viols.is_empty() {
            return;
        }
        if fault.is_none() {
            // choose fault points: every kind of call is hit; in the thorough tier, every call
            let mut pts: Vec<usize> = (0..calls0.len()).filter(|i| calls0[*i].name != "close" && calls0[*i].name != "stat").collect();
            if !ctx.thorough {
                r.shuffle(&mut pts);
                let must: Vec<usize> = (0..calls0.len()).filter(|i| matches!(calls0[*i].name, "rename" | "link" | "fsync" | "truncate" | "copy")).collect();
                pts.truncate(9);
                pts.extend(must);
            }
            for k in pts {
                let c = &calls0[k];
                let f = if trace::has_count(c.name) {
                    match r.below(6) {
                        0 => Fault::Short(1),
                        1 => Fault::Short(r.range(1, 300) as u64),
                        2 => Fault::Intr,
                        3 => Fault::AllShort(*r.pick(&[63u64, 100, 511, 1000])),
                        4 => Fault::Errno(libc::EIO),
                        _ => Fault::Errno(if c.name.contains("write") { libc::ENOSPC } else { libc::EIO }),
                    }
                } else {
                    match r.below(5) {
                        0 => Fault::Kill,
                        1 => Fault::Errno(libc::EACCES),
                        2 => Fault::Errno(libc::ENOSPC),
                        _ => Fault::Errno(libc::EIO),
                    }
                };
                todo.push(Some((k, f)));
            }
        }
    }
    ctx.add("builds_traced", runs);
    if ctx.idx % 32 == 0 {
        ctx.sample = Some(json!({"spec": brief, "calls": calls0.iter().map(|c| c.name).collect::<Vec<_>>()}));
    }
}

/// Builds that must fail on their own, with the destination left alone.
fn natural(ctx: &mut Ctx, r: &mut Rng, p: &Plan) {
    let d = ctx.path("nat");
    let out = d.join("out");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&out).unwrap();
    let dst = out.join("x.mpq");
    let old = if r.bool() { Some(r.bytes(500)) } else { None };
    if let Some(o) = &old {
        std::fs::write(&dst, o).unwrap();
    }
    let mut b = p.spec.builder(&d);
    let kind = r.below(4);
    let what = match kind {
        0 => {
            b = b.add_file(d.join("does-not-exist"), "missing.txt");
            "missing source"
        }
        1 => {
            b = b.add_file_data(vec![1; 600], "Twice.txt").add_file_data(vec![2; 10], "TWICE.TXT");
            "name added twice"
        }
        2 => {
            b = b.listfile_option(mopaq::ListfileOption::External(d.join("no-listfile")));
            "missing external listfile"
        }
        _ => {
            b = b.add_file(&d, "directory.txt");
            "source is a directory"
        }
    };
    let res = ctx.lib("ArchiveBuilder::build", || b.build(&dst));
    let Some(res) = res else { return };
    ctx.count("natural_errors");
    ctx.distinct(&format!("natural {kind} {} v{}", old.is_some(), p.spec.ver));
    ctx.check(res.is_err(), "natural-error-unnoticed", || format!("{what}: build reported success"));
    ctx.check(std::fs::read(&dst).ok() == old, "failed-build-changed-destination", || format!("{what}: the failed build changed the destination ({})", p.spec.brief()));
    let left: BTreeSet<String> = names(&out).into_iter().filter(|n| n != "x.mpq").collect();
    ctx.check(left.is_empty(), "leftovers", || format!("{what}: the failed build left {left:?}"));
    // an empty destination directory name, and one that does not exist
    let b = p.spec.builder(&d);
    let bad = d.join("nowhere").join("x.mpq");
    if let Some(res) = ctx.lib("ArchiveBuilder::build", || b.build(&bad)) {
        ctx.check(res.is_err() && !d.join("nowhere").exists(), "natural-error-unnoticed", || "build into a directory that does not exist".into());
    }
    let _ = std::fs::remove_dir_all(&d);
}
