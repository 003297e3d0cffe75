//! C15: the command line tool, run as a process of an unprivileged user in a scratch directory.
use crate::core::{diff, Ctx, Prop};
use crate::gen::{self, GFile, Lf, Spec};
use crate::refm::{self, RefArchive};
use crate::rng::{fnv, Rng};
use crate::special;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::{symlink, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const UID: u32 = 61415;

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        quick: 9000,
        thorough: 200000,
        run,
        need: &[
            ("runs", 12000),
            ("trees_reproduced", 500),
            ("listings", 800),
            ("hostile_names", 1500),
            ("damaged_runs", 2500),
            ("verify_refused", 150),
            ("failures_reported", 300),
            ("hashes", 300),
            ("agreements", 2500),
        ],
        rule: "distinct (command, options, archive class, outcome) runs of the tool that were compared with the model",
        level: "exploration",
        assumptions: &[
            "file names that are valid UTF-8 and that the listfile syntax can carry",
            "'archive analyze' and 'file find' are compared in their counts and matches, not in their wording",
            "'file add', 'file remove', 'table' and 'hash jenkins' are not implemented by the tool and only have to end properly",
        ],
        workers: 8,
    }
}

pub struct Out {
    pub code: i32,
    pub out: String,
    pub err: String,
}

struct Cli {
    exe: PathBuf,
    home: PathBuf,
}

fn own(p: &Path) {
    let c = std::ffi::CString::new(p.to_string_lossy().as_bytes()).unwrap();
    unsafe { libc::chown(c.as_ptr(), UID, UID) };
    let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755));
}
fn mkdir(p: &Path) -> PathBuf {
    std::fs::create_dir_all(p).unwrap();
    own(p);
    p.to_path_buf()
}

impl Cli {
    fn new(ctx: &Ctx) -> Cli {
        let exe = ctx.dir.parent().unwrap().join("storm-cli");
        if !exe.exists() {
            let src = std::env::var("VH_CLI").unwrap_or_else(|_| "/verif/target/cli/release/storm-cli".into());
            std::fs::copy(src, &exe).expect("the tool's binary");
            let _ = std::fs::set_permissions(&exe, std::fs::Permissions::from_mode(0o755));
        }
        let _ = std::fs::set_permissions(&ctx.dir, std::fs::Permissions::from_mode(0o755));
        let home = mkdir(&ctx.dir.join("home"));
        Cli { exe, home }
    }
    /// One run of the tool. Ending by panic or signal is a violation; None then.
    fn run(&self, ctx: &mut Ctx, cwd: &Path, args: &[&str]) -> Option<Out> {
        ctx.count("runs");
        let mut c = Command::new(&self.exe);
        c.args(args).current_dir(cwd).env_clear().env("HOME", &self.home).env("PATH", "/usr/bin:/bin").env("LANG", "C.UTF-8").stdin(Stdio::null());
        let root = unsafe { libc::geteuid() } == 0;
        unsafe {
            c.pre_exec(move || {
                let lim = |what, n: u64| {
                    let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                    libc::setrlimit(what, &l);
                };
                lim(libc::RLIMIT_CORE, 0);
                lim(libc::RLIMIT_FSIZE, 256 << 20);
                lim(libc::RLIMIT_AS, 6 << 30);
                lim(libc::RLIMIT_CPU, 40);
                libc::alarm(240);
                if root {
                    libc::setgroups(0, std::ptr::null());
                    if libc::setgid(UID) != 0 || libc::setuid(UID) != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                }
                Ok(())
            });
        }
        let o = c.output().expect("run the tool");
        let r = Out { code: o.status.code().unwrap_or(-1), out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() };
        let verb = args.iter().filter(|a| a.bytes().all(|b| b.is_ascii_lowercase())).take(2).copied().collect::<Vec<_>>().join(" ");
        if ctx.verbose {
            eprintln!("$ storm-cli {args:?} -> {} {:?}", r.code, r.err.chars().take(200).collect::<String>());
        }
        if o.status.signal() == Some(libc::SIGALRM) {
            // too slow a machine decides nothing
            ctx.count("timeouts");
            return None;
        }
        if let Some(s) = o.status.signal() {
            ctx.viol(format!("crash:{verb}"), format!("storm-cli {args:?} was ended by signal {s}: {}", r.err.lines().last().unwrap_or("")));
            return None;
        }
        if r.code == 101 || r.err.contains("panicked at") {
            ctx.viol(format!("panic:{verb}"), format!("storm-cli {args:?}: {}", r.err.lines().take(2).collect::<Vec<_>>().join(" | ")));
            return None;
        }
        Some(r)
    }
    /// A run that has to succeed.
    fn ok(&self, ctx: &mut Ctx, cwd: &Path, args: &[&str], what: &str) -> Option<Out> {
        let r = self.run(ctx, cwd, args)?;
        if ctx.check(r.code == 0, "failed", || format!("storm-cli {args:?} exited {}: {} ({what})", r.code, r.err.lines().take(3).collect::<Vec<_>>().join(" | "))) {
            Some(r)
        } else {
            None
        }
    }
    /// A run that has to fail.
    fn fails(&self, ctx: &mut Ctx, cwd: &Path, args: &[&str], what: &str) -> Option<Out> {
        let r = self.run(ctx, cwd, args)?;
        ctx.count("failures_reported");
        if ctx.check(r.code != 0, "failure-not-reported", || format!("storm-cli {args:?} exited 0 ({what})")) {
            Some(r)
        } else {
            None
        }
    }
}

/// Everything below a directory: contents of files, targets of links.
fn snapshot(dir: &Path) -> BTreeMap<String, (u8, u64)> {
    fn walk(base: &Path, d: &Path, m: &mut BTreeMap<String, (u8, u64)>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let k = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
            let t = e.file_type().unwrap();
            if t.is_dir() {
                m.insert(k, (1, 0));
                walk(base, &p, m);
            } else if t.is_symlink() {
                m.insert(k, (2, 0));
            } else {
                m.insert(k, (0, fnv(&std::fs::read(&p).unwrap_or_default())));
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(dir, dir, &mut m);
    m
}

/// Fields of a CSV line.
fn csv(line: &str) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut it = line.chars().peekable();
    let mut q = false;
    while let Some(c) = it.next() {
        match c {
            '"' if q && it.peek() == Some(&'"') => {
                it.next();
                v.last_mut().unwrap().push('"');
            }
            '"' if q => q = false,
            '"' if v.last().unwrap().is_empty() => q = true,
            ',' if !q => v.push(String::new()),
            c => v.last_mut().unwrap().push(c),
        }
    }
    v
}

/// Records of a CSV text, whose quoted fields may hold line breaks.
fn csv_all(text: &str) -> Vec<Vec<String>> {
    let mut v = vec![];
    let mut cur = String::new();
    for l in text.split_inclusive('\n') {
        cur += l;
        if cur.matches('"').count() % 2 == 0 {
            v.push(csv(cur.strip_suffix('\n').unwrap_or(&cur)));
            cur.clear();
        }
    }
    if !cur.is_empty() {
        v.push(csv(&cur));
    }
    v
}

/// Where a name goes below the target; None if it leaves it or names no file.
fn place(name: &str) -> Option<String> {
    let parts: Vec<&str> = name.split(['/', '\\']).filter(|p| !p.is_empty() && *p != ".").collect();
    if parts.is_empty() || parts.contains(&"..") || name.ends_with(['/', '\\']) || parts.iter().any(|p| p.contains('\0') || p.len() > 255) {
        return None;
    }
    Some(parts.join("/"))
}

struct Arch<'a> {
    path: &'a str,
    cwd: PathBuf,
    /// names as listed, with contents; the listfile included when there is one
    model: Vec<(String, Vec<u8>)>,
    named: bool,
    ver: usize,
    ss: usize,
    brief: String,
    class: String,
    comp: Option<u8>,
    /// Some name cannot be extracted to a place of its own.
    odd: bool,
}

/// Compare what the tool says about an intact archive with the model.
fn inspect(ctx: &mut Ctx, r: &mut Rng, cli: &Cli, a: &Arch) {
    let n = if ctx.thorough { 6 } else { 4 };
    let cwd = a.cwd.as_path();
    let mut names: Vec<String> = a.model.iter().map(|m| m.0.clone()).collect();
    names.sort();
    for _ in 0..n {
        let fmt = *r.pick(&["text", "json", "csv"]);
        let kind = r.below(9);
        let cls = format!("{} {fmt}", a.class);
        match kind {
            0 | 1 => {
                // listings
                let hashes = r.bool();
                let all = !a.named || r.chance(1, 3);
                let mut args = vec![*r.pick(&["archive", "file"]), "list", a.path, "-o", fmt];
                if hashes {
                    args.push("--show-hashes");
                }
                if all {
                    args.push("--all");
                }
                if fmt != "text" && r.chance(1, 4) {
                    args.push("-v");
                }
                let Some(o) = cli.ok(ctx, cwd, &args, &a.brief) else { continue };
                ctx.count("listings");
                ctx.distinct(&format!("list h{hashes} a{all} {cls}"));
                let mut got: Vec<(String, Option<(String, String)>)> = match fmt {
                    "json" => match serde_json::from_str::<Value>(&o.out) {
                        Ok(Value::Array(v)) => v
                            .iter()
                            .map(|x| match x {
                                Value::String(s) => (s.clone(), None),
                                x => (x["name"].as_str().unwrap_or("?").to_string(), x["hash1"].as_str().map(|h| (h.to_string(), x["hash2"].as_str().unwrap_or("").to_string()))),
                            })
                            .collect(),
                        x => {
                            ctx.viol("json", format!("storm-cli {args:?} printed no JSON array: {x:?} ({})", a.brief));
                            continue;
                        }
                    },
                    "csv" => o
                        .out
                        .lines()
                        .skip(1)
                        .map(|l| {
                            let f = csv(l);
                            (f[0].clone(), (f.len() == 3).then(|| (f[1].clone(), f[2].clone())))
                        })
                        .collect(),
                    _ => {
                        let l: Vec<&str> = o.out.lines().collect();
                        let total = l.last().copied().unwrap_or("");
                        ctx.check(total == format!("Total: {} files", a.model.len()), "list-total", || format!("storm-cli {args:?}: {total:?} for {} files ({})", a.model.len(), a.brief));
                        l[..l.len().saturating_sub(2)]
                            .iter()
                            .map(|s| match (hashes, s.rsplit_once(" [")) {
                                (true, Some((n, h))) => (n.to_string(), h.trim_end_matches(']').split_once(' ').map(|(a, b)| (a.to_string(), b.to_string()))),
                                _ => (s.to_string(), None),
                            })
                            .collect()
                    }
                };
                ctx.check(got.windows(2).all(|w| w[0].0 <= w[1].0), "list-order", || format!("storm-cli {args:?} lists {:?} out of order", got.windows(2).find(|w| w[0].0 > w[1].0)));
                if all {
                    ctx.check(got.len() == a.model.len(), "list-count", || format!("storm-cli {args:?} listed {} of {} files ({})", got.len(), a.model.len(), a.brief));
                    if hashes && a.ver < 2 {
                        let mut g: Vec<String> = got.iter().map(|x| x.1.as_ref().map(|h| format!("{} {}", h.0, h.1)).unwrap_or_default()).collect();
                        let mut w: Vec<String> = a.model.iter().map(|m| format!("{:08X} {:08X}", refm::hash_string(&m.0, 1), refm::hash_string(&m.0, 2))).collect();
                        g.sort();
                        w.sort();
                        ctx.check(g == w, "list-hashes", || format!("storm-cli {args:?}: {g:?}, the names hash to {w:?} ({})", a.brief));
                    }
                } else {
                    got.sort();
                    let g: Vec<&str> = got.iter().map(|x| x.0.as_str()).collect();
                    ctx.check(g == names, "list-names", || format!("storm-cli {args:?} listed {:?}.., expected {:?}.. ({})", g.iter().filter(|x| !names.iter().any(|n| n == **x)).take(3).collect::<Vec<_>>(), names.iter().filter(|x| !g.contains(&x.as_str())).take(3).collect::<Vec<_>>(), a.brief));
                    if hashes {
                        for (n, h) in &got {
                            let w = (format!("{:08X}", refm::hash_string(n, 1)), format!("{:08X}", refm::hash_string(n, 2)));
                            ctx.check(h.as_ref() == Some(&w), "list-hashes", || format!("storm-cli {args:?}: {n:?} has {h:?}, expected {w:?}"));
                        }
                    }
                }
            }
            2 => {
                // a filter
                let (pat, re, ic, want) = filter(r, &names);
                let find = r.bool();
                let mut args = if find { vec!["file", "find", a.path, pat.as_str()] } else { vec!["file", "list", a.path, "-p", pat.as_str(), "-o", "json"] };
                if re {
                    args.push("-r");
                }
                if ic && find {
                    args.push("-i");
                }
                if !a.named {
                    continue;
                }
                let Some(o) = cli.ok(ctx, cwd, &args, &a.brief) else { continue };
                ctx.count("listings");
                ctx.distinct(&format!("find {find} {re} {ic} {} {}", want.len().min(2), a.class));
                if ic && !find {
                    continue;
                }
                let mut got: Vec<String> = if find {
                    if want.is_empty() {
                        ctx.check(!o.out.lines().any(|l| names.iter().any(|n| n == l)), "find", || format!("storm-cli {args:?}: {:?}, nothing matches", o.out));
                        continue;
                    }
                    o.out.lines().map(|s| s.to_string()).collect()
                } else {
                    serde_json::from_str(&o.out).unwrap_or_default()
                };
                got.sort();
                ctx.check(got == want, "find", || format!("storm-cli {args:?}: {got:?}, expected {want:?} ({})", a.brief));
            }
            3 => {
                let args = ["archive", "info", a.path, "-o", fmt];
                let Some(o) = cli.ok(ctx, cwd, &args, &a.brief) else { continue };
                ctx.count("infos");
                ctx.distinct(&format!("info {cls}"));
                let v: BTreeMap<String, String> = match fmt {
                    "json" => match serde_json::from_str::<Value>(&o.out) {
                        Ok(Value::Object(m)) => {
                            let mut b: BTreeMap<String, String> = m.iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
                            b.insert("has_listfile".into(), m["special_files"]["has_listfile"].to_string());
                            b
                        }
                        x => {
                            ctx.viol("json", format!("storm-cli {args:?} printed no JSON object: {x:?}"));
                            continue;
                        }
                    },
                    "csv" => o.out.lines().map(csv).filter(|f| f.len() == 2).map(|f| (f[0].clone(), f[1].clone())).collect(),
                    _ => {
                        let t = &o.out;
                        let has = |s: String| t.lines().any(|l| l.trim() == s);
                        ctx.check(has(format!("Number of files: {}", a.model.len())) && has(format!("Format version: v{}", a.ver + 1)) && has(format!("Sector size: {} bytes", a.ss)), "info", || format!("storm-cli {args:?} for {} files, v{}, sectors of {}:\n{t}", a.model.len(), a.ver + 1, a.ss));
                        continue;
                    }
                };
                let size = std::fs::metadata(cwd.join(a.path)).map(|m| m.len()).unwrap_or(0);
                let pw = if fmt == "json" { Value::from(a.path).to_string() } else { a.path.to_string() };
                ctx.check(v.get("path") == Some(&pw), "info", || format!("storm-cli {args:?}: path is {:?}", v.get("path")));
                for (k, w) in [("file_count", a.model.len() as u64), ("format_version", a.ver as u64 + 1), ("sector_size", a.ss as u64), ("file_size", size), ("archive_offset", 0)] {
                    ctx.check(v.get(k) == Some(&w.to_string()), "info", || format!("storm-cli {args:?}: {k} is {:?}, expected {w} ({})", v.get(k), a.brief));
                }
                ctx.check(v.get("has_listfile") == Some(&a.named.to_string()), "info", || format!("storm-cli {args:?}: has_listfile is {:?} ({})", v.get("has_listfile"), a.brief));
            }
            4 => {
                let contents = r.bool();
                let mut args = vec!["archive", "verify", a.path, "-o", fmt];
                if contents {
                    args.push("--check-contents");
                }
                if r.chance(1, 3) {
                    args.push("--check-crc");
                }
                let Some(o) = cli.ok(ctx, cwd, &args, &a.brief) else { continue };
                ctx.count("verified");
                ctx.distinct(&format!("verify {contents} {cls}"));
                if fmt == "json" {
                    let v: Value = serde_json::from_str(&o.out).unwrap_or_default();
                    let n = if a.named { a.model.len() as u64 } else { 0 };
                    let rd = if contents { n } else { 0 };
                    let f = &v["file_checks"];
                    ctx.check(v["passed"] == true && v["total_files"] == n && v["verified_files"] == n && f["files_found"] == n && f["files_readable"] == rd && f["files_missing"] == 0 && f["files_corrupted"] == 0, "verify-report", || format!("storm-cli {args:?} of an intact archive with {n} names: {v} ({})", a.brief));
                } else if fmt == "csv" {
                    ctx.check(csv_all(&o.out).contains(&vec!["archive".to_string(), a.path.to_string()]), "verify-report", || format!("storm-cli {args:?}: {}", o.out));
                    ctx.check(o.out.lines().any(|l| l == "passed,true"), "verify-report", || format!("storm-cli {args:?} of an intact archive: {}", o.out));
                } else {
                    ctx.check(o.out.contains("PASSED"), "verify-report", || format!("storm-cli {args:?} of an intact archive: {}", o.out));
                }
            }
            5 => {
                // one file's size
                let (nm, d) = r.pick(&a.model);
                if nm.starts_with('-') || nm.contains('\0') {
                    continue;
                }
                let nm2 = if r.bool() { gen::respell(r, nm) } else { nm.clone() };
                if nm2.starts_with('-') {
                    continue;
                }
                let args = ["file", "info", a.path, nm2.as_str(), "-o", fmt];
                let Some(o) = cli.ok(ctx, cwd, &args, &a.brief) else { continue };
                ctx.distinct(&format!("file info {cls}"));
                let got = match fmt {
                    "json" => serde_json::from_str::<Value>(&o.out).ok().and_then(|v| (v["filename"] == nm2.as_str()).then(|| v["size"].as_u64()).flatten()),
                    "csv" => o.out.lines().nth(1).map(csv).filter(|f| f.len() == 2 && f[0] == nm2).and_then(|f| f[1].parse().ok()),
                    _ => o.out.lines().find_map(|l| l.strip_prefix("Size:").and_then(|s| s.trim().trim_end_matches(" bytes").parse().ok())),
                };
                ctx.check(got == Some(d.len() as u64), "file-info", || format!("storm-cli {args:?}: {:?}, the file has {} bytes", o.out, d.len()));
            }
            6 => single(ctx, r, cli, a),
            7 => {
                // what is not there
                let nm = format!("no_such_{}.bin", r.below(1000));
                let out = mkdir(&ctx.dir.join(format!("none{}", r.below(1 << 30))));
                let o = if r.bool() { cli.fails(ctx, cwd, &["file", "info", a.path, &nm], &a.brief) } else { cli.fails(ctx, cwd, &["file", "extract", a.path, &nm, "-t", &(out.to_string_lossy().to_string() + "/x")], &a.brief) };
                if o.is_some() {
                    ctx.check(snapshot(&out).is_empty(), "left-behind", || format!("extracting a missing file left {:?}", snapshot(&out)));
                }
            }
            _ => {
                // the analysis
                let args = ["archive", "analyze", a.path, "-o", "json"];
                let Some(o) = cli.ok(ctx, cwd, &args, &a.brief) else { continue };
                let v: Value = serde_json::from_str(&o.out).unwrap_or_default();
                if !a.named {
                    ctx.check(v.is_object(), "json", || format!("storm-cli {args:?} printed no JSON object: {}", o.out));
                    continue;
                }
                let sum: u64 = a.model.iter().map(|m| m.1.len() as u64).sum();
                ctx.check(v["total_files"] == a.model.len() as u64 && v["total_uncompressed_size"] == sum, "analyze-totals", || format!("storm-cli {args:?} for {} files with {sum} bytes: {v} ({})", a.model.len(), a.brief));
                let n: u64 = v["compression_methods"].as_object().map(|m| m.values().map(|x| x["count"].as_u64().unwrap_or(0)).sum()).unwrap_or(0);
                ctx.check(n == a.model.len() as u64, "analyze-totals", || format!("storm-cli {args:?}: methods of {n} files, there are {} ({})", a.model.len(), a.brief));
                // sizes as stored, extensions, and the lines of the detailed report
                let path = a.cwd.join(a.path);
                let lib = ctx.lib("Archive", || {
                    let ar = mopaq::Archive::open(&path).ok()?;
                    a.model.iter().map(|m| ar.find_file(&m.0).ok()?.map(|i| (m.0.clone(), i.file_size, i.compressed_size))).collect::<Option<Vec<_>>>()
                });
                let Some(lib) = lib else { return };
                if let Some(lib) = lib {
                    ctx.count("analyses");
                    let (u, c): (u64, u64) = (lib.iter().map(|x| x.1).sum(), lib.iter().map(|x| x.2).sum());
                    ctx.check(v["total_compressed_size"] == c, "analyze-totals", || format!("storm-cli {args:?}: {} bytes stored, by the library {c} ({})", v["total_compressed_size"], a.brief));
                    let ratio = if u > 0 { c as f64 / u as f64 * 100.0 } else { 100.0 };
                    ctx.check(v["overall_compression_ratio"].as_f64().is_some_and(|x| (x - ratio).abs() < 0.6), "analyze-totals", || format!("storm-cli {args:?}: ratio {}, by the library {ratio} ({})", v["overall_compression_ratio"], a.brief));
                    if r.bool() {
                        let args = ["archive", "analyze", a.path, "-e", "-o", "json"];
                        let Some(o) = cli.ok(ctx, cwd, &args, &a.brief) else { continue };
                        let v: Value = serde_json::from_str(&o.out).unwrap_or_default();
                        let got: BTreeMap<String, u64> = v["by_extension"].as_object().map(|m| m.iter().map(|(k, x)| (k.clone(), x.as_object().map_or(0, |y| y.values().filter_map(|z| z.as_u64()).sum()))).collect()).unwrap_or_default();
                        // (names without an extension of plain characters are left to the tool's wording)
                        for e in ["txt", "dat", "blp", "wav", "m2"] {
                            let want = lib.iter().filter(|x| x.0.to_lowercase().ends_with(&format!(".{e}")) && x.0.len() > e.len() + 1 && !x.0.contains(&['/', '\\'][..])).count() as u64;
                            let most = lib.iter().filter(|x| x.0.to_lowercase().ends_with(&format!(".{e}"))).count() as u64;
                            let g = got.get(e).copied().unwrap_or(0);
                            ctx.check((want..=most).contains(&g), "analyze-extension", || format!("storm-cli {args:?}: {g} files with extension {e}, there are {most} ({})", a.brief));
                        }
                        let all: u64 = got.values().sum();
                        ctx.check(all == lib.len() as u64, "analyze-extension", || format!("storm-cli {args:?}: extensions of {all} files, there are {} ({})", lib.len(), a.brief));
                    } else if !lib.is_empty() {
                        let args = ["archive", "analyze", a.path, "-d", "-s"];
                        let Some(o) = cli.ok(ctx, cwd, &args, &a.brief) else { continue };
                        for (n, u, c) in lib.iter().filter(|x| !x.0.contains(&['\n', '\r'][..])) {
                            let sizes = format!("({u} -> {c} bytes");
                            ctx.check(o.out.lines().any(|l| l.contains(n.as_str()) && l.contains(&sizes) && percent(l).is_some_and(|p| *u == 0 || (p - *c as f64 / *u as f64 * 100.0).abs() <= 1.0)), "analyze-detail", || {
                                format!("storm-cli {args:?}: no line for {n:?} with {sizes} and the percentage ({}): {}", a.brief, o.out.chars().take(500).collect::<String>())
                            });
                        }
                    }
                }
                if a.comp == Some(refm::ZLIB) && a.model.iter().any(|m| m.1.len() > 600 && m.1.iter().all(|b| *b == m.1[0])) {
                    // something is certainly stored compressed
                    ctx.count("analyze_methods");
                    ctx.check(v["compression_methods"]["Zlib"]["count"].as_u64().unwrap_or(0) > 0, "analyze-method", || format!("storm-cli {args:?} of an archive with zlib-compressed files: {}", v["compression_methods"]));
                }
            }
        }
    }
}

/// The percentage a line ends with.
fn percent(l: &str) -> Option<f64> {
    let e = l.rfind('%')?;
    let t = &l[..e];
    let s = t.rfind(|c: char| !c.is_ascii_digit() && c != '.').map_or(0, |k| k + t[k..].chars().next().unwrap().len_utf8());
    t[s..].parse().ok()
}

fn filter(r: &mut Rng, names: &[String]) -> (String, bool, bool, Vec<String>) {
    let plain = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || matches!(c, '_' | '.' | '/')) && !s.starts_with('-');
    let sel = |f: &dyn Fn(&str) -> bool| -> Vec<String> { names.iter().filter(|n| f(n)).cloned().collect() };
    let ext = *r.pick(&[".txt", ".BLP", ".m2", ".dat", ".q"]);
    let any = r.pick(names).clone();
    // a letter outside ASCII whose cases correspond one to one
    let odd: Option<(String, String)> = any.chars().find_map(|c| {
        let (l, u): (String, String) = (c.to_lowercase().collect(), c.to_uppercase().collect());
        (!c.is_ascii() && l != u && u.to_lowercase() == l && l.chars().count() == 1 && u.chars().count() == 1).then_some((l, u))
    });
    match r.below(8) {
        6 | 7 if odd.is_some() => {
            let (l, u) = odd.unwrap();
            let ic = r.chance(2, 3);
            let p = if ic { if r.bool() { u.clone() } else { l.clone() } } else { u.clone() };
            (format!("*{p}*"), false, ic, sel(&|n| if ic { n.to_lowercase().contains(&l) } else { n.contains(&p) }))
        }
        6 => {
            let u = if r.bool() { ext.to_uppercase() } else { ext.to_lowercase() };
            (format!("*{u}"), false, false, sel(&|n| n.ends_with(&u)))
        }
        7 if plain(&any) && any.len() > 2 => {
            // any one character
            let p = format!("?{}", &any[1..]);
            (p.clone(), false, false, sel(&|n| n.chars().count() == any.len() && n.char_indices().nth(1).is_some_and(|(k, _)| n[k..] == any[1..])))
        }
        0 => (format!("*{ext}"), false, false, sel(&|n| n.ends_with(ext))),
        1 => (format!("*{}", ext.to_uppercase()), false, true, sel(&|n| n.to_lowercase().ends_with(&ext.to_lowercase()))),
        2 if plain(&any) => (any.clone(), false, false, sel(&|n| n == any)),
        3 if plain(&any) => {
            let p = any[..any.len().div_ceil(2)].to_string();
            (format!("{p}*"), false, false, sel(&|n| n.starts_with(&p)))
        }
        4 if plain(&any) => {
            let u = any.to_uppercase();
            (format!("^{}$", u.replace('.', "\\.")), true, true, sel(&|n| n.eq_ignore_ascii_case(&any)))
        }
        _ => (format!("\\{ext}$"), true, false, sel(&|n| n.ends_with(ext))),
    }
}

/// Extraction of one file, wherever the target points.
fn single(ctx: &mut Ctx, r: &mut Rng, cli: &Cli, a: &Arch) {
    let (nm, d) = r.pick(&a.model).clone();
    if nm.starts_with('-') || nm.contains('\0') {
        return;
    }
    let Some(rel) = place(&nm) else { return };
    let keep = r.bool();
    let sub = if keep { rel.clone() } else { rel.rsplit('/').next().unwrap().to_string() };
    let dir = mkdir(&ctx.dir.join(format!("one{}", r.below(1 << 30))));
    let ds = dir.to_string_lossy().to_string();
    let k = r.below(5);
    let (target, want, cwd) = match k {
        0 => (None, dir.join(&sub), dir.clone()),
        1 => (Some(format!("{ds}/f.out")), dir.join("f.out"), a.cwd.clone()),
        2 => (Some(ds.clone()), dir.join(&sub), a.cwd.clone()),
        3 => (Some(format!("{ds}/new/")), dir.join("new").join(&sub), a.cwd.clone()),
        _ => (Some(format!("{ds}/deep/er/f.out")), dir.join("deep/er/f.out"), a.cwd.clone()),
    };
    if k == 1 && r.bool() {
        // something longer is there already
        std::fs::write(&want, vec![0xEE; d.len() + 100]).unwrap();
        own(&want);
    }
    let ap = a.cwd.join(a.path).to_string_lossy().to_string();
    let mut args = vec!["file", "extract", ap.as_str(), nm.as_str()];
    if let Some(t) = &target {
        args.extend(["-t", t.as_str()]);
    }
    if keep {
        args.push("-p");
    }
    let Some(_) = cli.ok(ctx, &cwd, &args, &a.brief) else { return };
    ctx.count("singles");
    ctx.distinct(&format!("extract one {k} {keep} {}", a.class));
    let got = std::fs::read(&want).ok();
    ctx.check(got.as_ref() == Some(&d), "extract-one", || format!("storm-cli {args:?}: {} ({})", got.map(|g| diff(&g, &d)).unwrap_or(format!("nothing at {}, but {:?}", want.display(), snapshot(&dir).keys().collect::<Vec<_>>())), a.brief));
    let files = snapshot(&dir).values().filter(|v| v.0 == 0).count();
    ctx.check(files == 1, "extract-one", || format!("storm-cli {args:?} left {files} files"));
}

/// Extraction of everything, against the model.
fn all(ctx: &mut Ctx, r: &mut Rng, cli: &Cli, a: &Arch, keep: bool) {
    let out = mkdir(&ctx.dir.join(format!("all{}", r.below(1 << 30))));
    let mut target = out.to_string_lossy().to_string();
    let mut base = out.clone();
    if r.chance(1, 4) {
        target += "/fresh/dir";
        base = out.join("fresh/dir");
    }
    let here = r.chance(1, 5);
    let ap = a.cwd.join(a.path).to_string_lossy().to_string();
    let mut args = vec!["file", "extract", ap.as_str()];
    if here {
        base = out.clone();
    } else {
        args.extend(["-t", target.as_str()]);
    }
    if keep {
        args.push("-p");
    }
    if r.chance(1, 3) {
        args.push("-q");
    }
    let odd = a.odd;
    let o = if odd { cli.run(ctx, &out, &args) } else { cli.ok(ctx, &out, &args, &a.brief) };
    let Some(o) = o else { return };
    ctx.count("extractions");
    ctx.distinct(&format!("extract all keep{keep} here{here} odd{odd} {}", a.class));
    let mut got = snapshot(&base);
    got.retain(|_, v| v.0 == 0);
    let mut want: BTreeMap<String, Vec<u64>> = BTreeMap::new();
    for (n, d) in &a.model {
        if let Some(p) = place(n) {
            let p = if keep { p } else { p.rsplit('/').next().unwrap().to_string() };
            want.entry(p).or_default().push(fnv(d));
        }
    }
    let bad = got.iter().filter(|(k, v)| !want.get(*k).is_some_and(|w| w.contains(&v.1))).map(|x| x.0.clone()).take(3).collect::<Vec<_>>();
    ctx.check(bad.is_empty(), "extract-content", || format!("storm-cli {args:?}: {bad:?} are not what the archive holds ({})", a.brief));
    if !odd {
        let miss = want.keys().filter(|k| !got.contains_key(*k)).take(3).collect::<Vec<_>>();
        ctx.check(miss.is_empty(), "extract-missing", || format!("storm-cli {args:?} exited {} without extracting {miss:?} ({})", o.code, a.brief));
        if keep && bad.is_empty() && miss.is_empty() {
            ctx.count("trees_reproduced");
        }
    }
}

fn tree_name(r: &mut Rng) -> String {
    loop {
        let n = gen::name(r).replace('\\', "/");
        let ok = n.split('/').all(|p| !p.is_empty() && p != "." && p != ".." && p.len() < 200) && !n.contains([';', '\0', '\n', '\r']) && !n.starts_with('#') && n.trim() == n && n.len() < 220;
        if ok && refm::canon(&n) != refm::canon("(listfile)") {
            return n;
        }
    }
}

/// A directory tree, created, inspected and extracted.
fn roundtrip(ctx: &mut Ctx, r: &mut Rng, cli: &Cli) {
    let src = mkdir(&ctx.dir.join(*r.pick(&["src", "log dir", "x.tmp"])));
    let work = mkdir(&ctx.dir.join("work"));
    let mut files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut seen = BTreeSet::new();
    let mut dirs = BTreeSet::new();
    let bs = *r.pick(&[0u16, 1, 2, 3, 3, 4, 7, 12, 16, 23]);
    let ss = 512usize << bs.min(7);
    let nf = if r.chance(1, 12) { r.range(40, 150) } else { r.range(0, 9) };
    for i in 0..nf {
        let n = if i > 12 { format!("bulk/d{}/f{i}.dat", i % 7) } else { tree_name(r) };
        let c = String::from_utf8_lossy(&refm::canon(&n)).into_owned();
        // neither a directory of another name nor below a file, in any spelling
        let up: Vec<String> = c.match_indices(['\\', '/']).map(|(k, _)| c[..k].to_string()).collect();
        if dirs.contains(&c) || up.iter().any(|u| seen.contains(u)) || !seen.insert(c) {
            continue;
        }
        dirs.extend(up);
        let sz = gen::size(r, ss.min(8192)).min(200_000);
        let d = if r.chance(1, 6) { vec![7u8; 700 + r.usize(3000)] } else { gen::content(r, sz, ss) };
        let p = src.join(&n);
        if std::fs::create_dir_all(p.parent().unwrap()).is_err() || std::fs::write(&p, &d).is_err() {
            seen.clear();
            return;
        }
        files.insert(n, d);
    }
    // directories with nothing in them, links to elsewhere
    std::fs::create_dir_all(src.join("hollow/inner")).unwrap();
    let link = r.chance(1, 4) && !seen.contains("LINKED") && !dirs.contains("LINKED");
    let mut linked = BTreeMap::new();
    if link {
        let e = mkdir(&ctx.dir.join("elsewhere"));
        std::fs::write(e.join("l.txt"), b"linked").unwrap();
        symlink(&e, src.join("linked")).unwrap();
        linked.insert("linked/l.txt".to_string(), b"linked".to_vec());
    }
    let flink = r.chance(1, 4) && !seen.contains("LINK.LNK") && !dirs.contains("LINK.LNK");
    if flink {
        std::fs::write(ctx.dir.join("target.file"), b"pointed at").unwrap();
        symlink(ctx.dir.join("target.file"), src.join("link.lnk")).unwrap();
    }
    let ver = r.usize(4);
    let comp = *r.pick(&["none", "zlib", "bzip2", "lzma", "sparse", "pkware"]);
    let cfg = ctx.dir.join("cfg.toml");
    let vs = (ver + 1).to_string();
    let bss = bs.to_string();
    let srcs = src.to_string_lossy().to_string();
    let cfgs = cfg.to_string_lossy().to_string();
    let dest = *r.pick(&["a.mpq", "./b c.mpq", "ä.MPQ", "x,y.mpq"]);
    let mut args = vec!["archive", "create", dest, srcs.as_str()];
    let mut pre: Vec<Vec<String>> = vec![];
    if r.chance(1, 3) {
        // through the configuration
        let over = r.chance(1, 3);
        let set = if over { ["2", "5", "bzip2"] } else { [vs.as_str(), bss.as_str(), comp] };
        if over {
            // what the command line says goes before
            args.extend(["-V", vs.as_str(), "-c", comp, "-b", bss.as_str()]);
        }
        for (k, v) in ["default_version", "default_block_size", "default_compression"].into_iter().zip(set) {
            pre.push(vec!["-C".into(), cfgs.clone(), "config".into(), "set".into(), k.into(), v.into()]);
        }
        r.shuffle(&mut pre);
        own(&ctx.dir.clone());
        args.extend(["-C", cfgs.as_str()]);
    } else {
        args.extend(["-V", vs.as_str(), "-c", comp, "-b", bss.as_str()]);
    }
    for p in &pre {
        let p: Vec<&str> = p.iter().map(|s| s.as_str()).collect();
        if cli.ok(ctx, &work, &p, "configuration").is_none() {
            return;
        }
    }
    let mut expect: BTreeMap<String, Vec<u8>> = files.clone();
    let flat = r.chance(1, 8);
    if flat {
        args.push("--no-recursive");
        expect.retain(|n, _| !n.contains('/'));
    }
    if flink {
        // a link to a file is the file it points at, followed or not
        expect.insert("link.lnk".into(), b"pointed at".to_vec());
    }
    let mut follow = false;
    if (link || flink) && r.bool() {
        args.push("--follow-symlinks");
        follow = true;
        if !flat {
            expect.extend(linked.clone());
        }
    }
    if link && !follow && flat {
        ctx.count("links_not_followed");
    }
    let mut pats: Vec<String> = vec![];
    if r.chance(1, 4) {
        for _ in 0..r.range(1, 3) {
            pats.push(match r.below(8) {
                7 if !files.is_empty() => {
                    let n: Vec<&String> = files.keys().collect();
                    let b = r.pick(&n).rsplit('/').next().unwrap().to_string();
                    if b.len() > 3 && b.chars().all(|c| c.is_ascii_alphanumeric() || c == '.') {
                        format!("?{}", &b[1..])
                    } else {
                        "*.blp".into()
                    }
                }
                _ => r.pick(&["*.txt", "*.BLP", "bulk", "log", "*.tmp", "d1/*", "File"]).to_string(),
            });
        }
        for p in &pats {
            args.extend(["-i", p.as_str()]);
        }
        // what a glob on the name or the path, or a part of the path says
        expect.retain(|n, _| {
            let b = n.rsplit('/').next().unwrap();
            !pats.iter().any(|pat| {
                let one = |s: &str| pat.strip_prefix('?').is_some_and(|p| s.char_indices().nth(1).is_some_and(|(k, _)| &s[k..] == p));
                n.contains(pat.as_str()) || pat.strip_prefix('*').is_some_and(|s| n.ends_with(s) || b.ends_with(s)) || pat == "d1/*" && n.starts_with("d1/") || one(n) || one(b)
            })
        });
    }
    let mut named = true;
    let lf = ctx.dir.join("ext.txt");
    let lfs = lf.to_string_lossy().to_string();
    let mut lfdata = None;
    match r.below(6) {
        0 => {
            args.push("--no-listfile");
            named = false;
        }
        1 => {
            let eol = *r.pick(&["\n", "\r\n"]);
            let d: String = expect.keys().cloned().chain(["(listfile)".into()]).map(|n| n + eol).collect();
            std::fs::write(&lf, &d).unwrap();
            args.extend(["--listfile", lfs.as_str()]);
            lfdata = Some(d.into_bytes());
        }
        _ => {}
    }
    if r.chance(1, 3) {
        // replaced
        std::fs::write(work.join(dest), vec![1u8; 5000]).unwrap();
        own(&work.join(dest));
    }
    let brief = format!("{args:?} with {} files", files.len());
    let Some(_) = cli.ok(ctx, &work, &args, &brief) else { return };
    ctx.count("created");
    let bytes = std::fs::read(work.join(dest)).unwrap_or_default();
    let pa = match RefArchive::parse(bytes, 0) {
        Ok(p) => p,
        Err(e) => return ctx.viol("create", format!("the archive written cannot be parsed: {e} ({brief})")),
    };
    let mut model: Vec<(String, Vec<u8>)> = expect.clone().into_iter().collect();
    if named {
        // its order is that of the directory walk
        let e = pa.find("(listfile)").first().and_then(|x| pa.block.get(x.1.block as usize).cloned());
        let Some(Ok(text)) = e.map(|e| pa.content("(listfile)", &e)) else { return ctx.viol("create", format!("no listfile ({brief})")) };
        if let Some(d) = &lfdata {
            ctx.check(*d == text, "create", || format!("the external listfile was not taken over ({brief})"));
        } else {
            let mut got: Vec<String> = String::from_utf8_lossy(&text).lines().map(|s| s.to_string()).collect();
            let mut want: Vec<String> = expect.keys().cloned().chain(["(listfile)".into()]).collect();
            got.sort();
            want.sort();
            ctx.check(got == want, "create", || format!("the listfile names {:?}, expected {:?} ({brief})", got.iter().filter(|g| !want.contains(g)).take(3).collect::<Vec<_>>(), want.iter().filter(|g| !got.contains(g)).take(3).collect::<Vec<_>>()));
        }
        model.push(("(listfile)".into(), text));
    }
    // no more and no less than the tree, as another reader sees it
    for (n, d) in &expect {
        let e = pa.find(n).first().and_then(|x| pa.block.get(x.1.block as usize).cloned());
        match e.map(|e| pa.content(n, &e)) {
            Some(Ok(g)) => {
                ctx.check(g == *d, "create", || format!("{n:?} is stored wrongly: {} ({brief})", diff(&g, d)));
            }
            x => ctx.viol("create", format!("{n:?} is not in the archive: {:?} ({brief})", x.map(|e| e.err()))),
        }
    }
    // stored as the library stores it with the method and sector size that were asked for
    let m = match comp {
        "none" => 0,
        "zlib" => refm::ZLIB,
        "bzip2" => refm::BZIP2,
        "lzma" => refm::LZMA,
        "sparse" => refm::SPARSE,
        _ => refm::PKWARE,
    };
    let twin = ctx.dir.join("twin.mpq");
    let built = ctx.lib("ArchiveBuilder::build", || {
        let mut b = mopaq::ArchiveBuilder::new().version(mopaq::FormatVersion::from_raw(ver as u16).unwrap()).block_size(bs as u16).default_compression(m).listfile_option(mopaq::ListfileOption::None);
        for (n, d) in &expect {
            b = b.add_file_data(d.clone(), n);
        }
        b.build(&twin)
    });
    if let (Some(Ok(())), Ok(tb)) = (built, std::fs::read(&twin)) {
        if let Ok(t) = RefArchive::parse(tb, 0) {
            ctx.count("stored_as_asked");
            for n in expect.keys() {
                let of = |a: &RefArchive| a.find(n).first().and_then(|x| a.block.get(x.1.block as usize)).map(|b| (b.flags, b.size, b.csize));
                ctx.check(of(&pa) == of(&t), "create-method", || format!("{n:?}: flags, size and stored size are {:x?}, with the method and sector size asked for they are {:x?} ({brief})", of(&pa), of(&t)));
            }
        }
    }
    let _ = std::fs::remove_file(&twin);
    let left: Vec<String> = snapshot(&work).keys().filter(|k| Path::new(k) != Path::new(dest).strip_prefix("./").unwrap_or(Path::new(dest))).cloned().collect();
    ctx.check(left.is_empty(), "left-behind", || format!("besides the archive there are {left:?} ({brief})"));
    let a = Arch {
        path: dest,
        cwd: work.clone(),
        model,
        named,
        ver,
        ss: 512usize << bs,
        class: format!("v{} {comp} bs{} lf{} flat{flat} cfg{} n{}", ver + 1, bs.min(8), if !named { 0 } else { 1 + lfdata.is_some() as u8 }, !pre.is_empty(), nf.min(2)),
        brief,
        comp: (comp == "zlib").then_some(refm::ZLIB),
        odd: false,
    };
    if named {
        let keep = r.chance(2, 3);
        all(ctx, r, cli, &a, keep);
        if r.bool() {
            all(ctx, r, cli, &a, !keep);
        }
    } else if !a.model.is_empty() {
        // names are not known: nothing can be extracted by them, and the tool says so
        let out = mkdir(&ctx.dir.join("anon"));
        if let Some(_o) = cli.fails(ctx, &work, &["file", "extract", dest, "-t", &out.to_string_lossy()], &a.brief) {
            ctx.check(snapshot(&out).values().all(|v| v.0 != 0), "extract-content", || format!("extracted from an archive without names: {:?}", snapshot(&out)));
        }
    }
    if !a.model.is_empty() {
        inspect(ctx, r, cli, &a);
    }
}

/// Names that try to leave the target, or cannot be files.
fn hostile(ctx: &mut Ctx, r: &mut Rng, cli: &Cli) {
    let dir = ctx.dir.clone();
    let base = mkdir(&dir.join("t"));
    let mut p = base.clone();
    for d in ["a", "b", "c"] {
        p = mkdir(&p.join(d));
        for f in ["x", "x.txt", "f.txt"] {
            std::fs::write(p.join(f), b"precious").unwrap();
            own(&p.join(f));
        }
    }
    mkdir(&dir.join("victim"));
    std::fs::write(dir.join("victim/x"), b"precious").unwrap();
    own(&dir.join("victim/x"));
    let out = mkdir(&p.join("out"));
    let abs = dir.join("victim").to_string_lossy().to_string();
    let long = "y".repeat(300);
    let mut spec = gen::spec(r);
    spec.files.clear();
    spec.lf = Lf::Generate;
    let mut seen = BTreeSet::new();
    let n = r.range(2, 8);
    for _ in 0..n {
        let nm = match r.below(22) {
            0 => format!("{abs}/x"),
            1 => format!("{abs}/new{}", r.below(99)),
            2 => format!("{}\\x", abs.replace('/', "\\")),
            3 => "../x".into(),
            4 => "..\\x".into(),
            5 => "..\\..\\x".into(),
            6 => "../../../x.txt".into(),
            7 => "sub/../../x".into(),
            8 => "sub\\..\\..\\f.txt".into(),
            9 => "sub\\../..\\x".into(),
            10 => "./../x".into(),
            11 => ".\\..\\..\\new.txt".into(),
            12 => "..".into(),
            13 => r.pick(&[".", "/", "\\", "..\\", "sub\\"]).to_string(),
            14 => "C:\\x".into(),
            15 => "\\\\server\\share\\x".into(),
            16 => "...".into(),
            17 => "sub\\.\\ok.txt".into(),
            18 => "sub//double.txt".into(),
            19 => "a\\..\\..\\b\\..\\..\\x".into(),
            20 => if r.bool() { long.clone() } else { "nul\0x".into() },
            _ => tree_name(r),
        };
        if !seen.insert(refm::canon(&nm)) {
            continue;
        }
        let n = 1 + r.usize(2000);
        spec.files.push(GFile { name: nm, data: r.bytes(n), comp: Some(*r.pick(&[0, 2])), enc: r.chance(1, 4), fix: false, locale: 0, via_path: false });
    }
    ctx.add("hostile_names", spec.files.len() as u64);
    let path = dir.join("h.mpq");
    if !spec.build(ctx, &path) {
        return;
    }
    own(&path);
    let model = spec.model();
    let brief = spec.brief();
    let before = snapshot(&dir);
    let aps = path.to_string_lossy().to_string();
    let outs = out.to_string_lossy().to_string();
    let keep = r.bool();
    let one = r.chance(1, 3);
    let pick = r.pick(&spec.files).clone();
    let mut args = vec!["file", "extract", aps.as_str()];
    let slash = format!("{outs}/");
    if one {
        if pick.name.contains('\0') || pick.name.starts_with('-') {
            return;
        }
        args.push(pick.name.as_str());
        match r.below(3) {
            0 => args.extend(["-t", outs.as_str()]),
            1 => args.extend(["-t", slash.as_str()]),
            _ => {}
        }
    } else if r.bool() {
        args.extend(["-t", outs.as_str()]);
    }
    if keep {
        args.push("-p");
    }
    if r.chance(1, 4) {
        args.push("-q");
    }
    let Some(o) = cli.run(ctx, &out, &args) else { return };
    let inside = |k: &String| k == "t/a/b/c/out" || k.starts_with("t/a/b/c/out/");
    let after = snapshot(&dir);
    let changed: Vec<&String> = before.iter().filter(|(k, v)| !inside(k) && after.get(*k) != Some(v)).map(|x| x.0).chain(after.keys().filter(|k| !inside(k) && !before.contains_key(*k))).collect();
    ctx.check(changed.is_empty(), "escaped", || format!("storm-cli {args:?} changed {changed:?} outside its target ({brief})"));
    ctx.count("contained");
    let got: BTreeMap<String, u64> = snapshot(&out).into_iter().filter(|x| x.1 .0 == 0).map(|(k, v)| (k, v.1)).collect();
    let cls: Vec<String> = spec.files.iter().map(|f| format!("{}{}", f.name.contains("..") as u8, f.name.starts_with('/') as u8)).collect::<BTreeSet<_>>().into_iter().collect();
    ctx.distinct(&format!("hostile keep{keep} one{one} {cls:?} exit{}", o.code));
    // what can be extracted is, and what cannot is reported
    let considered: Vec<(String, Vec<u8>)> = if one { vec![(pick.name.clone(), pick.data.clone())] } else { model };
    let mut want: BTreeMap<String, Vec<u64>> = BTreeMap::new();
    let mut lost = false;
    let mut unsure = false;
    let mut maybe: Vec<String> = vec![];
    for (n, d) in &considered {
        match place(n) {
            Some(p) => {
                let p = if keep { p } else { p.rsplit('/').next().unwrap().to_string() };
                want.entry(p).or_default().push(fnv(d));
            }
            None if n.contains("..") => unsure = true,
            // might be taken for a file of that name or for none
            None if n.ends_with(['/', '\\']) => {
                unsure = true;
                let p: Vec<&str> = n.split(['/', '\\']).filter(|p| !p.is_empty() && *p != ".").collect();
                maybe.push(p.join("/"));
            }
            // a name the listfile cannot carry is not extracted
            None => lost = true,
        }
    }
    let clash = |k: &str| want.keys().chain(&maybe).any(|o| o.starts_with(&format!("{k}/")) || k.starts_with(&format!("{o}/")));
    for (k, w) in &want {
        if clash(k) {
            unsure = true;
            continue;
        }
        ctx.check(got.get(k).is_some_and(|g| w.contains(g)), "extract-missing", || format!("storm-cli {args:?} (exit {}) did not extract {k:?} properly; there is {:?} ({brief})", o.code, got.keys().collect::<Vec<_>>()));
    }
    if !unsure {
        ctx.check((o.code != 0) == lost, "exit-code", || format!("storm-cli {args:?} exited {}, {} ({brief})", o.code, if lost { "though a name cannot be written" } else { "though everything can be written" }));
        if lost {
            ctx.count("failures_reported");
        }
    }
}

/// The report of a failed verification says so.
fn refused(ctx: &mut Ctx, fmt: &str, out: &str, args: &[&str]) {
    if out.trim().is_empty() {
        // nothing could be examined
        return;
    }
    let ok = match fmt {
        "json" => serde_json::from_str::<Value>(out).is_ok_and(|v| v["passed"] == false && v["errors"].as_array().is_some_and(|e| !e.is_empty())),
        "csv" => out.lines().any(|l| l == "passed,false"),
        // a report may be cut short by what is wrong
        _ => !out.contains("PASSED"),
    };
    ctx.check(ok, "verify-report", || format!("storm-cli {args:?} failed, but reports {out}"));
}

/// Damage: reported by verification, isolated by extraction, never a crash.
fn damage(ctx: &mut Ctx, r: &mut Rng, cli: &Cli) {
    let mut spec: Spec = gen::spec(r);
    spec.files.retain(|f| !f.name.contains([';', '\0']) && !f.name.starts_with(['#', '-']) && place(&f.name).is_some() && !f.name.split(['/', '\\']).any(|c| c.len() > 200) && f.name.trim() == f.name);
    spec.files.truncate(6);
    if spec.files.is_empty() {
        return;
    }
    // a place of its own for each
    let ps: Vec<String> = spec.files.iter().map(|f| place(&f.name).unwrap().to_lowercase()).collect();
    if (0..ps.len()).any(|i| (0..ps.len()).any(|j| i != j && (ps[i] == ps[j] || ps[j].starts_with(&format!("{}/", ps[i]))))) {
        return;
    }
    if matches!(spec.lf, Lf::External(_)) {
        spec.lf = Lf::Generate;
    }
    let kind = r.below(5);
    if kind == 0 {
        spec.crc = true;
        spec.lf = Lf::Generate;
    }
    if kind == 1 {
        spec.ver = 3;
    }
    let work = mkdir(&ctx.dir.join("work"));
    let path = work.join("d.mpq");
    if kind == 2 {
        spec.crc = false;
        spec.files.retain(|f| !f.name.starts_with('('));
        spec.files.push(GFile { name: "(signature)".into(), data: vec![0; 72], comp: Some(0), enc: false, fix: false, locale: 0, via_path: false });
        if matches!(spec.lf, Lf::None) {
            spec.lf = Lf::Generate;
        }
    }
    if !spec.build(ctx, &path) {
        return;
    }
    own(&path);
    let good = std::fs::read(&path).unwrap();
    let Ok(pa) = RefArchive::parse(good.clone(), 0) else { return ctx.viol("unparsable", spec.brief()) };
    let brief = spec.brief();
    let model = spec.model();
    let mut bad = good.clone();
    let find = |n: &str| pa.find(n).first().and_then(|x| pa.block.get(x.1.block as usize).cloned());
    match kind {
        0 => {
            // one file's data, with sector checksums
            let cand: Vec<&GFile> = spec.files.iter().filter(|f| !f.data.is_empty()).collect();
            if cand.is_empty() {
                return;
            }
            let f = *r.pick(&cand);
            let Some(e) = find(&f.name) else { return };
            if e.flags & refm::F_CRC == 0 || e.csize == 0 {
                return;
            }
            // the data proper: offset tables carry no checksum
            let l = super::c08::lay(&pa, &e);
            if l.end <= l.data_at {
                return;
            }
            let at = l.data_at + r.usize(l.end - l.data_at);
            bad[at] ^= 1 << r.below(8);
            std::fs::write(&path, &bad).unwrap();
            let out = mkdir(&ctx.dir.join("out"));
            let outs = out.to_string_lossy().to_string();
            let Some(x) = cli.run(ctx, &work, &["file", "extract", "d.mpq", "-p", "-t", &outs]) else { return };
            let got: BTreeMap<String, u64> = snapshot(&out).into_iter().filter(|x| x.1 .0 == 0).map(|(k, v)| (k, v.1)).collect();
            ctx.count("damaged_runs");
            let mut failed = false;
            for (n, d) in &model {
                let g = got.get(&place(n).unwrap());
                if *n == f.name {
                    ctx.check(g.is_none_or(|g| *g == fnv(d)), "damage-extracted", || format!("byte {at:#x} of {n:?} altered: extracted with other content, exit {} ({brief})", x.code));
                    failed = g.is_none();
                } else {
                    ctx.check(g == Some(&fnv(d)), "damage-spread", || format!("byte {at:#x} of {:?} altered: {n:?} was not extracted properly ({brief})", f.name));
                }
            }
            ctx.check((x.code != 0) == failed, "exit-code", || format!("one damaged file, {}, but exit {} ({brief})", if failed { "not extracted" } else { "extracted" }, x.code));
            if let Some(v) = cli.run(ctx, &work, &["archive", "verify", "d.mpq", "--check-contents", "-o", "json"]) {
                ctx.check((v.code != 0) == failed, "verify-damaged", || format!("byte {at:#x} of {:?} altered: extraction failed {failed}, verify --check-contents exited {} ({brief})", f.name, v.code));
                if failed {
                    ctx.count("verify_refused");
                    let j: Value = serde_json::from_str(&v.out).unwrap_or_default();
                    ctx.check(j["passed"] == false && j["file_checks"]["files_corrupted"] == 1 && j["errors"].as_array().is_some_and(|e| e.iter().any(|e| e["file"] == f.name.as_str())), "verify-report", || format!("{:?} is damaged: {j}", f.name));
                }
                ctx.distinct(&format!("damage crc v{} {} failed{failed}", spec.ver + 1, spec.class(f)));
            }
        }
        1 => {
            // the digests of version 4
            let mut spots: Vec<(usize, usize)> = vec![(8, 0xD0 - 8)];
            let hp = refm::u32at(&good, 16) as usize;
            let bp = refm::u32at(&good, 20) as usize;
            let het = refm::u64at(&good, 0x3C) as usize;
            let bet = refm::u64at(&good, 0x34) as usize;
            let (hs, bsz) = (refm::u64at(&good, 0x44) as usize, refm::u64at(&good, 0x4C) as usize);
            let (hets, bets) = (refm::u64at(&good, 0x5C) as usize, refm::u64at(&good, 0x64) as usize);
            spots.extend([(hp, hs), (bp, bsz), (het, hets), (bet, bets)]);
            spots.retain(|s| s.1 > 0 && s.0 + s.1 <= good.len());
            let s = *r.pick(&spots);
            let at = s.0 + r.usize(s.1);
            if at == 12 || at == 13 {
                // another version, without digests
                return;
            }
            bad[at] ^= 1 << r.below(8);
            std::fs::write(&path, &bad).unwrap();
            ctx.count("damaged_runs");
            let fmt = *r.pick(&["text", "json", "csv"]);
            let mut args = vec!["archive", "verify", "d.mpq", "-o", fmt];
            let quiet = r.chance(1, 4);
            if quiet {
                args.push("-q");
            }
            if let Some(o) = cli.fails(ctx, &work, &args, &format!("byte {at:#x} of the tables altered, {brief}")) {
                ctx.count("verify_refused");
                if !quiet && !o.out.is_empty() {
                    refused(ctx, fmt, &o.out, &args);
                }
            }
            ctx.distinct(&format!("damage md5 {}", spots.iter().position(|x| *x == s).unwrap()));
        }
        2 => {
            let Some(e) = find("(signature)") else { return };
            let sp = e.pos as usize;
            if sp + 72 > bad.len() {
                return;
            }
            special::weak_sign(&mut bad, sp);
            std::fs::write(&path, &bad).unwrap();
            let Some(o) = cli.ok(ctx, &work, &["archive", "info", "d.mpq", "-o", "json"], "a signed archive") else { return };
            let v: Value = serde_json::from_str(&o.out).unwrap_or_default();
            ctx.check(v["signature_status"] == "WeakValid" && v["has_signature"] == true, "signature", || format!("signed archive: {} ({brief})", v["signature_status"]));
            cli.ok(ctx, &work, &["archive", "verify", "d.mpq"], "a signed archive");
            // not the tables: an archive whose signature is no longer found is an unsigned one
            let tables = [pa.hpos as usize, pa.bpos as usize, if spec.ver >= 2 { pa.hetpos.min(pa.betpos) as usize } else { usize::MAX }].into_iter().min().unwrap();
            if tables <= pa.header_size as usize {
                return;
            }
            let at = pa.header_size as usize + r.usize(tables - pa.header_size as usize);
            if at >= sp && at < sp + 8 {
                return;
            }
            bad[at] ^= 1 << r.below(8);
            std::fs::write(&path, &bad).unwrap();
            ctx.count("damaged_runs");
            let fmt = *r.pick(&["text", "json", "csv"]);
            let args = ["archive", "verify", "d.mpq", "-o", fmt];
            if let Some(o) = cli.fails(ctx, &work, &args, &format!("signed archive altered at {at:#x}, {brief}")) {
                ctx.count("verify_refused");
                refused(ctx, fmt, &o.out, &args);
            }
            ctx.distinct(&format!("damage signature v{} {}", spec.ver + 1, at < sp));
        }
        _ => {
            // anything at all
            for _ in 0..r.range(1, 6) {
                if bad.is_empty() {
                    break;
                }
                match r.below(6) {
                    0 => {
                        let l = r.usize(bad.len());
                        bad.truncate(l);
                    }
                    1 => {
                        let at = r.usize(bad.len().min(0xD0));
                        bad[at] = *r.pick(&[0, 1, 0x7F, 0x80, 0xFF]);
                    }
                    2 => {
                        let k = bad.len() - 1 - r.usize(bad.len().min(600));
                        bad[k] ^= 1 << r.below(8);
                    }
                    3 => {
                        let k = r.usize(bad.len());
                        let e = (k + 4).min(bad.len());
                        bad[k..e].fill(*r.pick(&[0, 0xFF]));
                    }
                    _ => {
                        let k = r.usize(bad.len());
                        bad[k] = r.u8();
                    }
                }
            }
            std::fs::write(&path, &bad).unwrap();
            let out = mkdir(&ctx.dir.join("out"));
            let outs = out.to_string_lossy().to_string();
            let f = spec.files[0].name.clone();
            let cmds: [&[&str]; 12] = [
                &["archive", "info", "d.mpq"],
                &["archive", "info", "d.mpq", "-o", "json"],
                &["archive", "verify", "d.mpq", "--check-contents", "-v"],
                &["archive", "verify", "d.mpq", "-o", "json"],
                &["archive", "list", "d.mpq", "-vv"],
                &["file", "list", "d.mpq", "-a", "--show-hashes", "-v"],
                &["archive", "analyze", "d.mpq", "-d", "-e", "-s"],
                &["file", "extract", "d.mpq", "-p", "-t", &outs],
                &["file", "extract", "d.mpq", &f, "-t", &outs],
                &["file", "find", "d.mpq", "*"],
                &["file", "info", "d.mpq", &f],
                &["table", "analyze", "d.mpq"],
            ];
            for _ in 0..if ctx.thorough { 8 } else { 5 } {
                let c = *r.pick(&cmds);
                if let Some(o) = cli.run(ctx, &work, c) {
                    ctx.count("damaged_runs");
                    ctx.distinct(&format!("mutated {} {} exit{} v{}", c[0], c[1], o.code, spec.ver + 1));
                    if o.code == 0 && c.contains(&"json") {
                        ctx.check(serde_json::from_str::<Value>(&o.out).is_ok(), "json", || format!("storm-cli {c:?} printed no JSON: {}", o.out));
                    }
                }
            }
            // the archive itself is only read
            ctx.check(std::fs::read(&path).ok().as_ref() == Some(&bad), "archive-changed", || format!("the archive was written to ({brief})"));
        }
    }
}

/// Hash values, configuration, and requests that cannot be met.
fn small(ctx: &mut Ctx, r: &mut Rng, cli: &Cli) {
    let work = mkdir(&ctx.dir.join("work"));
    for _ in 0..2 {
        let mut n = gen::name(r);
        if r.chance(1, 4) {
            n = format!("a\"{n}\\\"b");
        }
        if n.starts_with('-') || n.is_empty() {
            continue;
        }
        ctx.count("hashes");
        let ty = ["table-offset", "name-a", "name-b", "file-key", "key2-mix"];
        let k = r.usize(5);
        let h = |t: u32| format!("{:#010x}", refm::hash_string(&n, t));
        match r.below(3) {
            0 => {
                let Some(o) = cli.ok(ctx, &work, &["hash", "generate", &n], "") else { continue };
                for (t, l) in ["Table offset:", "Name A:", "Name B:", "File key:", "Key2 mix:"].iter().enumerate() {
                    let g = o.out.lines().find_map(|x| x.trim().strip_prefix(l)).map(|s| s.trim().to_string());
                    ctx.check(g == Some(h(t as u32)), "hash", || format!("{n:?}: {l} {g:?}, expected {}", h(t as u32)));
                }
            }
            1 => {
                let Some(o) = cli.ok(ctx, &work, &["hash", "generate", &n, "-t", ty[k]], "") else { continue };
                ctx.check(o.out.trim() == h(k as u32), "hash", || format!("{n:?} {}: {}, expected {}", ty[k], o.out, h(k as u32)));
            }
            _ => {
                let Some(o) = cli.ok(ctx, &work, &["hash", "generate", &n, "-t", ty[k], "-o", "json"], "") else { continue };
                let v: Value = serde_json::from_str(&o.out).unwrap_or_default();
                ctx.check(v["filename"] == n.as_str() && v["value"] == h(k as u32).as_str(), "hash", || format!("{n:?} {} as JSON: {}, expected {}", ty[k], o.out, h(k as u32)));
            }
        }
        ctx.distinct(&format!("hash {k} {}", n.is_ascii()));
        let other = gen::name(r);
        if !other.starts_with('-') && !other.is_empty() {
            if let Some(o) = cli.ok(ctx, &work, &["hash", "compare", &n, &other, "-v"], "") {
                for (t, l) in ["Table offset:", "Name A:", "Name B:", "File key:", "Key2 mix:"].iter().enumerate() {
                    let (a, b) = (refm::hash_string(&n, t as u32), refm::hash_string(&other, t as u32));
                    let line = o.out.lines().filter_map(|x| x.strip_prefix(l)).last().unwrap_or("");
                    ctx.check(line.trim() == format!("{a:#010x} vs {b:#010x} [{}]", if a == b { "MATCH" } else { "DIFFER" }), "hash", || format!("{n:?} and {other:?}: {l} {line:?}, expected {a:#010x} and {b:#010x}"));
                }
            }
        }
        let s = gen::respell(r, &n);
        if !s.starts_with('-') {
            if let Some(o) = cli.ok(ctx, &work, &["hash", "compare", &n, &s, "-v"], "") {
                let m = o.out.lines().filter(|l| l.contains("[MATCH]") || l.contains("MATCH")).count();
                ctx.check(m == 5, "hash", || format!("{n:?} and {s:?} are spellings of one name: {}", o.out));
            }
        }
    }
    match r.below(7) {
        0 => {
            // configuration: set, reported, in force; invalid values refused
            let (k, v, bad) = *r.pick(&[("default_output", "json", "xml"), ("default_version", "4", "5"), ("default_block_size", "9", "24"), ("default_compression", "lzma", "zip")]);
            if cli.ok(ctx, &work, &["config", "set", k, v], "").is_none() {
                return;
            }
            // a file at the other place the tool reads: what is set must be in force whichever files there are
            if r.chance(1, 3) {
                for d in [".storm-cli", ".config/storm-cli"] {
                    let d = mkdir(&cli.home.join(d));
                    if r.bool() && !d.join("config.toml").exists() {
                        std::fs::write(d.join("config.toml"), "default_version = 2\n").unwrap();
                        // (the tool runs as another user)
                        use std::os::unix::fs::PermissionsExt;
                        std::fs::set_permissions(d.join("config.toml"), std::fs::Permissions::from_mode(0o666)).unwrap();
                    }
                }
                ctx.count("several_config_files");
                if cli.ok(ctx, &work, &["config", "set", k, v], "").is_none() {
                    return;
                }
            }
            // settings do not disturb each other
            let (k2, v2, l2) = *r.pick(&[("default_output", "text", "output"), ("default_version", "3", "version"), ("default_block_size", "5", "block size"), ("default_compression", "bzip2", "compression")]);
            if k2 != k {
                if cli.ok(ctx, &work, &["config", "set", k2, v2], "").is_none() {
                    return;
                }
                if let Some(o) = cli.ok(ctx, &work, &["config", "show"], "") {
                    ctx.check(o.out.lines().any(|x| x.trim() == format!("Default {l2}: {v2}")), "config", || format!("{k2} set to {v2}: {}", o.out));
                }
            }
            // a configuration that cannot be read is reported, not ignored
            let broken = work.join("broken.toml");
            std::fs::write(&broken, *r.pick(&["default_version = \n", "default_version = \"four\"\n", "[", "default_output = 3\n"])).unwrap();
            cli.fails(ctx, &work, &["-C", &broken.to_string_lossy(), "config", "show"], "");
            cli.fails(ctx, &work, &["-C", &broken.to_string_lossy(), "hash", "generate", "a"], "");
            let before = snapshot(&cli.home);
            cli.fails(ctx, &work, &["config", "set", k, bad], "");
            cli.fails(ctx, &work, &["config", "set", "no_such_key", v], "");
            ctx.check(before == snapshot(&cli.home), "config", || format!("refused settings changed the configuration ({k})"));
            if let Some(o) = cli.ok(ctx, &work, &["config", "show"], "") {
                let l = match k {
                    "default_output" => "output",
                    "default_version" => "version",
                    "default_block_size" => "block size",
                    _ => "compression",
                };
                ctx.check(o.out.lines().any(|x| x.trim() == format!("Default {l}: {v}")), "config", || format!("{k} set to {v}: {}", o.out));
            }
            if k == "default_output" {
                if let Some(o) = cli.ok(ctx, &work, &["hash", "generate", "a\\b", "-t", "name-a"], "") {
                    ctx.check(serde_json::from_str::<Value>(&o.out).is_ok_and(|v| v.is_object()), "config", || format!("default_output is json: {}", o.out));
                }
            }
            if r.bool() && cli.ok(ctx, &work, &["config", "reset"], "").is_some() {
                if let Some(o) = cli.ok(ctx, &work, &["config", "show"], "") {
                    ctx.check(["compression: zlib", "version: 1", "block size: 3", "output: text"].iter().all(|x| o.out.contains(&format!("Default {x}"))), "config", || format!("after a reset: {}", o.out));
                }
            }
            ctx.distinct(&format!("config {k}"));
        }
        1 => {
            // a destination or source that is not there
            std::fs::create_dir_all(work.join("s")).unwrap();
            std::fs::write(work.join("s/f"), b"x").unwrap();
            cli.fails(ctx, &work, &["archive", "create", "no/such/dir/a.mpq", "s"], "no directory");
            cli.fails(ctx, &work, &["archive", "create", "b.mpq", "nowhere"], "no source");
            cli.fails(ctx, &work, &["archive", "create", "c.mpq", "s", "--listfile", "nolist"], "no listfile");
            let left: Vec<String> = snapshot(&work).into_keys().filter(|k| !k.starts_with('s')).collect();
            ctx.check(left.is_empty(), "left-behind", || format!("failed creations left {left:?}"));
            ctx.distinct("create fails");
        }
        2 => {
            // an unreadable source: the old archive stays
            if unsafe { libc::geteuid() } != 0 {
                return;
            }
            let s = mkdir(&work.join("s"));
            for i in 0..r.range(1, 4) {
                std::fs::write(s.join(format!("f{i}")), vec![i as u8; 3000]).unwrap();
            }
            let mut follow = false;
            match r.below(3) {
                0 => {
                    std::fs::write(s.join("secret"), b"x").unwrap();
                    std::fs::set_permissions(s.join("secret"), std::fs::Permissions::from_mode(0o600)).unwrap();
                }
                1 => {
                    // a directory whose content nobody sees
                    std::fs::create_dir_all(s.join("secret.d/inner")).unwrap();
                    std::fs::write(s.join("secret.d/f"), b"x").unwrap();
                    std::fs::set_permissions(s.join("secret.d"), std::fs::Permissions::from_mode(0o700)).unwrap();
                }
                _ => {
                    symlink("no/such/thing", s.join("dangling")).unwrap();
                    follow = true;
                }
            }
            std::fs::write(work.join("old.mpq"), b"the old one").unwrap();
            own(&work.join("old.mpq"));
            if follow {
                cli.fails(ctx, &work, &["archive", "create", "old.mpq", "s", "--follow-symlinks"], "a link to nothing in the source");
            } else {
                cli.fails(ctx, &work, &["archive", "create", "old.mpq", "s"], "unreadable source");
            }
            ctx.check(std::fs::read(work.join("old.mpq")).ok().as_deref() == Some(b"the old one"), "create-failed-destroyed", || "a failed creation destroyed the archive it was to replace".into());
            ctx.check(snapshot(&work).keys().filter(|k| !k.starts_with('s')).count() == 1, "left-behind", || format!("{:?}", snapshot(&work).keys().collect::<Vec<_>>()));
            ctx.distinct("create unreadable");
        }
        3 => {
            // extraction where some files cannot be written: the others are
            if unsafe { libc::geteuid() } != 0 {
                return;
            }
            let s = mkdir(&work.join("s"));
            let d = r.bytes(3000);
            for n in ["a.bin", "b.bin", "c/d.bin", "z.bin"] {
                std::fs::create_dir_all(s.join(n).parent().unwrap()).unwrap();
                std::fs::write(s.join(n), &d).unwrap();
            }
            if cli.ok(ctx, &work, &["archive", "create", "a.mpq", "s"], "").is_none() {
                return;
            }
            let out = mkdir(&ctx.dir.join("out"));
            let lost = match r.below(4) {
                3 if Path::new("/dev/full").exists() => {
                    symlink("/dev/full", out.join("a.bin")).unwrap();
                    "a.bin "
                }
                0 => {
                    std::fs::create_dir_all(out.join("b.bin")).unwrap();
                    "b.bin"
                }
                1 => {
                    std::fs::write(out.join("c"), b"in the way").unwrap();
                    own(&out.join("c"));
                    "c/d.bin"
                }
                _ => {
                    std::fs::write(out.join("a.bin"), b"root's").unwrap();
                    "a.bin"
                }
            };
            let before = if lost == "a.bin" { Some(fnv(b"root's")) } else { None };
            let full = lost == "a.bin ";
            let lost = lost.trim();
            let before = if full { None } else { before };
            let outs = out.to_string_lossy().to_string();
            let mut args = vec!["file", "extract", "a.mpq", "-p", "-t", outs.as_str()];
            if r.chance(1, 3) {
                args.push("-q");
            }
            cli.fails(ctx, &work, &args, "a file cannot be written");
            if r.chance(1, 3) {
                cli.fails(ctx, &work, &["file", "extract", "a.mpq", lost, "-p", "-t", &(outs.clone() + "/")], "the file cannot be written");
            }
            let g = snapshot(&out);
            for n in ["a.bin", "b.bin", "c/d.bin", "z.bin"] {
                let x = g.get(n).filter(|x| x.0 == 0).map(|x| x.1);
                if n == lost {
                    ctx.check(x == before, "extract-missing", || format!("{n} should be as before"));
                } else {
                    ctx.check(x == Some(fnv(&d)), "extract-missing", || format!("{lost} cannot be written; {n} was not extracted either"));
                }
            }
            ctx.distinct(&format!("extract blocked {lost} {full}"));
        }
        4 => {
            // a source that is one file
            let d = r.bytes(5000);
            std::fs::write(work.join("Solo File.bin"), &d).unwrap();
            mkdir(&work.join("sub.dir"));
            std::fs::write(work.join("sub.dir/ A bC "), &d).unwrap();
            std::fs::create_dir_all(work.join("tree/ x ")).unwrap();
            std::fs::write(work.join("tree/ x / y "), &d).unwrap();
            std::fs::write(work.join("tree/ z"), b"z").unwrap();
            if cli.ok(ctx, &work, &["archive", "create", "one.mpq", "Solo File.bin"], "").is_none() {
                return;
            }
            if cli.ok(ctx, &work, &["file", "extract", "one.mpq", "solo file.BIN", "-t", "back"], "").is_some() {
                ctx.check(std::fs::read(work.join("back")).ok().as_ref() == Some(&d), "extract-one", || "an archive of one file".into());
            }
            if let Some(o) = cli.ok(ctx, &work, &["file", "list", "one.mpq", "-o", "json"], "") {
                let mut l: Vec<String> = serde_json::from_str(&o.out).unwrap_or_default();
                l.retain(|n| n != "(listfile)");
                ctx.check(l == ["Solo File.bin"], "list-names", || format!("an archive of \"Solo File.bin\" lists {l:?}"));
            }
            // blanks belong to the name
            let v = (1 + r.below(4)).to_string();
            if cli.ok(ctx, &work, &["archive", "create", "two.mpq", "sub.dir/ A bC ", "--no-listfile", "-V", &v], "").is_some() && cli.ok(ctx, &work, &["file", "extract", "two.mpq", " A bC ", "-t", "back2"], "a name with blanks").is_some() {
                ctx.check(std::fs::read(work.join("back2")).ok().as_ref() == Some(&d), "extract-one", || "a name with blanks".into());
            }
            if cli.ok(ctx, &work, &["archive", "create", "three.mpq", "tree", "--no-listfile", "-V", &v], "").is_some() && cli.ok(ctx, &work, &["file", "extract", "three.mpq", " x / y ", "-p"], "a name with blanks").is_some() {
                ctx.check(std::fs::read(work.join(" x / y ")).ok().as_ref() == Some(&d), "extract-one", || "a name with blanks".into());
                cli.ok(ctx, &work, &["file", "info", "three.mpq", " z"], "a name with blanks");
            }
            ctx.distinct("create one");
        }
        5 => {
            // no archive at all
            let n = r.usize(3000);
            std::fs::write(work.join("junk"), r.bytes(n)).unwrap();
            for c in [&["archive", "info", "junk"][..], &["archive", "verify", "junk"], &["file", "list", "junk"], &["file", "extract", "junk"], &["archive", "info", "absent"], &["archive", "verify", "absent"], &["file", "extract", "."]] {
                cli.fails(ctx, &work, c, "no archive");
            }
            ctx.distinct("no archive");
        }
        _ => {
            // what is not implemented says so
            std::fs::write(work.join("f"), b"x").unwrap();
            if cli.ok(ctx, &work, &["archive", "create", "a.mpq", "f"], "").is_none() {
                return;
            }
            let b = std::fs::read(work.join("a.mpq")).unwrap();
            let add = cli.run(ctx, &work, &["file", "add", "a.mpq", "f"]);
            let rem = cli.run(ctx, &work, &["file", "remove", "a.mpq", "f"]);
            let same = std::fs::read(work.join("a.mpq")).ok().as_ref() == Some(&b);
            if let (Some(x), Some(y)) = (add, rem) {
                ctx.check(!(same && (x.code == 0 || y.code == 0)), "failure-not-reported", || format!("add and remove changed nothing and exited {} and {}", x.code, y.code));
            }
            cli.ok(ctx, &work, &["crypto", "test"], "");
            cli.ok(ctx, &work, &["completion", "bash"], "");
            ctx.distinct("unimplemented");
        }
    }
}

/// A size as the tool prints it.
fn human(n: u64) -> String {
    let mut s = n as f64;
    let mut k = 0;
    while s >= 1024.0 && k < 4 {
        s /= 1024.0;
        k += 1;
    }
    if k == 0 {
        format!("{n}")
    } else {
        format!("{s:.2} {}", ["B", "KB", "MB", "GB", "TB"][k])
    }
}
fn squeeze(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

/// Any archive, of this or another writer, intact or not: the tool says what the library says.
fn agree(ctx: &mut Ctx, r: &mut Rng, cli: &Cli) {
    use mopaq::{Archive, SignatureStatus};
    let work = mkdir(&ctx.dir.join("work"));
    let nm = *r.pick(&["a.mpq", "with, comma.mpq", "q\"uote.mpq"]);
    let path = work.join(nm);
    let mut brief;
    let mut known: Vec<String>;
    let kind = r.below(4);
    let foreign = kind < 2;
    if foreign {
        let f = crate::foreign::foreign(ctx, r, false, path.clone());
        brief = f.desc.clone();
        known = f.live().iter().map(|x| x.0.name.clone()).collect();
        if f.far {
            ctx.count("far");
        }
    } else {
        let mut spec = gen::spec(r);
        spec.files.retain(|f| !f.name.contains('\0'));
        if r.chance(1, 4) {
            // what no listfile can carry, but a command line can
            spec.files.push(GFile { name: r.pick(&["line\nbreak,\"x\"", "only\nbreak", "carriage\rreturn", "a,\r\nb"]).to_string(), data: b"broken line".to_vec(), comp: Some(0), enc: false, fix: false, locale: 0, via_path: false });
        }
        if let (Lf::External(t), true) = (&mut spec.lf, r.bool()) {
            // a name twice, in one spelling or two
            for f in spec.files.iter().take(3) {
                let n = if r.bool() { gen::respell(r, &f.name) } else { f.name.clone() };
                t.extend(n.bytes().chain(*b"\r\n"));
            }
        }
        if r.chance(1, 5) {
            let flags = *r.pick(&[1u32, 3, 7]);
            spec.files.push(GFile { name: "(attributes)".into(), data: special::encode(flags, &[]), comp: Some(0), enc: false, fix: false, locale: 0, via_path: false });
        }
        if !spec.build(ctx, &path) {
            return;
        }
        brief = spec.brief();
        known = spec.files.iter().map(|f| f.name.clone()).collect();
    }
    let len = std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0);
    let dam = r.below(7);
    if len < 64 << 20 && dam > 1 {
        let mut b = std::fs::read(&path).unwrap();
        match dam {
            2 => {
                // a strong signature nobody made
                b.extend(b"NGIS");
                b.extend(r.bytes(256));
            }
            3 => {
                // the extended tables, one of them or both
                let at: Vec<usize> = [b"HET\x1A", b"BET\x1A"].iter().filter_map(|m| b.windows(4).position(|w| w == *m)).collect();
                if !at.is_empty() {
                    for _ in 0..r.range(1, 2) {
                        let k = *r.pick(&at);
                        let k = (k + r.usize(40)).min(b.len() - 1);
                        b[k] ^= 1 << r.below(8);
                    }
                }
            }
            4 => {
                let k = r.usize(b.len());
                b[k] ^= 1 << r.below(8);
            }
            _ => {
                // some table, the high words of positions first of all
                if let Some(h) = (0..b.len().saturating_sub(208)).step_by(512).find(|h| b[*h..].starts_with(b"MPQ\x1A")) {
                    let v = refm::u16at(&b, h + 12);
                    let hi = if v >= 1 { refm::u64at(&b, h + 32) as usize } else { 0 };
                    let blocks = refm::u32at(&b, h + 28) as usize;
                    let (at, n) = if hi > 0 && r.chance(2, 3) {
                        ctx.count("hi_block_damaged");
                        (h + hi, 2 * blocks)
                    } else if r.bool() {
                        (h + refm::u32at(&b, h + 16) as usize, refm::u32at(&b, h + 24) as usize * 16)
                    } else {
                        (h + refm::u32at(&b, h + 20) as usize, blocks * 16)
                    };
                    if n > 0 && at.checked_add(n).is_some_and(|e| e <= b.len()) {
                        let k = at + r.usize(n);
                        b[k] ^= 1 << r.below(8);
                    }
                }
            }
        }
        std::fs::write(&path, &b).unwrap();
        brief = format!("damage {dam} {brief}");
    }
    own(&path);
    known.retain(|n| !n.starts_with('-') && !n.is_empty() && !n.contains('\0'));
    let cls = format!("agree {} {dam}", if foreign { "foreign" } else { "own" });
    let lib = std::panic::catch_unwind(|| Archive::open(&path));
    let Ok(lib) = lib else { return };
    let mut lib = match lib {
        Ok(l) => l,
        Err(_) => {
            for c in [["archive", "info"], ["file", "list"], ["archive", "verify"], ["file", "extract"]] {
                cli.fails(ctx, &work, &[c[0], c[1], nm], "the library does not open it");
            }
            ctx.distinct(&format!("{cls} unopened"));
            return;
        }
    };
    let info = lib.get_info();
    let n = if ctx.thorough { 5 } else { 3 };
    for _ in 0..n {
        let fmt = *r.pick(&["text", "json", "csv"]);
        ctx.count("agreements");
        match r.below(6) {
            0 => {
                let args = ["archive", "info", nm, "-o", fmt];
                let Some(o) = cli.run(ctx, &work, &args) else { return };
                ctx.check((o.code == 0) == info.is_ok(), "info", || format!("storm-cli {args:?} exited {}, the library says {:?} ({brief})", o.code, info.as_ref().err()));
                let (Ok(i), 0) = (&info, o.code) else { continue };
                ctx.distinct(&format!("{cls} info {fmt} v{}", i.format_version as u16 + 1));
                let t = |t: &mopaq::TableInfo| json!({"size": t.size, "offset": t.offset, "compressed_size": t.compressed_size, "failed_to_load": t.failed_to_load});
                let m = i.md5_status.as_ref();
                match fmt {
                    "json" => {
                        let w = json!({
                            "path": nm, "file_size": i.file_size, "archive_offset": i.archive_offset, "format_version": i.format_version as u16 + 1,
                            "file_count": i.file_count, "max_file_count": i.max_file_count, "sector_size": i.sector_size, "is_encrypted": i.is_encrypted,
                            "has_signature": i.has_signature, "signature_status": format!("{:?}", i.signature_status),
                            "tables": {"hash_table": t(&i.hash_table_info), "block_table": t(&i.block_table_info), "het_table": i.het_table_info.as_ref().map(t), "bet_table": i.bet_table_info.as_ref().map(t), "hi_block_table": i.hi_block_table_info.as_ref().map(t)},
                            "special_files": {"has_attributes": i.has_attributes, "has_listfile": i.has_listfile},
                            "user_data": i.user_data_info.as_ref().map(|u| json!({"header_size": u.header_size, "data_size": u.data_size})),
                            "md5_status": m.map(|m| json!({"header_valid": m.header_valid, "hash_table_valid": m.hash_table_valid, "block_table_valid": m.block_table_valid, "hi_block_table_valid": m.hi_block_table_valid, "het_table_valid": m.het_table_valid, "bet_table_valid": m.bet_table_valid})),
                        });
                        let g: Value = serde_json::from_str(&o.out).unwrap_or_default();
                        for (k, x) in w.as_object().unwrap() {
                            ctx.check(g.get(k).unwrap_or(&Value::Null) == x, "info", || format!("storm-cli {args:?}: {k} is {:?}, the library says {x} ({brief})", g.get(k)));
                        }
                    }
                    "csv" => {
                        let g: BTreeMap<String, String> = csv_all(&o.out).into_iter().filter(|f| f.len() == 2).map(|f| (f[0].clone(), f[1].clone())).collect();
                        let w: [(&str, String); 12] = [
                            ("path", nm.into()),
                            ("file_size", i.file_size.to_string()),
                            ("archive_offset", i.archive_offset.to_string()),
                            ("format_version", (i.format_version as u16 + 1).to_string()),
                            ("file_count", i.file_count.to_string()),
                            ("max_file_count", i.max_file_count.to_string()),
                            ("sector_size", i.sector_size.to_string()),
                            ("is_encrypted", i.is_encrypted.to_string()),
                            ("has_signature", i.has_signature.to_string()),
                            ("signature_status", format!("{:?}", i.signature_status)),
                            ("has_attributes", i.has_attributes.to_string()),
                            ("has_listfile", i.has_listfile.to_string()),
                        ];
                        for (k, x) in w {
                            ctx.check(g.get(k) == Some(&x), "info", || format!("storm-cli {args:?}: {k} is {:?}, the library says {x} ({brief})", g.get(k)));
                        }
                    }
                    _ => {
                        let yes = |b: bool, y: &str, n: &str| if b { y.to_string() } else { n.to_string() };
                        let mut w: Vec<(&str, String)> = vec![
                            ("Archive path", nm.into()),
                            ("Archive size", format!("{} bytes", human(i.file_size))),
                            ("Archive offset", format!("0x{:X}", i.archive_offset)),
                            ("Format version", format!("v{}", i.format_version as u16 + 1)),
                            ("Number of files", i.file_count.to_string()),
                            ("Maximum file capacity", i.max_file_count.to_string()),
                            ("Sector size", format!("{} bytes", i.sector_size)),
                            ("Encrypted", yes(i.is_encrypted, "Yes", "No")),
                            ("(attributes) file", yes(i.has_attributes, "Present", "Not present")),
                            ("(listfile) file", yes(i.has_listfile, "Present", "Not present")),
                        ];
                        if let Some(u) = &i.user_data_info {
                            w.push(("Header size", format!("{} bytes", u.header_size)));
                            w.push(("Data size", format!("{} bytes", u.data_size)));
                        }
                        if let Some(m) = m {
                            w.extend([("MPQ header", m.header_valid), ("Hash table", m.hash_table_valid), ("Block table", m.block_table_valid), ("Hi-block table", m.hi_block_table_valid), ("HET table", m.het_table_valid), ("BET table", m.bet_table_valid)].map(|(k, v)| (k, yes(v, "Valid", "Invalid"))));
                        }
                        for (k, x) in w {
                            let line = format!("{k}: {x}");
                            ctx.check(o.out.lines().any(|l| l == line), "info", || format!("storm-cli {args:?} does not say {line:?} ({brief}):\n{}", o.out));
                        }
                        let sig = match i.signature_status {
                            SignatureStatus::None => "No signature",
                            SignatureStatus::WeakValid => "Weak signature (Valid)",
                            SignatureStatus::WeakInvalid => "Weak signature (Invalid)",
                            SignatureStatus::StrongValid => "Strong signature (Valid)",
                            SignatureStatus::StrongInvalid => "Strong signature (Invalid)",
                            SignatureStatus::StrongNoKey => "Strong signature (No public key)",
                        };
                        ctx.check(o.out.lines().any(|l| l == format!("Digital signature: {sig}")), "info", || format!("storm-cli {args:?}: the signature is {sig} ({brief}):\n{}", o.out));
                    }
                }
            }
            1 | 2 => {
                let (all, hashes, verbose) = (r.bool(), r.bool(), r.bool());
                let l = match (all, hashes) {
                    (false, false) => lib.list(),
                    (false, true) => lib.list_with_hashes(),
                    (true, false) => lib.list_all(),
                    (true, true) => lib.list_all_with_hashes(),
                };
                let mut args = vec!["file", "list", nm, "-o", fmt];
                if all {
                    args.push("-a");
                }
                if hashes {
                    args.push("--show-hashes");
                }
                if verbose {
                    args.push("-v");
                }
                let Some(o) = cli.run(ctx, &work, &args) else { return };
                ctx.check((o.code == 0) == l.is_ok(), "list", || format!("storm-cli {args:?} exited {}, the library says {:?} ({brief})", o.code, l.as_ref().err()));
                let (Ok(mut l), 0) = (l, o.code) else { continue };
                ctx.distinct(&format!("{cls} list {all} {hashes} {verbose} {fmt}"));
                l.sort_by(|a, b| a.name.cmp(&b.name));
                if l.iter().any(|e| e.name.contains(['\n', '\r'])) {
                    continue;
                }
                let any = l.iter().any(|e| e.hashes.is_some());
                let mut want: Vec<String> = vec![];
                match fmt {
                    "json" => {
                        let w: Vec<Value> = l
                            .iter()
                            .map(|e| match (hashes, e.hashes) {
                                (false, _) => json!(e.name),
                                (true, None) => json!({"name": e.name}),
                                (true, Some((a, b))) => json!({"name": e.name, "hash1": format!("{a:08X}"), "hash2": format!("{b:08X}")}),
                            })
                            .collect();
                        let mut g: Vec<Value> = serde_json::from_str(&o.out).unwrap_or_default();
                        let mut w = w;
                        g.sort_by_key(|v| v.to_string());
                        w.sort_by_key(|v| v.to_string());
                        ctx.check(g == w, "list", || format!("storm-cli {args:?}: {g:?}, the library says {w:?} ({brief})"));
                        continue;
                    }
                    "csv" => {
                        let mut g: Vec<Vec<String>> = csv_all(&o.out).into_iter().skip(1).collect();
                        let mut w: Vec<Vec<String>> = l
                            .iter()
                            .map(|e| match (any, e.hashes) {
                                (false, _) => vec![e.name.clone()],
                                (true, None) => vec![e.name.clone(), "NA".into(), "NA".into()],
                                (true, Some((a, b))) => vec![e.name.clone(), format!("{a:08X}"), format!("{b:08X}")],
                            })
                            .collect();
                        g.sort();
                        w.sort();
                        ctx.check(g == w, "list", || format!("storm-cli {args:?}: {g:?}, the library says {w:?} ({brief})"));
                        continue;
                    }
                    _ if verbose => {
                        let pc = |c: u64, s: u64| if s > 0 { ((c as f64 / s as f64) * 100.0) as u32 } else { 100 };
                        for e in &l {
                            let d = if e.name.chars().count() > 39 { format!("{}...", e.name.chars().take(36).collect::<String>()) } else { e.name.clone() };
                            let mut fl = vec![];
                            for (b, n) in [(0x200u32, "Compressed"), (0x10000, "Encrypted"), (0x0100_0000, "Single Unit"), (0x0400_0000, "Has CRC"), (0x20000, "Fix Key"), (0x0010_0000, "Patch"), (0x0200_0000, "Deleted")] {
                                if e.flags & b != 0 {
                                    fl.push(n);
                                }
                            }
                            let fl = if fl.is_empty() { "-".into() } else { fl.join(", ") };
                            let h = if any { e.hashes.map(|h| format!("{:X} {:X}", h.0, h.1)).unwrap_or("0 0".into()) } else { String::new() };
                            want.push(squeeze(&format!("{d} {} {} {}% {h} {fl}", human(e.size), human(e.compressed_size), pc(e.compressed_size, e.size))));
                        }
                        let (s, c) = (l.iter().map(|e| e.size).sum::<u64>(), l.iter().map(|e| e.compressed_size).sum::<u64>());
                        want.push(squeeze(&format!("Total: {} files {} {} {}%", l.len(), human(s), human(c), pc(c, s))));
                    }
                    _ => {
                        want.extend(l.iter().map(|e| match e.hashes.filter(|_| hashes) {
                            Some((a, b)) => squeeze(&format!("{} [{a:08X} {b:08X}]", e.name)),
                            None => squeeze(&e.name),
                        }));
                        want.push(format!("Total: {} files", l.len()));
                    }
                }
                let mut g: BTreeMap<String, i64> = BTreeMap::new();
                for x in o.out.lines() {
                    *g.entry(squeeze(x)).or_default() += 1;
                }
                let mut miss = vec![];
                for w in want {
                    let c = g.entry(w.clone()).or_default();
                    *c -= 1;
                    if *c < 0 {
                        miss.push(w);
                    }
                }
                ctx.check(miss.is_empty(), "list", || format!("storm-cli {args:?} does not say {:?}:\n{} ({brief})", miss.iter().take(3).collect::<Vec<_>>(), o.out.chars().take(2000).collect::<String>()));
            }
            3 => {
                let contents = r.bool();
                let quiet = r.chance(1, 4);
                let mut args = vec!["archive", "verify", nm, "-o", fmt];
                if contents {
                    args.push("--check-contents");
                }
                if quiet {
                    args.push("-q");
                }
                // what the tool has to report
                let mut ok = info.as_ref().is_ok_and(|i| {
                    let t = [Some(&i.hash_table_info), Some(&i.block_table_info), i.het_table_info.as_ref(), i.bet_table_info.as_ref()].iter().flatten().all(|t| !t.failed_to_load);
                    let m = i.md5_status.as_ref().is_none_or(|m| m.header_valid && m.hash_table_valid && m.block_table_valid && m.hi_block_table_valid && m.het_table_valid && m.bet_table_valid);
                    t && m && !matches!(i.signature_status, SignatureStatus::WeakInvalid | SignatureStatus::StrongInvalid)
                });
                let named = lib.find_file("(listfile)").ok().flatten().is_some();
                match lib.list() {
                    Ok(l) if named && contents => {
                        for e in &l {
                            ok &= lib.read_file(&e.name).is_ok();
                        }
                    }
                    Ok(_) => {}
                    Err(_) => ok = false,
                }
                let Some(o) = cli.run(ctx, &work, &args) else { return };
                ctx.count(if ok { "verified" } else { "verify_refused" });
                ctx.check((o.code == 0) == ok, "verify-damaged", || format!("storm-cli {args:?} exited {}, by the library the archive is {} ({brief}): {}", o.code, if ok { "sound" } else { "not sound" }, o.err));
                ctx.distinct(&format!("{cls} verify {contents} {fmt} {ok}"));
                if quiet || o.out.is_empty() || info.is_err() {
                    continue;
                }
                match fmt {
                    "json" => {
                        let v: Value = serde_json::from_str(&o.out).unwrap_or_default();
                        ctx.check(v["passed"] == ok && v["archive"] == nm && v["errors"].as_array().is_some_and(|e| e.is_empty() == ok), "verify-report", || format!("storm-cli {args:?}, by the library {ok}: {v} ({brief})"));
                    }
                    "csv" => {
                        let v = csv_all(&o.out);
                        ctx.check(v.contains(&vec!["passed".into(), ok.to_string()]) && v.contains(&vec!["archive".into(), nm.into()]), "verify-report", || format!("storm-cli {args:?}, by the library {ok}: {v:?} ({brief})"));
                    }
                    _ => {
                        ctx.check(o.out.contains("PASSED") == ok && !(ok && o.out.contains("FAILED")), "verify-report", || format!("storm-cli {args:?}, by the library {ok}: {} ({brief})", o.out));
                    }
                }
            }
            4 => {
                if known.is_empty() {
                    continue;
                }
                let f = r.pick(&known).clone();
                let d = lib.read_file(&f);
                let args = ["file", "info", nm, f.as_str(), "-o", fmt];
                let Some(o) = cli.run(ctx, &work, &args) else { return };
                ctx.check((o.code == 0) == d.is_ok(), "file-info", || format!("storm-cli {args:?} exited {}, the library says {:?} ({brief})", o.code, d.as_ref().err()));
                let (Ok(d), 0) = (d, o.code) else { continue };
                ctx.distinct(&format!("{cls} file info {fmt}"));
                let ok = match fmt {
                    "json" => serde_json::from_str::<Value>(&o.out).is_ok_and(|v| v["filename"] == f.as_str() && v["size"] == d.len() as u64),
                    "csv" => csv_all(&o.out).get(1) == Some(&vec![f.clone(), d.len().to_string()]),
                    _ => o.out.contains(&format!("Filename: {f}\n")) && o.out.lines().any(|l| squeeze(l) == format!("Size: {} bytes", d.len())),
                };
                ctx.check(ok, "file-info", || format!("storm-cli {args:?}: {:?}, the file has {} bytes ({brief})", o.out, d.len()));
            }
            _ => {
                // all of it
                let out = mkdir(&ctx.dir.join(format!("ag{}", r.below(1 << 30))));
                let outs = out.to_string_lossy().to_string();
                let quiet = r.chance(1, 3);
                let mut args = vec!["file", "extract", nm, "-p", "-t", outs.as_str()];
                if quiet {
                    args.push("-q");
                }
                let l = lib.list();
                let Some(o) = cli.run(ctx, &work, &args) else { return };
                let Ok(l) = l else {
                    ctx.check(o.code != 0, "failure-not-reported", || format!("storm-cli {args:?} exited 0, the library cannot list ({brief})"));
                    continue;
                };
                let mut want: BTreeMap<String, Vec<Option<u64>>> = BTreeMap::new();
                let mut lost = false;
                let mut unsure = false;
                for e in &l {
                    let d = lib.read_file(&e.name).ok().map(|d| fnv(&d));
                    lost |= d.is_none();
                    match place(&e.name) {
                        Some(p) => want.entry(p).or_default().push(d),
                        None => unsure = true,
                    }
                }
                let got: BTreeMap<String, u64> = snapshot(&out).into_iter().filter(|x| x.1 .0 == 0).map(|(k, v)| (k, v.1)).collect();
                for (k, w) in &want {
                    if want.keys().any(|x| x.starts_with(&format!("{k}/")) || k.starts_with(&format!("{x}/"))) {
                        unsure = true;
                        continue;
                    }
                    ctx.check(w.contains(&got.get(k).copied()) && (got.contains_key(k) || w.iter().all(|x| x.is_none())), "extract-missing", || format!("storm-cli {args:?} (exit {}) did not extract {k:?} as the library reads it ({brief})", o.code));
                }
                ctx.distinct(&format!("{cls} extract {lost} {quiet}"));
                if !unsure {
                    ctx.check((o.code != 0) == lost, "exit-code", || format!("storm-cli {args:?} exited {}, {} ({brief}): {}", o.code, if lost { "though the library cannot read a file" } else { "though the library reads everything" }, o.err));
                }
            }
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let cli = Cli::new(ctx);
    match ctx.idx % 10 {
        0..=2 => roundtrip(ctx, &mut r, &cli),
        3 | 4 => hostile(ctx, &mut r, &cli),
        5 | 6 => damage(ctx, &mut r, &cli),
        7 | 8 => agree(ctx, &mut r, &cli),
        _ => small(ctx, &mut r, &cli),
    }
    if ctx.idx % 64 == 0 {
        ctx.sample = Some(json!({"runs": ctx.counters.get("runs")}));
    }
}
