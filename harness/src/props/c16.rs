//! C16: reading has no memory and no side effects: any history of read-only calls gives the answers a
//! fresh handle gives, however the archive was opened, and leaves the files as they were.
use crate::core::{Ctx, Prop};
use crate::gen::{self, GFile};
use crate::refm;
use crate::rng::fnv;
use mopaq::{Archive, OpenOptions};
use serde_json::json;
use std::path::Path;

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        quick: 16000,
        thorough: 160000,
        run,
        need: &[("history_steps", 100000), ("lazy_handles", 3000), ("failed_steps", 5000), ("parallel_handles", 1000), ("foreign", 1000), ("path_taken_away", 1000), ("signed", 1000), ("unchanged_archives", 4000)],
        rule: "distinct (archive kind, previous operation, operation, outcome class) transitions whose answer was compared with a fresh handle's",
        level: "exploration",
        assumptions: &["find_file on an archive opened without its tables is not judged before the first call that loads them"],
        workers: 8,
    }
}

/// One read-only call; its complete answer as text (hash for bulk data).
pub fn step(ar: &mut Archive, op: u64, name: &str) -> String {
    fn f<T>(r: mopaq::Result<T>, g: impl FnOnce(T) -> String) -> String {
        match r {
            Ok(v) => format!("ok {}", g(v)),
            Err(e) => format!("err {}", {
                let s = format!("{e:?}");
                s.split(['(', '{', ' ']).next().unwrap_or("").to_string()
            }),
        }
    }
    let ents = |v: Vec<mopaq::FileEntry>| {
        let mut x: Vec<String> = v.iter().map(|e| format!("{}|{}|{}|{:x}|{:?}", e.name, e.size, e.compressed_size, e.flags, e.hashes)).collect();
        x.sort();
        format!("{} {:x}", x.len(), fnv(x.join("\n").as_bytes()))
    };
    match op {
        0 | 1 | 2 => f(ar.read_file(name), |d| format!("{} {:x}", d.len(), fnv(&d))),
        3 => f(ar.list(), ents),
        4 => f(ar.list_all(), ents),
        5 => f(ar.list_with_hashes(), ents),
        6 => f(ar.list_all_with_hashes(), ents),
        7 => f(ar.get_info(), |i| {
            format!("{i:?}")
        }),
        8 => f(ar.verify_signature(), |s| format!("{s:?}")),
        9 => f(ar.load_attributes(), |_| String::new()),
        10 => f(ar.find_file(name), |x| x.map(|i| format!("{} {} {} {:x} {}", i.file_pos, i.file_size, i.compressed_size, i.flags, i.block_index)).unwrap_or("none".into())),
        _ => f(ar.load_tables(), |_| String::new()),
    }
}
pub const OPS: u64 = 12;

fn snapshot(p: &Path) -> (Vec<u8>, Vec<String>) {
    let mut v: Vec<String> = std::fs::read_dir(p.parent().unwrap()).unwrap().filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect();
    v.sort();
    (std::fs::read(p).unwrap_or_default(), v)
}

pub fn run(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let dir = ctx.path("d");
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("a.mpq");
    let mut spec = gen::spec(&mut r);
    spec.files.truncate(10);
    if r.chance(1, 4) {
        let n = 8 + r.usize(200);
        let mut d = r.bytes(n);
        if r.bool() {
            d[..4].copy_from_slice(&100u32.to_le_bytes());
            d[4..8].copy_from_slice(&0u32.to_le_bytes());
        }
        spec.files.push(GFile { name: "(attributes)".into(), data: d, comp: Some(0), enc: false, fix: false, locale: 0, via_path: false });
    }
    let sign = r.below(8);
    if sign < 2 {
        spec.files.push(GFile { name: "(signature)".into(), data: r.bytes(72), comp: Some(0), enc: false, fix: false, locale: 0, via_path: false });
    }
    let src = ctx.path("b.mpq");
    if !spec.build(ctx, &src) {
        return;
    }
    let mut bytes = std::fs::read(&src).unwrap();
    let mut kind = "built";
    let mut names: Vec<String> = spec.model().into_iter().map(|m| m.0).collect();
    let mut desc = spec.brief();
    if sign == 0 {
        if let Ok(a) = refm::RefArchive::parse(bytes.clone(), 0) {
            if let Some(e) = a.find("(signature)").first().and_then(|x| a.block.get(x.1.block as usize)) {
                crate::special::weak_sign(&mut bytes, e.pos as usize);
                ctx.count("signed");
            }
        }
    } else if sign == 2 {
        bytes.extend_from_slice(b"NGIS");
        bytes.extend_from_slice(&r.bytes(256));
        ctx.count("signed");
    }
    match r.below(5) {
        4 => {
            let f = crate::foreign::foreign(ctx, &mut r, true, path.clone());
            if std::fs::metadata(&path).is_ok_and(|m| m.len() < 8 << 20) {
                bytes = std::fs::read(&path).unwrap();
                names = f.files.iter().map(|f| f.name.clone()).collect();
                desc = f.desc;
                kind = "foreign";
                ctx.count("foreign");
            }
            std::fs::remove_file(&path).unwrap();
        }
        0 => {
            // damage somewhere in the files, so that calls fail half-way
            if let Ok(a) = refm::RefArchive::parse(bytes.clone(), 0) {
                let ext: Vec<(u64, u64)> = a.block.iter().map(|b| a.extent(b)).filter(|e| e.1 > e.0 && e.1 <= bytes.len() as u64).collect();
                for _ in 0..6 {
                    if !ext.is_empty() {
                        let (s, e) = *r.pick(&ext);
                        let at = (s + r.below(e - s)) as usize;
                        bytes[at] = r.u8();
                    }
                }
                kind = "damaged";
            }
        }
        1 => {
            let k = r.range(1, 5);
            let mut p = r.bytes(512 * k);
            p.chunks_mut(512).for_each(|c| c[0] = 0);
            p.extend_from_slice(&bytes);
            bytes = p;
            kind = "embedded";
        }
        _ => {}
    }
    std::fs::write(&path, &bytes).unwrap();
    names.push("absent.txt".into());
    names.push("(attributes)".into());
    let open = |lazy: bool| if lazy { OpenOptions::new().load_tables(false).open(&path) } else { Archive::open(&path) };
    let before = snapshot(&path);
    let brief = format!("{kind} {desc}");
    // what happens to the path once the archive is open: nothing, or it is removed, or holds something else
    let fate = if r.chance(1, 3) { 1 + r.below(4) } else { 0 };
    let keep = ctx.path("keep.mpq");
    if fate > 0 {
        std::fs::copy(&path, &keep).unwrap();
    }
    let fate_at = r.below(20);
    // several handles used in turn: none influences another
    let mut handles: Vec<(Archive, bool, u64, bool)> = vec![];
    let nh = r.range(1, 3);
    for _ in 0..nh {
        let lazy = r.bool();
        match ctx.lib("Archive::open", || open(lazy)) {
            Some(Ok(a)) => handles.push((a, lazy, 99, false)),
            Some(Err(e)) => return ctx.viol("open-error", format!("lazy {lazy}: {e} ({brief})")),
            None => return,
        }
        if lazy {
            ctx.count("lazy_handles");
        }
    }
    if nh > 1 {
        ctx.count("parallel_handles");
    }
    let mut memo: std::collections::HashMap<(u64, String), String> = Default::default();
    let steps = if ctx.thorough { 60 } else { 30 };
    let mut history: Vec<String> = vec![];
    for i in 0..steps {
        if fate > 0 && i == fate_at {
            ctx.count("path_taken_away");
            history.push(["", "path removed", "path renamed", "other file at the path", "other archive built at the path"][fate as usize].into());
            match fate {
                1 => std::fs::remove_file(&path).unwrap(),
                2 => std::fs::rename(&path, dir.join("elsewhere.mpq")).unwrap(),
                3 => {
                    let n = r.usize(900);
                    std::fs::write(dir.join("new"), r.bytes(n)).unwrap();
                    std::fs::rename(dir.join("new"), &path).unwrap();
                }
                _ => match ctx.lib("ArchiveBuilder::build", || mopaq::ArchiveBuilder::new().add_file_data(vec![1, 2, 3], "absent.txt").build(&path)) {
                    Some(Ok(())) => {}
                    Some(Err(e)) => return ctx.viol("build-error", format!("over an open archive: {e} ({brief})")),
                    None => return,
                },
            }
        }
        let op = if r.chance(1, 3) { 0 } else { r.below(OPS) };
        let name = r.pick(&names).clone();
        let name = if r.chance(1, 5) { gen::respell(&mut r, &name) } else { name };
        let k = r.usize(handles.len());
        if op == 10 && handles[k].1 && !handles[k].3 {
            continue;
        }
        let mkey = (if op < 3 { 0 } else { op }, if op < 3 || op == 10 { name.clone() } else { String::new() });
        let want = match memo.get(&mkey) {
            Some(w) => w.clone(),
            None => {
                let fresh = if fate > 0 { &keep } else { &path };
                let Some(w) = ctx.lib("fresh handle", || {
                    let mut a = Archive::open(fresh).unwrap();
                    step(&mut a, op, &name)
                }) else {
                    return;
                };
                let w = w.replace(&*keep.to_string_lossy(), &path.to_string_lossy());
                memo.insert(mkey, w.clone());
                w
            }
        };
        let Some(got) = ctx.lib("history step", || step(&mut handles[k].0, op, &name)) else { return };
        if op != 9 || got.starts_with("ok") {
            handles[k].3 = true;
        }
        history.push(format!("h{k}.{op}({name:?})"));
        ctx.count("history_steps");
        if got.starts_with("err") {
            ctx.count("failed_steps");
        }
        ctx.distinct(&format!("{kind} lazy{} {}->{} {}", handles[k].1, handles[k].2, op, &got[..2]));
        ctx.check(got == want, "history-dependent", || format!("call {op} on {name:?} answered {got:?}, a fresh handle answers {want:?}; history {} ({brief})", history.join(" ")));
        handles[k].2 = op;
        if !ctx.viols.is_empty() {
            return;
        }
    }
    drop(handles);
    if fate > 0 {
        return;
    }
    let after = snapshot(&path);
    ctx.count("unchanged_archives");
    ctx.check(before == after, "archive-modified", || format!("reading changed the archive or its directory: {:?} -> {:?}, bytes equal {} ({brief})", before.1, after.1, before.0 == after.0));
    if ctx.idx % 64 == 0 {
        ctx.sample = Some(json!({"archive": brief, "history": history.iter().take(12).collect::<Vec<_>>()}));
    }
}
