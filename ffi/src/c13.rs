//! C13: the C interface, one caller. Random call sequences over archives, files, stale, wrong and null
//! handles, with every response compared to the model and every buffer guarded.
use crate::api::{exec, exec_nested, Op};
use crate::core::{Ctx, Prop};
use crate::gen;
use crate::model::{self, Disk, State};
use crate::rng::Rng;
use serde_json::json;

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        quick: 20000,
        thorough: 400000,
        run,
        need: &[
            ("op:Read", 20000),
            ("op:Seek", 12000),
            ("op:Enum", 5000),
            ("op:Extract", 5000),
            ("op:VerifyFile", 5000),
            ("op:VerifyArchive", 3000),
            ("op:Create", 3000),
            ("op:Info", 8000),
            ("refused", 30000),
            ("nested_calls", 1000),
            ("closed_with_files", 1000),
        ],
        rule: "distinct (call, outcome, state class) triples whose response the model accepted",
        level: "exploration",
        assumptions: &[
            "pointers handed over are valid for the sizes stated, as the interface demands",
            "where several arguments are wrong at once any of the matching errors is accepted",
            "files below 4 GiB",
        ],
        workers: 8,
    }
}

fn tag(op: &Op) -> String {
    let s = format!("{op:?}");
    s.split([' ', '(', '{']).next().unwrap().to_string()
}

/// The call with its strings readable.
pub fn show(op: &Op) -> String {
    let s = format!("{op:?}");
    let mut out = String::new();
    let mut rest = &s[..];
    while let Some(i) = rest.find("Some([") {
        let Some(j) = rest[i..].find("])") else { break };
        let bytes: Vec<u8> = rest[i + 6..i + j].split(", ").filter_map(|x| x.parse().ok()).collect();
        out += &rest[..i];
        out += &format!("{:?}", String::from_utf8_lossy(&bytes));
        rest = &rest[i + j + 2..];
    }
    out + rest
}

struct W {
    paths: Vec<Vec<u8>>,
    dirs: Vec<u8>,
    dead: Vec<u64>,
    nd: usize,
}

fn name_for(r: &mut Rng, st: &State, a: Option<u64>) -> Vec<u8> {
    let m = a.and_then(|a| st.archives.get(&a)).or_else(|| st.archives.values().next());
    match (m, r.below(10)) {
        (Some((_, m)), 0..=7) => {
            let e = &m.entries[r.usize(m.entries.len())];
            if r.bool() {
                e.name.clone().into_bytes()
            } else {
                gen::respell(r, &e.name).into_bytes()
            }
        }
        (Some((_, m)), 8) => {
            // nearly a name
            let e = &m.entries[r.usize(m.entries.len())];
            let mut n = e.name.clone();
            match r.below(3) {
                0 => n.push('x'),
                1 => n.insert(0, '\\'),
                _ => {
                    n.pop();
                }
            }
            n.into_bytes()
        }
        _ => b"no such file".to_vec(),
    }
}
fn opt_name(r: &mut Rng, st: &State, a: u64) -> Option<Vec<u8>> {
    match r.below(30) {
        0 => None,
        1 => Some(vec![b'a', 0xFF, b'b']),
        2 => Some(vec![]),
        _ => Some(name_for(r, st, Some(a))),
    }
}
fn mask_for(r: &mut Rng, st: &State, a: u64) -> Option<Vec<u8>> {
    let n: Vec<u8> = st.archives.get(&a).map(|x| x.1.entries[r.usize(x.1.entries.len())].name.clone().into_bytes()).unwrap_or(b"abc.txt".to_vec());
    match r.below(12) {
        0 => None,
        1 => Some(b"*".to_vec()),
        2 => Some(b"*.*".to_vec()),
        3 => Some(n),
        4 => {
            // prefix
            let k = r.usize(n.len() + 1);
            let mut m = n[..k].to_vec();
            m.push(b'*');
            Some(m)
        }
        5 => {
            let k = r.usize(n.len() + 1);
            let mut m = vec![b'*'];
            m.extend_from_slice(&n[k..]);
            Some(m)
        }
        6 => {
            let (a, b) = (r.usize(n.len() + 1), r.usize(n.len() + 1));
            let mut m = vec![b'*'];
            m.extend_from_slice(&n[a.min(b)..a.max(b)]);
            m.push(b'*');
            Some(m)
        }
        7 | 8 => {
            // some characters replaced, some runs starred
            let mut m = vec![];
            let mut i = 0;
            while i < n.len() {
                match r.below(6) {
                    0 => m.push(b'?'),
                    1 => {
                        m.push(b'*');
                        i += r.usize(4);
                    }
                    2 => m.push(if n[i].is_ascii_alphabetic() { n[i] ^ 0x20 } else { n[i] }),
                    _ => m.push(n[i]),
                }
                i += 1;
            }
            Some(m)
        }
        9 => Some(vec![b'?'; n.len()]),
        10 => Some(vec![b'a', 0xFF]),
        _ => Some(vec![]),
    }
}
fn handle(r: &mut Rng, st: &State, w: &W, want_file: bool) -> u64 {
    let ar: Vec<u64> = st.archives.keys().copied().collect();
    let fi: Vec<u64> = st.files.keys().copied().collect();
    let (own, other) = if want_file { (&fi, &ar) } else { (&ar, &fi) };
    match r.below(14) {
        0 if !w.dead.is_empty() => *r.pick(&w.dead),
        1 if !other.is_empty() => *r.pick(other),
        2 => *r.pick(&[0u64, u64::MAX, 1 << 62, 0xFFFF_FFFF]),
        _ if !own.is_empty() => *r.pick(own),
        _ if !w.dead.is_empty() => *r.pick(&w.dead),
        _ => 0,
    }
}

fn next(r: &mut Rng, st: &State, w: &mut W) -> Op {
    let k = r.below(100);
    let few = st.archives.is_empty();
    if few && k < 60 || k < 4 || (st.archives.len() < 3 && k < 9) {
        return Op::OpenArchive {
            path: match r.below(14) {
                0 => None,
                1 => Some(b"/nonexistent/x.mpq".to_vec()),
                2 => Some(vec![b'x', 0xC3, 0x28]),
                _ => Some(r.pick(&w.paths).clone()),
            },
            out: !r.chance(1, 25),
        };
    }
    let a = handle(r, st, w, false);
    let f = handle(r, st, w, true);
    match k {
        0..=10 | 94..=99 => Op::OpenFile { a, name: opt_name(r, st, a), out: !r.chance(1, 30) },
        11..=12 => {
            if st.archives.len() > 1 || r.chance(1, 3) {
                Op::CloseArchive(a)
            } else {
                Op::Has { a, name: opt_name(r, st, a) }
            }
        }
        13..=17 => Op::CloseFile(f),
        18..=35 => {
            let len = st.files.get(&f).map(|x| x.m.entries[x.e].data.len()).unwrap_or(10);
            let n = match r.below(7) {
                0 => 0,
                1 => len as u32,
                2 => len as u32 + r.below(100) as u32,
                3 => 1,
                4 => r.below(600) as u32,
                _ => r.below(len as u64 / 2 + 2) as u32,
            };
            Op::Read { h: f, n, buf: !r.chance(1, 30), cnt: !r.chance(1, 8) }
        }
        36..=39 => Op::Size { h: f, high: r.bool() },
        40..=52 => {
            let (len, pos) = st.files.get(&f).map(|x| (x.m.entries[x.e].data.len() as i64, x.pos as i64)).unwrap_or((10, 3));
            let m = if r.chance(1, 25) { r.range(3, 9) as u32 } else { r.below(3) as u32 };
            let near = |r: &mut Rng, x: i64| x + r.below(5) as i64 - 2;
            let base = [0, pos, len][(m as usize).min(2)];
            let off: i64 = match r.below(9) {
                0 => near(r, -base),
                1 => near(r, len - base),
                2 => near(r, 0),
                3 => r.below(len as u64 + 2) as i64 - base,
                4 => *r.pick(&[i32::MAX as i64, i32::MIN as i64, -1, 1]),
                5 => *r.pick(&[i64::MAX, i64::MIN, 1 << 32, -(1 << 32), (1 << 32) + 5, -(1i64 << 33) + 7, 1 << 31, 0xFFFF_FFFF]),
                _ => r.below(2 * len as u64 + 2) as i64 - len,
            };
            if r.bool() || (i32::try_from(off).is_err()) {
                Op::Seek { h: f, lo: off as i32, hi: Some((off >> 32) as i32), m }
            } else {
                Op::Seek { h: f, lo: off as i32, hi: None, m }
            }
        }
        53..=56 => Op::Has { a, name: opt_name(r, st, a) },
        57..=65 => {
            let (h, classes): (u64, &[u32]) = if r.bool() { (a, &[1, 2, 3, 4, 1, 2, 3, 4, 5, 6, 7, 10, 0, 255]) } else { (f, &[7, 10, 7, 10, 10, 1, 4, 8, 9, 11, 12, 0]) };
            let n = *r.pick(&[0u32, 1, 3, 4, 5, 7, 8, 9, 16, 8, 4]);
            Op::Info { h, class: *r.pick(classes), n, buf: if n == 0 { r.bool() } else { !r.chance(1, 20) }, need: !r.chance(1, 5), skew: r.usize(9) }
        }
        66..=68 => {
            let len = st.archives.get(&a).map(|x| x.0.len()).unwrap_or(20);
            let n = match r.below(5) {
                0 => len as u32,
                1 => len as u32 + 1,
                2 => r.below(len as u64 + 1) as u32,
                3 => 0,
                _ => 600,
            };
            Op::ArchName { a, n, buf: !r.chance(1, 20) }
        }
        69..=71 => {
            let room = st.files.get(&f).map(|x| x.name.len() + 1).unwrap_or(300);
            Op::FileName { h: f, buf: !r.chance(1, 20), room }
        }
        72..=77 => {
            let mask = mask_for(r, st, a);
            Op::Enum { a, mask, stop: if r.chance(1, 3) { Some(r.range(1, 4)) } else { None }, cb: !r.chance(1, 25) }
        }
        78..=83 => {
            w.nd += 1;
            let dest = match r.below(12) {
                0 => [&w.dirs[..], b"/adir"].concat(),
                1 => [&w.dirs[..], b"/fulldev"].concat(),
                2 => format!("rel{}.bin", r.below(4)).into_bytes(),
                3 => [&w.dirs[..], format!("/deep/er{}/x.bin", r.below(3)).as_bytes()].concat(),
                4..=6 => [&w.dirs[..], format!("/again{}", r.below(4)).as_bytes()].concat(),
                _ => [&w.dirs[..], format!("/out{}", w.nd).as_bytes()].concat(),
            };
            let dest: Option<Vec<u8>> = if r.chance(1, 30) { None } else { Some(dest) };
            Op::Extract { a, name: opt_name(r, st, a), dest }
        }
        84..=87 => Op::VerifyFile { a, name: opt_name(r, st, a), flags: *r.pick(&[0u32, 1, 2, 3, 4, 5, 6, 7, 0xFF, 8]) },
        88..=90 => Op::VerifyArchive { a, flags: *r.pick(&[0u32, 0x10, 0x20, 0x30, 0xFF, 0x20]) },
        91..=92 => {
            let path = match r.below(16) {
                0 => None,
                1 => Some(vec![b'x', 0xC3, 0x28]),
                2 => Some([&w.dirs[..], b"/missing/n.mpq"].concat()),
                3..=6 => Some(r.pick(&w.paths).clone()),
                _ => Some([&w.dirs[..], format!("/new{}.mpq", r.below(5)).as_bytes()].concat()),
            };
            Op::Create { path, disp: if r.chance(1, 10) { *r.pick(&[0u32, 3, 6, 99]) } else { *r.pick(&[1u32, 2, 4, 5, 1, 2]) }, hts: *r.pick(&[4u32, 16, 16, 64, 1024, 4096, 0x8000, 0x10000, 0x40000, 0x100000, 0x8000_0000, 8, 0, 2, 15, 3, 1, 0xFFFF_FFFF, 0x10001]), out: !r.chance(1, 25) }
        }
        _ => match r.below(4) {
            0 => Op::SetLocale(*r.pick(&[0u32, 0x409, 0x407, 0xFFFF, 0x1_0000, 0x8000_0409, u32::MAX])),
            1 => Op::GetLocale,
            2 => Op::SetErr(r.u32()),
            _ => Op::GetErr,
        },
    }
}

pub fn run(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let mut st = State::default();
    let dir = ctx.dir.clone();
    let pb = |n: &str| {
        use std::os::unix::ffi::OsStrExt;
        dir.join(n).as_os_str().as_bytes().to_vec()
    };
    let mut w = W { paths: vec![], dirs: pb(""), dead: vec![], nd: 0 };
    w.dirs.pop_if_slash();
    std::fs::create_dir_all(dir.join("adir")).unwrap();
    // a place with no space left
    let _ = std::os::unix::fs::symlink("/dev/full", dir.join("fulldev"));
    let na = r.range(1, 3);
    for i in 0..na {
        let name = ["a.mpq", "b b.MPQ", "ü.mpq"][i];
        let p = dir.join(name);
        let Some(m) = model::make(ctx, &mut r, &p, false) else { return };
        st.disk.insert(pb(name), Disk::Archive(m));
        w.paths.push(pb(name));
    }
    if r.chance(1, 3) {
        let n = r.usize(2000);
        let mut d = r.bytes(n);
        d.iter_mut().for_each(|b| *b &= 0x3F);
        std::fs::write(dir.join("g.mpq"), &d).unwrap();
        st.disk.insert(pb("g.mpq"), Disk::Garbage);
        w.paths.push(pb("g.mpq"));
    }
    // thread-local state outlives a case: start from known values
    exec(&Op::SetLocale(0));
    exec(&Op::SetErr(0));
    st.err.insert(0, 0);
    st.locale.insert(0, 0);
    for i in 0..4 {
        let _ = std::fs::remove_file(format!("rel{i}.bin"));
    }
    let steps = r.range(40, 160);
    let mut log: Vec<String> = vec![];
    for _ in 0..steps {
        let op = next(&mut r, &st, &mut w);
        let t = tag(&op);
        ctx.count(&format!("op:{t}"));
        log.push(show(&op));
        if log.len() > 12 {
            log.remove(0);
        }
        let nfiles = st.files.len();
        let narch = st.archives.len();
        let res = if matches!(op, Op::Enum { .. }) && r.chance(1, 3) {
            nested(ctx, &mut r, &mut st, &mut w, &op)
        } else {
            let Some(resp) = ctx.lib(&format!("SFile{t}"), || exec(&op)) else { return };
            let x = st.apply(0, &op, &resp);
            if x.is_ok() {
                let refused = match op {
                    Op::Seek { .. } | Op::Size { .. } => resp.ret == 0xFFFF_FFFF,
                    Op::SetErr(_) | Op::GetErr | Op::SetLocale(_) | Op::GetLocale => false,
                    _ => resp.ret == 0,
                };
                if refused {
                    ctx.count("refused");
                }
                let cls = match &op {
                    Op::Read { n, cnt, .. } => format!("{} {}", (*n as u64).min(3), cnt),
                    Op::Seek { hi, m, .. } => format!("{} {m}", hi.is_some()),
                    Op::Info { class, n, skew, .. } => format!("{class} {n} {}", skew % 8),
                    Op::VerifyFile { flags, .. } | Op::VerifyArchive { flags, .. } => format!("{flags}"),
                    Op::Create { disp, .. } => format!("{disp}"),
                    _ => String::new(),
                };
                ctx.distinct(&format!("{t} {cls} {} a{} f{} {}", resp.ret.min(2), narch.min(3), nfiles.min(3), resp.err));
                if matches!(op, Op::CloseArchive(_)) && st.files.len() < nfiles {
                    ctx.count("closed_with_files");
                }
            }
            x.map_err(|e| (format!("{resp:?}"), e))
        };
        // what is gone stays gone
        for h in &st.issued {
            if !st.archives.contains_key(h) && !st.files.contains_key(h) && !w.dead.contains(h) {
                w.dead.push(*h);
            }
        }
        ctx.count("checks");
        if let Err((resp, e)) = res {
            let resp: String = resp.chars().take(300).collect();
            ctx.viol(format!("ffi:{t}"), format!("{}: {e}\n    response {resp}\n    before it: {}", show(&op), log.join("; ")));
            return cleanup(&st);
        }
    }
    // every open handle still works, and closing closes
    let hs: Vec<u64> = st.files.keys().copied().collect();
    for h in hs {
        let op = Op::Info { h, class: 10, n: 8, buf: true, need: true, skew: 0 };
        let resp = exec(&op);
        if let Err(e) = st.apply(0, &op, &resp) {
            ctx.viol("ffi:final", format!("{op:?}: {e}"));
        }
    }
    for h in w.dead.clone() {
        let op = Op::Size { h, high: false };
        let resp = exec(&op);
        if let Err(e) = st.apply(0, &op, &resp) {
            ctx.viol("ffi:final", format!("{op:?} on a closed handle: {e}"));
        }
    }
    let was = st.files.clone();
    for a in st.archives.keys().copied().collect::<Vec<_>>() {
        let op = Op::CloseArchive(a);
        let resp = exec(&op);
        if let Err(e) = st.apply(0, &op, &resp) {
            ctx.viol("ffi:final", format!("{op:?}: {e}"));
        }
    }
    for h in was.keys() {
        let op = Op::CloseFile(*h);
        let resp = exec(&op);
        if let Err(e) = st.apply(0, &op, &resp) {
            ctx.viol("ffi:final", format!("{op:?} after its archive was closed: {e}"));
        }
    }
    // another thread sees its own error and locale
    if ctx.idx % 8 == 0 {
        exec(&Op::SetLocale(0x409));
        exec(&Op::SetErr(0x1234));
        let (l, e) = std::thread::spawn(|| {
            let a = (exec(&Op::GetLocale).ret, exec(&Op::GetErr));
            exec(&Op::SetLocale(0x777));
            exec(&Op::SetErr(0x888));
            (a.0, a.1.ret)
        })
        .join()
        .unwrap();
        // (exec presets the error of the new thread before GetLocale)
        let mine = (exec(&Op::GetErr).ret, exec(&Op::GetLocale).ret);
        ctx.check(l == 0 && e == crate::api::MARK as u64 && mine == (0x1234, 0x409), "thread-state", || format!("new thread saw locale {l:#x} error {e:#x}, this one {mine:x?}"));
    }
    if ctx.idx % 64 == 0 {
        ctx.sample = Some(json!(log.last().cloned().unwrap_or_default()));
    }
}

fn cleanup(st: &State) {
    for a in st.issued.iter() {
        exec(&Op::CloseArchive(*a));
    }
}

trait PopSlash {
    fn pop_if_slash(&mut self);
}
impl PopSlash for Vec<u8> {
    fn pop_if_slash(&mut self) {
        if self.last() == Some(&b'/') {
            self.pop();
        }
    }
}

/// Enumeration whose callback uses the interface itself.
fn nested(ctx: &mut Ctx, r: &mut Rng, st: &mut State, w: &mut W, op: &Op) -> Result<(), (String, String)> {
    let Op::Enum { a, .. } = op else { unreachable!() };
    let a = *a;
    let mut bad: Option<(String, String)> = None;
    let before = st.clone();
    let mut inner = st.clone();
    let mut n = 0u64;
    let mut r2 = r.clone();
    r.next();
    let resp = {
        let mut cb = |name: &[u8]| {
            if bad.is_some() || n > 12 {
                return;
            }
            for _ in 0..2 {
                let o = match r2.below(6) {
                    0 | 1 => Op::OpenFile { a, name: Some(name.to_vec()), out: true },
                    2 => Op::Has { a, name: Some(name.to_vec()) },
                    3 => Op::Read { h: handle(&mut r2, &inner, w, true), n: 20, buf: true, cnt: true },
                    4 => Op::CloseFile(handle(&mut r2, &inner, w, true)),
                    _ => Op::VerifyFile { a, name: Some(name.to_vec()), flags: 7 },
                };
                let x = exec(&o);
                n += 1;
                if let Err(e) = inner.apply(0, &o, &x) {
                    bad = Some((format!("{x:?}"), format!("called from the callback: {o:?}: {e}")));
                    return;
                }
            }
        };
        let Some(resp) = ctx.lib("SFileEnum(nested)", || exec_nested(op, Some(&mut cb))) else { return Ok(()) };
        resp
    };
    ctx.add("nested_calls", n);
    if let Some(b) = bad {
        return Err(b);
    }
    let mut b = before;
    b.apply(0, op, &resp).map_err(|e| (format!("{resp:?}"), e))?;
    inner.err.insert(0, resp.err);
    *st = inner;
    Ok(())
}
