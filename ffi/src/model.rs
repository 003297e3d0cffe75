//! What the C interface promises: the abstract state (archives on disk, open archives, open files with
//! their cursors, per-thread error and locale) and, for each call, which responses fit it.
use crate::api::{Op, Resp, MARK};
use crate::core::{diff, Ctx};
use crate::foreign;
use crate::gen::{self, GFile, Lf, Spec};
use crate::refm::{self, RefArchive};
use crate::rng::Rng;
use crate::special;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::Arc;

pub const E_NOTFOUND: u32 = 2;
pub const E_ACCESS: u32 = 5;
pub const E_HANDLE: u32 = 6;
pub const E_UNSUPPORTED: u32 = 50;
pub const E_PARAM: u32 = 87;
pub const E_BUFFER: u32 = 122;
pub const E_EXISTS: u32 = 183;
pub const E_CORRUPT: u32 = 1392;

#[derive(Debug)]
pub struct Entry {
    pub name: String,
    pub canon: Vec<u8>,
    pub data: Vec<u8>,
    /// the stored data contradicts its checksums: cannot be read
    pub broken: bool,
    pub has_crc: bool,
    /// the listfile does not name it
    pub hidden: bool,
    pub attr_crc: Option<bool>,
    pub attr_md5: Option<bool>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sig {
    None,
    Valid,
    Invalid,
}
#[derive(Debug)]
pub struct ArchM {
    pub entries: Vec<Entry>,
    pub listed: bool,
    pub size: u64,
    pub hts: u32,
    pub bts: u32,
    pub ss: u32,
    pub sig: Sig,
    pub brief: String,
}
#[derive(Clone, Debug)]
pub enum Disk {
    Archive(Arc<ArchM>),
    Garbage,
    Created,
}
#[derive(Clone, Debug)]
pub struct FileM {
    pub arch: u64,
    pub name: Vec<u8>,
    pub m: Arc<ArchM>,
    pub e: usize,
    pub pos: u64,
}
#[derive(Clone, Debug, Default)]
pub struct State {
    pub disk: BTreeMap<Vec<u8>, Disk>,
    pub archives: BTreeMap<u64, (Vec<u8>, Arc<ArchM>)>,
    pub files: BTreeMap<u64, FileM>,
    pub issued: BTreeSet<u64>,
    pub err: BTreeMap<usize, u32>,
    pub locale: BTreeMap<usize, u32>,
    /// what extraction left at a destination
    pub dest: BTreeMap<Vec<u8>, Vec<u8>>,
}

pub fn created() -> Arc<ArchM> {
    // an archive as SFileCreateArchive makes it: nothing but its listfile
    Arc::new(ArchM {
        entries: vec![Entry { name: "(listfile)".into(), canon: refm::canon("(listfile)"), data: b"(listfile)\r\n".to_vec(), broken: false, has_crc: false, hidden: false, attr_crc: None, attr_md5: None }],
        listed: true,
        size: 0,
        hts: 0,
        bts: 0,
        ss: 0,
        sig: Sig::None,
        brief: "created".into(),
    })
}

/// A mask with * and ?, ASCII case ignored, over the whole name.
pub fn mask(n: &[u8], m: &[u8]) -> bool {
    // table over prefixes
    let mut row = vec![false; n.len() + 1];
    row[0] = true;
    for &c in m {
        let mut next = vec![false; n.len() + 1];
        if c == b'*' {
            let mut any = false;
            for i in 0..=n.len() {
                any |= row[i];
                next[i] = any;
            }
        } else {
            for i in 0..n.len() {
                next[i + 1] = row[i] && (c == b'?' || c.to_ascii_lowercase() == n[i].to_ascii_lowercase());
            }
        }
        row = next;
    }
    row[n.len()]
}

fn utf8(n: &Option<Vec<u8>>) -> bool {
    n.as_ref().is_some_and(|n| std::str::from_utf8(n).is_ok())
}
impl ArchM {
    pub fn find(&self, name: &[u8]) -> Option<usize> {
        let c = refm::canon(std::str::from_utf8(name).ok()?);
        self.entries.iter().position(|e| e.canon == c)
    }
    fn verify(&self, e: &Entry, flags: u32) -> bool {
        let f = if flags == 0 { 0xFF } else { flags };
        if f & 1 != 0 && e.has_crc && e.broken {
            return false;
        }
        if f & 2 != 0 && e.attr_crc.is_some_and(|ok| !ok || e.broken) {
            return false;
        }
        !(f & 4 != 0 && e.attr_md5.is_some_and(|ok| !ok || e.broken))
    }
}

impl State {
    fn fail(&self, r: &Resp, bad: u64, errs: &[u32]) -> Result<(), String> {
        if r.ret != bad {
            return Err(format!("returned {:#x} where it has to fail with one of {errs:?}", r.ret));
        }
        if !errs.contains(&r.err) {
            return Err(format!("failed with error {} where {errs:?} fits", err_name(r.err)));
        }
        Ok(())
    }
    fn good(&self, r: &Resp) -> Result<(), String> {
        if r.ret != 1 {
            return Err(format!("failed with error {} where it has to succeed", err_name(r.err)));
        }
        self.ok_err(r)
    }
    fn ok_err(&self, r: &Resp) -> Result<(), String> {
        if r.err != 0 {
            return Err(format!("succeeded, but left the last error at {}", err_name(r.err)));
        }
        Ok(())
    }
    fn fresh(&mut self, r: &Resp) -> Result<(), String> {
        if r.h == 0 || r.h == crate::api::UNSET {
            return Err(format!("succeeded without a handle ({:#x})", r.h));
        }
        if !self.issued.insert(r.h) {
            return Err(format!("returned handle {:#x}, which was issued before", r.h));
        }
        Ok(())
    }
    fn open_disk(&mut self, path: &[u8], r: &Resp) -> Result<(), String> {
        match self.disk.get(path).cloned() {
            Some(Disk::Archive(m)) => {
                self.good(r)?;
                self.fresh(r)?;
                self.archives.insert(r.h, (path.to_vec(), m));
            }
            Some(Disk::Created) => {
                self.good(r)?;
                self.fresh(r)?;
                self.archives.insert(r.h, (path.to_vec(), created()));
            }
            Some(Disk::Garbage) => self.fail(r, 0, &[E_CORRUPT, E_ACCESS, E_NOTFOUND])?,
            None => self.fail(r, 0, &[E_NOTFOUND])?,
        }
        Ok(())
    }
    /// Does the response fit the state? If so, move on to the state after the call.
    pub fn apply(&mut self, t: usize, op: &Op, r: &Resp) -> Result<(), String> {
        if let Some(m) = &r.mem {
            return Err(m.clone());
        }
        let before = *self.err.get(&t).unwrap_or(&0);
        self.err.insert(t, r.err);
        match op {
            Op::OpenArchive { path, out } => {
                if !*out || !utf8(path) {
                    return self.fail(r, 0, &[E_PARAM]);
                }
                self.open_disk(path.as_ref().unwrap(), r)
            }
            Op::Create { path, disp, hts, out } => {
                let mut errs = vec![];
                if !*out || !utf8(path) || !hts.is_power_of_two() || *hts < 4 || !matches!(disp, 1 | 2 | 4 | 5) {
                    errs.push(E_PARAM);
                }
                let path = path.clone().unwrap_or_default();
                let there = self.disk.contains_key(&path);
                if *disp == 1 && there {
                    errs.push(E_EXISTS);
                }
                if *disp == 5 && !there {
                    errs.push(E_NOTFOUND);
                }
                if !errs.is_empty() {
                    return self.fail(r, 0, &errs);
                }
                if *disp == 4 && there {
                    return self.open_disk(&path, r);
                }
                if path.windows(9).any(|w| w == b"/missing/") {
                    // no such folder: whether it is made is not promised, the outcome must be consistent
                    if r.ret == 1 {
                        self.disk.insert(path.clone(), Disk::Created);
                        return self.open_disk(&path, r);
                    }
                    return self.fail(r, 0, &[E_ACCESS, E_NOTFOUND]);
                }
                self.disk.insert(path.clone(), Disk::Created);
                self.open_disk(&path, r)
            }
            Op::CloseArchive(h) => {
                if self.archives.remove(h).is_some() {
                    self.files.retain(|_, f| f.arch != *h);
                    self.good(r)
                } else {
                    self.fail(r, 0, &[E_HANDLE])
                }
            }
            Op::OpenFile { a, name, out } => {
                let mut errs = vec![];
                if !*out || !utf8(name) {
                    errs.push(E_PARAM);
                }
                if !self.archives.contains_key(a) {
                    errs.push(E_HANDLE);
                }
                if !errs.is_empty() {
                    return self.fail(r, 0, &errs);
                }
                let name = name.clone().unwrap();
                let m = self.archives[a].1.clone();
                let Some(e) = m.find(&name) else { return self.fail(r, 0, &[E_NOTFOUND]) };
                if m.entries[e].broken {
                    return self.fail(r, 0, &[E_CORRUPT]);
                }
                self.good(r)?;
                self.fresh(r)?;
                self.files.insert(r.h, FileM { arch: *a, name, m, e, pos: 0 });
                Ok(())
            }
            Op::CloseFile(h) => {
                if self.files.remove(h).is_some() {
                    self.good(r)
                } else {
                    self.fail(r, 0, &[E_HANDLE])
                }
            }
            Op::Read { h, n, buf, cnt } => {
                let mut errs = vec![];
                if !*buf {
                    errs.push(E_PARAM);
                }
                if !self.files.contains_key(h) {
                    errs.push(E_HANDLE);
                }
                if !errs.is_empty() {
                    return self.fail(r, 0, &errs);
                }
                self.good(r)?;
                let f = self.files.get_mut(h).unwrap();
                let d = &f.m.entries[f.e].data;
                let k = (*n as u64).min(d.len() as u64 - f.pos) as usize;
                let want = &d[f.pos as usize..f.pos as usize + k];
                if *cnt && r.num != k as u64 {
                    return Err(format!("reported {} bytes read at position {} of {}, {n} asked for; {k} fit", r.num, f.pos, d.len()));
                }
                if &r.out[..k] != want {
                    return Err(format!("read {k} bytes at position {} of {:?}: {}", f.pos, f.m.entries[f.e].name, diff(&r.out[..k], want)));
                }
                f.pos += k as u64;
                Ok(())
            }
            Op::Size { h, high } => {
                let Some(f) = self.files.get(h) else { return self.fail(r, 0xFFFF_FFFF, &[E_HANDLE]) };
                let n = f.m.entries[f.e].data.len() as u64;
                if r.ret != n & 0xFFFF_FFFF || (*high && r.num != n >> 32) {
                    return Err(format!("size {:#x} (high {:#x}), the file has {n} bytes", r.ret, r.num));
                }
                self.ok_err(r)
            }
            Op::Seek { h, lo, hi, m } => {
                let Some(f) = self.files.get_mut(h) else { return self.fail(r, 0xFFFF_FFFF, if *m > 2 { &[E_HANDLE, E_PARAM] } else { &[E_HANDLE] }) };
                if *m > 2 {
                    return self.fail(r, 0xFFFF_FFFF, &[E_PARAM]);
                }
                let n = f.m.entries[f.e].data.len() as i128;
                let off = match hi {
                    Some(h) => ((*h as i128) << 32) + *lo as u32 as i128,
                    None => *lo as i128,
                };
                let base = match m {
                    0 => 0,
                    1 => f.pos as i128,
                    _ => n,
                };
                let to = base + off;
                if to < 0 {
                    return self.fail(r, 0xFFFF_FFFF, &[E_PARAM, 131]);
                }
                f.pos = to.min(n) as u64;
                let pos = f.pos;
                if r.ret != pos & 0xFFFF_FFFF || (hi.is_some() && r.num != pos >> 32) {
                    return Err(format!("moved to {:#x} (high {:#x}) instead of {pos} of {n}", r.ret, r.num));
                }
                self.ok_err(r)
            }
            Op::Has { a, name } => {
                let want = utf8(name) && self.archives.get(a).is_some_and(|x| x.1.find(name.as_ref().unwrap()).is_some());
                if (r.ret == 1) != want || r.ret > 1 {
                    return Err(format!("returned {} where {want} is right", r.ret));
                }
                Ok(())
            }
            Op::Info { h, class, n, buf, need, .. } => {
                let mut errs = vec![];
                if !*buf && *n > 0 {
                    errs.push(E_PARAM);
                }
                let val: Option<(usize, Option<u64>)> = if let Some(f) = self.files.get(h) {
                    match class {
                        7 => Some((8, Some(f.m.entries[f.e].data.len() as u64))),
                        10 => Some((8, Some(f.pos))),
                        _ => None,
                    }
                } else if let Some((_, a)) = self.archives.get(h) {
                    let k = |x: u64| if a.ss == 0 { None } else { Some(x) };
                    match class {
                        1 => Some((8, k(a.size))),
                        2 => Some((4, k(a.hts as u64))),
                        3 => Some((4, k(a.bts as u64))),
                        4 => Some((4, k(a.ss as u64))),
                        _ => None,
                    }
                } else {
                    errs.push(E_HANDLE);
                    return self.fail(r, 0, &errs);
                };
                let Some((w, v)) = val else {
                    errs.push(E_UNSUPPORTED);
                    return self.fail(r, 0, &errs);
                };
                if !errs.is_empty() {
                    errs.push(E_BUFFER);
                    return self.fail(r, 0, &errs);
                }
                if *need && r.num != w as u64 {
                    return Err(format!("size needed reported as {:#x} instead of {w}", r.num));
                }
                if (*n as usize) < w {
                    return self.fail(r, 0, &[E_BUFFER]);
                }
                self.good(r)?;
                if let Some(v) = v {
                    if r.out[..w] != v.to_le_bytes()[..w] {
                        return Err(format!("info class {class}: wrote {:?} instead of {v}", &r.out[..w]));
                    }
                }
                Ok(())
            }
            Op::ArchName { a, n, buf } => {
                let mut errs = vec![];
                if !*buf || *n == 0 {
                    errs.push(E_PARAM);
                }
                if !self.archives.contains_key(a) {
                    errs.push(E_HANDLE);
                }
                if !errs.is_empty() {
                    return self.fail(r, 0, &errs);
                }
                let p = &self.archives[a].0;
                if p.len() + 1 > *n as usize {
                    return self.fail(r, 0, &[E_BUFFER]);
                }
                self.good(r)?;
                if r.out[..p.len()] != p[..] || r.out[p.len()] != 0 {
                    return Err(format!("wrote {:?}", String::from_utf8_lossy(&r.out)));
                }
                Ok(())
            }
            Op::FileName { h, buf, .. } => {
                let mut errs = vec![];
                if !*buf {
                    errs.push(E_PARAM);
                }
                if !self.files.contains_key(h) {
                    errs.push(E_HANDLE);
                }
                if !errs.is_empty() {
                    return self.fail(r, 0, &errs);
                }
                self.good(r)?;
                let p = &self.files[h].name;
                if r.out[..p.len()] != p[..] || r.out[p.len()] != 0 {
                    return Err(format!("wrote {:?}", String::from_utf8_lossy(&r.out)));
                }
                Ok(())
            }
            Op::Enum { a, mask: mk, stop, cb } => {
                let mut errs = vec![];
                if !*cb || (mk.is_some() && !utf8(mk)) {
                    errs.push(E_PARAM);
                }
                if !self.archives.contains_key(a) {
                    errs.push(E_HANDLE);
                }
                if !errs.is_empty() {
                    if !r.names.is_empty() {
                        return Err("called back although it failed".into());
                    }
                    return self.fail(r, 0, &errs);
                }
                self.good(r)?;
                let m = &self.archives[a].1;
                if !m.listed {
                    return Ok(());
                }
                let all = b"*".to_vec();
                let mk = mk.as_ref().unwrap_or(&all);
                let mut want: Vec<&[u8]> = m.entries.iter().filter(|e| !e.hidden && mask(e.name.as_bytes(), mk)).map(|e| e.name.as_bytes()).collect();
                let mut got: Vec<&[u8]> = r.names.iter().map(|n| &n[..]).collect();
                want.sort();
                got.sort();
                let k = stop.unwrap_or(usize::MAX).min(want.len());
                let sub = got.iter().all(|g| want.contains(g)) && got.windows(2).all(|w| w[0] != w[1] || want.iter().filter(|x| **x == w[0]).count() > 1);
                if !sub || got.len() != k {
                    let s = |v: &[&[u8]]| v.iter().map(|x| String::from_utf8_lossy(x).to_string()).collect::<Vec<_>>();
                    return Err(format!("mask {:?}: called back for {:?}, {k} of {:?} are right", String::from_utf8_lossy(mk), s(&got), s(&want)));
                }
                Ok(())
            }
            Op::Extract { a, name, dest } => {
                let mut errs = vec![];
                if !utf8(name) || !utf8(dest) {
                    errs.push(E_PARAM);
                }
                if !self.archives.contains_key(a) {
                    errs.push(E_HANDLE);
                }
                let dest = dest.clone().unwrap_or_default();
                let prev = self.dest.get(&dest).cloned();
                let same = |r: &Resp| -> Result<(), String> {
                    if errs_dest(&dest) {
                        return Ok(());
                    }
                    match (&prev, r.num) {
                        (None, 1) => Err("left a file behind although it failed".into()),
                        (Some(p), 1) if *p != r.out => Err("changed an existing file although it failed".into()),
                        (Some(_), 0) => Err("removed an existing file although it failed".into()),
                        _ => Ok(()),
                    }
                };
                if !errs.is_empty() {
                    self.fail(r, 0, &errs)?;
                    return if std::str::from_utf8(&dest).is_ok() && !dest.is_empty() { same(r) } else { Ok(()) };
                }
                let m = &self.archives[a].1;
                let Some(e) = m.find(name.as_ref().unwrap()) else {
                    self.fail(r, 0, &[E_NOTFOUND])?;
                    return same(r);
                };
                let e = &m.entries[e];
                if e.broken {
                    self.fail(r, 0, &[E_CORRUPT])?;
                    return same(r);
                }
                if dest.ends_with(b"/fulldev") {
                    // nothing can be written there
                    if !e.data.is_empty() && (r.ret != 0 || r.err == 0) {
                        return Err(format!("extracted {} bytes to a full device: returned {:#x}, error {}", e.data.len(), r.ret, err_name(r.err)));
                    }
                    return Ok(());
                }
                if errs_dest(&dest) {
                    return self.fail(r, 0, &[E_ACCESS]);
                }
                self.good(r)?;
                if r.num != 1 || r.out != e.data {
                    return Err(format!("extracted {:?}: {}", e.name, diff(&r.out, &e.data)));
                }
                let d = e.data.clone();
                self.dest.insert(dest, d);
                Ok(())
            }
            Op::VerifyFile { a, name, flags } => {
                let mut errs = vec![];
                if !utf8(name) {
                    errs.push(E_PARAM);
                }
                if !self.archives.contains_key(a) {
                    errs.push(E_HANDLE);
                }
                if !errs.is_empty() {
                    return self.fail(r, 0, &errs);
                }
                let m = &self.archives[a].1;
                let Some(e) = m.find(name.as_ref().unwrap()) else { return self.fail(r, 0, &[E_NOTFOUND]) };
                if m.verify(&m.entries[e], *flags) {
                    self.good(r)
                } else {
                    self.fail(r, 0, &[E_CORRUPT]).map_err(|x| format!("{:?} flags {flags:#x}: {x} (stored data broken {}, checksum matches {:?}, digest matches {:?})", m.entries[e].name, m.entries[e].broken, m.entries[e].attr_crc, m.entries[e].attr_md5))
                }
            }
            Op::VerifyArchive { a, flags } => {
                let Some((_, m)) = self.archives.get(a) else { return self.fail(r, 0, &[E_HANDLE]) };
                let f = if *flags == 0 { 0x10 } else { *flags };
                let mut ok = true;
                if f & 0x10 != 0 && m.sig == Sig::Invalid {
                    ok = false;
                }
                if f & 0x20 != 0 {
                    if !m.listed {
                        // the files cannot be named: only the signature decides
                        return if ok { Ok(()) } else { self.fail(r, 0, &[E_CORRUPT]) };
                    }
                    for e in &m.entries {
                        let special = e.name.starts_with('(') && e.name.ends_with(')');
                        let folder = e.name.ends_with(['/', '\\']);
                        if !special && !folder && !m.verify(e, 7) {
                            ok = false;
                        }
                    }
                }
                if ok {
                    self.good(r)
                } else {
                    self.fail(r, 0, &[E_CORRUPT])
                }
            }
            Op::SetLocale(l) => {
                let old = self.locale.insert(t, *l).unwrap_or(0);
                if r.ret != old as u64 {
                    return Err(format!("returned {:#x} as the previous locale, it was {old:#x}", r.ret));
                }
                Ok(())
            }
            Op::GetLocale => {
                let l = *self.locale.get(&t).unwrap_or(&0);
                if r.ret != l as u64 {
                    return Err(format!("returned {:#x}, the locale of this thread is {l:#x}", r.ret));
                }
                Ok(())
            }
            Op::SetErr(e) => {
                if r.err != *e {
                    return Err(format!("last error reads {:#x} right after it was set to {e:#x}", r.err));
                }
                Ok(())
            }
            Op::GetErr => {
                if r.ret != before as u64 {
                    return Err(format!("last error is {:#x}, this thread's last call left {before:#x}", r.ret));
                }
                Ok(())
            }
        }
    }
}
fn errs_dest(d: &[u8]) -> bool {
    d.ends_with(b"/adir") || d.ends_with(b"/fulldev")
}
pub fn err_name(e: u32) -> String {
    if e == MARK {
        "unset".into()
    } else {
        e.to_string()
    }
}

/// Build an archive and the model of it.
pub fn make(ctx: &mut Ctx, r: &mut Rng, path: &Path, small: bool) -> Option<Arc<ArchM>> {
    if r.chance(1, 4) {
        return Some(other_writer(ctx, r, path, small));
    }
    let mut spec: Spec = gen::spec(r);
    spec.bs = r.below(3) as u16;
    spec.files.truncate(if small { 3 } else { 7 });
    if small {
        spec.bs = 0;
        for f in &mut spec.files {
            f.data.truncate(1400);
        }
    }
    if matches!(spec.lf, Lf::External(_)) || small {
        spec.lf = Lf::Generate;
    }
    spec.crc = r.bool();
    if spec.files.is_empty() {
        spec.files.push(gen::gfile(r, 512));
    }
    let plain = |n: &str, data: Vec<u8>| GFile { name: n.into(), data, comp: Some(0), enc: false, fix: false, locale: 0, via_path: false };
    let signed = r.chance(1, 3);
    if signed {
        spec.crc = false; // the signature goes in afterwards, behind its checksum's back
        let at = r.usize(spec.files.len() + 1);
        spec.files.insert(at, plain("(signature)", vec![0; 72]));
    }
    let mut wrong: Vec<(bool, bool)> = vec![];
    let mut flags = 0;
    if r.chance(2, 3) {
        flags = r.below(16) as u32;
        let at = r.usize(spec.files.len() + 1);
        spec.files.insert(at, plain("(attributes)", vec![]));
        let model = spec.model();
        let bad = r.chance(1, 3);
        let mut ents: Vec<special::Ent> = vec![];
        for (n, d) in &model {
            let w = (bad && r.chance(1, 4), bad && r.chance(1, 4));
            let mut m = refm::md5(d);
            if w.1 {
                m[r.usize(16)] ^= 1 << r.below(8);
            }
            // the entry of the attributes file itself holds nothing of use
            let w = if n == "(attributes)" || n == "(signature)" { (true, true) } else { w };
            ents.push((special::crc32(d) ^ if w.0 { 1 << r.below(32) } else { 0 }, r.next(), m, r.bool()));
            wrong.push(w);
        }
        spec.files[at].data = special::encode(flags, &ents);
    }
    if !spec.build(ctx, path) {
        return None;
    }
    let mut bytes = std::fs::read(path).unwrap();
    let a = RefArchive::parse(bytes.clone(), 0).ok()?;
    let model = spec.model();
    let mut entries = vec![];
    for (i, (n, d)) in model.iter().enumerate() {
        let b = a.find(n).first().map(|x| x.1.block)?;
        let flags_of = a.block.get(b as usize)?.flags;
        entries.push(Entry {
            name: n.clone(),
            canon: refm::canon(n),
            data: d.clone(),
            broken: false,
            hidden: false,
            has_crc: flags_of & refm::F_CRC != 0,
            attr_crc: (flags & 1 != 0).then(|| !wrong[i].0),
            attr_md5: (flags & 4 != 0).then(|| !wrong[i].1),
        });
    }
    // damage to the stored data of checksummed files
    if r.chance(1, 2) {
        for e in entries.iter_mut().filter(|e| e.has_crc && !e.name.starts_with('(') && !e.data.is_empty()) {
            if !r.chance(1, 3) {
                continue;
            }
            let b = a.find(&e.name).first().map(|x| x.1.block)?;
            let be = &a.block[b as usize];
            let (lo, hi) = a.extent(be);
            let head = if be.flags & refm::F_SINGLE == 0 && be.flags & refm::F_COMPRESS != 0 { 8 * (be.size as usize).div_ceil(a.sector()) + 4 } else { 0 };
            let (lo, hi) = (lo as usize + head, hi as usize);
            if lo >= hi {
                continue;
            }
            let at = lo + r.usize(hi - lo);
            let old = bytes[at];
            bytes[at] ^= 1 + r.u8() % 255;
            let broken = match RefArchive::parse(bytes.clone(), 0) {
                Ok(x) => match x.content(&e.name, &x.block[b as usize]) {
                    Ok(d) => d != e.data,
                    Err(_) => true,
                },
                Err(_) => true,
            };
            if broken {
                e.broken = true;
            } else {
                bytes[at] = old;
            }
        }
    }
    let mut sig = Sig::None;
    if signed {
        let sp = a.find("(signature)").first().map(|x| a.block[x.1.block as usize].pos)? as usize;
        special::weak_sign(&mut bytes, sp);
        sig = Sig::Valid;
        if r.bool() {
            // alter what is signed without touching any file: the signature itself
            bytes[sp + 8 + r.usize(63)] ^= 1 << r.below(8);
            sig = Sig::Invalid;
        }
        let i = entries.iter().position(|e| e.name == "(signature)")?;
        entries[i].data = bytes[sp..sp + 72].to_vec();
    }
    let size = bytes.len() as u64;
    if !signed && r.chance(1, 6) {
        // a strong signature that nobody's key made
        ctx.count("strong_signatures");
        bytes.extend_from_slice(b"NGIS");
        bytes.extend(r.bytes(256));
        sig = Sig::Invalid;
    }
    std::fs::write(path, &bytes).unwrap();
    Some(Arc::new(ArchM {
        entries,
        listed: matches!(spec.lf, Lf::Generate),
        size,
        hts: a.hcount,
        bts: a.bcount,
        ss: a.sector() as u32,
        sig,
        brief: spec.brief(),
    }))
}

/// An archive of another writer and the model of it.
fn other_writer(ctx: &mut Ctx, r: &mut Rng, path: &Path, small: bool) -> Arc<ArchM> {
    let fo = loop {
        let fo = foreign::foreign(ctx, r, false, path.to_path_buf());
        if fo.live().is_empty() {
            continue;
        }
        if !small || (fo.files.len() < 12 && fo.files.iter().all(|f| f.data.len() <= 4096)) {
            break fo;
        }
    };
    ctx.count("foreign_archives");
    let entries = fo
        .live()
        .into_iter()
        .map(|(f, _)| Entry { name: f.name.clone(), canon: refm::canon(&f.name), data: f.data.clone(), broken: false, hidden: f.name == "(listfile)", has_crc: false, attr_crc: None, attr_md5: None })
        .collect();
    let v3 = fo.o.version >= 2;
    Arc::new(ArchM {
        entries,
        listed: fo.lf,
        size: if v3 { fo.w.len } else { fo.w.len.min(u32::MAX as u64) },
        hts: if fo.o.classic { fo.o.hash_size } else { 0 },
        bts: if fo.o.classic { fo.w.blocks.len() as u32 } else { 0 },
        ss: 512 << fo.o.shift,
        sig: Sig::None,
        brief: fo.desc,
    })
}
