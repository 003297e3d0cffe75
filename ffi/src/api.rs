//! The C interface as a C program sees it: calls through the exported symbols, with every buffer the
//! library is handed placed against an inaccessible page and its surroundings watched.
#![allow(non_snake_case)]
extern crate storm;
use std::ffi::{c_char, c_void, CStr, CString};

type H = *mut c_void;
extern "C" {
    fn SFileOpenArchive(name: *const c_char, prio: u32, flags: u32, h: *mut H) -> bool;
    fn SFileCreateArchive(name: *const c_char, disp: u32, hts: u32, h: *mut H) -> bool;
    fn SFileCloseArchive(h: H) -> bool;
    fn SFileOpenFileEx(a: H, name: *const c_char, scope: u32, h: *mut H) -> bool;
    fn SFileCloseFile(h: H) -> bool;
    fn SFileReadFile(h: H, buf: *mut c_void, n: u32, read: *mut u32, ov: *mut c_void) -> bool;
    fn SFileGetFileSize(h: H, high: *mut u32) -> u32;
    fn SFileSetFilePointer(h: H, lo: i32, hi: *mut i32, m: u32) -> u32;
    fn SFileHasFile(a: H, name: *const c_char) -> bool;
    fn SFileGetFileInfo(h: H, class: u32, buf: *mut c_void, n: u32, need: *mut u32) -> bool;
    fn SFileGetArchiveName(a: H, buf: *mut c_char, n: u32) -> bool;
    fn SFileGetFileName(h: H, buf: *mut c_char) -> bool;
    fn SFileEnumFiles(a: H, mask: *const c_char, lf: *const c_char, cb: Option<extern "C" fn(*const c_char, *mut c_void) -> bool>, ud: *mut c_void) -> bool;
    fn SFileSetLocale(l: u32) -> u32;
    fn SFileGetLocale() -> u32;
    fn SFileGetLastError() -> u32;
    fn SFileSetLastError(e: u32);
    fn SFileExtractFile(a: H, name: *const c_char, dest: *const c_char, scope: u32) -> bool;
    fn SFileVerifyFile(a: H, name: *const c_char, flags: u32) -> bool;
    fn SFileVerifyArchive(a: H, flags: u32) -> bool;
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    OpenArchive { path: Option<Vec<u8>>, out: bool },
    Create { path: Option<Vec<u8>>, disp: u32, hts: u32, out: bool },
    CloseArchive(u64),
    OpenFile { a: u64, name: Option<Vec<u8>>, out: bool },
    CloseFile(u64),
    Read { h: u64, n: u32, buf: bool, cnt: bool },
    Size { h: u64, high: bool },
    Seek { h: u64, lo: i32, hi: Option<i32>, m: u32 },
    Has { a: u64, name: Option<Vec<u8>> },
    Info { h: u64, class: u32, n: u32, buf: bool, need: bool, skew: usize },
    ArchName { a: u64, n: u32, buf: bool },
    FileName { h: u64, buf: bool, room: usize },
    Enum { a: u64, mask: Option<Vec<u8>>, stop: Option<usize>, cb: bool },
    Extract { a: u64, name: Option<Vec<u8>>, dest: Option<Vec<u8>> },
    VerifyFile { a: u64, name: Option<Vec<u8>>, flags: u32 },
    VerifyArchive { a: u64, flags: u32 },
    SetLocale(u32),
    GetLocale,
    SetErr(u32),
    GetErr,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Resp {
    pub ret: u64,
    pub err: u32,
    /// handle written
    pub h: u64,
    /// number written (bytes read, high part, size needed)
    pub num: u64,
    /// data written
    pub out: Vec<u8>,
    pub names: Vec<Vec<u8>>,
    /// writes outside what was handed over, and the like
    pub mem: Option<String>,
}

pub const UNSET: u64 = 0x5A5A_5A5A_5A5A_5A5A;
pub const MARK: u32 = 0x7E57_0001;

/// Memory of `len` bytes ending `skew` bytes before an inaccessible page.
pub struct Guard {
    base: *mut u8,
    total: usize,
    at: usize,
    len: usize,
}
const PAGE: usize = 4096;
impl Guard {
    pub fn new(len: usize, skew: usize) -> Guard {
        let data = (len + skew + 64).div_ceil(PAGE) * PAGE;
        let total = data + PAGE;
        unsafe {
            let base = libc::mmap(std::ptr::null_mut(), total, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(base as isize != -1);
            libc::mprotect(base.add(data) as *mut c_void, PAGE, libc::PROT_NONE);
            std::ptr::write_bytes(base, 0xC5, data);
            Guard { base, total, at: data - len - skew, len }
        }
    }
    pub fn ptr(&self) -> *mut u8 {
        unsafe { self.base.add(self.at) }
    }
    pub fn bytes(&self) -> Vec<u8> {
        unsafe { std::slice::from_raw_parts(self.ptr(), self.len).to_vec() }
    }
    /// Bytes outside the buffer that changed.
    pub fn touched(&self) -> Option<String> {
        let all = unsafe { std::slice::from_raw_parts(self.base, self.total - PAGE) };
        let i = (0..all.len()).find(|&i| (i < self.at || i >= self.at + self.len) && all[i] != 0xC5)?;
        Some(format!("byte {} relative to a buffer of {} bytes was written", i as i64 - self.at as i64, self.len))
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.base as *mut c_void, self.total) };
    }
}

fn cs(n: &Option<Vec<u8>>) -> Option<CString> {
    n.as_ref().map(|n| CString::new(n.clone()).unwrap())
}
fn p(c: &Option<CString>) -> *const c_char {
    c.as_ref().map(|c| c.as_ptr()).unwrap_or(std::ptr::null())
}

pub struct EnumUd<'a> {
    names: Vec<Vec<u8>>,
    stop: Option<usize>,
    after_stop: bool,
    nested: Option<&'a mut dyn FnMut(&[u8])>,
}
extern "C" fn on_name(n: *const c_char, ud: *mut c_void) -> bool {
    let ud = unsafe { &mut *(ud as *mut EnumUd) };
    if ud.stop.is_some_and(|k| ud.names.len() >= k) {
        ud.after_stop = true;
    }
    let name = unsafe { CStr::from_ptr(n) }.to_bytes().to_vec();
    if let Some(f) = ud.nested.as_mut() {
        f(&name);
    }
    ud.names.push(name);
    !ud.stop.is_some_and(|k| ud.names.len() >= k)
}

pub fn exec(op: &Op) -> Resp {
    exec_nested(op, None)
}
/// Perform the call. The last error is preset, so that calls that do not report one are seen.
pub fn exec_nested(op: &Op, nested: Option<&mut dyn FnMut(&[u8])>) -> Resp {
    let mut r = Resp { h: UNSET, num: UNSET, ..Default::default() };
    let mut guards: Vec<Guard> = vec![];
    let preset = !matches!(op, Op::GetErr);
    unsafe {
        if preset {
            SFileSetLastError(MARK);
        }
        match op {
            Op::OpenArchive { path, out } => {
                let c = cs(path);
                let g = Guard::new(8, 0);
                g.ptr().cast::<u64>().write_unaligned(UNSET);
                r.ret = SFileOpenArchive(p(&c), 0, 0, if *out { g.ptr().cast() } else { std::ptr::null_mut() }) as u64;
                r.err = SFileGetLastError();
                r.h = g.ptr().cast::<u64>().read_unaligned();
                guards.push(g);
            }
            Op::Create { path, disp, hts, out } => {
                let c = cs(path);
                let g = Guard::new(8, 0);
                g.ptr().cast::<u64>().write_unaligned(UNSET);
                r.ret = SFileCreateArchive(p(&c), *disp, *hts, if *out { g.ptr().cast() } else { std::ptr::null_mut() }) as u64;
                r.err = SFileGetLastError();
                r.h = g.ptr().cast::<u64>().read_unaligned();
                guards.push(g);
            }
            Op::CloseArchive(h) => r.ret = SFileCloseArchive(*h as H) as u64,
            Op::OpenFile { a, name, out } => {
                let c = cs(name);
                let g = Guard::new(8, 0);
                g.ptr().cast::<u64>().write_unaligned(UNSET);
                r.ret = SFileOpenFileEx(*a as H, p(&c), 0, if *out { g.ptr().cast() } else { std::ptr::null_mut() }) as u64;
                r.err = SFileGetLastError();
                r.h = g.ptr().cast::<u64>().read_unaligned();
                guards.push(g);
            }
            Op::CloseFile(h) => r.ret = SFileCloseFile(*h as H) as u64,
            Op::Read { h, n, buf, cnt } => {
                let g = Guard::new(*n as usize, 0);
                let k = Guard::new(4, 0);
                r.ret = SFileReadFile(
                    *h as H,
                    if *buf { g.ptr().cast() } else { std::ptr::null_mut() },
                    *n,
                    if *cnt { k.ptr().cast() } else { std::ptr::null_mut() },
                    std::ptr::null_mut(),
                ) as u64;
                r.num = k.ptr().cast::<u32>().read_unaligned() as u64;
                r.out = g.bytes();
                guards.push(g);
                guards.push(k);
            }
            Op::Size { h, high } => {
                let k = Guard::new(4, 0);
                r.ret = SFileGetFileSize(*h as H, if *high { k.ptr().cast() } else { std::ptr::null_mut() }) as u64;
                r.num = k.ptr().cast::<u32>().read_unaligned() as u64;
                guards.push(k);
            }
            Op::Seek { h, lo, hi, m } => {
                let k = Guard::new(4, 0);
                k.ptr().cast::<i32>().write_unaligned(hi.unwrap_or(0));
                r.ret = SFileSetFilePointer(*h as H, *lo, if hi.is_some() { k.ptr().cast() } else { std::ptr::null_mut() }, *m) as u64;
                r.num = k.ptr().cast::<u32>().read_unaligned() as u64;
                guards.push(k);
            }
            Op::Has { a, name } => {
                let c = cs(name);
                r.ret = SFileHasFile(*a as H, p(&c)) as u64;
            }
            Op::Info { h, class, n, buf, need, skew } => {
                let g = Guard::new(*n as usize, *skew);
                let k = Guard::new(4, 0);
                r.ret = SFileGetFileInfo(
                    *h as H,
                    *class,
                    if *buf { g.ptr().cast() } else { std::ptr::null_mut() },
                    *n,
                    if *need { k.ptr().cast() } else { std::ptr::null_mut() },
                ) as u64;
                r.num = k.ptr().cast::<u32>().read_unaligned() as u64;
                r.out = g.bytes();
                guards.push(g);
                guards.push(k);
            }
            Op::ArchName { a, n, buf } => {
                let g = Guard::new(*n as usize, 0);
                r.ret = SFileGetArchiveName(*a as H, if *buf { g.ptr().cast() } else { std::ptr::null_mut() }, *n) as u64;
                r.out = g.bytes();
                guards.push(g);
            }
            Op::FileName { h, buf, room } => {
                let g = Guard::new(*room, 0);
                r.ret = SFileGetFileName(*h as H, if *buf { g.ptr().cast() } else { std::ptr::null_mut() }) as u64;
                r.out = g.bytes();
                guards.push(g);
            }
            Op::Enum { a, mask, stop, cb } => {
                let c = cs(mask);
                let mut ud = EnumUd { names: vec![], stop: *stop, after_stop: false, nested };
                r.ret = SFileEnumFiles(*a as H, p(&c), std::ptr::null(), if *cb { Some(on_name) } else { None }, &mut ud as *mut EnumUd as *mut c_void) as u64;
                r.err = SFileGetLastError();
                if ud.after_stop {
                    r.mem = Some("the callback was called again after it had asked to stop".into());
                }
                r.names = ud.names;
                return r;
            }
            Op::Extract { a, name, dest } => {
                let (c, d) = (cs(name), cs(dest));
                r.ret = SFileExtractFile(*a as H, p(&c), p(&d), 0) as u64;
                r.err = SFileGetLastError();
                use std::os::unix::ffi::OsStrExt;
                if let Some(d) = dest {
                    if let Some(b) = plain_file(std::path::Path::new(std::ffi::OsStr::from_bytes(d))) {
                        r.num = 1;
                        r.out = b;
                    } else {
                        r.num = 0;
                    }
                }
                return r;
            }
            Op::VerifyFile { a, name, flags } => {
                let c = cs(name);
                r.ret = SFileVerifyFile(*a as H, p(&c), *flags) as u64;
            }
            Op::VerifyArchive { a, flags } => r.ret = SFileVerifyArchive(*a as H, *flags) as u64,
            Op::SetLocale(l) => r.ret = SFileSetLocale(*l) as u64,
            Op::GetLocale => r.ret = SFileGetLocale() as u64,
            Op::SetErr(e) => SFileSetLastError(*e),
            Op::GetErr => r.ret = SFileGetLastError() as u64,
        }
        r.err = SFileGetLastError();
    }
    for g in &guards {
        if let Some(t) = g.touched() {
            r.mem = Some(t);
        }
    }
    r
}

/// The content of a regular file.
fn plain_file(p: &std::path::Path) -> Option<Vec<u8>> {
    if std::fs::metadata(p).ok()?.is_file() {
        std::fs::read(p).ok()
    } else {
        None
    }
}
