//! Storage faults: the C library's read calls are defined here, so that every read the code under test makes of a
//! file goes through this file, where an armed plan can cut it short, interrupt it, fail it or end the file early.
use std::cell::Cell;
use std::os::raw::{c_int, c_void};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Plan {
    /// count only
    Watch,
    /// every read delivers at most this many bytes
    Short(usize),
    /// every read delivers a different number of bytes (seeded)
    Ragged(u64),
    /// the k-th read fails once with this errno
    Fail(u64, i32),
    /// from the k-th read on, all fail with EIO
    FailFrom(u64),
    /// from the k-th read on, the file is at its end
    EofFrom(u64),
    /// every other read is interrupted
    Interrupt,
    /// the k-th seek fails once
    Seek(u64),
}

thread_local! {
    static PLAN: Cell<Option<Plan>> = const { Cell::new(None) };
    static READS: Cell<u64> = const { Cell::new(0) };
    static SEEKS: Cell<u64> = const { Cell::new(0) };
    static HITS: Cell<u64> = const { Cell::new(0) };
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Seen {
    pub reads: u64,
    pub seeks: u64,
    /// reads and seeks whose result was changed
    pub hits: u64,
}

/// Run `f` with the plan armed on this thread.
pub fn with<T>(p: Plan, f: impl FnOnce() -> T) -> (T, Seen) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            PLAN.with(|c| c.set(None));
        }
    }
    READS.with(|c| c.set(0));
    SEEKS.with(|c| c.set(0));
    HITS.with(|c| c.set(0));
    PLAN.with(|c| c.set(Some(p)));
    let off = Off;
    let v = f();
    drop(off);
    (v, seen())
}
pub fn seen() -> Seen {
    Seen { reads: READS.with(|c| c.get()), seeks: SEEKS.with(|c| c.get()), hits: HITS.with(|c| c.get()) }
}
fn hit() {
    HITS.with(|c| c.set(c.get() + 1));
}

enum Act {
    Pass,
    Cut(usize),
    Err(i32),
    Eof,
}
fn decide(n: usize) -> Act {
    let Some(p) = PLAN.with(|c| c.get()) else { return Act::Pass };
    let k = READS.with(|c| {
        let k = c.get();
        c.set(k + 1);
        k
    });
    match p {
        Plan::Short(m) if n > m => {
            hit();
            Act::Cut(m)
        }
        Plan::Ragged(s) if n > 1 => {
            let mut x = s ^ k.wrapping_mul(0x9E37_79B9_7F4A_7C15);
            let v = crate::rng::splitmix(&mut x);
            hit();
            Act::Cut(match v % 4 {
                0 => 1 + (v >> 8) as usize % 7,
                1 => 1 + (v >> 8) as usize % 600,
                _ => 1 + (v >> 8) as usize % n,
            }
            .min(n))
        }
        Plan::Fail(at, e) if at == k => {
            hit();
            Act::Err(e)
        }
        Plan::FailFrom(at) if k >= at => {
            hit();
            Act::Err(libc::EIO)
        }
        Plan::EofFrom(at) if k >= at => {
            hit();
            Act::Eof
        }
        Plan::Interrupt if k % 2 == 0 => {
            hit();
            Act::Err(libc::EINTR)
        }
        _ => Act::Pass,
    }
}
fn fail(e: i32) -> isize {
    unsafe { *libc::__errno_location() = e };
    -1
}

thread_local! {
    static JITTER: Cell<u64> = const { Cell::new(0) };
}
/// Delays at the file system calls of this thread from now on (0: none).
pub fn jitter(seed: u64) {
    JITTER.with(|c| c.set(seed));
}
fn delay() {
    JITTER.with(|c| {
        let mut x = c.get();
        if x == 0 {
            return;
        }
        let v = crate::rng::splitmix(&mut x);
        c.set(x | 1);
        unsafe {
            match v % 16 {
                0..=3 => {
                    libc::sched_yield();
                }
                4 => {
                    let t = libc::timespec { tv_sec: 0, tv_nsec: (v >> 8) as i64 % 80_000 };
                    libc::nanosleep(&t, std::ptr::null_mut());
                }
                _ => {}
            }
        }
    })
}

/// # Safety
/// As read(2).
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    delay();
    match decide(n) {
        Act::Pass => libc::syscall(libc::SYS_read, fd, buf, n) as isize,
        Act::Cut(m) => libc::syscall(libc::SYS_read, fd, buf, m) as isize,
        Act::Err(e) => fail(e),
        Act::Eof => 0,
    }
}
/// # Safety
/// As pread(2).
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, at: i64) -> isize {
    delay();
    match decide(n) {
        Act::Pass => libc::syscall(libc::SYS_pread64, fd, buf, n, at) as isize,
        Act::Cut(m) => libc::syscall(libc::SYS_pread64, fd, buf, m, at) as isize,
        Act::Err(e) => fail(e),
        Act::Eof => 0,
    }
}
/// # Safety
/// As readv(2).
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    let total: usize = (0..n as usize).map(|i| (*iov.add(i)).iov_len).sum();
    match decide(total) {
        Act::Pass => libc::syscall(libc::SYS_readv, fd, iov, n) as isize,
        Act::Cut(m) => {
            // the first buffer that holds anything, cut
            for i in 0..n as usize {
                let v = &*iov.add(i);
                if v.iov_len > 0 {
                    return libc::syscall(libc::SYS_read, fd, v.iov_base, v.iov_len.min(m)) as isize;
                }
            }
            0
        }
        Act::Err(e) => fail(e),
        Act::Eof => 0,
    }
}
/// # Safety
/// As lseek(2).
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    delay();
    if let Some(p) = PLAN.with(|c| c.get()) {
        let k = SEEKS.with(|c| {
            let k = c.get();
            c.set(k + 1);
            k
        });
        if p == Plan::Seek(k) {
            hit();
            return fail(libc::EIO) as i64;
        }
    }
    libc::syscall(libc::SYS_lseek, fd, off, whence)
}
/// # Safety
/// As write(2).
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    delay();
    libc::syscall(libc::SYS_write, fd, buf, n) as isize
}
