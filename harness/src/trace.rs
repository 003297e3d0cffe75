//! A small system-call tracer: stops a child at every system call between two markers, lets the caller
//! look at the world there (what a crash at this point would leave behind), and can make one call fail
//! or be cut short.
use std::os::unix::process::CommandExt;
use std::process::Command;

pub const MARK_BEGIN: u64 = 0x7777;
pub const MARK_END: u64 = 0x7778;

/// Called by the traced child.
pub fn mark(which: u64) {
    unsafe {
        libc::syscall(libc::SYS_sched_get_priority_max, which);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// the call is not executed and fails with this errno
    Errno(i32),
    /// the count argument is cut to this many bytes (a legal short transfer)
    Short(u64),
    /// as Short, from this call on for all reads and writes
    AllShort(u64),
    /// the call returns EINTR once
    Intr,
    /// the process is killed before the call
    Kill,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub nr: i64,
    pub name: &'static str,
    pub path: String,
}

pub struct Outcome {
    pub status: i32,
    pub signal: i32,
    pub calls: Vec<Call>,
    pub stops: u64,
    pub injected: Option<Call>,
    pub began: bool,
}

fn name(nr: i64) -> Option<&'static str> {
    Some(match nr {
        libc::SYS_openat | libc::SYS_open | libc::SYS_creat => "open",
        libc::SYS_write => "write",
        libc::SYS_pwrite64 => "pwrite",
        libc::SYS_writev => "writev",
        libc::SYS_read => "read",
        libc::SYS_pread64 => "pread",
        libc::SYS_lseek => "lseek",
        libc::SYS_rename | libc::SYS_renameat | libc::SYS_renameat2 => "rename",
        libc::SYS_link | libc::SYS_linkat => "link",
        libc::SYS_unlink | libc::SYS_unlinkat => "unlink",
        libc::SYS_fsync | libc::SYS_fdatasync => "fsync",
        libc::SYS_ftruncate | libc::SYS_truncate => "truncate",
        libc::SYS_copy_file_range | libc::SYS_sendfile => "copy",
        libc::SYS_statx | libc::SYS_fstat | libc::SYS_newfstatat | libc::SYS_stat => "stat",
        libc::SYS_close => "close",
        libc::SYS_chmod | libc::SYS_fchmod | libc::SYS_fchmodat => "chmod",
        libc::SYS_mkdir | libc::SYS_mkdirat => "mkdir",
        _ => return None,
    })
}
pub fn has_count(n: &str) -> bool {
    matches!(n, "write" | "pwrite" | "read" | "pread")
}

fn regs(pid: i32) -> Option<libc::user_regs_struct> {
    unsafe {
        let mut r: libc::user_regs_struct = std::mem::zeroed();
        if libc::ptrace(libc::PTRACE_GETREGS, pid, 0, &mut r as *mut _) < 0 {
            None
        } else {
            Some(r)
        }
    }
}
fn set_regs(pid: i32, r: &libc::user_regs_struct) {
    unsafe {
        libc::ptrace(libc::PTRACE_SETREGS, pid, 0, r as *const _);
    }
}
fn peek_str(pid: i32, addr: u64) -> String {
    let mut v = vec![];
    let mut a = addr;
    'o: while v.len() < 4096 {
        let w = unsafe {
            *libc::__errno_location() = 0;
            libc::ptrace(libc::PTRACE_PEEKDATA, pid, a, 0)
        };
        if unsafe { *libc::__errno_location() } != 0 {
            break;
        }
        for b in w.to_le_bytes() {
            if b == 0 {
                break 'o;
            }
            v.push(b);
        }
        a += 8;
    }
    String::from_utf8_lossy(&v).into_owned()
}

/// Run `cmd` traced. Calls that touch `dir` (by path or by descriptor) between the markers are numbered from 0;
/// `fault` = (number, fault) hits that call. `look` runs at every stop between the markers.
pub fn run(cmd: &mut Command, dir: &str, fault: Option<(usize, Fault)>, mut look: impl FnMut()) -> Result<Outcome, String> {
    unsafe {
        cmd.pre_exec(|| {
            if libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) < 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let child = cmd.spawn().map_err(|e| format!("spawn: {e}"))?;
    let main = child.id() as i32;
    let mut out = Outcome { status: -1, signal: 0, calls: vec![], stops: 0, injected: None, began: false };
    let mut armed = false;
    let mut opts_set = false;
    let mut all_short: Option<u64> = None;
    let mut pending: std::collections::HashMap<i32, i64> = Default::default(); // forced result at exit
    let mut entry: std::collections::HashMap<i32, bool> = Default::default();
    loop {
        let mut st = 0;
        let pid = unsafe { libc::waitpid(-1, &mut st, libc::__WALL) };
        if pid < 0 {
            return Err("waitpid".into());
        }
        if libc::WIFEXITED(st) || libc::WIFSIGNALED(st) {
            if pid == main {
                if libc::WIFEXITED(st) {
                    out.status = libc::WEXITSTATUS(st);
                } else {
                    out.signal = libc::WTERMSIG(st);
                }
                return Ok(out);
            }
            continue;
        }
        let sig = libc::WSTOPSIG(st);
        let mut deliver = 0;
        if !opts_set {
            unsafe {
                libc::ptrace(libc::PTRACE_SETOPTIONS, pid, 0, libc::PTRACE_O_TRACESYSGOOD | libc::PTRACE_O_EXITKILL | libc::PTRACE_O_TRACECLONE | libc::PTRACE_O_TRACEFORK | libc::PTRACE_O_TRACEVFORK);
            }
            opts_set = true;
        } else if sig == libc::SIGTRAP | 0x80 {
            let e = entry.entry(pid).or_insert(true);
            let is_entry = *e;
            *e = !is_entry;
            let Some(mut r) = regs(pid) else { return Err("getregs".into()) };
            let nr = r.orig_rax as i64;
            if is_entry {
                if nr == libc::SYS_sched_get_priority_max && r.rdi == MARK_BEGIN {
                    armed = true;
                    out.began = true;
                } else if nr == libc::SYS_sched_get_priority_max && r.rdi == MARK_END {
                    armed = false;
                    all_short = None;
                } else if armed {
                    out.stops += 1;
                    look();
                    if let Some(nm) = name(nr) {
                        let path = match nm {
                            "open" | "rename" | "link" | "unlink" | "mkdir" | "chmod" if !matches!(nr, libc::SYS_fchmod) => {
                                let at = matches!(nr, libc::SYS_openat | libc::SYS_renameat | libc::SYS_renameat2 | libc::SYS_linkat | libc::SYS_unlinkat | libc::SYS_fchmodat | libc::SYS_mkdirat);
                                peek_str(pid, if at { r.rsi } else { r.rdi })
                            }
                            "stat" if nr != libc::SYS_fstat => peek_str(pid, if nr == libc::SYS_stat { r.rdi } else { r.rsi }),
                            _ => std::fs::read_link(format!("/proc/{pid}/fd/{}", r.rdi as i32)).map(|p| p.to_string_lossy().into_owned()).unwrap_or_default(),
                        };
                        let inside = path.starts_with(dir) || (!path.starts_with('/') && !path.is_empty() && !path.contains(':'));
                        if inside {
                            let c = Call { nr, name: nm, path };
                            if let (Some(n), true) = (all_short, has_count(nm)) {
                                if r.rdx > n {
                                    r.rdx = n;
                                    set_regs(pid, &r);
                                }
                            }
                            if let Some((at, f)) = fault {
                                if at == out.calls.len() {
                                    out.injected = Some(c.clone());
                                    match f {
                                        Fault::Errno(e) => {
                                            r.orig_rax = u64::MAX;
                                            set_regs(pid, &r);
                                            pending.insert(pid, -(e as i64));
                                        }
                                        Fault::Intr => {
                                            r.orig_rax = u64::MAX;
                                            set_regs(pid, &r);
                                            pending.insert(pid, -(libc::EINTR as i64));
                                        }
                                        Fault::Short(n) | Fault::AllShort(n) => {
                                            if matches!(f, Fault::AllShort(_)) {
                                                all_short = Some(n);
                                            }
                                            if has_count(nm) && r.rdx > n {
                                                r.rdx = n;
                                                set_regs(pid, &r);
                                            }
                                        }
                                        Fault::Kill => unsafe {
                                            libc::kill(main, libc::SIGKILL);
                                        },
                                    }
                                }
                            }
                            out.calls.push(c);
                        }
                    }
                }
            } else {
                if let Some(v) = pending.remove(&pid) {
                    r.rax = v as u64;
                    set_regs(pid, &r);
                }
                if armed {
                    look();
                }
            }
        } else if sig == libc::SIGTRAP || sig == libc::SIGSTOP {
            // event stops and the first stop of a new thread
        } else {
            deliver = sig;
        }
        unsafe {
            libc::ptrace(libc::PTRACE_SYSCALL, pid, 0, deliver);
        }
    }
}
