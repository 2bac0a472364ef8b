//! Interposed file operations of the C library: they count, fail, stop half-way or end the process at a chosen call.
#![allow(clippy::missing_safety_doc)]
use libc::{c_char, c_int, c_void, mode_t, off64_t, size_t, ssize_t};
use std::sync::atomic::{AtomicI32, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(i32)]
pub enum Mode {
    Off = 0,
    Count,
    /// the process dies before / after the call
    DieBefore,
    DieAfter,
    /// the call fails with `errno`, and so does every later one if `sticky`
    Fail,
    FailOn,
    /// a write stops after a part; then the process dies, or writing fails from there on
    PartDie,
    PartFail,
    /// a write stops after a part, the rest is accepted
    Short,
    /// the machine loses power after the call: data not synced is lost in part
    Power,
}
static MODE: AtomicI32 = AtomicI32::new(0);
static TARGET: AtomicUsize = AtomicUsize::new(0);
static ERRNO: AtomicI32 = AtomicI32::new(0);
/// per mille
static PART: AtomicU64 = AtomicU64::new(0);
static COUNT: AtomicUsize = AtomicUsize::new(0);
pub static CALLS: [AtomicUsize; 8] = [const { AtomicUsize::new(0) }; 8];
pub const NAMES: [&str; 8] = ["open", "write", "sync", "rename", "unlink", "link", "truncate", "mkdir"];
const MAXFD: usize = 256;
/// dup of the file behind a written descriptor, 0 = none; how many bytes of it are safe
static DUP: [AtomicI32; MAXFD] = [const { AtomicI32::new(0) }; MAXFD];
static SAFE: [AtomicI64; MAXFD] = [const { AtomicI64::new(0) }; MAXFD];
/// which entry a descriptor belongs to
static ENTRY: [AtomicUsize; MAXFD] = [const { AtomicUsize::new(0) }; MAXFD];
static NEXT: AtomicUsize = AtomicUsize::new(0);

pub fn arm(mode: Mode, target: usize, errno: i32, part: u64) {
    COUNT.store(0, Relaxed);
    TARGET.store(target, Relaxed);
    ERRNO.store(errno, Relaxed);
    PART.store(part, Relaxed);
    CALLS.iter().for_each(|c| c.store(0, Relaxed));
    MODE.store(mode as i32, Relaxed);
}
pub fn disarm() -> usize {
    MODE.store(0, Relaxed);
    COUNT.load(Relaxed)
}
pub fn power() -> ! {
    unsafe {
        for i in 0..MAXFD {
            let d = DUP[i].load(Relaxed);
            if d > 0 {
                let mut st: libc::stat = std::mem::zeroed();
                libc::syscall(libc::SYS_fstat, d, &mut st);
                let safe = SAFE[i].load(Relaxed);
                if st.st_size > safe {
                    let keep = safe + (st.st_size - safe) * PART.load(Relaxed) as i64 / 1000;
                    libc::syscall(libc::SYS_ftruncate, d, keep);
                }
            }
        }
        libc::_exit(77)
    }
}
fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
/// `part`: performs the call for some of its bytes
fn step(kind: usize, call: impl FnOnce() -> i64, part: Option<&dyn Fn(u64) -> i64>) -> i64 {
    let mode = MODE.load(Relaxed);
    if mode == 0 {
        return call();
    }
    CALLS[kind].fetch_add(1, Relaxed);
    let n = COUNT.fetch_add(1, Relaxed);
    let t = TARGET.load(Relaxed);
    let hit = n == t;
    let fail = || {
        set_errno(ERRNO.load(Relaxed));
        -1
    };
    const DB: i32 = Mode::DieBefore as i32;
    const DA: i32 = Mode::DieAfter as i32;
    const F: i32 = Mode::Fail as i32;
    const FO: i32 = Mode::FailOn as i32;
    const PD: i32 = Mode::PartDie as i32;
    const PF: i32 = Mode::PartFail as i32;
    const SH: i32 = Mode::Short as i32;
    const PO: i32 = Mode::Power as i32;
    match mode {
        DB if hit => unsafe { libc::_exit(77) },
        DA if hit => {
            call();
            unsafe { libc::_exit(77) }
        }
        F if hit => fail(),
        FO if n >= t && (hit || kind == 1) => fail(),
        PD if hit => {
            if let Some(p) = part {
                p(PART.load(Relaxed));
            }
            unsafe { libc::_exit(77) }
        }
        PF | SH if hit => match part {
            Some(p) => p(PART.load(Relaxed)),
            None => call(),
        },
        PF if n > t && kind == 1 => fail(),
        PO => {
            let r = call();
            if hit {
                power()
            }
            r
        }
        _ => call(),
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let real = || unsafe { libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode as libc::c_uint) };
    if flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) == 0 || MODE.load(Relaxed) == 0 {
        return real() as c_int;
    }
    step(
        0,
        || {
            let fd = real();
            if fd >= 0 && (fd as usize) < MAXFD && MODE.load(Relaxed) == Mode::Power as i32 {
                let d = unsafe { libc::syscall(libc::SYS_fcntl, fd, libc::F_DUPFD, 128) } as i32;
                let mut st: libc::stat = unsafe { std::mem::zeroed() };
                unsafe { libc::syscall(libc::SYS_fstat, d, &mut st) };
                let k = NEXT.fetch_add(1, Relaxed);
                if k < MAXFD {
                    ENTRY[fd as usize].store(k, Relaxed);
                    DUP[k].store(d, Relaxed);
                    SAFE[k].store(st.st_size, Relaxed);
                }
            }
            fd
        },
        None,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let real = |k: usize| unsafe { libc::syscall(libc::SYS_write, fd, buf, k) };
    if fd <= 2 {
        return real(n) as ssize_t;
    }
    step(1, || real(n), Some(&|p| real((n as u64 * p / 1000) as usize))) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if fd <= 2 || n == 0 {
        return libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t;
    }
    // one vector at a time
    write(fd, (*iov).iov_base, (*iov).iov_len)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, at: off64_t) -> ssize_t {
    let real = |k: usize| unsafe { libc::syscall(libc::SYS_pwrite64, fd, buf, k, at) };
    step(1, || real(n), Some(&|p| real((n as u64 * p / 1000) as usize))) as ssize_t
}
fn sync(fd: c_int, nr: i64) -> c_int {
    step(
        2,
        || {
            let r = unsafe { libc::syscall(nr, fd) };
            if r == 0 && (fd as usize) < MAXFD && MODE.load(Relaxed) == Mode::Power as i32 {
                let mut st: libc::stat = unsafe { std::mem::zeroed() };
                unsafe { libc::syscall(libc::SYS_fstat, fd, &mut st) };
                SAFE[ENTRY[fd as usize].load(Relaxed)].store(st.st_size, Relaxed);
            }
            r
        },
        None,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync(fd, libc::SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    step(3, || libc::syscall(libc::SYS_rename, a, b), None) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    step(4, || libc::syscall(libc::SYS_unlink, a), None) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int) -> c_int {
    step(5, || libc::syscall(libc::SYS_linkat, d, a, e, b, f), None) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    step(5, || libc::syscall(libc::SYS_link, a, b), None) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    step(6, || libc::syscall(libc::SYS_ftruncate, fd, n), None) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, m: mode_t) -> c_int {
    step(7, || libc::syscall(libc::SYS_mkdir, a, m as libc::c_uint), None) as c_int
}
