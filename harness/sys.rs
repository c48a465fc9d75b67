//! libc interposition: the harness binary defines the libc entry points that std and the
//! crate's dependencies call, so every file-system operation of the *real* code passes through
//! `dispatch`, where an `Env` installed on the current thread may schedule, log, or fail it.
//! Without an `Env` (or outside its root directory) calls go straight to the kernel.
#![allow(clippy::missing_safety_doc)]
use std::cell::Cell;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_long, c_void};
use std::sync::atomic::{AtomicI64, Ordering};

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}

pub mod nr {
    pub const READ: i64 = 0;
    pub const WRITE: i64 = 1;
    pub const CLOSE: i64 = 3;
    pub const STAT: i64 = 4;
    pub const FSTAT: i64 = 5;
    pub const LSTAT: i64 = 6;
    pub const PWRITE64: i64 = 18;
    pub const ACCESS: i64 = 21;
    pub const NANOSLEEP: i64 = 35;
    pub const FSYNC: i64 = 74;
    pub const FDATASYNC: i64 = 75;
    pub const FLOCK: i64 = 73;
    pub const TRUNCATE: i64 = 76;
    pub const FTRUNCATE: i64 = 77;
    pub const RENAME: i64 = 82;
    pub const MKDIR: i64 = 83;
    pub const RMDIR: i64 = 84;
    pub const LINK: i64 = 86;
    pub const UNLINK: i64 = 87;
    pub const SYMLINK: i64 = 88;
    pub const READLINK: i64 = 89;
    pub const CHMOD: i64 = 90;
    pub const FCHMOD: i64 = 91;
    pub const OPENAT: i64 = 257;
    pub const UNLINKAT: i64 = 263;
    pub const LINKAT: i64 = 265;
    pub const RENAMEAT2: i64 = 316;
    pub const GETRANDOM: i64 = 318;
    pub const COPY_FILE_RANGE: i64 = 326;
    pub const STATX: i64 = 332;
    pub const SENDFILE: i64 = 40;
    pub const CLOCK_GETTIME: i64 = 228;
    pub const CLOCK_NANOSLEEP: i64 = 230;
}

pub const EIO: i32 = 5;
pub const EINTR: i32 = 4;
pub const ENOSPC: i32 = 28;
pub const EXDEV: i32 = 18;
pub const EACCES: i32 = 13;
pub const EWOULDBLOCK: i32 = 11;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum K {
    Open,
    Close,
    Write,
    Sync,
    Flock,
    Truncate,
    Rename,
    Mkdir,
    Rmdir,
    Link,
    Unlink,
    Symlink,
    Chmod,
    Stat,
    Copy,
    Read,
}

impl K {
    pub fn mutates(self, flags: i32) -> bool {
        match self {
            K::Open => flags & (0o100 | 0o1000 | 0o20000000) != 0, // O_CREAT|O_TRUNC|O_TMPFILE
            K::Write | K::Truncate | K::Rename | K::Mkdir | K::Rmdir | K::Link | K::Unlink
            | K::Symlink | K::Chmod | K::Copy => true,
            K::Close | K::Sync | K::Flock | K::Stat | K::Read => false,
        }
    }
}

pub struct Op<'a> {
    pub kind: K,
    pub p1: String,
    pub p2: String,
    pub fd: i32,
    pub flags: i32,
    pub data: &'a [u8],
}

impl<'a> Op<'a> {
    pub fn show(&self) -> String {
        match self.kind {
            K::Write => format!("Write({} bytes to {})", self.data.len(), self.p1),
            K::Rename | K::Link | K::Symlink => format!("{:?}({} -> {})", self.kind, self.p1, self.p2),
            _ => format!("{:?}({})", self.kind, self.p1),
        }
    }
}

pub enum Answer {
    Go,
    Errno(i32),
    /// perform only the first n bytes of a write
    Short(usize),
    /// pretend success with this return value without doing anything
    Fake(i64),
}

pub trait Env {
    /// Only operations whose path starts with this prefix are dispatched.
    fn root(&self) -> &str;
    fn pre(&self, op: &Op) -> Answer;
    fn post(&self, _op: &Op, _ret: i64) {}
    /// For flock: the env takes over entirely (returns the result) when Some.
    fn flock(&self, _op: &Op, _how: i32) -> Option<i64> {
        None
    }
    fn want_stat(&self) -> bool {
        false
    }
    fn want_read(&self) -> bool {
        false
    }
}

thread_local! {
    static ENV: Cell<Option<*const dyn Env>> = const { Cell::new(None) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

/// Install an Env on this thread; the caller keeps it alive until clear_env.
pub fn set_env(e: &dyn Env) {
    let p: *const dyn Env = e;
    // erase the lifetime: callers clear before the env dies
    let p: *const (dyn Env + 'static) = unsafe { std::mem::transmute(p) };
    ENV.with(|c| c.set(Some(p)));
}
pub fn clear_env() {
    ENV.with(|c| c.set(None));
}
pub fn with_env<T>(e: &dyn Env, f: impl FnOnce() -> T) -> T {
    struct D;
    impl Drop for D {
        fn drop(&mut self) {
            clear_env();
        }
    }
    set_env(e);
    let _d = D;
    f()
}

fn env() -> Option<&'static dyn Env> {
    ENV.try_with(|c| {
        if BUSY.with(|b| b.get()) {
            None
        } else {
            c.get().map(|p| unsafe { &*p })
        }
    })
    .ok()
    .flatten()
}

/// Run without interposition.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let old = BUSY.with(|b| b.replace(true));
    struct D(bool);
    impl Drop for D {
        fn drop(&mut self) {
            BUSY.with(|b| b.set(self.0));
        }
    }
    let _d = D(old);
    f()
}

pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}
pub fn errno() -> i32 {
    unsafe { *__errno_location() }
}

unsafe fn s(p: *const c_char) -> String {
    if p.is_null() {
        return String::new();
    }
    let b = CStr::from_ptr(p).to_string_lossy().into_owned();
    b
}

fn absolutize(p: String, dirfd: i32) -> String {
    if p.starts_with('/') {
        return p;
    }
    let base = if dirfd == -100 {
        let mut buf = [0u8; 4096];
        let n = unsafe { syscall(nr::READLINK, b"/proc/self/cwd\0".as_ptr(), buf.as_mut_ptr(), 4096usize) };
        if n < 0 {
            return p;
        }
        String::from_utf8_lossy(&buf[..n as usize]).into_owned()
    } else {
        fd_path(dirfd)
    };
    if p.is_empty() {
        base
    } else {
        format!("{base}/{p}")
    }
}

pub fn fd_path(fd: i32) -> String {
    let mut buf = [0u8; 4096];
    let link = format!("/proc/self/fd/{fd}\0");
    let n = unsafe { syscall(nr::READLINK, link.as_ptr(), buf.as_mut_ptr(), 4096usize) };
    if n <= 0 {
        return String::new();
    }
    let p = String::from_utf8_lossy(&buf[..n as usize]).into_owned();
    match p.strip_suffix(" (deleted)") {
        Some(x) => x.to_string(),
        None => p,
    }
}

fn dispatch(e: &dyn Env, op: Op, real: impl Fn(usize) -> i64) -> i64 {
    let all = op.data.len();
    let inside = op.p1.starts_with(e.root()) || (!op.p2.is_empty() && op.p2.starts_with(e.root()));
    if !inside {
        return real(all);
    }
    match quiet(|| e.pre(&op)) {
        Answer::Go => {
            let r = real(all);
            let er = errno();
            quiet(|| e.post(&op, r));
            set_errno(er);
            r
        }
        Answer::Short(n) => {
            let r = real(n.min(all));
            let er = errno();
            quiet(|| e.post(&op, r));
            set_errno(er);
            r
        }
        Answer::Errno(x) => {
            set_errno(x);
            -1
        }
        Answer::Fake(v) => v,
    }
}

fn mk(kind: K, p1: String, p2: String, fd: i32, flags: i32) -> Op<'static> {
    Op { kind, p1, p2, fd, flags, data: &[] }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let real = |_| syscall(nr::OPENAT, -100i64, path, flags as i64, mode as i64);
    match env() {
        None => real(0) as c_int,
        Some(e) => dispatch(e, mk(K::Open, absolutize(s(path), -100), String::new(), -1, flags), real) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dfd: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let real = |_| syscall(nr::OPENAT, dfd as i64, path, flags as i64, mode as i64);
    match env() {
        None => real(0) as c_int,
        Some(e) => dispatch(e, mk(K::Open, absolutize(s(path), dfd), String::new(), -1, flags), real) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let real = |_| syscall(nr::CLOSE, fd as i64);
    match env() {
        None => real(0) as c_int,
        Some(e) => dispatch(e, mk(K::Close, fd_path(fd), String::new(), fd, 0), real) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let real = |n: usize| syscall(nr::WRITE, fd as i64, buf, n);
    match env() {
        None => real(n) as isize,
        Some(e) => {
            let data = std::slice::from_raw_parts(buf as *const u8, n);
            dispatch(e, Op { kind: K::Write, p1: fd_path(fd), p2: String::new(), fd, flags: 0, data }, real) as isize
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    let real = |n: usize| syscall(nr::PWRITE64, fd as i64, buf, n, off);
    match env() {
        None => real(n) as isize,
        Some(e) => {
            let data = std::slice::from_raw_parts(buf as *const u8, n);
            dispatch(e, Op { kind: K::Write, p1: fd_path(fd), p2: String::new(), fd, flags: 1, data }, real) as isize
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    match env() {
        Some(e) if e.want_read() => {
            let data = std::slice::from_raw_parts(buf as *const u8, n);
            dispatch(e, Op { kind: K::Read, p1: fd_path(fd), p2: String::new(), fd, flags: 0, data }, |n| {
                syscall(nr::READ, fd as i64, buf, n)
            }) as isize
        }
        _ => syscall(nr::READ, fd as i64, buf, n) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    let real = |_| syscall(nr::FSYNC, fd as i64);
    match env() {
        None => real(0) as c_int,
        Some(e) => dispatch(e, mk(K::Sync, fd_path(fd), String::new(), fd, 1), real) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    let real = |_| syscall(nr::FDATASYNC, fd as i64);
    match env() {
        None => real(0) as c_int,
        Some(e) => dispatch(e, mk(K::Sync, fd_path(fd), String::new(), fd, 0), real) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, how: c_int) -> c_int {
    match env() {
        None => syscall(nr::FLOCK, fd as i64, how as i64) as c_int,
        Some(e) => {
            let op = mk(K::Flock, fd_path(fd), String::new(), fd, how);
            if op.p1.starts_with(e.root()) {
                if let Some(r) = quiet(|| e.flock(&op, how)) {
                    return r as c_int;
                }
            }
            dispatch(e, op, |_| syscall(nr::FLOCK, fd as i64, how as i64)) as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    let real = |_| syscall(nr::FTRUNCATE, fd as i64, len);
    match env() {
        None => real(0) as c_int,
        Some(e) => dispatch(e, mk(K::Truncate, fd_path(fd), String::new(), fd, len as i32), real) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let real = |_| syscall(nr::RENAME, a, b);
    match env() {
        None => real(0) as c_int,
        Some(e) => dispatch(e, mk(K::Rename, absolutize(s(a), -100), absolutize(s(b), -100), -1, 0), real) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    let real = |_| syscall(nr::LINK, a, b);
    match env() {
        None => real(0) as c_int,
        Some(e) => dispatch(e, mk(K::Link, absolutize(s(a), -100), absolutize(s(b), -100), -1, 0), real) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, fl: c_int) -> c_int {
    let real = |_| syscall(nr::LINKAT, d1 as i64, a, d2 as i64, b, fl as i64);
    match env() {
        None => real(0) as c_int,
        Some(e) => dispatch(e, mk(K::Link, absolutize(s(a), d1), absolutize(s(b), d2), -1, 0), real) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    let real = |_| syscall(nr::SYMLINK, a, b);
    match env() {
        None => real(0) as c_int,
        Some(e) => {
            let mut op = mk(K::Symlink, absolutize(s(b), -100), String::new(), -1, 0);
            op.p2 = s(a);
            dispatch(e, op, real) as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let real = |_| syscall(nr::UNLINK, a);
    match env() {
        None => real(0) as c_int,
        Some(e) => dispatch(e, mk(K::Unlink, absolutize(s(a), -100), String::new(), -1, 0), real) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, a: *const c_char, fl: c_int) -> c_int {
    let real = |_| syscall(nr::UNLINKAT, d as i64, a, fl as i64);
    match env() {
        None => real(0) as c_int,
        Some(e) => {
            let k = if fl & 0x200 != 0 { K::Rmdir } else { K::Unlink };
            dispatch(e, mk(k, absolutize(s(a), d), String::new(), -1, 0), real) as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: u32) -> c_int {
    let real = |_| syscall(nr::MKDIR, a, mode as i64);
    match env() {
        None => real(0) as c_int,
        Some(e) => dispatch(e, mk(K::Mkdir, absolutize(s(a), -100), String::new(), -1, mode as i32), real) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    let real = |_| syscall(nr::RMDIR, a);
    match env() {
        None => real(0) as c_int,
        Some(e) => dispatch(e, mk(K::Rmdir, absolutize(s(a), -100), String::new(), -1, 0), real) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn chmod(a: *const c_char, mode: u32) -> c_int {
    let real = |_| syscall(nr::CHMOD, a, mode as i64);
    match env() {
        None => real(0) as c_int,
        Some(e) => dispatch(e, mk(K::Chmod, absolutize(s(a), -100), String::new(), -1, mode as i32), real) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: u32) -> c_int {
    let real = |_| syscall(nr::FCHMOD, fd as i64, mode as i64);
    match env() {
        None => real(0) as c_int,
        Some(e) => dispatch(e, mk(K::Chmod, fd_path(fd), String::new(), fd, mode as i32), real) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, a: *const c_char, fl: c_int, mask: u32, out: *mut c_void) -> c_int {
    let real = |_| syscall(nr::STATX, d as i64, a, fl as i64, mask as i64, out);
    match env() {
        Some(e) if e.want_stat() && !a.is_null() && *a != 0 => {
            dispatch(e, mk(K::Stat, absolutize(s(a), d), String::new(), -1, 0), real) as c_int
        }
        _ => real(0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(fi: c_int, oi: *mut i64, fo: c_int, oo: *mut i64, n: usize, fl: u32) -> isize {
    let real = |_| syscall(nr::COPY_FILE_RANGE, fi as i64, oi, fo as i64, oo, n, fl as i64);
    match env() {
        None => real(0) as isize,
        Some(e) => {
            let p = fd_path(fo);
            if p.starts_with(e.root()) {
                // make std fall back to plain read/write, which we see
                set_errno(38);
                return -1;
            }
            real(0) as isize
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(fo: c_int, fi: c_int, off: *mut i64, n: usize) -> isize {
    if let Some(e) = env() {
        if fd_path(fo).starts_with(e.root()) {
            set_errno(38);
            return -1;
        }
    }
    syscall(nr::SENDFILE, fo as i64, fi as i64, off, n) as isize
}

// ---- time -----------------------------------------------------------------------------

/// Offset of the virtual wall clock, in seconds, and a switch that makes sleeps instantaneous.
pub static CLOCK_OFFSET: AtomicI64 = AtomicI64::new(0);
pub static NO_SLEEP: AtomicI64 = AtomicI64::new(0);
/// When non-zero, the wall clock stands still at this many seconds since the epoch (+ offset).
pub static CLOCK_FIXED: AtomicI64 = AtomicI64::new(0);
pub static SLEEPS: AtomicI64 = AtomicI64::new(0);

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut [i64; 2]) -> c_int {
    let r = syscall(nr::CLOCK_GETTIME, clk as i64, ts) as c_int;
    if clk == 0 && r == 0 {
        let fixed = CLOCK_FIXED.load(Ordering::Relaxed);
        if fixed != 0 {
            (*ts)[0] = fixed;
            (*ts)[1] = 0;
        }
        (*ts)[0] += CLOCK_OFFSET.load(Ordering::Relaxed);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const [i64; 2], b: *mut [i64; 2]) -> c_int {
    SLEEPS.fetch_add(1, Ordering::Relaxed);
    if NO_SLEEP.load(Ordering::Relaxed) != 0 {
        return 0;
    }
    syscall(nr::NANOSLEEP, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: c_int, f: c_int, a: *const [i64; 2], b: *mut [i64; 2]) -> c_int {
    SLEEPS.fetch_add(1, Ordering::Relaxed);
    if NO_SLEEP.load(Ordering::Relaxed) != 0 {
        return 0;
    }
    let r = syscall(nr::CLOCK_NANOSLEEP, c as i64, f as i64, a, b);
    if r < 0 { errno() } else { 0 }
}
pub fn real_usleep(us: u64) {
    let ts = [(us / 1_000_000) as i64, ((us % 1_000_000) * 1000) as i64];
    unsafe { syscall(nr::NANOSLEEP, &ts as *const _, std::ptr::null::<u8>()) };
}

// ---- randomness: hash-map iteration order is a harness decision ---------------------------

pub static RANDOM_SEED: AtomicI64 = AtomicI64::new(0);
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, fl: u32) -> isize {
    let seed = RANDOM_SEED.load(Ordering::Relaxed);
    if seed == 0 {
        return syscall(nr::GETRANDOM, buf, n, fl as i64) as isize;
    }
    let mut x = seed as u64;
    for i in 0..n {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *buf.add(i) = x as u8;
    }
    n as isize
}
