//! The system calls a Rust program makes for files, interposed in the checker binary: files under
//! the scratch root are tracked; a plan decides which of their calls fail, fall short or are
//! interrupted. With a hook every tracked call also is a scheduling point.
#![allow(clippy::missing_safety_doc)]
use std::ffi::{c_char, c_int, c_long, c_void, CStr};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicPtr, AtomicU64, AtomicU8, Ordering::SeqCst};
use std::sync::Mutex;

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}

pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const ENOSPC: i32 = 28;
pub const EMFILE: i32 = 24;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    /// open for reading
    Open,
    /// open for writing
    Create,
    Read,
    Write,
    /// directory creation, removal, renaming, truncation, sync
    Other,
    /// lseek, stat
    Seek,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Go,
    Fail(i32),
    /// transfer at most that many bytes
    Short(usize),
}

/// Decides about call number n (from 0, of this kind) on the named file
pub type Plan = Box<dyn Fn(Op, u64, &str) -> Act + Send>;

const FDS: usize = 4096;
static SLOT: [AtomicU8; FDS] = [const { AtomicU8::new(0) }; FDS];
static PLAN: Mutex<Option<Plan>> = Mutex::new(None);
static PLANNED: AtomicBool = AtomicBool::new(false);
static NAMES: Mutex<Vec<String>> = Mutex::new(Vec::new());
static COUNT: [AtomicU64; 6] = [const { AtomicU64::new(0) }; 6];
static PREFIX: Mutex<String> = Mutex::new(String::new());
/// relative paths are tracked too: the current directory is below the scratch root
pub static RELATIVE: AtomicBool = AtomicBool::new(false);
static ON: AtomicBool = AtomicBool::new(false);
/// fn(slot, is_write)
static HOOK: AtomicPtr<()> = AtomicPtr::new(std::ptr::null_mut());

pub fn init(prefix: &str, hook: Option<fn(usize, bool)>) {
    *PREFIX.lock().unwrap() = prefix.to_string();
    if let Some(h) = hook {
        HOOK.store(h as *mut (), SeqCst);
    }
    ON.store(true, SeqCst);
}

pub fn set_plan(p: Option<Plan>) {
    for c in COUNT.iter() {
        c.store(0, SeqCst);
    }
    PLANNED.store(p.is_some(), SeqCst);
    *PLAN.lock().unwrap_or_else(|e| e.into_inner()) = p;
}

/// number of tracked calls since the plan was set: open, create, read, write, other, seek
pub fn counts() -> [u64; 6] {
    [0, 1, 2, 3, 4, 5].map(|i| COUNT[i].load(SeqCst))
}

/// paths created, opened for writing, renamed or removed since `watch`, by anybody in the process
static WATCHED: Mutex<Option<Vec<String>>> = Mutex::new(None);
static WATCHING: AtomicBool = AtomicBool::new(false);

pub fn watch() {
    *WATCHED.lock().unwrap_or_else(|e| e.into_inner()) = Some(vec![]);
    WATCHING.store(true, SeqCst);
}

pub fn watched() -> Vec<String> {
    WATCHING.store(false, SeqCst);
    WATCHED.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default()
}

unsafe fn seen(path: *const c_char) {
    if WATCHING.load(SeqCst) && !path.is_null() {
        let p = CStr::from_ptr(path).to_string_lossy().to_string();
        if let Some(v) = WATCHED.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
            v.push(p);
        }
    }
}

fn hook(slot: usize, w: bool) {
    let h = HOOK.load(SeqCst);
    if !h.is_null() {
        let f: fn(usize, bool) = unsafe { std::mem::transmute(h) };
        f(slot, w)
    }
}

/// Leaves the plan and its counts alone while `f` runs.
pub fn undisturbed<T>(f: impl FnOnce() -> T) -> T {
    PAUSED.store(true, SeqCst);
    let r = f();
    PAUSED.store(false, SeqCst);
    r
}
static PAUSED: AtomicBool = AtomicBool::new(false);

fn decide(op: Op, slot: usize) -> Act {
    if PAUSED.load(SeqCst) {
        return Act::Go;
    }
    let n = COUNT[op as usize].fetch_add(1, SeqCst);
    if !PLANNED.load(SeqCst) {
        return Act::Go;
    }
    let name = NAMES.lock().unwrap_or_else(|e| e.into_inner()).get(slot - 1).cloned().unwrap_or_default();
    match PLAN.lock().unwrap_or_else(|e| e.into_inner()).as_ref() {
        Some(p) => p(op, n, &name),
        None => Act::Go,
    }
}

fn slot_of(path: &str) -> usize {
    let name = path.rsplit('/').next().unwrap_or("").to_string();
    let mut v = NAMES.lock().unwrap_or_else(|e| e.into_inner());
    let i = match v.iter().position(|x| *x == name) {
        Some(i) => i,
        None => {
            if v.len() < 250 {
                v.push(name);
                v.len() - 1
            } else {
                249
            }
        }
    };
    i + 1
}

unsafe fn tracked(path: *const c_char) -> Option<usize> {
    if !ON.load(SeqCst) || path.is_null() {
        return None;
    }
    let p = CStr::from_ptr(path).to_str().ok()?;
    {
        let pre = PREFIX.lock().unwrap_or_else(|e| e.into_inner());
        let relative = !p.starts_with('/') && RELATIVE.load(SeqCst);
        if pre.is_empty() || !(relative || p.starts_with(pre.as_str())) {
            return None;
        }
    }
    if p.contains("/status-") || p.contains("/harness") {
        return None;
    }
    Some(slot_of(p))
}

unsafe fn fail(e: i32) -> c_int {
    *__errno_location() = e;
    -1
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    const AT_FDCWD: c_long = -100;
    let t = tracked(path);
    if let Some(s) = t {
        let w = flags & 3 != 0;
        hook(s, w);
        match decide(if w { Op::Create } else { Op::Open }, s) {
            Act::Fail(e) => return fail(e),
            _ => {}
        }
    }
    const O_TMPFILE: c_int = 0x410000;
    if flags & 3 != 0 && flags & O_TMPFILE != O_TMPFILE {
        seen(path);
    }
    let fd = syscall(257, AT_FDCWD, path, flags as c_long, mode as c_long) as c_int;
    if fd >= 0 && (fd as usize) < FDS {
        SLOT[fd as usize].store(t.unwrap_or(0) as u8, SeqCst);
        if t.is_some() {
            PEAK.fetch_max(OPEN.fetch_add(1, SeqCst) + 1, SeqCst);
        }
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= 0 && (fd as usize) < FDS {
        if SLOT[fd as usize].swap(0, SeqCst) != 0 {
            OPEN.fetch_sub(1, SeqCst);
        }
    }
    syscall(3, fd as c_long) as c_int
}

static OPEN: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);

/// The most tracked files that are open at a time while `f` runs, above those that are open before
pub fn peak_open<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let base = OPEN.load(SeqCst);
    PEAK.store(base, SeqCst);
    let r = f();
    (r, PEAK.load(SeqCst) - base)
}

fn slot(fd: c_int) -> usize {
    if fd >= 0 && (fd as usize) < FDS && ON.load(SeqCst) {
        SLOT[fd as usize].load(SeqCst) as usize
    } else {
        0
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let mut n = n;
    let s = slot(fd);
    if s > 0 {
        hook(s, false);
        match decide(Op::Read, s) {
            Act::Fail(e) => return fail(e) as isize,
            Act::Short(k) => n = n.min(k),
            Act::Go => {}
        }
    }
    syscall(0, fd as c_long, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    let mut n = n;
    let s = slot(fd);
    if s > 0 {
        hook(s, false);
        match decide(Op::Read, s) {
            Act::Fail(e) => return fail(e) as isize,
            Act::Short(k) => n = n.min(k),
            Act::Go => {}
        }
    }
    syscall(17, fd as c_long, buf, n, off) as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let mut n = n;
    let s = slot(fd);
    if s > 0 {
        hook(s, true);
        match decide(Op::Write, s) {
            Act::Fail(e) => return fail(e) as isize,
            Act::Short(k) => n = n.min(k),
            Act::Go => {}
        }
    }
    syscall(1, fd as c_long, buf, n) as isize
}

#[repr(C)]
pub struct IoVec {
    base: *mut c_void,
    len: usize,
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const IoVec, n: c_int) -> isize {
    if slot(fd) == 0 {
        return syscall(20, fd as c_long, iov, n as c_long) as isize;
    }
    // the first piece that is not empty; a short result is legal
    for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.len > 0 {
            return write(fd, v.base, v.len);
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const IoVec, n: c_int) -> isize {
    if slot(fd) == 0 {
        return syscall(19, fd as c_long, iov, n as c_long) as isize;
    }
    for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.len > 0 {
            return read(fd, v.base, v.len);
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    let mut n = n;
    let s = slot(fd);
    if s > 0 {
        hook(s, true);
        match decide(Op::Write, s) {
            Act::Fail(e) => return fail(e) as isize,
            Act::Short(k) => n = n.min(k),
            Act::Go => {}
        }
    }
    syscall(18, fd as c_long, buf, n, off) as isize
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    let s = slot(fd);
    if s > 0 {
        if let Act::Fail(e) = decide(Op::Seek, s) {
            return fail(e) as i64;
        }
    }
    syscall(8, fd as c_long, off, whence as c_long)
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: u32, out: *mut c_void) -> c_int {
    let s = if path.is_null() || *path == 0 { slot(dir) } else { tracked(path).unwrap_or(0) };
    if s > 0 {
        if let Act::Fail(e) = decide(Op::Seek, s) {
            return fail(e);
        }
    }
    syscall(332, dir as c_long, path, flags as c_long, mask as c_long, out) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    let s = slot(fd);
    if s > 0 {
        if let Act::Fail(e) = decide(Op::Other, s) {
            return fail(e);
        }
    }
    syscall(74, fd as c_long) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    let s = slot(fd);
    if s > 0 {
        if let Act::Fail(e) = decide(Op::Other, s) {
            return fail(e);
        }
    }
    syscall(75, fd as c_long) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    let s = slot(fd);
    if s > 0 {
        if let Act::Fail(e) = decide(Op::Other, s) {
            return fail(e);
        }
    }
    syscall(77, fd as c_long, n) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if let Some(s) = tracked(b) {
        hook(s, true);
        if let Act::Fail(e) = decide(Op::Other, s) {
            return fail(e);
        }
    }
    seen(a);
    seen(b);
    syscall(82, a, b) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: u32) -> c_int {
    if let Some(s) = tracked(a) {
        if PLANNED.load(SeqCst) {
            if let Act::Fail(e) = decide(Op::Other, s) {
                return fail(e);
            }
        }
    }
    let r = syscall(83, a, mode as c_long) as c_int;
    if r == 0 {
        seen(a);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    seen(a);
    syscall(87, a) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    seen(a);
    syscall(84, a) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, a: *const c_char, flags: c_int) -> c_int {
    seen(a);
    syscall(263, dir as c_long, a, flags as c_long) as c_int
}
