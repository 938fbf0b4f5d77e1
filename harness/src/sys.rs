//! Advisory file locks: probes on separate file descriptions, and a `flock`
//! that reports when a thread is about to wait and can delay threads, so that
//! schedules around locks are chosen by the harness, not by luck.

use crate::gen::Sm;
use std::cell::RefCell;
use std::fs::File;
use std::os::unix::io::AsRawFd;
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

/// A failing system call of this thread.
#[derive(Default, Clone, Debug)]
pub struct FaultPlan {
    /// Which call fails, counted from zero; none: calls are only counted.
    pub at: Option<usize>,
    /// All later calls fail as well.
    pub on: bool,
    /// Reads and writes transfer at most this many bytes (0: no limit).
    pub short: usize,
    pub errno: i32,
    /// Calls so far, by name.
    pub calls: Vec<&'static str>,
    pub hit: bool,
}

thread_local! {
    static PLAN: RefCell<Option<FaultPlan>> = const { RefCell::new(None) };
}

/// Runs `f` with system calls of this thread failing as planned; returns the
/// plan with what happened.
pub fn with_faults<X>(plan: FaultPlan, f: impl FnOnce() -> X) -> (X, FaultPlan) {
    // The standard library finds out whether there is a statx by a failing call.
    let _ = std::fs::metadata("/nonexistent/file");
    PLAN.with(|p| *p.borrow_mut() = Some(plan));
    let x = f();
    let plan = PLAN.with(|p| p.borrow_mut().take()).unwrap();
    (x, plan)
}

/// Something to run before one of the system calls of this thread.
struct Step {
    at: usize,
    count: usize,
    f: Option<Box<dyn FnOnce()>>,
}

thread_local! {
    static STEP: RefCell<Option<Step>> = const { RefCell::new(None) };
}

/// Runs `a`, and `b` on another thread from just before the system call of
/// number `at` of `a`, which goes on when `b` has ended or waits for a lock. If
/// there is no such call, `b` runs afterwards. Returns the number of calls of
/// `a`, and whether `b` had to wait.
pub fn with_step<A, B: Send>(at: usize, a: impl FnOnce() -> A, b: impl FnOnce() -> B + Send) -> (A, B, usize, bool) {
    use std::sync::mpsc::{channel, RecvTimeoutError};
    let _ = std::fs::metadata("/nonexistent/file");
    let waits = Arc::new(AtomicUsize::new(0));
    std::thread::scope(|s| {
        let (go, start) = channel::<()>();
        let (end, ended) = channel::<()>();
        let w = waits.clone();
        let b = s.spawn(move || {
            let _ = start.recv();
            set_hook(LockHook { waits: Some(w), ..Default::default() });
            let x = b();
            set_hook(LockHook::default());
            drop(end);
            x
        });
        let (go2, w) = (go.clone(), waits.clone());
        let f = Box::new(move || {
            let _ = go2.send(());
            while let Err(RecvTimeoutError::Timeout) = ended.recv_timeout(std::time::Duration::from_micros(50)) {
                if w.load(Ordering::SeqCst) > 0 {
                    break;
                }
            }
        });
        STEP.with(|p| *p.borrow_mut() = Some(Step { at, count: 0, f: Some(f) }));
        let x = a();
        let n = STEP.with(|p| p.borrow_mut().take()).map_or(0, |s| s.count);
        let _ = go.send(());
        let y = b.join().unwrap_or_else(|e| std::panic::resume_unwind(e));
        (x, y, n, waits.load(Ordering::SeqCst) > 0)
    })
}

fn step() {
    let f = STEP.try_with(|p| {
        let mut p = p.try_borrow_mut().ok()?;
        let p = p.as_mut()?;
        p.count += 1;
        if p.count - 1 == p.at { p.f.take() } else { None }
    });
    if let Ok(Some(f)) = f {
        // SAFETY: errno of this thread.
        let e = unsafe { *libc::__errno_location() };
        f();
        unsafe { *libc::__errno_location() = e };
    }
}

thread_local! {
    static EACH: RefCell<Option<Box<dyn FnMut(&'static str)>>> = RefCell::new(None);
}

/// Calls a function before each intercepted call of this thread, with its name.
pub fn with_each<X>(f: impl FnMut(&'static str), a: impl FnOnce() -> X) -> X {
    let f: Box<dyn FnMut(&'static str) + '_> = Box::new(f);
    // SAFETY: the function is dropped before this returns; `a` does not unwind
    // past the guard without clearing it.
    let f: Box<dyn FnMut(&'static str)> = unsafe { std::mem::transmute(f) };
    struct Clear;
    impl Drop for Clear {
        fn drop(&mut self) {
            EACH.with(|p| p.borrow_mut().take());
        }
    }
    let _clear = Clear;
    EACH.with(|p| *p.borrow_mut() = Some(f));
    a()
}

fn each(name: &'static str) {
    // Not re-entrantly.
    let f = EACH.try_with(|p| p.try_borrow_mut().ok().and_then(|mut p| p.take())).ok().flatten();
    if let Some(mut f) = f {
        // SAFETY: errno of this thread.
        let e = unsafe { *libc::__errno_location() };
        f(name);
        unsafe { *libc::__errno_location() = e };
        EACH.with(|p| *p.borrow_mut() = Some(f));
    }
}

/// Should the call fail?
fn fails(name: &'static str) -> bool {
    each(name);
    step();
    let e = PLAN.try_with(|p| {
        let mut p = p.try_borrow_mut().ok()?;
        let p = p.as_mut()?;
        let n = p.calls.len();
        p.calls.push(name);
        if p.at.map_or(false, |at| n == at || p.on && n > at) {
            p.hit = true;
            return Some(p.errno);
        }
        None
    });
    match e {
        Ok(Some(e)) => {
            // SAFETY: errno of this thread.
            unsafe { *libc::__errno_location() = e };
            true
        }
        _ => false,
    }
}

fn limit(n: libc::size_t) -> libc::size_t {
    let short = PLAN.try_with(|p| p.try_borrow().ok().and_then(|p| p.as_ref().map(|p| p.short))).ok().flatten().unwrap_or(0);
    if short > 0 { n.min(short) } else { n }
}

#[derive(Default)]
pub struct LockHook {
    /// Counts the waits of this thread for a lock held by others.
    pub waits: Option<Arc<AtomicUsize>>,
    /// Random pauses around lock operations.
    pub delay: Option<Sm>,
    /// Called before a lock operation (not re-entrantly), with its flags.
    pub before: Option<Box<dyn FnMut(libc::c_int)>>,
}

thread_local! {
    static HOOK: RefCell<LockHook> = RefCell::new(LockHook::default());
}

pub fn set_hook(h: LockHook) {
    HOOK.with(|x| *x.borrow_mut() = h);
}

fn raw(fd: libc::c_int, op: libc::c_int) -> libc::c_int {
    // SAFETY: a plain system call on integers.
    unsafe { libc::syscall(libc::SYS_flock, fd, op) as libc::c_int }
}

fn again() -> bool {
    std::io::Error::last_os_error().raw_os_error() == Some(libc::EWOULDBLOCK)
}

fn pause() {
    HOOK.with(|h| {
        if let Ok(mut h) = h.try_borrow_mut() {
            if let Some(r) = &mut h.delay {
                match r.below(6) {
                    0 => std::thread::sleep(std::time::Duration::from_micros(r.below(300))),
                    1 | 2 => std::thread::yield_now(),
                    _ => {}
                }
            }
        }
    });
}

/// Takes the place of the C library's function for everything linked into
/// this binary; semantics are the kernel's.
#[no_mangle]
pub extern "C" fn flock(fd: libc::c_int, op: libc::c_int) -> libc::c_int {
    let before = HOOK.with(|h| h.try_borrow_mut().ok().and_then(|mut h| h.before.take()));
    if let Some(mut f) = before {
        f(op);
        HOOK.with(|h| h.borrow_mut().before = Some(f));
    }
    pause();
    if fails("flock") {
        return -1;
    }
    let mut r = raw(fd, op | libc::LOCK_NB);
    if r != 0 && op & libc::LOCK_NB == 0 && again() {
        let waits = HOOK.with(|h| h.try_borrow().ok().and_then(|h| h.waits.clone()));
        if let Some(w) = waits {
            w.fetch_add(1, Ordering::SeqCst);
        }
        r = raw(fd, op);
    }
    if r == 0 {
        pause();
    }
    r
}

// Also in place of the C library's functions: what may go on between finding a
// file and opening or removing it.

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    pause();
    if fails("open") {
        return -1;
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as libc::c_int
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const libc::c_char) -> libc::c_int {
    pause();
    if fails("unlink") {
        return -1;
    }
    libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, path, 0) as libc::c_int
}

#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const libc::c_char) -> libc::c_int {
    pause();
    if fails("rmdir") {
        return -1;
    }
    libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, path, libc::AT_REMOVEDIR) as libc::c_int
}

#[no_mangle]
pub unsafe extern "C" fn rename(from: *const libc::c_char, to: *const libc::c_char) -> libc::c_int {
    pause();
    if fails("rename") {
        return -1;
    }
    libc::syscall(libc::SYS_renameat2, libc::AT_FDCWD, from, libc::AT_FDCWD, to, 0) as libc::c_int
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const libc::c_char, mode: libc::mode_t) -> libc::c_int {
    pause();
    if fails("mkdir") {
        return -1;
    }
    libc::syscall(libc::SYS_mkdirat, libc::AT_FDCWD, path, mode) as libc::c_int
}

#[no_mangle]
pub unsafe extern "C" fn statx(fd: libc::c_int, path: *const libc::c_char, flags: libc::c_int, mask: libc::c_uint, out: *mut libc::c_void) -> libc::c_int {
    if fails("statx") {
        return -1;
    }
    libc::syscall(libc::SYS_statx, fd, path, flags, mask, out) as libc::c_int
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: libc::c_int, len: libc::off64_t) -> libc::c_int {
    if fails("ftruncate") {
        return -1;
    }
    libc::syscall(libc::SYS_ftruncate, fd, len) as libc::c_int
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, n: libc::size_t) -> libc::ssize_t {
    if fails("read") {
        return -1;
    }
    libc::syscall(libc::SYS_read, fd, buf, limit(n)) as libc::ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, n: libc::size_t) -> libc::ssize_t {
    if fails("write") {
        return -1;
    }
    libc::syscall(libc::SYS_write, fd, buf, limit(n)) as libc::ssize_t
}

fn next(name: &'static std::ffi::CStr, at: &std::sync::atomic::AtomicPtr<libc::c_void>) -> *mut libc::c_void {
    let mut p = at.load(Ordering::Relaxed);
    if p.is_null() {
        // SAFETY: looks up a symbol of the C library.
        p = unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) };
        assert!(!p.is_null());
        at.store(p, Ordering::Relaxed);
    }
    p
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const libc::c_char) -> *mut libc::DIR {
    static AT: std::sync::atomic::AtomicPtr<libc::c_void> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
    if fails("opendir") {
        return std::ptr::null_mut();
    }
    let f: unsafe extern "C" fn(*const libc::c_char) -> *mut libc::DIR = std::mem::transmute(next(c"opendir", &AT));
    f(path)
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(dir: *mut libc::DIR) -> *mut libc::dirent64 {
    static AT: std::sync::atomic::AtomicPtr<libc::c_void> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
    if fails("readdir") {
        return std::ptr::null_mut();
    }
    let f: unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = std::mem::transmute(next(c"readdir64", &AT));
    f(dir)
}

/// A lock held by the harness through its own open file description.
pub struct Held(pub File);

pub fn hold(path: &Path, exclusive: bool) -> std::io::Result<Held> {
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path)?;
    if raw(f.as_raw_fd(), if exclusive { libc::LOCK_EX } else { libc::LOCK_SH } | libc::LOCK_NB) != 0 {
        return Err(std::io::Error::last_os_error());
    }
    Ok(Held(f))
}

impl Drop for Held {
    fn drop(&mut self) {
        raw(self.0.as_raw_fd(), libc::LOCK_UN);
    }
}

/// Could another party lock the file now?
pub fn lockable(path: &Path, exclusive: bool) -> std::io::Result<bool> {
    match hold(path, exclusive) {
        Ok(_) => Ok(true),
        Err(e) if e.raw_os_error() == Some(libc::EWOULDBLOCK) => Ok(false),
        Err(e) => Err(e),
    }
}
