//! System call interposers and fault injection.
//!
//! With the `interpose` feature this binary defines the libc file entry
//! points itself, so calls made by the standard library and by the crates
//! under test pass through `event`. Only descriptors opened below a watched
//! directory are reported; everything else goes straight to the kernel.
use std::cell::Cell;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicU8, Ordering::SeqCst};
use std::sync::{Arc, Mutex, RwLock};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    Open, Read, Pread, Write, Pwrite, Seek, Truncate, Mmap, Munmap, Advise, Close, Sync, Copy, Dup,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Phase { Before, After(i64) }

#[derive(Clone, Debug)]
pub struct Event {
    pub op: Op,
    pub fd: i32,
    pub len: usize,
    pub off: i64,
    pub phase: Phase,
    /// Data about to be written (writes only).
    pub data: Option<(usize, usize)>,
    pub path: Option<PathBuf>,
    pub flags: i32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Action {
    Go,
    Fail(i32),
    Short(usize),
    /// The hook did it; this is the result.
    Done(i64),
}

pub type Hook = Arc<dyn Fn(&Event) -> Action + Send + Sync>;

const NFD: usize = 8192;
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU8 = AtomicU8::new(0);
static WATCHED_FD: [AtomicU8; NFD] = [Z; NFD];
static ACTIVE: AtomicBool = AtomicBool::new(false);
static EVENTS: AtomicU64 = AtomicU64::new(0);
static DIRS: RwLock<Vec<PathBuf>> = RwLock::new(Vec::new());
static HOOK: RwLock<Option<Hook>> = RwLock::new(None);
static MAPS: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());

thread_local! {
    static QUIET: Cell<u32> = const { Cell::new(0) };
}

/// Run without reporting this thread's calls.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) { QUIET.with(|q| q.set(q.get() - 1)); }
    }
    QUIET.with(|q| q.set(q.get() + 1));
    let _g = G;
    f()
}

pub fn is_quiet() -> bool { QUIET.try_with(|q| q.get() > 0).unwrap_or(true) }

/// Total reported events so far.
pub fn events() -> u64 { EVENTS.load(SeqCst) }

pub fn live_maps() -> Vec<(usize, usize)> { MAPS.lock().unwrap().clone() }

/// Watch everything opened below `dirs` from now on, reporting to `hook`
/// until the guard drops.
pub fn watch(dirs: &[&Path], hook: Hook) -> Watch {
    quiet(|| {
        *DIRS.write().unwrap() = dirs.iter().map(|p| p.to_path_buf()).collect();
        *HOOK.write().unwrap() = Some(hook);
        ACTIVE.store(true, SeqCst);
    });
    Watch(())
}

/// Replace the hook while watching.
pub fn set_hook(hook: Hook) { quiet(|| *HOOK.write().unwrap() = Some(hook)) }

pub struct Watch(());

impl Drop for Watch {
    fn drop(&mut self) {
        quiet(|| {
            ACTIVE.store(false, SeqCst);
            DIRS.write().unwrap().clear();
            *HOOK.write().unwrap() = None;
        })
    }
}

#[cfg(feature = "interpose")]
mod shim {
    use super::*;
    use libc::{c_char, c_int, c_long, c_void, off64_t, off_t, size_t, ssize_t};
    use std::ffi::CStr;
    use std::os::unix::ffi::OsStrExt;

    fn on() -> bool { ACTIVE.load(SeqCst) && !is_quiet() }

    fn watched(fd: c_int) -> bool {
        fd >= 0 && (fd as usize) < NFD && WATCHED_FD[fd as usize].load(SeqCst) != 0
    }

    fn set_watched(fd: c_int, w: bool) {
        if fd >= 0 && (fd as usize) < NFD { WATCHED_FD[fd as usize].store(w as u8, SeqCst); }
    }

    fn below(path: &Path) -> bool {
        DIRS.read().unwrap().iter().any(|d| path.starts_with(d))
    }

    fn fire(e: Event) -> Action {
        EVENTS.fetch_add(1, SeqCst);
        // Errno belongs to the caller; the hook must not disturb it.
        let keep = unsafe { *libc::__errno_location() };
        let a = quiet(|| {
            let h = HOOK.read().unwrap().clone();
            match h { Some(h) => h(&e), None => Action::Go }
        });
        unsafe { *libc::__errno_location() = keep; }
        a
    }

    fn ev(op: Op, fd: c_int, len: usize, off: i64, phase: Phase) -> Event {
        Event { op, fd, len, off, phase, data: None, path: None, flags: 0 }
    }

    fn fail(e: i32) -> i64 {
        unsafe { *libc::__errno_location() = e; }
        -1
    }

    /// Common path: consult the hook, perform, report the result.
    fn around(mut e: Event, call: impl FnOnce(usize) -> i64) -> i64 {
        let r = match fire(e.clone()) {
            Action::Go => call(e.len),
            Action::Fail(x) => fail(x),
            Action::Done(r) => r,
            Action::Short(n) => { let n = n.min(e.len); call(n) }
        };
        e.phase = Phase::After(r);
        fire(e);
        r
    }

    unsafe fn do_open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
        let raw = |_l: usize| libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode) as i64;
        if !on() { return raw(0) as c_int; }
        let p = quiet(|| PathBuf::from(std::ffi::OsStr::from_bytes(CStr::from_ptr(path).to_bytes())));
        if !quiet(|| below(&p)) { return raw(0) as c_int; }
        let mut e = ev(Op::Open, -1, 0, 0, Phase::Before);
        e.flags = flags;
        e.path = Some(p);
        let a = fire(e.clone());
        let r = match a { Action::Fail(x) => fail(x), _ => raw(0) };
        if r >= 0 { set_watched(r as c_int, true); }
        e.fd = r as i32;
        e.phase = Phase::After(r);
        fire(e);
        r as c_int
    }

    #[no_mangle]
    pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int { do_open(path, flags, mode) }
    #[no_mangle]
    pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int { do_open(path, flags, mode) }

    #[no_mangle]
    pub unsafe extern "C" fn close(fd: c_int) -> c_int {
        let w = watched(fd);
        if w {
            set_watched(fd, false);
            if on() { fire(ev(Op::Close, fd, 0, 0, Phase::Before)); }
        }
        libc::syscall(libc::SYS_close, fd) as c_int
    }

    #[no_mangle]
    pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
        if !watched(fd) || !on() { return libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t; }
        around(ev(Op::Read, fd, n, -1, Phase::Before), |n| libc::syscall(libc::SYS_read, fd, buf, n) as i64) as ssize_t
    }

    #[no_mangle]
    pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
        if !watched(fd) || !on() { return libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t; }
        let mut e = ev(Op::Write, fd, n, -1, Phase::Before);
        e.data = Some((buf as usize, n));
        around(e, |n| libc::syscall(libc::SYS_write, fd, buf, n) as i64) as ssize_t
    }

    unsafe fn do_pread(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
        if !watched(fd) || !on() { return libc::syscall(libc::SYS_pread64, fd, buf, n, off) as ssize_t; }
        around(ev(Op::Pread, fd, n, off, Phase::Before), |n| libc::syscall(libc::SYS_pread64, fd, buf, n, off) as i64) as ssize_t
    }
    #[no_mangle]
    pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t { do_pread(fd, buf, n, off) }
    #[no_mangle]
    pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t { do_pread(fd, buf, n, off) }

    unsafe fn do_pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
        if !watched(fd) || !on() { return libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t; }
        let mut e = ev(Op::Pwrite, fd, n, off, Phase::Before);
        e.data = Some((buf as usize, n));
        around(e, |n| libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as i64) as ssize_t
    }
    #[no_mangle]
    pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t { do_pwrite(fd, buf, n, off) }
    #[no_mangle]
    pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t { do_pwrite(fd, buf, n, off) }

    unsafe fn iov_len(iov: *const libc::iovec, cnt: c_int) -> usize {
        (0..cnt as isize).map(|i| (*iov.offset(i)).iov_len).sum()
    }

    #[no_mangle]
    pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
        if !watched(fd) || !on() { return libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t; }
        let len = iov_len(iov, cnt);
        around(ev(Op::Write, fd, len, -1, Phase::Before), |n| {
            if n == len { libc::syscall(libc::SYS_writev, fd, iov, cnt) as i64 }
            else {
                let f = &*iov;
                libc::syscall(libc::SYS_write, fd, f.iov_base, n.min(f.iov_len)) as i64
            }
        }) as ssize_t
    }

    #[no_mangle]
    pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
        if !watched(fd) || !on() { return libc::syscall(libc::SYS_readv, fd, iov, cnt) as ssize_t; }
        let len = iov_len(iov, cnt);
        around(ev(Op::Read, fd, len, -1, Phase::Before), |n| {
            if n == len { libc::syscall(libc::SYS_readv, fd, iov, cnt) as i64 }
            else {
                let f = &*iov;
                libc::syscall(libc::SYS_read, fd, f.iov_base, n.min(f.iov_len)) as i64
            }
        }) as ssize_t
    }

    unsafe fn do_seek(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
        if !watched(fd) || !on() { return libc::syscall(libc::SYS_lseek, fd, off, wh) as off64_t; }
        let mut e = ev(Op::Seek, fd, 0, off, Phase::Before);
        e.flags = wh;
        around(e, |_| libc::syscall(libc::SYS_lseek, fd, off, wh) as i64)
    }
    #[no_mangle]
    pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t { do_seek(fd, off, wh) }
    #[no_mangle]
    pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, wh: c_int) -> off_t { do_seek(fd, off, wh) }

    unsafe fn do_trunc(fd: c_int, len: off64_t) -> c_int {
        if !watched(fd) || !on() { return libc::syscall(libc::SYS_ftruncate, fd, len) as c_int; }
        around(ev(Op::Truncate, fd, 0, len, Phase::Before), |_| libc::syscall(libc::SYS_ftruncate, fd, len) as i64) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int { do_trunc(fd, len) }
    #[no_mangle]
    pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int { do_trunc(fd, len) }

    #[no_mangle]
    pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
        if !watched(fd) || !on() { return libc::syscall(libc::SYS_fsync, fd) as c_int; }
        around(ev(Op::Sync, fd, 0, 0, Phase::Before), |_| libc::syscall(libc::SYS_fsync, fd) as i64) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
        if !watched(fd) || !on() { return libc::syscall(libc::SYS_fdatasync, fd) as c_int; }
        around(ev(Op::Sync, fd, 0, 0, Phase::Before), |_| libc::syscall(libc::SYS_fdatasync, fd) as i64) as c_int
    }

    // Variadic in C; on x86-64 a fixed third argument is passed the same way.
    unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
        let r = libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int;
        if r >= 0 && (cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC) && watched(fd) {
            set_watched(r, true);
            if on() { fire(ev(Op::Dup, r, 0, fd as i64, Phase::After(r as i64))); }
        }
        r
    }
    #[no_mangle]
    pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int { do_fcntl(fd, cmd, arg) }
    #[no_mangle]
    pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int { do_fcntl(fd, cmd, arg) }

    #[no_mangle]
    pub unsafe extern "C" fn sendfile64(out: c_int, inp: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
        if !(watched(out) || watched(inp)) || !on() { return libc::syscall(libc::SYS_sendfile, out, inp, off, n) as ssize_t; }
        let fd = if watched(out) { out } else { inp };
        around(ev(Op::Copy, fd, n, -1, Phase::Before), |n| libc::syscall(libc::SYS_sendfile, out, inp, off, n) as i64) as ssize_t
    }
    #[no_mangle]
    pub unsafe extern "C" fn copy_file_range(inp: c_int, oi: *mut off64_t, out: c_int, oo: *mut off64_t, n: size_t, fl: libc::c_uint) -> ssize_t {
        if !(watched(out) || watched(inp)) || !on() { return libc::syscall(libc::SYS_copy_file_range, inp, oi, out, oo, n, fl) as ssize_t; }
        let fd = if watched(out) { out } else { inp };
        around(ev(Op::Copy, fd, n, -1, Phase::Before), |n| libc::syscall(libc::SYS_copy_file_range, inp, oi, out, oo, n, fl) as i64) as ssize_t
    }

    unsafe fn do_mmap(a: *mut c_void, len: size_t, prot: c_int, fl: c_int, fd: c_int, off: off64_t) -> *mut c_void {
        if !watched(fd) || !on() {
            return libc::syscall(libc::SYS_mmap, a, len, prot, fl, fd, off) as *mut c_void;
        }
        let mut e = ev(Op::Mmap, fd, len, off, Phase::Before);
        let r = match fire(e.clone()) {
            Action::Fail(x) => fail(x),
            _ => libc::syscall(libc::SYS_mmap, a, len, prot, fl, fd, off) as i64,
        };
        if r != -1 { quiet(|| MAPS.lock().unwrap().push((r as usize, len))); }
        e.phase = Phase::After(r);
        fire(e);
        r as *mut c_void
    }
    #[no_mangle]
    pub unsafe extern "C" fn mmap(a: *mut c_void, len: size_t, prot: c_int, fl: c_int, fd: c_int, off: off_t) -> *mut c_void { do_mmap(a, len, prot, fl, fd, off) }
    #[no_mangle]
    pub unsafe extern "C" fn mmap64(a: *mut c_void, len: size_t, prot: c_int, fl: c_int, fd: c_int, off: off64_t) -> *mut c_void { do_mmap(a, len, prot, fl, fd, off) }

    #[no_mangle]
    pub unsafe extern "C" fn munmap(a: *mut c_void, len: size_t) -> c_int {
        // Never lock here unless something is mapped: thread teardown unmaps too.
        let known = MAPS.try_lock().map(|m| m.iter().any(|x| x.0 == a as usize)).unwrap_or(false);
        if known {
            quiet(|| MAPS.lock().unwrap().retain(|x| x.0 != a as usize));
            if on() { fire(ev(Op::Munmap, -1, len, a as i64, Phase::Before)); }
        }
        libc::syscall(libc::SYS_munmap, a, len) as c_int
    }

    #[no_mangle]
    pub unsafe extern "C" fn posix_madvise(a: *mut c_void, len: size_t, adv: c_int) -> c_int {
        let real = || {
            // As in glibc: DONTNEED is ignored, errors are returned not set.
            if adv == libc::POSIX_MADV_DONTNEED { return 0; }
            let keep = *libc::__errno_location();
            let r = libc::syscall(libc::SYS_madvise, a, len, adv);
            let e = *libc::__errno_location();
            *libc::__errno_location() = keep;
            if r == 0 { 0 } else { e }
        };
        if !on() { return real(); }
        let mut e = ev(Op::Advise, -1, len, a as i64, Phase::Before);
        e.flags = adv;
        match fire(e.clone()) { Action::Fail(x) => x, _ => real() }
    }
}

/// A hook that only records events.
pub fn recorder() -> (Hook, Arc<Mutex<Vec<Event>>>) {
    let log = Arc::new(Mutex::new(Vec::new()));
    let l2 = log.clone();
    let hook: Hook = Arc::new(move |e: &Event| {
        l2.lock().unwrap().push(e.clone());
        Action::Go
    });
    (hook, log)
}

/// Map of an operation that can be failed by injection.
pub fn is_data_op(op: Op) -> bool {
    matches!(op, Op::Read | Op::Pread | Op::Write | Op::Pwrite | Op::Copy)
}
