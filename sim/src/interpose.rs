//! Replacements for the C library functions through which a daemon reaches the operating
//! system. On threads that do not take part in a simulation they behave like the originals.
#![allow(clippy::missing_safety_doc, non_upper_case_globals, invalid_runtime_symbol_definitions)]
use libc::{c_char, c_int, c_long, c_void, mode_t, off_t, size_t, ssize_t};
use simcore::raw::syscall6;
use simcore::{sim, FsFaultKind, FsOp, Status, MONO_BASE, NEVER, WALL_BASE};
use std::ffi::CStr;
use std::sync::atomic::{AtomicUsize, Ordering};

/// Real directory that contains everything a simulated process may reach.
pub static mut SCRATCH: String = String::new();

#[allow(static_mut_refs)]
fn scratch() -> &'static str {
    unsafe { &SCRATCH }
}

unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}

unsafe fn ret(r: isize) -> c_int {
    if r < 0 {
        set_errno(-r as c_int);
        -1
    } else {
        r as c_int
    }
}

macro_rules! sys {
    ($n:expr $(, $a:expr)*) => {{
        let args: [usize; 6] = {
            let mut a = [0usize; 6];
            let given = [$($a as usize),*];
            a[..given.len()].copy_from_slice(&given);
            a
        };
        syscall6($n as i64, args[0], args[1], args[2], args[3], args[4], args[5])
    }};
}

unsafe fn real(cache: &AtomicUsize, name: &CStr) -> usize {
    let mut p = cache.load(Ordering::Relaxed);
    if p == 0 {
        p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as usize;
        cache.store(p, Ordering::Relaxed);
    }
    p
}

/// The simulated process this call belongs to, if any.
fn node_proc() -> Option<u32> {
    if !simcore::active() {
        return None;
    }
    match simcore::current_proc() {
        0 => None,
        p => Some(p),
    }
}

// ------------------------------------------------------------------ paths

/// Real path for a path used by the current simulated process.
fn translate(p: u32, path: &str) -> String {
    if path.starts_with("/proc/") || path.starts_with("/sys/") || path.starts_with("/dev/") {
        return path.to_string();
    }
    // ".." never leads above the process's root.
    let mut out: Vec<&str> = Vec::new();
    let mut depth: i32 = 0;
    for c in path.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                if depth > 0 {
                    depth -= 1;
                    out.push("..");
                }
            }
            c => {
                depth += 1;
                out.push(c);
            }
        }
    }
    let mut r = sim().procs[p as usize].root.clone();
    for c in out {
        r.push('/');
        r.push_str(c);
    }
    if path.ends_with('/') {
        r.push('/');
    }
    r
}

struct CPath {
    buf: Vec<u8>,
}
impl CPath {
    fn new(s: &str) -> Self {
        let mut buf = s.as_bytes().to_vec();
        buf.push(0);
        Self { buf }
    }
    fn ptr(&self) -> *const c_char {
        self.buf.as_ptr().cast()
    }
}

unsafe fn text(path: *const c_char) -> String {
    String::from_utf8_lossy(CStr::from_ptr(path).to_bytes()).to_string()
}

/// Like `text`, but keeps bytes that are not valid UTF-8 (only used for the real call).
unsafe fn xlat(path: *const c_char) -> Option<CPath> {
    let p = node_proc()?;
    if path.is_null() {
        return None;
    }
    let bytes = CStr::from_ptr(path).to_bytes();
    match std::str::from_utf8(bytes) {
        Ok(s) => Some(CPath::new(&translate(p, s))),
        Err(_) => {
            let mut buf = sim().procs[p as usize].root.as_bytes().to_vec();
            if !bytes.starts_with(b"/") {
                buf.push(b'/');
            }
            buf.extend_from_slice(bytes);
            buf.push(0);
            Some(CPath { buf })
        }
    }
}

static REALPATH: AtomicUsize = AtomicUsize::new(0);
unsafe fn real_realpath(path: *const c_char) -> Option<String> {
    let f: extern "C" fn(*const c_char, *mut c_char) -> *mut c_char =
        std::mem::transmute(real(&REALPATH, c"realpath"));
    let r = f(path, std::ptr::null_mut());
    if r.is_null() {
        return None;
    }
    let s = text(r);
    libc::free(r.cast());
    Some(s)
}

unsafe fn real_readlink(path: &str) -> Option<String> {
    let c = CPath::new(path);
    let mut buf = [0u8; 4096];
    let r = sys!(libc::SYS_readlink, c.ptr(), buf.as_mut_ptr(), buf.len());
    if r < 0 {
        return None;
    }
    Some(String::from_utf8_lossy(&buf[..r as usize]).to_string())
}

/// Where an operation on this real path really ends up.
unsafe fn resolve(path: &str, follow: bool) -> String {
    let mut path = path.trim_end_matches('/').to_string();
    for _ in 0..20 {
        let (dir, base) = match path.rfind('/') {
            Some(i) => (path[..i].to_string(), path[i + 1..].to_string()),
            None => return path,
        };
        let cdir = CPath::new(if dir.is_empty() { "/" } else { &dir });
        let dir = real_realpath(cdir.ptr()).unwrap_or(dir);
        if base == ".." || base == "." {
            let c = CPath::new(&format!("{dir}/{base}"));
            return real_realpath(c.ptr()).unwrap_or(path);
        }
        let full = format!("{}/{}", dir.trim_end_matches('/'), base);
        if !follow {
            return full;
        }
        match real_readlink(&full) {
            Some(t) if t.starts_with('/') => path = t,
            Some(t) => path = format!("{dir}/{t}"),
            None => return full,
        }
    }
    path
}

/// Some(real path) if the operation touches something outside what the process may touch.
unsafe fn escape(p: u32, real_path: &str, follow: bool) -> Option<String> {
    if real_path.starts_with("/proc/") || real_path.starts_with("/sys/") || real_path.starts_with("/dev/null") {
        return None;
    }
    let pr = &sim().procs[p as usize];
    let r = resolve(real_path, follow);
    for a in &pr.allowed {
        let full = format!("{}{}", pr.root, a);
        if r == full || r.starts_with(&format!("{full}/")) {
            return None;
        }
    }
    Some(r)
}

// ------------------------------------------------------------------ state-changing operations

enum Decision {
    Go,
    Fail(c_int),
    /// Report success without doing anything (the process is dead).
    Pretend,
    /// Carry out only this share of a write, then do as told.
    Part(u32, After),
}

enum After {
    Die,
    Errno(c_int),
    Report,
}

/// Where a planned crash happened: set so that the harness knows.
fn decide(p: u32, path: &str, is_write: bool, needs_space: bool) -> Decision {
    let pr = &mut sim().procs[p as usize];
    if pr.status != Status::Running {
        return Decision::Pretend;
    }
    pr.fs_ops += 1;
    let mut hit = None;
    for f in pr.fs_faults.iter_mut() {
        if f.fired || !path.contains(&f.path) {
            continue;
        }
        if f.seen == f.nth && hit.is_none() {
            f.fired = true;
            hit = Some(f.kind.clone());
        }
        f.seen += 1;
    }
    if let Some(k) = hit {
        match k {
            FsFaultKind::Crash { permille } => {
                simcore::count("fs_crash");
                if is_write && permille > 0 {
                    return Decision::Part(permille, After::Die);
                }
                simcore::kill(p, &format!("crash at file operation on {path}"), false);
                return Decision::Pretend;
            }
            FsFaultKind::Errno(e) => {
                simcore::count("fs_errno");
                return Decision::Fail(e);
            }
            FsFaultKind::Short { permille } if is_write => {
                simcore::count("fs_short_write");
                return Decision::Part(permille, After::Report);
            }
            FsFaultKind::Torn { permille, errno } if is_write => {
                simcore::count("fs_torn_write");
                return Decision::Part(permille, After::Errno(errno));
            }
            FsFaultKind::Torn { errno, .. } => {
                simcore::count("fs_errno");
                return Decision::Fail(errno);
            }
            FsFaultKind::Short { .. } => {}
        }
    }
    if needs_space && sim().procs[p as usize].disk_full {
        simcore::count("fs_enospc");
        return Decision::Fail(libc::ENOSPC);
    }
    Decision::Go
}

fn log_op(p: u32, op: &'static str, path: &str, path2: &str, result: i64, escaped: Option<String>) {
    let s = sim();
    simcore::note(&[50, p.into(), result as u64]);
    simcore::note_bytes(op.as_bytes());
    simcore::note_bytes(path.as_bytes());
    simcore::logf(|| format!("proc {p} {op} {path} {path2} -> {result}"));
    s.fs_log.push(FsOp {
        at: s.now,
        proc: p,
        op,
        path: path.to_string(),
        path2: path2.to_string(),
        result,
        escaped,
    });
}

/// Outside the scratch directory nothing may ever be changed.
fn forbidden(escaped: &Option<String>) -> bool {
    match escaped {
        Some(r) => !r.starts_with(scratch()),
        None => false,
    }
}

/// Runs a state-changing path operation for the current process.
unsafe fn change(
    op: &'static str,
    path: *const c_char,
    path2: *const c_char,
    needs_space: bool,
    run: impl Fn(*const c_char, *const c_char) -> isize,
) -> c_int {
    let Some(p) = node_proc() else {
        let r = ret(run(path, path2));
        simcore::mark_dirty();
        return r;
    };
    let v = text(path);
    let v2 = if path2.is_null() { String::new() } else { text(path2) };
    let c = xlat(path).unwrap();
    let c2 = if path2.is_null() { None } else { xlat(path2) };
    let mut esc = escape(p, &text(c.ptr()), false);
    if let (None, Some(c2)) = (&esc, &c2) {
        esc = escape(p, &text(c2.ptr()), false);
    }
    let r = if forbidden(&esc) {
        -(libc::EACCES as isize)
    } else {
        match decide(p, &v, false, needs_space) {
            Decision::Go | Decision::Part(..) => run(c.ptr(), c2.as_ref().map_or(std::ptr::null(), CPath::ptr)),
            Decision::Fail(e) => -(e as isize),
            Decision::Pretend => return 0,
        }
    };
    simcore::mark_dirty();
    log_op(p, op, &v, &v2, r as i64, esc);
    ret(r)
}

const MAX_FD: usize = 4096;
struct FdInfo {
    proc: u32,
    path: String,
}
static mut FDS: [Option<FdInfo>; MAX_FD] = [const { None }; MAX_FD];

#[allow(static_mut_refs)]
unsafe fn fds() -> &'static mut [Option<FdInfo>; MAX_FD] {
    &mut FDS
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let Some(p) = node_proc() else {
        let r = ret(sys!(libc::SYS_open, path, flags | libc::O_LARGEFILE, mode));
        simcore::mark_dirty();
        return r;
    };
    let v = text(path);
    let c = xlat(path).unwrap();
    let writes = flags & libc::O_ACCMODE != libc::O_RDONLY;
    let creates = flags & (libc::O_CREAT | libc::O_TRUNC) != 0;
    let esc = escape(p, &text(c.ptr()), flags & libc::O_NOFOLLOW == 0);
    if !writes && !creates {
        if simcore::in_dead_proc() {
            set_errno(libc::EIO);
            return -1;
        }
        let r = if esc.as_ref().is_some_and(|e| !e.starts_with(scratch())) {
            -(libc::ENOENT as isize)
        } else {
            sys!(libc::SYS_open, c.ptr(), flags, mode)
        };
        if esc.is_some() && r >= 0 {
            log_op(p, "open-read", &v, "", r.min(0) as i64, esc);
        }
        return ret(r);
    }
    let r = if forbidden(&esc) {
        -(libc::EACCES as isize)
    } else {
        match decide(p, &v, false, creates) {
            Decision::Go | Decision::Part(..) => sys!(libc::SYS_open, c.ptr(), flags, mode),
            Decision::Fail(e) => -(e as isize),
            Decision::Pretend => {
                return ret(sys!(libc::SYS_open, c"/dev/null".as_ptr(), libc::O_RDWR, 0));
            }
        }
    };
    simcore::mark_dirty();
    let op = if flags & libc::O_TRUNC != 0 {
        "open-truncate"
    } else if flags & libc::O_CREAT != 0 {
        "open-create"
    } else {
        "open-write"
    };
    log_op(p, op, &v, "", r.min(0) as i64, esc);
    if r >= 0 && (r as usize) < MAX_FD {
        fds()[r as usize] = Some(FdInfo { proc: p, path: v });
    }
    ret(r)
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(path, flags, mode)
}
unsafe fn do_openat(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if dirfd == libc::AT_FDCWD || (!path.is_null() && *path == b'/' as c_char) {
        return do_open(path, flags, mode);
    }
    let r = ret(sys!(libc::SYS_openat, dirfd, path, flags, mode));
    simcore::mark_dirty();
    r
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_openat(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_openat(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= 0 && (fd as usize) < MAX_FD && simcore::active() {
        fds()[fd as usize] = None;
    }
    let r = ret(sys!(libc::SYS_close, fd));
    simcore::mark_dirty();
    r
}

unsafe fn do_write(fd: c_int, buf: *const c_void, n: size_t, run: impl Fn(*const c_void, size_t) -> isize) -> ssize_t {
    let info = if fd >= 0 && (fd as usize) < MAX_FD && simcore::active() {
        fds()[fd as usize].as_ref()
    } else {
        None
    };
    let fin = |r: isize| -> ssize_t {
        if r < 0 {
            set_errno(-r as c_int);
            -1
        } else {
            r
        }
    };
    let Some(info) = info else {
        let r = fin(run(buf, n));
        simcore::mark_dirty();
        return r;
    };
    let p = info.proc;
    let path = info.path.clone();
    let r = match decide(p, &path, true, true) {
        Decision::Go => run(buf, n),
        Decision::Fail(e) => -(e as isize),
        Decision::Pretend => return n as ssize_t,
        Decision::Part(permille, after) => {
            let mut k = n * permille as usize / 1000;
            if n > 1 {
                k = k.clamp(1, n - 1);
            }
            let w = if k > 0 { run(buf, k) } else { 0 };
            simcore::mark_dirty();
            log_op(p, "write-part", &path, "", w as i64, None);
            match after {
                After::Die => {
                    simcore::kill(p, &format!("crash in the middle of a write to {path}"), false);
                    return n as ssize_t;
                }
                After::Errno(e) => -(e as isize),
                After::Report => return fin(w),
            }
        }
    };
    simcore::mark_dirty();
    log_op(p, "write", &path, "", r as i64, None);
    fin(r)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    do_write(fd, buf, n, |b, n| sys!(libc::SYS_write, fd, b, n))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    do_write(fd, buf, n, |b, n| sys!(libc::SYS_pwrite64, fd, b, n, off))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    let tracked = fd >= 0 && (fd as usize) < MAX_FD && simcore::active() && fds()[fd as usize].is_some();
    if tracked && cnt > 0 {
        // A short vectored write: only the first non-empty buffer.
        for i in 0..cnt as isize {
            let v = &*iov.offset(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    let r = sys!(libc::SYS_writev, fd, iov, cnt);
    simcore::mark_dirty();
    if r < 0 {
        set_errno(-r as c_int);
        return -1;
    }
    r
}
unsafe fn do_ftruncate(fd: c_int, len: off_t) -> c_int {
    let info = if fd >= 0 && (fd as usize) < MAX_FD && simcore::active() {
        fds()[fd as usize].as_ref().map(|i| (i.proc, i.path.clone()))
    } else {
        None
    };
    if let Some((p, path)) = info {
        let r = match decide(p, &path, false, false) {
            Decision::Fail(e) => -(e as isize),
            Decision::Pretend => return 0,
            _ => sys!(libc::SYS_ftruncate, fd, len),
        };
        simcore::mark_dirty();
        log_op(p, "ftruncate", &path, "", r as i64, None);
        return ret(r);
    }
    let r = ret(sys!(libc::SYS_ftruncate, fd, len));
    simcore::mark_dirty();
    r
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off_t) -> c_int {
    do_ftruncate(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int {
    do_ftruncate(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if simcore::in_dead_proc() {
        return 0;
    }
    ret(sys!(libc::SYS_fsync, fd))
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if simcore::in_dead_proc() {
        return 0;
    }
    ret(sys!(libc::SYS_fdatasync, fd))
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_: c_int, _: *mut off_t, _: c_int, _: *mut off_t, _: size_t, _: u32) -> ssize_t {
    // Callers fall back to read and write, which the simulator sees.
    set_errno(libc::ENOSYS);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_: c_int, _: c_int, _: *mut off_t, _: size_t) -> ssize_t {
    set_errno(libc::ENOSYS);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    change("mkdir", path, std::ptr::null(), true, |a, _| sys!(libc::SYS_mkdir, a, mode))
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    change("rmdir", path, std::ptr::null(), false, |a, _| sys!(libc::SYS_rmdir, a))
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    change("unlink", path, std::ptr::null(), false, |a, _| sys!(libc::SYS_unlink, a))
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dirfd: c_int, path: *const c_char, flags: c_int) -> c_int {
    if dirfd == libc::AT_FDCWD {
        return change("unlink", path, std::ptr::null(), false, |a, _| sys!(libc::SYS_unlinkat, dirfd, a, flags));
    }
    let r = ret(sys!(libc::SYS_unlinkat, dirfd, path, flags));
    simcore::mark_dirty();
    r
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    change("rename", a, b, false, |a, b| sys!(libc::SYS_rename, a, b))
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(da: c_int, a: *const c_char, db: c_int, b: *const c_char, flags: u32) -> c_int {
    change("rename", a, b, false, |a, b| sys!(libc::SYS_renameat2, da, a, db, b, flags))
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    change("link", a, b, true, |a, b| sys!(libc::SYS_link, a, b))
}
#[no_mangle]
pub unsafe extern "C" fn linkat(da: c_int, a: *const c_char, db: c_int, b: *const c_char, flags: c_int) -> c_int {
    change("link", a, b, true, |a, b| sys!(libc::SYS_linkat, da, a, db, b, flags))
}
#[no_mangle]
pub unsafe extern "C" fn symlink(target: *const c_char, path: *const c_char) -> c_int {
    change("symlink", path, std::ptr::null(), true, |a, _| sys!(libc::SYS_symlink, target, a))
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: mode_t) -> c_int {
    change("chmod", path, std::ptr::null(), false, |a, _| sys!(libc::SYS_chmod, a, mode))
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if simcore::in_dead_proc() {
        return 0;
    }
    let r = ret(sys!(libc::SYS_fchmod, fd, mode));
    simcore::mark_dirty();
    r
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(path: *const c_char, len: off_t) -> c_int {
    change("truncate", path, std::ptr::null(), false, |a, _| sys!(libc::SYS_truncate, a, len))
}

// ------------------------------------------------------------------ looking things up

unsafe fn with_path<R>(path: *const c_char, f: impl FnOnce(*const c_char) -> R) -> R {
    match xlat(path) {
        Some(c) => f(c.ptr()),
        None => f(path),
    }
}

const AT_EMPTY_PATH: c_int = 0x1000;
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, buf: *mut c_void) -> c_int {
    with_path(path, |p| ret(sys!(libc::SYS_newfstatat, libc::AT_FDCWD, p, buf, 0)))
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, buf: *mut c_void) -> c_int {
    with_path(path, |p| ret(sys!(libc::SYS_newfstatat, libc::AT_FDCWD, p, buf, libc::AT_SYMLINK_NOFOLLOW)))
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, path: *const c_char, buf: *mut c_void, flags: c_int) -> c_int {
    if d != libc::AT_FDCWD && *path != b'/' as c_char {
        return ret(sys!(libc::SYS_newfstatat, d, path, buf, flags));
    }
    with_path(path, |p| ret(sys!(libc::SYS_newfstatat, d, p, buf, flags)))
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, path: *const c_char, flags: c_int, mask: u32, buf: *mut c_void) -> c_int {
    if path.is_null()
        || (flags & AT_EMPTY_PATH != 0 && *path == 0)
        || (d != libc::AT_FDCWD && *path != b'/' as c_char)
    {
        return ret(sys!(libc::SYS_statx, d, path, flags, mask, buf));
    }
    with_path(path, |p| ret(sys!(libc::SYS_statx, d, p, flags, mask, buf)))
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    with_path(path, |p| ret(sys!(libc::SYS_access, p, mode)))
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    let r = with_path(path, |p| sys!(libc::SYS_readlink, p, buf, n));
    if r < 0 {
        set_errno(-r as c_int);
        return -1;
    }
    r
}
static OPENDIR: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    let f: extern "C" fn(*const c_char) -> *mut c_void = std::mem::transmute(real(&OPENDIR, c"opendir"));
    with_path(path, |p| f(p))
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    let f: extern "C" fn(*const c_char, *mut c_char) -> *mut c_char =
        std::mem::transmute(real(&REALPATH, c"realpath"));
    let Some(p) = node_proc() else { return f(path, out) };
    let c = xlat(path).unwrap();
    let r = f(c.ptr(), out);
    if r.is_null() {
        return r;
    }
    let root = sim().procs[p as usize].root.as_bytes();
    let bytes = CStr::from_ptr(r).to_bytes();
    if bytes == root {
        *r = b'/' as c_char;
        *r.offset(1) = 0;
    } else if bytes.starts_with(root) && bytes[root.len()] == b'/' {
        let rest = bytes[root.len()..].to_vec();
        std::ptr::copy_nonoverlapping(rest.as_ptr().cast(), r, rest.len());
        *r.add(rest.len()) = 0;
    }
    r
}
static mut INOTIFY: Vec<(u32, c_int)> = Vec::new();
#[no_mangle]
pub unsafe extern "C" fn inotify_init1(flags: c_int) -> c_int {
    let r = ret(sys!(libc::SYS_inotify_init1, flags));
    if let (Some(p), true) = (node_proc(), r >= 0) {
        #[allow(static_mut_refs)]
        INOTIFY.push((p, r));
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn inotify_init() -> c_int {
    inotify_init1(0)
}
/// Gives back the kernel resources of a dead process.
#[allow(static_mut_refs)]
pub fn reap(p: u32) {
    unsafe {
        for (q, fd) in &INOTIFY {
            if *q == p {
                sys!(libc::SYS_close, *fd);
            }
        }
        INOTIFY.retain(|x| x.0 != p);
    }
}
#[no_mangle]
pub unsafe extern "C" fn inotify_add_watch(fd: c_int, path: *const c_char, mask: u32) -> c_int {
    simcore::mark_dirty();
    with_path(path, |p| ret(sys!(libc::SYS_inotify_add_watch, fd, p, mask)))
}

// ------------------------------------------------------------------ randomness and time

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: u32) -> ssize_t {
    if simcore::active() {
        simcore::fill_random(std::slice::from_raw_parts_mut(buf.cast(), n));
        return n as ssize_t;
    }
    let r = sys!(libc::SYS_getrandom, buf, n, flags);
    if r < 0 {
        set_errno(-r as c_int);
        return -1;
    }
    r
}

unsafe fn virtual_clock(clk: c_int) -> u64 {
    match clk {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => {
            let p = simcore::current_proc();
            let off = sim().procs[p as usize].wall_offset_ns;
            ((WALL_BASE + simcore::now()) as i64 + off) as u64
        }
        _ => MONO_BASE + simcore::now(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if simcore::active() {
        let t = virtual_clock(clk);
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret(sys!(libc::SYS_clock_gettime, clk, ts))
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if simcore::active() {
        let d = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        simcore::sleep_until(simcore::now() + d);
        return 0;
    }
    ret(sys!(libc::SYS_nanosleep, req, rem))
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if simcore::active() {
        let d = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let at = if flags & 1 != 0 { d.saturating_sub(MONO_BASE) } else { simcore::now() + d };
        simcore::sleep_until(at);
        return 0;
    }
    -(sys!(libc::SYS_clock_nanosleep, clk, flags, req, rem) as c_int)
}

// ------------------------------------------------------------------ threads and waiting

const FUTEX_WAIT: c_int = 0;
const FUTEX_WAKE: c_int = 1;
const FUTEX_WAIT_BITSET: c_int = 9;
const FUTEX_WAKE_BITSET: c_int = 10;

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    let mut r: Option<isize> = None;
    if simcore::active() {
        match n {
            libc::SYS_getrandom => {
                return getrandom(a as *mut c_void, b, c as u32) as c_long;
            }
            libc::SYS_futex => {
                let cmd = b as c_int & 127;
                match cmd {
                    FUTEX_WAIT | FUTEX_WAIT_BITSET => {
                        let ts = d as *const libc::timespec;
                        let deadline = if ts.is_null() {
                            NEVER
                        } else {
                            let t = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
                            if cmd == FUTEX_WAIT {
                                simcore::now().saturating_add(t)
                            } else if b as c_int & 256 != 0 {
                                t.saturating_sub(WALL_BASE)
                            } else {
                                t.saturating_sub(MONO_BASE)
                            }
                        };
                        r = Some(match simcore::futex_wait(a, c as u32, deadline) {
                            Ok(false) => 0,
                            Ok(true) => -(libc::ETIMEDOUT as isize),
                            Err(()) => -(libc::EAGAIN as isize),
                        });
                    }
                    FUTEX_WAKE | FUTEX_WAKE_BITSET => {
                        let n = simcore::futex_wake(a, (c as i32).max(0) as u32);
                        r = Some(n as isize);
                    }
                    _ => {}
                }
            }
            libc::SYS_statx => {
                return statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut c_void) as c_long;
            }
            libc::SYS_copy_file_range => r = Some(-(libc::ENOSYS as isize)),
            libc::SYS_renameat2 => {
                return renameat2(a as c_int, b as *const c_char, c as c_int, d as *const c_char, e as u32) as c_long;
            }
            _ => {}
        }
    }
    let r = r.unwrap_or_else(|| syscall6(n, a, b, c, d, e, f));
    if r < 0 {
        set_errno(-r as c_int);
        return -1;
    }
    r as c_long
}

#[no_mangle]
pub unsafe extern "C" fn epoll_wait(epfd: c_int, ev: *mut c_void, max: c_int, timeout: c_int) -> c_int {
    if !simcore::active() {
        return ret(sys!(libc::SYS_epoll_wait, epfd, ev, max, timeout));
    }
    let deadline = if timeout < 0 { NEVER } else { simcore::now() + timeout as u64 * 1_000_000 };
    loop {
        let r = sys!(libc::SYS_epoll_wait, epfd, ev, max, 0);
        if r != 0 || timeout == 0 {
            return ret(r);
        }
        if simcore::epoll_block(epfd, deadline) {
            return 0;
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if simcore::active() {
        simcore::sleep_until(simcore::now() + 1_000);
        return 0;
    }
    ret(sys!(libc::SYS_sched_yield))
}

struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    id: usize,
    proc: u32,
    sem: usize,
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let s = unsafe { Box::from_raw(p.cast::<Start>()) };
    simcore::thread_begin(s.id, s.proc, s.sem as *const _);
    let r = (s.f)(s.arg);
    simcore::thread_end(s.id);
    r
}

static PTHREAD_CREATE: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const c_void,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    type F = extern "C" fn(*mut libc::pthread_t, *const c_void, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
    let create: F = std::mem::transmute(real(&PTHREAD_CREATE, c"pthread_create"));
    let Some(p) = node_proc() else { return create(t, attr, f, arg) };
    let id = simcore::thread_register();
    let s = Box::new(Start { f, arg, id, proc: p, sem: simcore::thread_sem(id) as usize });
    let r = create(t, attr, trampoline, Box::into_raw(s).cast());
    if r == 0 {
        simcore::thread_set_pthread(id, *t);
    }
    r
}

static PTHREAD_JOIN: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    let join: extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int =
        std::mem::transmute(real(&PTHREAD_JOIN, c"pthread_join"));
    if simcore::active() {
        simcore::thread_join_wait(t);
    }
    join(t, out)
}

pub static mut ON_EXIT: Option<fn(u32, c_int) -> !> = None;
static EXIT: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if let Some(p) = node_proc() {
        simcore::kill(p, &format!("exit({code})"), false);
        if let Some(f) = ON_EXIT {
            f(p, code)
        }
        simcore::raw::exit_group(96)
    }
    let f: extern "C" fn(c_int) -> ! = std::mem::transmute(real(&EXIT, c"exit"));
    f(code)
}
