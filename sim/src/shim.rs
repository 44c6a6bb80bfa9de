//! Definitions of the C functions the code under test calls. The linker takes
//! these instead of libc's. Outside a simulated task they are plain system calls.
#![allow(clippy::missing_safety_doc)]
use std::ffi::{CStr, CString};

use libc::*;

use crate::kern::*;
use crate::raw::{self, err, ret, sc};

const OP_OPEN: usize = 0;
const OP_READ: usize = 1;
const OP_WRITE: usize = 2;
const OP_MKDIR: usize = 3;
const OP_SEEK: usize = 4;
const OP_NAMES: [&str; 5] = ["open", "read", "write", "mkdir", "seek"];

fn e() {
    let c = sim().sched.cost_ns;
    enter(c);
}
fn me() -> usize {
    sim().tasks[sim().cur].proc
}

// ---------------- files ----------------

/// decide the outcome of a file operation: Err(errno), Ok(limit on length)
fn io_fate(op: usize, path: &str, len: usize) -> Result<usize, i32> {
    let s = sim();
    let p = me();
    let pr = &mut s.procs[p];
    pr.io_ops += 1;
    pr.io_kind[op] += 1;
    let (n, kn) = (pr.io_ops, pr.io_kind[op]);
    let key = (p as u64) << 40 | n;
    if s.io.procs.is_empty() || !s.io.procs.contains(&p) {
        if s.explicit.is_none() {
            return Ok(len);
        }
    } else if !s.io.path.is_empty() && !path.contains(s.io.path.as_str()) {
        return Ok(len);
    } else {
        for i in 0..s.io.nth.len() {
            let r = &s.io.nth[i];
            if r.op == OP_NAMES[op] && (r.n == kn || (r.sticky && kn > r.n)) {
                let er = r.errno;
                s.count(K::IoErr);
                s.last_fault = s.last_fault.max(s.now);
                s.tr(|_| format!("io fault {} errno {}", OP_NAMES[op], er));
                return Err(er);
            }
        }
        if op == OP_WRITE {
            if let Some(q) = s.io.disk_quota {
                let w = s.procs[p].written;
                if w + len as u64 > q {
                    s.count(K::NoSpace);
                    s.last_fault = s.last_fault.max(s.now);
                    if w >= q {
                        return Err(ENOSPC);
                    }
                    return Ok((q - w) as usize);
                }
            }
        }
    }
    let (a, b, c, d) = (s.io.eintr_ppm, s.io.err_ppm, s.io.short_read_ppm, s.io.short_write_ppm);
    if (op == OP_READ || op == OP_WRITE || op == OP_OPEN) && s.decide(K::Eintr, key, a, 0).is_some() {
        return Err(EINTR);
    }
    if let Some(v) = s.decide(if op == OP_OPEN { K::OpenErr } else { K::IoErr }, key, b, 3) {
        return Err(match (op, v) {
            (OP_WRITE, 0) => ENOSPC,
            (OP_OPEN, 0) => EMFILE,
            (OP_OPEN, 1) => EACCES,
            (OP_MKDIR, 0) => ENOSPC,
            _ => EIO,
        });
    }
    if len > 1 {
        if op == OP_READ {
            if let Some(v) = s.decide(K::ShortRead, key, c, len as u64 - 1) {
                return Ok(1 + v as usize);
            }
        }
        if op == OP_WRITE {
            if let Some(v) = s.decide(K::ShortWrite, key, d, len as u64 - 1) {
                return Ok(1 + v as usize);
            }
        }
    }
    Ok(len)
}

/// the real path `path` names, following links (the last component may not exist)
fn real_of(path: &str, follow_last: bool) -> String {
    rawly(|| unsafe {
        if let Ok(c) = CString::new(path) {
            let mut buf = [0i8; PATH_MAX as usize + 1];
            if follow_last && !realpath(c.as_ptr(), buf.as_mut_ptr()).is_null() {
                return CStr::from_ptr(buf.as_ptr()).to_string_lossy().into_owned();
            }
            // a dangling link still leads somewhere
            if follow_last {
                if let Ok(t) = std::fs::read_link(path) {
                    let base = std::path::Path::new(path).parent().unwrap_or(std::path::Path::new("."));
                    let t = base.join(t);
                    let parent = t.parent().map(|x| x.to_path_buf()).unwrap_or_default();
                    if let Ok(p) = std::fs::canonicalize(if parent.as_os_str().is_empty() { ".".into() } else { parent }) {
                        return p.join(t.file_name().unwrap_or_default()).to_string_lossy().into_owned();
                    }
                    return t.to_string_lossy().into_owned();
                }
            }
            let pp = std::path::Path::new(path);
            let parent = pp.parent().map(|x| x.to_path_buf()).unwrap_or_default();
            let parent = if parent.as_os_str().is_empty() { ".".into() } else { parent };
            if let Ok(p) = std::fs::canonicalize(&parent) {
                return p.join(pp.file_name().unwrap_or_default()).to_string_lossy().into_owned();
            }
            // the deepest directory that exists, and names below it
            for a in pp.ancestors().skip(2) {
                let b = if a.as_os_str().is_empty() { std::path::Path::new(".") } else { a };
                if let Ok(p) = std::fs::canonicalize(b) {
                    let rest = pp.strip_prefix(a).unwrap_or(pp);
                    if rest.components().all(|x| matches!(x, std::path::Component::Normal(_))) {
                        return p.join(rest).to_string_lossy().into_owned();
                    }
                    break;
                }
            }
        }
        format!("?{path}")
    })
}

fn cs(p: *const c_char) -> String {
    unsafe { CStr::from_ptr(p).to_string_lossy().into_owned() }
}

/// may the code under test modify this real path? everything outside the
/// scratch directory is refused whatever the code does
fn jail(op: &'static str, path: &str, real: &str, harmless: bool) -> bool {
    let s = sim();
    if real == s.root || real.starts_with(&format!("{}/", s.root)) {
        return true;
    }
    if harmless && rawly(|| std::fs::metadata(path).is_ok()) {
        // opening what exists without changing it: refused all the same, but no effect
        return false;
    }
    let (path, real) = (path.replace(s.root.as_str(), "@"), real.replace(s.root.as_str(), "@"));
    s.escapes.push(format!("{op} {path} -> {real}"));
    s.tr(|_| format!("ESCAPE {op} {path} -> {real}"));
    false
}

fn record(op: &'static str, path: &str, real: String, flags: i32, ok: bool) {
    let s = sim();
    let p = me();
    let t = s.t();
    let path = path.replace(s.root.as_str(), "@");
    s.hb(path.as_bytes());
    s.tr(|_| format!("{op} {path} flags {flags:x} ok {ok}"));
    let real = real.replace(s.root.as_str(), "@");
    s.opens.push(OpenRec { t, proc: p, op, path, real, flags, ok });
}

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !in_sim() {
        return ret(sc!(SYS_openat, dirfd, path, flags, mode)) as c_int;
    }
    e();
    let p = cs(path);
    let real = real_of(&p, flags & O_NOFOLLOW == 0);
    let wr = flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND) != 0;
    if let Err(er) = io_fate(OP_OPEN, &p, 0) {
        record("open", &p, real, flags, false);
        return err(er) as c_int;
    }
    if wr && !jail("open", &p, &real, flags & O_TRUNC == 0) {
        record("open", &p, real, flags, false);
        return err(EACCES) as c_int;
    }
    let fd = ret(sc!(SYS_openat, dirfd, path, flags, mode)) as c_int;
    let eno = *__errno_location();
    record("open", &p, real, flags, fd >= 0);
    if fd >= 0 {
        sim().real.insert(fd, RealFd { proc: me(), path: p.replace(sim().root.as_str(), "@"), write: wr });
        sim().wake_real();
    }
    e();
    raw::set_errno(eno);
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let _held = crate::heap::Hold::new();
    do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let _held = crate::heap::Hold::new();
    do_open(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let _held = crate::heap::Hold::new();
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let _held = crate::heap::Hold::new();
    do_open(d, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_mkdir, path, mode)) as c_int;
    }
    e();
    let p = cs(path);
    let real = real_of(&p, false);
    if let Err(er) = io_fate(OP_MKDIR, &p, 0) {
        record("mkdir", &p, real, 0, false);
        return err(er) as c_int;
    }
    let exists = rawly(|| std::fs::symlink_metadata(&real).is_ok());
    if !exists && !jail("mkdir", &p, &real, false) {
        return err(EACCES) as c_int;
    }
    let r = ret(sc!(SYS_mkdir, path, mode)) as c_int;
    let eno = *__errno_location();
    record("mkdir", &p, real, 0, r == 0);
    sim().wake_real();
    e();
    raw::set_errno(eno);
    r
}
unsafe fn path_op(op: &'static str, path: *const c_char, f: impl FnOnce() -> i64) -> c_int {
    if !in_sim() {
        return ret(f()) as c_int;
    }
    e();
    let p = cs(path);
    let real = real_of(&p, false);
    if !jail(op, &p, &real, false) {
        return err(EACCES) as c_int;
    }
    let r = ret(f()) as c_int;
    record(op, &p, real, 0, r == 0);
    sim().wake_real();
    r
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    let _held = crate::heap::Hold::new();
    path_op("unlink", path, || sc!(SYS_unlink, path))
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, path: *const c_char, fl: c_int) -> c_int {
    let _held = crate::heap::Hold::new();
    path_op("unlink", path, || sc!(SYS_unlinkat, d, path, fl))
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    let _held = crate::heap::Hold::new();
    path_op("rmdir", path, || sc!(SYS_rmdir, path))
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: mode_t) -> c_int {
    let _held = crate::heap::Hold::new();
    path_op("chmod", path, || sc!(SYS_chmod, path, mode))
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(path: *const c_char, len: i64) -> c_int {
    let _held = crate::heap::Hold::new();
    path_op("truncate", path, || sc!(SYS_truncate, path, len))
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let _held = crate::heap::Hold::new();
    if in_sim() {
        let pa = cs(a);
        let ra = real_of(&pa, false);
        if !jail("rename", &pa, &ra, false) {
            return err(EACCES) as c_int;
        }
    }
    path_op("rename", b, || sc!(SYS_rename, a, b))
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    let _held = crate::heap::Hold::new();
    path_op("symlink", b, || sc!(SYS_symlink, a, b))
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    let _held = crate::heap::Hold::new();
    path_op("link", b, || sc!(SYS_link, a, b))
}

type OpenDir = unsafe extern "C" fn(*const c_char) -> *mut c_void;
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    let _held = crate::heap::Hold::new();
    static mut P: Option<OpenDir> = None;
    if P.is_none() {
        P = Some(std::mem::transmute::<*mut c_void, OpenDir>(dlsym(RTLD_NEXT, c"opendir".as_ptr())));
    }
    if !in_sim() {
        return P.unwrap()(path);
    }
    e();
    let p = cs(path);
    let real = real_of(&p, true);
    if let Err(er) = io_fate(OP_OPEN, &p, 0) {
        raw::set_errno(er);
        return std::ptr::null_mut();
    }
    let r = rawly(|| P.unwrap()(path));
    record("opendir", &p, real, 0, !r.is_null());
    sim().dirs.insert(r as usize, p);
    r
}

type ReadDir = unsafe extern "C" fn(*mut c_void) -> *mut c_void;
#[no_mangle]
pub unsafe extern "C" fn readdir64(dir: *mut c_void) -> *mut c_void {
    let _held = crate::heap::Hold::new();
    static mut P: Option<ReadDir> = None;
    if P.is_none() {
        P = Some(std::mem::transmute::<*mut c_void, ReadDir>(dlsym(RTLD_NEXT, c"readdir64".as_ptr())));
    }
    if !in_sim() {
        return P.unwrap()(dir);
    }
    if let Some(p) = sim().dirs.get(&(dir as usize)).cloned() {
        e();
        if let Err(er) = io_fate(OP_READ, &p, 0) {
            if er != EINTR {
                raw::set_errno(er);
                return std::ptr::null_mut();
            }
        }
    }
    rawly(|| P.unwrap()(dir))
}

unsafe fn file_read(fd: c_int, n: usize, f: impl FnOnce(usize) -> i64) -> ssize_t {
    e();
    let Some(r) = sim().real.get(&fd) else {
        return ret(f(n)) as ssize_t;
    };
    let path = r.path.clone();
    let k = match io_fate(OP_READ, &path, n) {
        Err(er) => {
            e();
            return err(er) as ssize_t;
        }
        Ok(k) => k,
    };
    let r = ret(f(k));
    let s = sim();
    s.h(0x4ead, r as u64);
    s.tr(|_| format!("read {path} {n} -> {r}"));
    e();
    r as ssize_t
}
unsafe fn file_write(fd: c_int, n: usize, f: impl FnOnce(usize) -> i64) -> ssize_t {
    e();
    let Some(r) = sim().real.get(&fd) else {
        return ret(f(n)) as ssize_t;
    };
    let path = r.path.clone();
    let k = match io_fate(OP_WRITE, &path, n) {
        Err(er) => {
            sim().tr(|_| format!("write {path} {n} -> errno {er}"));
            e();
            return err(er) as ssize_t;
        }
        Ok(k) => k,
    };
    let r = ret(f(k));
    let s = sim();
    if r > 0 {
        let p = me();
        s.procs[p].written += r as u64;
    }
    s.h(0x3417e, r as u64);
    s.tr(|_| format!("write {path} {n} -> {r}"));
    s.wake_real();
    let eno = *__errno_location();
    e();
    raw::set_errno(eno);
    r as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_read, fd, buf, n)) as ssize_t;
    }
    if fd >= VFD {
        let now = sim().now;
        match sim().vfd_get(fd) {
            Some(Vfd::Event { count, .. }) => {
                if *count == 0 {
                    return err(EAGAIN) as ssize_t;
                }
                *(buf as *mut u64) = *count;
                *count = 0;
                return 8;
            }
            Some(Vfd::Timer { expire, .. }) => {
                if expire.is_some_and(|x| x <= now) {
                    *expire = None;
                    *(buf as *mut u64) = 1;
                    return 8;
                }
                return err(EAGAIN) as ssize_t;
            }
            Some(Vfd::Udp(_)) => return recvfrom(fd, buf, n, 0, std::ptr::null_mut(), std::ptr::null_mut()),
            _ => return err(EBADF) as ssize_t,
        }
    }
    file_read(fd, n, |k| sc!(SYS_read, fd, buf, k))
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    let _held = crate::heap::Hold::new();
    if !in_sim() || fd >= VFD {
        return ret(sc!(SYS_readv, fd, iov, n)) as ssize_t;
    }
    // one vector at a time is a legal short read
    for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return read(fd, v.iov_base, v.iov_len);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_pread64, fd, buf, n, off)) as ssize_t;
    }
    file_read(fd, n, |k| sc!(SYS_pread64, fd, buf, k, off))
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_write, fd, buf, n)) as ssize_t;
    }
    if fd >= VFD {
        match sim().vfd_get(fd) {
            Some(Vfd::Event { count, gen }) => {
                *count += *(buf as *const u64);
                *gen += 1;
                sim().wake_fd(fd);
                e();
                return 8;
            }
            Some(Vfd::Udp(_)) => return send(fd, buf, n, 0),
            _ => return err(EBADF) as ssize_t,
        }
    }
    file_write(fd, n, |k| sc!(SYS_write, fd, buf, k))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    let _held = crate::heap::Hold::new();
    if !in_sim() || fd >= VFD {
        return ret(sc!(SYS_writev, fd, iov, n)) as ssize_t;
    }
    for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return write(fd, v.iov_base, v.iov_len);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: i64) -> ssize_t {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_pwrite64, fd, buf, n, off)) as ssize_t;
    }
    file_write(fd, n, |k| sc!(SYS_pwrite64, fd, buf, k, off))
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    let _held = crate::heap::Hold::new();
    if in_sim() && sim().real.contains_key(&fd) {
        e();
        let path = sim().real[&fd].path.clone();
        if let Err(er) = io_fate(OP_SEEK, &path, 0) {
            return err(er);
        }
    }
    ret(sc!(SYS_lseek, fd, off, wh))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    let _held = crate::heap::Hold::new();
    if in_sim() {
        e();
    }
    ret(sc!(SYS_ftruncate, fd, len)) as c_int
}
unsafe fn sync_op(fd: c_int, n: i64) -> c_int {
    if in_sim() {
        e();
        if let Some(r) = sim().real.get(&fd) {
            let path = r.path.clone();
            if let Err(er) = io_fate(OP_WRITE, &path, 0) {
                return err(er) as c_int;
            }
        }
        return 0;
    }
    ret(syscall_n(n, fd)) as c_int
}
unsafe fn syscall_n(n: i64, fd: c_int) -> i64 {
    sc!(n, fd)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    let _held = crate::heap::Hold::new();
    sync_op(fd, SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    let _held = crate::heap::Hold::new();
    sync_op(fd, SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_close, fd)) as c_int;
    }
    if fd >= VFD {
        e();
        return if sim().vfd_close(fd) { 0 } else { err(EBADF) as c_int };
    }
    e();
    if let Some(r) = sim().real.remove(&fd) {
        sim().tr(|_| format!("close {}", r.path));
    }
    let r = ret(sc!(SYS_close, fd)) as c_int;
    sim().wake_real();
    e();
    r
}

// ---------------- sockets ----------------

unsafe fn rd_addr(a: *const sockaddr, l: socklen_t) -> Option<Addr> {
    if a.is_null() || (l as usize) < std::mem::size_of::<sockaddr_in>() || (*a).sa_family != AF_INET as u16 {
        return None;
    }
    let s = &*(a as *const sockaddr_in);
    Some(Addr { ip: u32::from_be(s.sin_addr.s_addr), port: u16::from_be(s.sin_port) })
}
unsafe fn wr_addr(x: Addr, a: *mut sockaddr, l: *mut socklen_t) {
    if a.is_null() || l.is_null() {
        return;
    }
    let mut s: sockaddr_in = std::mem::zeroed();
    s.sin_family = AF_INET as u16;
    s.sin_port = x.port.to_be();
    s.sin_addr.s_addr = x.ip.to_be();
    let n = std::mem::size_of::<sockaddr_in>();
    std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, a as *mut u8, n.min(*l as usize));
    *l = n as socklen_t;
}

#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_socket, d, t, p)) as c_int;
    }
    e();
    if d != AF_INET || t & 0xf != SOCK_DGRAM {
        return err(EAFNOSUPPORT) as c_int;
    }
    let s = sim();
    let p = me();
    if let Some((fp, n)) = s.fd_fail_after {
        if fp == p && s.procs[p].vfds as u64 >= n {
            s.count(K::SockErr);
            s.last_fault = s.last_fault.max(s.now);
            return err(EMFILE) as c_int;
        }
    }
    let host = s.procs[p].host;
    let fd = s.vfd_new(Vfd::Udp(Sock {
        proc: p,
        host,
        local: None,
        peer: None,
        rx: Default::default(),
        rx_bytes: 0,
        reuseport: false,
        reuseaddr: false,
        nonblock: t & SOCK_NONBLOCK != 0,
        err: 0,
        bind_seq: 0,
    }));
    s.h(0x50c, fd as u64);
    fd
}

pub fn pick_port(host: u32) -> u16 {
    let s = sim();
    for i in 0..20000u64 {
        s.eph = s.eph.wrapping_add(1);
        let x = hash3(s.seed, 0xe9, s.eph as u64 + i);
        let p = 32768 + (x % 28000) as u16;
        if s.port_users(host, p).is_empty() {
            return p;
        }
    }
    0
}

pub fn do_bind(fd: i32, a: Addr) -> Result<(), i32> {
    let s = sim();
    let Some(k) = s.sock(fd) else { return Err(EBADF) };
    if k.local.is_some() {
        return Err(EINVAL);
    }
    let (host, rp) = (k.host, k.reuseport);
    let mut a = a;
    if a.ip != 0 && a.ip != ip_of(host) {
        return Err(EADDRNOTAVAIL);
    }
    if a.port == 0 {
        a.port = pick_port(host);
    } else {
        for i in s.port_users(host, a.port) {
            if let Some(Vfd::Udp(o)) = s.vfd_get(VFD + i as i32) {
                let l = o.local.unwrap();
                let overlap = l.ip == 0 || a.ip == 0 || l.ip == a.ip;
                if overlap && !(rp && o.reuseport) {
                    return Err(EADDRINUSE);
                }
            }
        }
    }
    s.evseq += 1;
    let q = s.evseq;
    let k = s.sock(fd).unwrap();
    k.local = Some(a);
    k.bind_seq = q;
    s.h(0xb1d, a.port as u64);
    s.tr(|_| format!("bind fd{} {}", fd - VFD, a.s()));
    Ok(())
}

#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_bind, fd, a, l)) as c_int;
    }
    e();
    let Some(x) = rd_addr(a, l) else { return err(EINVAL) as c_int };
    match do_bind(fd, x) {
        Ok(()) => 0,
        Err(er) => err(er) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_connect, fd, a, l)) as c_int;
    }
    e();
    let Some(x) = rd_addr(a, l) else { return err(EINVAL) as c_int };
    let Some(k) = sim().sock(fd) else { return err(EBADF) as c_int };
    let host = k.host;
    if k.local.is_none() {
        let _ = do_bind(fd, Addr { ip: 0, port: 0 });
    }
    let k = sim().sock(fd).unwrap();
    let new = k.peer.is_none();
    k.peer = Some(x);
    let p = k.proc;
    if new {
        let q = &mut sim().procs[p];
        q.conns += 1;
        q.max_conns = q.max_conns.max(q.conns);
    }
    let k = sim().sock(fd).unwrap();
    if let Some(l) = &mut k.local {
        if l.ip == 0 {
            l.ip = ip_of(host);
        }
    }
    sim().tr(|_| format!("connect fd{} {}", fd - VFD, x.s()));
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_getsockname, fd, a, l)) as c_int;
    }
    let Some(k) = sim().sock(fd) else { return err(EBADF) as c_int };
    let x = k.local.unwrap_or_default();
    wr_addr(x, a, l);
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_getpeername, fd, a, l)) as c_int;
    }
    let Some(k) = sim().sock(fd) else { return err(EBADF) as c_int };
    match k.peer {
        Some(x) => {
            wr_addr(x, a, l);
            0
        }
        None => err(ENOTCONN) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lv: c_int, o: c_int, v: *const c_void, l: socklen_t) -> c_int {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_setsockopt, fd, lv, o, v, l)) as c_int;
    }
    let Some(k) = sim().sock(fd) else { return err(EBADF) as c_int };
    if lv == SOL_SOCKET && l >= 4 {
        let x = *(v as *const c_int);
        if o == SO_REUSEADDR {
            k.reuseaddr = x != 0;
        } else if o == SO_REUSEPORT {
            k.reuseport = x != 0;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lv: c_int, o: c_int, v: *mut c_void, l: *mut socklen_t) -> c_int {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_getsockopt, fd, lv, o, v, l)) as c_int;
    }
    let Some(k) = sim().sock(fd) else { return err(EBADF) as c_int };
    if lv == SOL_SOCKET && !v.is_null() {
        let x = match o {
            SO_ERROR => std::mem::replace(&mut k.err, 0),
            SO_TYPE => SOCK_DGRAM,
            SO_REUSEADDR => k.reuseaddr as c_int,
            SO_REUSEPORT => k.reuseport as c_int,
            _ => 0,
        };
        *(v as *mut c_int) = x;
        *l = 4;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: *mut c_int) -> c_int {
    let _held = crate::heap::Hold::new();
    if in_sim() && fd >= VFD {
        if req == FIONBIO {
            if let Some(k) = sim().sock(fd) {
                k.nonblock = *arg != 0;
            }
        }
        return 0;
    }
    ret(sc!(SYS_ioctl, fd, req, arg)) as c_int
}
unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if in_sim() && fd >= VFD {
        return match cmd {
            F_GETFL => {
                let nb = sim().sock(fd).map(|k| k.nonblock).unwrap_or(true);
                O_RDWR | if nb { O_NONBLOCK } else { 0 }
            }
            F_SETFL => {
                if let Some(k) = sim().sock(fd) {
                    k.nonblock = arg as c_int & O_NONBLOCK != 0;
                }
                0
            }
            F_GETFD | F_SETFD => 0,
            _ => err(EINVAL) as c_int,
        };
    }
    ret(sc!(SYS_fcntl, fd, cmd, arg)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    let _held = crate::heap::Hold::new();
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    let _held = crate::heap::Hold::new();
    do_fcntl(fd, cmd, arg)
}

pub fn do_send(fd: i32, to: Option<Addr>, data: &[u8]) -> Result<usize, i32> {
    let s = sim();
    let Some(k) = s.sock(fd) else { return Err(EBADF) };
    if k.err != 0 {
        return Err(std::mem::replace(&mut k.err, 0));
    }
    let Some(dst) = to.or(k.peer) else { return Err(EDESTADDRREQ) };
    let host = k.host;
    if k.local.is_none() {
        do_bind(fd, Addr { ip: 0, port: 0 })?;
    }
    if data.len() > 65507 {
        return Err(EMSGSIZE);
    }
    if dst.port == 0 {
        return Err(EINVAL);
    }
    let l = s.sock(fd).unwrap().local.unwrap();
    let src = Addr { ip: ip_of(host), port: l.port };
    s.net_send(src, dst, data.to_vec());
    Ok(data.len())
}

#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, b: *const c_void, n: size_t, fl: c_int, a: *const sockaddr, l: socklen_t) -> ssize_t {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_sendto, fd, b, n, fl, a, l)) as ssize_t;
    }
    e();
    let to = if a.is_null() { None } else { rd_addr(a, l) };
    match do_send(fd, to, std::slice::from_raw_parts(b as *const u8, n)) {
        Ok(n) => n as ssize_t,
        Err(x) => err(x) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, fl: c_int) -> ssize_t {
    let _held = crate::heap::Hold::new();
    sendto(fd, b, n, fl, std::ptr::null(), 0)
}

pub fn do_recv(fd: i32) -> Result<Dgram, i32> {
    let s = sim();
    let Some(k) = s.sock(fd) else { return Err(EBADF) };
    if k.err != 0 {
        return Err(std::mem::replace(&mut k.err, 0));
    }
    match k.rx.pop_front() {
        Some(d) => {
            k.rx_bytes = k.rx_bytes.saturating_sub(768 + d.data.len());
            Ok(d)
        }
        None => Err(EAGAIN),
    }
}

#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, b: *mut c_void, n: size_t, fl: c_int, a: *mut sockaddr, l: *mut socklen_t) -> ssize_t {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_recvfrom, fd, b, n, fl, a, l)) as ssize_t;
    }
    e();
    loop {
        let peek = fl & MSG_PEEK != 0;
        if peek {
            if let Some(k) = sim().sock(fd) {
                if let Some(d) = k.rx.front() {
                    let m = d.data.len().min(n);
                    std::ptr::copy_nonoverlapping(d.data.as_ptr(), b as *mut u8, m);
                    wr_addr(d.src, a, l);
                    return m as ssize_t;
                }
            }
        }
        match do_recv(fd) {
            Ok(d) => {
                let m = d.data.len().min(n);
                std::ptr::copy_nonoverlapping(d.data.as_ptr(), b as *mut u8, m);
                wr_addr(d.src, a, l);
                sim().tr(|_| format!("recv fd{} {} from {}", fd - VFD, m, d.src.s()));
                return m as ssize_t;
            }
            Err(EAGAIN) => {
                let nb = sim().sock(fd).map(|k| k.nonblock).unwrap_or(true);
                if nb || fl & MSG_DONTWAIT != 0 {
                    return err(EAGAIN) as ssize_t;
                }
                block(Wait::Sock(fd), None);
            }
            Err(x) => return err(x) as ssize_t,
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: size_t, fl: c_int) -> ssize_t {
    let _held = crate::heap::Hold::new();
    recvfrom(fd, b, n, fl, std::ptr::null_mut(), std::ptr::null_mut())
}

// ---------------- epoll, timerfd, eventfd ----------------

#[no_mangle]
pub unsafe extern "C" fn epoll_create1(fl: c_int) -> c_int {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_epoll_create1, fl)) as c_int;
    }
    let s = sim();
    if let Some((fp, n)) = s.fd_fail_after {
        if fp == me() && s.procs[fp].vfds as u64 >= n {
            s.count(K::SockErr);
            s.last_fault = s.last_fault.max(s.now);
            return err(EMFILE) as c_int;
        }
    }
    s.vfd_new(Vfd::Epoll(Epoll { list: Default::default(), rot: 0 }))
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut epoll_event) -> c_int {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_epoll_ctl, ep, op, fd, ev)) as c_int;
    }
    e();
    let s = sim();
    if fd >= VFD && s.vfd_get(fd).is_none() {
        return err(EBADF) as c_int;
    }
    let Some(Vfd::Epoll(x)) = s.vfd_get(ep) else { return err(EBADF) as c_int };
    let r = match op {
        EPOLL_CTL_ADD => {
            if x.list.contains_key(&fd) {
                EEXIST
            } else {
                x.list.insert(fd, EpEntry { events: (*ev).events, data: (*ev).u64, seen: 0 });
                0
            }
        }
        EPOLL_CTL_MOD => match x.list.get_mut(&fd) {
            Some(en) => {
                en.events = (*ev).events;
                en.data = (*ev).u64;
                en.seen = 0;
                0
            }
            None => ENOENT,
        },
        EPOLL_CTL_DEL => {
            if x.list.remove(&fd).is_some() {
                0
            } else {
                ENOENT
            }
        }
        _ => EINVAL,
    };
    if r != 0 {
        return err(r) as c_int;
    }
    // another task may already wait on this set
    for t in 1..s.tasks.len() {
        if s.tasks[t].st == St::Blocked && s.tasks[t].wait == Wait::Epoll(ep) && s.epoll_any(ep) {
            s.make_ready(t);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, evs: *mut epoll_event, max: c_int, timeout: c_int) -> c_int {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_epoll_wait, ep, evs, max, timeout)) as c_int;
    }
    e();
    let deadline = if timeout < 0 { None } else { Some(sim().now + timeout as u64 * MS) };
    loop {
        let got = sim().epoll_collect(ep, max as usize);
        if !got.is_empty() {
            for (i, (m, d)) in got.iter().enumerate() {
                *evs.add(i) = epoll_event { events: *m, u64: *d };
            }
            return got.len() as c_int;
        }
        if timeout == 0 || deadline.is_some_and(|d| d <= sim().now) {
            return 0;
        }
        block(Wait::Epoll(ep), deadline);
    }
}
#[no_mangle]
pub unsafe extern "C" fn epoll_pwait(ep: c_int, evs: *mut epoll_event, max: c_int, timeout: c_int, m: *const sigset_t) -> c_int {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_epoll_pwait, ep, evs, max, timeout, m, 8)) as c_int;
    }
    epoll_wait(ep, evs, max, timeout)
}
#[no_mangle]
pub unsafe extern "C" fn timerfd_create(c: c_int, fl: c_int) -> c_int {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_timerfd_create, c, fl)) as c_int;
    }
    sim().vfd_new(Vfd::Timer { expire: None, gen: 0 })
}
#[no_mangle]
pub unsafe extern "C" fn timerfd_settime(fd: c_int, fl: c_int, new: *const itimerspec, old: *mut itimerspec) -> c_int {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_timerfd_settime, fd, fl, new, old)) as c_int;
    }
    e();
    let s = sim();
    let now = s.now;
    let v = &(*new).it_value;
    let d = v.tv_sec as u64 * SEC + v.tv_nsec as u64;
    let Some(Vfd::Timer { expire, gen }) = s.vfd_get(fd) else { return err(EBADF) as c_int };
    *gen += 1;
    let g = *gen;
    if d == 0 {
        *expire = None;
    } else {
        let t = if fl & TFD_TIMER_ABSTIME != 0 { d } else { now + d };
        *expire = Some(t);
        s.at(t, Ev::TimerFd(fd, g));
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(init: c_uint, fl: c_int) -> c_int {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_eventfd2, init, fl)) as c_int;
    }
    sim().vfd_new(Vfd::Event { count: init as u64, gen: 0 })
}

// ---------------- time ----------------

pub const WALL_BASE: u64 = 1_700_000_000 * SEC - 1_000_000 * SEC;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: clockid_t, ts: *mut timespec) -> c_int {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_clock_gettime, c, ts)) as c_int;
    }
    let cost = sim().sched.clock_cost_ns;
    // reading the clock is not a scheduling point, but time passes
    sim().now += cost;
    sim().steps += 1;
    let s = sim();
    if s.steps >= s.max_steps || s.now >= s.end_at {
        enter(0);
    }
    let n = if c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE {
        (s.now as i64 + WALL_BASE as i64 + s.procs[me()].wall_off).max(0) as u64
    } else {
        s.now
    };
    (*ts).tv_sec = (n / SEC) as i64;
    (*ts).tv_nsec = (n % SEC) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_nanosleep, req, rem)) as c_int;
    }
    e();
    let d = (*req).tv_sec as u64 * SEC + (*req).tv_nsec as u64;
    let t = sim().now + d;
    sleep_until(t);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: clockid_t, fl: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        let r = sc!(SYS_clock_nanosleep, c, fl, req, rem);
        return (-r) as c_int;
    }
    e();
    let d = (*req).tv_sec as u64 * SEC + (*req).tv_nsec as u64;
    let t = if fl & TIMER_ABSTIME != 0 { d } else { sim().now + d };
    sleep_until(t);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_sched_yield)) as c_int;
    }
    let c = sim().sched.cost_ns;
    enter(c);
    0
}

// ---------------- randomness, futex, threads ----------------

unsafe fn fill_random(buf: *mut u8, n: usize) {
    let s = sim();
    let p = me();
    let mut i = 0;
    while i < n {
        s.procs[p].rand_ctr += 1;
        let x = hash3(s.seed ^ 0xd1ce, p as u64, s.procs[p].rand_ctr);
        for (j, b) in x.to_le_bytes().iter().enumerate() {
            if i + j < n {
                *buf.add(i + j) = *b;
            }
        }
        i += 8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(sc!(SYS_getrandom, buf, n, fl)) as ssize_t;
    }
    fill_random(buf as *mut u8, n);
    n as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, f: c_long, g: c_long) -> c_long {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return ret(raw::syscall6(n, a, b, c, d, f, g));
    }
    match n {
        SYS_getrandom => getrandom(a as *mut c_void, b as usize, c as c_uint) as c_long,
        SYS_futex => {
            let op = b as c_int & !(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
            match op {
                FUTEX_WAIT | FUTEX_WAIT_BITSET => {
                    e();
                    if *(a as *const u32) != c as u32 {
                        return err(EAGAIN);
                    }
                    let ts = d as *const timespec;
                    let dl = if ts.is_null() {
                        None
                    } else {
                        let t = (*ts).tv_sec as u64 * SEC + (*ts).tv_nsec as u64;
                        Some(if op == FUTEX_WAIT_BITSET { t } else { sim().now + t })
                    };
                    if block(Wait::Futex(a as usize), dl) {
                        return err(ETIMEDOUT);
                    }
                    0
                }
                FUTEX_WAKE | FUTEX_WAKE_BITSET => {
                    let mut k = 0;
                    let s = sim();
                    // oldest waiter first
                    let mut w: Vec<(u64, usize)> = vec![];
                    for t in 1..s.tasks.len() {
                        if s.tasks[t].st == St::Blocked && s.tasks[t].wait == Wait::Futex(a as usize) {
                            w.push((s.tasks[t].wseq, t));
                        }
                    }
                    for (_, t) in w {
                        if k >= c {
                            break;
                        }
                        s.make_ready(t);
                        k += 1;
                    }
                    e();
                    k
                }
                _ => err(ENOSYS),
            }
        }
        _ => ret(raw::syscall6(n, a, b, c, d, f, g)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    th: *mut pthread_t,
    attr: *const pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let _held = crate::heap::Hold::new();
    if !in_sim() {
        return real_pthread_create()(th, attr, f, arg);
    }
    e();
    let p = me();
    let name = format!("{}-thr", sim().procs[p].name);
    let task = new_task(p, name);
    let st = Box::new(Start { task, go: crate::kern::go_of(task) as usize, f: None, c: Some((f, arg)) });
    let r = rawly(|| real_pthread_create()(th, attr, trampoline, Box::into_raw(st) as *mut c_void));
    if r != 0 {
        sim().violations.push(format!("harness: pthread_create {r}"));
        return r;
    }
    sim().tasks[task].pthread = *th as u64;
    sim().tasks[task].freed = false;
    sim().h(0x7412, task as u64);
    e();
    0
}
type PthreadJoin = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int;
#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: pthread_t, r: *mut *mut c_void) -> c_int {
    let _held = crate::heap::Hold::new();
    static mut P: Option<PthreadJoin> = None;
    if P.is_none() {
        P = Some(std::mem::transmute::<*mut c_void, PthreadJoin>(dlsym(RTLD_NEXT, c"pthread_join".as_ptr())));
    }
    if in_sim() {
        e();
        // newest task with this handle (handles are reused)
        let mut t = sim().tasks.len();
        while t > 1 {
            t -= 1;
            if sim().tasks[t].pthread == th as u64 {
                sim().tasks[t].freed = true;
                while matches!(sim().tasks[t].st, St::Ready | St::Blocked) {
                    block(Wait::Join(t), None);
                }
                break;
            }
        }
        return rawly(|| P.unwrap()(th, r));
    }
    P.unwrap()(th, r)
}

type PthreadDetach = unsafe extern "C" fn(pthread_t) -> c_int;
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(th: pthread_t) -> c_int {
    let _held = crate::heap::Hold::new();
    static mut P: Option<PthreadDetach> = None;
    if P.is_none() {
        P = Some(std::mem::transmute::<*mut c_void, PthreadDetach>(dlsym(RTLD_NEXT, c"pthread_detach".as_ptr())));
    }
    if in_sim() {
        if let Some(t) = sim().tasks.iter_mut().rev().find(|t| t.pthread == th as u64) {
            t.freed = true;
        }
        return rawly(|| P.unwrap()(th));
    }
    P.unwrap()(th)
}

#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    let _held = crate::heap::Hold::new();
    if in_sim() {
        let p = me();
        proc_exit(p, PState::ExitCode(code));
        task_stop();
    }
    // output is flushed explicitly by the harness
    sc!(SYS_exit_group, code);
    loop {}
}

// std lets only one thread leave the program: the second simulated process that exits waits here
#[no_mangle]
pub unsafe extern "C" fn pause() -> c_int {
    let _held = crate::heap::Hold::new();
    if in_sim() {
        exit(2);
    }
    ret(sc!(SYS_pause)) as c_int
}

// ---------------- argv ----------------

static mut ARGV: *mut *const c_char = std::ptr::null_mut();
static mut ARGC: c_int = 0;

extern "C" fn save_argv(argc: c_int, argv: *mut *const c_char, _env: *mut *const c_char) {
    unsafe {
        ARGV = argv;
        ARGC = argc;
    }
}
#[used]
#[link_section = ".init_array"]
static INIT: extern "C" fn(c_int, *mut *const c_char, *mut *const c_char) = save_argv;

pub fn argc() -> i32 {
    unsafe { ARGC }
}
/// replace the arguments std::env::args sees
pub fn set_args(args: &[String]) {
    unsafe {
        assert!((args.len() as i32) < ARGC, "harness started with too few dummy arguments");
        for (i, a) in args.iter().enumerate() {
            let c = CString::new(a.as_str()).unwrap_or_default();
            *ARGV.add(i) = c.into_raw();
        }
        *ARGV.add(args.len()) = std::ptr::null();
    }
}
