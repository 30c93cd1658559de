//! The seam: libc entry points. On a simulated process's thread they act on the simulated
//! machine; on every other thread they are forwarded to the real libc.

use super::net::SockState;
use super::vfs::{Ino, R, ROOT};
use super::world::*;
use libc::*;
use std::ffi::CStr;
use std::sync::atomic::{AtomicUsize, Ordering};

macro_rules! real {
    ($name:literal, fn($($t:ty),*) -> $r:ty) => {{
        static P: AtomicUsize = AtomicUsize::new(0);
        let mut p = P.load(Ordering::Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
            if p == 0 {
                libc::abort();
            }
            P.store(p, Ordering::Relaxed);
        }
        std::mem::transmute::<usize, unsafe extern "C" fn($($t),*) -> $r>(p)
    }};
}

/// Marks the thread as inside the simulator; nested libc calls are real.
pub struct In(pub Pid);
impl Drop for In {
    fn drop(&mut self) {
        BUSY.with(|b| b.set(false));
    }
}
pub fn enter() -> Option<In> {
    let pid = CUR.with(|c| c.get());
    if pid == 0 || BUSY.with(|b| b.get()) {
        return None;
    }
    BUSY.with(|b| b.set(true));
    Some(In(pid))
}

unsafe fn fin(g: In, r: R<i64>) -> i64 {
    match r {
        Ok(v) => {
            drop(g);
            v
        }
        Err(e) => {
            drop(g);
            *libc::__errno_location() = e;
            -1
        }
    }
}

unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}
fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

pub fn unsupported(what: &str) {
    let wd = w();
    if wd.unsupported.is_none() {
        wd.unsupported = Some(what.to_string());
    }
}

fn at_dir(pid: Pid, dirfd: i32) -> R<Ino> {
    let wd = w();
    if dirfd == AT_FDCWD {
        return Ok(wd.procs[pid].cwd);
    }
    let o = wd.ofd(pid, dirfd)?;
    match wd.ofds[o].kind {
        OfdKind::Node(i) => Ok(i),
        _ => Err(ENOTDIR),
    }
}

/// One simulated system call: schedule, fault, effect, log.
fn call(
    pid: Pid,
    op: &'static str,
    arg: impl FnOnce() -> String,
    cls: Class,
    f: impl FnOnce(&mut World) -> R<i64>,
) -> R<i64> {
    if sched_point(pid) {
        ghost_tick(pid);
        return Err(EIO);
    }
    let wd = w();
    let arg = arg();
    let r = match wd.inject(pid, cls, &arg) {
        Some(e) => {
            wd.log(pid, op, &format!("{} [fault]", arg), -(e as i64));
            return Err(e);
        }
        None => f(wd),
    };
    wd.log(pid, op, &arg, match r { Ok(v) => v, Err(e) => -(e as i64) });
    r
}

fn ghost_tick(pid: Pid) {
    let p = &mut w().procs[pid];
    p.ghost_steps += 1;
    if p.ghost_steps > 200_000 {
        // a killed process's thread that will not end: a harness limitation, not a verdict
        eprintln!("HARNESS: ghost of {} does not terminate", p.name);
        unsafe { libc::_exit(70) }
    }
}

fn std_fd(fd: i32) -> bool {
    (0..=2).contains(&fd)
}

// ---------------------------------------------------------------- files

unsafe fn s_open(g: In, dirfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let pid = g.0;
    let p = bytes(path);
    let cls = if flags & O_CREAT != 0 || flags & O_TMPFILE == O_TMPFILE {
        Class::Create
    } else {
        Class::Open
    };
    let r = call(pid, "open", || format!("{} {:#o}", show(p), flags & !O_CLOEXEC), cls, |wd| {
        if p == b"/dev/null" {
            let o = wd.new_ofd(OfdKind::Null, flags);
            return Ok(wd.new_fd(pid, o, flags & O_CLOEXEC != 0) as i64);
        }
        let cwd = at_dir(pid, dirfd)?;
        let i = wd.fs.open(cwd, p, flags, mode)?;
        let o = wd.new_ofd(OfdKind::Node(i), flags);
        Ok(wd.new_fd(pid, o, flags & O_CLOEXEC != 0) as i64)
    });
    fin(g, r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match enter() {
        None => real!("open64", fn(*const c_char, c_int, c_uint) -> c_int)(path, flags, mode),
        Some(g) => s_open(g, AT_FDCWD, path, flags, mode),
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match enter() {
        None => real!("open", fn(*const c_char, c_int, c_uint) -> c_int)(path, flags, mode),
        Some(g) => s_open(g, AT_FDCWD, path, flags, mode),
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match enter() {
        None => real!("openat64", fn(c_int, *const c_char, c_int, c_uint) -> c_int)(d, path, flags, mode),
        Some(g) => s_open(g, d, path, flags, mode),
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match enter() {
        None => real!("openat", fn(c_int, *const c_char, c_int, c_uint) -> c_int)(d, path, flags, mode),
        Some(g) => s_open(g, d, path, flags, mode),
    }
}
#[no_mangle]
pub unsafe extern "C" fn creat64(path: *const c_char, mode: c_uint) -> c_int {
    open64(path, O_CREAT | O_WRONLY | O_TRUNC, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    match enter() {
        None => real!("close", fn(c_int) -> c_int)(fd),
        Some(g) => {
            let pid = g.0;
            if std_fd(fd) {
                return fin(g, Ok(0)) as c_int;
            }
            if w().procs[pid].ghost {
                return fin(g, Ok(0)) as c_int;
            }
            let r = call(pid, "close", || norm_fd(pid, fd), Class::Close, |wd| {
                wd.close_fd(pid, fd)?;
                Ok(0)
            });
            let r = if w().procs[pid].ghost { Ok(0) } else { r };
            fin(g, r) as c_int
        }
    }
}
fn norm_fd(pid: Pid, fd: i32) -> String {
    let wd = w();
    match wd.ofd(pid, fd) {
        Ok(o) => match wd.ofds[o].kind {
            OfdKind::Node(i) => format!("fd{}:ino{}", fd % 1000, i),
            OfdKind::Sock(s) => format!("fd{}:sock{}", fd % 1000, s),
            _ => format!("fd{}", fd % 1000),
        },
        Err(_) => format!("fd{}:bad", fd),
    }
}

unsafe fn s_read(g: In, fd: c_int, buf: *mut u8, n: usize, off: Option<u64>) -> isize {
    let pid = g.0;
    if fd == 0 {
        return fin(g, Ok(0)) as isize;
    }
    let kind = w().ofd(pid, fd).map(|o| w().ofds[o].kind.clone());
    let sl = std::slice::from_raw_parts_mut(buf, n);
    match kind {
        Ok(OfdKind::Sock(_)) => return s_recv(g, fd, buf, n, 0),
        Ok(OfdKind::PipeR(p)) => {
            let r = (|| {
                if sched_point(pid) {
                    return Err(EIO);
                }
                loop {
                    if w().pipes[p].data.is_empty() && w().pipes[p].writers > 0 {
                        if !block(pid, Cond::PipeRead(p), None)? {
                            continue;
                        }
                    }
                    let mut k = 0;
                    while k < n {
                        match w().pipes[p].data.pop_front() {
                            Some(b) => {
                                sl[k] = b;
                                k += 1
                            }
                            None => break,
                        }
                    }
                    w().log(pid, "read-pipe", "", k as i64);
                    return Ok(k as i64);
                }
            })();
            return fin(g, r) as isize;
        }
        _ => (),
    }
    let r = call(pid, "read", || format!("{} n={}", norm_fd(pid, fd), n), Class::Read, |wd| {
        let o = wd.ofd(pid, fd)?;
        if wd.ofds[o].flags & O_ACCMODE == O_WRONLY {
            return Err(EBADF);
        }
        match wd.ofds[o].kind {
            OfdKind::Node(i) => {
                let pos = off.unwrap_or(wd.ofds[o].pos);
                let avail = (wd.fs.size(i) as usize).saturating_sub(pos as usize).min(n);
                let m = if wd.fs.is_dir(i) { n } else { wd.shorten(avail) };
                let k = wd.fs.read_at(i, pos, &mut sl[..m])?;
                if off.is_none() {
                    wd.ofds[o].pos += k as u64;
                }
                Ok(k as i64)
            }
            OfdKind::Null => Ok(0),
            _ => Err(EBADF),
        }
    });
    fin(g, r) as isize
}

unsafe fn s_write(g: In, fd: c_int, data: &[u8], off: Option<u64>) -> isize {
    let pid = g.0;
    if std_fd(fd) {
        return fin(g, Ok(data.len() as i64)) as isize;
    }
    let kind = w().ofd(pid, fd).map(|o| w().ofds[o].kind.clone());
    if let Ok(OfdKind::Sock(_)) = kind {
        return s_send(g, fd, data);
    }
    if !w().procs[pid].ghost {
        // dying in the middle of a write: part of it may have happened
        let before = w().procs[pid].ghost;
        if sched_point(pid) && !before {
            if let Ok(OfdKind::Node(i)) = kind {
                let wd = w();
                if wd.ch.chance(500) {
                    let k = wd.ch.choose(data.len() + 1);
                    // the position is gone with the descriptor; only plain appends are modelled
                    if k > 0 {
                        if let (Some(pos), false) = (off.or(Some(wd.fs.size(i))), wd.fs.is_dir(i)) {
                            let _ = wd.fs.write_at(i, pos, &data[..k]);
                            wd.stat("write_torn_by_kill");
                        }
                    }
                }
            }
            return fin(g, Err(EIO)) as isize;
        }
    }
    if w().procs[pid].ghost {
        ghost_tick(pid);
        return fin(g, Err(EIO)) as isize;
    }
    let wd = w();
    let n = data.len();
    let arg = format!("{} n={}", norm_fd(pid, fd), n);
    let r = match wd.inject(pid, Class::Write, &arg) {
        Some(e) => Err(e),
        None => (|| {
            let o = wd.ofd(pid, fd)?;
            if wd.ofds[o].flags & O_ACCMODE == O_RDONLY {
                return Err(EBADF);
            }
            match wd.ofds[o].kind {
                OfdKind::Node(i) => {
                    let pos = if wd.ofds[o].flags & O_APPEND != 0 {
                        wd.fs.size(i)
                    } else {
                        off.unwrap_or(wd.ofds[o].pos)
                    };
                    let m = wd.shorten(n);
                    let k = wd.fs.write_at(i, pos, &data[..m])?;
                    if off.is_none() {
                        wd.ofds[o].pos = pos + k as u64;
                    }
                    Ok(k as i64)
                }
                OfdKind::PipeW(p) => {
                    if wd.pipes[p].readers == 0 {
                        return Err(EPIPE);
                    }
                    wd.pipes[p].data.extend(data.iter().copied());
                    Ok(n as i64)
                }
                OfdKind::Null => Ok(n as i64),
                _ => Err(EBADF),
            }
        })(),
    };
    let rl = match r {
        Ok(v) => v,
        Err(e) => -(e as i64),
    };
    w().log(pid, "write", &arg, rl);
    fin(g, r) as isize
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    match enter() {
        None => real!("read", fn(c_int, *mut c_void, size_t) -> ssize_t)(fd, buf, n),
        Some(g) => s_read(g, fd, buf as *mut u8, n, None),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    match enter() {
        None => real!("pread64", fn(c_int, *mut c_void, size_t, off64_t) -> ssize_t)(fd, buf, n, off),
        Some(g) => s_read(g, fd, buf as *mut u8, n, Some(off as u64)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    match enter() {
        None => real!("readv", fn(c_int, *const iovec, c_int) -> ssize_t)(fd, iov, cnt),
        Some(g) => {
            for k in 0..cnt {
                let v = &*iov.add(k as usize);
                if v.iov_len > 0 {
                    return s_read(g, fd, v.iov_base as *mut u8, v.iov_len, None);
                }
            }
            fin(g, Ok(0)) as isize
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    match enter() {
        None => real!("write", fn(c_int, *const c_void, size_t) -> ssize_t)(fd, buf, n),
        Some(g) => s_write(g, fd, std::slice::from_raw_parts(buf as *const u8, n), None),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    match enter() {
        None => real!("pwrite64", fn(c_int, *const c_void, size_t, off64_t) -> ssize_t)(fd, buf, n, off),
        Some(g) => s_write(g, fd, std::slice::from_raw_parts(buf as *const u8, n), Some(off as u64)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    match enter() {
        None => real!("writev", fn(c_int, *const iovec, c_int) -> ssize_t)(fd, iov, cnt),
        Some(g) => {
            let mut v = vec![];
            for k in 0..cnt {
                let io = &*iov.add(k as usize);
                v.extend_from_slice(std::slice::from_raw_parts(io.iov_base as *const u8, io.iov_len));
            }
            s_write(g, fd, &v, None)
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    match enter() {
        None => real!("lseek64", fn(c_int, off64_t, c_int) -> off64_t)(fd, off, wh),
        Some(g) => {
            let pid = g.0;
            if w().procs[pid].ghost {
                ghost_tick(pid);
                return fin(g, Err(EIO));
            }
            // not a scheduling point: positions are private to the descriptor
            let wd = w();
            let r = (|| {
                let o = wd.ofd(pid, fd)?;
                let i = match wd.ofds[o].kind {
                    OfdKind::Node(i) => i,
                    _ => return Err(ESPIPE),
                };
                let base = match wh {
                    SEEK_SET => 0,
                    SEEK_CUR => wd.ofds[o].pos as i64,
                    SEEK_END => wd.fs.size(i) as i64,
                    _ => return Err(EINVAL),
                };
                let p = base.checked_add(off).ok_or(EOVERFLOW)?;
                if p < 0 {
                    return Err(EINVAL);
                }
                wd.ofds[o].pos = p as u64;
                Ok(p)
            })();
            fin(g, r)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, wh: c_int) -> off_t {
    lseek64(fd, off, wh)
}

fn ino_of(pid: Pid, fd: i32) -> R<Ino> {
    let o = w().ofd(pid, fd)?;
    match w().ofds[o].kind {
        OfdKind::Node(i) => Ok(i),
        _ => Err(EINVAL),
    }
}

macro_rules! fd_op {
    ($name:ident, $str:literal, ($($a:ident : $t:ty),*), $cls:expr, |$wd:ident, $i:ident| $body:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: c_int $(, $a: $t)*) -> c_int {
            match enter() {
                None => real!($str, fn(c_int $(, $t)*) -> c_int)(fd $(, $a)*),
                Some(g) => {
                    let pid = g.0;
                    if std_fd(fd) { return fin(g, Ok(0)) as c_int; }
                    let r = call(pid, $str, || norm_fd(pid, fd), $cls, |$wd| {
                        let $i = ino_of(pid, fd)?;
                        $body
                    });
                    fin(g, r) as c_int
                }
            }
        }
    };
}
fd_op!(ftruncate64, "ftruncate64", (len: off64_t), Class::Write, |wd, i| {
    wd.fs.truncate(i, len as u64)?;
    Ok(0)
});
fd_op!(ftruncate, "ftruncate", (len: off_t), Class::Write, |wd, i| {
    wd.fs.truncate(i, len as u64)?;
    Ok(0)
});
fd_op!(fsync, "fsync", (), Class::Sync, |wd, i| {
    wd.fs.sync(i);
    Ok(0)
});
fd_op!(fdatasync, "fdatasync", (), Class::Sync, |wd, i| {
    wd.fs.sync(i);
    Ok(0)
});
fd_op!(syncfs, "syncfs", (), Class::Sync, |wd, _i| {
    wd.fs.sync_all();
    Ok(0)
});
fd_op!(fchmod, "fchmod", (mode: mode_t), Class::Meta, |wd, i| {
    wd.fs.chmod(i, mode);
    Ok(0)
});
fd_op!(fallocate64, "fallocate64", (_m: c_int, off: off64_t, len: off64_t), Class::Write, |wd, i| {
    let end = (off + len) as u64;
    if end > wd.fs.size(i) { wd.fs.truncate(i, end)?; }
    Ok(0)
});
fd_op!(futimens, "futimens", (_t: *const timespec), Class::Meta, |_wd, _i| Ok(0));
fd_op!(fchown, "fchown", (_u: uid_t, _g: gid_t), Class::Meta, |_wd, _i| Ok(0));
fd_op!(posix_fadvise64, "posix_fadvise64", (_o: off64_t, _l: off64_t, _a: c_int), Class::Misc, |_wd, _i| Ok(0));

#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    match enter() {
        None => real!("flock", fn(c_int, c_int) -> c_int)(fd, op),
        Some(g) => {
            let pid = g.0;
            let r = (|| {
                if sched_point(pid) {
                    ghost_tick(pid);
                    return Err(EIO);
                }
                let nb = op & LOCK_NB != 0;
                let o = w().ofd(pid, fd)?;
                match op & !LOCK_NB {
                    LOCK_UN => {
                        w().ofds[o].lock = None;
                        w().log(pid, "unlock", &norm_fd(pid, fd), 0);
                        Ok(0)
                    }
                    k @ (LOCK_EX | LOCK_SH) => {
                        let excl = k == LOCK_EX;
                        let cls = if nb { Class::Misc } else { Class::Lock };
                        if let Some(e) = w().inject(pid, cls, &norm_fd(pid, fd)) {
                            w().log(pid, "flock", &format!("{} [fault]", norm_fd(pid, fd)), -(e as i64));
                            return Err(e);
                        }
                        if nb && !w().flock_free(o, excl) {
                            return Err(EWOULDBLOCK);
                        }
                        let mut waited = false;
                        while !w().flock_free(o, excl) {
                            if !waited {
                                waited = true;
                                w().log(pid, "flock-wait", &norm_fd(pid, fd), 0);
                                w().probe("lock_contended");
                            }
                            block(pid, Cond::Flock(o, excl), None)?;
                        }
                        w().ofds[o].lock = Some(excl);
                        w().log(pid, "flock", &norm_fd(pid, fd), 0);
                        Ok(0)
                    }
                    _ => Err(EINVAL),
                }
            })();
            fin(g, r) as c_int
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    match enter() {
        None => real!("fcntl", fn(c_int, c_int, usize) -> c_int)(fd, cmd, arg),
        Some(g) => {
            let pid = g.0;
            if std_fd(fd) {
                return fin(g, Ok(0)) as c_int;
            }
            if w().procs[pid].ghost {
                return fin(g, Err(EIO)) as c_int;
            }
            let wd = w();
            let r = (|| {
                let o = wd.ofd(pid, fd)?;
                match cmd {
                    F_DUPFD | F_DUPFD_CLOEXEC => {
                        Ok(wd.fd_from(pid, o, cmd == F_DUPFD_CLOEXEC, arg as i32) as i64)
                    }
                    F_GETFD => Ok(wd.procs[pid].fds[&fd].1 as i64),
                    F_SETFD => {
                        wd.procs[pid].fds.get_mut(&fd).unwrap().1 = arg & FD_CLOEXEC as usize != 0;
                        Ok(0)
                    }
                    F_GETFL => Ok(wd.ofds[o].flags as i64),
                    F_SETFL => {
                        if let OfdKind::Sock(s) = wd.ofds[o].kind {
                            wd.net.socks[s].nonblock = arg as i32 & O_NONBLOCK != 0;
                        }
                        Ok(0)
                    }
                    _ => {
                        unsupported("fcntl");
                        Err(EINVAL)
                    }
                }
            })();
            fin(g, r) as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: *mut c_void) -> c_int {
    match enter() {
        None => real!("ioctl", fn(c_int, c_ulong, *mut c_void) -> c_int)(fd, req, arg),
        Some(g) => {
            let pid = g.0;
            if std_fd(fd) {
                return fin(g, Err(ENOTTY)) as c_int;
            }
            let wd = w();
            let r = (|| {
                if wd.procs[pid].ghost {
                    return Err(EIO);
                }
                let o = wd.ofd(pid, fd)?;
                if req == FIOCLEX as c_ulong {
                    wd.procs[pid].fds.get_mut(&fd).unwrap().1 = true;
                    return Ok(0);
                }
                if req == FIONBIO as c_ulong {
                    if let OfdKind::Sock(s) = wd.ofds[o].kind {
                        wd.net.socks[s].nonblock = *(arg as *const c_int) != 0;
                    }
                    return Ok(0);
                }
                // FICLONE and the like: not supported by this file system
                Err(EOPNOTSUPP)
            })();
            fin(g, r) as c_int
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    match enter() {
        None => real!("dup", fn(c_int) -> c_int)(fd),
        Some(g) => {
            let pid = g.0;
            let r = w().ofd(pid, fd).map(|o| w().new_fd(pid, o, false) as i64);
            fin(g, r) as c_int
        }
    }
}
unsafe fn s_dup2(g: In, a: c_int, b: c_int) -> c_int {
    let pid = g.0;
    let wd = w();
    let r = (|| {
        let o = wd.ofd(pid, a)?;
        if a != b {
            let _ = wd.close_fd(pid, b);
            wd.ofds[o].refs += 1;
            wd.procs[pid].fds.insert(b, (o, false));
        }
        Ok(b as i64)
    })();
    fin(g, r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn dup2(a: c_int, b: c_int) -> c_int {
    match enter() {
        None => real!("dup2", fn(c_int, c_int) -> c_int)(a, b),
        Some(g) => s_dup2(g, a, b),
    }
}
#[no_mangle]
pub unsafe extern "C" fn dup3(a: c_int, b: c_int, f: c_int) -> c_int {
    match enter() {
        None => real!("dup3", fn(c_int, c_int, c_int) -> c_int)(a, b, f),
        Some(g) => s_dup2(g, a, b),
    }
}

// ---------------------------------------------------------------- names

macro_rules! path_op {
    ($name:ident, $str:literal, ($($a:ident : $t:ty),*), $cls:expr, |$wd:ident, $cwd:ident, $p:ident| $body:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(path: *const c_char $(, $a: $t)*) -> c_int {
            match enter() {
                None => real!($str, fn(*const c_char $(, $t)*) -> c_int)(path $(, $a)*),
                Some(g) => {
                    let pid = g.0;
                    let $p = bytes(path);
                    let r = call(pid, $str, || show($p), $cls, |$wd| {
                        let $cwd = $wd.procs[pid].cwd;
                        $body
                    });
                    fin(g, r) as c_int
                }
            }
        }
    };
}
path_op!(mkdir, "mkdir", (mode: mode_t), Class::Meta, |wd, cwd, p| {
    wd.fs.mkdir(cwd, p, mode)?;
    Ok(0)
});
path_op!(rmdir, "rmdir", (), Class::Remove, |wd, cwd, p| {
    wd.fs.rmdir(cwd, p)?;
    Ok(0)
});
path_op!(unlink, "unlink", (), Class::Remove, |wd, cwd, p| {
    wd.fs.unlink(cwd, p)?;
    Ok(0)
});
path_op!(chmod, "chmod", (mode: mode_t), Class::Meta, |wd, cwd, p| {
    let i = wd.fs.lookup(cwd, p, true)?;
    wd.fs.chmod(i, mode);
    Ok(0)
});
path_op!(access, "access", (_m: c_int), Class::Stat, |wd, cwd, p| {
    wd.fs.lookup(cwd, p, true)?;
    Ok(0)
});
path_op!(chdir, "chdir", (), Class::Stat, |wd, cwd, p| {
    let i = wd.fs.lookup(cwd, p, true)?;
    if !wd.fs.is_dir(i) {
        return Err(ENOTDIR);
    }
    let pid = wd.fs.pid;
    wd.procs[pid].cwd = i;
    Ok(0)
});
path_op!(truncate64, "truncate64", (len: off64_t), Class::Write, |wd, cwd, p| {
    let i = wd.fs.lookup(cwd, p, true)?;
    wd.fs.truncate(i, len as u64)?;
    Ok(0)
});
path_op!(chown, "chown", (_u: uid_t, _g: gid_t), Class::Meta, |wd, cwd, p| {
    wd.fs.lookup(cwd, p, true)?;
    Ok(0)
});
path_op!(lchown, "lchown", (_u: uid_t, _g: gid_t), Class::Meta, |wd, cwd, p| {
    wd.fs.lookup(cwd, p, false)?;
    Ok(0)
});
path_op!(mknod, "mknod", (_m: mode_t, _d: dev_t), Class::Meta, |_wd, _cwd, _p| {
    unsupported("mknod");
    Err(EPERM)
});
path_op!(mkfifo, "mkfifo", (_m: mode_t), Class::Meta, |_wd, _cwd, _p| {
    unsupported("mkfifo");
    Err(EPERM)
});

#[no_mangle]
pub unsafe extern "C" fn mkdirat(d: c_int, path: *const c_char, mode: mode_t) -> c_int {
    match enter() {
        None => real!("mkdirat", fn(c_int, *const c_char, mode_t) -> c_int)(d, path, mode),
        Some(g) => {
            let pid = g.0;
            let p = bytes(path);
            let r = call(pid, "mkdirat", || show(p), Class::Meta, |wd| {
                let cwd = at_dir(pid, d)?;
                wd.fs.mkdir(cwd, p, mode)?;
                Ok(0)
            });
            fin(g, r) as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, path: *const c_char, flags: c_int) -> c_int {
    match enter() {
        None => real!("unlinkat", fn(c_int, *const c_char, c_int) -> c_int)(d, path, flags),
        Some(g) => {
            let pid = g.0;
            let p = bytes(path);
            let r = call(pid, "unlinkat", || show(p), Class::Remove, |wd| {
                let cwd = at_dir(pid, d)?;
                if flags & AT_REMOVEDIR != 0 {
                    wd.fs.rmdir(cwd, p)?;
                } else {
                    wd.fs.unlink(cwd, p)?;
                }
                Ok(0)
            });
            fin(g, r) as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn remove(path: *const c_char) -> c_int {
    let r = unlink(path);
    if r == -1 && *libc::__errno_location() == EISDIR {
        return rmdir(path);
    }
    r
}

unsafe fn s_rename(g: In, d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, nr: bool) -> c_int {
    let pid = g.0;
    let (pa, pb) = (bytes(a), bytes(b));
    let r = call(pid, "rename", || format!("{} => {}", show(pa), show(pb)), Class::Meta, |wd| {
        let (c1, c2) = (at_dir(pid, d1)?, at_dir(pid, d2)?);
        wd.fs.rename(c1, pa, c2, pb, nr)?;
        Ok(0)
    });
    fin(g, r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match enter() {
        None => real!("rename", fn(*const c_char, *const c_char) -> c_int)(a, b),
        Some(g) => s_rename(g, AT_FDCWD, a, AT_FDCWD, b, false),
    }
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int {
    match enter() {
        None => real!("renameat", fn(c_int, *const c_char, c_int, *const c_char) -> c_int)(d1, a, d2, b),
        Some(g) => s_rename(g, d1, a, d2, b, false),
    }
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, f: c_uint) -> c_int {
    match enter() {
        None => real!("renameat2", fn(c_int, *const c_char, c_int, *const c_char, c_uint) -> c_int)(d1, a, d2, b, f),
        Some(g) => s_rename(g, d1, a, d2, b, f & 1 != 0),
    }
}

unsafe fn s_symlink(g: In, t: *const c_char, d: c_int, path: *const c_char) -> c_int {
    let pid = g.0;
    let (t, p) = (bytes(t), bytes(path));
    let r = call(pid, "symlink", || format!("{} -> {}", show(p), show(t)), Class::Meta, |wd| {
        let cwd = at_dir(pid, d)?;
        wd.fs.symlink(t, cwd, p)?;
        Ok(0)
    });
    fin(g, r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(t: *const c_char, path: *const c_char) -> c_int {
    match enter() {
        None => real!("symlink", fn(*const c_char, *const c_char) -> c_int)(t, path),
        Some(g) => s_symlink(g, t, AT_FDCWD, path),
    }
}
#[no_mangle]
pub unsafe extern "C" fn symlinkat(t: *const c_char, d: c_int, path: *const c_char) -> c_int {
    match enter() {
        None => real!("symlinkat", fn(*const c_char, c_int, *const c_char) -> c_int)(t, d, path),
        Some(g) => s_symlink(g, t, d, path),
    }
}
unsafe fn s_link(g: In, d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, fl: c_int) -> c_int {
    let pid = g.0;
    let (pa, pb) = (bytes(a), bytes(b));
    let r = call(pid, "link", || format!("{} => {}", show(pa), show(pb)), Class::Meta, |wd| {
        let (c1, c2) = (at_dir(pid, d1)?, at_dir(pid, d2)?);
        wd.fs.link(c1, pa, c2, pb, fl & AT_SYMLINK_FOLLOW != 0)?;
        Ok(0)
    });
    fin(g, r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    match enter() {
        None => real!("link", fn(*const c_char, *const c_char) -> c_int)(a, b),
        Some(g) => s_link(g, AT_FDCWD, a, AT_FDCWD, b, 0),
    }
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, fl: c_int) -> c_int {
    match enter() {
        None => real!("linkat", fn(c_int, *const c_char, c_int, *const c_char, c_int) -> c_int)(d1, a, d2, b, fl),
        Some(g) => s_link(g, d1, a, d2, b, fl),
    }
}

unsafe fn s_readlink(g: In, d: c_int, path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    let pid = g.0;
    let p = bytes(path);
    let r = call(pid, "readlink", || show(p), Class::Stat, |wd| {
        let cwd = at_dir(pid, d)?;
        let i = wd.fs.lookup(cwd, p, false)?;
        match &wd.fs.inodes[i].kind {
            super::vfs::Kind::Link(t) => {
                let k = t.len().min(n);
                std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k);
                Ok(k as i64)
            }
            _ => Err(EINVAL),
        }
    });
    fin(g, r) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    match enter() {
        None => real!("readlink", fn(*const c_char, *mut c_char, size_t) -> ssize_t)(path, buf, n),
        Some(g) => s_readlink(g, AT_FDCWD, path, buf, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlinkat(d: c_int, path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    match enter() {
        None => real!("readlinkat", fn(c_int, *const c_char, *mut c_char, size_t) -> ssize_t)(d, path, buf, n),
        Some(g) => s_readlink(g, d, path, buf, n),
    }
}

#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    match enter() {
        None => real!("realpath", fn(*const c_char, *mut c_char) -> *mut c_char)(path, out),
        Some(g) => {
            let pid = g.0;
            let p = bytes(path);
            let mut res: Vec<u8> = vec![];
            let r = call(pid, "realpath", || show(p), Class::Stat, |wd| {
                let cwd = wd.procs[pid].cwd;
                let rs = wd.fs.resolve(cwd, p, true)?;
                let i = rs.ino.ok_or(ENOENT)?;
                let mut s = wd.fs.path_of(if wd.fs.is_dir(i) { i } else { rs.dir });
                if !wd.fs.is_dir(i) {
                    if !s.ends_with('/') {
                        s.push('/');
                    }
                    s.push_str(&String::from_utf8_lossy(&rs.name));
                }
                res = s.into_bytes();
                Ok(0)
            });
            if r.is_err() {
                fin(g, r);
                return std::ptr::null_mut();
            }
            let dst = if out.is_null() { malloc(res.len() + 1) as *mut c_char } else { out };
            std::ptr::copy_nonoverlapping(res.as_ptr(), dst as *mut u8, res.len());
            *dst.add(res.len()) = 0;
            drop(g);
            dst
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    match enter() {
        None => real!("getcwd", fn(*mut c_char, size_t) -> *mut c_char)(buf, n),
        Some(g) => {
            let p = w().fs.path_of(w().procs[g.0].cwd).into_bytes();
            if p.len() + 1 > n {
                fin(g, Err(ERANGE));
                return std::ptr::null_mut();
            }
            std::ptr::copy_nonoverlapping(p.as_ptr(), buf as *mut u8, p.len());
            *buf.add(p.len()) = 0;
            drop(g);
            buf
        }
    }
}

// ---------------------------------------------------------------- stat

unsafe fn fill_stat(i: Ino, out: *mut stat64) {
    let (mode, size, nlink, ino, dev, mtime) = w().fs.statbuf(i);
    let mut s: stat64 = std::mem::zeroed();
    s.st_mode = mode;
    s.st_size = size as i64;
    s.st_nlink = nlink as u64;
    s.st_ino = ino;
    s.st_dev = dev;
    s.st_blksize = 4096;
    s.st_blocks = (size as i64 + 511) / 512;
    let wall = EPOCH_NS + mtime as i64;
    s.st_mtime = wall / 1_000_000_000;
    s.st_mtime_nsec = wall % 1_000_000_000;
    s.st_ctime = s.st_mtime;
    s.st_atime = s.st_mtime;
    *out = s;
}
unsafe fn stat_ino(pid: Pid, d: c_int, path: *const c_char, flags: c_int) -> R<Ino> {
    let p = bytes(path);
    let r = call(pid, "stat", || show(p), Class::Stat, |wd| {
        if p.is_empty() && flags & AT_EMPTY_PATH != 0 {
            let o = wd.ofd(pid, d)?;
            return match wd.ofds[o].kind {
                OfdKind::Node(i) => Ok(i as i64),
                _ => Err(EINVAL),
            };
        }
        let cwd = if p.first() == Some(&b'/') { ROOT } else { at_dir(pid, d)? };
        Ok(wd.fs.lookup(cwd, p, flags & AT_SYMLINK_NOFOLLOW == 0)? as i64)
    });
    r.map(|i| i as Ino)
}
unsafe fn s_stat(g: In, d: c_int, path: *const c_char, out: *mut stat64, flags: c_int) -> c_int {
    let r = stat_ino(g.0, d, path, flags).map(|i| {
        fill_stat(i, out);
        0
    });
    fin(g, r) as c_int
}
macro_rules! stat_fn {
    ($name:ident, $str:literal, $flags:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(path: *const c_char, out: *mut stat64) -> c_int {
            match enter() {
                None => real!($str, fn(*const c_char, *mut stat64) -> c_int)(path, out),
                Some(g) => s_stat(g, AT_FDCWD, path, out, $flags),
            }
        }
    };
}
stat_fn!(stat64, "stat64", 0);
stat_fn!(lstat64, "lstat64", AT_SYMLINK_NOFOLLOW);
stat_fn!(stat, "stat", 0);
stat_fn!(lstat, "lstat", AT_SYMLINK_NOFOLLOW);
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, path: *const c_char, out: *mut stat64, fl: c_int) -> c_int {
    match enter() {
        None => real!("fstatat64", fn(c_int, *const c_char, *mut stat64, c_int) -> c_int)(d, path, out, fl),
        Some(g) => s_stat(g, d, path, out, fl),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(d: c_int, path: *const c_char, out: *mut stat64, fl: c_int) -> c_int {
    match enter() {
        None => real!("fstatat", fn(c_int, *const c_char, *mut stat64, c_int) -> c_int)(d, path, out, fl),
        Some(g) => s_stat(g, d, path, out, fl),
    }
}
unsafe fn s_fstat(g: In, fd: c_int, out: *mut stat64) -> c_int {
    let pid = g.0;
    if std_fd(fd) {
        let mut s: stat64 = std::mem::zeroed();
        s.st_mode = S_IFCHR | 0o600;
        *out = s;
        return fin(g, Ok(0)) as c_int;
    }
    let r = call(pid, "fstat", || norm_fd(pid, fd), Class::Stat, |_| {
        fill_stat(ino_of(pid, fd)?, out);
        Ok(0)
    });
    fin(g, r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, out: *mut stat64) -> c_int {
    match enter() {
        None => real!("fstat64", fn(c_int, *mut stat64) -> c_int)(fd, out),
        Some(g) => s_fstat(g, fd, out),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, out: *mut stat64) -> c_int {
    match enter() {
        None => real!("fstat", fn(c_int, *mut stat64) -> c_int)(fd, out),
        Some(g) => s_fstat(g, fd, out),
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, path: *const c_char, fl: c_int, mask: c_uint, out: *mut statx) -> c_int {
    match enter() {
        None => real!("statx", fn(c_int, *const c_char, c_int, c_uint, *mut statx) -> c_int)(d, path, fl, mask, out),
        Some(g) => {
            if path.is_null() || out.is_null() {
                // std's availability probe
                return fin(g, Err(EFAULT)) as c_int;
            }
            let r = stat_ino(g.0, d, path, fl).map(|i| {
                let (mode, size, nlink, ino, dev, mtime) = w().fs.statbuf(i);
                let mut s: libc::statx = std::mem::zeroed();
                s.stx_mask = 0x7ff;
                s.stx_blksize = 4096;
                s.stx_mode = mode as u16;
                s.stx_size = size;
                s.stx_nlink = nlink;
                s.stx_ino = ino;
                s.stx_dev_minor = dev as u32;
                let wall = EPOCH_NS + mtime as i64;
                s.stx_mtime.tv_sec = wall / 1_000_000_000;
                s.stx_mtime.tv_nsec = (wall % 1_000_000_000) as u32;
                *out = s;
                0
            });
            fin(g, r) as c_int
        }
    }
}

// ---------------------------------------------------------------- directories

struct DirStream {
    magic: u64,
    fd: c_int,
    ents: Vec<(Vec<u8>, Ino, u8)>,
    pos: usize,
    buf: dirent64,
}
const MAGIC: u64 = 0x5349_4d44_4952_0001;

unsafe fn mk_dir(pid: Pid, fd: c_int) -> R<*mut DirStream> {
    let i = ino_of(pid, fd)?;
    let wd = w();
    let mut ents: Vec<(Vec<u8>, Ino, u8)> = wd
        .fs
        .dir_entries(i)?
        .into_iter()
        .map(|(n, c)| {
            let t = match wd.fs.inodes[c].kind {
                super::vfs::Kind::Dir(_) => DT_DIR,
                super::vfs::Kind::File(_) => DT_REG,
                super::vfs::Kind::Link(_) => DT_LNK,
            };
            (n, c, t)
        })
        .collect();
    if wd.f.readdir_shuffle && ents.len() > 1 {
        wd.ch.shuffle(&mut ents);
    }
    ents.insert(0, (b".".to_vec(), i, DT_DIR));
    ents.insert(1, (b"..".to_vec(), i, DT_DIR));
    Ok(Box::into_raw(Box::new(DirStream {
        magic: MAGIC,
        fd,
        ents,
        pos: 0,
        buf: std::mem::zeroed(),
    })))
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut DIR {
    match enter() {
        None => real!("opendir", fn(*const c_char) -> *mut DIR)(path),
        Some(g) => {
            let pid = g.0;
            let p = bytes(path);
            let mut out = std::ptr::null_mut();
            let r = call(pid, "opendir", || show(p), Class::Open, |wd| {
                let cwd = wd.procs[pid].cwd;
                let i = wd.fs.open(cwd, p, O_RDONLY | O_DIRECTORY, 0)?;
                if !wd.fs.is_dir(i) {
                    return Err(ENOTDIR);
                }
                let o = wd.new_ofd(OfdKind::Node(i), O_RDONLY);
                let fd = wd.new_fd(pid, o, true);
                out = mk_dir(pid, fd)?;
                Ok(0)
            });
            fin(g, r);
            out as *mut DIR
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut DIR {
    match enter() {
        None => real!("fdopendir", fn(c_int) -> *mut DIR)(fd),
        Some(g) => {
            let pid = g.0;
            let mut out = std::ptr::null_mut();
            let r = call(pid, "fdopendir", || norm_fd(pid, fd), Class::Open, |_| {
                out = mk_dir(pid, fd)?;
                Ok(0)
            });
            fin(g, r);
            out as *mut DIR
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    match enter() {
        None => real!("readdir64", fn(*mut DIR) -> *mut dirent64)(d),
        Some(g) => {
            let pid = g.0;
            let ds = &mut *(d as *mut DirStream);
            if ds.magic != MAGIC {
                libc::abort();
            }
            if w().procs[pid].ghost {
                drop(g);
                *libc::__errno_location() = 0;
                return std::ptr::null_mut();
            }
            if ds.pos == 0 {
                if let Some(e) = w().inject(pid, Class::Dir, "") {
                    w().log(pid, "readdir", "[fault]", -(e as i64));
                    drop(g);
                    *libc::__errno_location() = e;
                    return std::ptr::null_mut();
                }
            }
            if ds.pos >= ds.ents.len() {
                drop(g);
                // errno stays as it was (std clears it first): end of directory
                return std::ptr::null_mut();
            }
            let (n, i, t) = &ds.ents[ds.pos];
            ds.pos += 1;
            ds.buf.d_ino = *i as u64;
            ds.buf.d_type = *t;
            ds.buf.d_reclen = std::mem::size_of::<dirent64>() as u16;
            for (k, b) in n.iter().enumerate() {
                ds.buf.d_name[k] = *b as c_char;
            }
            ds.buf.d_name[n.len()] = 0;
            drop(g);
            &mut ds.buf
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut DIR) -> *mut dirent64 {
    readdir64(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut DIR) -> c_int {
    match enter() {
        None => real!("dirfd", fn(*mut DIR) -> c_int)(d),
        Some(g) => {
            let fd = (*(d as *mut DirStream)).fd;
            drop(g);
            fd
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int {
    match enter() {
        None => real!("closedir", fn(*mut DIR) -> c_int)(d),
        Some(g) => {
            let pid = g.0;
            let ds = Box::from_raw(d as *mut DirStream);
            if !w().procs[pid].ghost {
                let _ = w().close_fd(pid, ds.fd);
            }
            drop(ds);
            fin(g, Ok(0)) as c_int
        }
    }
}

// ---------------------------------------------------------------- copies

unsafe fn s_copy(g: In, fin_: c_int, off_in: *mut off64_t, fout: c_int, off_out: *mut off64_t, n: usize) -> ssize_t {
    let pid = g.0;
    // no EINTR here: posy installs no signal handlers, and the standard library does not expect it
    let r = loop {
            let r = call(pid, "copy_range", || format!("{} {} {}", norm_fd(pid, fin_), norm_fd(pid, fout), n), Class::Write, |wd| {
            let (a, b) = (wd.ofd(pid, fin_)?, wd.ofd(pid, fout)?);
            let (ia, ib) = match (&wd.ofds[a].kind, &wd.ofds[b].kind) {
                (OfdKind::Node(x), OfdKind::Node(y)) => (*x, *y),
                _ => return Err(EINVAL),
            };
            let pa = if off_in.is_null() { wd.ofds[a].pos } else { *off_in as u64 };
            let pb = if off_out.is_null() { wd.ofds[b].pos } else { *off_out as u64 };
            let avail = (wd.fs.size(ia) as usize).saturating_sub(pa as usize).min(n);
            let m = wd.shorten(avail.min(1 << 16));
            let mut buf = vec![0; m];
            let k = wd.fs.read_at(ia, pa, &mut buf)?;
            let k = if k == 0 { 0 } else { wd.fs.write_at(ib, pb, &buf[..k])? };
            if off_in.is_null() { wd.ofds[a].pos += k as u64 } else { *off_in += k as i64 }
            if off_out.is_null() { wd.ofds[b].pos += k as u64 } else { *off_out += k as i64 }
            Ok(k as i64)
        });
        if r != Err(EINTR) {
            break r;
        }
    };
    fin(g, r) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, oa: *mut off64_t, b: c_int, ob: *mut off64_t, n: size_t, fl: c_uint) -> ssize_t {
    match enter() {
        None => real!("copy_file_range", fn(c_int, *mut off64_t, c_int, *mut off64_t, size_t, c_uint) -> ssize_t)(a, oa, b, ob, n, fl),
        Some(g) => s_copy(g, a, oa, b, ob, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(out: c_int, inp: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    match enter() {
        None => real!("sendfile64", fn(c_int, c_int, *mut off64_t, size_t) -> ssize_t)(out, inp, off, n),
        Some(g) => s_copy(g, inp, off, out, std::ptr::null_mut(), n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, oa: *mut off64_t, b: c_int, ob: *mut off64_t, n: size_t, fl: c_uint) -> ssize_t {
    match enter() {
        None => real!("splice", fn(c_int, *mut off64_t, c_int, *mut off64_t, size_t, c_uint) -> ssize_t)(a, oa, b, ob, n, fl),
        Some(g) => fin(g, Err(EINVAL)) as ssize_t,
    }
}

// ---------------------------------------------------------------- time and randomness

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    match enter() {
        None => real!("clock_gettime", fn(clockid_t, *mut timespec) -> c_int)(clk, ts),
        Some(g) => {
            let wd = w();
            wd.now += 10;
            let t = if clk == CLOCK_REALTIME { wd.wall_ns() } else { wd.now as i64 };
            (*ts).tv_sec = t.div_euclid(1_000_000_000);
            (*ts).tv_nsec = t.rem_euclid(1_000_000_000);
            drop(g);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, tz: *mut c_void) -> c_int {
    match enter() {
        None => real!("gettimeofday", fn(*mut timeval, *mut c_void) -> c_int)(tv, tz),
        Some(g) => {
            let t = w().wall_ns();
            (*tv).tv_sec = t / 1_000_000_000;
            (*tv).tv_usec = t % 1_000_000_000 / 1000;
            drop(g);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn time(out: *mut time_t) -> time_t {
    match enter() {
        None => real!("time", fn(*mut time_t) -> time_t)(out),
        Some(g) => {
            let t = w().wall_ns() / 1_000_000_000;
            drop(g);
            if !out.is_null() {
                *out = t;
            }
            t
        }
    }
}
unsafe fn s_sleep(g: In, ns: u64) -> c_int {
    let pid = g.0;
    let r = (|| {
        if sched_point(pid) {
            ghost_tick(pid);
            return Ok(0);
        }
        let until = w().now + ns;
        w().log(pid, "sleep", &format!("{}ms", ns / 1_000_000), 0);
        w().probe("slept");
        while w().now < until {
            if block(pid, Cond::Never, Some(until)).is_err() {
                break;
            }
        }
        Ok(0)
    })();
    fin(g, r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    match enter() {
        None => real!("nanosleep", fn(*const timespec, *mut timespec) -> c_int)(req, rem),
        Some(g) => s_sleep(g, (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64),
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: clockid_t, fl: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    match enter() {
        None => real!("clock_nanosleep", fn(clockid_t, c_int, *const timespec, *mut timespec) -> c_int)(clk, fl, req, rem),
        Some(g) => {
            let t = (*req).tv_sec as i64 * 1_000_000_000 + (*req).tv_nsec as i64;
            let ns = if fl & TIMER_ABSTIME != 0 { (t - w().now as i64).max(0) } else { t };
            s_sleep(g, ns as u64)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    match enter() {
        None => real!("usleep", fn(c_uint) -> c_int)(us),
        Some(g) => s_sleep(g, us as u64 * 1000),
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    match enter() {
        None => real!("sched_yield", fn() -> c_int)(),
        Some(g) => {
            sched_point(g.0);
            fin(g, Ok(0)) as c_int
        }
    }
}
unsafe fn s_random(buf: *mut c_void, n: usize) {
    let wd = w();
    let v = wd.ch.bytes(n.min(4096));
    for k in 0..n {
        *(buf as *mut u8).add(k) = v[k % v.len().max(1)];
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    match enter() {
        None => real!("getrandom", fn(*mut c_void, size_t, c_uint) -> ssize_t)(buf, n, fl),
        Some(g) => {
            s_random(buf, n);
            drop(g);
            n as ssize_t
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, n: size_t) -> c_int {
    match enter() {
        None => real!("getentropy", fn(*mut c_void, size_t) -> c_int)(buf, n),
        Some(g) => {
            s_random(buf, n);
            drop(g);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    match enter() {
        None => real!("getpid", fn() -> pid_t)(),
        Some(g) => {
            let p = 4000 + g.0 as pid_t;
            drop(g);
            p
        }
    }
}

// ---------------------------------------------------------------- network

#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(node: *const c_char, svc: *const c_char, hints: *const addrinfo, res: *mut *mut addrinfo) -> c_int {
    match enter() {
        None => real!("getaddrinfo", fn(*const c_char, *const c_char, *const addrinfo, *mut *mut addrinfo) -> c_int)(node, svc, hints, res),
        Some(g) => {
            let pid = g.0;
            if sched_point(pid) {
                ghost_tick(pid);
                drop(g);
                return EAI_FAIL;
            }
            let host = show(bytes(node));
            let r = w().dns(pid, &host);
            w().now += 1_000_000;
            w().log(pid, "dns", &host, if r.is_ok() { 0 } else { -1 });
            let ip = match r {
                Ok(ip) => ip,
                Err(()) => {
                    drop(g);
                    return EAI_AGAIN;
                }
            };
            let sa = malloc(std::mem::size_of::<sockaddr_in>()) as *mut sockaddr_in;
            let mut a: sockaddr_in = std::mem::zeroed();
            a.sin_family = AF_INET as u16;
            a.sin_addr.s_addr = ip.to_be();
            *sa = a;
            let ai = malloc(std::mem::size_of::<addrinfo>()) as *mut addrinfo;
            let mut x: addrinfo = std::mem::zeroed();
            x.ai_family = AF_INET;
            x.ai_socktype = SOCK_STREAM;
            x.ai_addrlen = std::mem::size_of::<sockaddr_in>() as u32;
            x.ai_addr = sa as *mut sockaddr;
            *ai = x;
            *res = ai;
            drop(g);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(res: *mut addrinfo) {
    match enter() {
        None => real!("freeaddrinfo", fn(*mut addrinfo) -> ())(res),
        Some(g) => {
            if !res.is_null() {
                free((*res).ai_addr as *mut c_void);
                free(res as *mut c_void);
            }
            drop(g);
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn socket(dom: c_int, ty: c_int, proto: c_int) -> c_int {
    match enter() {
        None => real!("socket", fn(c_int, c_int, c_int) -> c_int)(dom, ty, proto),
        Some(g) => {
            let pid = g.0;
            let r = call(pid, "socket", String::new, Class::Net, |wd| {
                if dom != AF_INET && dom != AF_INET6 {
                    return Err(EAFNOSUPPORT);
                }
                let s = wd.net.socket();
                let o = wd.new_ofd(OfdKind::Sock(s), O_RDWR);
                Ok(wd.new_fd(pid, o, ty & SOCK_CLOEXEC != 0) as i64)
            });
            fin(g, r) as c_int
        }
    }
}
fn sock_of(pid: Pid, fd: i32) -> R<usize> {
    let o = w().ofd(pid, fd)?;
    match w().ofds[o].kind {
        OfdKind::Sock(s) => Ok(s),
        _ => Err(ENOTSOCK),
    }
}
fn settle(s: usize) {
    let wd = w();
    if let SockState::Connecting { at, err } = wd.net.socks[s].st {
        if at <= wd.now {
            if err == 0 {
                wd.net.socks[s].st = SockState::Connected;
            } else {
                wd.net.socks[s].st = SockState::Failed(err);
                wd.net.socks[s].so_error = err;
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const sockaddr, len: socklen_t) -> c_int {
    match enter() {
        None => real!("connect", fn(c_int, *const sockaddr, socklen_t) -> c_int)(fd, addr, len),
        Some(g) => {
            let pid = g.0;
            let r = (|| {
                if sched_point(pid) {
                    ghost_tick(pid);
                    return Err(EIO);
                }
                let s = sock_of(pid, fd)?;
                if (*addr).sa_family != AF_INET as u16 {
                    return Err(ENETUNREACH);
                }
                let a = &*(addr as *const sockaddr_in);
                w().net_connect(pid, s, u32::from_be(a.sin_addr.s_addr), u16::from_be(a.sin_port));
                w().log(pid, "connect", &w().net.socks[s].host.clone(), 0);
                if w().net.socks[s].nonblock {
                    return Err(EINPROGRESS);
                }
                while !w().net.connect_done(s, w().now) {
                    block(pid, Cond::SockConnect(s), None)?;
                }
                settle(s);
                match w().net.socks[s].st {
                    SockState::Failed(e) => Err(e),
                    _ => Ok(0),
                }
            })();
            fin(g, r) as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut pollfd, n: nfds_t, timeout: c_int) -> c_int {
    match enter() {
        None => real!("poll", fn(*mut pollfd, nfds_t, c_int) -> c_int)(fds, n, timeout),
        Some(g) => {
            let pid = g.0;
            let r = (|| {
                if sched_point(pid) {
                    ghost_tick(pid);
                    return Err(EIO);
                }
                let deadline = if timeout < 0 { None } else { Some(w().now + timeout as u64 * 1_000_000) };
                loop {
                    let mut hits = 0;
                    let mut wait = None;
                    for k in 0..n as usize {
                        let p = &mut *fds.add(k);
                        p.revents = 0;
                        let s = match sock_of(pid, p.fd) {
                            Ok(s) => s,
                            Err(_) => {
                                if !std_fd(p.fd) {
                                    p.revents = p.events;
                                    hits += 1;
                                }
                                continue;
                            }
                        };
                        settle(s);
                        match w().net.socks[s].st {
                            SockState::Connecting { .. } => wait = Some(Cond::SockConnect(s)),
                            SockState::Failed(_) => p.revents |= POLLERR | POLLHUP | (p.events & POLLOUT),
                            _ => {
                                p.revents |= p.events & POLLOUT;
                                if p.events & POLLIN != 0 {
                                    if w().net.readable(s, w().now) {
                                        p.revents |= POLLIN
                                    } else if wait.is_none() {
                                        wait = Some(Cond::SockRead(s))
                                    }
                                }
                            }
                        }
                        if p.revents != 0 {
                            hits += 1
                        }
                    }
                    if hits > 0 {
                        return Ok(hits);
                    }
                    if deadline.map_or(false, |d| w().now >= d) {
                        return Ok(0);
                    }
                    block(pid, wait.unwrap_or(Cond::Never), deadline)?;
                }
            })();
            fin(g, r) as c_int
        }
    }
}
unsafe fn s_recv(g: In, fd: c_int, buf: *mut u8, n: usize, flags: c_int) -> ssize_t {
    let pid = g.0;
    let sl = std::slice::from_raw_parts_mut(buf, n);
    let r = (|| {
        if sched_point(pid) {
            ghost_tick(pid);
            return Err(EIO);
        }
        let s = sock_of(pid, fd)?;
        settle(s);
        let deadline = w().net.socks[s].rcv_timeout.map(|t| w().now + t);
        let nb = w().net.socks[s].nonblock || flags & MSG_DONTWAIT != 0;
        // no EINTR here: posy installs no signal handlers, and a socket receive is restarted
        loop {
            match w().net_recv(s, sl, flags & MSG_PEEK != 0) {
                Err(EAGAIN) if !nb => {
                    if deadline.map_or(false, |d| w().now >= d) {
                        w().probe("recv_timed_out");
                        return Err(EAGAIN);
                    }
                    block(pid, Cond::SockRead(s), deadline)?;
                }
                r => return r.map(|k| k as i64),
            }
        }
    })();
    let rl = match r {
        Ok(v) => v,
        Err(e) => -(e as i64),
    };
    if !w().procs[pid].ghost {
        w().log(pid, "recv", &norm_fd(pid, fd), rl);
    }
    fin(g, r) as ssize_t
}
unsafe fn s_send(g: In, fd: c_int, data: &[u8]) -> ssize_t {
    let pid = g.0;
    let r = call(pid, "send", || format!("{} n={}", norm_fd(pid, fd), data.len()), Class::Net, |wd| {
        let s = sock_of(pid, fd)?;
        settle(s);
        let n = wd.shorten(data.len());
        wd.net_send(pid, s, &data[..n]).map(|k| k as i64)
    });
    fin(g, r) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, n: size_t, fl: c_int) -> ssize_t {
    match enter() {
        None => real!("recv", fn(c_int, *mut c_void, size_t, c_int) -> ssize_t)(fd, buf, n, fl),
        Some(g) => s_recv(g, fd, buf as *mut u8, n, fl),
    }
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, buf: *mut c_void, n: size_t, fl: c_int, a: *mut sockaddr, l: *mut socklen_t) -> ssize_t {
    match enter() {
        None => real!("recvfrom", fn(c_int, *mut c_void, size_t, c_int, *mut sockaddr, *mut socklen_t) -> ssize_t)(fd, buf, n, fl, a, l),
        Some(g) => s_recv(g, fd, buf as *mut u8, n, fl),
    }
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, n: size_t, fl: c_int) -> ssize_t {
    match enter() {
        None => real!("send", fn(c_int, *const c_void, size_t, c_int) -> ssize_t)(fd, buf, n, fl),
        Some(g) => s_send(g, fd, std::slice::from_raw_parts(buf as *const u8, n)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, buf: *const c_void, n: size_t, fl: c_int, a: *const sockaddr, l: socklen_t) -> ssize_t {
    match enter() {
        None => real!("sendto", fn(c_int, *const c_void, size_t, c_int, *const sockaddr, socklen_t) -> ssize_t)(fd, buf, n, fl, a, l),
        Some(g) => s_send(g, fd, std::slice::from_raw_parts(buf as *const u8, n)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    match enter() {
        None => real!("shutdown", fn(c_int, c_int) -> c_int)(fd, how),
        Some(g) => {
            let pid = g.0;
            let r = sock_of(pid, fd).map(|s| {
                w().net.socks[s].shut_wr = true;
                0
            });
            fin(g, r) as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, opt: c_int, val: *const c_void, len: socklen_t) -> c_int {
    match enter() {
        None => real!("setsockopt", fn(c_int, c_int, c_int, *const c_void, socklen_t) -> c_int)(fd, level, opt, val, len),
        Some(g) => {
            let pid = g.0;
            let r = sock_of(pid, fd).map(|s| {
                if level == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) {
                    let tv = &*(val as *const timeval);
                    let ns = tv.tv_sec as u64 * 1_000_000_000 + tv.tv_usec as u64 * 1000;
                    let t = if ns == 0 { None } else { Some(ns) };
                    if opt == SO_RCVTIMEO {
                        w().net.socks[s].rcv_timeout = t
                    } else {
                        w().net.socks[s].snd_timeout = t
                    }
                }
                0
            });
            fin(g, r) as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, level: c_int, opt: c_int, val: *mut c_void, len: *mut socklen_t) -> c_int {
    match enter() {
        None => real!("getsockopt", fn(c_int, c_int, c_int, *mut c_void, *mut socklen_t) -> c_int)(fd, level, opt, val, len),
        Some(g) => {
            let pid = g.0;
            let r = sock_of(pid, fd).map(|s| {
                settle(s);
                let k = &mut w().net.socks[s];
                if level == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) {
                    let t = if opt == SO_RCVTIMEO { k.rcv_timeout } else { k.snd_timeout }.unwrap_or(0);
                    *(val as *mut timeval) = timeval {
                        tv_sec: (t / 1_000_000_000) as i64,
                        tv_usec: (t % 1_000_000_000 / 1000) as i64,
                    };
                } else if level == SOL_SOCKET && opt == SO_ERROR {
                    *(val as *mut c_int) = k.so_error;
                    k.so_error = 0;
                } else {
                    *(val as *mut c_int) = 0;
                }
                0
            });
            fin(g, r) as c_int
        }
    }
}
unsafe fn s_name(g: In, fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    let pid = g.0;
    let r = sock_of(pid, fd).and_then(|s| {
        if w().net.socks[s].st != SockState::Connected {
            return Err(ENOTCONN);
        }
        let mut x: sockaddr_in = std::mem::zeroed();
        x.sin_family = AF_INET as u16;
        x.sin_port = w().net.socks[s].port.to_be();
        x.sin_addr.s_addr = 0x0a000001u32.to_be();
        *(a as *mut sockaddr_in) = x;
        *l = std::mem::size_of::<sockaddr_in>() as u32;
        Ok(0)
    });
    fin(g, r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    match enter() {
        None => real!("getpeername", fn(c_int, *mut sockaddr, *mut socklen_t) -> c_int)(fd, a, l),
        Some(g) => s_name(g, fd, a, l),
    }
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    match enter() {
        None => real!("getsockname", fn(c_int, *mut sockaddr, *mut socklen_t) -> c_int)(fd, a, l),
        Some(g) => s_name(g, fd, a, l),
    }
}

// ---------------------------------------------------------------- processes

#[no_mangle]
pub unsafe extern "C" fn pipe2(fds: *mut c_int, fl: c_int) -> c_int {
    match enter() {
        None => real!("pipe2", fn(*mut c_int, c_int) -> c_int)(fds, fl),
        Some(g) => {
            let pid = g.0;
            let r = (|| {
                if w().procs[pid].ghost {
                    return Err(EIO);
                }
                let wd = w();
                wd.pipes.push(Pipe { data: Default::default(), writers: 1, readers: 1 });
                let p = wd.pipes.len() - 1;
                let a = wd.new_ofd(OfdKind::PipeR(p), O_RDONLY);
                let b = wd.new_ofd(OfdKind::PipeW(p), O_WRONLY);
                *fds = wd.new_fd(pid, a, fl & O_CLOEXEC != 0);
                *fds.add(1) = wd.new_fd(pid, b, fl & O_CLOEXEC != 0);
                Ok(0)
            })();
            fin(g, r) as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn pipe(fds: *mut c_int) -> c_int {
    match enter() {
        None => real!("pipe", fn(*mut c_int) -> c_int)(fds),
        Some(g) => {
            drop(g);
            pipe2(fds, 0)
        }
    }
}

static mut CHILD_REPORT: c_int = -1;

/// fork: a really forked helper runs the child's side up to its exec, acting on its own copy
/// of the simulated machine, and reports what it would have executed. The program itself then
/// runs as another simulated process.
#[no_mangle]
pub unsafe extern "C" fn fork() -> pid_t {
    match enter() {
        None => real!("fork", fn() -> pid_t)(),
        Some(g) => {
            let pid = g.0;
            if sched_point(pid) {
                ghost_tick(pid);
                return fin(g, Err(EIO)) as pid_t;
            }
            let mut p = [0 as c_int; 2];
            if real!("pipe2", fn(*mut c_int, c_int) -> c_int)(p.as_mut_ptr(), O_CLOEXEC) != 0 {
                libc::_exit(70);
            }
            let k = real!("fork", fn() -> pid_t)();
            if k < 0 {
                libc::_exit(70);
            }
            if k == 0 {
                CHILD_REPORT = p[1];
                // its calls act on a private copy: no scheduling, no faults
                let wd = w();
                wd.f = Faults::default();
                wd.f.switch = 0;
                wd.step_limit = u64::MAX;
                wd.time_limit = None;
                wd.invariant = None;
                for q in 1..wd.procs.len() {
                    if q != pid {
                        wd.procs[q].st = St::Done;
                    }
                }
                drop(g);
                return 0;
            }
            real!("close", fn(c_int) -> c_int)(p[1]);
            let mut buf = vec![];
            let mut tmp = [0u8; 4096];
            loop {
                let n = real!("read", fn(c_int, *mut c_void, size_t) -> ssize_t)(p[0], tmp.as_mut_ptr() as *mut c_void, tmp.len());
                if n <= 0 {
                    break;
                }
                buf.extend_from_slice(&tmp[..n as usize]);
            }
            real!("close", fn(c_int) -> c_int)(p[0]);
            let mut st = 0;
            real!("waitpid", fn(pid_t, *mut c_int, c_int) -> pid_t)(k, &mut st, 0);
            let spec: Option<super::ExecSpec> = serde_json::from_slice(&buf).ok();
            let child = super::start_child(pid, spec);
            w().log(pid, "fork", "", child as i64);
            fin(g, Ok(4000 + child as i64)) as pid_t
        }
    }
}

unsafe fn cstrs(mut p: *const *const c_char) -> Vec<String> {
    let mut v = vec![];
    if p.is_null() {
        return v;
    }
    while !(*p).is_null() {
        v.push(show(bytes(*p)));
        p = p.add(1);
    }
    v
}
extern "C" {
    static environ: *const *const c_char;
}
unsafe fn report_exec(g: In, file: *const c_char, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    let pid = g.0;
    if CHILD_REPORT < 0 {
        // exec in the main process: replaces it; nothing after this matters
        w().note("exec in process".into());
        return fin(g, Err(ENOENT)) as c_int;
    }
    let env: Vec<(String, String)> = cstrs(envp)
        .into_iter()
        .filter_map(|s| s.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())))
        .collect();
    let file = show(bytes(file));
    let path = env.iter().find(|(k, _)| k == "PATH").map(|(_, v)| v.clone()).unwrap_or_default();
    let wd = w();
    let cwd = wd.procs[pid].cwd;
    let mut prog = None;
    let cands: Vec<String> = if file.contains('/') {
        vec![file.clone()]
    } else {
        path.split(':').map(|d| format!("{}/{}", d, file)).collect()
    };
    for c in cands {
        if let Ok(i) = wd.fs.lookup(cwd, c.as_bytes(), true) {
            if !wd.fs.is_dir(i) && wd.fs.inodes[i].mode & 0o111 != 0 {
                prog = Some(c);
                break;
            }
        }
    }
    match prog {
        None => fin(g, Err(ENOENT)) as c_int,
        Some(prog) => {
            let spec = super::ExecSpec { prog, argv: cstrs(argv), env, cwd: wd.fs.path_of(cwd) };
            let b = serde_json::to_vec(&spec).unwrap();
            let mut off = 0;
            while off < b.len() {
                let n = real!("write", fn(c_int, *const c_void, size_t) -> ssize_t)(CHILD_REPORT, b[off..].as_ptr() as *const c_void, b.len() - off);
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
            libc::_exit(0)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn execvp(file: *const c_char, argv: *const *const c_char) -> c_int {
    match enter() {
        None => real!("execvp", fn(*const c_char, *const *const c_char) -> c_int)(file, argv),
        Some(g) => report_exec(g, file, argv, environ),
    }
}
#[no_mangle]
pub unsafe extern "C" fn execve(file: *const c_char, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    match enter() {
        None => real!("execve", fn(*const c_char, *const *const c_char, *const *const c_char) -> c_int)(file, argv, envp),
        Some(g) => report_exec(g, file, argv, envp),
    }
}
unsafe fn s_posix_spawn(g: In, out: *mut pid_t, file: *const c_char, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    let pid = g.0;
    if sched_point(pid) {
        ghost_tick(pid);
        drop(g);
        return EIO;
    }
    let env: Vec<(String, String)> = cstrs(envp)
        .into_iter()
        .filter_map(|s| s.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())))
        .collect();
    let file = show(bytes(file));
    let path = std::env::var("PATH").unwrap_or_default();
    let wd = w();
    let cwd = wd.procs[pid].cwd;
    let cands: Vec<String> = if file.contains('/') {
        vec![file.clone()]
    } else {
        path.split(':').map(|d| format!("{}/{}", d, file)).collect()
    };
    for c in cands {
        if let Ok(i) = wd.fs.lookup(cwd, c.as_bytes(), true) {
            if !wd.fs.is_dir(i) && wd.fs.inodes[i].mode & 0o111 != 0 {
                let spec = super::ExecSpec { prog: c, argv: cstrs(argv), env, cwd: wd.fs.path_of(cwd) };
                let child = super::start_child(pid, Some(spec));
                *out = 4000 + child as pid_t;
                drop(g);
                return 0;
            }
        }
    }
    drop(g);
    ENOENT
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(out: *mut pid_t, file: *const c_char, fa: *const c_void, at: *const c_void, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    match enter() {
        None => real!("posix_spawnp", fn(*mut pid_t, *const c_char, *const c_void, *const c_void, *const *const c_char, *const *const c_char) -> c_int)(out, file, fa, at, argv, envp),
        Some(g) => s_posix_spawn(g, out, file, argv, envp),
    }
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn(out: *mut pid_t, file: *const c_char, fa: *const c_void, at: *const c_void, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    match enter() {
        None => real!("posix_spawn", fn(*mut pid_t, *const c_char, *const c_void, *const c_void, *const *const c_char, *const *const c_char) -> c_int)(out, file, fa, at, argv, envp),
        Some(g) => s_posix_spawn(g, out, file, argv, envp),
    }
}
#[no_mangle]
pub unsafe extern "C" fn waitpid(p: pid_t, status: *mut c_int, opts: c_int) -> pid_t {
    match enter() {
        None => real!("waitpid", fn(pid_t, *mut c_int, c_int) -> pid_t)(p, status, opts),
        Some(g) => {
            let pid = g.0;
            let r = (|| {
                if sched_point(pid) {
                    ghost_tick(pid);
                    return Err(ECHILD);
                }
                let c = (p - 4000) as usize;
                if p < 4001 || c >= w().procs.len() || w().procs[c].parent != pid || w().procs[c].reaped {
                    return Err(ECHILD);
                }
                if opts & WNOHANG != 0 && w().procs[c].st != St::Done {
                    return Ok(0);
                }
                while w().procs[c].st != St::Done {
                    block(pid, Cond::Child(c), None)?;
                }
                w().procs[c].reaped = true;
                if !status.is_null() {
                    *status = if w().procs[c].ended == Some(Ended::Killed) {
                        SIGKILL
                    } else {
                        w().procs[c].exit_code << 8
                    };
                }
                Ok(p as i64)
            })();
            fin(g, r) as pid_t
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn kill(p: pid_t, sig: c_int) -> c_int {
    match enter() {
        None => real!("kill", fn(pid_t, c_int) -> c_int)(p, sig),
        Some(g) => {
            let c = (p - 4000) as usize;
            if p > 4000 && c < w().procs.len() && sig == SIGKILL {
                w().kill(c);
            }
            fin(g, Ok(0)) as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, a: *const pthread_attr_t, f: *mut c_void, arg: *mut c_void) -> c_int {
    if CUR.with(|c| c.get()) != 0 && !BUSY.with(|b| b.get()) {
        BUSY.with(|b| b.set(true));
        eprintln!("HARNESS: code under test started a thread; not simulated");
        libc::_exit(70);
    }
    real!("pthread_create", fn(*mut pthread_t, *const pthread_attr_t, *mut c_void, *mut c_void) -> c_int)(t, a, f, arg)
}

#[no_mangle]
pub unsafe extern "C" fn syscall(num: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let pass = |n| real!("syscall", fn(c_long, c_long, c_long, c_long, c_long, c_long, c_long) -> c_long)(n, a, b, c, d, e, f);
    if num == SYS_gettid {
        return pass(num);
    }
    if num == SYS_futex {
        // A lock of the host process (std statics) held across a system call by another
        // simulated process: let simulated time pass and look again.
        const WAIT: c_long = 0;
        const WAIT_BITSET: c_long = 9;
        let op = b & 0x7f;
        if op == WAIT || op == WAIT_BITSET {
            if let Some(g) = enter() {
                let pid = g.0;
                if w().procs[pid].ghost {
                    ghost_tick(pid);
                } else {
                    w().stat("host_lock_waits");
                    let d = w().now + 10_000;
                    let _ = block(pid, Cond::Never, Some(d));
                }
                return fin(g, Err(EAGAIN)) as c_long;
            }
        }
        return pass(num);
    }
    match enter() {
        None => pass(num),
        Some(g) => {
            if num == SYS_getrandom {
                s_random(a as *mut c_void, b as usize);
                drop(g);
                return b;
            }
            drop(g);
            if num == SYS_statx {
                return statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long;
            }
            if num == SYS_copy_file_range {
                return copy_file_range(a as c_int, b as *mut off64_t, c as c_int, d as *mut off64_t, e as usize, f as c_uint) as c_long;
            }
            if num == SYS_renameat2 {
                return renameat2(a as c_int, b as *const c_char, c as c_int, d as *const c_char, e as c_uint) as c_long;
            }
            if num != SYS_clone3 && num != SYS_pidfd_open && num != SYS_splice && num != SYS_openat2 {
                let g = enter();
                unsupported(&format!("syscall {}", num));
                drop(g);
            }
            *libc::__errno_location() = ENOSYS;
            -1
        }
    }
}
