//! Real Python interpreters that run the simulated machine's Python programs. The interpreter
//! computes; every file, clock and randomness operation comes back here and is carried out as a
//! system call of the simulated process the program runs as.

use crate::sim::*;
use serde_json::{json, Value};
use std::ffi::CString;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::sync::Mutex;

struct Worker {
    child: std::process::Child,
    tx: File,
    rx: File,
    buf: Vec<u8>,
}
static POOL: Mutex<Vec<Worker>> = Mutex::new(vec![]);

/// For the duration, system calls of this thread are real.
struct Real(bool);
impl Real {
    fn new() -> Real {
        Real(BUSY.with(|b| b.replace(true)))
    }
}
impl Drop for Real {
    fn drop(&mut self) {
        let was = self.0;
        BUSY.with(|b| b.set(was));
    }
}

impl Worker {
    fn start() -> Worker {
        use std::os::fd::OwnedFd;
        use std::process::{Command, Stdio};
        let py = ["/usr/local/bin/python3", "/usr/bin/python3"]
            .into_iter()
            .find(|p| std::path::Path::new(p).exists())
            .expect("python3");
        let mut child = Command::new(py)
            .args(["-S", "-B", "-s", "-P", "-c", include_str!("pyworker.py")])
            .env_clear()
            .env("PYTHONHASHSEED", "0")
            .env("PATH", "/usr/bin:/bin")
            .env("LC_ALL", "C.UTF-8")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(if std::env::var_os("DST_PYERR").is_some() { Stdio::inherit() } else { Stdio::null() })
            .spawn()
            .expect("python3");
        let tx = File::from(OwnedFd::from(child.stdin.take().unwrap()));
        let rx = File::from(OwnedFd::from(child.stdout.take().unwrap()));
        Worker { child, tx, rx, buf: vec![] }
    }
    fn send(&mut self, v: &Value) -> Option<()> {
        let _r = Real::new();
        let mut b = serde_json::to_vec(v).ok()?;
        b.push(b'\n');
        self.tx.write_all(&b).ok()
    }
    fn recv(&mut self) -> Option<Value> {
        let _r = Real::new();
        loop {
            if let Some(i) = self.buf.iter().position(|b| *b == b'\n') {
                let v = serde_json::from_slice(&self.buf[..i]).ok();
                self.buf.drain(..=i);
                return v;
            }
            let mut p = libc::pollfd { fd: self.rx.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            // a program that computes for this long (without any system call) never ends
            if unsafe { libc::poll(&mut p, 1, 20_000) } <= 0 {
                return None;
            }
            let mut t = [0u8; 65536];
            match self.rx.read(&mut t) {
                Ok(n) if n > 0 => self.buf.extend_from_slice(&t[..n]),
                _ => return None,
            }
        }
    }
    fn end(mut self) {
        let _r = Real::new();
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn take() -> Worker {
    let _r = Real::new();
    match POOL.lock().unwrap_or_else(|e| e.into_inner()).pop() {
        Some(x) => x,
        None => Worker::start(),
    }
}

fn latin(b: &[u8]) -> String {
    b.iter().map(|x| *x as char).collect()
}

fn errno() -> i32 {
    std::io::Error::last_os_error().raw_os_error().unwrap_or(libc::EIO)
}

/// One operation of the program, as system calls of the calling simulated process.
fn serve(op: &str, a: &[Value]) -> Result<Value, i32> {
    let s = |i: usize| -> Result<CString, i32> { CString::new(a.get(i).and_then(|v| v.as_str()).ok_or(libc::EINVAL)?).map_err(|_| libc::EINVAL) };
    let n = |i: usize| -> Result<i64, i32> { a.get(i).and_then(|v| v.as_i64()).ok_or(libc::EINVAL) };
    let ok = |r: i64| if r < 0 { Err(errno()) } else { Ok(json!(r)) };
    let stat = |st: &libc::stat64| json!([st.st_mode, st.st_ino, st.st_dev, st.st_nlink, st.st_size, st.st_mtime]);
    unsafe {
        let mut st: libc::stat64 = std::mem::zeroed();
        match op {
            "stat" => ok(libc::stat64(s(0)?.as_ptr(), &mut st) as i64).map(|_| stat(&st)),
            "lstat" => ok(libc::lstat64(s(0)?.as_ptr(), &mut st) as i64).map(|_| stat(&st)),
            "fstat" => ok(libc::fstat64(n(0)? as i32, &mut st) as i64).map(|_| stat(&st)),
            "open" => loop {
                let r = libc::open64(s(0)?.as_ptr(), n(1)? as i32 | libc::O_CLOEXEC, n(2)? as libc::c_uint);
                if r >= 0 || errno() != libc::EINTR {
                    return ok(r as i64);
                }
            },
            "read" => loop {
                let mut b = vec![0u8; n(1)?.clamp(0, 1 << 20) as usize];
                let r = libc::read(n(0)? as i32, b.as_mut_ptr() as *mut _, b.len());
                if r >= 0 {
                    return Ok(json!(latin(&b[..r as usize])));
                }
                if errno() != libc::EINTR {
                    return Err(errno());
                }
            },
            "write" => {
                let b: Vec<u8> = a.get(1).and_then(|v| v.as_str()).ok_or(libc::EINVAL)?.chars().map(|c| c as u32 as u8).collect();
                loop {
                    let r = libc::write(n(0)? as i32, b.as_ptr() as *const _, b.len());
                    if r >= 0 || errno() != libc::EINTR {
                        return ok(r as i64);
                    }
                }
            }
            "close" => ok(libc::close(n(0)? as i32) as i64),
            "lseek" => ok(libc::lseek64(n(0)? as i32, n(1)?, n(2)? as i32)),
            "fsync" => ok(libc::fsync(n(0)? as i32) as i64),
            "ftruncate" => ok(libc::ftruncate64(n(0)? as i32, n(1)?) as i64),
            "mkdir" => ok(libc::mkdir(s(0)?.as_ptr(), n(1)? as libc::mode_t) as i64),
            "rmdir" => ok(libc::rmdir(s(0)?.as_ptr()) as i64),
            "unlink" => ok(libc::unlink(s(0)?.as_ptr()) as i64),
            "rename" => ok(libc::rename(s(0)?.as_ptr(), s(1)?.as_ptr()) as i64),
            "symlink" => ok(libc::symlink(s(0)?.as_ptr(), s(1)?.as_ptr()) as i64),
            "link" => ok(libc::link(s(0)?.as_ptr(), s(1)?.as_ptr()) as i64),
            "chmod" => ok(libc::chmod(s(0)?.as_ptr(), n(1)? as libc::mode_t) as i64),
            "chdir" => std::env::set_current_dir(a[0].as_str().unwrap_or("")).map(|_| json!(0)).map_err(|e| e.raw_os_error().unwrap_or(libc::EIO)),
            "readlink" | "getcwd" | "listdir" => {
                let r = match op {
                    "getcwd" => std::env::current_dir().map(|p| json!(p.to_string_lossy())),
                    "readlink" => std::fs::read_link(a[0].as_str().unwrap_or("")).map(|p| json!(p.to_string_lossy())),
                    _ => std::fs::read_dir(a[0].as_str().unwrap_or("")).and_then(|d| {
                        let mut v = vec![];
                        for e in d {
                            v.push(e?.file_name().to_string_lossy().to_string());
                        }
                        Ok(json!(v))
                    }),
                };
                r.map_err(|e| e.raw_os_error().unwrap_or(libc::EIO))
            }
            "random" => {
                let mut b = vec![0u8; n(0)?.clamp(0, 4096) as usize];
                libc::getrandom(b.as_mut_ptr() as *mut _, b.len(), 0);
                Ok(json!(latin(&b)))
            }
            "now" => Ok(json!(std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_nanos() as u64))),
            "mono" => {
                let mut ts: libc::timespec = std::mem::zeroed();
                libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts);
                Ok(json!(ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64))
            }
            "sleep" => {
                let t = a.first().and_then(|v| v.as_f64()).unwrap_or(0.0).clamp(0.0, 1e9);
                std::thread::sleep(std::time::Duration::from_secs_f64(t));
                Ok(json!(null))
            }
            _ => Err(libc::ENOSYS),
        }
    }
}

/// What a hook of the simulated world may answer: a value, an exception, or death by signal.
pub type Hook<'a> = &'a mut dyn FnMut(&str, &[Value]) -> Result<Value, String>;

pub struct Prog<'a> {
    pub spec: &'a ExecSpec,
    /// installation root of the interpreter and where things are in it
    pub prefix: String,
    pub stdlib: String,
    pub purelib: String,
}

/// Runs the program to its end: exit code and what it had to say.
pub fn exec(p: &Prog, hook: Hook) -> (i32, String) {
    let mut wk = take();
    let pid = 4000 + me();
    let start = json!({
        "pid": pid,
        "seed": pid,
        "prog": p.spec.prog,
        "argv": p.spec.argv.get(1..).unwrap_or(&[]),
        "env": p.spec.env,
        "prefix": p.prefix,
        "stdlib": p.stdlib,
        "purelib": p.purelib,
    });
    let mut reply = start;
    let mut ops = 0u64;
    loop {
        let m = match wk.send(&reply).and_then(|_| wk.recv()) {
            Some(m) => m,
            None => {
                wk.end();
                return (137, "the interpreter hung or died".into());
            }
        };
        let a = m.as_array().cloned().unwrap_or_default();
        let op = a.first().and_then(|v| v.as_str()).unwrap_or("").to_string();
        if op == "exit" {
            let _r = Real::new();
            POOL.lock().unwrap_or_else(|e| e.into_inner()).push(wk);
            return (a[1].as_i64().unwrap_or(1) as i32, a[2].as_str().unwrap_or("").to_string());
        }
        ops += 1;
        if ops > 200_000 || dead() && ops > 190_000 {
            wk.end();
            return (137, "the program never ends".into());
        }
        reply = if dead() {
            json!({"dead": 1})
        } else if op == "call" {
            let r = hook(a[1].as_str().unwrap_or(""), &a[2..]);
            if dead() {
                json!({"dead": 1})
            } else {
                match r {
                    Ok(v) => json!({ "v": v }),
                    Err(x) => json!({ "x": x }),
                }
            }
        } else {
            let r = serve(&op, &a[1..]);
            if dead() {
                json!({"dead": 1})
            } else {
                match r {
                    Ok(v) => json!({ "v": v }),
                    Err(e) => json!({ "e": e }),
                }
            }
        };
    }
}
