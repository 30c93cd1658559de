//! The simulated machine: processes, scheduler, clock, faults, event log.
//!
//! Every simulated process is a real thread, but exactly one thread runs at any time: the one
//! holding the baton. Each intercepted system call is a point where the scheduler may hand the
//! baton to another process, kill one, cut the power or make the call fail. All of these are
//! draws from the run's choice sequence.

use super::choice::Choices;
use super::net::Net;
use super::vfs::{Ino, Vfs, ROOT};
use libc::*;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::{Arc, Condvar, Mutex};

pub type Pid = usize;
pub type OfdId = usize;

thread_local! {
    pub static CUR: Cell<usize> = const { Cell::new(0) };
    pub static BUSY: Cell<bool> = const { Cell::new(false) };
}

#[derive(Default)]
pub struct Baton {
    go: Mutex<bool>,
    cv: Condvar,
}
impl Baton {
    fn give(&self) {
        let mut g = self.go.lock().unwrap();
        *g = true;
        self.cv.notify_one();
    }
    fn wait(&self) {
        let mut g = self.go.lock().unwrap();
        while !*g {
            g = self.cv.wait(g).unwrap();
        }
        *g = false;
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cond {
    Never,
    Flock(OfdId, bool), // exclusive?
    SockRead(usize),
    SockConnect(usize),
    Child(Pid),
    PipeRead(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Ready,
    Blocked(Cond, Option<u64>),
    Done,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ended {
    Returned,
    Panicked(String),
    Killed,
}

pub struct Proc {
    pub name: String,
    pub st: St,
    pub ghost: bool,
    pub fds: BTreeMap<i32, (OfdId, bool)>,
    pub fd_base: i32,
    pub cwd: Ino,
    pub baton: Arc<Baton>,
    pub ended: Option<Ended>,
    pub thread: Option<std::thread::JoinHandle<()>>,
    pub parent: Pid,
    pub exit_code: i32,
    pub reaped: bool,
    pub env: Vec<(String, String)>,
    pub steps: u64,
    pub immune: bool, // never killed by random crashes
    pub ghost_steps: u64,
    /// injected failures this process has met (not counting EINTR and short transfers)
    pub nfaults: u64,
    pub killed_seq: u64,
}

#[derive(Clone, Debug)]
pub enum OfdKind {
    Node(Ino),
    Sock(usize),
    PipeR(usize),
    PipeW(usize),
    Null,
}

#[derive(Clone, Debug)]
pub struct Ofd {
    pub kind: OfdKind,
    pub refs: u32,
    pub pos: u64,
    pub flags: i32,
    pub lock: Option<bool>,
}

#[derive(Default, Clone, Debug)]
pub struct Pipe {
    pub data: std::collections::VecDeque<u8>,
    pub writers: u32,
    pub readers: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    Open,
    Create,
    Read,
    Write,
    Sync,
    Meta,
    Remove,
    Stat,
    Lock,
    Dir,
    Close,
    Net,
    Misc,
}

#[derive(Clone, Debug)]
pub struct Faults {
    /// per mille, per eligible system call
    pub io: u32,
    pub short: u32,
    pub eintr: u32,
    pub crash: u32,
    pub switch: u32,
    pub jump: u32,
    /// how many more io faults / crashes may fire in this run
    pub io_budget: u32,
    pub crash_budget: u32,
    /// restrict io faults to these classes (None = all)
    pub io_only: Option<Vec<Class>>,
    /// and to this directory
    pub io_under: Option<String>,
    pub power_at: Option<u64>,
    /// kill the process of `crash_at.0` right before its `crash_at.1`-th system call
    pub crash_at: Option<(Pid, u64)>,
    /// what happens to a process when the watched number of changes is reached:
    /// it dies, its whole family dies, one of its next calls fails
    pub at_watch: u32,
    /// fail the n-th eligible system call of a process
    pub io_at: Option<(Pid, u64)>,
    pub readdir_shuffle: bool,
    pub same_tmp_names: bool,
}
impl Default for Faults {
    fn default() -> Faults {
        Faults {
            io: 0,
            short: 0,
            eintr: 0,
            crash: 0,
            switch: 200,
            jump: 0,
            io_budget: 1000,
            crash_budget: 0,
            io_only: None,
            io_under: None,
            power_at: None,
            crash_at: None,
            io_at: None,
            at_watch: 0,
            readdir_shuffle: true,
            same_tmp_names: false,
        }
    }
}
impl Faults {
    pub fn quiet() -> Faults {
        Faults { switch: 100, ..Default::default() }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    AllDone,
    Deadlock(String),
    StepLimit,
    PowerLoss,
}

pub struct World {
    pub ch: Choices,
    pub now: u64,       // ns, monotonic
    /// (when, offset from then on)
    pub wall_hist: Vec<(u64, i64)>,
    pub rt_offset: i64, // ns added to the boot-time wall clock
    pub procs: Vec<Proc>,
    pub ofds: Vec<Ofd>,
    pub free_ofds: Vec<OfdId>,
    pub pipes: Vec<Pipe>,
    pub fs: Vfs,
    pub net: Net,
    pub f: Faults,
    pub steps: u64,
    pub step_limit: u64,
    pub stats: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub seq: u64,
    pub hash: u64,
    pub sched_hash: u64,
    pub keep_log: bool,
    pub logv: Vec<String>,
    pub stop: Option<Stop>,
    pub eligible: BTreeMap<Pid, u64>,
    pub unsupported: Option<String>,
    pub switches: u64,
    pub rand_ctr: u64,
    pub exec: Option<Arc<dyn Fn(&super::ExecSpec) -> super::ExecBody + Send + Sync>>,
    pub invariant: Option<Box<dyn FnMut(&mut World) -> Option<String>>>,
    pub inv_failed: Option<String>,
    pub time_limit: Option<u64>,
    pub faults_last_step: u64,
}

pub const EPOCH_NS: i64 = 1_685_000_000_000_000_000;

static mut WORLD: *mut World = std::ptr::null_mut();
static mut CTL: Option<Arc<Baton>> = None;

pub fn w() -> &'static mut World {
    unsafe {
        debug_assert!(!WORLD.is_null());
        &mut *WORLD
    }
}
pub fn install(world: World) {
    unsafe {
        uninstall();
        WORLD = Box::into_raw(Box::new(world));
        CTL = Some(Arc::new(Baton::default()));
    }
}
pub fn uninstall() {
    unsafe {
        if !WORLD.is_null() {
            drop(Box::from_raw(WORLD));
            WORLD = std::ptr::null_mut();
        }
    }
}

impl World {
    pub fn new(ch: Choices) -> World {
        World {
            ch,
            now: 1_000_000_000,
            rt_offset: 0,
            wall_hist: vec![],
            procs: vec![Proc::blank("ctl")],
            ofds: vec![],
            free_ofds: vec![],
            pipes: vec![],
            fs: Vfs::new(),
            net: Net::new(),
            f: Faults::quiet(),
            steps: 0,
            step_limit: 400_000,
            stats: BTreeMap::new(),
            probes: BTreeMap::new(),
            seq: 0,
            hash: 0xcbf29ce484222325,
            sched_hash: 0xcbf29ce484222325,
            keep_log: false,
            logv: vec![],
            stop: None,
            eligible: BTreeMap::new(),
            unsupported: None,
            switches: 0,
            rand_ctr: 0,
            exec: None,
            invariant: None,
            inv_failed: None,
            time_limit: None,
            faults_last_step: 0,
        }
    }
    pub fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_insert(0) += 1;
    }
    pub fn wall_ns(&self) -> i64 {
        EPOCH_NS + self.now as i64 + self.rt_offset
    }
    fn fnv(h: &mut u64, bytes: &[u8]) {
        for b in bytes {
            *h = (*h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
    pub fn log(&mut self, pid: Pid, op: &'static str, arg: &str, res: i64) {
        if res == -(ENOSPC as i64) && self.fs.space_left.is_some() {
            self.procs[pid].nfaults += 1;
            self.stat("disk_full");
            self.faults_last_step = self.steps;
        }
        Self::fnv(&mut self.hash, &(pid as u32).to_le_bytes());
        Self::fnv(&mut self.hash, op.as_bytes());
        Self::fnv(&mut self.hash, arg.as_bytes());
        Self::fnv(&mut self.hash, &res.to_le_bytes());
        Self::fnv(&mut self.hash, &self.now.to_le_bytes());
        Self::fnv(&mut self.sched_hash, &[pid as u8]);
        Self::fnv(&mut self.sched_hash, op.as_bytes());
        Self::fnv(&mut self.sched_hash, &[(res < 0) as u8]);
        if self.keep_log {
            let name = self.procs.get(pid).map(|p| p.name.as_str()).unwrap_or("?");
            self.logv.push(format!(
                "#{:<5} t={:>12.6} {:<8} {} {} -> {}",
                self.steps,
                self.now as f64 / 1e9,
                name,
                op,
                arg,
                if res < 0 { errno_name(-res as i32) } else { res.to_string() }
            ));
        }
    }
    pub fn note(&mut self, s: String) {
        Self::fnv(&mut self.hash, s.as_bytes());
        if self.keep_log {
            self.logv.push(format!(
                "#{:<5} t={:>12.6} ------ {}",
                self.steps,
                self.now as f64 / 1e9,
                s
            ));
        }
    }

    // ---- descriptors ----
    pub fn new_ofd(&mut self, kind: OfdKind, flags: i32) -> OfdId {
        let o = Ofd { kind, refs: 0, pos: 0, flags, lock: None };
        if let Some(i) = self.free_ofds.pop() {
            self.ofds[i] = o;
            i
        } else {
            self.ofds.push(o);
            self.ofds.len() - 1
        }
    }
    pub fn new_fd(&mut self, pid: Pid, ofd: OfdId, cloexec: bool) -> i32 {
        self.fd_from(pid, ofd, cloexec, 0)
    }
    pub fn fd_from(&mut self, pid: Pid, ofd: OfdId, cloexec: bool, min: i32) -> i32 {
        let p = &mut self.procs[pid];
        let mut fd = p.fd_base.max(min);
        while p.fds.contains_key(&fd) {
            fd += 1;
        }
        p.fds.insert(fd, (ofd, cloexec));
        self.ofds[ofd].refs += 1;
        fd
    }
    pub fn ofd(&self, pid: Pid, fd: i32) -> Result<OfdId, i32> {
        self.procs[pid].fds.get(&fd).map(|x| x.0).ok_or(EBADF)
    }
    pub fn drop_ofd(&mut self, o: OfdId) {
        self.ofds[o].refs -= 1;
        if self.ofds[o].refs == 0 {
            self.ofds[o].lock = None;
            let kind = std::mem::replace(&mut self.ofds[o].kind, OfdKind::Null);
            match kind {
                OfdKind::Sock(s) => self.net.client_close(s),
                OfdKind::PipeR(p) => self.pipes[p].readers -= 1,
                OfdKind::PipeW(p) => self.pipes[p].writers -= 1,
                _ => (),
            }
            self.free_ofds.push(o);
        }
    }
    pub fn close_fd(&mut self, pid: Pid, fd: i32) -> Result<(), i32> {
        let (o, _) = self.procs[pid].fds.remove(&fd).ok_or(EBADF)?;
        self.drop_ofd(o);
        Ok(())
    }
    pub fn flock_free(&self, o: OfdId, excl: bool) -> bool {
        let ino = match self.ofds[o].kind {
            OfdKind::Node(i) => i,
            _ => return true,
        };
        for (i, x) in self.ofds.iter().enumerate() {
            if i == o || x.refs == 0 {
                continue;
            }
            if let (OfdKind::Node(j), Some(e)) = (&x.kind, x.lock) {
                if *j == ino && (excl || e) {
                    return false;
                }
            }
        }
        true
    }

    // ---- scheduling ----
    fn cond_ready(&self, c: &Cond) -> bool {
        match c {
            Cond::Never => false,
            Cond::Flock(o, e) => self.flock_free(*o, *e),
            Cond::SockRead(s) => self.net.readable(*s, self.now),
            Cond::SockConnect(s) => self.net.connect_done(*s, self.now),
            Cond::Child(p) => self.procs[*p].st == St::Done,
            Cond::PipeRead(p) => !self.pipes[*p].data.is_empty() || self.pipes[*p].writers == 0,
        }
    }
    fn runnable(&self, p: Pid) -> bool {
        match &self.procs[p].st {
            St::Ready => true,
            St::Done => false,
            St::Blocked(c, d) => {
                self.procs[p].ghost
                    || d.map(|d| d <= self.now).unwrap_or(false)
                    || self.cond_ready(c)
            }
        }
    }
    /// Decides who runs next. 0 = the controller (nothing left to run, or the run is stopped).
    fn pick(&mut self, cur: Pid) -> Pid {
        // dead processes' threads run out first, invisibly
        for p in 1..self.procs.len() {
            if self.procs[p].ghost && self.procs[p].st != St::Done {
                return p;
            }
        }
        if self.stop.is_some() {
            return 0;
        }
        loop {
            let mut cands: Vec<Pid> = (1..self.procs.len()).filter(|p| self.runnable(*p)).collect();
            if cands.is_empty() {
                if self.procs[1..].iter().all(|p| p.st == St::Done) {
                    return 0;
                }
                // nothing can run: let time pass
                let mut next: Option<u64> = None;
                for p in &self.procs[1..] {
                    if let St::Blocked(c, d) = &p.st {
                        let mut t = *d;
                        let n = match c {
                            Cond::SockRead(s) => self.net.next_event(*s),
                            Cond::SockConnect(s) => self.net.next_event(*s),
                            _ => None,
                        };
                        if let Some(n) = n {
                            t = Some(t.map_or(n, |t| t.min(n)));
                        }
                        if let Some(t) = t {
                            next = Some(next.map_or(t, |n| n.min(t)));
                        }
                    }
                }
                match next {
                    Some(t) => {
                        if t > self.now {
                            self.now = t;
                            self.fs.now = t;
                        }
                        continue;
                    }
                    None => {
                        let who = self.procs[1..]
                            .iter()
                            .filter(|p| p.st != St::Done)
                            .map(|p| format!("{}: {:?}", p.name, p.st))
                            .collect::<Vec<_>>()
                            .join("; ");
                        self.note(format!("DEADLOCK {}", who));
                        self.stop = Some(Stop::Deadlock(who));
                        self.kill_all();
                        return self.pick(cur);
                    }
                }
            }
            if cands.len() == 1 {
                return cands[0];
            }
            // draw 0 = carry on with the current process if it can run
            if let Some(i) = cands.iter().position(|p| *p == cur) {
                if !self.ch.chance(self.f.switch) {
                    return cur;
                }
                cands.remove(i);
                return cands[self.ch.choose(cands.len())];
            }
            return cands[self.ch.choose(cands.len())];
        }
    }
    pub fn kill(&mut self, p: Pid) {
        if self.procs[p].st == St::Done || self.procs[p].ghost {
            return;
        }
        self.note(format!("KILL {}", self.procs[p].name));
        self.procs[p].ghost = true;
        self.seq += 1;
        self.procs[p].killed_seq = self.seq;
        let fds: Vec<i32> = self.procs[p].fds.keys().copied().collect();
        for fd in fds {
            let _ = self.close_fd(p, fd);
        }
        // its children die with it (process group / machine going down)
        for c in 1..self.procs.len() {
            if self.procs[c].parent == p {
                self.kill(c);
            }
        }
    }
    pub fn kill_all(&mut self) {
        for p in 1..self.procs.len() {
            self.kill(p);
        }
    }
    fn maybe_disaster(&mut self, pid: Pid) {
        if let Some(s) = self.f.power_at {
            if self.steps >= s {
                self.f.power_at = None;
                self.stat("power_loss");
                self.note("POWER LOSS".into());
                self.stop = Some(Stop::PowerLoss);
                self.kill_all();
                return;
            }
        }
        if let Some(mut p) = self.fs.watch_hit.take() {
            if p < self.procs.len() && self.procs[p].st != St::Done && !self.procs[p].ghost && !self.procs[p].immune {
                match self.f.at_watch {
                    2 => {
                        let n = self.eligible.get(&p).copied().unwrap_or(0) + 1 + self.ch.choose(4) as u64;
                        self.f.io_at = Some((p, n));
                    }
                    k => {
                        while k == 1 && self.procs[p].parent != 0 && !self.procs[self.procs[p].parent].immune {
                            p = self.procs[p].parent;
                        }
                        self.stat("process_kill");
                        self.faults_last_step = self.steps;
                        self.kill(p);
                        if p == pid {
                            return;
                        }
                    }
                }
            }
        }
        if let Some((p, n)) = self.f.crash_at {
            if p == pid && self.procs[p].steps >= n {
                self.f.crash_at = None;
                self.stat("process_kill");
                self.faults_last_step = self.steps;
                self.kill(p);
                return;
            }
        }
        if self.f.crash > 0 && self.f.crash_budget > 0 && self.ch.chance(self.f.crash) {
            let victims: Vec<Pid> = (1..self.procs.len())
                .filter(|p| {
                    let q = &self.procs[*p];
                    q.st != St::Done && !q.ghost && !q.immune
                })
                .collect();
            if !victims.is_empty() {
                // prefer the running process: it is in the middle of something
                let i = self.ch.choose(victims.len() + 2);
                let v = if i < victims.len() { victims[i] } else { pid };
                if !self.procs[v].immune {
                    self.f.crash_budget -= 1;
                    self.stat("process_kill");
                    self.faults_last_step = self.steps;
                    self.kill(v);
                }
            }
        }
        if self.f.jump > 0 && self.ch.chance(self.f.jump) {
            let opts: [i64; 8] = [1, 30, 3600, 86400, -1, -30, -3600, -86400];
            let d = opts[self.ch.choose(8)];
            self.clock_jump(d * 1_000_000_000);
        }
    }
    pub fn clock_jump(&mut self, ns: i64) {
        self.rt_offset += ns;
        self.wall_hist.push((self.now, self.rt_offset));
        self.stat("clock_jump");
        self.note(format!("CLOCK JUMP {}s", ns as f64 / 1e9));
    }
    /// Lowest and highest reading of the wall clock (ns since 1970)
    /// between two instants.
    pub fn wall_range(&self, t0: u64, t1: u64) -> (i64, i64) {
        let mut off = 0;
        let mut pts = vec![];
        for (t, o) in &self.wall_hist {
            if *t <= t0 {
                off = *o;
            }
        }
        let mut cur = off;
        pts.push(t0 as i64 + cur);
        for (t, o) in &self.wall_hist {
            if *t > t0 && *t <= t1 {
                pts.push(*t as i64 + cur);
                cur = *o;
                pts.push(*t as i64 + cur);
            }
        }
        pts.push(t1 as i64 + cur);
        (EPOCH_NS + *pts.iter().min().unwrap(), EPOCH_NS + *pts.iter().max().unwrap())
    }
    /// An injected failure for this call, if any.
    pub fn inject(&mut self, pid: Pid, cls: Class, at: &str) -> Option<i32> {
        let errs: &[i32] = match cls {
            Class::Open => &[EIO, EMFILE, ENFILE, EACCES],
            Class::Create => &[ENOSPC, EIO, EMFILE, EACCES, EROFS],
            Class::Read => &[EIO],
            Class::Write => &[ENOSPC, EIO, EDQUOT],
            Class::Sync => &[EIO, ENOSPC, EDQUOT],
            Class::Meta => &[ENOSPC, EIO, EACCES, EROFS],
            Class::Remove => &[EIO, EACCES, EROFS],
            Class::Stat => &[EIO, EACCES],
            Class::Lock => &[EIO, ENOLCK],
            Class::Dir => &[EIO],
            Class::Close | Class::Net | Class::Misc => return None,
        };
        let allowed = match &self.f.io_only {
            None => true,
            Some(v) => v.contains(&cls),
        };
        let here = match &self.f.io_under {
            None => true,
            Some(_) if self.f.io == 0 || !allowed => true,
            Some(pre) => {
                at.contains(pre.as_str())
                    || at.find(":ino").map_or(false, |k| {
                        let n: String = at[k + 4..].chars().take_while(|c| c.is_ascii_digit()).collect();
                        n.parse().map_or(false, |i| self.fs.find_path(i).starts_with(pre.as_str()))
                    })
            }
        };
        if allowed && here {
            let n = self.eligible.entry(pid).or_insert(0);
            *n += 1;
            let hit = match self.f.io_at {
                Some((p, k)) => {
                    if p == pid && *n == k {
                        self.f.io_at = None;
                        true
                    } else {
                        false
                    }
                }
                None => {
                    self.f.io > 0 && self.f.io_budget > 0 && {
                        let io = self.f.io;
                        self.ch.chance(io)
                    }
                }
            };
            if hit {
                self.f.io_budget = self.f.io_budget.saturating_sub(1);
                self.procs[pid].nfaults += 1;
                let e = errs[self.ch.choose(errs.len())];
                self.stat(match cls {
                    Class::Open => "io_error_open",
                    Class::Create => "io_error_create",
                    Class::Read => "io_error_read",
                    Class::Write => "io_error_write",
                    Class::Sync => "io_error_sync",
                    Class::Meta => "io_error_rename_mkdir_link",
                    Class::Remove => "io_error_remove",
                    Class::Stat => "io_error_stat",
                    Class::Lock => "io_error_lock",
                    _ => "io_error_dir",
                });
                self.faults_last_step = self.steps;
                return Some(e);
            }
        }
        if self.f.eintr > 0
            && matches!(cls, Class::Lock | Class::Read | Class::Write)
            && self.ch.chance(self.f.eintr)
        {
            self.stat("eintr");
            return Some(EINTR);
        }
        None
    }
    /// Shortens a transfer of n bytes, sometimes.
    pub fn shorten(&mut self, n: usize) -> usize {
        if n > 1 && self.f.short > 0 && self.ch.chance(self.f.short) {
            self.stat("short_transfer");
            1 + self.ch.choose(n - 1)
        } else {
            n
        }
    }
}

impl Proc {
    fn blank(name: &str) -> Proc {
        Proc {
            name: name.into(),
            st: St::Done,
            ghost: false,
            fds: BTreeMap::new(),
            fd_base: 0,
            cwd: ROOT,
            baton: Arc::new(Baton::default()),
            ended: None,
            thread: None,
            parent: 0,
            exit_code: 0,
            reaped: false,
            env: vec![],
            steps: 0,
            immune: false,
            ghost_steps: 0,
            nfaults: 0,
            killed_seq: 0,
        }
    }
}

fn baton_of(p: Pid) -> Arc<Baton> {
    if p == 0 {
        unsafe { CTL.clone().unwrap() }
    } else {
        w().procs[p].baton.clone()
    }
}

fn switch(from: Pid, to: Pid) {
    if from == to {
        return;
    }
    w().switches += 1;
    let mine = baton_of(from);
    baton_of(to).give();
    mine.wait();
}

/// Called at every intercepted system call of a live simulated process. True = it is dead now.
pub fn sched_point(pid: Pid) -> bool {
    let wd = w();
    if wd.procs[pid].ghost {
        return true;
    }
    wd.steps += 1;
    wd.procs[pid].steps += 1;
    wd.now += 1_000;
    wd.fs.now = wd.now;
    wd.fs.pid = pid;
    if let Some(mut inv) = wd.invariant.take() {
        if wd.inv_failed.is_none() {
            if let Some(m) = inv(wd) {
                wd.note(format!("INVARIANT BROKEN: {}", m));
                wd.inv_failed = Some(m);
                wd.stop = Some(Stop::AllDone);
                wd.kill_all();
            }
        }
        wd.invariant = Some(inv);
    }
    if wd.stop.is_none() {
        if wd.steps > wd.step_limit || wd.time_limit.map_or(false, |t| wd.now > t) {
            wd.note("STEP/TIME LIMIT".into());
            wd.stop = Some(Stop::StepLimit);
            wd.kill_all();
        } else {
            wd.maybe_disaster(pid);
        }
    }
    if wd.procs[pid].ghost {
        return true;
    }
    let next = wd.pick(pid);
    switch(pid, next);
    w().fs.pid = pid;
    w().procs[pid].ghost
}

/// Blocks the process until the condition holds or the deadline passes.
/// Err(EIO) = killed meanwhile. Ok(true) = condition, Ok(false) = deadline.
pub fn block(pid: Pid, c: Cond, deadline: Option<u64>) -> Result<bool, i32> {
    let wd = w();
    if wd.procs[pid].ghost {
        return Err(EIO);
    }
    if wd.cond_ready(&c) {
        return Ok(true);
    }
    if wd.f.eintr > 0 && matches!(c, Cond::Flock(..)) && wd.ch.chance(wd.f.eintr * 5) {
        wd.stat("eintr_blocked");
        return Err(EINTR);
    }
    wd.procs[pid].st = St::Blocked(c.clone(), deadline);
    let next = wd.pick(pid);
    switch(pid, next);
    let wd = w();
    if wd.procs[pid].ghost {
        wd.procs[pid].st = St::Ready;
        return Err(EIO);
    }
    wd.procs[pid].st = St::Ready;
    wd.fs.pid = pid;
    Ok(wd.cond_ready(&c))
}

/// Adds a process. Its closure starts running at the next `run()`.
pub fn spawn<F: FnOnce() + Send + 'static>(name: &str, f: F) -> Pid {
    spawn_full(name, 0, f)
}

pub fn spawn_full<F: FnOnce() + Send + 'static>(name: &str, parent: Pid, f: F) -> Pid {
    let was = BUSY.with(|b| b.replace(true));
    let wd = w();
    let pid = wd.procs.len();
    let mut p = Proc::blank(name);
    p.st = St::Ready;
    p.parent = parent;
    p.fd_base = 100_000 + 1000 * pid as i32;
    if parent != 0 {
        p.cwd = wd.procs[parent].cwd;
        p.immune = wd.procs[parent].immune;
    } else {
        p.cwd = wd.fs.mkdir_p("/work");
    }
    let baton = p.baton.clone();
    let seed = if wd.f.same_tmp_names { 7 } else { 1000 + pid as u64 };
    let th = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            BUSY.with(|b| b.set(true));
            baton.wait();
            fastrand::seed(seed);
            CUR.with(|c| c.set(pid));
            BUSY.with(|b| b.set(false));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            BUSY.with(|b| b.set(true));
            let wd = w();
            let ended = if wd.procs[pid].ghost {
                Ended::Killed
            } else {
                match r {
                    Ok(()) => Ended::Returned,
                    Err(e) => Ended::Panicked(panic_text(&*e)),
                }
            };
            if let Ended::Panicked(m) = &ended {
                let m = m.clone();
                wd.note(format!("PANIC in {}: {}", wd.procs[pid].name, m));
                wd.procs[pid].exit_code = 101;
            }
            wd.note(format!("EXIT {} {:?}", wd.procs[pid].name, ended));
            wd.procs[pid].ended = Some(ended);
            let fds: Vec<i32> = wd.procs[pid].fds.keys().copied().collect();
            for fd in fds {
                let _ = wd.close_fd(pid, fd);
            }
            wd.procs[pid].st = St::Done;
            CUR.with(|c| c.set(0));
            let next = wd.pick(pid);
            baton_of(next).give();
        })
        .unwrap();
    p.thread = Some(th);
    wd.procs.push(p);
    BUSY.with(|b| b.set(was));
    pid
}

fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    let m = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    };
    m
}

/// Runs until every process has ended or the run is stopped. All threads are gone afterwards.
pub fn run() -> Stop {
    let wd = w();
    wd.stop = None;
    let next = wd.pick(0);
    switch(0, next);
    let wd = w();
    for p in 1..wd.procs.len() {
        if let Some(t) = wd.procs[p].thread.take() {
            t.join().ok();
        }
    }
    let stop = wd.stop.take().unwrap_or(Stop::AllDone);
    wd.note(format!("STOP {:?}", stop));
    stop
}

/// True if the calling simulated process has been killed (its remaining code has no effect).
pub fn dead() -> bool {
    let pid = CUR.with(|c| c.get());
    pid != 0 && w().procs[pid].ghost
}

pub fn me() -> Pid {
    CUR.with(|c| c.get())
}
/// Injected I/O failures the calling process has met so far.
pub fn my_faults() -> u64 {
    w().procs[me()].nfaults
}

/// Next global event number; stamps histories.
pub fn seq() -> u64 {
    let wd = w();
    wd.seq += 1;
    wd.seq
}

/// A history shared between simulated processes; entries of dead processes are dropped.
pub struct Hist<T>(Arc<Mutex<Vec<(u64, Pid, T)>>>);
impl<T> Clone for Hist<T> {
    fn clone(&self) -> Self {
        Hist(self.0.clone())
    }
}
impl<T> Hist<T> {
    pub fn new() -> Hist<T> {
        Hist(Arc::new(Mutex::new(vec![])))
    }
    pub fn push(&self, t: T) {
        if !dead() {
            let pid = CUR.with(|c| c.get());
            self.0.lock().unwrap_or_else(|e| e.into_inner()).push((seq(), pid, t));
        }
    }
    pub fn take(&self) -> Vec<(u64, Pid, T)> {
        std::mem::take(&mut *self.0.lock().unwrap_or_else(|e| e.into_inner()))
    }
}

/// A scheduling point without a system call (used inside workloads).
pub fn yield_now() {
    let pid = CUR.with(|c| c.get());
    if pid != 0 {
        let was = BUSY.with(|b| b.replace(true));
        sched_point(pid);
        BUSY.with(|b| b.set(was));
    }
}

pub fn errno_name(e: i32) -> String {
    let n = match e {
        EIO => "EIO",
        ENOENT => "ENOENT",
        EEXIST => "EEXIST",
        EINTR => "EINTR",
        ENOSPC => "ENOSPC",
        EXDEV => "EXDEV",
        ENOTDIR => "ENOTDIR",
        EISDIR => "EISDIR",
        EINVAL => "EINVAL",
        EAGAIN => "EAGAIN",
        EBADF => "EBADF",
        ENOTEMPTY => "ENOTEMPTY",
        EMFILE => "EMFILE",
        EACCES => "EACCES",
        ECONNREFUSED => "ECONNREFUSED",
        ECONNRESET => "ECONNRESET",
        EINPROGRESS => "EINPROGRESS",
        ETIMEDOUT => "ETIMEDOUT",
        ELOOP => "ELOOP",
        _ => return format!("-E{}", e),
    };
    n.into()
}
