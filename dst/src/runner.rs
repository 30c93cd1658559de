//! Seeded search over runs, minimisation, replay, evidence.

use crate::sim::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::io::FromRawFd;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fail {
    pub prop: String,
    /// what kind of violation, independent of seed and schedule
    pub sig: String,
    pub msg: String,
}

/// Collects what one run showed.
#[derive(Default)]
pub struct Rep {
    pub fails: Vec<Fail>,
    pub trivial: bool,
    pub focus: String,
    pub thorough: bool,
}
impl Rep {
    pub fn fail(&mut self, prop: &str, sig: &str, msg: String) {
        w().note(format!("VIOLATION {} {}: {}", prop, sig, msg));
        if self.fails.len() < 50 {
            self.fails.push(Fail { prop: prop.into(), sig: sig.into(), msg });
        }
    }
    pub fn check(&mut self, ok: bool, prop: &str, sig: &str, msg: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(prop, sig, msg());
        }
        ok
    }
    /// Nothing interesting can be concluded from this run.
    pub fn trivial(&mut self) {
        self.trivial = true;
    }
}

pub struct Scen {
    pub name: &'static str,
    pub props: &'static [&'static str],
    pub weight: u32,
    pub f: fn(&mut Rep),
}

pub struct Out {
    pub fails: Vec<Fail>,
    pub nontrivial: bool,
    pub hash: u64,
    pub sched_hash: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub stats: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub trace: Vec<u32>,
    pub log: Vec<String>,
    pub unsupported: Option<String>,
}

static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let was = BUSY.with(|b| b.replace(true));
        let pid = CUR.with(|c| c.get());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let harness_code = loc.starts_with("src/");
        let ghost = pid != 0 && w().procs[pid].ghost;
        if !ghost && (was || pid == 0 || harness_code) {
            eprintln!("HARNESS PANIC: {}", info);
            unsafe { libc::_exit(70) }
        }
        if !ghost {
            *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(loc);
        }
        BUSY.with(|b| b.set(was));
    }));
}
pub fn last_panic_location() -> String {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone().unwrap_or_default()
}

pub fn execute(s: &Scen, focus: &str, ch: Choices, keep_log: bool, thorough: bool) -> Out {
    install(World::new(ch));
    w().keep_log = keep_log;
    let mut rep = Rep { focus: focus.into(), thorough, ..Default::default() };
    (s.f)(&mut rep);
    let wd = w();
    let out = Out {
        fails: rep.fails,
        nontrivial: !rep.trivial,
        hash: wd.hash,
        sched_hash: wd.sched_hash,
        steps: wd.steps,
        sim_ns: wd.now,
        switches: wd.switches,
        stats: std::mem::take(&mut wd.stats),
        probes: std::mem::take(&mut wd.probes),
        trace: std::mem::take(&mut wd.ch.trace),
        log: std::mem::take(&mut wd.logv),
        unsupported: wd.unsupported.take(),
    };
    uninstall();
    if let Some(u) = &out.unsupported {
        eprintln!("HARNESS: unsupported operation in simulation: {}", u);
        unsafe { libc::_exit(70) }
    }
    out
}

#[derive(Serialize, Deserialize, Default)]
struct Sum {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    sim_ns: u64,
    switches: u64,
    stats: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    per_scen: BTreeMap<String, u64>,
    hashes: Vec<u64>,
    scheds: Vec<u64>,
    known: BTreeMap<String, u64>,
    redone: u64,
    unsettled: u64,
}

#[derive(Serialize, Deserialize)]
enum Msg {
    Fail { scen: String, idx: u64, seed: u64, fails: Vec<Fail>, trace: Vec<u32> },
    Nondet { scen: String, seed: u64 },
    Done(Sum),
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Replay {
    pub property: String,
    pub scenario: String,
    pub signature: String,
    pub message: String,
    pub seed: u64,
    pub thorough: bool,
    /// None: the run could not be recorded (it aborted or hung); replay it from its seed
    pub choices: Option<Vec<u32>>,
    pub original_choices: usize,
    pub event_hash: String,
    pub log: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Known {
    pub prop: String,
    pub sig: String,
    pub what: String,
}

pub fn load_known(path: &str) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let (prop, r) = r.split_once(" sig=").unwrap_or((r, ""));
            let (sig, what) = r.split_once(" :: ").unwrap_or((r, ""));
            v.push(Known { prop: prop.trim().into(), sig: sig.trim().into(), what: what.trim().into() });
        }
    }
    v
}

pub struct Cfg {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub runs: u64,
    pub wall_cap: Duration,
    pub workers: usize,
    pub root: String,
}

fn fnv_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
pub fn run_seed(base: u64, prop: &str, i: u64) -> u64 {
    mix(mix(base ^ fnv_str(prop)).wrapping_add(i))
}
fn pick_scen<'a>(scens: &[&'a Scen], seed: u64) -> &'a Scen {
    let total: u64 = scens.iter().map(|s| s.weight as u64).sum();
    let mut x = mix(seed ^ 0x77) % total;
    for s in scens {
        if x < s.weight as u64 {
            return s;
        }
        x -= s.weight as u64;
    }
    scens[0]
}

fn is_known<'a>(known: &'a [Known], f: &Fail) -> Option<&'a Known> {
    known.iter().find(|k| k.prop == f.prop && k.sig == f.sig)
}

/// Drops privileges: whatever a changed system under test manages to reach through a call the
/// simulator does not see, it reaches as nobody.
fn contain(cpu: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
        libc::CPU_SET(cpu % n, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let zero = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &zero);
        if libc::getuid() == 0 {
            libc::setgroups(0, std::ptr::null());
            if libc::setgid(65534) != 0 || libc::setuid(65534) != 0 {
                libc::_exit(70);
            }
        }
        let d = b"/proc/self\0";
        libc::chdir(d.as_ptr() as *const libc::c_char);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

struct Shared(*mut u64);
impl Shared {
    fn new(n: usize) -> Shared {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                n * 16,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            Shared(p as *mut u64)
        }
    }
    fn set(&self, k: usize, v: u64) {
        unsafe { self.0.add(k).write_volatile(v) }
    }
    fn get(&self, k: usize) -> u64 {
        unsafe { self.0.add(k).read_volatile() }
    }
}

pub struct Verdict {
    pub code: i32,
}

const HANG_SECS: u64 = 100;

pub fn check(cfg: &Cfg, all: &[Scen]) -> i32 {
    let t0 = Instant::now();
    let scens: Vec<&Scen> = all.iter().filter(|s| s.props.contains(&cfg.prop.as_str())).collect();
    if scens.is_empty() {
        eprintln!("no scenario for {}", cfg.prop);
        return 2;
    }
    let known: Vec<Known> = load_known(&format!("{}/KNOWN_FINDINGS.txt", cfg.root))
        .into_iter()
        .filter(|k| k.prop == cfg.prop)
        .collect();
    let n = cfg.workers;
    let sh = Shared::new(n);
    let mut kids = vec![];
    for k in 0..n {
        let mut p = [0; 2];
        unsafe {
            assert!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) == 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(p[0]);
                worker(cfg, &scens, &known, k, &sh, p[1], t0);
                libc::_exit(0);
            }
            libc::close(p[1]);
            kids.push((pid, p[0]));
        }
    }
    let (tx, rx) = std::sync::mpsc::channel::<(usize, Option<Msg>)>();
    for (k, (_, fd)) in kids.iter().enumerate() {
        let f = unsafe { std::fs::File::from_raw_fd(*fd) };
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(f).lines() {
                if let Ok(l) = l {
                    if let Ok(m) = serde_json::from_str(&l) {
                        let _ = tx.send((k, Some(m)));
                    }
                }
            }
            let _ = tx.send((k, None));
        });
    }
    let mut sum = Sum::default();
    let mut open = n;
    let mut found: Option<(String, u64, Vec<Fail>, Option<Vec<u32>>)> = None;
    let mut harness_err: Option<String> = None;
    let mut last: Vec<(u64, Instant)> = (0..n).map(|_| (u64::MAX, Instant::now())).collect();
    let mut finished = vec![false; n];
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    while open > 0 {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok((k, None)) => {
                open -= 1;
                let mut st = 0;
                unsafe { libc::waitpid(kids[k].0, &mut st, 0) };
                if !finished[k] && found.is_none() && harness_err.is_none() {
                    let i = sh.get(k);
                    let seed = run_seed(cfg.seed, &cfg.prop, i);
                    let sc = pick_scen(&scens, seed);
                    let code = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { -1 };
                    if code == 70 {
                        harness_err = Some(format!("worker failed (harness) in {} run {}", sc.name, i));
                    } else {
                        let how = if libc::WIFSIGNALED(st) {
                            format!("signal {}", libc::WTERMSIG(st))
                        } else {
                            format!("exit status {}", code)
                        };
                        let f = Fail {
                            prop: cfg.prop.clone(),
                            sig: format!("abort:{}", how),
                            msg: format!("the program under test brought its process down ({})", how),
                        };
                        found = Some((sc.name.into(), seed, vec![f], None));
                    }
                    for (pid, _) in &kids {
                        unsafe { libc::kill(*pid, libc::SIGKILL) };
                    }
                }
            }
            Ok((k, Some(Msg::Done(s)))) => {
                finished[k] = true;
                sum.runs += s.runs;
                sum.nontrivial += s.nontrivial;
                sum.steps += s.steps;
                sum.sim_ns += s.sim_ns;
                sum.switches += s.switches;
                sum.redone += s.redone;
                sum.unsettled += s.unsettled;
                for (k, v) in s.stats {
                    *sum.stats.entry(k).or_default() += v;
                }
                for (k, v) in s.probes {
                    *sum.probes.entry(k).or_default() += v;
                }
                for (k, v) in s.per_scen {
                    *sum.per_scen.entry(k).or_default() += v;
                }
                for (k, v) in s.known {
                    *sum.known.entry(k).or_default() += v;
                }
                hashes.extend(s.hashes);
                scheds.extend(s.scheds);
            }
            Ok((_, Some(Msg::Fail { scen, seed, fails, trace, .. }))) => {
                if found.is_none() {
                    found = Some((scen, seed, fails, Some(trace)));
                    for (pid, _) in &kids {
                        unsafe { libc::kill(*pid, libc::SIGKILL) };
                    }
                }
            }
            Ok((_, Some(Msg::Nondet { scen, seed }))) => {
                harness_err = Some(format!("run not repeatable: {} seed {}", scen, seed));
                for (pid, _) in &kids {
                    unsafe { libc::kill(*pid, libc::SIGKILL) };
                }
            }
            Err(_) => (),
        }
        for k in 0..n {
            let i = sh.get(k) ^ (sh.get(n + k) << 48);
            if finished[k] {
                continue;
            }
            if last[k].0 != i {
                last[k] = (i, Instant::now());
            } else if last[k].1.elapsed() > Duration::from_secs(HANG_SECS) && found.is_none() {
                let i = sh.get(k);
                let seed = run_seed(cfg.seed, &cfg.prop, i);
                let sc = pick_scen(&scens, seed);
                let f = Fail {
                    prop: cfg.prop.clone(),
                    sig: "hang".into(),
                    msg: format!("the program under test computed for over {} s without reaching another system call", HANG_SECS),
                };
                found = Some((sc.name.into(), seed, vec![f], None));
                for (pid, _) in &kids {
                    unsafe { libc::kill(*pid, libc::SIGKILL) };
                }
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    if let Some(e) = harness_err {
        eprintln!("HARNESS ERROR: {}", e);
        return 2;
    }
    for k in &known {
        let c = sum.known.get(&k.sig).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={} {} (observed in {} of {} runs)", k.prop, k.what, c, sum.runs);
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some((scen, seed, fails, trace)) = &found {
        violations = 1;
        code = 1;
        let sc = scens.iter().find(|s| s.name == scen).unwrap();
        let f = fails.iter().find(|f| is_known(&known, f).is_none()).unwrap();
        let rp = minimise(sc, cfg, f, *seed, trace.clone());
        std::fs::create_dir_all(format!("{}/replays", cfg.root)).ok();
        let path = format!("replays/{}-{}-{:016x}.json", cfg.prop, scen, seed);
        std::fs::write(format!("{}/{}", cfg.root, path), serde_json::to_string_pretty(&rp).unwrap()).unwrap();
        println!("scenario {} seed {:#x}: {} -- {}", scen, seed, rp.signature, rp.message);
        for l in rp.log.iter().rev().take(40).collect::<Vec<_>>().into_iter().rev() {
            println!("    {}", l);
        }
        println!("VIOLATION property={} replay={}", cfg.prop, path);
    }
    // a few of this run's executions, written out
    let mut samples = vec![];
    let mut seen = HashSet::new();
    for i in 0..200u64 {
        let seed = run_seed(cfg.seed, &cfg.prop, i);
        let sc = pick_scen(&scens, seed);
        if seen.insert(sc.name) {
            if let Some((log, trace_len)) = in_child(|| {
                let o = execute(sc, &cfg.prop, Choices::random(seed), true, cfg.thorough);
                let total = o.log.len();
                let mut l: Vec<String> = o.log.iter().take(30).cloned().collect();
                if total > 45 {
                    l.push(format!("... {} more events ...", total - 45));
                    l.extend(o.log[total - 15..].iter().cloned());
                }
                (l, o.trace.len())
            }) {
                samples.push(serde_json::json!({
                    "scenario": sc.name, "seed": format!("{:#x}", seed), "decisions": trace_len, "events": log
                }));
            }
        }
        if samples.len() >= 4 {
            break;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<&String, &u64> = sum.stats.iter().filter(|(k, _)| !k.starts_with("host_")).collect();
    let ev = serde_json::json!({
        "property": cfg.prop,
        "tier": if cfg.thorough { "thorough" } else { "quick" },
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum.runs,
            "distinct_nontrivial": hashes.len(),
            "rule": RULE,
            "samples": samples,
            "nontrivial_runs": sum.nontrivial,
            "distinct_interleavings": scheds.len(),
            "interleaving_measure": "hash over the whole run of (process, system call, failed?) in execution order",
            "runs_per_scenario": sum.per_scen,
            "runs_per_hour": (sum.runs as f64 / search_s * 3600.0) as u64,
            "seeds_per_hour": (sum.runs as f64 / search_s * 3600.0) as u64,
            "simulated_seconds": sum.sim_ns as f64 / 1e9,
            "system_calls_simulated": sum.steps,
            "context_switches": sum.switches,
            "faults_injected": faults,
            "situations_reached": sum.probes,
            "runs_repeated_to_confirm_determinism": sum.redone,
            "of_those_only_settled_after_process_wide_initialisation": sum.unsettled,
            "workers": n,
            "real_components": REAL,
            "stub_components": STUBS,
            "known_findings_observed": sum.known,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": wall,
        "violations": violations,
    });
    std::fs::create_dir_all(format!("{}/evidence", cfg.root)).ok();
    std::fs::write(
        format!("{}/evidence/{}.json", cfg.root, cfg.prop),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .unwrap();
    println!(
        "{}: {} runs ({} distinct non-trivial, {} interleavings), {:.0} simulated s, {} system calls, {:.1} s wall",
        cfg.prop, sum.runs, hashes.len(), scheds.len(), sum.sim_ns as f64 / 1e9, sum.steps, wall
    );
    code
}

const RULE: &str = "each evaluation is one simulated execution generated from one seed (workload, schedule, \
faults all drawn from it); non-trivial = the scenario's own criterion held (the operations under test \
really ran, and where the property is about concurrency or faults, processes really interleaved or a fault \
really fired); distinct = different hash of the full event history";
const REAL: &[&str] = &[
    "posy (all of /repo/src that the scenario reaches, compiled unmodified apart from the posy_sim re-exports)",
    "Rust std file/process/net/time layers above libc", "fs2", "tempfile", "ureq", "http-cache-semantics",
    "ciborium", "zip", "tar", "flate2/zlib-ng", "pubgrub", "html5ever", "ring digests",
    "C40-C42, builds: build-frontend.py and sitecustomize.py as posy writes them, run by a real CPython whose file, clock and randomness calls are simulated",
];
const STUBS: &[&str] = &[
    "kernel: filesystem, page cache and disk, flock, processes, pipes, clocks, sleeping (simulated POSIX model)",
    "network, DNS and remote servers (simulated)",
    "build backends (modules written by the scenario whose hooks are implemented by the simulator), Python start-up (sys.path, module search)",
];
const ASSUMPTIONS: &[&str] = &[
    "simulated POSIX semantics: sequentially consistent file system calls, atomic same-device rename, EXDEV across mounts, flock released on last close or death",
    "TLS is not simulated (http:// URLs); the code under test does not distinguish",
    "code between two system calls is atomic with respect to other simulated processes (they share no memory)",
];

fn worker(cfg: &Cfg, scens: &[&Scen], known: &[Known], k: usize, sh: &Shared, fd: i32, t0: Instant) {
    contain(k);
    let mut out = unsafe { std::fs::File::from_raw_fd(fd) };
    let mut s = Sum::default();
    let n = cfg.workers as u64;
    let mut i = k as u64;
    let mut hashes = HashSet::new();
    let mut scheds = HashSet::new();
    while i < cfg.runs && t0.elapsed() < cfg.wall_cap {
        sh.set(k, i);
        let seed = run_seed(cfg.seed, &cfg.prop, i);
        let sc = pick_scen(scens, seed);
        let mut o = execute(sc, &cfg.prop, Choices::random(seed), false, cfg.thorough);
        if i % 61 == k as u64 || i < 40 {
            sh.set(cfg.workers + k, 1);
            s.redone += 1;
            // What the code under test initialises once per process (compiled regular
            // expressions and the like) may show in the first run that needs it, through the
            // order of some hash table; it is the settled behaviour that counts, and it must settle.
            let mut settled = false;
            for _ in 0..4 {
                let o2 = execute(sc, &cfg.prop, Choices::random(seed), false, cfg.thorough);
                settled = o2.hash == o.hash && o2.trace == o.trace && o2.fails == o.fails;
                if settled {
                    break;
                }
                s.unsettled += 1;
                o = o2;
            }
            sh.set(cfg.workers + k, 0);
            if !settled {
                let m = Msg::Nondet { scen: sc.name.into(), seed };
                writeln!(out, "{}", serde_json::to_string(&m).unwrap()).ok();
                unsafe { libc::_exit(70) }
            }
        }
        s.runs += 1;
        *s.per_scen.entry(sc.name.into()).or_default() += 1;
        s.steps += o.steps;
        s.sim_ns += o.sim_ns;
        s.switches += o.switches;
        for (k, v) in &o.stats {
            *s.stats.entry(k.to_string()).or_default() += v;
        }
        for (k, v) in &o.probes {
            *s.probes.entry(k.to_string()).or_default() += v;
        }
        if o.nontrivial {
            s.nontrivial += 1;
            hashes.insert(o.hash);
        }
        scheds.insert(o.sched_hash);
        let mine: Vec<Fail> = o.fails.into_iter().filter(|f| f.prop == cfg.prop).collect();
        let mut bad = false;
        let mut seen = HashSet::new();
        for f in &mine {
            match is_known(known, f) {
                Some(kn) => {
                    if seen.insert(kn.sig.clone()) {
                        *s.known.entry(kn.sig.clone()).or_default() += 1;
                    }
                }
                None => bad = true,
            }
        }
        if bad {
            let m = Msg::Fail { scen: sc.name.into(), idx: i, seed, fails: mine, trace: o.trace };
            writeln!(out, "{}", serde_json::to_string(&m).unwrap()).ok();
        }
        i += n;
    }
    s.hashes = hashes.into_iter().collect();
    s.scheds = scheds.into_iter().collect();
    writeln!(out, "{}", serde_json::to_string(&Msg::Done(s)).unwrap()).ok();
}

/// Runs f in a forked, contained process; None if it died.
fn in_child<T: Serialize + for<'a> Deserialize<'a>>(f: impl FnOnce() -> T) -> Option<T> {
    unsafe {
        let mut p = [0; 2];
        assert!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) == 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(p[0]);
            contain(std::process::id() as usize);
            libc::alarm(HANG_SECS as u32 + 20);
            let mut o = std::fs::File::from_raw_fd(p[1]);
            let v = f();
            o.write_all(&serde_json::to_vec(&v).unwrap()).ok();
            libc::_exit(0);
        }
        libc::close(p[1]);
        let r = std::fs::File::from_raw_fd(p[0]);
        let v = serde_json::from_reader(r).ok();
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        v
    }
}

#[derive(Serialize, Deserialize)]
struct Tried {
    choices: Vec<u32>,
    hash: u64,
    log: Vec<String>,
    message: String,
    tries: u32,
}

fn minimise(sc: &Scen, cfg: &Cfg, f: &Fail, seed: u64, trace: Option<Vec<u32>>) -> Replay {
    let mut rp = Replay {
        property: cfg.prop.clone(),
        scenario: sc.name.into(),
        signature: f.sig.clone(),
        message: f.msg.clone(),
        seed,
        thorough: cfg.thorough,
        choices: None,
        original_choices: 0,
        event_hash: String::new(),
        log: vec![],
    };
    let trace = match trace {
        Some(t) => t,
        None => return rp,
    };
    rp.original_choices = trace.len();
    let r = in_child(|| {
        let t0 = Instant::now();
        let mut tries = 0;
        // None: the shortened run no longer fails this way
        let mut attempt = |c: &[u32], log: bool| -> Option<(Vec<u32>, u64, Vec<String>, String)> {
            tries += 1;
            let o = execute(sc, &cfg.prop, Choices::replay(c.to_vec()), log, cfg.thorough);
            let m = o.fails.iter().find(|x| x.prop == f.prop && x.sig == f.sig)?.msg.clone();
            let mut t = o.trace;
            while t.last() == Some(&0) {
                t.pop();
            }
            Some((t, o.hash, o.log, m))
        };
        attempt(&trace, false);
        let mut best = match attempt(&trace, false) {
            Some(b) => b.0,
            None => trace.clone(),
        };
        let budget = Duration::from_secs(40);
        let mut improved = true;
        let mut rounds = 0;
        while improved && t0.elapsed() < budget && rounds < 6 {
            improved = false;
            rounds += 1;
            // delete, then zero, ever smaller pieces
            for mode in 0..2 {
                let mut size = (best.len() / 2).max(1);
                loop {
                    let mut i = 0;
                    while i < best.len() && t0.elapsed() < budget {
                        let j = (i + size).min(best.len());
                        let mut c = best.clone();
                        if mode == 0 {
                            c.drain(i..j);
                        } else {
                            if c[i..j].iter().all(|x| *x == 0) {
                                i = j;
                                continue;
                            }
                            c[i..j].iter_mut().for_each(|x| *x = 0);
                        }
                        match attempt(&c, false) {
                            Some(b) if better(&b.0, &best) => {
                                best = b.0;
                                improved = true;
                            }
                            _ => i = j,
                        }
                    }
                    if size == 1 || t0.elapsed() >= budget {
                        break;
                    }
                    size /= 2;
                }
            }
            // smaller values
            let mut i = 0;
            while i < best.len() && t0.elapsed() < budget {
                let mut v = best[i];
                while v > 0 && i < best.len() {
                    let mut c = best.clone();
                    c[i] = v / 2;
                    match attempt(&c, false) {
                        Some(b) if better(&b.0, &best) => {
                            best = b.0;
                            improved = true;
                            v /= 2;
                        }
                        _ => break,
                    }
                }
                i += 1;
            }
        }
        let r = attempt(&best, true);
        let tr = tries;
        r.map(|(c, h, log, message)| Tried { choices: c, hash: h, log, message, tries: tr })
    });
    if let Some(Some(t)) = r {
        rp.choices = Some(t.choices);
        rp.event_hash = format!("{:016x}", t.hash);
        rp.log = t.log;
        rp.message = t.message;
        println!(
            "minimised from {} to {} decisions in {} runs",
            rp.original_choices,
            rp.choices.as_ref().unwrap().len(),
            t.tries
        );
    } else {
        rp.choices = Some(trace);
    }
    rp
}

fn better(a: &[u32], b: &[u32]) -> bool {
    let nz = |x: &[u32]| x.iter().filter(|v| **v != 0).count();
    (a.len(), nz(a), a.iter().map(|x| *x as u64).sum::<u64>())
        < (b.len(), nz(b), b.iter().map(|x| *x as u64).sum::<u64>())
}

pub fn replay(path: &str, all: &[Scen]) -> i32 {
    let rp: Replay = match std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(r) => r,
        None => {
            eprintln!("cannot read {}", path);
            return 2;
        }
    };
    let sc = match all.iter().find(|s| s.name == rp.scenario) {
        Some(s) => s,
        None => return 2,
    };
    let r = in_child(|| {
        let ch = || match &rp.choices {
            Some(c) => Choices::replay(c.clone()),
            None => Choices::random(rp.seed),
        };
        // once to get process-wide initialisation out of the way, as when it was recorded
        execute(sc, &rp.property, ch(), false, rp.thorough);
        let o = execute(sc, &rp.property, ch(), true, rp.thorough);
        (o.fails, o.log, format!("{:016x}", o.hash))
    });
    match r {
        None => {
            println!("the run brought the process down or hung, as recorded: {}", rp.message);
            println!("VIOLATION property={} replay={}", rp.property, path);
            1
        }
        Some((fails, log, hash)) => {
            for l in &log {
                println!("    {}", l);
            }
            for f in &fails {
                println!("{} {} -- {}", f.prop, f.sig, f.msg);
            }
            let hit = fails.iter().any(|f| f.prop == rp.property && f.sig == rp.signature);
            println!("event hash {} (recorded {})", hash, rp.event_hash);
            if hit {
                println!("VIOLATION property={} replay={}", rp.property, path);
                1
            } else {
                println!("not reproduced");
                0
            }
        }
    }
}

/// One run by seed, for development.
pub fn one(all: &[Scen], prop: &str, scen: &str, seed: u64, log: bool, before: u32) -> i32 {
    let sc = all.iter().find(|s| s.name == scen).expect("scenario");
    let r = in_child(|| {
        let mut keep = vec![];
        for _ in 0..before {
            keep.push(execute(sc, prop, Choices::random(seed), log, false));
        }
        let o = execute(sc, prop, Choices::random(seed), log, false);
        (o.fails, o.log, o.steps)
    });
    match r {
        Some((fails, log, steps)) => {
            for l in log {
                println!("{}", l);
            }
            println!("steps {} fails {:#?}", steps, fails);
            0
        }
        None => 3,
    }
}

/// Developer's overview: every kind of failure of a scenario over N seeds, nothing minimised.
pub fn survey(all: &[Scen], scen: &str, n: u64, start: u64, thorough: bool, secs: u64) -> i32 {
    let r = in_child(|| {
        unsafe { libc::alarm(0) };
        let mut m: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
        let mut stats: BTreeMap<String, u64> = BTreeMap::new();
        let (mut triv, mut steps, mut maxsteps) = (0u64, 0u64, 0u64);
        for s in all.iter().filter(|s| s.name == scen || scen == "all") {
            let t0 = Instant::now();
            for i in 0..n {
                if secs > 0 && t0.elapsed().as_secs() >= secs {
                    break;
                }
                let seed = mix(start + i);
                let o = execute(s, "", Choices::random(seed), false, thorough);
                triv += !o.nontrivial as u64;
                steps += o.steps;
                maxsteps = maxsteps.max(o.steps);
                for (k, v) in o.stats.iter().chain(o.probes.iter()) {
                    *stats.entry(k.to_string()).or_default() += v;
                }
                for f in o.fails {
                    let e = m.entry(format!("{} {} {}", s.name, f.prop, f.sig)).or_insert((0, seed, f.msg));
                    e.0 += 1;
                }
            }
        }
        let mut out = vec![];
        for (k, (c, seed, msg)) in m {
            out.push(format!("{:>6} {} seed {}\n         {}", c, k, seed, msg.chars().take(900).collect::<String>()));
        }
        out.push(format!("trivial {} steps {} max {} {:?}", triv, steps, maxsteps, stats));
        out
    });
    match r {
        Some(v) => {
            for l in v {
                println!("{}", l);
            }
            0
        }
        None => 3,
    }
}
