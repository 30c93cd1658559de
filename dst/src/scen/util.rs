use crate::runner::Rep;
use crate::sim::*;

/// Switching and signal behaviour for a concurrent phase.
pub fn draw_sched() {
    let wd = w();
    wd.f.switch = *wd.ch.pick(&[250, 20, 80, 600, 900]);
    if wd.ch.chance(300) {
        wd.f.eintr = *wd.ch.pick(&[20, 100]);
    }
    if wd.ch.chance(300) {
        wd.f.short = *wd.ch.pick(&[100, 400]);
    }
}
pub fn draw_io() {
    let wd = w();
    wd.f.io = *wd.ch.pick(&[10, 3, 40, 150]);
    wd.f.io_budget = *wd.ch.pick(&[1, 2, 5]);
    if wd.ch.chance(250) {
        // one kind of call fails, again and again
        let c = *wd.ch.pick(&[Class::Write, Class::Sync, Class::Meta, Class::Read, Class::Open, Class::Create, Class::Lock, Class::Dir, Class::Stat]);
        wd.f.io_only = Some(vec![c]);
        wd.f.io = *wd.ch.pick(&[30, 100, 300, 600]);
    }
    if wd.fs.exists("/forest") && wd.ch.chance(300) {
        // part of the disk is bad
        let d = *wd.ch.pick(&["/cache/metadata", "/cache/http", "/cache/by-hash", "/cache/local-wheels", "/cache", "/forest", "/build"]);
        wd.f.io_under = Some(d.into());
        wd.f.io = *wd.ch.pick(&[30, 100, 300]);
    }
}
/// What is stored there can be read only now and then.
pub fn bad_reads(dirs: &[&str]) {
    let wd = w();
    let d = *wd.ch.pick(dirs);
    wd.f.io_under = Some(d.into());
    wd.f.io_only = Some(vec![Class::Read]);
    wd.f.io = *wd.ch.pick(&[100, 300, 30]);
    wd.f.io_budget = *wd.ch.pick(&[1, 3, 8]);
    wd.f.short = *wd.ch.pick(&[0, 300, 800]);
}
pub fn draw_crash() {
    let wd = w();
    wd.f.crash = *wd.ch.pick(&[10, 3, 30, 100]);
    wd.f.crash_budget = *wd.ch.pick(&[1, 2, 4]);
}
/// Something goes wrong right after some change below one of these directories.
pub fn draw_watch(dirs: &[&str]) {
    let wd = w();
    let d = wd.ch.pick(dirs).to_string();
    // (a rename is what makes things visible)
    let renames = wd.ch.chance(400);
    let most = if renames { *wd.ch.pick(&[3, 8, 30, 100]) } else { *wd.ch.pick(&[20, 60, 200, 600]) };
    let n = 1 + wd.ch.size(most) as u64;
    wd.fs.watch = Some((d, n, renames));
    wd.f.at_watch = *wd.ch.pick(&[0, 1, 1, 2]);
}
/// No more faults; schedules keep varying.
pub fn calm() {
    let wd = w();
    wd.f.io = 0;
    wd.f.io_at = None;
    wd.f.io_only = None;
    wd.f.io_under = None;
    wd.fs.watch = None;
    wd.fs.watch_hit = None;
    wd.f.crash = 0;
    wd.f.crash_at = None;
    wd.f.power_at = None;
    wd.f.eintr = 0;
    wd.f.jump = 0;
    wd.net.f = NetFaults::default();
    wd.net.script = None;
    wd.fs.space_left = None;
}
pub fn fired(k: &str) -> bool {
    w().stats.get(k).copied().unwrap_or(0) > 0
}
pub fn any_io_error() -> bool {
    w().stats.iter().any(|(k, v)| *v > 0 && (k.starts_with("io_error") || *k == "disk_full"))
}

/// Judges how a phase ended: panics and processes that never finish.
pub fn judge_end(rep: &mut Rep, stop: &Stop, prop_panic: &[&str], prop_stuck: &[&str]) {
    let wd = w();
    let mut panics = vec![];
    for p in &wd.procs[1..] {
        if let Some(Ended::Panicked(m)) = &p.ended {
            panics.push((p.name.clone(), m.clone()));
        }
    }
    for (n, m) in panics {
        for pr in prop_panic {
            rep.fail(pr, "panic", format!("{} panicked: {} (at {})", n, m, crate::runner::last_panic_location()));
        }
    }
    match stop {
        Stop::Deadlock(s) => {
            // someone waits, without any timeout, for a reply on a connection used before
            let reused = s.split("SockRead(").skip(1).any(|x| {
                let (n, rest) = x.split_once(')').unwrap_or(("", ""));
                rest.starts_with(", None") && n.parse::<usize>().map_or(false, |k| wd.net.socks[k].served > 1)
            });
            for pr in prop_stuck {
                rep.fail(pr, if reused { "hang-on-reused-connection" } else { "stuck" }, format!("processes wait forever: {}", s));
            }
        }
        Stop::StepLimit => {
            for pr in prop_stuck {
                rep.fail(pr, "endless", "processes did not finish within the step/time bound".into());
            }
        }
        _ => (),
    }
    if let Some(m) = wd.inv_failed.take() {
        let (p, rest) = m.split_once('|').unwrap_or((&m, ""));
        let (sig, msg) = rest.split_once('|').unwrap_or((rest, ""));
        rep.fail(p, sig, msg.to_string());
    }
}

pub fn errstr<E: std::fmt::Debug>(e: &E) -> String {
    let s = format!("{:?}", e);
    s.chars().take(300).collect()
}
/// Network faults a process met in a stretch of the run.
pub fn net_faults(pid: Pid, b: u64, e: u64) -> u64 {
    let n = &w().net;
    n.reqs.iter().filter(|l| l.pid == pid && l.seq >= b && l.seq <= e && l.fate != Fate::Ok).count() as u64
        + n.conns.iter().filter(|c| c.pid == pid && c.seq >= b && c.seq <= e && c.what != "ok").count() as u64
}
