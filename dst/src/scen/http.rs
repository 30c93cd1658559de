//! The HTTP layer: cache semantics, cache modes, truncation, redirects.

use super::kv::slurp;
use super::site::*;
use super::util::*;
use crate::runner::{Rep, Scen};
use crate::sim::*;
use posy::sim_api::{CacheMode, Http, KVFileStore, NotCached, ReadPlusMaybeSeek};
use std::collections::BTreeSet;
use std::io::{Read, Seek, SeekFrom};
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use url::Url;

pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "http_cache", props: &["C11", "C12", "C13", "C15"], weight: 6, f: http_cache },
        Scen { name: "http_faults", props: &["C11", "C12", "C13", "C15", "C42"], weight: 5, f: http_faults },
        Scen { name: "http_redirect", props: &["C15", "C11"], weight: 5, f: http_redirect },
    ]
}

pub const HOST: &str = "http://files.test";

#[derive(Clone, Debug)]
struct Ask {
    url: String,
    method: &'static str,
    mode: CacheMode,
    cc: Option<&'static str>,
    accept: Option<&'static str>,
    /// through get_hashed(None): only the bytes are visible
    bytes_only: bool,
    /// follows this op at once, with the same request, cache-only
    follows: Option<usize>,
}

#[derive(Clone, Debug)]
enum Out {
    Ok { status: u16, url: Option<String>, xver: Option<String>, body: Result<Vec<u8>, String> },
    NotCached,
    Err(String),
}

#[derive(Clone, Debug)]
struct Rec {
    pid: Pid,
    b_seq: u64,
    b_t: u64,
    e_seq: u64,
    e_t: u64,
    ask: Ask,
    out: Option<Out>,
    faults: u64,
    muts: Vec<String>,
    interrupted: bool,
    healthy: bool,
}

pub struct Sh {
    site: Arc<Mutex<Site>>,
    recs: Mutex<Vec<Rec>>,
    bad: Mutex<Vec<(&'static str, &'static str, String)>>,
}

pub fn mk_http() -> eyre::Result<Http> {
    Ok(Http::new(KVFileStore::new(Path::new("/cache/http"))?, KVFileStore::new(Path::new("/cache/by-hash"))?))
}

fn check_seeks(sh: &Sh, r: &mut dyn posy::sim_api::ReadPlusSeek, body: &[u8]) {
    let f0 = my_faults();
    let mut go = || -> std::io::Result<Option<String>> {
        for _ in 0..2 {
            let len = body.len();
            let pos = w().ch.choose(len + 1);
            let (how, from) = match w().ch.choose(3) {
                0 => ("start", SeekFrom::Start(pos as u64)),
                1 => ("end", SeekFrom::End(pos as i64 - len as i64)),
                _ => {
                    let cur = r.stream_position()? as i64;
                    ("current", SeekFrom::Current(pos as i64 - cur))
                }
            };
            let at = match r.seek(from) {
                Ok(a) => a,
                Err(e) if e.kind() == std::io::ErrorKind::InvalidInput => {
                    return Ok(Some(format!("seeking to {} of {} (from {}) is refused: {}", pos, len, how, e)))
                }
                Err(e) => return Err(e),
            };
            if at != pos as u64 {
                return Ok(Some(format!("seeking to {} of {} (from {}) went to {}", pos, len, how, at)));
            }
            let n = 1 + w().ch.size(len);
            let mut buf = vec![0; n];
            let mut got = 0;
            while got < n {
                match r.read(&mut buf[got..]) {
                    Ok(0) => break,
                    Ok(k) => got += k,
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => (),
                    Err(e) => return Err(e),
                }
            }
            let want = &body[pos..(pos + n).min(len)];
            if buf[..got] != *want {
                return Ok(Some(format!("after seeking to {} a read of {} gave {} bytes, not the {} expected", pos, n, got, want.len())));
            }
        }
        Ok(None)
    };
    match go() {
        Ok(None) => (),
        Ok(Some(m)) => {
            if !dead() {
                sh.bad.lock().unwrap().push(("C13", "seek", m))
            }
        }
        Err(e) => {
            if my_faults() == f0 && !dead() {
                sh.bad.lock().unwrap().push(("C13", "spurious-read-error", format!("reading a stored body failed without a fault: {}", e)))
            }
        }
    }
}

fn perform(sh: &Sh, http: &Http, ask: &Ask) -> Out {
    let conv = |e: eyre::Report| {
        if e.downcast_ref::<NotCached>().is_some() {
            Out::NotCached
        } else {
            Out::Err(errstr(&e))
        }
    };
    if ask.bytes_only {
        let url = Url::parse(&ask.url).unwrap();
        return match http.get_hashed(&url, None, ask.mode) {
            Err(e) => conv(e),
            Ok(mut r) => {
                let body = slurp(&mut r).map_err(|e| e.to_string());
                if let Ok(b) = &body {
                    if w().ch.chance(300) {
                        check_seeks(sh, &mut r, b);
                    }
                }
                Out::Ok { status: 0, url: None, xver: None, body }
            }
        };
    }
    let mut b = http::Request::builder().method(ask.method).uri(ask.url.as_str());
    if let Some(c) = ask.cc {
        b = b.header("Cache-Control", c);
    }
    if let Some(a) = ask.accept {
        b = b.header("Accept", a);
    }
    match http.request(b.body(()).unwrap(), ask.mode) {
        Err(e) => conv(e),
        Ok(resp) => {
            let (parts, mut body) = resp.into_parts();
            if w().ch.chance(150) {
                yield_now();
            }
            let got = slurp(&mut body).map_err(|e| e.to_string());
            if let (ReadPlusMaybeSeek::CanSeek(r), Ok(b)) = (&mut body, &got) {
                if w().ch.chance(300) {
                    check_seeks(sh, r, b);
                }
            }
            Out::Ok {
                status: parts.status.as_u16(),
                url: parts.extensions.get::<Url>().map(|u| u.to_string()),
                xver: parts.headers.get("X-Ver").and_then(|v| v.to_str().ok()).map(|s| s.to_string()),
                body: got,
            }
        }
    }
}

fn one_op(sh: &Sh, http: &Http, ask: Ask, healthy: bool) -> usize {
    let f0 = my_faults();
    let m0 = w().fs.muts.as_ref().map_or(0, |m| m.len());
    let pid = me();
    let rec = Rec {
        pid,
        b_seq: seq(),
        b_t: w().now,
        e_seq: u64::MAX,
        e_t: u64::MAX,
        ask: ask.clone(),
        out: None,
        faults: 0,
        muts: vec![],
        interrupted: true,
        healthy,
    };
    let id = {
        let mut g = sh.recs.lock().unwrap();
        g.push(rec);
        g.len() - 1
    };
    let out = perform(sh, http, &ask);
    if dead() {
        return id;
    }
    let mut g = sh.recs.lock().unwrap();
    let r = &mut g[id];
    r.out = Some(out);
    r.e_seq = seq();
    r.e_t = w().now;
    r.faults = my_faults() - f0;
    r.interrupted = false;
    if let Some(m) = &w().fs.muts {
        r.muts = m[m0..].iter().filter(|x| x.pid == pid && x.path.starts_with("/cache")).map(|x| format!("{} {}", x.op, x.path)).collect();
    }
    id
}

fn draw_ask(sh: &Sh, methods: bool) -> Ask {
    let urls: Vec<String> = sh.site.lock().unwrap().res.iter().map(|r| r.url.clone()).collect();
    let ch = &mut w().ch;
    let url = ch.pick(&urls).clone();
    let method = if methods && ch.chance(130) { "HEAD" } else { "GET" };
    let mode = match ch.choose(20) {
        0..=11 => CacheMode::Default,
        12..=15 => CacheMode::OnlyIfCached,
        16..=18 => CacheMode::NoStore,
        _ => CacheMode::Default,
    };
    let cc = match ch.choose(20) {
        0..=12 => None,
        13..=15 => Some("max-age=0"),
        16 => Some("no-cache"),
        17 | 18 => Some("max-age=4"),
        _ => Some("no-store"),
    };
    let accept = match ch.choose(6) {
        0..=3 => None,
        4 => Some("text/a"),
        _ => Some("text/b"),
    };
    let bytes_only = method == "GET" && cc.is_none() && accept.is_none() && ch.chance(250);
    Ask { url, method, mode, cc, accept, bytes_only, follows: None }
}

fn nap(sh: &Sh) {
    let ns: Vec<u64> = sh.site.lock().unwrap().res.iter().map(|r| r.vers.last().unwrap().policy.n()).filter(|n| *n > 0).collect();
    let ch = &mut w().ch;
    let s = match ch.choose(8) {
        0..=2 => return,
        3 => ch.choose(10) as u64,
        4 if !ns.is_empty() => ns[ch.choose(ns.len())].saturating_sub(1 + ch.choose(2) as u64),
        5 if !ns.is_empty() => ns[ch.choose(ns.len())] + ch.choose(2) as u64,
        6 => ch.choose(700) as u64,
        _ => ch.choose(100_000) as u64,
    };
    if s > 0 {
        std::thread::sleep(Duration::from_secs(s));
    }
}

fn client(sh: Arc<Sh>, nops: usize, naps: bool, methods: bool) {
    let http = match mk_http() {
        Ok(h) => h,
        Err(e) => {
            if my_faults() == 0 && !dead() {
                sh.bad.lock().unwrap().push(("C42", "spurious-error", format!("opening the cache failed: {}", errstr(&e))));
            }
            return;
        }
    };
    for _ in 0..nops {
        if dead() {
            return;
        }
        if naps {
            nap(&sh);
        }
        let ask = draw_ask(&sh, methods);
        let id = one_op(&sh, &http, ask.clone(), false);
        if dead() {
            return;
        }
        if ask.mode == CacheMode::Default && w().ch.chance(350) {
            let a2 = Ask { mode: CacheMode::OnlyIfCached, follows: Some(id), ..ask };
            one_op(&sh, &http, a2, false);
        }
    }
}

/// After everything: each resource is fetched by a fresh process from a healthy origin.
fn healthy_round(rep: &mut Rep, sh: &Arc<Sh>) {
    calm();
    w().rt_offset += 0;
    if w().ch.chance(500) {
        // long enough for everything explicit to expire
        w().now += 90_000 * 1_000_000_000;
    }
    let s2 = sh.clone();
    w().time_limit = Some(w().now + 120_000_000_000);
    spawn("after", move || {
        let http = match mk_http() {
            Ok(h) => h,
            Err(e) => {
                s2.bad.lock().unwrap().push(("C42", "unusable", format!("the cache cannot be opened any more: {}", errstr(&e))));
                return;
            }
        };
        let urls: Vec<String> = s2.site.lock().unwrap().res.iter().map(|r| r.url.clone()).collect();
        for url in urls {
            let bytes_only = w().ch.chance(300);
            one_op(&s2, &http, Ask { url, method: "GET", mode: CacheMode::Default, cc: None, accept: None, bytes_only, follows: None }, true);
        }
    });
    let stop = run();
    w().time_limit = None;
    judge_end(rep, &stop, &["C13", "C42"], &["C42"]);
}

fn file_res(ch: &mut Choices, url: String, wall: i64, faulty: bool) -> Resource {
    let size = match ch.choose(5) {
        0 => 40,
        1 => 9000,
        2 => 0,
        3 => ch.size(40_000),
        _ => 1 + ch.size(300),
    };
    let mut body = filler(&format!("{} v0", url), size);
    if size == 0 {
        body.clear();
    }
    let what = match ch.choose(12) {
        0..=8 => What::File,
        _ => What::Status(*ch.pick(&[404u16, 410, 403, 301, 502, 400, 429, 204])),
    };
    let no_body = matches!(what, What::Status(204));
    let v = Ver {
        what,
        body: if no_body { vec![] } else { body },
        etag: match ch.choose(3) {
            0 => None,
            1 => Some("\"e0\"".into()),
            _ => Some("W/\"e0\"".into()),
        },
        lm: if ch.choose(2) == 0 { None } else { Some(wall - 10 - ch.size(200_000) as i64) },
        policy: Policy::draw(ch),
    };
    Resource {
        url,
        vers: vec![v],
        cond: match ch.choose(10) {
            0..=4 => Cnd::Full,
            5 | 6 => Cnd::Validators,
            7 => Cnd::Ignore,
            8 => Cnd::Bare,
            _ => Cnd::OtherTag,
        },
        framing: match ch.choose(4) {
            0 | 1 => Framing::Length,
            2 => Framing::Chunked,
            _ => {
                let _ = faulty;
                Framing::Close
            }
        },
        gzip: !no_body && ch.chance(200),
        keep: ch.chance(800),
        change: *ch.pick(&[0, 200, 500]),
        changes_left: 4,
    }
}

fn new_sh() -> Arc<Sh> {
    Arc::new(Sh { site: Arc::new(Mutex::new(Site::new())), recs: Mutex::new(vec![]), bad: Mutex::new(vec![]) })
}
fn install_site(sh: &Sh) {
    install(sh.site.clone());
}
pub fn install(site: Arc<Mutex<Site>>) {
    w().net.hosts = vec!["files.test".into(), "mirror.test".into()];
    w().net.origin = Some(Box::new(move |wall: i64, req: &Req, ch: &mut Choices| site.lock().unwrap().handle(wall, req, ch)));
    w().fs.mkdir_p("/cache");
    w().fs.mkdir_p("/tmp");
    w().fs.muts = Some(vec![]);
}

/// A URL of its own, which often differs from another only in what is easily overlooked.
fn sibling(sh: &Sh, i: usize) -> String {
    let taken: Vec<String> = sh.site.lock().unwrap().res.iter().map(|r| r.url.clone()).collect();
    let ch = &mut w().ch;
    if ch.choose(2) == 0 {
        let host = if ch.chance(300) { "http://mirror.test" } else { HOST };
        let path = *ch.pick(&["f0", "F0", "f0?q=1", "f0?q=2", "f0?Q=1", "f0/", "f0/f0", "f0%20", "f0?q=1&r=2"]);
        let url = format!("{}/{}", host, path);
        if !taken.contains(&url) {
            return url;
        }
    }
    format!("{}/f{}{}", HOST, i, if i == 1 { "?q=1" } else { "" })
}

fn add_redirects(sh: &Sh, n: usize) {
    let mut site = sh.site.lock().unwrap();
    let wall = w().wall_ns() / 1_000_000_000;
    for i in 0..n {
        let ch = &mut w().ch;
        let host = if ch.chance(250) { "http://mirror.test" } else { HOST };
        let url = format!("{}/d{}/r{}", host, i % 2, i);
        let status = *ch.pick(&[302u16, 301, 303, 307, 308]);
        // usually the previous resource (so chains grow), sometimes anything, even itself
        let targets: Vec<String> = site.res.iter().map(|r| r.url.clone()).collect();
        let to = match ch.choose(10) {
            0..=6 if !targets.is_empty() => targets[targets.len() - 1].clone(),
            7 => url.clone(),
            8 => format!("{}/d{}/r{}", HOST, (i + 1) % 2, i + 1),
            _ if !targets.is_empty() => ch.pick(&targets).clone(),
            _ => format!("{}/missing", HOST),
        };
        let shown = render_location(ch, &url, &to);
        let v = Ver {
            what: What::Redirect { status, to: shown.as_ref().map(|_| to.clone()), shown },
            body: filler(&format!("moved {}", url), 30),
            etag: None,
            lm: if ch.chance(200) { Some(wall - 5000) } else { None },
            policy: Policy::draw(ch),
        };
        let framing = if ch.choose(2) == 0 { Framing::Length } else { Framing::Chunked };
        site.res.push(Resource {
            url,
            vers: vec![v],
            cond: Cnd::Full,
            framing,
            gzip: false,
            keep: true,
            change: 0,
            changes_left: 0,
        });
    }
}

fn render_location(ch: &mut Choices, from: &str, to: &str) -> Option<String> {
    let path_of = |u: &str| u["http://".len()..].find('/').map(|i| u["http://".len() + i..].to_string()).unwrap();
    let host_of = |u: &str| u["http://".len()..].split('/').next().unwrap().to_string();
    let same = host_of(from) == host_of(to);
    Some(match ch.choose(7) {
        0 | 1 => to.to_string(),
        2 if same => path_of(to),
        3 if same => format!("..{}", path_of(to)),
        4 => format!("//{}{}", host_of(to), path_of(to)),
        5 if same && path_of(from).rsplit_once('/').unwrap().0 == path_of(to).rsplit_once('/').unwrap().0 => {
            path_of(to).rsplit_once('/').unwrap().1.to_string()
        }
        6 => format!("{}#frag", to),
        _ if ch.chance(80) => return None,
        _ => to.to_string(),
    })
}

fn http_cache(rep: &mut Rep) {
    let sh = new_sh();
    install_site(&sh);
    let wall = w().wall_ns() / 1_000_000_000;
    let nres = w().ch.range(1, 3);
    for i in 0..nres {
        let url = sibling(&sh, i);
        let r = file_res(&mut w().ch, url, wall, false);
        sh.site.lock().unwrap().res.push(r);
    }
    if w().ch.chance(300) {
        let n = w().ch.range(1, 2);
        add_redirects(&sh, n);
    }
    draw_sched();
    w().net.f.frag = *w().ch.pick(&[0, 100]);
    w().net.f.idle_close = *w().ch.pick(&[0, 200]);
    if w().ch.chance(200) {
        w().f.jump = 3;
    }
    let nprocs = *w().ch.pick(&[1, 1, 2, 3]);
    for p in 0..nprocs {
        let sh = sh.clone();
        let nops = w().ch.range(2, 6);
        spawn(&format!("p{}", p), move || client(sh, nops, true, true));
    }
    let stop = run();
    judge_end(rep, &stop, &["C11", "C13", "C42"], &["C42"]);
    if w().ch.chance(500) {
        healthy_round(rep, &sh);
    }
    judge(rep, &sh, nprocs == 1);
}

fn http_faults(rep: &mut Rep) {
    let sh = new_sh();
    install_site(&sh);
    let wall = w().wall_ns() / 1_000_000_000;
    let nres = w().ch.range(1, 2);
    for i in 0..nres {
        let r = file_res(&mut w().ch, format!("{}/f{}", HOST, i), wall, true);
        sh.site.lock().unwrap().res.push(r);
    }
    if w().ch.chance(200) {
        add_redirects(&sh, 1);
    }
    draw_sched();
    let what = w().ch.choose(4);
    if what <= 1 {
        let f = &mut w().net.f;
        f.req = *w().ch.pick(&[300, 100, 600]);
        f.req_budget = *w().ch.pick(&[1, 2, 4, 12]);
        f.kinds = match w().ch.choose(4) {
            0 => vec![FateKind::Cut],
            1 => vec![FateKind::Cut, FateKind::Stall],
            _ => vec![FateKind::Cut, FateKind::Stall, FateKind::Drop, FateKind::Status],
        };
        f.conn = *w().ch.pick(&[0, 100]);
        f.dns = *w().ch.pick(&[0, 100]);
        f.conn_budget = 4;
    }
    w().net.f.chunk_fin = w().ch.chance(40);
    w().net.f.frag = *w().ch.pick(&[0, 100, 400]);
    w().net.f.delay = *w().ch.pick(&[0, 0, 200]);
    w().net.f.idle_close = *w().ch.pick(&[0, 300]);
    w().f.short = *w().ch.pick(&[0, 200]);
    if what == 1 || what == 2 {
        match w().ch.choose(3) {
            0 => draw_io(),
            1 => {
                let n = w().ch.range(1, 60) as u64;
                w().f.io_at = Some((1, n));
            }
            _ => {
                let n = w().ch.size(40_000) as i64;
                w().fs.space_left = Some(n);
            }
        }
    }
    if what == 3 || w().ch.chance(150) {
        if w().ch.chance(400) {
            draw_watch(&["/cache"]);
        } else {
            draw_crash();
        }
    }
    let nprocs = *w().ch.pick(&[1, 2, 3]);
    for p in 0..nprocs {
        let sh = sh.clone();
        let nops = w().ch.range(1, 4);
        let naps = w().ch.chance(400);
        spawn(&format!("p{}", p), move || client(sh, nops, naps, true));
    }
    let stop = run();
    judge_end(rep, &stop, &["C13", "C42"], &["C42"]);
    healthy_round(rep, &sh);
    judge(rep, &sh, false);
}

fn http_redirect(rep: &mut Rep) {
    let sh = new_sh();
    install_site(&sh);
    let wall = w().wall_ns() / 1_000_000_000;
    let mut r = file_res(&mut w().ch, format!("{}/f0", HOST), wall, false);
    r.vers[0].what = What::File;
    sh.site.lock().unwrap().res.push(r);
    let n = w().ch.range(1, 8);
    add_redirects(&sh, n);
    if w().ch.chance(200) {
        w().net.f.req = 100;
        w().net.f.req_budget = 2;
    }
    let nprocs = *w().ch.pick(&[1, 1, 2]);
    for p in 0..nprocs {
        let sh = sh.clone();
        let nops = w().ch.range(2, 6);
        spawn(&format!("p{}", p), move || client(sh, nops, true, true));
    }
    let stop = run();
    judge_end(rep, &stop, &["C15", "C42"], &["C15", "C42"]);
    judge(rep, &sh, false);
}

// ---------------------------------------------------------------- judging

fn canon(u: &str) -> String {
    let u = u.split('#').next().unwrap();
    u.to_string()
}

struct Judge<'a> {
    givens: Vec<Given>,
    recs: Vec<Rec>,
    reqs: &'a [ReqLog],
    /// for each logged request: its op
    op_of: Vec<Option<usize>>,
    end_t: u64,
}

#[derive(Clone, Debug)]
struct Cand {
    given: Given,
    contact: bool,
    log: usize,
}

impl<'a> Judge<'a> {
    fn given_of(&self, l: &ReqLog) -> Given {
        if l.tag > 0 {
            return self.givens[l.tag as usize - 1].clone();
        }
        Given {
            url: l.req.url(),
            method: l.req.method.clone(),
            res: usize::MAX,
            ver: 0,
            status: l.status,
            confirm: false,
            body: if l.req.method == "HEAD" { vec![] } else { format!("error page {}", l.status).into_bytes() },
            what: What::Status(l.status),
            policy: Policy::Nothing,
            lm: None,
            wall: 0,
            req_no_store: l.req.header("cache-control").map_or(false, |c| c.contains("no-store")),
            accept: l.req.header("accept").map(|s| s.into()),
        }
    }
    /// How long this reply may be reused without asking (seconds), if at all. Generous where
    /// the standard leaves freedom.
    fn limit(&self, g: &Given, got_by: i64) -> Option<f64> {
        if g.policy.no_store() || g.req_no_store {
            return None;
        }
        // (undated replies count as dated when they arrive)
        let date = if g.policy == Policy::Dated { g.wall } else { got_by.max(g.wall) };
        let heur = g.lm.map_or(0.0, |l| (date - l).max(0) as f64);
        Some(match &g.policy {
            Policy::Nothing | Policy::Dated => heur,
            Policy::MaxAge(n) | Policy::MustRevalidate(n) | Policy::SMaxAge(n) | Policy::Private(n) | Policy::Expires(n) | Policy::VaryAccept(n) => *n as f64,
            Policy::Immutable(n) => *n as f64,
            Policy::NoCache(_) | Policy::Expired => 0.0,
            Policy::VaryStar(_) => return None,
            Policy::Aged(_, n) => *n as f64,
            Policy::ImmutableBare => heur.max(86400.0),
            Policy::NoStore | Policy::NoStoreMaxAge => return None,
        })
    }
    fn age0(&self, g: &Given) -> f64 {
        match g.policy {
            Policy::Aged(a, _) => a as f64,
            _ => 0.0,
        }
    }
    fn contacts(&self, op: usize, url: &str, method: &str) -> Vec<usize> {
        (0..self.reqs.len()).filter(|i| self.op_of[*i] == Some(op) && self.reqs[*i].req.url() == url && self.reqs[*i].req.method == method).collect()
    }
    /// Replies to (method, url) this op may answer from the cache with.
    fn cached(&self, op: usize, url: &str) -> Vec<Cand> {
        let o = &self.recs[op];
        let mut v = vec![];
        for (i, l) in self.reqs.iter().enumerate() {
            if l.seq > o.e_seq || l.req.url() != url || l.req.method != o.ask.method {
                continue;
            }
            if !matches!(l.fate, Fate::Ok | Fate::Status(_)) {
                continue;
            }
            let src = match self.op_of[i] {
                Some(s) => s,
                None => continue,
            };
            if src == op || self.recs[src].ask.mode != CacheMode::Default {
                continue;
            }
            let g = self.given_of(l);
            // the youngest it can have looked
            let e_src = self.recs[src].e_t.min(self.end_t);
            let (now_min, _) = w().wall_range(o.b_t, o.e_t.min(self.end_t));
            let (_, resp_max) = w().wall_range(l.t, e_src.max(l.t));
            let lim = match self.limit(&g, resp_max / 1_000_000_000 + 1) {
                Some(l) => l,
                None => continue,
            };
            if o.ask.cc == Some("no-cache") {
                continue;
            }
            let acc = |a: Option<&str>| a.unwrap_or("*/*").to_string();
            if matches!(g.policy, Policy::VaryAccept(_)) && acc(g.accept.as_deref()) != acc(o.ask.accept) {
                continue;
            }
            let age = self.age0(&g) + ((now_min - resp_max).max(0) as f64) / 1e9;
            if age > lim + 0.001 {
                continue;
            }
            if o.ask.cc == Some("max-age=0") && age > 0.001 {
                continue;
            }
            if o.ask.cc == Some("max-age=4") && age > 4.001 {
                continue;
            }
            // replaced by a later completed fetch?
            let replaced = self.recs.iter().enumerate().any(|(j, r)| {
                j != src
                    && j != op
                    && r.ask.mode == CacheMode::Default
                    && r.ask.method == o.ask.method
                    && r.b_seq > self.recs[src].e_seq
                    && r.e_seq < o.b_seq
                    && matches!(r.out, Some(Out::Ok { body: Ok(_), .. }))
                    && r.faults == 0
                    && self.contacts(j, url, o.ask.method).last().map_or(false, |c| matches!(self.reqs[*c].fate, Fate::Ok))
            });
            if replaced {
                continue;
            }
            v.push(Cand { given: g, contact: false, log: i });
        }
        v
    }
    /// Everything the op may answer with: final replies reachable over redirects.
    fn finals(&self, op: usize) -> (Vec<(String, Cand)>, bool) {
        let o = &self.recs[op];
        let max = 5;
        let mut out: Vec<(String, Cand)> = vec![];
        let mut too_many = false;
        let mut front: BTreeSet<String> = BTreeSet::new();
        front.insert(canon(&o.ask.url));
        for depth in 0..=max {
            let mut next = BTreeSet::new();
            for u in &front {
                let cs = self.contacts(op, u, o.ask.method);
                let cands: Vec<Cand> = if cs.is_empty() {
                    if o.ask.mode == CacheMode::NoStore {
                        vec![]
                    } else {
                        self.cached(op, u)
                    }
                } else {
                    let last = *cs.last().unwrap();
                    cs.iter()
                        .filter(|c| **c == last || (matches!(self.reqs[**c].fate, Fate::Ok) && ![500, 503, 520, 527].contains(&self.reqs[**c].status)))
                        .map(|c| Cand { given: self.given_of(&self.reqs[*c]), contact: true, log: *c })
                        .collect()
                };
                for c in cands {
                    match &c.given.what {
                        What::Redirect { to: Some(t), .. } => {
                            if depth < max {
                                next.insert(canon(t));
                            } else {
                                too_many = true;
                            }
                        }
                        _ => out.push((u.clone(), c)),
                    }
                }
            }
            front = next;
        }
        (out, too_many)
    }
}

fn judge(rep: &mut Rep, sh: &Arc<Sh>, alone: bool) {
    for (p, s, m) in sh.bad.lock().unwrap().drain(..) {
        rep.fail(p, s, m);
    }
    let reqs = w().net.reqs.clone();
    let recs = sh.recs.lock().unwrap().clone();
    let givens = sh.site.lock().unwrap().givens.clone();
    let mut op_of = vec![];
    for l in &reqs {
        op_of.push(recs.iter().position(|r| r.pid == l.pid && r.b_seq <= l.seq && l.seq <= r.e_seq));
    }
    let j = Judge { givens, recs, reqs: &reqs, op_of, end_t: w().now };
    let mut hits = 0;
    let jumped = fired("clock_jump");
    for (i, r) in j.recs.iter().enumerate() {
        let out = match &r.out {
            Some(o) => o,
            None => continue,
        };
        let mine: Vec<&ReqLog> = (0..reqs.len()).filter(|k| j.op_of[*k] == Some(i)).map(|k| &reqs[k]).collect();
        let ncon = mine.len();
        let conn_trouble = w().net.conns.iter().any(|c| c.pid == r.pid && c.seq >= r.b_seq && c.seq <= r.e_seq && c.what != "ok");
        let net_trouble = conn_trouble || mine.iter().any(|l| l.fate != Fate::Ok);
        let desc = |r: &Rec| {
            format!(
                "{} {} mode={:?} cc={:?} accept={:?}{}{}",
                r.ask.method,
                r.ask.url,
                r.ask.mode,
                r.ask.cc,
                r.ask.accept,
                if r.ask.bytes_only { " (bytes)" } else { "" },
                if r.healthy { " (after faults stopped)" } else { "" }
            )
        };
        match r.ask.mode {
            CacheMode::OnlyIfCached => {
                if ncon > 0 || w().net.conns.iter().any(|c| c.pid == r.pid && c.seq >= r.b_seq && c.seq <= r.e_seq) {
                    rep.fail("C12", "cache-only-network", format!("{} caused network traffic", desc(r)));
                }
            }
            CacheMode::NoStore => {
                if matches!(out, Out::Ok { .. }) && ncon == 0 {
                    rep.fail("C12", "no-store-from-cache", format!("{} was answered without asking the origin", desc(r)));
                }
                if !r.muts.is_empty() {
                    rep.fail("C12", "no-store-writes", format!("{} changed the cache: {:?}", desc(r), &r.muts[..r.muts.len().min(3)]));
                }
            }
            CacheMode::Default => (),
        }
        // bounded effort per hop
        if ncon > 6 * 13 {
            rep.fail("C14", "too-many-requests", format!("{} sent {} requests", desc(r), ncon));
        }
        let (finals, too_many) = j.finals(i);
        match out {
            Out::Ok { status, url, xver, body } => {
                let body = match body {
                    Ok(b) => b,
                    Err(e) => {
                        if r.faults == 0 && !net_trouble {
                            rep.fail("C13", "spurious-body-error", format!("{}: reading the body failed without a fault: {}", desc(r), e));
                        }
                        continue;
                    }
                };
                let fits = |(u, c): &&(String, Cand)| {
                    c.given.body == *body
                        && (!r.ask.bytes_only || (200..300).contains(&c.given.status))
                        && url.as_ref().map_or(true, |x| canon(x) == *u)
                        && (*status == 0 || *status == c.given.status)
                        && (xver.is_none() || c.given.res == usize::MAX || *xver == Some(format!("{}-{}", c.given.res, c.given.ver)))
                };
                if let Some((_, c)) = finals.iter().find(fits) {
                    if !c.contact {
                        hits += 1;
                    }
                    // a cut reply may only be complete if all its bytes are there: equality was just checked
                    continue;
                }
                // what went wrong?
                let all: Vec<Given> = reqs.iter().map(|l| j.given_of(l)).collect();
                let same_body: Vec<&(String, Cand)> = finals.iter().filter(|(_, c)| c.given.body == *body).collect();
                let show = format!(
                    "{} gave status {} from {:?} ver {:?} with {} bytes [{}]; requests in this operation: {}; allowed: {}",
                    desc(r),
                    status,
                    url,
                    xver,
                    body.len(),
                    String::from_utf8_lossy(&body[..body.len().min(40)]),
                    mine.iter().map(|l| format!("{} {} {:?}->{}", l.req.method, l.req.url(), l.fate, l.status)).collect::<Vec<_>>().join(", "),
                    finals
                        .iter()
                        .map(|(u, c)| format!("{} {}-{} status {} {} bytes{}", u, c.given.res as i64, c.given.ver, c.given.status, c.given.body.len(), if c.contact { "" } else { " (cached)" }))
                        .collect::<Vec<_>>()
                        .join(", ")
                );
                if same_body.iter().any(|(u, _)| url.as_ref().map_or(false, |x| canon(x) != *u)) {
                    rep.fail("C15", "wrong-url", show);
                } else if too_many && finals.is_empty() {
                    rep.fail("C15", "unbounded-redirects", show);
                } else if *status == 304 {
                    rep.fail("C11", "bare-304", show);
                } else if r.ask.mode == CacheMode::NoStore && !all.iter().any(|g| body.len() < g.body.len() && g.body.starts_with(body)) {
                    rep.fail("C12", "no-store-wrong", show);
                } else if reqs.iter().any(|l| {
                    // (whatever this leaves behind, and what follows from it)
                    matches!(l.fate, Fate::Cut { .. }) && l.chunked_fin && {
                        let g = j.given_of(l);
                        (g.body.starts_with(body) && g.body != *body) || matches!(g.what, What::Redirect { .. })
                    }
                }) {
                    rep.fail("C13", "truncated-chunked-fin", show);
                } else if finals.iter().any(|(_, c)| c.given.body != *body && c.given.body.starts_with(body)) || (body.is_empty() && !finals.is_empty()) {
                    rep.fail("C13", "truncated", show);
                } else if all.iter().any(|g| g.body == *body && g.method == r.ask.method) {
                    let own = all.iter().any(|g| g.body == *body && canon(&g.url) == url.as_ref().map_or(g.url.clone(), |u| canon(u)));
                    if ncon == 0 && r.ask.mode == CacheMode::OnlyIfCached && own {
                        rep.fail("C12", "cache-only-stale", show.clone());
                    }
                    rep.fail("C11", if own { "stale" } else { "foreign" }, show);
                } else if all.iter().any(|g| g.body.len() > body.len() && g.body.starts_with(body)) {
                    rep.fail("C13", "truncated", show);
                } else {
                    rep.fail("C13", "corrupt", show.clone());
                    rep.fail("C11", "corrupt", show);
                }
            }
            Out::NotCached => {
                if r.ask.mode != CacheMode::OnlyIfCached {
                    rep.fail("C12", "not-cached-without-asking", format!("{} reported NotCached", desc(r)));
                }
            }
            Out::Err(e) => {
                // at the redirect limit even a reply without a target is an error; so is a
                // redirect status that is not followed
                let error_page = r.ask.bytes_only && finals.iter().any(|(_, c)| !(200..300).contains(&c.given.status));
                let excused = error_page || r.faults > 0 || net_trouble || too_many || (finals.iter().any(|(_, c)| [301, 302, 303, 307, 308].contains(&c.given.status)));
                if !excused {
                    let m = format!(
                        "{} failed although nothing was wrong: {}; requests: {}",
                        desc(r),
                        e,
                        mine.iter().map(|l| format!("{} {} {:?}->{}", l.req.method, l.req.url(), l.fate, l.status)).collect::<Vec<_>>().join(", ")
                    );
                    let hops = finals.iter().any(|(u, _)| *u != canon(&r.ask.url)) || mine.iter().any(|l| l.req.url() != canon(&r.ask.url));
                    if r.healthy {
                        rep.fail("C42", "fetch-fails-after-faults", m.clone());
                        rep.fail("C13", "fetch-fails-after-faults", m.clone());
                    }
                    match r.ask.mode {
                        _ if hops => rep.fail("C15", "spurious-error", m),
                        CacheMode::Default => rep.fail("C11", "spurious-error", m),
                        _ => rep.fail("C12", "spurious-error", m),
                    }
                }
            }
        }
        // a default-mode fetch leaves storable content behind
        if let Some(prev) = r.ask.follows {
            let p = &j.recs[prev];
            let cs = j.contacts(prev, &canon(&p.ask.url), p.ask.method);
            if alone && !jumped && p.faults + r.faults == 0 && matches!(p.out, Some(Out::Ok { body: Ok(_), .. })) {
                if let Some(c) = cs.last() {
                    let g = j.given_of(&reqs[*c]);
                    let life = g.policy.explicit().unwrap_or(0) as f64;
                    let took = (r.e_t - reqs[*c].t) as f64 / 1e9;
                    let blocked = g.req_no_store || matches!(p.ask.cc, Some("no-cache") | Some("max-age=0") | Some("no-store"));
                    let maxage4 = p.ask.cc == Some("max-age=4") && took + j.age0(&g) > 3.0;
                    if reqs[*c].fate == Fate::Ok
                        && cs.len() == 1
                        && matches!(g.status, 200 | 404 | 410)
                        && !blocked
                        && !maxage4
                        && life > took + 2.0
                        && !matches!(out, Out::Ok { .. })
                    {
                        rep.fail(
                            "C12",
                            "not-left-in-cache",
                            format!("{} right after a successful default-mode fetch with {:?} gave {:?}", desc(r), g.policy, out),
                        );
                    }
                    w().probe("cache_only_after_fetch");
                }
            }
        }
    }
    for _ in 0..hits {
        w().probe("answered_from_cache");
    }
    if reqs.iter().any(|l| l.status == 304) {
        w().probe("revalidated");
    }
    rep.trivial = j.recs.len() < 2;
}
