//! Hash-pinned downloads, retries, and files read in pieces.

use super::kv::slurp;
use super::site::*;
use super::util::*;
use crate::runner::{Rep, Scen};
use crate::sim::*;
use posy::sim_api::{ArtifactHash, ArtifactInfo, CacheMode, Http, NotCached};
use std::collections::VecDeque;
use std::io::{Read, Seek, SeekFrom};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use url::Url;

pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "http_hash", props: &["C10", "C13", "C42"], weight: 5, f: http_hash },
        Scen { name: "http_retry", props: &["C14"], weight: 5, f: http_retry },
        Scen { name: "http_stall", props: &["C14", "C42"], weight: 1, f: http_stall },
        Scen { name: "http_lazy", props: &["C16"], weight: 5, f: http_lazy },
    ]
}

pub fn sha256(b: &[u8]) -> Vec<u8> {
    ring::digest::digest(&ring::digest::SHA256, b).as_ref().to_vec()
}
pub fn hash_of(b: &[u8]) -> ArtifactHash {
    ArtifactHash { mode: "sha256".into(), raw_data: sha256(b) }
}

// ---------------------------------------------------------------- pinned by hash

#[derive(Clone, Debug)]
enum HOut {
    Ok(Result<Vec<u8>, String>),
    NotCached,
    Err(String),
}
#[derive(Clone, Debug)]
struct HRec {
    pid: Pid,
    b: u64,
    e: u64,
    url: String,
    pin: usize,
    mode: CacheMode,
    out: Option<HOut>,
    faults: u64,
    healthy: bool,
}
struct HSh {
    recs: Mutex<Vec<HRec>>,
    bad: Mutex<Vec<(&'static str, &'static str, String)>>,
}
/// what a pin stands for: its content, if any content has that digest
struct Pin {
    hash: ArtifactHash,
    body: Option<Vec<u8>>,
}

fn h_op(sh: &HSh, http: &Http, pins: &[Pin], url: &str, pin: usize, mode: CacheMode, healthy: bool) {
    let f0 = my_faults();
    let id = {
        let mut g = sh.recs.lock().unwrap();
        g.push(HRec { pid: me(), b: seq(), e: u64::MAX, url: url.into(), pin, mode, out: None, faults: 0, healthy });
        g.len() - 1
    };
    let u = Url::parse(url).unwrap();
    let out = match http.get_hashed(&u, Some(&pins[pin].hash), mode) {
        Err(e) => {
            if e.downcast_ref::<NotCached>().is_some() {
                HOut::NotCached
            } else {
                HOut::Err(errstr(&e))
            }
        }
        Ok(mut r) => {
            if w().ch.chance(150) {
                yield_now();
            }
            let got = slurp(&mut r).map_err(|e| e.to_string());
            if let (Ok(b), true) = (&got, w().ch.chance(300)) {
                // a seekable reader over the same bytes
                let f = my_faults();
                let at = w().ch.choose(b.len() + 1);
                let again = r.seek(SeekFrom::Start(at as u64)).and_then(|_| {
                    let mut v = vec![];
                    r.read_to_end(&mut v).map(|_| v)
                });
                match again {
                    Ok(v) if v == b[at..] => (),
                    Ok(v) => sh.bad.lock().unwrap().push(("C10", "reread", format!("re-reading a pinned file from {} gave {} bytes that differ", at, v.len()))),
                    Err(e) => {
                        if my_faults() == f && !dead() {
                            sh.bad.lock().unwrap().push(("C10", "reread", format!("re-reading a pinned file failed: {}", e)))
                        }
                    }
                }
            }
            HOut::Ok(got)
        }
    };
    if dead() {
        return;
    }
    let mut g = sh.recs.lock().unwrap();
    let r = &mut g[id];
    r.out = Some(out);
    r.e = seq();
    r.faults = my_faults() - f0;
}

fn http_hash(rep: &mut Rep) {
    let site = Arc::new(Mutex::new(Site::new()));
    super::http::install(site.clone());
    let nres = w().ch.range(1, 2);
    let mut urls = vec![];
    let mut pins: Vec<Pin> = vec![];
    for i in 0..nres {
        let ch = &mut w().ch;
        let size = match ch.choose(5) {
            0 => 40,
            1 => 9000,
            2 => 0,
            3 => ch.size(60_000),
            _ => 1 + ch.size(300),
        };
        let url = format!("{}/pkg/f{}.whl", super::http::HOST, i);
        let body = if size == 0 { vec![] } else { filler(&format!("pin{}", i), size) };
        let mk = |b: &[u8]| Ver { what: What::File, body: b.to_vec(), etag: None, lm: None, policy: Policy::Nothing };
        let mut vers = vec![mk(&body)];
        pins.push(Pin { hash: hash_of(&body), body: Some(body.clone()) });
        // what the server has by now need not be what was pinned
        if ch.chance(300) {
            let other = filler(&format!("replaced{}", i), 20 + ch.size(2000));
            vers.push(mk(&other));
            if ch.chance(500) {
                pins.push(Pin { hash: hash_of(&other), body: Some(other) });
            }
        }
        if ch.chance(100) {
            // near misses
            let mut h = hash_of(&body);
            match ch.choose(4) {
                0 => h.raw_data[31] ^= 1,
                1 => h.raw_data.truncate(16),
                2 => h.raw_data.push(0),
                _ => h.raw_data.clear(),
            }
            // (as an index page would spell it)
            if let Ok(hash) = ArtifactHash::from_hex("sha256", &data_encoding::HEXLOWER.encode(&h.raw_data)) {
                pins.push(Pin { hash, body: None });
            }
        }
        if ch.chance(60) {
            let mode = *ch.pick(&["md5", "sha512", "SHA256", "../../escape", "/abs"]);
            if let Ok(hash) = ArtifactHash::from_hex(mode, &"07".repeat(16)) {
                pins.push(Pin { hash, body: None });
            }
        }
        let framing = match ch.choose(4) {
            0 | 1 => Framing::Length,
            2 => Framing::Chunked,
            _ => Framing::Close,
        };
        let r = Resource {
            url: url.clone(),
            vers,
            cond: Cnd::Ignore,
            framing,
            gzip: ch.chance(150),
            keep: ch.chance(800),
            change: *ch.pick(&[0, 0, 200]),
            changes_left: 3,
        };
        site.lock().unwrap().res.push(r);
        urls.push(url);
    }
    let pins = Arc::new(pins);
    let before_top = w().fs.list("/").into_iter().filter(|n| !["cache", "tmp", "work"].contains(&n.trim_start_matches('/'))).count();
    draw_sched();
    let what = w().ch.choose(5);
    if what <= 2 {
        let f = &mut w().net.f;
        f.req = *w().ch.pick(&[300, 100, 600]);
        f.req_budget = *w().ch.pick(&[1, 2, 4, 12]);
        f.kinds = match w().ch.choose(4) {
            0 => vec![FateKind::Corrupt],
            1 => vec![FateKind::Cut, FateKind::Corrupt],
            2 => vec![FateKind::Status],
            _ => vec![FateKind::Cut, FateKind::Stall, FateKind::Drop, FateKind::Status, FateKind::Corrupt],
        };
        // (a captive portal answers 200)
        f.statuses = vec![200, 404, 500, 503, 403, 302, 206];
        f.conn = *w().ch.pick(&[0, 100]);
        f.conn_budget = 4;
        f.chunk_fin = true;
    }
    w().net.f.frag = *w().ch.pick(&[0, 100, 400]);
    w().net.f.idle_close = *w().ch.pick(&[0, 300]);
    if what == 2 || what == 3 {
        match w().ch.choose(3) {
            0 => draw_io(),
            1 => {
                let n = w().ch.range(1, 60) as u64;
                w().f.io_at = Some((1, n));
            }
            _ => {
                let n = w().ch.size(60_000) as i64;
                w().fs.space_left = Some(n);
            }
        }
    }
    if what == 4 || w().ch.chance(150) {
        if w().ch.chance(400) {
            draw_watch(&["/cache"]);
        } else {
            draw_crash();
        }
    }
    let sh = Arc::new(HSh { recs: Mutex::new(vec![]), bad: Mutex::new(vec![]) });
    let nprocs = *w().ch.pick(&[1, 2, 3]);
    for p in 0..nprocs {
        let (sh, pins, urls) = (sh.clone(), pins.clone(), urls.clone());
        let nops = w().ch.range(1, 4);
        spawn(&format!("p{}", p), move || {
            let http = match super::http::mk_http() {
                Ok(h) => h,
                Err(e) => {
                    if my_faults() == 0 && !dead() {
                        sh.bad.lock().unwrap().push(("C42", "spurious-error", format!("opening the cache failed: {}", errstr(&e))));
                    }
                    return;
                }
            };
            for _ in 0..nops {
                if dead() {
                    return;
                }
                let ch = &mut w().ch;
                let pin = ch.choose(pins.len());
                let url = if ch.chance(150) { format!("{}/missing", super::http::HOST) } else { ch.pick(&urls).clone() };
                let mode = match ch.choose(12) {
                    0..=8 => CacheMode::Default,
                    9 | 10 => CacheMode::OnlyIfCached,
                    _ => CacheMode::NoStore,
                };
                h_op(&sh, &http, &pins, &url, pin, mode, false);
            }
        });
    }
    let stop = run();
    judge_end(rep, &stop, &["C10", "C42"], &["C42"]);
    // a later process, without faults: what is left in the cache, then each pin from a server that has it
    calm();
    {
        let (sh, pins, site, urls) = (sh.clone(), pins.clone(), site.clone(), urls.clone());
        w().time_limit = Some(w().now + 120_000_000_000);
        spawn("after", move || {
            let http = match super::http::mk_http() {
                Ok(h) => h,
                Err(e) => {
                    sh.bad.lock().unwrap().push(("C42", "unusable", format!("the cache cannot be opened any more: {}", errstr(&e))));
                    return;
                }
            };
            for (i, p) in pins.iter().enumerate() {
                h_op(&sh, &http, &pins, &urls[0], i, CacheMode::OnlyIfCached, true);
                if let Some(b) = &p.body {
                    {
                        let mut s = site.lock().unwrap();
                        let r = &mut s.res[0];
                        r.vers.push(Ver { what: What::File, body: b.clone(), etag: None, lm: None, policy: Policy::Nothing });
                        r.change = 0;
                    }
                    h_op(&sh, &http, &pins, &urls[0], i, CacheMode::Default, true);
                    h_op(&sh, &http, &pins, &urls[0], i, CacheMode::OnlyIfCached, true);
                }
            }
        });
        let stop = run();
        w().time_limit = None;
        judge_end(rep, &stop, &["C10", "C42"], &["C42"]);
    }
    for (p, s, m) in sh.bad.lock().unwrap().drain(..) {
        rep.fail(p, s, m);
    }
    let top: Vec<String> = w().fs.list("/").into_iter().filter(|n| !["cache", "tmp", "work"].contains(&n.trim_start_matches('/'))).collect();
    let inside: Vec<String> = w().fs.list("/cache").into_iter().filter(|n| !["http", "by-hash"].contains(&n.trim_start_matches('/'))).collect();
    if top.len() + inside.len() > before_top {
        rep.fail("C10", "escapes-cache", format!("a pinned fetch created {:?} {:?}", top, inside));
    }
    let recs = sh.recs.lock().unwrap().clone();
    rep.trivial = recs.len() < 3;
    for (i, r) in recs.iter().enumerate() {
        let out = match &r.out {
            Some(o) => o,
            None => continue,
        };
        let p = &pins[r.pin];
        let who = format!(
            "{:?} fetch of {} pinned to {}{}",
            r.mode,
            r.url,
            p.hash,
            if r.healthy { " (after faults stopped)" } else { "" }
        );
        let mine: Vec<&ReqLog> = w().net.reqs.iter().filter(|l| l.pid == r.pid && l.seq >= r.b && l.seq <= r.e).collect();
        let conns = w().net.conns.iter().filter(|c| c.pid == r.pid && c.seq >= r.b && c.seq <= r.e).count();
        let before = recs.iter().enumerate().any(|(j, q)| {
            j != i && q.pin == r.pin && q.mode != CacheMode::NoStore && q.e < r.b && matches!(&q.out, Some(HOut::Ok(Ok(_))))
        });
        match out {
            HOut::Ok(Ok(b)) => {
                if p.hash.mode != "sha256" || sha256(b) != p.hash.raw_data {
                    rep.fail(
                        "C10",
                        "wrong-content",
                        format!("{} gave {} bytes with another digest [{}]", who, b.len(), String::from_utf8_lossy(&b[..b.len().min(40)])),
                    );
                    if p.body.as_ref().map_or(false, |x| x.starts_with(b)) {
                        rep.fail("C13", "truncated", format!("{} gave only {} bytes", who, b.len()));
                    }
                }
            }
            HOut::Ok(Err(e)) => {
                if r.faults == 0 && r.mode != CacheMode::NoStore {
                    rep.fail("C10", "spurious-read-error", format!("{}: reading failed without a fault: {}", who, e));
                }
            }
            HOut::NotCached => {
                if r.mode != CacheMode::OnlyIfCached {
                    rep.fail("C10", "not-cached", format!("{} reported NotCached", who));
                } else if before && r.faults == 0 {
                    rep.fail("C10", "lost", format!("{} is not cached although it was fetched before", who));
                }
            }
            HOut::Err(e) => {
                if before && r.faults == 0 && r.mode != CacheMode::NoStore {
                    rep.fail("C10", "lost", format!("{} failed although it was fetched before: {}", who, e));
                }
                if r.healthy {
                    rep.fail("C10", "fetch-fails-after-faults", format!("{} failed: {}", who, e));
                    rep.fail("C42", "fetch-fails-after-faults", format!("{} failed: {}", who, e));
                } else if r.faults == 0
                    && r.mode == CacheMode::Default
                    && mine.len() == 1
                    && mine[0].fate == Fate::Ok
                    && conns <= 1
                    && p.body.is_some()
                {
                    let g = site.lock().unwrap().givens.get(mine[0].tag.wrapping_sub(1) as usize).cloned();
                    if g.map_or(false, |g| Some(&g.body) == p.body.as_ref() && g.status == 200) {
                        rep.fail("C10", "refused-good", format!("{} failed although the server sent exactly that: {}", who, e));
                    }
                }
            }
        }
        if (before && r.mode == CacheMode::Default || r.mode == CacheMode::OnlyIfCached) && r.faults == 0 && (!mine.is_empty() || conns > 0) {
            rep.fail("C10", "needless-network", format!("{} used the network although a matching copy is cached", who));
        }
        if before {
            w().probe("pinned_from_cache");
        }
    }
}

// ---------------------------------------------------------------- retries

#[derive(Clone, Debug, PartialEq)]
enum Att {
    Dns,
    Refused,
    Unreachable,
    Blackhole,
    Drop,
    Stall,
    St(u16),
    Good,
}
const RETRIED: [u16; 4] = [500, 503, 520, 527];

fn http_retry(rep: &mut Rep) {
    // several requests in a row: what happened to one is no reason to treat the next differently
    let rounds = 1 + if w().ch.chance(400) { w().ch.choose(6) } else { 0 };
    let mut plan: Vec<(Vec<Att>, usize, CacheMode, &'static str)> = vec![];
    for _ in 0..rounds {
        let ch = &mut w().ch;
        let n = ch.range(1, 8);
        let mut atts = vec![];
        for _ in 0..n {
            atts.push(match ch.choose(10) {
                0 | 1 => Att::St(*ch.pick(&RETRIED)),
                2 => Att::Dns,
                3 => Att::Refused,
                4 => Att::Unreachable,
                5 => Att::Blackhole,
                6 => Att::Drop,
                7 => Att::Stall,
                8 => Att::St(*ch.pick(&[404u16, 403, 410, 429, 501, 502, 504, 400, 401, 418, 416, 599, 521])),
                _ => Att::Good,
            });
        }
        // (then it works)
        atts.push(Att::Good);
        let again = |a: &Att| match a {
            Att::Good => false,
            Att::St(s) => RETRIED.contains(s),
            _ => true,
        };
        let want = (atts.iter().position(|a| !again(a)).unwrap() + 1).min(6);
        if rounds > 1 {
            atts.truncate(want);
        }
        let mode = *ch.pick(&[CacheMode::NoStore, CacheMode::Default]);
        let method = if ch.chance(200) { "HEAD" } else { "GET" };
        plan.push((atts, want, mode, method));
    }
    let body = filler("page", 50);
    let script: VecDeque<Vec<Script>> = plan
        .iter()
        .flat_map(|p| p.0.iter())
        .map(|a| {
            let ok = || vec![Script::Dns(true), Script::Conn(ConnFate::Ok)];
            match a {
                Att::Dns => vec![Script::Dns(false)],
                Att::Refused => vec![Script::Dns(true), Script::Conn(ConnFate::Refused)],
                Att::Unreachable => vec![Script::Dns(true), Script::Conn(ConnFate::Unreachable)],
                Att::Blackhole => vec![Script::Dns(true), Script::Conn(ConnFate::Blackhole)],
                Att::Drop => {
                    let rst = w().ch.choose(2) == 1;
                    let mut v = ok();
                    v.push(Script::Req(Fate::Drop { rst }));
                    v
                }
                Att::Stall => {
                    let mut v = ok();
                    v.push(Script::Req(Fate::Stall { at: 0 }));
                    v
                }
                Att::St(_) | Att::Good => {
                    let mut v = ok();
                    v.push(Script::Req(Fate::Ok));
                    v
                }
            }
        })
        .collect();
    // the origin: which attempt is this? (counted by lookups, since every attempt makes one)
    let b2 = body.clone();
    w().net.hosts = vec!["files.test".into()];
    w().fs.mkdir_p("/cache");
    w().fs.mkdir_p("/tmp");
    let mut served = VecDeque::new();
    for a in plan.iter().flat_map(|p| p.0.iter()) {
        match a {
            Att::St(s) => served.push_back(*s),
            Att::Drop | Att::Stall => served.push_back(200),
            Att::Good => served.push_back(200),
            _ => (),
        }
    }
    w().net.origin = Some(Box::new(move |_wall: i64, req: &Req, _ch: &mut Choices| {
        let st = served.pop_front().unwrap_or(200);
        let b: Vec<u8> = if st == 200 { b2.clone() } else { format!("status page {}", st).into_bytes() };
        let mut r = Reply::new(st, &b).h("X-Mark", &format!("m{}", st)).h("Cache-Control", "no-cache");
        if st == 503 {
            r = r.h("Retry-After", "1");
        }
        if req.method == "HEAD" {
            r.declare = Some(b.len());
            r.body.clear();
        }
        // every attempt is a connection of its own
        r.keep = false;
        r
    }));
    w().net.script = Some(script);
    w().f.switch = 0;
    type Got = (u64, u64, usize, usize, Result<(u16, Option<String>, Result<Vec<u8>, String>), String>);
    let got: Arc<Mutex<Vec<Got>>> = Arc::new(Mutex::new(vec![]));
    let g2 = got.clone();
    let asks: Vec<(CacheMode, &'static str)> = plan.iter().map(|p| (p.2, p.3)).collect();
    spawn("p0", move || {
        let http = super::http::mk_http().expect("cache");
        for (i, (mode, method)) in asks.into_iter().enumerate() {
            let t0 = w().now;
            let c0 = w().net.conns.len();
            let req = http::Request::builder().method(method).uri(format!("{}/x{}", super::http::HOST, i)).body(()).unwrap();
            let r = match http.request(req, mode) {
                Err(e) => Err(errstr(&e)),
                Ok(resp) => {
                    let (p, mut b) = resp.into_parts();
                    let st = p.status.as_u16();
                    Ok((st, p.headers.get("X-Mark").and_then(|v| v.to_str().ok()).map(|s| s.to_string()), slurp(&mut b).map_err(|e| e.to_string())))
                }
            };
            g2.lock().unwrap().push((t0, w().now, c0, w().net.conns.len(), r));
        }
    });
    let stop = run();
    judge_end(rep, &stop, &["C14"], &["C14"]);
    rep.trivial = plan.iter().all(|p| p.1 == 1);
    let got = got.lock().unwrap();
    for ((atts, want, _, method), (t0, t1, c0, c1, r)) in plan.iter().zip(got.iter()) {
        if !retried_as_due(rep, atts, *want, method, &body, *t0, *t1, *c0..*c1, r) {
            return;
        }
    }
}

/// One request against the course it should have taken.
fn retried_as_due(
    rep: &mut Rep,
    atts: &[Att],
    want: usize,
    method: &str,
    body: &[u8],
    t0: u64,
    t1: u64,
    conns: std::ops::Range<usize>,
    r: &Result<(u16, Option<String>, Result<Vec<u8>, String>), String>,
) -> bool {
    let pause = [250u64, 500, 1000, 2000, 4000];
    let last = atts[want - 1].clone();
    let course = format!("attempts that would go {:?}", &atts);
    // every attempt leaves one record: a failed lookup or a connection
    let starts: Vec<u64> = w().net.conns[conns].iter().map(|c| c.t).collect();
    if starts.len() != want {
        rep.fail(
            "C14",
            if starts.len() < want { "too-few-attempts" } else { "too-many-attempts" },
            format!("{} attempts were made, {} expected, for {}", starts.len(), want, course),
        );
        return false;
    }
    for i in 0..want - 1 {
        let gap = (starts[i + 1] - starts[i]) / 1_000_000;
        let max = match atts[i] {
            Att::Blackhole => 31_000,
            Att::Stall => 16_000,
            _ => 300,
        };
        // "growing": the k-th pause is its nominal length; a small margin for slower paths
        if gap < pause[i] || gap > pause[i] + max {
            rep.fail("C14", "wrong-pause", format!("attempt {} came {} ms after the previous one (a pause of {} ms was due), for {}", i + 2, gap, pause[i], course));
        }
    }
    if t1 - t0 > 300_000 * MS {
        rep.fail("C14", "unbounded", format!("the request took {} s, for {}", (t1 - t0) / 1_000_000_000, course));
    }
    match (&last, r) {
        (Att::Good, Ok((200, m, Ok(b)))) | (Att::St(_), Ok((_, m, Ok(b)))) => {
            let st = match last {
                Att::St(s) => s,
                _ => 200,
            };
            let exp: Vec<u8> = if method == "HEAD" {
                vec![]
            } else if st == 200 {
                body.to_vec()
            } else {
                format!("status page {}", st).into_bytes()
            };
            let got_st = r.as_ref().unwrap().0;
            if got_st != st || *b != exp || m.as_deref() != Some(&format!("m{}", st)) {
                rep.fail("C14", "altered", format!("expected status {} unaltered, got {} {:?} with {} bytes, for {}", st, got_st, m, b.len(), course));
            }
        }
        (Att::Good, x) | (Att::St(_), x) => {
            rep.fail("C14", "not-overcome", format!("expected {:?} to come through, got {:?}, for {}", last, x, course));
        }
        (_, Ok(x)) => rep.fail("C14", "invented", format!("all attempts failed, yet the result is {:?}, for {}", x, course)),
        (_, Err(_)) => (),
    }
    true
}

/// A server that keeps its connections open and then stops answering.
fn http_stall(rep: &mut Rep) {
    let site = Arc::new(Mutex::new(Site::new()));
    super::http::install(site.clone());
    for i in 0..2 {
        let ch = &mut w().ch;
        let n = ch.size(12_000);
        site.lock().unwrap().res.push(Resource {
            url: format!("{}/f{}", super::http::HOST, i),
            vers: vec![Ver { what: What::File, body: filler("s", n), etag: None, lm: None, policy: Policy::Nothing }],
            cond: Cnd::Ignore,
            framing: if ch.choose(2) == 0 { Framing::Length } else { Framing::Chunked },
            gzip: false,
            keep: ch.chance(700),
            change: 0,
            changes_left: 0,
        });
    }
    draw_sched();
    w().net.f.req = *w().ch.pick(&[400, 1000]);
    w().net.f.req_budget = 30;
    w().net.f.kinds = vec![FateKind::Stall];
    w().net.f.stall_reused = w().ch.chance(30);
    let nprocs = w().ch.range(1, 2);
    let slow: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    for p in 0..nprocs {
        let slow = slow.clone();
        spawn(&format!("p{}", p), move || {
            let http = super::http::mk_http().expect("cache");
            for _ in 0..2 {
                let url = format!("{}/f{}", super::http::HOST, w().ch.choose(2));
                let mode = *w().ch.pick(&[CacheMode::Default, CacheMode::NoStore]);
                let t0 = w().now;
                let req = http::Request::builder().uri(url.as_str()).body(()).unwrap();
                if let Ok(r) = http.request(req, mode) {
                    let _ = slurp(&mut r.into_body());
                }
                let took = (w().now - t0) / 1_000_000_000;
                // its own six attempts, behind those of the other process
                if took > 2 * (6 * 31 + 8 + 16) {
                    slow.lock().unwrap().push(format!("a {:?} request of {} took {} s", mode, url, took));
                }
            }
        });
    }
    w().time_limit = Some(w().now + 20_000 * 1_000_000_000);
    let stop = run();
    w().time_limit = None;
    judge_end(rep, &stop, &["C14", "C42"], &["C14", "C42"]);
    for m in slow.lock().unwrap().drain(..) {
        rep.fail("C14", "unbounded", m);
    }
    rep.trivial = !fired("reply_stalled");
}

// ---------------------------------------------------------------- files read in pieces

#[derive(Clone, Copy, Debug, PartialEq)]
enum Srv {
    Good,
    /// 200 with everything, always
    Ignores,
    /// HEAD understands ranges, GET doesn't
    IgnoresOnGet,
    /// always 416
    Refuses,
    RefusesBare,
    /// fewer bytes than asked, honestly labelled
    Short,
    /// other bytes than asked, honestly labelled
    Shifted,
    /// more bytes than asked, honestly labelled
    Long,
    /// the label promises more than the body has
    Understuffed,
    /// the body has more than the label says
    Overstuffed,
    /// "bytes a-b/*"
    NoTotal,
    /// no Content-Range at all
    NoLabel,
    /// label that doesn't parse
    BadLabel,
    Errors(u16),
}

struct LFile {
    vers: Vec<Vec<u8>>,
    cur: usize,
    served: Vec<(u64, u64, u64)>, // seq, from, len of GET bodies
    full_gets: usize,
}

fn parse_range(s: &str) -> Option<(u64, u64)> {
    let r = s.strip_prefix("bytes=")?;
    let (a, b) = r.split_once('-')?;
    Some((a.parse().ok()?, b.parse().ok()?))
}

fn http_lazy(rep: &mut Rep) {
    let ch = &mut w().ch;
    let size = match ch.choose(8) {
        0 => 30_000,
        1 => 10_000,
        2 => ch.size(40_000),
        3 => 100_000 + ch.size(100_000),
        4 => ch.size(10),
        5 => 9_999 + ch.choose(3),
        6 => 20_000 + ch.choose(3),
        _ => 12_000 + ch.size(20_000),
    };
    let mut srv = match ch.choose(24) {
        0..=9 => Srv::Good,
        10 => Srv::Ignores,
        11 => Srv::IgnoresOnGet,
        12 => Srv::Refuses,
        13 => Srv::RefusesBare,
        14 => Srv::Short,
        15 => Srv::Shifted,
        16 => Srv::Long,
        17 => Srv::Understuffed,
        18 => Srv::Overstuffed,
        19 => Srv::NoTotal,
        20 => Srv::NoLabel,
        21 => Srv::BadLabel,
        22 => Srv::Errors(*ch.pick(&[404u16, 500, 403, 416, 301, 204])),
        _ => Srv::Good,
    };
    // how often it behaves that way
    let odd = *ch.pick(&[1000, 300, 100]);
    let first_body = filler("lazy", size)[..size].to_vec();
    let mut vers = vec![first_body.clone()];
    let changes = ch.chance(150);
    let same_len = changes && ch.chance(500);
    // what the server that has the new file is like
    let mut later = Srv::Good;
    if changes {
        srv = Srv::Good;
        later = *ch.pick(&[Srv::Good, Srv::Good, Srv::Ignores, Srv::IgnoresOnGet, Srv::Refuses, Srv::Short, Srv::Shifted, Srv::Long]);
        let n2 = if same_len { size } else { size + 1 + ch.size(5000) };
        vers.push(filler("other", n2)[..n2].to_vec());
    }
    let use_etag = same_len || ch.chance(500);
    let change_at = ch.choose(6);
    let framing = if ch.chance(200) { Framing::Chunked } else { Framing::Length };
    let keep = ch.chance(800);
    let hashed = ch.chance(500);
    let faulty = ch.chance(250);
    let file = Arc::new(Mutex::new(LFile { vers, cur: 0, served: vec![], full_gets: 0 }));
    w().net.hosts = vec!["files.test".into()];
    w().fs.mkdir_p("/cache");
    w().fs.mkdir_p("/tmp");
    {
        let file = file.clone();
        let mut nreq = 0;
        w().net.origin = Some(Box::new(move |_wall: i64, req: &Req, ch: &mut Choices| {
            let mut f = file.lock().unwrap();
            nreq += 1;
            if changes && nreq > change_at {
                f.cur = 1;
            }
            let data = f.vers[f.cur].clone();
            let len = data.len() as u64;
            let head = req.method == "HEAD";
            let fin = |mut r: Reply| {
                if head {
                    r.declare = Some(r.body.len());
                    r.body.clear();
                } else {
                    r.framing = framing.clone();
                }
                r.keep = keep;
                r
            };
            let tag = format!("\"v{}\"", f.cur);
            let et = |r: Reply| if use_etag { r.h("ETag", &tag) } else { r };
            let now = if f.cur == 1 { later } else { srv };
            let s = if now != Srv::Good && ch.chance(odd) { now } else { Srv::Good };
            let rng = req.header("range").and_then(parse_range);
            match (s, rng) {
                (Srv::Ignores, _) | (_, None) => {
                    if !head {
                        f.full_gets += 1;
                    }
                    return fin(et(Reply::new(200, &data)));
                }
                (Srv::IgnoresOnGet, _) if !head => {
                    return fin(et(Reply::new(200, &data)));
                }
                (Srv::Refuses, _) => return fin(Reply::new(416, b"").h("Content-Range", &format!("bytes */{}", len))),
                (Srv::RefusesBare, _) => return fin(Reply::new(416, b"no")),
                (Srv::Errors(st), _) => {
                    let r = Reply::new(st, if st == 204 { b"" } else { b"error page" });
                    return fin(r);
                }
                _ => (),
            }
            let (a, b) = rng.unwrap();
            if a >= len || b < a {
                return fin(Reply::new(416, b"").h("Content-Range", &format!("bytes */{}", len)));
            }
            let b = b.min(len - 1);
            let (mut fa, mut fb) = (a, b);
            match s {
                Srv::Short => fb = a + ch.choose((b - a + 1) as usize) as u64,
                Srv::Shifted => {
                    fa = ch.choose(len as usize) as u64;
                    fb = (fa + (b - a)).min(len - 1);
                }
                Srv::Long => {
                    fa = a - ch.choose(a.min(3000) as usize + 1) as u64;
                    fb = (b + ch.choose(5000) as u64).min(len - 1);
                }
                _ => (),
            }
            let mut body = data[fa as usize..=fb as usize].to_vec();
            let label = match s {
                Srv::NoTotal => format!("bytes {}-{}/*", fa, fb),
                Srv::BadLabel => ch.pick(&["bytes", "items 0-5/10", "bytes 0-5", "bytes 5-/99999999999999999999999", ""]).to_string(),
                _ => format!("bytes {}-{}/{}", fa, fb, len),
            };
            if s == Srv::Understuffed {
                body.truncate(ch.choose(body.len()));
            }
            if s == Srv::Overstuffed {
                body.extend_from_slice(&filler("junk", 20)[..1 + ch.choose(20)]);
            }
            if !head {
                let q = w().seq;
                f.served.push((q, fa, body.len() as u64));
            }
            let mut r = et(Reply::new(206, &body));
            if s != Srv::NoLabel {
                r = r.h("Content-Range", &label);
            }
            fin(r)
        }));
    }
    w().f.switch = 50;
    w().net.f.frag = *w().ch.pick(&[0, 100, 300]);
    if faulty {
        w().net.f.req = *w().ch.pick(&[200, 500]);
        w().net.f.req_budget = *w().ch.pick(&[1, 2, 8]);
        w().net.f.kinds = vec![FateKind::Cut, FateKind::Stall, FateKind::Drop, FateKind::Status];
        w().net.f.conn = *w().ch.pick(&[0, 100]);
        w().net.f.conn_budget = 3;
    } else {
        w().f.short = *w().ch.pick(&[0, 100]);
    }
    #[derive(Clone, Debug)]
    enum LOp {
        Read { at: u64, len: usize, got: Result<Vec<u8>, String> },
    }
    let ops: Arc<Mutex<Vec<LOp>>> = Arc::new(Mutex::new(vec![]));
    let opened: Arc<Mutex<Option<Result<u64, String>>>> = Arc::new(Mutex::new(None));
    let bad: Arc<Mutex<Vec<(&'static str, String)>>> = Arc::new(Mutex::new(vec![]));
    let hash = hash_of(&first_body);
    {
        let (ops, opened, bad) = (ops.clone(), opened.clone(), bad.clone());
        spawn("p0", move || {
            let http = super::http::mk_http().expect("cache");
            let ai = ArtifactInfo {
                name: "foo-1.0-py3-none-any.whl".try_into().unwrap(),
                url: Url::parse(&format!("{}/foo-1.0-py3-none-any.whl", super::http::HOST)).unwrap(),
                hash: if hashed { Some(hash) } else { None },
                requires_python: None,
                dist_info_metadata: Default::default(),
                yanked: Default::default(),
            };
            let mut r = match http.get_lazy(&ai) {
                Ok(r) => r,
                Err(e) => {
                    *opened.lock().unwrap() = Some(Err(errstr(&e)));
                    return;
                }
            };
            let len = match r.seek(SeekFrom::End(0)) {
                Ok(n) => n,
                Err(e) => {
                    bad.lock().unwrap().push(("seek", format!("seeking to the end failed: {}", e)));
                    return;
                }
            };
            *opened.lock().unwrap() = Some(Ok(len));
            let mut pos = len;
            let nops = w().ch.range(1, 12);
            for _ in 0..nops {
                let ch = &mut w().ch;
                let target = match ch.choose(8) {
                    0 => pos,
                    1 => len.saturating_sub(ch.size(300) as u64),
                    2 => ch.choose(len as usize + 1) as u64,
                    3 => 0,
                    4 => len + ch.choose(3) as u64,
                    5 => (pos + 10_000).saturating_sub(ch.choose(3) as u64),
                    6 => pos.saturating_sub(10_000 + ch.choose(3) as u64),
                    _ => ch.choose(len as usize + 1) as u64,
                };
                let from = match ch.choose(3) {
                    0 => SeekFrom::Start(target),
                    1 => SeekFrom::End(target as i64 - len as i64),
                    _ => SeekFrom::Current(target as i64 - pos as i64),
                };
                match r.seek(from) {
                    Ok(n) if n == target => (),
                    Err(_) if target > len => continue,
                    x => {
                        bad.lock().unwrap().push(("seek", format!("{:?} from {} of {} gave {:?}", from, pos, len, x.map_err(|e| e.to_string()))));
                        return;
                    }
                }
                let want = match w().ch.choose(4) {
                    0 => 1 + w().ch.size(30),
                    1 => 1 + w().ch.size(25_000),
                    2 => 0,
                    _ => 1 + w().ch.size(2000),
                };
                let mut buf = vec![0; want];
                let mut n = 0;
                let mut err = None;
                while n < want {
                    match r.read(&mut buf[n..]) {
                        Ok(0) => break,
                        Ok(k) if k <= want - n => n += k,
                        Ok(k) => {
                            bad.lock().unwrap().push(("overrun", format!("a read of {} claims {} bytes", want - n, k)));
                            return;
                        }
                        Err(e) => {
                            err = Some(e.to_string());
                            break;
                        }
                    }
                }
                buf.truncate(n);
                pos = target + n as u64;
                let failed = err.is_some();
                if failed && n > 0 {
                    ops.lock().unwrap().push(LOp::Read { at: target, len: n, got: Ok(buf) });
                } else {
                    ops.lock().unwrap().push(LOp::Read {
                        at: target,
                        len: want,
                        got: match err {
                            None => Ok(buf),
                            Some(e) => Err(e),
                        },
                    });
                }
                if failed {
                    match r.stream_position() {
                        Ok(p) => pos = p,
                        Err(_) => return,
                    }
                }
            }
        });
    }
    w().time_limit = Some(w().now + 20_000 * 1_000_000_000);
    let stop = run();
    w().time_limit = None;
    judge_end(rep, &stop, &["C16"], &["C16"]);
    for (s, m) in bad.lock().unwrap().drain(..) {
        rep.fail("C16", s, m);
    }
    let f = file.lock().unwrap();
    let ops = ops.lock().unwrap();
    let what = format!("{} bytes, server {:?}{}", size, srv, if changes { ", file replaced meanwhile" } else { "" });
    let trouble = w().net.reqs.iter().any(|l| l.fate != Fate::Ok) || w().net.conns.iter().any(|c| c.what != "ok");
    let plain = !trouble && !changes;
    match &*opened.lock().unwrap() {
        None => (),
        Some(Err(e)) => {
            rep.trivial = true;
            if plain && matches!(srv, Srv::Good | Srv::Ignores) {
                rep.fail("C16", if srv == Srv::Good { "refused" } else { "no-fallback" }, format!("{}: cannot be opened: {}", what, e));
            }
        }
        Some(Ok(len)) => {
            // one version explains the length and every byte
            let fits = |v: &Vec<u8>| {
                v.len() as u64 == *len
                    && ops.iter().all(|o| match o {
                        LOp::Read { at, len, got: Ok(b) } => {
                            let a = (*at as usize).min(v.len());
                            let e = (a + len).min(v.len());
                            v[a..e] == b[..]
                        }
                        _ => true,
                    })
            };
            if !f.vers.iter().any(fits) {
                let bits: Vec<String> = ops
                    .iter()
                    .map(|o| match o {
                        LOp::Read { at, len, got } => format!(
                            "{}+{} -> {}",
                            at,
                            len,
                            match got {
                                Ok(b) => format!(
                                    "{} bytes{}",
                                    b.len(),
                                    if f.vers.iter().any(|v| {
                                        let a = (*at as usize).min(v.len());
                                        v[a..(a + len).min(v.len())] == b[..]
                                    }) {
                                        ""
                                    } else {
                                        " (wrong)"
                                    }
                                ),
                                Err(e) => format!("error {}", e),
                            }
                        ),
                    })
                    .collect();
                rep.fail(
                    "C16",
                    if changes { "mixed" } else { "wrong-bytes" },
                    format!("{}: length {}, reads: {}", what, len, bits.join("; ")),
                );
            }
            let errs: Vec<&LOp> = ops.iter().filter(|o| matches!(o, LOp::Read { got: Err(_), .. })).collect();
            if plain && matches!(srv, Srv::Good | Srv::Ignores) && !errs.is_empty() && !(srv == Srv::Ignores && odd < 1000) {
                rep.fail("C16", "spurious-error", format!("{}: {:?}", what, errs[0]));
            }
            if plain && srv == Srv::Good {
                let asked: u64 = ops.iter().map(|o| match o { LOp::Read { got: Ok(b), .. } => b.len() as u64, _ => 0 }).sum();
                let sent: u64 = f.served.iter().map(|s| s.2).sum();
                if f.full_gets > 0 || sent > asked + 64_000 * (ops.len() as u64) {
                    rep.fail("C16", "too-much-transferred", format!("{}: {} bytes were read, {} transferred, {} whole downloads", what, asked, sent, f.full_gets));
                }
                let mut iv: Vec<(u64, u64)> = f.served.iter().map(|s| (s.1, s.1 + s.2)).collect();
                iv.sort();
                if iv.windows(2).any(|p| p[0].1 > p[1].0) {
                    rep.fail("C16", "transferred-twice", format!("{}: ranges {:?}", what, iv));
                }
                if sent > 0 {
                    w().probe("read_in_pieces");
                }
            }
            if srv == Srv::Ignores && f.full_gets > 0 {
                w().probe("whole_file_fallback");
            }
        }
    }
    let _ = Duration::from_secs(0);
}
