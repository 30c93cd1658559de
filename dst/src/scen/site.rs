//! A web site whose every reply has an identity, with its caching rules known to the judge.

use crate::sim::*;
use std::io::Write;

pub fn http_date(unix: i64) -> String {
    let days = unix.div_euclid(86400);
    let secs = unix.rem_euclid(86400);
    let wd = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"][days.rem_euclid(7) as usize];
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + (m <= 2) as i64;
    let mn = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][m as usize - 1];
    format!("{}, {:02} {} {} {:02}:{:02}:{:02} GMT", wd, d, mn, y, secs / 3600, secs / 60 % 60, secs % 60)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Policy {
    Nothing,
    MaxAge(u64),
    NoStore,
    NoStoreMaxAge,
    NoCache(u64),
    Private(u64),
    MustRevalidate(u64),
    SMaxAge(u64),
    Expires(u64),
    Expired,
    Aged(u64, u64),
    VaryAccept(u64),
    VaryStar(u64),
    Immutable(u64),
    ImmutableBare,
    Dated,
}
impl Policy {
    pub fn headers(&self, wall: i64) -> Vec<(String, String)> {
        let h = |k: &str, v: String| (k.to_string(), v);
        let cc = |v: String| h("Cache-Control", v);
        match self {
            Policy::Nothing => vec![],
            Policy::MaxAge(n) => vec![cc(format!("max-age={}", n))],
            Policy::NoStore => vec![cc("no-store".into())],
            Policy::NoStoreMaxAge => vec![cc("max-age=600, no-store".into())],
            Policy::NoCache(n) => vec![cc(format!("no-cache, max-age={}", n))],
            Policy::Private(n) => vec![cc(format!("private, max-age={}", n))],
            Policy::MustRevalidate(n) => vec![cc(format!("max-age={}, must-revalidate", n))],
            Policy::SMaxAge(n) => vec![cc(format!("s-maxage={}", n))],
            Policy::Expires(n) => vec![h("Date", http_date(wall)), h("Expires", http_date(wall + *n as i64))],
            Policy::Expired => vec![h("Date", http_date(wall)), h("Expires", "0".into())],
            Policy::Aged(a, n) => vec![cc(format!("public, max-age={}", n)), h("Age", a.to_string())],
            Policy::VaryAccept(n) => vec![cc(format!("max-age={}", n)), h("Vary", "Accept".into())],
            Policy::VaryStar(n) => vec![cc(format!("max-age={}", n)), h("Vary", "*".into())],
            Policy::Immutable(n) => vec![cc(format!("max-age={}, immutable", n))],
            Policy::ImmutableBare => vec![cc("immutable".into())],
            Policy::Dated => vec![h("Date", http_date(wall))],
        }
    }
    pub fn no_store(&self) -> bool {
        matches!(self, Policy::NoStore | Policy::NoStoreMaxAge)
    }
    pub fn explicit(&self) -> Option<u64> {
        match self {
            Policy::MaxAge(n) | Policy::MustRevalidate(n) | Policy::Expires(n) | Policy::VaryAccept(n) | Policy::Immutable(n) => Some(*n),
            Policy::Aged(a, n) => Some(n.saturating_sub(*a)),
            _ => None,
        }
    }
    pub fn n(&self) -> u64 {
        match self {
            Policy::MaxAge(n) | Policy::NoCache(n) | Policy::Private(n) | Policy::MustRevalidate(n) | Policy::SMaxAge(n) | Policy::Expires(n)
            | Policy::VaryAccept(n) | Policy::VaryStar(n) | Policy::Immutable(n) => *n,
            Policy::Aged(a, n) => n.saturating_sub(*a),
            _ => 0,
        }
    }
    pub fn draw(ch: &mut Choices) -> Policy {
        let n = *ch.pick(&[600u64, 5, 60, 86400, 0, 1]);
        match ch.choose(17) {
            0 | 1 | 2 => Policy::MaxAge(n),
            3 => Policy::Nothing,
            4 => Policy::NoStore,
            5 => Policy::NoStoreMaxAge,
            6 => Policy::NoCache(n),
            7 => Policy::Private(n),
            8 => Policy::MustRevalidate(n),
            9 => Policy::SMaxAge(n),
            10 => Policy::Expires(n),
            11 => Policy::Expired,
            12 => Policy::Aged(*ch.pick(&[3u64, 50, 400, 5000]), n),
            13 => Policy::VaryAccept(n),
            14 => Policy::VaryStar(n),
            15 => if ch.choose(2) == 0 { Policy::ImmutableBare } else { Policy::Dated },
            _ => Policy::Immutable(n),
        }

    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cnd {
    /// 304 with all headers
    Full,
    /// 304 with the validators only
    Validators,
    /// conditions ignored
    Ignore,
    /// 304 without any header
    Bare,
    /// 304 naming another validator (as some compressing proxies do)
    OtherTag,
}

#[derive(Clone, Debug)]
pub enum What {
    File,
    Redirect { status: u16, to: Option<String>, shown: Option<String> },
    Status(u16),
}

#[derive(Clone, Debug)]
pub struct Ver {
    pub what: What,
    pub body: Vec<u8>,
    pub etag: Option<String>,
    pub lm: Option<i64>,
    pub policy: Policy,
}

#[derive(Clone, Debug)]
pub struct Resource {
    pub url: String,
    pub vers: Vec<Ver>,
    pub cond: Cnd,
    pub framing: Framing,
    pub gzip: bool,
    pub keep: bool,
    pub change: u32,
    pub changes_left: u32,
}

/// One thing the origin said.
#[derive(Clone, Debug)]
pub struct Given {
    pub url: String,
    pub method: String,
    pub res: usize,
    pub ver: usize,
    pub status: u16,
    /// a 304: confirms version `ver`
    pub confirm: bool,
    /// the full body a client must end up with
    pub body: Vec<u8>,
    pub what: What,
    pub policy: Policy,
    pub lm: Option<i64>,
    pub wall: i64,
    pub req_no_store: bool,
    pub accept: Option<String>,
}

pub struct Site {
    pub res: Vec<Resource>,
    pub givens: Vec<Given>,
}

pub fn gz(data: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

pub fn filler(tag: &str, len: usize) -> Vec<u8> {
    let mut h = 0xcbf29ce484222325u64;
    for b in tag.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut r = Rng::new(h);
    let mut v = format!("<{}>", tag).into_bytes();
    while v.len() < len {
        v.extend_from_slice(format!("{:x}.", r.next()).as_bytes());
    }
    v
}

impl Site {
    pub fn new() -> Site {
        Site { res: vec![], givens: vec![] }
    }
    /// The next version of resource i, if it is to change now.
    fn maybe_change(&mut self, i: usize, wall: i64, ch: &mut Choices) {
        let r = &mut self.res[i];
        if r.changes_left == 0 || !ch.chance(r.change) {
            return;
        }
        r.changes_left -= 1;
        let n = r.vers.len();
        let mut v = r.vers[n - 1].clone();
        v.body = filler(&format!("{} v{}", r.url, n), [60, 10, 9000, 0][ch.choose(4)].min(v.body.len().max(60)));
        if matches!(v.what, What::Status(204)) {
            v.body.clear();
        }
        if v.etag.is_some() {
            v.etag = Some(format!("\"e{}-{}\"", i, n));
        }
        if let Some(l) = v.lm {
            v.lm = Some(wall.max(l + 2));
        }
        if ch.chance(300) {
            v.policy = Policy::draw(ch);
        }
        self.res[i].vers.push(v);
    }
    pub fn handle(&mut self, wall: i64, req: &Req, ch: &mut Choices) -> Reply {
        let url = req.url();
        let i = match self.res.iter().position(|r| r.url == url) {
            Some(i) => i,
            None => {
                let body = format!("nothing at {}", url).into_bytes();
                self.givens.push(Given {
                    url,
                    method: req.method.clone(),
                    res: usize::MAX,
                    ver: 0,
                    status: 404,
                    confirm: false,
                    body: if req.method == "HEAD" { vec![] } else { body.clone() },
                    what: What::Status(404),
                    policy: Policy::Nothing,
                    lm: None,
                    wall,
                    req_no_store: false,
                    accept: req.header("accept").map(|s| s.into()),
                });
                let mut r = Reply::new(404, &body);
                if req.method == "HEAD" {
                    r.declare = Some(body.len());
                }
                r.tag = self.givens.len() as u64;
                return r;
            }
        };
        self.maybe_change(i, wall, ch);
        let r = &self.res[i];
        let vi = r.vers.len() - 1;
        let v = &r.vers[vi];
        let status = match &v.what {
            What::File => 200,
            What::Redirect { status, .. } => *status,
            What::Status(s) => *s,
        };
        let mut headers = v.policy.headers(wall);
        if let Some(e) = &v.etag {
            headers.push(("ETag".into(), e.clone()));
        }
        if let Some(l) = v.lm {
            headers.push(("Last-Modified".into(), http_date(l)));
        }
        let strip = |s: &str| s.trim().trim_start_matches("W/").to_string();
        let unchanged = match (req.header("if-none-match"), req.header("if-modified-since")) {
            (Some(inm), _) => v.etag.as_ref().map_or(false, |e| inm.split(',').any(|x| strip(x) == strip(e))),
            (None, Some(ims)) => v.lm.map_or(false, |l| http_date(l) == ims),
            _ => false,
        };
        let confirm = status == 200 && unchanged && r.cond != Cnd::Ignore;
        headers.push(("X-Ver".into(), format!("{}-{}", i, vi)));
        if let What::Redirect { shown: Some(s), .. } = &v.what {
            headers.push(("Location".into(), s.clone()));
        }
        let mut wire = v.body.clone();
        let head = req.method == "HEAD";
        if r.gzip && !confirm && !head && req.header("accept-encoding").map_or(false, |a| a.contains("gzip")) {
            wire = gz(&wire);
            headers.push(("Content-Encoding".into(), "gzip".into()));
        }
        let mut reply = Reply::new(if confirm { 304 } else { status }, &[]);
        if confirm {
            match r.cond {
                Cnd::Full => reply.headers = headers,
                Cnd::Validators => {
                    reply.headers = headers.into_iter().filter(|(k, _)| k == "ETag" || k == "Last-Modified").collect();
                }
                Cnd::OtherTag => {
                    reply.headers = vec![("ETag".into(), format!("\"other-{}-{}\"", i, vi))];
                }
                _ => (),
            }
        } else {
            reply.headers = headers;
            reply.framing = r.framing.clone();
            if head {
                reply.declare = Some(wire.len());
            } else {
                reply.body = wire;
            }
        }
        reply.keep = r.keep;
        self.givens.push(Given {
            url,
            method: req.method.clone(),
            res: i,
            ver: vi,
            status,
            confirm,
            body: if head { vec![] } else { v.body.clone() },
            what: v.what.clone(),
            policy: v.policy.clone(),
            lm: v.lm,
            wall,
            req_no_store: req.header("cache-control").map_or(false, |c| c.contains("no-store")),
            accept: req.header("accept").map(|s| s.into()),
        });
        reply.tag = self.givens.len() as u64;
        reply
    }
}
