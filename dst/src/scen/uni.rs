//! Package universes: releases, their artifacts, the index pages that list them, and an
//! independent model of what versions, specifiers and markers mean.

use super::arch::*;
use super::site::filler;
use crate::sim::*;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- versions

#[derive(Clone, Debug)]
pub struct Vn {
    pub s: String,
    pub rel: Vec<u32>,
    pub pre: Option<(char, u32)>,
    pub post: Option<u32>,
    pub dev: Option<u32>,
}
fn num(s: &str) -> (u32, &str) {
    let n = s.bytes().take_while(|b| b.is_ascii_digit()).count();
    (s[..n].parse().unwrap_or(0), &s[n..])
}
pub fn vn(s: &str) -> Vn {
    let mut v = Vn { s: s.into(), rel: vec![], pre: None, post: None, dev: None };
    let mut r = s;
    loop {
        let (n, rest) = num(r);
        v.rel.push(n);
        r = rest;
        match r.strip_prefix('.') {
            Some(x) if x.starts_with(|c: char| c.is_ascii_digit()) => r = x,
            _ => break,
        }
    }
    for (t, c) in [("rc", 'r'), ("a", 'a'), ("b", 'b')] {
        if let Some(x) = r.strip_prefix(t) {
            let (n, rest) = num(x);
            v.pre = Some((c, n));
            r = rest;
            break;
        }
    }
    if let Some(x) = r.strip_prefix(".post") {
        let (n, rest) = num(x);
        v.post = Some(n);
        r = rest;
    }
    if let Some(x) = r.strip_prefix(".dev") {
        let (n, rest) = num(x);
        v.dev = Some(n);
        r = rest;
    }
    assert!(r.is_empty(), "version {}", s);
    v
}
impl Vn {
    fn at(&self, i: usize) -> u32 {
        self.rel.get(i).copied().unwrap_or(0)
    }
    pub fn is_pre(&self) -> bool {
        self.pre.is_some() || self.dev.is_some()
    }
    pub fn cmp_rel(&self, o: &Vn) -> Ordering {
        (0..self.rel.len().max(o.rel.len())).map(|i| self.at(i).cmp(&o.at(i))).find(|c| *c != Ordering::Equal).unwrap_or(Ordering::Equal)
    }
    fn key(&self) -> ((u8, char, u32), i64, u64) {
        let pre = match (self.pre, self.post, self.dev) {
            (Some((c, n)), _, _) => (1, c, n),
            (None, None, Some(_)) => (0, ' ', 0),
            _ => (2, ' ', 0),
        };
        (pre, self.post.map_or(-1, |p| p as i64), self.dev.map_or(u64::MAX, |d| d as u64))
    }
}
impl PartialEq for Vn {
    fn eq(&self, o: &Vn) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Vn {}
impl PartialOrd for Vn {
    fn partial_cmp(&self, o: &Vn) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Vn {
    fn cmp(&self, o: &Vn) -> Ordering {
        self.cmp_rel(o).then_with(|| self.key().cmp(&o.key()))
    }
}

#[derive(Clone, Debug)]
pub struct Sp {
    pub op: &'static str,
    pub v: String,
}
impl Sp {
    pub fn text(&self) -> String {
        format!("{}{}", self.op, self.v)
    }
    pub fn ok(&self, c: &Vn) -> bool {
        let prefix = |r: &[u32]| (0..r.len()).all(|i| c.at(i) == r[i]);
        if let Some(p) = self.v.strip_suffix(".*") {
            let m = prefix(&vn(p).rel);
            return if self.op == "==" { m } else { !m };
        }
        let v = vn(&self.v);
        match self.op {
            "==" => *c == v,
            "!=" => *c != v,
            "<=" => *c <= v,
            ">=" => *c >= v,
            "<" => *c < v && !(!v.is_pre() && c.is_pre() && c.cmp_rel(&v) == Ordering::Equal),
            ">" => *c > v && !(v.post.is_none() && c.post.is_some() && c.pre == v.pre && c.cmp_rel(&v) == Ordering::Equal),
            "~=" => *c >= v && prefix(&v.rel[..v.rel.len() - 1]),
            _ => unreachable!(),
        }
    }
}
pub type Spec = Vec<Sp>;
pub fn sat(s: &Spec, v: &Vn) -> bool {
    s.iter().all(|x| x.ok(v))
}
pub fn spec_text(s: &Spec) -> String {
    s.iter().map(|x| x.text()).collect::<Vec<_>>().join(",")
}

// ---------------------------------------------------------------- markers and requirements

#[derive(Clone, Debug)]
pub enum Mk {
    /// variable, operator, literal; the flag writes it the other way round
    Ver(&'static str, &'static str, &'static str, bool),
    Str(&'static str, bool, &'static str),
    Extra(String),
    And(Box<Mk>, Box<Mk>),
    Or(Box<Mk>, Box<Mk>),
}
impl Mk {
    pub fn text(&self) -> String {
        match self {
            Mk::Ver(var, op, lit, false) => format!("{} {} '{}'", var, op, lit),
            Mk::Ver(var, op, lit, true) => {
                let flip = match *op {
                    "<" => ">",
                    ">" => "<",
                    "<=" => ">=",
                    ">=" => "<=",
                    x => x,
                };
                format!("'{}' {} {}", lit, flip, var)
            }
            Mk::Str(var, eq, lit) => format!("{} {} \"{}\"", var, if *eq { "==" } else { "!=" }, lit),
            Mk::Extra(e) => format!("extra == '{}'", e),
            Mk::And(a, b) => format!("({}) and ({})", a.text(), b.text()),
            Mk::Or(a, b) => format!("({}) or {}", a.text(), b.text()),
        }
    }
    pub fn eval(&self, env: &BTreeMap<String, String>, extra: Option<&str>) -> bool {
        match self {
            Mk::Ver(var, op, lit, _) => {
                let (a, b) = (vn(&env[*var]), vn(lit));
                match *op {
                    "<" => a < b,
                    ">" => a > b,
                    "<=" => a <= b,
                    ">=" => a >= b,
                    "==" => a == b,
                    _ => a != b,
                }
            }
            Mk::Str(var, eq, lit) => (env[*var] == *lit) == *eq,
            Mk::Extra(e) => extra.map_or(false, |x| norm(x) == norm(e)),
            Mk::And(a, b) => a.eval(env, extra) && b.eval(env, extra),
            Mk::Or(a, b) => a.eval(env, extra) || b.eval(env, extra),
        }
    }
}
pub fn norm(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        if matches!(c, '-' | '_' | '.') {
            if !out.ends_with('-') {
                out.push('-');
            }
        } else {
            out.push(c.to_ascii_lowercase());
        }
    }
    out
}

#[derive(Clone, Debug)]
pub struct Dep {
    pub name: String,
    pub extras: Vec<String>,
    pub spec: Spec,
    pub marker: Option<Mk>,
}
impl Dep {
    pub fn on(name: &str) -> Dep {
        Dep { name: name.into(), extras: vec![], spec: vec![], marker: None }
    }
    pub fn text(&self) -> String {
        let mut s = self.name.clone();
        if !self.extras.is_empty() {
            s += &format!("[{}]", self.extras.join(","));
        }
        if !self.spec.is_empty() {
            s += &format!(" ({})", spec_text(&self.spec));
        }
        if let Some(m) = &self.marker {
            s += &format!(" ; {}", m.text());
        }
        s
    }
    pub fn norm(&self) -> String {
        norm(&self.name)
    }
}

// ---------------------------------------------------------------- releases and artifacts

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum AK {
    Wheel,
    Sdist,
    Pybi,
}
#[derive(Clone, Debug)]
pub struct Art {
    pub kind: AK,
    pub file: String,
    /// the tags in its name (platform tags for a pybi)
    pub tags: Vec<String>,
    pub bytes: Arc<Vec<u8>>,
    pub meta: Vec<u8>,
    pub ents: Vec<Ent>,
    /// the page says its hash
    pub hashed: bool,
    /// which index lists it
    pub idx: usize,
    pub yanked: bool,
    pub rp: Option<Spec>,
    pub url: String,
    /// still offered
    pub listed: bool,
    /// the hash the page gives, if it is not its own
    pub claim: Option<String>,
}
impl Art {
    pub fn hash(&self) -> String {
        hexs(&super::http2::sha256(&self.bytes))
    }
}
pub fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
#[derive(Clone, Debug)]
pub struct Rel {
    pub v: Vn,
    pub deps: Vec<Dep>,
    pub extras: Vec<String>,
    pub rp: Option<Spec>,
    pub arts: Vec<Art>,
    /// what it tells markers (pybis)
    pub env: BTreeMap<String, String>,
    pub wheel_tags: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Pkg {
    pub name: String,
    pub rels: Vec<Rel>,
}
impl Pkg {
    pub fn norm(&self) -> String {
        norm(&self.name)
    }
    pub fn rel(&self, v: &Vn) -> Option<&Rel> {
        self.rels.iter().find(|r| r.v == *v)
    }
}
#[derive(Clone, Debug)]
pub struct Uni {
    pub idx: Vec<String>,
    pub pkgs: Vec<Pkg>,
    /// names the arrangement of the pages; fixed per run, so a page is a function of its contents
    pub style: u64,
    /// links to other packages' artifacts that strayed onto a package's page
    pub stray: Vec<(usize, String, Art)>,
    /// pages that cannot be had
    pub bad: BTreeMap<(usize, String), Bad>,
    /// how long a page may be kept, if that is said
    pub fresh: Option<&'static str>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bad {
    Status(u16),
    Type(&'static str),
    Version(&'static str),
}
impl Uni {
    pub fn pkg(&self, n: &str) -> Option<&Pkg> {
        let n = norm(n);
        self.pkgs.iter().find(|p| p.norm() == n)
    }
    pub fn pkg_mut(&mut self, n: &str) -> Option<&mut Pkg> {
        let n = norm(n);
        self.pkgs.iter_mut().find(|p| p.norm() == n)
    }
}

pub fn dist_info(name: &str, v: &Vn) -> String {
    format!("{}-{}.dist-info", norm(name).replace('-', "_"), v.s)
}
pub fn metadata(name: &str, v: &Vn, deps: &[Dep], extras: &[String], rp: &Option<Spec>, note: &str) -> Vec<u8> {
    let mut m = format!("Metadata-Version: 2.1\nName: {}\nVersion: {}\nSummary: {}\n", name, v.s, note);
    if let Some(s) = rp {
        m += &format!("Requires-Python: {}\n", spec_text(s));
    }
    for e in extras {
        m += &format!("Provides-Extra: {}\n", e);
    }
    for d in deps {
        m += &format!("Requires-Dist: {}\n", d.text());
    }
    m += "\nA package.\n";
    m.into_bytes()
}
fn blank(kind: AK, file: String, tags: Vec<String>, ents: Vec<Ent>, meta: Vec<u8>, bytes: Vec<u8>) -> Art {
    Art { kind, file, tags, bytes: Arc::new(bytes), meta, ents, hashed: true, idx: 0, yanked: false, rp: None, url: String::new(), listed: true, claim: None }
}
/// `tag` like "py3-none-any".
pub fn wheel(name: &str, v: &Vn, tag: &str, meta: Vec<u8>, payload: Vec<Ent>) -> Art {
    let esc = norm(name).replace('-', "_");
    let di = dist_info(name, v);
    let mut ents = payload;
    ents.push(Ent::file(&format!("{}/WHEEL", di), format!("Wheel-Version: 1.0\nGenerator: sim\nRoot-Is-Purelib: true\nTag: {}\n", tag).as_bytes()));
    ents.push(Ent::file(&format!("{}/METADATA", di), &meta));
    ents.push(Ent::file(&format!("{}/RECORD", di), b"x,,\n"));
    let (bytes, _) = zip(&ents, b"", b"", false);
    let parts: Vec<&str> = tag.rsplitn(3, '-').collect();
    let mut tags = vec![];
    for p in parts[2].split('.') {
        for a in parts[1].split('.') {
            for t in parts[0].split('.') {
                tags.push(format!("{}-{}-{}", p, a, t));
            }
        }
    }
    blank(AK::Wheel, format!("{}-{}-{}.whl", esc, v.s, tag), tags, ents, meta, bytes)
}
pub fn payload(name: &str, v: &Vn, note: &str, size: usize) -> Vec<Ent> {
    let m = norm(name).replace('-', "_");
    let mut e = vec![Ent::file(&format!("{}/__init__.py", m), &filler(&format!("{} {} {}", m, v.s, note), 20 + size))];
    e.push(Ent::file(&format!("{}/data.txt", m), note.as_bytes()));
    e.push(Ent::file(&format!("{}/tool.sh", m), b"#!/bin/sh\n").exec());
    e
}
/// Where things are inside the pybis.
pub const STDLIB: &str = "lib/python";
pub const PURELIB: &str = "lib/python/site-packages";
pub fn pybi(name: &str, v: &Vn, plat: &str, env: &BTreeMap<String, String>, wheel_tags: &[String], note: &str) -> Art {
    let mut meta = format!("Metadata-Version: 2.1\nName: {}\nVersion: {}\n", name, v.s);
    let js: Vec<String> = env.iter().map(|(k, x)| format!("\"{}\": \"{}\"", k, x)).collect();
    meta += &format!("Pybi-Environment-Marker-Variables: {{{}}}\n", js.join(", "));
    meta += &format!("Pybi-Paths: {{\"stdlib\": \"{}\", \"purelib\": \"{}\", \"platlib\": \"{}\", \"scripts\": \"bin\", \"data\": \".\"}}\n", STDLIB, PURELIB, PURELIB);
    for t in wheel_tags {
        meta += &format!("Pybi-Wheel-Tag: {}\n", t);
    }
    let meta = meta.into_bytes();
    let mut ents = vec![
        Ent::file("bin/python", &filler(&format!("ELF python {} {}", v.s, note), 300)).exec(),
        Ent::link("bin/python3", "python"),
        Ent::file(&format!("{}/site.py", STDLIB), b"import sys\nENABLE_USER_SITE = None\nUSER_SITE = None\n"),
        Ent::file(&format!("{}/os.py", STDLIB), &filler(&format!("os {}", note), 2000)),
        Ent::dir(PURELIB),
    ];
    ents.push(Ent::file("pybi-info/PYBI", b"Pybi-Version: 1.0\nGenerator: sim\n"));
    ents.push(Ent::file("pybi-info/METADATA", &meta));
    ents.push(Ent::file("pybi-info/RECORD", b"x,,\n"));
    let (bytes, _) = zip(&ents, b"", b"", false);
    let esc = norm(name).replace('-', "_");
    blank(AK::Pybi, format!("{}-{}-{}.pybi", esc, v.s, plat), plat.split('.').map(|s| s.to_string()).collect(), ents, meta, bytes)
}
pub fn sdist(name: &str, v: &Vn, ents: Vec<Ent>, zipped: bool) -> Art {
    let root = format!("{}-{}", norm(name), v.s);
    let ents: Vec<Ent> = ents
        .into_iter()
        .map(|mut e| {
            e.name = format!("{}/{}", root, String::from_utf8_lossy(&e.name)).into_bytes();
            e
        })
        .collect();
    if zipped {
        let (b, _) = zip(&ents, b"", b"", false);
        blank(AK::Sdist, format!("{}.zip", root), vec![], ents, vec![], b)
    } else {
        let t = tar(&ents, LongName::Gnu, false, 512);
        let b = gz(&t, &[]);
        blank(AK::Sdist, format!("{}.tar.gz", root), vec![], ents, vec![], b)
    }
}

fn attr(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}

impl Uni {
    /// Gives every artifact its address.
    pub fn place(&mut self) {
        let mut taken: Vec<String> = vec![];
        for p in &mut self.pkgs {
            let n = p.norm();
            for r in &mut p.rels {
                for a in &mut r.arts {
                    if a.url.is_empty() {
                        let root = if self.style % 7 == 2 { "http://files.test/moved" } else { "http://files.test" };
                        let mut u = format!("{}/{}/{}", root, n, a.file);
                        let mut k = 0;
                        while taken.contains(&u) {
                            k += 1;
                            u = format!("{}/mirror{}/{}/{}", root, k, n, a.file);
                        }
                        a.url = u;
                    }
                    taken.push(a.url.clone());
                }
            }
        }
    }
    /// The page index `i` has for a package, if it has one.
    pub fn page(&self, i: usize, n: &str) -> Option<Vec<u8>> {
        let p = self.pkg(n)?;
        let mut links = vec![];
        for r in &p.rels {
            for a in &r.arts {
                if a.idx == i && a.listed {
                    links.push(a);
                }
            }
        }
        for (j, q, a) in &self.stray {
            if *j == i && *q == norm(n) {
                links.push(a);
            }
        }
        if links.is_empty() {
            return None;
        }
        let mut rng = Rng::new(self.style ^ n.len() as u64 ^ ((i as u64) << 32));
        let mut body = String::from("<!DOCTYPE html>\n<html><head>\n<meta name=\"pypi:repository-version\" content=\"1.0\">\n<title>Links</title>\n");
        let based = self.style % 5 == 1;
        let moved = self.pages_moved();
        if based {
            let b = if moved { ["/", "../../../", "//files.test/"][rng.next() as usize % 3] } else { "http://files.test/" };
            body += &format!("<base href=\"{}\">\n", b);
        }
        body += "</head><body>\n<h1>Links</h1>\n";
        // the order of links means nothing
        let mut order: Vec<usize> = (0..links.len()).collect();
        for k in (1..order.len()).rev() {
            let j = (rng.next() % (k as u64 + 1)) as usize;
            order.swap(k, j);
        }
        for k in order {
            let a = links[k];
            let path = a.url.replace("http://files.test/", "");
            let mut href = if based {
                path
            } else if moved {
                match rng.next() % 4 {
                    0 => format!("/{}", path),
                    1 => a.url.clone(),
                    _ => format!("../../../{}", path),
                }
            } else if self.style % 11 == 4 {
                format!("//files.test/{}", path)
            } else {
                a.url.clone()
            };
            if a.hashed {
                href += &format!("#sha256={}", a.claimed());
            }
            let mut at = String::new();
            if let Some(s) = &a.rp {
                at += &format!(" data-requires-python=\"{}\"", attr(&spec_text(s)));
            }
            if a.yanked {
                at += " data-yanked=\"bad release\"";
            }
            body += &format!("<a href=\"{}\"{}>{}</a><br/>\n", attr(&href), at, attr(&a.file));
            if rng.next() % 8 == 0 {
                body += &format!("<a href=\"{}.asc\">sig</a>\n<a href=\"{}.egg\">egg</a>\n", a.url, a.url);
            }
        }
        body += "</body></html>\n";
        Some(body.into_bytes())
    }
    /// Pages are kept at another place than where they are asked for.
    fn pages_moved(&self) -> bool {
        self.style % 11 == 3
    }
    fn serve_page(&self, i: usize, n: &str, req: &Req) -> Reply {
        let aged = |r: Reply| match &self.fresh {
            Some(cc) => r.h("Cache-Control", cc),
            None => r,
        };
        match self.page(i, n) {
            Some(b) => {
                let tag = format!("\"{}\"", &hexs(&super::http2::sha256(&b))[..12]);
                if req.header("if-none-match") == Some(&tag) {
                    return aged(Reply::new(304, b"").h("ETag", &tag));
                }
                let r = aged(Reply::new(200, &b).h("Content-Type", "text/html; charset=utf-8"));
                if self.style % 3 != 0 {
                    r.h("ETag", &tag)
                } else {
                    r
                }
            }
            None => aged(Reply::new(404, b"no such package")),
        }
    }
    /// What the site answers to a request.
    pub fn serve(&self, req: &Req) -> Reply {
        let url = req.url();
        let head = req.method == "HEAD";
        if let Some((i, n)) = url.strip_prefix("http://files.test/_pages/").and_then(|r| r.split_once('/')) {
            return self.serve_page(i.parse().unwrap_or(0), n.trim_end_matches('/'), req);
        }
        for (i, base) in self.idx.iter().enumerate() {
            if let Some(rest) = url.strip_prefix(base.as_str()) {
                let n = rest.trim_end_matches('/');
                match self.bad.get(&(i, norm(n))) {
                    Some(Bad::Status(s)) => return Reply::new(*s, b"<html><body>not now</body></html>").h("Content-Type", "text/html"),
                    Some(Bad::Type(t)) => return Reply::new(200, &self.page(i, n).unwrap_or_default()).h("Content-Type", t),
                    Some(Bad::Version(v)) => {
                        let b = String::from_utf8(self.page(i, n).unwrap_or_else(|| b"<meta name=\"pypi:repository-version\" content=\"1.0\">".to_vec())).unwrap();
                        return Reply::new(200, b.replace("content=\"1.0\"", &format!("content=\"{}\"", v)).as_bytes()).h("Content-Type", "text/html");
                    }
                    None => (),
                }
                if self.pages_moved() && self.page(i, n).is_some() {
                    let st = [301, 302, 303, 307, 308][(self.style as usize / 11 + n.len()) % 5];
                    return Reply::new(st, b"").h("Location", &format!("http://files.test/_pages/{}/{}/", i, n));
                }
                return self.serve_page(i, n, req);
            }
        }
        for p in &self.pkgs {
            for r in &p.rels {
                for a in &r.arts {
                    if a.url == url && a.url.contains("/moved/") {
                        let st = [301, 302, 303, 307, 308][(self.style as usize + a.file.len()) % 5];
                        let to = a.url.replace("/moved/", "/");
                        return Reply::new(st, b"").h("Location", if st % 2 == 0 { to.trim_start_matches("http://files.test") } else { &to });
                    }
                    if a.url.replace("/moved/", "/") == url {
                        return serve_file(&a.bytes, req, head);
                    }
                }
            }
        }
        Reply::new(404, b"no such file")
    }
    pub fn art_of_url(&self, url: &str) -> Option<(&Pkg, &Rel, &Art)> {
        let url = url.split('#').next().unwrap();
        for p in &self.pkgs {
            for r in &p.rels {
                for a in &r.arts {
                    if a.url == url {
                        return Some((p, r, a));
                    }
                }
            }
        }
        None
    }
}

fn parse_range(s: &str, len: u64) -> Option<(u64, u64)> {
    let r = s.strip_prefix("bytes=")?;
    let (a, b) = r.split_once('-')?;
    if a.is_empty() {
        let n: u64 = b.parse().ok()?;
        return Some((len.saturating_sub(n), len.checked_sub(1)?));
    }
    let a: u64 = a.parse().ok()?;
    let b: u64 = if b.is_empty() { len.checked_sub(1)? } else { b.parse().ok()? };
    Some((a, b))
}
pub fn serve_file(data: &[u8], req: &Req, head: bool) -> Reply {
    let len = data.len() as u64;
    let mut r = match req.header("range").and_then(|s| parse_range(s, len)) {
        Some((a, b)) if a < len && b >= a => {
            let b = b.min(len - 1);
            Reply::new(206, &data[a as usize..=b as usize]).h("Content-Range", &format!("bytes {}-{}/{}", a, b, len))
        }
        Some(_) => Reply::new(416, b"").h("Content-Range", &format!("bytes */{}", len)),
        None => Reply::new(200, data).h("Cache-Control", "max-age=365000000, immutable"),
    };
    if head {
        r.declare = Some(r.body.len());
        r.body.clear();
    }
    r
}

/// Puts the universe on the simulated network.
pub fn install(u: &Arc<Mutex<Uni>>) {
    w().net.hosts = vec!["idx.test".into(), "files.test".into(), "more.test".into()];
    let u = u.clone();
    w().net.origin = Some(Box::new(move |_wall: i64, req: &Req, _ch: &mut Choices| u.lock().unwrap().serve(req)));
    for d in ["/cache", "/tmp", "/forest", "/build", "/usr/bin", "/work", "/home/u"] {
        w().fs.mkdir_p(d);
    }
}

// ---------------------------------------------------------------- pythons

pub const PY: &str = "cpython_unofficial";

pub fn pyenv(full: &str, plat: &str) -> BTreeMap<String, String> {
    let v = vn(full);
    let mut m = BTreeMap::new();
    let mut put = |k: &str, x: &str| {
        m.insert(k.to_string(), x.to_string());
    };
    put("implementation_name", "cpython");
    put("implementation_version", full);
    put("os_name", "posix");
    put("platform_machine", plat);
    put("platform_python_implementation", "CPython");
    put("platform_system", "Linux");
    put("python_full_version", full);
    put("python_version", &format!("{}.{}", v.rel[0], v.rel[1]));
    put("sys_platform", "linux");
    m
}
pub fn py_tags(full: &str) -> Vec<String> {
    let v = vn(full);
    let cp = format!("cp{}{}", v.rel[0], v.rel[1]);
    vec![format!("{}-{}-PLATFORM", cp, cp), format!("{}-abi3-PLATFORM", cp), format!("{}-none-any", cp), "py3-none-any".into()]
}
/// A release of the interpreter with pybis for the given platforms.
pub fn py_rel(full: &str, plats: &[&str]) -> Rel {
    let env = pyenv(full, "x86_64");
    let tags = py_tags(full);
    let v = vn(full);
    let arts = plats.iter().map(|p| pybi(PY, &v, p, &env, &tags, p)).collect();
    Rel { v, deps: vec![], extras: vec![], rp: None, arts, env, wheel_tags: tags }
}
