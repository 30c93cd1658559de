//! Unpacking wheels, pybis and sdists: exactness under faults, containment under attack.

use super::arch::*;
use super::site::filler;
use super::util::*;
use crate::runner::{Rep, Scen};
use crate::sim::*;
use posy::sim_api::{Artifact, FindPython, NicePathBuf, Pybi, ScriptPlatform, Sdist, TrampolineMaker, Wheel, WriteTreeFS};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "unpack_exact", props: &["C21", "C20", "C42"], weight: 6, f: unpack_exact },
        Scen { name: "unpack_damaged", props: &["C21", "C20"], weight: 3, f: unpack_damaged },
        Scen { name: "unpack_evil", props: &["C20"], weight: 6, f: unpack_evil },
    ]
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fmt {
    Wheel,
    Pybi,
    SdistZip,
    SdistTar,
}

pub enum Want {
    File { data: Vec<u8>, exec: bool },
    Dir,
    Link(String),
    /// executable, ends with this
    Sh { tail: Vec<u8>, gui: bool },
    /// a zip file at its end holds exactly this as __main__.py
    Exe { main: Vec<u8> },
    /// executable, runs module:object
    ShEntry { module: String, object: String },
    ExeEntry { module: String, object: String },
}
pub type Wants = BTreeMap<String, Want>;

fn with_parents(w: &mut Wants) {
    let keys: Vec<String> = w.keys().cloned().collect();
    for k in keys {
        let mut p = k.as_str();
        while let Some((d, _)) = p.rsplit_once('/') {
            w.entry(d.to_string()).or_insert(Want::Dir);
            p = d;
        }
    }
}

/// Directories, files and links the archive describes.
pub fn want_raw(ents: &[Ent]) -> Wants {
    let mut out = Wants::new();
    for e in ents {
        let name = match normal(&String::from_utf8_lossy(&e.name)) {
            Some(n) => n,
            None => continue,
        };
        if name.is_empty() {
            continue;
        }
        match &e.kind {
            EKind::File | EKind::Sparse(_) => {
                out.insert(name, Want::File { data: e.data.clone(), exec: e.mode.map_or(false, |m| m & 0o100 != 0) });
            }
            EKind::Dir => {
                out.entry(name).or_insert(Want::Dir);
            }
            EKind::Link(t) => {
                out.insert(name, Want::Link(String::from_utf8_lossy(t).into()));
            }
            EKind::Other(_) => (),
        }
    }
    with_parents(&mut out);
    out
}

fn has_module(text: &[u8], module: &str, object: &str) -> bool {
    let t = String::from_utf8_lossy(text);
    t.contains(&format!("import {}", module)) && t.contains(&if object.is_empty() { format!("{}()", module) } else { format!("{}.{}()", module, object) })
}
fn main_of_exe(data: &[u8]) -> Option<Vec<u8>> {
    let mut z = zip::ZipArchive::new(std::io::Cursor::new(data)).ok()?;
    let mut v = vec![];
    std::io::Read::read_to_end(&mut z.by_name("__main__.py").ok()?, &mut v).ok()?;
    Some(v)
}

/// The first difference between what is there and what should be.
pub fn diff(tree: &Tree, want: &Wants, optional: &[String]) -> Option<String> {
    for (p, w) in want {
        let got = tree.get(p);
        let ok = match (w, got) {
            (_, None) => return Some(format!("{} is missing", p)),
            (Want::Dir, Some(Node::Dir)) => true,
            (Want::Link(t), Some(Node::Link(g))) => normal_link(t) == normal_link(g),
            (Want::File { data, exec }, Some(Node::File { data: d, exec: x })) => {
                if data != d {
                    let at = data.iter().zip(d).position(|(a, b)| a != b).unwrap_or(data.len().min(d.len()));
                    return Some(format!("{} has the wrong content: {} bytes, expected {}, first difference at {}", p, d.len(), data.len(), at));
                }
                if exec != x {
                    return Some(format!("{} is {}executable", p, if *x { "" } else { "not " }));
                }
                true
            }
            (Want::Sh { tail, gui }, Some(Node::File { data, exec })) => {
                *exec && data.starts_with(b"#!/bin/sh\n") && data.ends_with(tail) && (String::from_utf8_lossy(&data[..data.len() - tail.len()]).contains("POSY_PYTHONW") == *gui)
            }
            (Want::Exe { main }, Some(Node::File { data, exec })) => *exec && data.starts_with(b"MZ") && main_of_exe(data).as_ref() == Some(main),
            (Want::ShEntry { module, object }, Some(Node::File { data, exec })) => *exec && data.starts_with(b"#!/bin/sh\n") && has_module(data, module, object),
            (Want::ExeEntry { module, object }, Some(Node::File { data, exec })) => *exec && data.starts_with(b"MZ") && main_of_exe(data).map_or(false, |m| has_module(&m, module, object)),
            _ => false,
        };
        if !ok {
            return Some(format!("{} is not what it should be", p));
        }
    }
    for p in tree.keys() {
        if !want.contains_key(p) && !optional.contains(p) {
            return Some(format!("{} should not be there", p));
        }
    }
    None
}
/// link targets may be written in equivalent ways
fn normal_link(t: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for p in t.split('/') {
        match p {
            "" | "." => (),
            ".." if v.last().map_or(false, |l| *l != "..") => {
                v.pop();
            }
            x => v.push(x),
        }
    }
    v.join("/")
}

// ---------------------------------------------------------------- well-formed archives

pub struct Made {
    pub fmt: Fmt,
    pub bytes: Vec<u8>,
    pub spans: Vec<(usize, usize)>,
    pub want: Wants,
    pub optional: Vec<String>,
    /// legal, but posy may refuse it
    pub may_refuse: bool,
    /// places where the gz stream is cut into members
    pub odd: bool,
}

const DIRS: [&str; 6] = ["", "pkg", "pkg/sub", "pkg/sub/deep", "other dir", "ünï"];

fn content(tag: &str) -> Vec<u8> {
    let ch = &mut w().ch;
    match ch.choose(6) {
        0 => filler(tag, 30 + ch.size(200)),
        1 => vec![],
        2 => filler(tag, 8192),
        3 => filler(tag, 1 + ch.size(40_000)),
        4 => vec![b'z'; ch.size(20_000)],
        _ => ch.bytes(64),
    }
}
fn mode() -> Option<u32> {
    let ch = &mut w().ch;
    *ch.pick(&[Some(0o644), Some(0o755), Some(0o600), Some(0o775), Some(0o700)])
}
fn messy(name: String) -> String {
    let ch = &mut w().ch;
    if !ch.chance(100) {
        return name;
    }
    match ch.choose(4) {
        0 => format!("./{}", name),
        1 => name.replacen('/', "//", 1),
        2 => name.replacen('/', "/./", 1),
        _ => match name.rsplit_once('/') {
            Some((d, f)) => format!("{}/gone/../{}", d, f),
            None => format!("gone/../{}", name),
        },
    }
}
fn long_dir() -> String {
    let ch = &mut w().ch;
    let n = ch.range(1, 3);
    (0..n).map(|i| format!("{}{}", "long_component_".repeat(ch.range(2, 4)), i)).collect::<Vec<_>>().join("/")
}

pub fn make(fmt: Fmt) -> Made {
    let mut ents: Vec<Ent> = vec![];
    let mut may_refuse = false;
    let mut want = Wants::new();
    let mut optional = vec![];
    let nfiles = w().ch.size(7) + 1;
    let mut dirs_seen: Vec<String> = vec![];
    let root = match fmt {
        Fmt::SdistZip | Fmt::SdistTar => "foo-1.0/",
        _ => "",
    };
    // directory entries come first, when there are any
    let explicit = w().ch.chance(300);
    if explicit {
        if !root.is_empty() {
            ents.push(Ent::dir(root));
        }
        for d in ["pkg", "pkg/sub", "empty"] {
            if w().ch.chance(600) {
                let n = format!("{}{}", root, d);
                if d == "pkg/sub" && !dirs_seen.contains(&format!("{}pkg", root)) {
                    continue;
                }
                dirs_seen.push(n.clone());
                ents.push(Ent::dir(&n));
            }
        }
    }
    for i in 0..nfiles {
        let d = if w().ch.chance(120) { long_dir() } else { w().ch.pick(&DIRS).to_string() };
        let ext = *w().ch.pick(&["py", "so", "txt", "dat a"]);
        let f = format!("f{}.{}", i, ext);
        let name = format!("{}{}", root, if d.is_empty() { f } else { format!("{}/{}", d, f) });
        let mut e = Ent::file(&messy(name), &content(&format!("m{}", i)));
        e.mode = mode();
        if fmt != Fmt::SdistTar && w().ch.chance(80) {
            e.mode = None;
        }
        e.deflate = w().ch.chance(700);
        if fmt == Fmt::SdistTar && w().ch.chance(60) {
            let mut data = vec![0u8; 4096];
            for (j, b) in data.iter_mut().enumerate() {
                if j < 512 || (1024..1536).contains(&j) {
                    *b = b'A' + (j % 26) as u8;
                }
            }
            e.data = data;
            // (the hole at the end is a range of its own)
            e.kind = EKind::Sparse(vec![(0, 512), (1024, 1536), (4096, 4096)]);
        }
        ents.push(e);
    }
    // links, resolvable inside
    if fmt == Fmt::Pybi || fmt == Fmt::SdistZip {
        let n = w().ch.size(3);
        for i in 0..n {
            let ch = &mut w().ch;
            let (p, t) = match ch.choose(4) {
                0 => (format!("{}bin/l{}", root, i), "../pkg/f0.py".to_string()),
                1 => (format!("{}l{}", root, i), "pkg".to_string()),
                2 => (format!("{}pkg/sub/l{}", root, i), "..".to_string()),
                _ => (format!("{}pkg/l{}", root, i), "./x/../sub/nowhere".to_string()),
            };
            let at = ch.choose(ents.len() + 1);
            let mut e = Ent::link(&p, &t);
            e.deflate = ch.chance(200);
            ents.insert(at, e);
        }
    }
    // a directory after its contents, or twice: not every reader minds
    if w().ch.chance(40) {
        let at = w().ch.range(ents.len() / 2, ents.len());
        ents.insert(at, Ent::dir(&format!("{}pkg", root)));
        may_refuse = true;
    }
    if fmt == Fmt::Wheel {
        let purelib = w().ch.chance(700);
        let di = "foo-1.0.dist-info";
        let plain = ents.clone();
        let mut extra = vec![
            Ent::file(&format!("{}/WHEEL", di), format!("Wheel-Version: 1.0\nGenerator: sim\nRoot-Is-Purelib: {}\nTag: py3-none-any\n", purelib).as_bytes()),
            Ent::file(&format!("{}/METADATA", di), b"Metadata-Version: 2.1\nName: foo\nVersion: 1.0\n\nlong text\n"),
            Ent::file(&format!("{}/RECORD", di), b"foo,,\n"),
        ];
        for (k, e) in want_raw(&plain) {
            want.insert(format!("lib/{}", k), e);
        }
        for e in &extra {
            want.insert(format!("lib/{}", String::from_utf8_lossy(&e.name)), Want::File { data: e.data.clone(), exec: false });
        }
        optional.push(format!("lib/{}/INSTALLER", di));
        // the .data directory
        let n = w().ch.size(4);
        for i in 0..n {
            let ch = &mut w().ch;
            let data = format!("data {}", i).into_bytes();
            let exec = ch.chance(500);
            match ch.choose(5) {
                k @ (0 | 1) => {
                    let cat = ["purelib", "platlib"][k];
                    let mut e = Ent::file(&format!("foo-1.0.data/{}/d{}/x.py", cat, i), &data);
                    e.mode = Some(if exec { 0o755 } else { 0o644 });
                    extra.push(e);
                    want.insert(format!("lib/d{}/x.py", i), Want::File { data, exec });
                }
                2 => {
                    let mut e = Ent::file(&format!("foo-1.0.data/data/share/d{}", i), &data);
                    e.mode = Some(if exec { 0o755 } else { 0o644 });
                    extra.push(e);
                    want.insert(format!("share/d{}", i), Want::File { data, exec });
                }
                3 => {
                    // a binary
                    let mut data = b"\x7fELF".to_vec();
                    data.extend_from_slice(&filler("elf", ch.size(30_000)));
                    let mut e = Ent::file(&format!("foo-1.0.data/scripts/s{}", i), &data);
                    e.mode = Some(if exec { 0o755 } else { 0o644 });
                    extra.push(e);
                    want.insert(format!("bin/s{}", i), Want::File { data, exec: true });
                }
                _ => {
                    let gui = ch.chance(300);
                    let body = filler("print", 20 + ch.size(20_000));
                    let mut data = format!("#!python{}{}\n", if gui { "w" } else { "" }, if ch.chance(300) { " -E" } else { "" }).into_bytes();
                    data.extend_from_slice(&body);
                    extra.push(Ent::file(&format!("foo-1.0.data/scripts/s{}", i), &data));
                    want.insert(format!("bin/s{}", i), Want::Sh { tail: body.clone(), gui });
                    want.insert(format!("bin/s{}.exe", i), Want::Exe { main: body });
                }
            }
        }
        if w().ch.chance(500) {
            let ch = &mut w().ch;
            let mut text = String::new();
            for (sec, p) in [("console_scripts", 700), ("gui_scripts", 400), ("pytest11", 300)] {
                if !ch.chance(p) {
                    continue;
                }
                text.push_str(&format!("[{}]\n", sec));
                for k in 0..1 + ch.size(2) {
                    let nm = format!("{}{}", &sec[..3], k);
                    let (m, o) = *ch.pick(&[("pkg.mod", "main"), ("pkg", "run.it"), ("pkg2", "")]);
                    text.push_str(&if o.is_empty() { format!("{} = {}\n", nm, m) } else { format!("{} = {}:{} [x]\n", nm, m, o) });
                    if sec != "pytest11" {
                        want.insert(format!("bin/{}", nm), Want::ShEntry { module: m.into(), object: o.into() });
                        want.insert(format!("bin/{}.exe", nm), Want::ExeEntry { module: m.into(), object: o.into() });
                    }
                }
                text.push('\n');
            }
            extra.push(Ent::file(&format!("{}/entry_points.txt", di), text.as_bytes()));
            want.insert(format!("lib/{}/entry_points.txt", di), Want::File { data: text.into_bytes(), exec: false });
        }
        let k = w().ch.choose(3);
        for e in &mut extra {
            e.deflate = w().ch.chance(500);
        }
        match k {
            0 => ents.extend(extra),
            1 => {
                let at = w().ch.choose(ents.len() + 1);
                for (i, e) in extra.into_iter().enumerate() {
                    ents.insert(at + i, e);
                }
                if explicit {
                    may_refuse = true; // may create a directory before its entry
                }
            }
            _ => {
                extra.append(&mut ents);
                ents = extra;
                if explicit {
                    may_refuse = true;
                }
            }
        }
        with_parents(&mut want);
    } else {
        want = want_raw(&ents);
    }
    let (bytes, spans) = if fmt == Fmt::SdistTar {
        let ch = &mut w().ch;
        let long = *ch.pick(&[LongName::Gnu, LongName::Pax, LongName::Prefix]);
        let t = tar(&ents, long, ch.chance(200), *ch.pick(&[10240, 512]));
        let cuts = if ch.chance(100) {
            // not where a member of the tar archive begins: its absence must be noticeable
            let c = ch.choose(t.len());
            vec![if c % 512 == 0 { c + 1 } else { c }]
        } else {
            vec![]
        };
        let g = gz(&t, &cuts);
        let n = g.len();
        (g, vec![(0, n)])
    } else {
        let ch = &mut w().ch;
        let prefix: &[u8] = if ch.chance(50) { b"#!/usr/bin/env python\n" } else { b"" };
        let comment: &[u8] = if ch.chance(100) { b"a comment" } else { b"" };
        let d = ch.chance(200);
        zip(&ents, prefix, comment, d)
    };
    w().note(format!("archive {:?}, {} bytes", fmt, bytes.len()));
    for e in &ents {
        w().note(format!("  {} {:?} {} bytes mode {:?}", String::from_utf8_lossy(&e.name), e.kind, e.data.len(), e.mode.map(|m| format!("{:o}", m))));
    }
    Made { fmt, bytes, spans, want, optional, may_refuse, odd: false }
}

pub fn unpack(fmt: Fmt, path: &str, dest: &str) -> Result<(), String> {
    let f = Box::new(std::fs::File::open(path).map_err(|e| e.to_string())?);
    let root = std::path::Path::new(dest);
    let mut tree = WriteTreeFS::new(root);
    match fmt {
        Fmt::Wheel => {
            let paths: HashMap<String, NicePathBuf> = HashMap::from([
                ("scripts".into(), "bin".try_into().unwrap()),
                ("purelib".into(), "lib".try_into().unwrap()),
                ("platlib".into(), "lib".try_into().unwrap()),
                ("data".into(), ".".try_into().unwrap()),
            ]);
            let tm = TrampolineMaker::new(FindPython::FromEnv, ScriptPlatform::Both);
            Wheel::new("foo-1.0-py3-none-any.whl".parse().unwrap(), f).and_then(|a| a.unpack(&paths, &tm, tree))
        }
        Fmt::Pybi => Pybi::new("foo-1.0-linux_x86_64.pybi".parse().unwrap(), f).and_then(|a| a.unpack(&mut tree)),
        Fmt::SdistZip => Sdist::new("foo-1.0.zip".parse().unwrap(), f).and_then(|a| a.unpack(&mut tree)),
        Fmt::SdistTar => Sdist::new("foo-1.0.tar.gz".parse().unwrap(), f).and_then(|a| a.unpack(&mut tree)),
    }
    .map_err(|e| errstr(&e))
}

const ARCH: &str = "/work/dl/archive";

#[derive(Clone, Debug, Default)]
struct Done {
    res: Option<Result<(), String>>,
    faults: u64,
}

fn sentinels() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    for p in ["/etc/passwd", "/etc/hosts", "/work/keep", "/work/a/keep", "/work/a/b/keep", "/work/a/b/dest2/keep", "/work/a/b/d/keep", "/home/user/.bashrc", "/keep"] {
        let d = format!("untouched {}", p).into_bytes();
        w().fs.put(p, &d, 0o644);
        v.push((p.to_string(), d));
    }
    v
}
const DEST: &str = "/work/a/b/dest";

fn contained(rep: &mut Rep, sent: &[(String, Vec<u8>)], outside: &Tree, what: &str) {
    let wd = w();
    for m in wd.fs.muts.take().unwrap_or_default() {
        if m.pid != 0 && m.path != DEST && !m.path.starts_with("/work/a/b/dest/") && m.path != "<unlinked>" && !m.path.contains("<detached>") {
            rep.fail("C20", "outside", format!("unpacking {} did {} on {}", what, m.op, m.path));
            return;
        }
    }
    for (p, d) in sent {
        if wd.fs.get(p).as_ref() != Some(d) {
            rep.fail("C20", "outside", format!("unpacking {} changed {}", what, p));
            return;
        }
    }
    let mut now = wd.fs.tree("/");
    now.retain(|k, _| k != "work/a/b/dest" && !k.starts_with("work/a/b/dest/"));
    if &now != outside {
        let d = now.iter().find(|(k, v)| outside.get(*k) != Some(v)).map(|x| x.0.clone()).or_else(|| outside.keys().find(|k| !now.contains_key(*k)).cloned());
        rep.fail("C20", "outside", format!("unpacking {} changed the file system outside its destination: {:?}", what, d));
    }
    // a name that is harmless here may lead outside where posy also runs
    for k in wd.fs.tree(DEST).keys() {
        let bits: Vec<&str> = k.split(['/', '\\']).collect();
        let drive = k.split('/').any(|c| c.as_bytes().get(1) == Some(&b':') && c.as_bytes()[0].is_ascii_alphabetic());
        if bits.iter().any(|b| *b == "..") || drive || k.split('/').any(|c| c.starts_with('\\')) {
            rep.fail("C20", "outside-on-windows", format!("unpacking {} made {:?}, a name that leads outside the destination on Windows", what, k));
            return;
        }
    }
    let l = leaking_links(&wd.fs, DEST);
    if let Some(p) = l.first() {
        let t = wd.fs.tree(DEST);
        rep.fail("C20", "leaking-link", format!("unpacking {} left a link leading outside: {} -> {:?}", what, p, t.get(p)));
    }
}
fn outside() -> Tree {
    let mut t = w().fs.tree("/");
    t.retain(|k, _| k != "work/a/b/dest" && !k.starts_with("work/a/b/dest/"));
    t
}

fn go(fmt: Fmt, dest: &'static str) -> Arc<Mutex<Done>> {
    let d = Arc::new(Mutex::new(Done::default()));
    let d2 = d.clone();
    spawn("unpack", move || {
        let f0 = my_faults();
        let r = unpack(fmt, ARCH, dest);
        if !dead() {
            *d2.lock().unwrap() = Done { res: Some(r), faults: my_faults() - f0 };
        }
    });
    d
}

fn pick_fmt() -> Fmt {
    *w().ch.pick(&[Fmt::Wheel, Fmt::Wheel, Fmt::SdistTar, Fmt::Pybi, Fmt::SdistZip])
}

fn unpack_exact(rep: &mut Rep) {
    let fmt = pick_fmt();
    let m = make(fmt);
    let sent = sentinels();
    w().fs.put(ARCH, &m.bytes, 0o644);
    if w().ch.chance(700) {
        w().fs.mkdir_p(DEST);
    } else {
        w().fs.mkdir_p("/work/a/b");
    }
    let out0 = outside();
    w().fs.muts = Some(vec![]);
    // transfers are split up in any way, and things go wrong
    if w().ch.chance(500) {
        w().f.short = *w().ch.pick(&[100, 400, 900]);
    }
    if w().ch.chance(200) {
        w().f.eintr = *w().ch.pick(&[20, 100]);
    }
    match w().ch.choose(4) {
        0 | 1 => (),
        2 => draw_io(),
        _ => {
            let n = w().ch.size(m.want.len() * 6000);
            w().fs.space_left = Some(n as i64);
        }
    }
    if w().ch.chance(100) {
        // every descriptor allowance is used up at some point
        draw_io();
    }
    let d = go(fmt, DEST);
    let stop = run();
    judge_end(rep, &stop, &["C42"], &["C42"]);
    contained(rep, &sent, &out0, &format!("{:?}", fmt));
    let done = d.lock().unwrap().clone();
    let tree = w().fs.tree(DEST);
    match &done.res {
        Some(Ok(())) => {
            w().probe("unpack_ok");
            if let Some(x) = diff(&tree, &m.want, &m.optional) {
                rep.fail("C21", if done.faults > 0 || any_io_error() { "incomplete-after-fault" } else { "wrong-tree" }, format!("unpacking a {:?} succeeded ({} faults), but {}", fmt, done.faults, x));
            }
        }
        Some(Err(e)) => {
            w().probe("unpack_err");
            if !any_io_error() && !fired("eintr") && !m.may_refuse {
                rep.fail("C21", "refused", format!("unpacking a well-formed {:?} without faults failed: {}", fmt, e));
            }
        }
        None => (),
    }
    // the same again, elsewhere, with nothing in the way
    calm();
    w().f.short = 0;
    w().f.eintr = 0;
    w().fs.remove_tree(DEST);
    w().fs.mkdir_p(DEST);
    if !m.may_refuse {
        let d = go(fmt, DEST);
        let stop = run();
        judge_end(rep, &stop, &["C42"], &["C42"]);
        let done = d.lock().unwrap().clone();
        match &done.res {
            Some(Ok(())) => {
                let tree = w().fs.tree(DEST);
                if let Some(x) = diff(&tree, &m.want, &m.optional) {
                    rep.fail("C21", "wrong-tree", format!("unpacking a {:?} succeeded, but {}", fmt, x));
                }
            }
            Some(Err(e)) => rep.fail("C42", "refused", format!("unpacking a well-formed {:?} without faults failed: {}", fmt, e)),
            None => (),
        }
    }
}

fn unpack_damaged(rep: &mut Rep) {
    let fmt = pick_fmt();
    let mut m = make(fmt);
    let sent = sentinels();
    let what;
    let ch = &mut w().ch;
    let live: Vec<(usize, usize)> = m.spans.iter().copied().filter(|(a, b)| a < b).collect();
    if ch.chance(400) || live.is_empty() {
        let n = ch.choose(m.bytes.len());
        m.bytes.truncate(n);
        what = format!("a {:?} cut to {} bytes", fmt, n);
        w().stat("archive_truncated");
    } else {
        let n = 1 + ch.size(3);
        let mut at = vec![];
        for _ in 0..n {
            let (a, b) = *ch.pick(&live);
            let i = a + ch.choose(b - a);
            let x = 1u8 << ch.choose(8);
            m.bytes[i] ^= x;
            at.push(i);
        }
        what = format!("a {:?} with bits flipped at {:?} of {}", fmt, at, m.bytes.len());
        w().stat("archive_corrupted");
    }
    w().note(what.clone());
    w().fs.put(ARCH, &m.bytes, 0o644);
    w().fs.mkdir_p(DEST);
    let out0 = outside();
    w().fs.muts = Some(vec![]);
    if w().ch.chance(300) {
        w().f.short = *w().ch.pick(&[100, 400, 900]);
    }
    let d = go(fmt, DEST);
    let stop = run();
    judge_end(rep, &stop, &["C21"], &["C21"]);
    contained(rep, &sent, &out0, &what);
    let done = d.lock().unwrap().clone();
    if let Some(Ok(())) = done.res {
        let tree = w().fs.tree(DEST);
        if let Some(x) = diff(&tree, &m.want, &m.optional) {
            rep.fail("C21", "damage-unnoticed", format!("unpacking {} succeeded, but {}", what, x));
        } else {
            w().probe("damage_harmless");
        }
    } else {
        w().probe("damage_noticed");
    }
}

// ---------------------------------------------------------------- attacks

fn evil_name() -> Vec<u8> {
    let ch = &mut w().ch;
    let base = *ch.pick(&["x", "keep", "dest2/keep", "d/x", "l0/x", "l1/keep", "l0", "pkg/l1/x", "pkg", "pkg/l2"]);
    let n = match ch.choose(14) {
        0 | 1 | 2 => base.to_string(),
        3 => format!("../{}", base),
        4 => format!("../../{}", base),
        5 => format!("/work/a/{}", base),
        6 => format!("pkg/../../{}", base),
        7 => format!("l0/../{}", base),
        8 => format!("./../{}", base),
        9 => format!("pkg/{}", base),
        10 => format!("pkg/../{}/../..", base),
        11 => match ch.choose(5) {
            0 => format!("C:\\{}", base),
            1 => format!("pkg/C:{}", base),
            2 => format!("pkg\\..\\..\\{}", base),
            3 => format!("pkg/..\\..\\{}", base),
            _ => format!("..\\{}", base),
        },
        12 => (*ch.pick(&["..", ".", "/", "", "C:\\x", "...", "a\0b", "foo-1.0.data/scripts/../../../x", "foo-1.0.data/data/../../keep", "foo-1.0.data/data", "foo-1.0.dist-info/../../keep", "foo-1.0.data/../../keep", "//etc/passwd", "pkg/..", "foo-1.0.dist-info/INSTALLER"])).to_string(),
        _ => format!("pkg/l1/../../{}", base),
    };
    n.into_bytes()
}
fn evil_target() -> Vec<u8> {
    let ch = &mut w().ch;
    (*ch.pick(&[
        "..", "../..", ".", "../b", "/work/a", "/etc/passwd", "l0", "l1", "pkg", "pkg/l1", "l0/..", "l1/..", "../keep", "pkg/../..", "x/../../..", "./..", "l1/../..", "pkg/l1/..", "../dest", "../pkg", "../../dest/x", "..//..", "", "x\\..\\..", "../l0/..", "../l0/../..", "l2", "../x/../../a",
    ]))
    .as_bytes()
    .to_vec()
}

fn unpack_evil(rep: &mut Rep) {
    let fmt = *w().ch.pick(&[Fmt::Pybi, Fmt::Pybi, Fmt::Wheel, Fmt::SdistZip, Fmt::SdistTar]);
    let n = 1 + w().ch.size(6);
    let mut ents = vec![];
    for i in 0..n {
        let ch = &mut w().ch;
        let e = match ch.choose(10) {
            0..=3 => {
                let mut e = Ent::link(*ch.pick(&["l0", "l1", "pkg/l1", "pkg/l2", "pkg/sub/l3", "l0/l1", "pkg/l1/l4", "l1/l2/l5", "pkg", "bin"]), "");
                e.kind = EKind::Link(evil_target());
                if w().ch.chance(150) {
                    e.name = evil_name();
                }
                e.deflate = false;
                e
            }
            4..=7 => {
                let mut e = Ent::file("", &filler("evil", 20));
                e.name = evil_name();
                e.mode = mode();
                e
            }
            8 => {
                let mut e = Ent::dir("x");
                e.name = evil_name();
                e.name.push(b'/');
                e
            }
            _ => {
                let mut e = Ent::file("", &filler("odd", 10));
                e.name = evil_name();
                e.kind = EKind::Other(*ch.pick(&[b'1', b'3', b'6', b'7', b'Z', b'L', b'K', b'x', b'g', 0]));
                if let EKind::Other(b'L' | b'K') = e.kind {
                    e.data = evil_name();
                    e.data.push(0);
                }
                e
            }
        };
        let _ = i;
        ents.push(e);
    }
    if fmt == Fmt::Wheel {
        // no links there; a wheel has scripts and entry points instead
        ents.retain(|e| !matches!(e.kind, EKind::Link(_)) || w().ch.chance(100));
        let mut ep = String::from("[console_scripts]\n");
        for _ in 0..w().ch.size(3) {
            ep.push_str(&format!("{} = pkg:main\n", String::from_utf8_lossy(&evil_name()).replace('\0', "")));
        }
        let di = "foo-1.0.dist-info";
        ents.push(Ent::file(&format!("{}/WHEEL", di), b"Wheel-Version: 1.0\nRoot-Is-Purelib: true\n"));
        ents.push(Ent::file(&format!("{}/METADATA", di), b"Metadata-Version: 2.1\nName: foo\nVersion: 1.0\n"));
        if w().ch.chance(700) {
            ents.push(Ent::file(&format!("{}/entry_points.txt", di), ep.as_bytes()));
        }
        if w().ch.chance(300) {
            let n = *w().ch.pick(&["x", "../../../keep", "../../x", "../keep"]);
            ents.push(Ent::file(&format!("foo-1.0.data/scripts/{}", n), b"#!python\nevil"));
        }
    }
    for e in &ents {
        w().note(format!("  {:?} {:?}", String::from_utf8_lossy(&e.name), e.kind));
    }
    let bytes = if fmt == Fmt::SdistTar {
        gz(&tar(&ents, *w().ch.pick(&[LongName::Gnu, LongName::Pax]), false, 512), &[])
    } else {
        zip(&ents, b"", b"", false).0
    };
    let sent = sentinels();
    w().fs.put(ARCH, &bytes, 0o644);
    w().fs.mkdir_p(DEST);
    let out0 = outside();
    w().fs.muts = Some(vec![]);
    if w().ch.chance(100) {
        draw_io();
    }
    let d = go(fmt, DEST);
    let stop = run();
    judge_end(rep, &stop, &["C20"], &["C20"]);
    contained(rep, &sent, &out0, &format!("{:?}", fmt));
    let done = d.lock().unwrap().clone();
    w().probe(if matches!(done.res, Some(Ok(()))) { "evil_neutralised" } else { "evil_rejected" });
}
