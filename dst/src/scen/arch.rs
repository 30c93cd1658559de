//! Builders for zip and tar.gz archives (well-formed and otherwise), independent of the crates
//! the code under test reads them with.

use crate::sim::vfs::Vfs;
use crate::sim::*;
use std::io::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum EKind {
    File,
    Dir,
    Link(Vec<u8>),
    /// any other tar entry type
    Other(u8),
    /// GNU sparse file: what is stored, of `data`, at these ranges
    Sparse(Vec<(usize, usize)>),
}
#[derive(Clone, Debug)]
pub struct Ent {
    pub name: Vec<u8>,
    pub kind: EKind,
    pub data: Vec<u8>,
    /// permission bits; None: the archive does not say
    pub mode: Option<u32>,
    pub deflate: bool,
}
impl Ent {
    pub fn file(name: &str, data: &[u8]) -> Ent {
        Ent { name: name.into(), kind: EKind::File, data: data.to_vec(), mode: Some(0o644), deflate: true }
    }
    pub fn dir(name: &str) -> Ent {
        let n = if name.ends_with('/') { name.to_string() } else { format!("{}/", name) };
        Ent { name: n.into(), kind: EKind::Dir, data: vec![], mode: Some(0o755), deflate: false }
    }
    pub fn link(name: &str, target: &str) -> Ent {
        Ent { name: name.into(), kind: EKind::Link(target.into()), data: vec![], mode: Some(0o777), deflate: false }
    }
    pub fn exec(mut self) -> Ent {
        self.mode = Some(0o755);
        self
    }
}

pub fn crc(b: &[u8]) -> u32 {
    let mut c = flate2::Crc::new();
    c.update(b);
    c.sum()
}
pub fn deflate(b: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::fast());
    e.write_all(b).unwrap();
    e.finish().unwrap()
}

/// The archive, and the byte ranges that hold members' contents.
pub fn zip(ents: &[Ent], prefix: &[u8], comment: &[u8], descriptors: bool) -> (Vec<u8>, Vec<(usize, usize)>) {
    let mut out = prefix.to_vec();
    let mut cd = vec![];
    let mut spans = vec![];
    for e in ents {
        let content: &[u8] = match &e.kind {
            EKind::Link(t) => t,
            _ => &e.data,
        };
        let (method, stored) = if e.deflate && !content.is_empty() { (8u16, deflate(content)) } else { (0u16, content.to_vec()) };
        let c = crc(content);
        let utf8 = if e.name.is_ascii() { 0u16 } else { 0x800 };
        // (a descriptor needs a method that says by itself where it ends)
        let desc = descriptors && method == 8;
        let flags = utf8 | if desc { 8 } else { 0 };
        let off = (out.len() - prefix.len()) as u32;
        let p16 = |v: &mut Vec<u8>, x: u16| v.extend_from_slice(&x.to_le_bytes());
        let p32 = |v: &mut Vec<u8>, x: u32| v.extend_from_slice(&x.to_le_bytes());
        p32(&mut out, 0x04034b50);
        p16(&mut out, 20);
        p16(&mut out, flags);
        p16(&mut out, method);
        p16(&mut out, 0x6000);
        p16(&mut out, 0x5421);
        p32(&mut out, if desc { 0 } else { c });
        p32(&mut out, if desc { 0 } else { stored.len() as u32 });
        p32(&mut out, if desc { 0 } else { content.len() as u32 });
        p16(&mut out, e.name.len() as u16);
        p16(&mut out, 0);
        out.extend_from_slice(&e.name);
        spans.push((out.len(), out.len() + stored.len()));
        out.extend_from_slice(&stored);
        if desc {
            p32(&mut out, 0x08074b50);
            p32(&mut out, c);
            p32(&mut out, stored.len() as u32);
            p32(&mut out, content.len() as u32);
        }
        let typ = match e.kind {
            EKind::File | EKind::Sparse(_) => 0o100000,
            EKind::Dir => 0o040000,
            EKind::Link(_) => 0o120000,
            EKind::Other(_) => 0o060000,
        };
        p32(&mut cd, 0x02014b50);
        p16(&mut cd, if e.mode.is_some() { 0x0314 } else { 0x0014 });
        p16(&mut cd, 20);
        p16(&mut cd, flags);
        p16(&mut cd, method);
        p16(&mut cd, 0x6000);
        p16(&mut cd, 0x5421);
        p32(&mut cd, c);
        p32(&mut cd, stored.len() as u32);
        p32(&mut cd, content.len() as u32);
        p16(&mut cd, e.name.len() as u16);
        p16(&mut cd, 0);
        p16(&mut cd, 0);
        p16(&mut cd, 0);
        p16(&mut cd, 0);
        let dosdir = if e.kind == EKind::Dir { 0x10 } else { 0 };
        p32(&mut cd, e.mode.map_or(dosdir, |m| ((typ | m) << 16) | dosdir));
        p32(&mut cd, off);
        cd.extend_from_slice(&e.name);
    }
    let cd_off = (out.len() - prefix.len()) as u32;
    out.extend_from_slice(&cd);
    let mut t = vec![];
    t.extend_from_slice(&0x06054b50u32.to_le_bytes());
    t.extend_from_slice(&[0; 4]);
    t.extend_from_slice(&(ents.len() as u16).to_le_bytes());
    t.extend_from_slice(&(ents.len() as u16).to_le_bytes());
    t.extend_from_slice(&(cd.len() as u32).to_le_bytes());
    t.extend_from_slice(&cd_off.to_le_bytes());
    t.extend_from_slice(&(comment.len() as u16).to_le_bytes());
    t.extend_from_slice(comment);
    out.extend_from_slice(&t);
    (out, spans)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LongName {
    Gnu,
    Pax,
    Prefix,
}

fn tar_header(name: &[u8], typ: u8, mode: u32, size: usize, link: &[u8], gnu: bool) -> [u8; 512] {
    let mut h = [0u8; 512];
    let n = name.len().min(100);
    h[..n].copy_from_slice(&name[..n]);
    let oct = |h: &mut [u8; 512], at: usize, len: usize, v: u64| {
        let s = format!("{:0w$o}", v, w = len - 1);
        h[at..at + len - 1].copy_from_slice(s.as_bytes());
    };
    oct(&mut h, 100, 8, mode as u64);
    oct(&mut h, 108, 8, 1000);
    oct(&mut h, 116, 8, 1000);
    oct(&mut h, 124, 12, size as u64);
    oct(&mut h, 136, 12, 0o14000000000);
    h[156] = typ;
    let n = link.len().min(100);
    h[157..157 + n].copy_from_slice(&link[..n]);
    if gnu {
        h[257..265].copy_from_slice(b"ustar  \0");
    } else {
        h[257..263].copy_from_slice(b"ustar\0");
        h[263..265].copy_from_slice(b"00");
    }
    h
}
fn tar_seal(h: &mut [u8; 512]) {
    h[148..156].copy_from_slice(b"        ");
    let s: u64 = h.iter().map(|b| *b as u64).sum();
    let t = format!("{:06o}\0 ", s);
    h[148..156].copy_from_slice(t.as_bytes());
}
fn pad(out: &mut Vec<u8>) {
    while out.len() % 512 != 0 {
        out.push(0);
    }
}
fn pax_record(k: &str, v: &[u8]) -> Vec<u8> {
    let mut n = k.len() + v.len() + 3;
    loop {
        let m = n.to_string().len() + k.len() + v.len() + 3;
        if m == n {
            break;
        }
        n = m;
    }
    let mut r = format!("{} {}=", n, k).into_bytes();
    r.extend_from_slice(v);
    r.push(b'\n');
    r
}

pub fn tar(ents: &[Ent], long: LongName, global: bool, blocking: usize) -> Vec<u8> {
    let mut out = vec![];
    if global {
        let rec = pax_record("comment", b"0123456789abcdef");
        let mut h = tar_header(b"pax_global_header", b'g', 0o644, rec.len(), b"", false);
        tar_seal(&mut h);
        out.extend_from_slice(&h);
        out.extend_from_slice(&rec);
        pad(&mut out);
    }
    for e in ents {
        let mut name = e.name.clone();
        let mut prefix: Vec<u8> = vec![];
        let link: Vec<u8> = if let EKind::Link(t) = &e.kind { t.clone() } else { vec![] };
        if name.len() > 100 {
            let mut how = long;
            if how == LongName::Prefix {
                // splits at a slash, when one is in the right place
                let at = (name.len() - 101..name.len().min(155)).find(|i| name[*i] == b'/' && name.len() - i - 1 <= 100 && *i + 1 < name.len());
                match at {
                    Some(i) if !matches!(e.kind, EKind::Sparse(_)) => {
                        prefix = name[..i].to_vec();
                        name = name[i + 1..].to_vec();
                    }
                    _ => how = LongName::Gnu,
                }
            }
            match how {
                LongName::Gnu => {
                    let mut d = name.clone();
                    d.push(0);
                    let mut h = tar_header(b"././@LongLink", b'L', 0o644, d.len(), b"", true);
                    tar_seal(&mut h);
                    out.extend_from_slice(&h);
                    out.extend_from_slice(&d);
                    pad(&mut out);
                }
                LongName::Pax => {
                    let rec = pax_record("path", &name);
                    let mut h = tar_header(b"PaxHeaders/x", b'x', 0o644, rec.len(), b"", false);
                    tar_seal(&mut h);
                    out.extend_from_slice(&h);
                    out.extend_from_slice(&rec);
                    pad(&mut out);
                }
                LongName::Prefix => (),
            }
        }
        let mode = e.mode.unwrap_or(0o644);
        match &e.kind {
            EKind::Sparse(parts) => {
                let stored: usize = parts.iter().map(|(a, b)| b - a).sum();
                let mut h = tar_header(&name, b'S', mode, stored, b"", true);
                for (i, (a, b)) in parts.iter().enumerate().take(4) {
                    let at = 386 + i * 24;
                    h[at..at + 11].copy_from_slice(format!("{:011o}", a).as_bytes());
                    h[at + 12..at + 23].copy_from_slice(format!("{:011o}", b - a).as_bytes());
                }
                h[483..494].copy_from_slice(format!("{:011o}", e.data.len()).as_bytes());
                tar_seal(&mut h);
                out.extend_from_slice(&h);
                for (a, b) in parts {
                    out.extend_from_slice(&e.data[*a..*b]);
                }
                pad(&mut out);
            }
            _ => {
                let typ = match &e.kind {
                    EKind::File => b'0',
                    EKind::Dir => b'5',
                    EKind::Link(_) => b'2',
                    EKind::Other(t) => *t,
                    EKind::Sparse(_) => unreachable!(),
                };
                let mut h = tar_header(&name, typ, mode, e.data.len(), &link, false);
                h[345..345 + prefix.len()].copy_from_slice(&prefix);
                tar_seal(&mut h);
                out.extend_from_slice(&h);
                out.extend_from_slice(&e.data);
                pad(&mut out);
            }
        }
    }
    out.extend_from_slice(&[0; 1024]);
    while out.len() % blocking != 0 {
        out.push(0);
    }
    out
}

/// gzip, in one member or several (cut at the given places).
pub fn gz(data: &[u8], cuts: &[usize]) -> Vec<u8> {
    let mut out = vec![];
    let mut at = 0;
    for c in cuts.iter().chain([&data.len()]) {
        let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
        e.write_all(&data[at..*c]).unwrap();
        out.extend_from_slice(&e.finish().unwrap());
        at = *c;
    }
    out
}

/// A path without `.`, `..` and doubled slashes; None if it leaves the root.
pub fn normal(name: &str) -> Option<String> {
    if name.starts_with('/') {
        return None;
    }
    let mut v: Vec<&str> = vec![];
    for p in name.split('/') {
        match p {
            "" | "." => (),
            ".." => {
                v.pop()?;
            }
            x => v.push(x),
        }
    }
    Some(v.join("/"))
}

/// Symbolic links below `root` whose target, followed as far as it goes, leaves `root`.
pub fn leaking_links(fs: &Vfs, root: &str) -> Vec<String> {
    let tree = fs.tree(root);
    let mut bad = vec![];
    for (p, n) in &tree {
        if let Node::Link(_) = n {
            let start: Vec<String> = p.split('/').map(|s| s.to_string()).collect();
            if leaves(&tree, start) {
                bad.push(p.clone());
            }
        }
    }
    bad
}
fn leaves(tree: &Tree, path: Vec<String>) -> bool {
    let mut todo: Vec<String> = path;
    todo.reverse();
    let mut at: Vec<String> = vec![];
    let mut hops = 0;
    while let Some(c) = todo.pop() {
        match c.as_str() {
            "" | "." => continue,
            ".." => {
                if at.pop().is_none() {
                    return true;
                }
                continue;
            }
            _ => (),
        }
        let mut here = at.clone();
        here.push(c.clone());
        if let Some(Node::Link(t)) = tree.get(&here.join("/")) {
            hops += 1;
            if hops > 60 {
                return false; // a cycle: leads nowhere
            }
            if t.starts_with('/') {
                return true;
            }
            for x in t.split('/').rev() {
                todo.push(x.to_string());
            }
        } else {
            at = here;
        }
    }
    false
}
