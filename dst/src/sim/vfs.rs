//! The simulated disk: an in-memory POSIX file system with explicit durability.
//!
//! Contents live in two layers: what processes see, and what a power cut would leave (file
//! data as of the last sync plus any subset of later writes; directory operations as any
//! prefix of their order). Nothing here ever touches the real file system.

use super::choice::Choices;
use libc::*;
use std::collections::BTreeMap;

pub type Ino = usize;
pub type R<T> = Result<T, i32>;

#[derive(Clone, Debug)]
enum Pend {
    Write(usize, Vec<u8>),
    Trunc(usize),
}

#[derive(Clone, Default, Debug)]
pub struct FileData {
    pub cur: Vec<u8>,
    durable: Vec<u8>,
    pend: Vec<Pend>,
}

#[derive(Clone, Debug)]
pub enum Kind {
    File(FileData),
    Dir(BTreeMap<Vec<u8>, Ino>),
    Link(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub kind: Kind,
    pub mode: u32,
    pub nlink: u32,
    pub parent: Ino,
    pub dev: u64,
    pub dead: bool,
    pub mtime: u64,
    snap: Option<BTreeMap<Vec<u8>, Ino>>, // directory contents when the disk was last "formatted"
}

#[derive(Clone, Debug)]
enum Ns {
    Set(Ino, Vec<u8>, Ino),
    Del(Ino, Vec<u8>),
    Ren(Ino, Vec<u8>, Ino, Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Mutation {
    pub pid: usize,
    pub op: &'static str,
    pub path: String,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    File { data: Vec<u8>, exec: bool },
    Dir,
    Link(String),
}
pub type Tree = BTreeMap<String, Node>;

pub struct Vfs {
    pub inodes: Vec<Inode>,
    pub now: u64,
    pub track_power: bool,
    ns: Vec<Ns>,
    ns_committed: usize,
    next_dev: u64,
    pub space_left: Option<i64>,
    pub muts: Option<Vec<Mutation>>,
    pub pid: usize,
    /// counts down changes below a path; then says whose was the last
    /// (below where, how many, renames only)
    pub watch: Option<(String, u64, bool)>,
    pub watch_hit: Option<usize>,
}

pub struct Res {
    pub dir: Ino,
    pub name: Vec<u8>,
    pub ino: Option<Ino>,
    pub trailing_slash: bool,
}

pub const ROOT: Ino = 1;

impl Vfs {
    pub fn new() -> Vfs {
        let dir = |dev| Inode {
            kind: Kind::Dir(BTreeMap::new()),
            mode: 0o755,
            nlink: 2,
            parent: ROOT,
            dev,
            dead: false,
            mtime: 0,
            snap: None,
        };
        Vfs {
            inodes: vec![dir(0), dir(1)],
            now: 0,
            track_power: false,
            ns: vec![],
            ns_committed: 0,
            next_dev: 2,
            space_left: None,
            muts: None,
            watch: None,
            watch_hit: None,
            pid: 0,
        }
    }

    fn alloc(&mut self, kind: Kind, mode: u32, parent: Ino) -> Ino {
        let dev = self.inodes[parent].dev;
        let nlink = if let Kind::Dir(_) = kind { 2 } else { 0 };
        self.inodes.push(Inode {
            kind,
            mode,
            nlink,
            parent,
            dev,
            dead: false,
            mtime: self.now,
            snap: None,
        });
        self.inodes.len() - 1
    }

    pub fn is_dir(&self, i: Ino) -> bool {
        matches!(self.inodes[i].kind, Kind::Dir(_))
    }
    fn ents(&self, i: Ino) -> R<&BTreeMap<Vec<u8>, Ino>> {
        match &self.inodes[i].kind {
            Kind::Dir(d) => Ok(d),
            _ => Err(ENOTDIR),
        }
    }
    fn ents_mut(&mut self, i: Ino) -> &mut BTreeMap<Vec<u8>, Ino> {
        match &mut self.inodes[i].kind {
            Kind::Dir(d) => d,
            _ => unreachable!(),
        }
    }
    fn log_ns(&mut self, op: Ns) {
        if self.track_power {
            self.ns.push(op);
        }
    }
    fn watched(&mut self, op: &str, path: &str) {
        let pid = self.pid;
        if pid == 0 {
            return;
        }
        if let Some((pre, n, renames)) = &mut self.watch {
            if path.starts_with(pre.as_str()) && (!*renames || op == "rename-to") {
                *n -= 1;
                if *n == 0 {
                    self.watch = None;
                    self.watch_hit = Some(pid);
                }
            }
        }
    }
    fn note(&mut self, op: &'static str, dir: Ino, name: &[u8]) {
        if self.watch.is_some() {
            let p = self.path_of(dir);
            self.watched(op, &p);
        }
        if self.muts.is_some() {
            let mut p = self.path_of(dir);
            if !p.ends_with('/') {
                p.push('/');
            }
            p.push_str(&String::from_utf8_lossy(name));
            let pid = self.pid;
            self.muts.as_mut().unwrap().push(Mutation { pid, op, path: p });
        }
    }
    fn note_ino(&mut self, op: &'static str, ino: Ino) {
        if self.watch.is_some() {
            let p = self.find_path(ino);
            self.watched(op, &p);
        }
        if self.muts.is_some() {
            let path = self.find_path(ino);
            let pid = self.pid;
            self.muts.as_mut().unwrap().push(Mutation { pid, op, path });
        }
    }
    fn set(&mut self, dir: Ino, name: &[u8], ino: Ino) {
        let now = self.now;
        self.ents_mut(dir).insert(name.to_vec(), ino);
        self.inodes[dir].mtime = now;
        self.inodes[ino].nlink += 1;
        self.log_ns(Ns::Set(dir, name.to_vec(), ino));
    }
    fn del(&mut self, dir: Ino, name: &[u8]) {
        let now = self.now;
        let ino = self.ents_mut(dir).remove(name).unwrap();
        self.inodes[dir].mtime = now;
        self.inodes[ino].nlink = self.inodes[ino].nlink.saturating_sub(1);
        if self.is_dir(ino) {
            self.inodes[ino].dead = true;
        }
        self.log_ns(Ns::Del(dir, name.to_vec()));
    }

    pub fn path_of(&self, mut dir: Ino) -> String {
        let mut parts = vec![];
        let mut guard = 0;
        while dir != ROOT && guard < 300 {
            guard += 1;
            let p = self.inodes[dir].parent;
            let mut found = None;
            if let Kind::Dir(d) = &self.inodes[p].kind {
                for (n, i) in d {
                    if *i == dir {
                        found = Some(n.clone());
                    }
                }
            }
            match found {
                Some(n) => parts.push(String::from_utf8_lossy(&n).into_owned()),
                None => {
                    parts.push("<detached>".into());
                    break;
                }
            }
            dir = p;
        }
        parts.reverse();
        format!("/{}", parts.join("/"))
    }
    pub fn find_path(&self, ino: Ino) -> String {
        if self.is_dir(ino) {
            return self.path_of(ino);
        }
        for (d, n) in self.inodes.iter().enumerate() {
            if n.dead {
                continue;
            }
            if let Kind::Dir(e) = &n.kind {
                for (name, i) in e {
                    if *i == ino {
                        let p = self.path_of(d);
                        return format!(
                            "{}/{}",
                            p.trim_end_matches('/'),
                            String::from_utf8_lossy(name)
                        );
                    }
                }
            }
        }
        "<unlinked>".into()
    }

    pub fn resolve(&self, cwd: Ino, path: &[u8], follow: bool) -> R<Res> {
        self.resolve_n(cwd, path, follow, 0)
    }

    fn resolve_n(&self, cwd: Ino, path: &[u8], follow: bool, depth: u32) -> R<Res> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        if path.len() >= 4096 {
            return Err(ENAMETOOLONG);
        }
        if depth > 40 {
            return Err(ELOOP);
        }
        let mut cur = if path[0] == b'/' { ROOT } else { cwd };
        let trailing_slash = path.ends_with(b"/");
        let comps: Vec<&[u8]> = path.split(|b| *b == b'/').filter(|c| !c.is_empty()).collect();
        if comps.is_empty() {
            return Ok(Res { dir: cur, name: vec![], ino: Some(cur), trailing_slash });
        }
        for (i, c) in comps.iter().enumerate() {
            let last = i + 1 == comps.len();
            if !self.is_dir(cur) {
                return Err(ENOTDIR);
            }
            if c.len() > 255 {
                return Err(ENAMETOOLONG);
            }
            if *c == b"." {
                if last {
                    return Ok(Res { dir: cur, name: vec![], ino: Some(cur), trailing_slash });
                }
                continue;
            }
            if *c == b".." {
                if self.inodes[cur].dead {
                    return Err(ENOENT);
                }
                cur = self.inodes[cur].parent;
                if last {
                    return Ok(Res { dir: cur, name: vec![], ino: Some(cur), trailing_slash });
                }
                continue;
            }
            let next = self.ents(cur)?.get(*c).copied();
            match next {
                None => {
                    if last {
                        return Ok(Res { dir: cur, name: c.to_vec(), ino: None, trailing_slash });
                    }
                    return Err(ENOENT);
                }
                Some(n) => {
                    if let Kind::Link(t) = &self.inodes[n].kind {
                        if !last || follow || trailing_slash {
                            let mut full = t.clone();
                            if full.is_empty() {
                                return Err(ENOENT);
                            }
                            if !last {
                                full.push(b'/');
                                full.extend(comps[i + 1..].join(&b"/"[..]));
                            }
                            if trailing_slash {
                                full.push(b'/');
                            }
                            return self.resolve_n(cur, &full, follow, depth + 1);
                        }
                    }
                    if last {
                        return Ok(Res {
                            dir: cur,
                            name: c.to_vec(),
                            ino: Some(n),
                            trailing_slash,
                        });
                    }
                    cur = n;
                }
            }
        }
        unreachable!()
    }

    pub fn lookup(&self, cwd: Ino, path: &[u8], follow: bool) -> R<Ino> {
        let r = self.resolve(cwd, path, follow)?;
        let i = r.ino.ok_or(ENOENT)?;
        if r.trailing_slash && !self.is_dir(i) {
            return Err(ENOTDIR);
        }
        Ok(i)
    }

    fn charge(&mut self, bytes: i64) -> R<()> {
        if let Some(s) = &mut self.space_left {
            if *s < bytes {
                return Err(ENOSPC);
            }
            *s -= bytes;
        }
        Ok(())
    }

    pub fn open(&mut self, cwd: Ino, path: &[u8], flags: i32, mode: u32) -> R<Ino> {
        if flags & O_TMPFILE == O_TMPFILE {
            let d = self.lookup(cwd, path, true)?;
            if !self.is_dir(d) {
                return Err(ENOTDIR);
            }
            self.charge(64)?;
            let i = self.alloc(Kind::File(Default::default()), mode & 0o7777 & !0o022, d);
            return Ok(i);
        }
        let excl = flags & O_CREAT != 0 && flags & O_EXCL != 0;
        let follow = !(flags & O_NOFOLLOW != 0 || excl);
        let r = self.resolve(cwd, path, follow)?;
        let acc = flags & O_ACCMODE;
        match r.ino {
            Some(i) => {
                if excl {
                    return Err(EEXIST);
                }
                match &self.inodes[i].kind {
                    Kind::Link(_) => return Err(ELOOP),
                    Kind::Dir(_) => {
                        if acc != O_RDONLY || flags & O_CREAT != 0 {
                            return Err(EISDIR);
                        }
                    }
                    Kind::File(_) => {
                        if flags & O_DIRECTORY != 0 || r.trailing_slash {
                            return Err(ENOTDIR);
                        }
                        if flags & O_TRUNC != 0 && acc != O_RDONLY {
                            self.truncate(i, 0)?;
                        }
                    }
                }
                Ok(i)
            }
            None => {
                if flags & O_CREAT == 0 {
                    return Err(ENOENT);
                }
                if r.trailing_slash {
                    return Err(EISDIR);
                }
                if r.name.is_empty() {
                    return Err(EISDIR);
                }
                if self.inodes[r.dir].dead {
                    return Err(ENOENT);
                }
                self.charge(64)?;
                let i =
                    self.alloc(Kind::File(Default::default()), mode & 0o7777 & !0o022, r.dir);
                self.note("create", r.dir, &r.name);
                self.set(r.dir, &r.name, i);
                Ok(i)
            }
        }
    }

    pub fn mkdir(&mut self, cwd: Ino, path: &[u8], mode: u32) -> R<()> {
        let r = self.resolve(cwd, path, false)?;
        if r.ino.is_some() {
            return Err(EEXIST);
        }
        if self.inodes[r.dir].dead {
            return Err(ENOENT);
        }
        self.charge(64)?;
        let i = self.alloc(Kind::Dir(BTreeMap::new()), mode & 0o7777 & !0o022, r.dir);
        self.note("mkdir", r.dir, &r.name);
        self.set(r.dir, &r.name, i);
        Ok(())
    }

    pub fn rmdir(&mut self, cwd: Ino, path: &[u8]) -> R<()> {
        let r = self.resolve(cwd, path, false)?;
        let i = r.ino.ok_or(ENOENT)?;
        if !self.is_dir(i) {
            return Err(ENOTDIR);
        }
        if r.name.is_empty() {
            return Err(EBUSY);
        }
        if !self.ents(i)?.is_empty() {
            return Err(ENOTEMPTY);
        }
        self.note("rmdir", r.dir, &r.name);
        self.del(r.dir, &r.name);
        Ok(())
    }

    pub fn unlink(&mut self, cwd: Ino, path: &[u8]) -> R<()> {
        let r = self.resolve(cwd, path, false)?;
        let i = r.ino.ok_or(ENOENT)?;
        if self.is_dir(i) {
            return Err(EISDIR);
        }
        if r.trailing_slash {
            return Err(ENOTDIR);
        }
        self.note("unlink", r.dir, &r.name);
        self.del(r.dir, &r.name);
        Ok(())
    }

    fn is_ancestor(&self, a: Ino, mut b: Ino) -> bool {
        for _ in 0..500 {
            if a == b {
                return true;
            }
            if b == ROOT {
                return false;
            }
            b = self.inodes[b].parent;
        }
        false
    }

    pub fn rename(&mut self, c1: Ino, p1: &[u8], c2: Ino, p2: &[u8], noreplace: bool) -> R<()> {
        let a = self.resolve(c1, p1, false)?;
        let b = self.resolve(c2, p2, false)?;
        let ai = a.ino.ok_or(ENOENT)?;
        if a.name.is_empty() || b.name.is_empty() {
            return Err(EBUSY);
        }
        if self.inodes[b.dir].dead {
            return Err(ENOENT);
        }
        if self.inodes[a.dir].dev != self.inodes[b.dir].dev
            || self.inodes[ai].dev != self.inodes[b.dir].dev
        {
            return Err(EXDEV);
        }
        if a.trailing_slash && !self.is_dir(ai) {
            return Err(ENOTDIR);
        }
        if self.is_dir(ai) && self.is_ancestor(ai, b.dir) {
            return Err(EINVAL);
        }
        if let Some(bi) = b.ino {
            if noreplace {
                return Err(EEXIST);
            }
            if bi == ai {
                return Ok(());
            }
            if self.is_dir(ai) {
                if !self.is_dir(bi) {
                    return Err(ENOTDIR);
                }
                if !self.ents(bi)?.is_empty() {
                    return Err(ENOTEMPTY);
                }
            } else if self.is_dir(bi) {
                return Err(EISDIR);
            }
            self.inodes[bi].nlink = self.inodes[bi].nlink.saturating_sub(1);
            if self.is_dir(bi) {
                self.inodes[bi].dead = true;
            }
        } else if b.trailing_slash && !self.is_dir(ai) {
            return Err(ENOENT);
        }
        self.note("rename-from", a.dir, &a.name);
        self.note("rename-to", b.dir, &b.name);
        self.ents_mut(a.dir).remove(&a.name);
        self.ents_mut(b.dir).insert(b.name.clone(), ai);
        if self.is_dir(ai) {
            self.inodes[ai].parent = b.dir;
        }
        let now = self.now;
        self.inodes[a.dir].mtime = now;
        self.inodes[b.dir].mtime = now;
        self.log_ns(Ns::Ren(a.dir, a.name, b.dir, b.name));
        Ok(())
    }

    pub fn symlink(&mut self, target: &[u8], cwd: Ino, path: &[u8]) -> R<()> {
        if target.is_empty() {
            return Err(ENOENT);
        }
        let r = self.resolve(cwd, path, false)?;
        if r.ino.is_some() {
            return Err(EEXIST);
        }
        if self.inodes[r.dir].dead || r.trailing_slash {
            return Err(ENOENT);
        }
        self.charge(64)?;
        let i = self.alloc(Kind::Link(target.to_vec()), 0o777, r.dir);
        self.note("symlink", r.dir, &r.name);
        self.set(r.dir, &r.name, i);
        Ok(())
    }

    pub fn link(&mut self, c1: Ino, p1: &[u8], c2: Ino, p2: &[u8], follow: bool) -> R<()> {
        let ai = self.lookup(c1, p1, follow)?;
        let b = self.resolve(c2, p2, false)?;
        if self.is_dir(ai) {
            return Err(EPERM);
        }
        if b.ino.is_some() {
            return Err(EEXIST);
        }
        if self.inodes[ai].dev != self.inodes[b.dir].dev {
            return Err(EXDEV);
        }
        if self.inodes[b.dir].dead {
            return Err(ENOENT);
        }
        self.charge(64)?;
        self.note("link", b.dir, &b.name);
        self.set(b.dir, &b.name, ai);
        Ok(())
    }

    pub fn size(&self, i: Ino) -> u64 {
        match &self.inodes[i].kind {
            Kind::File(f) => f.cur.len() as u64,
            Kind::Dir(_) => 4096,
            Kind::Link(t) => t.len() as u64,
        }
    }

    pub fn read_at(&self, i: Ino, off: u64, buf: &mut [u8]) -> R<usize> {
        match &self.inodes[i].kind {
            Kind::File(f) => {
                let off = (off as usize).min(f.cur.len());
                let n = buf.len().min(f.cur.len() - off);
                buf[..n].copy_from_slice(&f.cur[off..off + n]);
                Ok(n)
            }
            Kind::Dir(_) => Err(EISDIR),
            Kind::Link(_) => Err(EINVAL),
        }
    }

    pub fn write_at(&mut self, i: Ino, off: u64, data: &[u8]) -> R<usize> {
        let size = self.size(i) as i64;
        let end = off as i64 + data.len() as i64;
        let mut n = data.len();
        let grow = (end - size).max(0);
        if let Some(s) = self.space_left {
            if grow > s {
                let keep = data.len() as i64 - (grow - s.max(0));
                if keep <= 0 {
                    return Err(ENOSPC);
                }
                n = keep as usize;
            }
        }
        let end = off as usize + n;
        let grow = (end as i64 - size).max(0);
        self.charge(grow)?;
        self.note_ino("write", i);
        let track = self.track_power;
        let now = self.now;
        self.inodes[i].mtime = now;
        match &mut self.inodes[i].kind {
            Kind::File(f) => {
                if f.cur.len() < end {
                    f.cur.resize(end, 0);
                }
                f.cur[off as usize..end].copy_from_slice(&data[..n]);
                if track {
                    f.pend.push(Pend::Write(off as usize, data[..n].to_vec()));
                }
                Ok(n)
            }
            _ => Err(EINVAL),
        }
    }

    pub fn truncate(&mut self, i: Ino, len: u64) -> R<()> {
        let grow = len as i64 - self.size(i) as i64;
        if grow > (1 << 30) {
            return Err(EFBIG);
        }
        self.charge(grow.max(0))?;
        self.note_ino("truncate", i);
        let track = self.track_power;
        match &mut self.inodes[i].kind {
            Kind::File(f) => {
                f.cur.resize(len as usize, 0);
                if track {
                    f.pend.push(Pend::Trunc(len as usize));
                }
                Ok(())
            }
            _ => Err(EINVAL),
        }
    }

    pub fn chmod(&mut self, i: Ino, mode: u32) {
        self.note_ino("chmod", i);
        self.inodes[i].mode = mode & 0o7777;
    }

    /// File sync: data becomes durable. Directory sync: all directory operations so far do.
    pub fn sync(&mut self, i: Ino) {
        match &mut self.inodes[i].kind {
            Kind::File(f) => {
                if self.track_power {
                    f.durable = f.cur.clone();
                    f.pend.clear();
                }
            }
            Kind::Dir(_) => self.ns_committed = self.ns.len(),
            _ => (),
        }
    }

    pub fn sync_all(&mut self) {
        for n in self.inodes.iter_mut() {
            if let Kind::File(f) = &mut n.kind {
                f.durable = f.cur.clone();
                f.pend.clear();
            }
        }
        self.ns_committed = self.ns.len();
    }

    pub fn statbuf(&self, i: Ino) -> (u32, u64, u32, u64, u64, u64) {
        let n = &self.inodes[i];
        let t = match n.kind {
            Kind::File(_) => S_IFREG,
            Kind::Dir(_) => S_IFDIR,
            Kind::Link(_) => S_IFLNK,
        };
        (t | n.mode, self.size(i), n.nlink, i as u64, n.dev, n.mtime)
    }

    // ---- power ----

    /// From here on, everything present is durable and later changes are tracked.
    pub fn start_power_tracking(&mut self) {
        self.track_power = true;
        self.ns.clear();
        self.ns_committed = 0;
        for n in self.inodes.iter_mut() {
            match &mut n.kind {
                Kind::File(f) => {
                    f.durable = f.cur.clone();
                    f.pend.clear();
                }
                Kind::Dir(d) => n.snap = Some(d.clone()),
                _ => (),
            }
        }
    }

    /// What the disk holds after the power fails now. Returns (directory ops lost, files damaged).
    pub fn power_cycle(&mut self, ch: &mut Choices) -> (usize, usize) {
        let total = self.ns.len();
        let open = total - self.ns_committed;
        // draw 0 = nothing lost
        let lost = if open == 0 || ch.chance(400) { 0 } else { ch.choose(open + 1) };
        let keep = total - lost;
        let ns = std::mem::take(&mut self.ns);
        for n in self.inodes.iter_mut() {
            if let Kind::Dir(d) = &mut n.kind {
                *d = n.snap.clone().unwrap_or_default();
                n.dead = false;
            }
        }
        for op in &ns[..keep] {
            match op {
                Ns::Set(d, n, i) => {
                    self.ents_mut(*d).insert(n.clone(), *i);
                    if self.is_dir(*i) {
                        self.inodes[*i].parent = *d;
                    }
                }
                Ns::Del(d, n) => {
                    self.ents_mut(*d).remove(n);
                }
                Ns::Ren(a, an, b, bn) => {
                    if let Some(i) = self.ents_mut(*a).remove(an) {
                        self.ents_mut(*b).insert(bn.clone(), i);
                        if self.is_dir(i) {
                            self.inodes[i].parent = *b;
                        }
                    }
                }
            }
        }
        let mut damaged = 0;
        let live = self.reachable();
        let mode = ch.choose(4);
        for i in live {
            if let Kind::File(f) = &mut self.inodes[i].kind {
                if !f.pend.is_empty() {
                    let mut d = f.durable.clone();
                    match mode {
                        0 => d = f.cur.clone(), // everything happened to reach the disk
                        1 => (),                // nothing unsynced did
                        2 => d.resize(f.cur.len(), 0), // size reached the disk, data did not
                        _ => {
                            for p in &f.pend {
                                match p {
                                    Pend::Write(off, data) => {
                                        let n = match ch.choose(3) {
                                            0 => data.len(),
                                            1 => 0,
                                            _ => ch.choose(data.len() + 1),
                                        };
                                        if n > 0 {
                                            if d.len() < off + n {
                                                d.resize(off + n, 0);
                                            }
                                            d[*off..off + n].copy_from_slice(&data[..n]);
                                        }
                                    }
                                    Pend::Trunc(l) => {
                                        if ch.choose(2) == 0 {
                                            d.resize(*l, 0)
                                        }
                                    }
                                }
                            }
                        }
                    }
                    if d != f.cur {
                        damaged += 1;
                    }
                    f.cur = d;
                }
            }
        }
        self.start_power_tracking();
        (lost, damaged)
    }

    fn reachable(&self) -> Vec<Ino> {
        let mut out = std::collections::BTreeSet::new();
        let mut stack = vec![ROOT];
        while let Some(d) = stack.pop() {
            if !out.insert(d) {
                continue;
            }
            if let Kind::Dir(e) = &self.inodes[d].kind {
                stack.extend(e.values().copied());
            }
        }
        out.into_iter().collect()
    }

    // ---- controller-side conveniences (no faults, no scheduling) ----

    pub fn mkdir_p(&mut self, path: &str) -> Ino {
        let mut cur = ROOT;
        for c in path.split('/').filter(|c| !c.is_empty()) {
            let next = self.ents(cur).unwrap().get(c.as_bytes()).copied();
            cur = match next {
                Some(n) => n,
                None => {
                    let i = self.alloc(Kind::Dir(BTreeMap::new()), 0o755, cur);
                    self.set(cur, c.as_bytes(), i);
                    i
                }
            };
        }
        cur
    }
    /// A directory on a file system of its own (renames across fail with EXDEV).
    pub fn mount(&mut self, path: &str) {
        let i = self.mkdir_p(path);
        self.inodes[i].dev = self.next_dev;
        self.next_dev += 1;
    }
    pub fn put(&mut self, path: &str, data: &[u8], mode: u32) {
        let (d, n) = path.rsplit_once('/').unwrap();
        let dir = self.mkdir_p(d);
        if let Some(i) = self.ents(dir).unwrap().get(n.as_bytes()).copied() {
            if let Kind::File(f) = &mut self.inodes[i].kind {
                f.cur = data.to_vec();
                return;
            }
        }
        let mut fd = FileData::default();
        fd.cur = data.to_vec();
        let i = self.alloc(Kind::File(fd), mode, dir);
        self.set(dir, n.as_bytes(), i);
    }
    pub fn put_link(&mut self, path: &str, target: &str) {
        let (d, _) = path.rsplit_once('/').unwrap();
        self.mkdir_p(d);
        self.symlink(target.as_bytes(), ROOT, path.as_bytes()).unwrap();
    }
    pub fn get(&self, path: &str) -> Option<Vec<u8>> {
        let i = self.lookup(ROOT, path.as_bytes(), true).ok()?;
        match &self.inodes[i].kind {
            Kind::File(f) => Some(f.cur.clone()),
            _ => None,
        }
    }
    pub fn exists(&self, path: &str) -> bool {
        self.lookup(ROOT, path.as_bytes(), false).is_ok()
    }
    pub fn list(&self, path: &str) -> Vec<String> {
        match self.lookup(ROOT, path.as_bytes(), true) {
            Ok(i) => match &self.inodes[i].kind {
                Kind::Dir(d) => {
                    d.keys().map(|k| String::from_utf8_lossy(k).into_owned()).collect()
                }
                _ => vec![],
            },
            Err(_) => vec![],
        }
    }
    /// Everything below `path`, by relative path.
    pub fn tree(&self, path: &str) -> Tree {
        let mut out = Tree::new();
        if let Ok(i) = self.lookup(ROOT, path.as_bytes(), true) {
            self.tree_into(i, "", &mut out);
        }
        out
    }
    fn tree_into(&self, i: Ino, prefix: &str, out: &mut Tree) {
        if let Kind::Dir(d) = &self.inodes[i].kind {
            for (n, c) in d {
                let p = if prefix.is_empty() {
                    String::from_utf8_lossy(n).into_owned()
                } else {
                    format!("{}/{}", prefix, String::from_utf8_lossy(n))
                };
                match &self.inodes[*c].kind {
                    Kind::File(f) => {
                        out.insert(
                            p,
                            Node::File {
                                data: f.cur.clone(),
                                exec: self.inodes[*c].mode & 0o111 != 0,
                            },
                        );
                    }
                    Kind::Dir(_) => {
                        out.insert(p.clone(), Node::Dir);
                        self.tree_into(*c, &p, out);
                    }
                    Kind::Link(t) => {
                        out.insert(p, Node::Link(String::from_utf8_lossy(t).into_owned()));
                    }
                }
            }
        }
    }
    pub fn dir_entries(&self, i: Ino) -> R<Vec<(Vec<u8>, Ino)>> {
        Ok(self.ents(i)?.iter().map(|(a, b)| (a.clone(), *b)).collect())
    }
    pub fn remove_tree(&mut self, path: &str) {
        if let Ok(r) = self.resolve(ROOT, path.as_bytes(), false) {
            if r.ino.is_some() && !r.name.is_empty() {
                self.del(r.dir, &r.name.clone());
            }
        }
    }
}
