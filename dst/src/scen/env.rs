//! Environments: whole, shared, undisturbed, and made of exactly what was pinned.

use super::arch::*;
use super::resolve::{with_db, Ask, CompatOf, Res, PLAT};
use super::uni::*;
use super::unpack::{diff, want_raw, Want, Wants};
use super::util::*;
use crate::runner::{Rep, Scen};
use crate::sim::*;
use posy::sim_api::{Blueprint, PybiPlatform};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "env", props: &["C22", "C23", "C42"], weight: 5, f: env_plain },
        Scen { name: "env_faults", props: &["C22", "C42", "C23"], weight: 8, f: env_faults },
        Scen { name: "env_later", props: &["C23", "C22", "C10"], weight: 8, f: env_later },
    ]
}

// ---------------------------------------------------------------- what an install looks like

pub fn want_wheel(a: &Art, name: &str, v: &Vn) -> (Wants, Vec<String>) {
    let esc = norm(name).replace('-', "_");
    let data = format!("{}-{}.data/", esc, v.s);
    let mut plain = vec![];
    let mut want = Wants::new();
    for e in &a.ents {
        let n = String::from_utf8_lossy(&e.name).to_string();
        match n.strip_prefix(&data) {
            None => plain.push(e.clone()),
            Some(rest) => {
                let (cat, rest) = rest.split_once('/').unwrap();
                match cat {
                    "data" => {
                        want.insert(rest.to_string(), Want::File { data: e.data.clone(), exec: e.mode.map_or(false, |m| m & 0o100 != 0) });
                    }
                    "purelib" | "platlib" => {
                        want.insert(format!("lib/{}", rest), Want::File { data: e.data.clone(), exec: e.mode.map_or(false, |m| m & 0o100 != 0) });
                    }
                    _ => {
                        want.insert(format!("bin/{}", rest), Want::File { data: e.data.clone(), exec: true });
                    }
                }
            }
        }
        if n.ends_with(".dist-info/entry_points.txt") {
            let t = String::from_utf8_lossy(&e.data).to_string();
            for l in t.lines() {
                if let Some((k, mo)) = l.split_once(" = ") {
                    let (m, o) = mo.split_once(':').unwrap();
                    want.insert(format!("bin/{}", k), Want::ShEntry { module: m.into(), object: o.into() });
                    want.insert(format!("bin/{}.exe", k), Want::ExeEntry { module: m.into(), object: o.into() });
                }
            }
        }
    }
    for (k, x) in want_raw(&plain) {
        want.insert(format!("lib/{}", k), x);
    }
    let keys: Vec<String> = want.keys().cloned().collect();
    for k in keys {
        let mut p = k.as_str();
        while let Some((d, _)) = p.rsplit_once('/') {
            want.entry(d.to_string()).or_insert(Want::Dir);
            p = d;
        }
    }
    (want, vec![format!("lib/{}/INSTALLER", dist_info(name, v)), "bin".into(), "lib".into()])
}

/// None: as it should be
pub fn diff_pybi(tree: &Tree, a: &Art) -> Option<String> {
    let mut want = want_raw(&a.ents);
    let site = format!("{}/site.py", STDLIB);
    if let Some(Want::File { data, .. }) = want.get_mut(&site) {
        *data = String::from_utf8_lossy(data).replace("ENABLE_USER_SITE = None", "ENABLE_USER_SITE = False").into_bytes();
    }
    let ext = format!("{}/EXTERNALLY-MANAGED", STDLIB);
    let cust = format!("{}/sitecustomize.py", PURELIB);
    for (p, has) in [(&ext, "[externally-managed]"), (&cust, "POSY_PYTHON_PACKAGES")] {
        match tree.get(p.as_str()) {
            Some(Node::File { data, .. }) if String::from_utf8_lossy(data).contains(has) => (),
            _ => return Some(format!("{} is missing or not what it should be", p)),
        }
    }
    diff(tree, &want, &[ext, cust])
}

// ---------------------------------------------------------------- the model

pub fn score(py: &Rel, plat: &str, tag: &str) -> Option<(i64, i64)> {
    let pp = PybiPlatform::new(plat);
    let mut best = None;
    for (i, t) in py.wheel_tags.iter().enumerate() {
        let s = match t.strip_suffix("PLATFORM") {
            Some(pre) => match tag.strip_prefix(pre) {
                Some(p) => pp.compatibility_of(p).map(|c| (-(i as i64), c as i64)),
                None => None,
            },
            None => (t == tag).then_some((-(i as i64), 0)),
        };
        best = best.max(s);
    }
    best
}

/// The artifacts of a pin that may be used: the most preferred ones.
pub fn best<'a, K: Ord>(u: &'a Uni, name: &str, v: &str, hashes: &[String], kind: AK, score: impl Fn(&str) -> Option<K>) -> Vec<&'a Art> {
    let rel = match u.pkg(name).and_then(|p| p.rel(&vn(v))) {
        Some(r) => r,
        None => return vec![],
    };
    let c: Vec<(Option<K>, &Art)> = rel
        .arts
        .iter()
        .filter(|a| a.kind == kind && a.listed && a.hashed && hashes.contains(&a.claimed()))
        .map(|a| (a.tags.iter().filter_map(|t| score(t)).max(), a))
        .filter(|x| x.0.is_some())
        .collect();
    let top = c.iter().map(|x| &x.0).max();
    c.iter().filter(|x| Some(&x.0) == top).map(|x| x.1).collect()
}

#[derive(Default, Debug)]
pub struct Expect {
    /// hashes of what may be used: interpreter, then each package
    pub py: Vec<String>,
    pub pins: Vec<(String, Vec<String>)>,
    /// why it must fail, if it must
    pub must_fail: Option<String>,
    /// it may fail: a preferred artifact cannot be had
    pub may_fail: Option<String>,
}

pub fn expect(u: &Uni, r: &Res, plats: &[String]) -> Expect {
    let mut x = Expect::default();
    let rel = match u.pkg(PY).and_then(|p| p.rel(&vn(&r.py.v))) {
        Some(r) => r,
        None => {
            x.must_fail = Some("the interpreter is gone".into());
            return x;
        }
    };
    let mut plat = None;
    for p in plats {
        let b = best(u, PY, &r.py.v, &r.py.hashes, AK::Pybi, |t| PybiPlatform::new(p).compatibility_of(t));
        if !b.is_empty() {
            x.py = b.iter().map(|a| a.claimed()).collect();
            if b.iter().any(|a| a.spoilt()) {
                x.may_fail = Some(format!("{} is not what its hash says", b[0].file));
            }
            plat = Some(p.clone());
            break;
        }
    }
    let plat = match plat {
        Some(p) => p,
        None => {
            x.must_fail = Some("no pinned interpreter for the platform is on offer".into());
            return x;
        }
    };
    for p in &r.pins {
        let b = best(u, &p.name, &p.v, &p.hashes, AK::Wheel, |t| score(rel, &plat, t));
        if b.is_empty() {
            x.must_fail.get_or_insert(format!("no pinned artifact of {} {} for the platform is on offer", p.name, p.v));
        }
        // does its metadata say what the resolution went by?
        let from = r.from.iter().find(|f| f.0 == p.name).map(|f| f.1.clone()).unwrap_or_default();
        let said = gist_of_pin(p);
        let ok = |a: &Art| gist(&a.meta) == said && truthful(a, &p.name, &p.v);
        if !b.is_empty() && !b.iter().any(|a| ok(a)) {
            x.must_fail.get_or_insert(format!("{}'s metadata contradicts that of {}", b[0].file, from));
        } else if !b.iter().all(|a| ok(a)) {
            x.may_fail.get_or_insert(format!("some metadata of {} contradicts", p.name));
        }
        if b.iter().any(|a| a.spoilt()) {
            x.may_fail.get_or_insert(format!("{} is not what its hash says", b[0].file));
        }
        x.pins.push((p.name.clone(), b.iter().filter(|a| ok(a)).map(|a| a.claimed()).collect()));
    }
    x
}

/// Does its METADATA name what the file's name says it is?
fn truthful(a: &Art, name: &str, v: &str) -> bool {
    let t = String::from_utf8_lossy(&a.meta).to_string();
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k).map(|s| s.to_string())).unwrap_or_default();
    norm(&get("Name: ")) == norm(name) && vn(&get("Version: ")) == vn(v)
}
pub type Gist = (Vec<String>, String, Vec<String>);
fn squash(s: &str) -> String {
    let s: String = s.chars().filter(|c| !c.is_whitespace() && !"()".contains(*c)).collect();
    s.replace('"', "'")
}
/// What in METADATA matters to a resolution.
pub fn gist(meta: &[u8]) -> Gist {
    let t = String::from_utf8_lossy(meta).to_string();
    let head = t.split("\n\n").next().unwrap();
    let get = |k: &str| head.lines().filter_map(|l| l.strip_prefix(&format!("{}: ", k)).map(|s| s.to_string())).collect::<Vec<_>>();
    let mut ex: Vec<String> = get("Provides-Extra").iter().map(|s| norm(s)).collect();
    ex.sort();
    ex.dedup();
    (get("Requires-Dist").iter().map(|s| dep_gist(s)).collect(), squash(&get("Requires-Python").join(",")), ex)
}
fn dep_gist(s: &str) -> String {
    // this family's metadata has no markers and at most one clause
    let s = squash(s);
    let n = s.find(|c: char| !(c.is_ascii_alphanumeric() || "-_.".contains(c))).unwrap_or(s.len());
    format!("{}{}", norm(&s[..n]), &s[n..])
}
pub fn gist_of_pin(p: &super::resolve::Pin) -> Gist {
    (p.deps.iter().map(|s| dep_gist(s)).collect(), squash(&p.rp), p.extras.clone())
}

impl Art {
    /// the hash its index page gives
    pub fn claimed(&self) -> String {
        self.claim.clone().unwrap_or_else(|| self.hash())
    }
    pub fn spoilt(&self) -> bool {
        self.claim.as_ref().map_or(false, |c| *c != self.hash())
    }
}

// ---------------------------------------------------------------- universes

const TAGS310: [&str; 12] = [
    "py3-none-any",
    "cp310-none-any",
    "cp310-cp310-manylinux_2_17_x86_64",
    "cp310-cp310-manylinux_2_5_x86_64.manylinux1_x86_64",
    "cp310-abi3-manylinux_2_17_x86_64",
    "cp310-abi3-manylinux_2_12_x86_64.manylinux2010_x86_64",
    "py2.py3-none-any",
    "cp310-cp310-musllinux_1_1_x86_64",
    "cp310-cp310-win_amd64",
    "cp311-cp311-manylinux_2_17_x86_64",
    "cp310.cp311-abi3.cp310-manylinux_2_5_x86_64.musllinux_1_1_x86_64",
    "cp310-cp310-manylinux_2_28_x86_64",
];
const NAMES: [&str; 5] = ["app", "foo", "bar.baz", "Qux_lib", "leaf"];

fn make_wheel(name: &str, v: &Vn, tag: &str, deps: &[Dep], extras: &[String], rp: &Option<Spec>, note: &str) -> Art {
    let ch = &mut w().ch;
    let esc = norm(name).replace('-', "_");
    let size = if ch.chance(100) { 30_000 } else { ch.size(2000) };
    let mut ents = payload(name, v, note, size);
    if ch.chance(300) {
        ents.push(Ent::file(&format!("{}-{}.data/data/share/{}.txt", esc, v.s, esc), note.as_bytes()));
    }
    if ch.chance(200) {
        let mut e = Ent::file(&format!("{}-{}.data/scripts/{}-bin", esc, v.s, esc), format!("\x7fELF {}", note).as_bytes());
        e.mode = Some(0o755);
        ents.push(e);
    }
    if ch.chance(300) {
        ents.push(Ent::file(&format!("{}/entry_points.txt", dist_info(name, v)), format!("[console_scripts]\n{}-cmd = {}:main\n", esc, esc).as_bytes()));
    }
    let meta = metadata(name, v, deps, extras, rp, note);
    wheel(name, v, tag, meta, ents)
}

fn draw_wheels(name: &str, v: &Vn, deps: &[Dep], k: usize, note: &str) -> Vec<Art> {
    let mut arts = vec![];
    let mut tags = TAGS310.to_vec();
    for i in 0..k {
        let t = if i == 0 && w().ch.chance(500) { tags.remove(0) } else { tags.remove(w().ch.choose(tags.len())) };
        // now and then an artifact says something else than its siblings
        let odd = i > 0 && w().ch.chance(120);
        let mut d = deps.to_vec();
        let mut ex: Vec<String> = vec!["fast".into()];
        let mut rp = Some(vec![Sp { op: ">=", v: "3.7".into() }]);
        if odd {
            match w().ch.choose(6) {
                0 => d.push(Dep::on("leaf")),
                1 => {
                    if d.pop().is_none() {
                        d.push(Dep::on("foo"));
                    }
                }
                2 => rp = Some(vec![Sp { op: ">=", v: "3.8".into() }]),
                3 => ex.push("other".into()),
                4 => ex.clear(),
                _ => rp = None,
            }
        }
        let mut a = make_wheel(name, v, t, &d, &ex, &rp, &format!("{} {}", note, t));
        if i > 0 && w().ch.chance(60) {
            // ... or claims to be something else altogether
            let m = String::from_utf8_lossy(&a.meta).to_string();
            let m = if w().ch.chance(500) { m.replace(&format!("Version: {}\n", v.s), "Version: 1.5\n") } else { m.replace(&format!("Name: {}\n", name), "Name: other\n") };
            let at = format!("{}/METADATA", dist_info(name, v));
            for x in &mut a.ents {
                if x.name == at.as_bytes() {
                    x.data = m.clone().into_bytes();
                }
            }
            a.meta = m.into_bytes();
            a.bytes = Arc::new(zip(&a.ents, b"", b"", false).0);
            w().stat("lying_wheel");
        }
        a.hashed = !w().ch.chance(30);
        arts.push(a);
    }
    arts
}

pub fn draw_env_uni() -> Uni {
    let mut u = Uni { idx: vec!["http://idx.test/simple/".into()], pkgs: vec![], style: w().ch.choose(2310) as u64, stray: vec![], bad: BTreeMap::new(), fresh: None };
    let two = w().ch.chance(300);
    if two {
        u.idx.push("http://more.test/".into());
    }
    let mut py = Pkg { name: PY.into(), rels: vec![] };
    let plats: Vec<&str> = match w().ch.choose(6) {
        0 | 1 => vec![PLAT],
        2 => vec!["manylinux_2_5_x86_64", PLAT],
        3 => vec!["musllinux_1_1_x86_64", PLAT],
        4 => vec!["manylinux_2_5_x86_64.manylinux1_x86_64", "win_amd64", "manylinux_2_12_x86_64"],
        _ => vec![PLAT, "manylinux_2_12_x86_64", "macosx_11_0_arm64"],
    };
    py.rels.push(py_rel("3.10.4", &plats));
    if w().ch.chance(250) {
        py.rels.push(py_rel("3.8.1", &[PLAT]));
    }
    u.pkgs.push(py);
    let np = w().ch.range(1, 4);
    for i in 0..np {
        let mut p = Pkg { name: NAMES[i].into(), rels: vec![] };
        let nv = if w().ch.chance(250) { 2 } else { 1 };
        for v in 0..nv {
            let v = vn(["1.0", "2.1"][v]);
            let mut deps = vec![];
            for j in i + 1..np {
                if w().ch.chance(400) {
                    deps.push(Dep::on(NAMES[j]));
                }
            }
            let k = w().ch.range(1, 4);
            let mut arts = draw_wheels(NAMES[i], &v, &deps, k, "first");
            for a in &mut arts {
                a.idx = if two && w().ch.chance(350) { 1 } else { 0 };
            }
            p.rels.push(Rel { v, deps, extras: vec!["fast".into()], rp: None, arts, env: BTreeMap::new(), wheel_tags: vec![] });
        }
        u.pkgs.push(p);
    }
    u.place();
    u
}

/// What the index may do after the pins were made.
fn draw_later(u: &Uni) -> Uni {
    let mut u = u.clone();
    let nidx = u.idx.len();
    for p in &mut u.pkgs {
        let name = p.name.clone();
        for r in &mut p.rels {
            let v = r.v.clone();
            // more artifacts, often better ones
            if name != PY && w().ch.chance(450) {
                let k = w().ch.range(1, 2);
                let taken: Vec<String> = r.arts.iter().map(|a| a.file.clone()).collect();
                for mut a in draw_wheels(&name, &v, &r.deps, k, "later") {
                    if taken.contains(&a.file) {
                        if w().ch.chance(600) {
                            continue;
                        }
                        // the same name again, at another address
                    }
                    a.idx = w().ch.choose(nidx);
                    r.arts.push(a);
                }
            }
            for a in &mut r.arts {
                match w().ch.choose(20) {
                    0 | 1 => a.listed = false,
                    2 => a.hashed = false,
                    3 => a.yanked = true,
                    4 if name != PY => {
                        // replaced in place, and listed as what it is now
                        let b = make_wheel(&name, &v, a.file.rsplitn(4, '-').take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("-").trim_end_matches(".whl"), &r.deps, &["fast".to_string()], &None, "replaced");
                        a.bytes = b.bytes;
                        a.ents = b.ents;
                        a.meta = b.meta;
                    }
                    5 => {
                        // damaged or replaced behind the index's back
                        let h = a.hash();
                        let mut b = a.bytes.to_vec();
                        if w().ch.chance(500) && name != PY {
                            // (with the same metadata, so that nothing else gives it away)
                            let mut e = make_wheel(&name, &v, "py3-none-any", &r.deps, &["fast".to_string()], &None, "evil");
                            let m = format!("{}/METADATA", dist_info(&name, &v));
                            for x in &mut e.ents {
                                if x.name == m.as_bytes() {
                                    x.data = a.meta.clone();
                                }
                            }
                            b = zip(&e.ents, b"", b"", false).0;
                            a.ents = e.ents;
                        } else {
                            let k = w().ch.choose(b.len());
                            b[k] ^= 1 << w().ch.choose(8);
                        }
                        a.bytes = Arc::new(b);
                        a.claim = Some(h);
                    }
                    6 => {
                        // listed with someone else's hash
                        a.claim = Some(hexs(&super::http2::sha256(b"something else")));
                    }
                    7 => a.idx = w().ch.choose(nidx),
                    _ => (),
                }
            }
        }
    }
    u.place();
    u
}

// ---------------------------------------------------------------- running

#[derive(Clone, Debug)]
struct Made {
    python: String,
    bins: Vec<String>,
    libs: Vec<String>,
    core: String,
}
#[derive(Clone, Debug)]
struct ERec {
    pid: Pid,
    bp: usize,
    plats: Vec<String>,
    b: u64,
    e: u64,
    faults: u64,
    out: Option<Result<Made, String>>,
    /// hash of what each root holds: interpreter first
    found: Vec<Option<String>>,
    healthy: bool,
    phase: usize,
    /// changes under /forest other than locks while it ran
    touched: Vec<String>,
}
struct Sh {
    u: Arc<Mutex<Uni>>,
    /// every artifact there ever was
    all: Mutex<BTreeMap<String, (String, Vn, Art)>>,
    /// what was offered under a hash that is not its own
    spoilt: Mutex<Vec<(String, Vn, Art)>>,
    bps: Mutex<Vec<(Res, String)>>,
    recs: Mutex<Vec<ERec>>,
    roots: Mutex<BTreeMap<String, (String, Tree, usize)>>,
    bad: Mutex<Vec<(&'static str, &'static str, String)>>,
}
impl Sh {
    fn new(u: Uni) -> Arc<Sh> {
        let s = Arc::new(Sh {
            all: Mutex::new(BTreeMap::new()),
            spoilt: Mutex::new(vec![]),
            u: Arc::new(Mutex::new(u)),
            bps: Mutex::new(vec![]),
            recs: Mutex::new(vec![]),
            roots: Mutex::new(BTreeMap::new()),
            bad: Mutex::new(vec![]),
        });
        s.learn();
        super::uni::install(&s.u);
        s
    }
    fn learn(&self) {
        let u = self.u.lock().unwrap();
        let mut all = self.all.lock().unwrap();
        for p in &u.pkgs {
            for r in &p.rels {
                for a in &r.arts {
                    if a.spoilt() {
                        self.spoilt.lock().unwrap().push((p.name.clone(), r.v.clone(), a.clone()));
                    } else {
                        all.entry(a.hash()).or_insert((p.name.clone(), r.v.clone(), a.clone()));
                    }
                }
            }
        }
    }
    /// Which artifact is installed here? Err: none is, completely.
    fn identify(&self, root: &str, py: bool, name: &str) -> Result<String, String> {
        let tree = w().fs.tree(root);
        let all = self.all.lock().unwrap();
        let mut why = "nothing of the kind was ever on offer".to_string();
        let mut close = 0;
        for (h, (n, v, a)) in all.iter() {
            if (a.kind == AK::Pybi) != py || norm(n) != norm(name) {
                continue;
            }
            let d = if py {
                diff_pybi(&tree, a)
            } else {
                let (want, opt) = want_wheel(a, n, v);
                diff(&tree, &want, &opt)
            };
            match d {
                None => return Ok(h.clone()),
                Some(x) => {
                    // the artifact it is most like
                    let like = tree.values().filter(|n| matches!(n, Node::File { data, .. } if a.ents.iter().any(|e| e.data == *data && e.data.len() > 6))).count() + 1;
                    if like > close {
                        close = like;
                        why = format!("{}: {}", a.file, x);
                    }
                }
            }
        }
        Err(why)
    }
    fn inspect(&self, m: &Made, res: &Res, when: &str) -> Vec<Option<String>> {
        let mut found = vec![];
        let mut bad = self.bad.lock().unwrap();
        let mut root_of = |root: &str, py: bool, name: &str| {
            match self.identify(root, py, name) {
                Ok(h) => {
                    let t = w().fs.tree(root);
                    let mut roots = self.roots.lock().unwrap();
                    if let Some((r0, _)) = roots.iter().find(|(r0, x)| x.0 == h && r0.as_str() != root).map(|(a, b)| (a.clone(), b.clone())) {
                        bad.push(("C22", "twice", format!("{} {}: the same artifact is installed at {} and {}", when, name, r0, root)));
                    }
                    roots.entry(root.to_string()).or_insert((h.clone(), t, w().fs.muts.as_ref().map_or(0, |m| m.len())));
                    found.push(Some(h));
                }
                Err(why) => {
                    let tree = w().fs.tree(root);
                    for (n, v, a) in self.spoilt.lock().unwrap().iter() {
                        if (a.kind == AK::Pybi) == py && norm(n) == norm(name) && !a.ents.is_empty() {
                            let (want, opt) = want_wheel(a, n, v);
                            if diff(&tree, &want, &opt).is_none() {
                                let m = format!("{} {} holds the content served for {}, which is not what the index's hash says", when, root, a.file);
                                bad.push(("C10", "unverified-install", m.clone()));
                                bad.push(("C23", "not-pinned", m));
                            }
                        }
                    }
                    bad.push(("C22", "incomplete", format!("{} the environment's {} at {} is not a complete install: {}", when, name, root, why)));
                    found.push(None);
                }
            }
        };
        let up = |p: &str| p.rsplit_once('/').map_or("", |x| x.0).to_string();
        let pyroot = up(&up(&m.python));
        root_of(&pyroot, true, PY);
        let mut wrong = None;
        if m.bins.first() != Some(&format!("{}/bin", pyroot)) {
            wrong = Some(format!("first bin dir is {:?}, python is {}", m.bins.first(), m.python));
        }
        if m.libs.len() != res.pins.len() || m.bins.len() != res.pins.len() + 1 {
            wrong = Some(format!("{} pins but {} lib and {} bin dirs", res.pins.len(), m.libs.len(), m.bins.len()));
        } else {
            for (i, l) in m.libs.iter().enumerate() {
                let r = up(l);
                if *l != format!("{}/lib", r) || m.bins[i + 1] != format!("{}/bin", r) {
                    wrong = Some(format!("lib dir {} with bin dir {}", l, m.bins[i + 1]));
                }
                root_of(&r, false, &res.pins[i].name);
            }
        }
        if let Some(x) = wrong {
            bad.push(("C22", "shape", format!("{} {}", when, x)));
        }
        found
    }
}

fn inside(root: &str, p: &str) -> bool {
    p == root || p.starts_with(&format!("{}/", root))
}

fn get_env(sh: &Sh, cache: &str, which: &[usize], plats: &[String], healthy: bool, phase: usize) {
    let idx = sh.u.lock().unwrap().idx.clone();
    let mut ids = vec![];
    for bp in which {
        let mut g = sh.recs.lock().unwrap();
        ids.push(g.len());
        g.push(ERec {
            pid: me(),
            bp: *bp,
            plats: plats.to_vec(),
            b: seq(),
            e: u64::MAX,
            faults: 0,
            out: None,
            found: vec![],
            healthy,
            phase,
            touched: vec![],
        });
    }
    let mut next = 0;
    let mut f0 = my_faults();
    let r = with_db(cache, &idx, |db, forest| {
        let pp: Vec<PybiPlatform> = plats.iter().map(|s| PybiPlatform::new(s)).collect();
        let prefs: Vec<&PybiPlatform> = pp.iter().collect();
        for (k, bp) in which.iter().enumerate() {
            let (res, json) = sh.bps.lock().unwrap()[*bp].clone();
            let blueprint: Blueprint = serde_json::from_str(&json)?;
            let m0 = w().fs.muts.as_ref().map_or(0, |m| m.len());
            {
                let mut g = sh.recs.lock().unwrap();
                // (opening the stores is charged to the first)
                if k > 0 {
                    g[ids[k]].b = seq();
                    f0 = my_faults();
                }
            }
            let r = forest.get_env(db, &blueprint, &prefs, &[]);
            if dead() {
                return Ok(());
            }
            let s = |p: &std::path::Path| p.to_string_lossy().to_string();
            let mut vars: Option<BTreeMap<String, String>> = None;
            if let Ok(e) = &r {
                vars = e.env_vars().ok().map(|v| v.into_iter().map(|(k, x)| (k.to_string(), x.to_string_lossy().to_string())).collect());
            }
            let out = r
                .map(|e| Made { python: s(&e.python), bins: e.bin_dirs.iter().map(|p| s(p)).collect(), libs: e.lib_dirs.iter().map(|p| s(p)).collect(), core: e.platform_core_tag.clone() })
                .map_err(|e| errstr(&e));
            w().note(format!("environment {}: {}", bp, match &out { Ok(m) => m.libs.join(" "), Err(e) => e.clone() }));
            let found = match &out {
                Ok(m) => {
                    if let Some(v) = &vars {
                        let want = [
                            ("PATH", m.bins.join(":") + ":/usr/bin:/bin"),
                            ("POSY_PYTHON", m.python.clone()),
                            ("POSY_PYTHON_PACKAGES", m.libs.join(":")),
                        ];
                        for (k, x) in want {
                            if v.get(k) != Some(&x) {
                                sh.bad.lock().unwrap().push(("C22", "vars", format!("the environment's {} is {:?}, it should be {}", k, v.get(k), x)));
                            }
                        }
                    }
                    // (whether or not this process is killed a moment later)
                    sh.inspect(m, &res, "when it is returned,")
                }
                Err(_) => vec![],
            };
            let mut g = sh.recs.lock().unwrap();
            let rec = &mut g[ids[k]];
            rec.out = Some(out);
            rec.found = found;
            rec.e = seq();
            rec.faults = my_faults() - f0;
            if let Some(m) = &w().fs.muts {
                rec.touched = m[m0..].iter().filter(|x| x.pid == rec.pid && x.path.starts_with("/forest") && !x.path.ends_with(".lock")).map(|x| format!("{} {}", x.op, x.path)).collect();
            }
            next = k + 1;
        }
        Ok(())
    });
    if let Err(e) = r {
        if dead() {
            return;
        }
        let mut g = sh.recs.lock().unwrap();
        for k in next..which.len() {
            let rec = &mut g[ids[k]];
            rec.out = Some(Err(errstr(&e)));
            rec.e = seq();
            rec.faults = my_faults() - f0;
        }
    }
}

fn resolve_one(sh: &Arc<Sh>, ask: Ask, cache: &'static str) {
    let sh = sh.clone();
    spawn("resolver", move || {
        let idx = sh.u.lock().unwrap().idx.clone();
        let r = with_db(cache, &idx, |db, _| {
            let pp: Vec<PybiPlatform> = ask.plats.iter().map(|s| PybiPlatform::new(s)).collect();
            let prefs: Vec<&PybiPlatform> = pp.iter().collect();
            let b = ask.brief()?.resolve(db, &prefs, None, &[])?;
            let res = Res::of(&b);
            w().note(format!("resolved to {}", res.text()));
            sh.bps.lock().unwrap().push((res.clone(), res.json.clone()));
            Ok(())
        });
        if let Err(e) = r {
            w().note(format!("resolution failed: {}", errstr(&e)));
        }
    });
}

/// Made after every phase: nothing that was ready has changed.
fn judge_roots(rep: &mut Rep, sh: &Sh) {
    for (p, s, m) in sh.bad.lock().unwrap().drain(..) {
        rep.fail(p, s, m);
    }
    let roots = sh.roots.lock().unwrap();
    for (root, (_, tree, m0)) in roots.iter() {
        let now = w().fs.tree(root);
        if now != *tree {
            let what = tree.iter().find(|(k, v)| now.get(*k) != Some(v)).map(|x| x.0.clone()).or_else(|| now.keys().find(|k| !tree.contains_key(*k)).cloned()).unwrap_or_default();
            rep.fail("C22", "changed", format!("{} was ready and has changed since: {}", root, what));
        }
        if let Some(m) = &w().fs.muts {
            if let Some(x) = m[*m0..].iter().find(|x| inside(root, &x.path)) {
                rep.fail("C22", "altered", format!("{} was ready, and process {} did {} {}", root, x.pid, x.op, x.path));
            }
        }
    }
}

fn judge(rep: &mut Rep, sh: &Sh, us: &[&Uni], phase: usize, faulty: bool) {
    judge_roots(rep, sh);
    let bps = sh.bps.lock().unwrap().clone();
    let all: Vec<ERec> = sh.recs.lock().unwrap().clone();
    let recs: Vec<&ERec> = all.iter().filter(|r| r.phase == phase).collect();
    for r in recs {
        let res = &bps[r.bp].0;
        let xs: Vec<Expect> = us.iter().map(|u| expect(u, res, &r.plats)).collect();
        let nf = r.faults + net_faults(r.pid, r.b, r.e);
        match &r.out {
            None => (),
            Some(Ok(m)) => {
                w().probe("made");
                if let (true, Some(x)) = (xs.iter().all(|x| x.must_fail.is_some()), xs[0].must_fail.as_ref()) {
                    rep.fail("C23", "should-fail", format!("{}: an environment was made although {}", res.text(), x));
                    continue;
                }
                let name = |h: &str| sh.all.lock().unwrap().get(h).map_or(h.to_string(), |a| a.2.file.clone());
                for (i, f) in r.found.iter().enumerate() {
                    let f = match f {
                        Some(f) => f,
                        None => continue,
                    };
                    let ok: Vec<&String> = xs.iter().filter(|x| x.must_fail.is_none()).flat_map(|x| if i == 0 { x.py.iter() } else { x.pins[i - 1].1.iter() }).collect();
                    if ok.contains(&f) {
                        continue;
                    }
                    let pinned = if i == 0 { &res.py.hashes } else { &res.pins[i - 1].hashes };
                    let sig = if pinned.contains(f) { "not-preferred" } else { "not-pinned" };
                    rep.fail("C23", sig, format!("{}: {} was used, it should be {}", res.text(), name(f), ok.iter().map(|h| name(h)).collect::<Vec<_>>().join(" or ")));
                }
                // everything was there already: nothing to do
                let root = |l: &String| l.rsplit_once('/').map_or(String::new(), |x| x.0.to_string());
                let ready: BTreeSet<String> = all
                    .iter()
                    .filter(|q| q.e < r.b)
                    .filter_map(|q| match &q.out {
                        Some(Ok(m)) => Some(m.libs.iter().chain([&m.bins[0]]).map(root).collect::<Vec<_>>()),
                        _ => None,
                    })
                    .flatten()
                    .collect();
                if m.libs.iter().chain([&m.bins[0]]).all(|l| ready.contains(&root(l))) {
                    w().probe("all_reused");
                    if !r.touched.is_empty() {
                        rep.fail("C22", "reinstalled", format!("{}: everything was installed already, but the forest was changed: {:?}", res.text(), &r.touched[..r.touched.len().min(3)]));
                    }
                }
            }
            Some(Err(e)) => {
                let excused = nf > 0 || xs.iter().any(|x| x.must_fail.is_some() || x.may_fail.is_some());
                if !excused {
                    let m = format!("{} on {:?}: no environment{}: {}", res.text(), r.plats, if r.healthy && faulty { " after faults stopped" } else { "" }, e);
                    if r.healthy && faulty {
                        rep.fail("C22", "refused-after-faults", m.clone());
                        rep.fail("C42", "refused-after-faults", m);
                    } else if !faulty || r.healthy {
                        rep.fail("C23", "refused", m.clone());
                        rep.fail("C22", "refused", m);
                    }
                } else if xs.iter().all(|x| x.must_fail.is_some()) {
                    w().probe("refused");
                }
            }
        }
    }
}
fn draw_plats() -> Vec<String> {
    let ch = &mut w().ch;
    match ch.choose(6) {
        0 | 1 | 2 => vec![PLAT.into()],
        3 => vec![PLAT.into(), "musllinux_1_1_x86_64".into()],
        4 => vec!["musllinux_1_1_x86_64".into(), PLAT.into()],
        _ => vec!["manylinux_2_28_x86_64".into()],
    }
}
fn draw_asks(u: &Uni) -> Vec<Ask> {
    let n = w().ch.range(1, 2);
    let others: Vec<String> = u.pkgs.iter().filter(|p| p.name != PY).map(|p| p.name.clone()).collect();
    let mut v = vec![];
    for i in 0..n {
        let mut reqs: Vec<Dep> = vec![Dep::on(&others[if i == 0 { 0 } else { w().ch.choose(others.len()) }])];
        if w().ch.chance(400) {
            let d = Dep::on(&others[w().ch.choose(others.len())]);
            if d.name != reqs[0].name {
                reqs.push(d);
            }
        }
        if w().ch.chance(200) {
            let p = u.pkg(&reqs[0].name).unwrap();
            let v = p.rels[w().ch.choose(p.rels.len())].v.s.clone();
            reqs[0].spec = vec![Sp { op: "==", v }];
        }
        v.push(Ask { py: vec![], reqs, allow: Some(vec![]), plats: vec![PLAT.into(), "musllinux_1_1_x86_64".into()] });
    }
    v
}

/// A universe and blueprints for it. None: nothing could be resolved.
fn begin(rep: &mut Rep) -> Option<(Arc<Sh>, Uni, Vec<Ask>)> {
    let u = draw_env_uni();
    let sh = Sh::new(u.clone());
    w().fs.muts = Some(vec![]);
    w().time_limit = Some(w().now + 24 * 3600 * 1_000_000_000);
    let asks = draw_asks(&u);
    let warm = if w().ch.chance(600) { "/cache" } else { "/cache/other" };
    for a in &asks {
        w().note(a.text());
        resolve_one(&sh, a.clone(), warm);
        let stop = run();
        judge_end(rep, &stop, &["C42"], &["C42"]);
    }
    if sh.bps.lock().unwrap().is_empty() {
        rep.trivial();
        return None;
    }
    Some((sh, u, asks))
}
fn launch(sh: &Arc<Sh>, n: usize, healthy: bool, phase: usize) {
    let nb = sh.bps.lock().unwrap().len();
    let one_cache = w().ch.chance(700);
    for i in 0..n {
        let mut which = vec![];
        for _ in 0..w().ch.range(1, 2) {
            which.push(w().ch.choose(nb));
        }
        let plats = draw_plats();
        let sh = sh.clone();
        spawn(&format!("env{}", i), move || get_env(&sh, if one_cache { "/cache" } else { ["/cache", "/cache/b", "/cache/c", "/cache/d"][i] }, &which, &plats, healthy, phase));
    }
}
fn again(rep: &mut Rep, sh: &Arc<Sh>, phase: usize) {
    let nb = sh.bps.lock().unwrap().len();
    for cache in ["/cache", "/cache/fresh"] {
        let which: Vec<usize> = (0..nb).collect();
        let plats = draw_plats();
        let sh = sh.clone();
        spawn("again", move || get_env(&sh, cache, &which, &plats, true, phase));
        let stop = run();
        judge_end(rep, &stop, &["C42"], &["C42", "C22"]);
    }
}

fn env_plain(rep: &mut Rep) {
    let (sh, u, _) = match begin(rep) {
        Some(x) => x,
        None => return,
    };
    w().f.switch = *w().ch.pick(&[50, 200, 600]);
    w().f.short = *w().ch.pick(&[0, 0, 100]);
    let n = w().ch.range(1, 4);
    launch(&sh, n, true, 1);
    let stop = run();
    judge_end(rep, &stop, &["C42"], &["C42", "C22"]);
    judge(rep, &sh, &[&u], 1, false);
    again(rep, &sh, 2);
    judge(rep, &sh, &[&u], 2, false);
}

fn env_faults(rep: &mut Rep) {
    let (sh, u, _) = match begin(rep) {
        Some(x) => x,
        None => return,
    };
    draw_sched();
    match w().ch.choose(6) {
        0 => super::resolve::net_trouble(),
        1 => draw_io(),
        2 => draw_crash(),
        3 | 4 => draw_watch(&["/forest", "/forest", "/cache"]),
        _ => {
            super::resolve::net_trouble();
            draw_io();
            draw_crash();
        }
    }
    let n = w().ch.range(1, 4);
    launch(&sh, n, false, 1);
    let stop = run();
    judge_end(rep, &stop, &["C42"], &["C42", "C22"]);
    judge(rep, &sh, &[&u], 1, true);
    calm();
    if w().ch.chance(200) {
        bad_reads(&["/cache/by-hash", "/cache/metadata", "/forest", "/cache"]);
        launch(&sh, 1, false, 4);
        let stop = run();
        judge_end(rep, &stop, &["C42"], &["C42", "C22"]);
        judge(rep, &sh, &[&u], 4, true);
        calm();
    }
    if w().ch.chance(500) {
        let n = w().ch.range(1, 3);
        launch(&sh, n, true, 2);
        let stop = run();
        judge_end(rep, &stop, &["C42"], &["C42", "C22"]);
        judge(rep, &sh, &[&u], 2, true);
    }
    again(rep, &sh, 3);
    judge(rep, &sh, &[&u], 3, true);
}

/// The index changes after the pins were made, perhaps while environments are being made.
fn env_later(rep: &mut Rep) {
    let (sh, u, asks) = match begin(rep) {
        Some(x) => x,
        None => return,
    };
    w().f.switch = *w().ch.pick(&[50, 200, 600]);
    // some may have been made before
    if w().ch.chance(350) {
        launch(&sh, 1, true, 1);
        let stop = run();
        judge_end(rep, &stop, &["C42"], &["C42", "C22"]);
        judge(rep, &sh, &[&u], 1, false);
    }
    let later = draw_later(&u);
    let faulty = w().ch.chance(300);
    if faulty {
        draw_sched();
        super::resolve::net_trouble();
        match w().ch.choose(4) {
            0 => draw_crash(),
            1 => draw_watch(&["/forest", "/forest", "/cache"]),
            _ => (),
        }
    }
    let during = w().ch.chance(300);
    if during {
        let (s2, l2) = (sh.clone(), later.clone());
        let n = w().ch.size(300);
        spawn("index", move || {
            for _ in 0..n {
                yield_now();
            }
            *s2.u.lock().unwrap() = l2;
            s2.learn();
        });
    } else {
        *sh.u.lock().unwrap() = later.clone();
        sh.learn();
        // pins of what is on offer now, next to the old ones
        if w().ch.chance(500) {
            let a = w().ch.pick(&asks).clone();
            let cache = if w().ch.chance(500) { "/cache" } else { "/cache/b" };
            resolve_one(&sh, a, cache);
            let stop = run();
            judge_end(rep, &stop, &["C42"], &["C42"]);
        }
    }
    let n = w().ch.range(1, 3);
    launch(&sh, n, !faulty, 2);
    let stop = run();
    judge_end(rep, &stop, &["C42"], &["C42", "C22"]);
    if during {
        judge(rep, &sh, &[&u, &later], 2, faulty);
    } else {
        judge(rep, &sh, &[&later], 2, faulty);
    }
    calm();
    again(rep, &sh, 3);
    judge(rep, &sh, &[&later], 3, faulty);
}
