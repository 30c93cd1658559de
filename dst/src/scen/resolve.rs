//! Resolution: pins against an independent model of the universe, under faults and over time.

use super::uni::*;
use super::util::*;
use crate::runner::{Rep, Scen};
use crate::sim::*;
use posy::sim_api::{AllowPre, Blueprint, Brief, EnvForest, KVDirStore, PackageDB, PackageName, PybiPlatform};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::Path;
use std::sync::{Arc, Mutex};
use url::Url;

pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "resolve", props: &["C30", "C31", "C42"], weight: 8, f: resolve },
        Scen { name: "resolve_faults", props: &["C30", "C31", "C33", "C42"], weight: 5, f: resolve_faults },
        Scen { name: "resolve_like", props: &["C31", "C30"], weight: 6, f: resolve_like },
    ]
}

pub const PLAT: &str = "manylinux_2_17_x86_64";

// ---------------------------------------------------------------- the model

#[derive(Clone, Debug)]
pub struct Ask {
    pub py: Spec,
    pub reqs: Vec<Dep>,
    pub allow: Option<Vec<String>>, // None: all
    pub plats: Vec<String>,
}
impl Ask {
    pub fn brief(&self) -> eyre::Result<Brief> {
        let py = if self.py.is_empty() { PY.to_string() } else { format!("{} {}", PY, spec_text(&self.py)) };
        let mut requirements = vec![];
        for r in &self.reqs {
            requirements.push(r.text().as_str().try_into()?);
        }
        let allow_pre = match &self.allow {
            None => AllowPre::All,
            Some(v) => AllowPre::Some(v.iter().map(|s| PackageName::try_from(s.as_str()).unwrap()).collect::<HashSet<_>>()),
        };
        Ok(Brief { python: py.as_str().try_into()?, requirements, allow_pre })
    }
    pub fn text(&self) -> String {
        format!(
            "python{} with {}{}",
            spec_text(&self.py),
            self.reqs.iter().map(|d| d.text()).collect::<Vec<_>>().join(", "),
            match &self.allow {
                None => " (any pre-release)".to_string(),
                Some(v) if v.is_empty() => String::new(),
                Some(v) => format!(" (pre-releases of {})", v.join(",")),
            }
        )
    }
}

/// What a caller prefers: version and hashes per package.
pub type Hints = BTreeMap<String, (Vn, BTreeSet<String>)>;

/// Releases that may be chosen, most wanted first.
pub fn acceptable<'a>(u: &'a Uni, name: &str, py: Option<&Vn>, ask: &Ask, hints: &Hints) -> Vec<&'a Rel> {
    let p = match u.pkg(name) {
        Some(p) => p,
        None => return vec![],
    };
    let n = p.norm();
    let on: Vec<&Rel> = p.rels.iter().filter(|r| r.arts.iter().any(|a| a.listed)).collect();
    let all_pre = on.iter().all(|r| r.v.is_pre());
    let pre = all_pre || ask.allow.as_ref().map_or(true, |l| l.iter().any(|x| norm(x) == n));
    let hint = hints.get(&n);
    let mut v: Vec<&Rel> = on
        .into_iter()
        .filter(|r| pre || !r.v.is_pre())
        .filter(|r| {
            r.arts.iter().any(|a| {
                a.listed
                    && (!a.yanked || a.hashed && hint.map_or(false, |h| h.1.contains(&a.hash())))
                    && match (py, &a.rp) {
                        (Some(py), Some(s)) => sat(s, py),
                        _ => true,
                    }
            })
        })
        .collect();
    v.sort_by(|a, b| b.v.cmp(&a.v));
    if let Some((hv, _)) = hint {
        if let Some(i) = v.iter().position(|r| r.v == *hv) {
            let r = v.remove(i);
            v.insert(0, r);
        }
    }
    v
}

/// The interpreter release that must be used.
pub fn want_python<'a>(u: &'a Uni, ask: &Ask, hints: &Hints) -> Option<&'a Rel> {
    acceptable(u, PY, None, ask, hints).into_iter().find(|r| {
        sat(&ask.py, &r.v)
            && r.arts.iter().any(|a| {
                a.listed
                    && a.tags.iter().any(|t| ask.plats.iter().any(|p| PybiPlatform::new(p).compatibility_of(t).is_some()))
            })
    })
}
pub trait CompatOf {
    fn compatibility_of(&self, t: &str) -> Option<i32>;
}
impl CompatOf for PybiPlatform {
    fn compatibility_of(&self, t: &str) -> Option<i32> {
        use posy::sim_api::Platform;
        self.compatibility(t)
    }
}

fn live<'a>(r: &'a Rel, env: &BTreeMap<String, String>, extra: Option<&str>) -> Vec<&'a Dep> {
    r.deps.iter().filter(|d| d.marker.as_ref().map_or(true, |m| m.eval(env, extra))).collect()
}

/// Everything reachable from the requirements when `at` names the release used for each package.
/// Err: what is wrong with it.
pub fn closure<'a>(ask: &Ask, env: &BTreeMap<String, String>, at: &dyn Fn(&str) -> Option<&'a Rel>) -> Result<BTreeSet<String>, String> {
    let mut seen: BTreeSet<(String, Option<String>)> = BTreeSet::new();
    let mut todo: Vec<(String, Dep)> = vec![];
    for d in &ask.reqs {
        if d.marker.as_ref().map_or(true, |m| m.eval(env, None)) {
            todo.push(("the request".into(), d.clone()));
        }
    }
    while let Some((who, d)) = todo.pop() {
        let n = d.norm();
        let r = match at(&n) {
            Some(r) => r,
            None => return Err(format!("{} needs {}, which has no pin", who, d.text())),
        };
        if !sat(&d.spec, &r.v) {
            return Err(format!("{} needs {}, but {} is pinned", who, d.text(), r.v.s));
        }
        let mut asked: Vec<Option<String>> = vec![None];
        for e in &d.extras {
            if !r.extras.iter().any(|x| norm(x) == norm(e)) {
                return Err(format!("{} needs {}, but {} {} has no such extra", who, d.text(), n, r.v.s));
            }
            asked.push(Some(norm(e)));
        }
        for e in asked {
            if seen.insert((n.clone(), e.clone())) {
                for x in live(r, env, e.as_deref()) {
                    todo.push((format!("{} {}{}", n, r.v.s, e.as_ref().map_or(String::new(), |e| format!("[{}]", e))), x.clone()));
                }
            }
        }
    }
    Ok(seen.into_iter().map(|(n, _)| n).collect())
}

/// Is there any solution? None: too many to tell.
pub fn solvable(u: &Uni, ask: &Ask, py: &Rel, hints: &Hints) -> Option<bool> {
    struct St<'a> {
        u: &'a Uni,
        ask: &'a Ask,
        py: &'a Rel,
        hints: &'a Hints,
        steps: u32,
    }
    fn go<'a>(st: &mut St<'a>, pins: &mut BTreeMap<String, &'a Rel>) -> Option<bool> {
        st.steps += 1;
        if st.steps > 20_000 {
            return None;
        }
        let missing = std::cell::RefCell::new(None);
        let res = closure(st.ask, &st.py.env, &|n| {
            let r = pins.get(n).copied();
            if r.is_none() {
                missing.borrow_mut().get_or_insert(n.to_string());
            }
            r
        });
        let missing = missing.into_inner();
        match (res, missing) {
            (Ok(_), _) => Some(true),
            (Err(_), None) => Some(false),
            (Err(_), Some(n)) => {
                let cands: Vec<&'a Rel> =
                    acceptable(st.u, &n, Some(&st.py.v), st.ask, st.hints).into_iter().filter(|r| r.rp.as_ref().map_or(true, |s| sat(s, &st.py.v))).collect();
                for c in cands {
                    pins.insert(n.clone(), c);
                    match go(st, pins) {
                        Some(false) => (),
                        x => return x,
                    }
                    pins.remove(&n);
                }
                Some(false)
            }
        }
    }
    go(&mut St { u, ask, py, hints, steps: 0 }, &mut BTreeMap::new())
}

/// The pins that must come out, when preference alone decides.
pub fn forced<'a>(u: &'a Uni, ask: &Ask, py: &Rel, hints: &Hints) -> Option<BTreeMap<String, &'a Rel>> {
    let mut root: BTreeMap<String, Spec> = BTreeMap::new();
    for d in &ask.reqs {
        if d.marker.as_ref().map_or(true, |m| m.eval(&py.env, None)) {
            root.entry(d.norm()).or_default().extend(d.spec.iter().cloned());
        }
    }
    let at = |n: &str| {
        let none = vec![];
        let s = root.get(n).unwrap_or(&none);
        acceptable(u, n, Some(&py.v), ask, hints).into_iter().find(|r| sat(s, &r.v))
    };
    let names = closure(ask, &py.env, &at).ok()?;
    let m: BTreeMap<String, &Rel> = names.into_iter().map(|n| (n.clone(), at(&n).unwrap())).collect();
    if m.values().any(|r| r.rp.as_ref().map_or(false, |s| !sat(s, &py.v))) {
        return None;
    }
    Some(m)
}

/// Features of a universe that posy may answer with an error although a solution exists.
pub fn anomalous(u: &Uni, ask: &Ask, py: &Rel, hints: &Hints) -> bool {
    let mut all: Vec<(&str, &Dep, Option<String>)> = ask.reqs.iter().map(|d| ("", d, None)).collect();
    for p in &u.pkgs {
        if p.norm() == norm(PY) {
            continue;
        }
        for r in &p.rels {
            for d in &r.deps {
                all.push((&p.name, d, None));
                if d.norm() == p.norm() {
                    return true;
                }
            }
            // two constraints on one package may contradict one another
            let mut n: Vec<String> = r.deps.iter().map(|d| d.norm()).collect();
            n.sort();
            if n.windows(2).any(|x| x[0] == x[1]) {
                return true;
            }
        }
        for r in acceptable(u, &p.name, Some(&py.v), ask, hints) {
            if r.rp.as_ref().map_or(false, |s| !sat(s, &py.v)) {
                return true;
            }
        }
    }
    for (_, d, _) in all {
        if d.spec.len() > 1 && d.spec[0].op == ">=" && d.spec[1].op.starts_with('<') && vn(&d.spec[0].v).cmp_rel(&vn(&d.spec[1].v)) != std::cmp::Ordering::Less {
            return true;
        }
        if let Some(p) = u.pkg(&d.name) {
            for e in &d.extras {
                if p.rels.iter().any(|r| !r.extras.iter().any(|x| norm(x) == norm(e))) {
                    return true;
                }
            }
        }
    }
    let mut n: Vec<String> = ask.reqs.iter().map(|d| d.norm()).collect();
    n.sort();
    n.windows(2).any(|x| x[0] == x[1])
}

// ---------------------------------------------------------------- what posy said

#[derive(Clone, Debug, PartialEq)]
pub struct Pin {
    pub name: String,
    pub v: String,
    pub hashes: Vec<String>,
    pub deps: Vec<String>,
    pub rp: String,
    pub extras: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Res {
    pub py: Pin,
    pub pins: Vec<Pin>,
    pub markers: Vec<(String, bool)>,
    pub from: Vec<(String, String)>,
    pub json: String,
}
impl Res {
    pub fn same(&self, o: &Res) -> bool {
        self.py == o.py && self.pins == o.pins && self.markers == o.markers && self.written() == o.written()
    }
    /// As it would be written down, but for where metadata came from.
    fn written(&self) -> String {
        let mut s = self.json.clone();
        for (_, p) in &self.from {
            s = s.replace(&format!(":{}", serde_json::to_string(p).unwrap_or_default()), ":_");
        }
        s
    }
    pub fn text(&self) -> String {
        format!("{}={} + {}", self.py.name, self.py.v, self.pins.iter().map(|p| format!("{}={}", p.name, p.v)).collect::<Vec<_>>().join(" "))
    }
    pub fn of(b: &Blueprint) -> Res {
        let pin = |p: &posy::sim_api::PinnedPackage| Pin {
            name: p.name.normalized().to_string(),
            v: p.version.to_string(),
            hashes: p.hashes.iter().map(|h| hexs(&h.raw_data)).collect(),
            deps: vec![],
            rp: String::new(),
            extras: vec![],
        };
        let mut pins = vec![];
        let mut from = vec![];
        for (p, m) in &b.wheels {
            let mut x = pin(p);
            x.deps = m.inner.requires_dist.iter().map(|r| r.to_string()).collect();
            x.rp = m.inner.requires_python.to_string();
            x.extras = m.inner.extras.iter().map(|e| e.normalized().to_string()).collect();
            x.extras.sort();
            from.push((x.name.clone(), m.provenance.clone()));
            pins.push(x);
        }
        let mut markers: Vec<(String, bool)> = b.marker_expressions.iter().map(|(k, v)| (k.to_string(), *v)).collect();
        markers.sort();
        Res { py: pin(&b.pybi), pins, markers, from, json: serde_json::to_string(b).unwrap_or_default() }
    }
    pub fn hints(&self) -> Hints {
        let mut h = Hints::new();
        for p in self.pins.iter().chain([&self.py]) {
            h.insert(p.name.clone(), (vn(&p.v), p.hashes.iter().cloned().collect()));
        }
        h
    }
}

/// Everything wrong with a successful resolution.
pub fn judge_res(u: &Uni, ask: &Ask, hints: &Hints, r: &Res) -> Result<(), (&'static str, String)> {
    let py = match want_python(u, ask, hints) {
        Some(p) => p,
        None => return Err(("python", format!("pinned python {} although none qualifies", r.py.v))),
    };
    if r.py.name != norm(PY) || vn(&r.py.v) != py.v {
        return Err(("python", format!("pinned {} {}, the newest acceptable is {}", r.py.name, r.py.v, py.v.s)));
    }
    let hashes = |rel: &Rel| {
        let mut v: Vec<String> = rel.arts.iter().filter(|a| a.listed && a.hashed).map(|a| a.hash()).collect();
        v.sort();
        v.dedup();
        v
    };
    let sorted = |p: &Pin| {
        let mut v = p.hashes.clone();
        v.sort();
        v.dedup();
        v
    };
    if sorted(&r.py) != hashes(py) {
        return Err(("hashes", format!("{} {} is pinned with {} hashes, the index offers {}", r.py.name, r.py.v, r.py.hashes.len(), hashes(py).len())));
    }
    let mut at: BTreeMap<String, &Rel> = BTreeMap::new();
    for p in &r.pins {
        let v = vn(&p.v);
        let rel = match acceptable(u, &p.name, Some(&py.v), ask, hints).into_iter().find(|x| x.v == v) {
            Some(x) => x,
            None => return Err(("unacceptable", format!("{} {} is pinned but not acceptable (not offered, yanked, pre-release or wrong python)", p.name, p.v))),
        };
        if let Some(s) = &rel.rp {
            if !sat(s, &py.v) {
                return Err(("requires-python", format!("{} {} needs python {}, {} is pinned", p.name, p.v, spec_text(s), py.v.s)));
            }
        }
        if at.insert(p.name.clone(), rel).is_some() {
            return Err(("twice", format!("{} is pinned twice", p.name)));
        }
        if sorted(p) != hashes(rel) {
            return Err(("hashes", format!("{} {} is pinned with {} hashes, the index offers {}", p.name, p.v, p.hashes.len(), hashes(rel).len())));
        }
    }
    match closure(ask, &py.env, &|n| at.get(n).copied()) {
        Err(m) => return Err(("unsatisfied", m)),
        Ok(names) => {
            for p in &r.pins {
                if !names.contains(&p.name) {
                    return Err(("unreachable", format!("{} {} is pinned but nothing needs it", p.name, p.v)));
                }
            }
        }
    }
    if let Some(f) = forced(u, ask, py, hints) {
        for (n, rel) in &f {
            if at.get(n).map_or(true, |x| x.v != rel.v) {
                return Err((
                    "preference",
                    format!("{} {} is pinned, although the preferred {} fits together with every other preferred version", n, at.get(n).map_or("nothing", |x| &x.v.s), rel.v.s),
                ));
            }
        }
    }
    // the metadata the pins were resolved from
    for (n, url) in &r.from {
        match u.art_of_url(url) {
            None => return Err(("provenance", format!("{}: metadata from {}, which is not an artifact on offer", n, url))),
            Some((p, rel, _)) => {
                if p.norm() != *n || rel.v != at[n].v {
                    return Err(("provenance", format!("{} {}: metadata from {}", n, at[n].v.s, url)));
                }
            }
        }
    }
    for p in &r.pins {
        let rel = at[&p.name];
        if p.deps.len() != rel.deps.len() {
            return Err(("metadata", format!("{} {}: recorded {} dependencies, its artifacts declare {}", p.name, p.v, p.deps.len(), rel.deps.len())));
        }
        let mut x: Vec<String> = rel.extras.iter().map(|e| norm(e)).collect();
        x.sort();
        if x != p.extras {
            return Err(("metadata", format!("{} {}: recorded extras {:?}, its artifacts declare {:?}", p.name, p.v, p.extras, x)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- drawing universes

const NAMES: [&str; 7] = ["app", "foo", "bar.baz", "Qux_lib", "zope.x", "numlib", "leaf"];
const VERS: [&str; 12] = ["1.0", "2.0", "1.1", "0.9", "1.0.post1", "2.0b1", "3.0", "10.0", "1.2.dev1", "2.0rc2", "1", "2.1.3"];

pub fn draw_spec(ch: &mut Choices, vers: &[Vn]) -> Spec {
    let pick = |ch: &mut Choices| {
        if !vers.is_empty() && ch.chance(850) {
            vers[ch.choose(vers.len())].s.clone()
        } else {
            ["1.0", "1.5", "2.0", "0.5"][ch.choose(4)].to_string()
        }
    };
    let clean = |s: String| s.split(".post").next().unwrap().to_string();
    match ch.choose(12) {
        0 | 1 | 2 => vec![],
        3 | 4 => vec![Sp { op: ">=", v: pick(ch) }],
        5 => vec![Sp { op: "<", v: clean(pick(ch)) }],
        6 => vec![Sp { op: "<=", v: pick(ch) }],
        7 => vec![Sp { op: "!=", v: pick(ch) }],
        8 => vec![Sp { op: "==", v: pick(ch) }],
        9 => {
            let v = vn(&pick(ch));
            vec![Sp { op: if ch.chance(700) { "==" } else { "!=" }, v: format!("{}.*", v.rel[0]) }]
        }
        10 => {
            let v = vn(&pick(ch));
            vec![Sp { op: "~=", v: format!("{}.{}", v.rel[0], v.rel.get(1).unwrap_or(&0)) }]
        }
        _ => {
            let (a, b) = (pick(ch), clean(pick(ch)));
            if ch.chance(500) {
                vec![Sp { op: ">=", v: a }, Sp { op: "<", v: b }]
            } else {
                vec![Sp { op: ">", v: clean(a) }, Sp { op: "!=", v: b }]
            }
        }
    }
}
pub fn draw_marker(ch: &mut Choices, extras: &[String], depth: u32) -> Mk {
    let leafy = depth == 0 || ch.chance(650);
    if !leafy {
        let a = Box::new(draw_marker(ch, extras, depth - 1));
        let b = Box::new(draw_marker(ch, extras, depth - 1));
        return if ch.chance(500) { Mk::And(a, b) } else { Mk::Or(a, b) };
    }
    if !extras.is_empty() && ch.chance(500) {
        return Mk::Extra(extras[ch.choose(extras.len())].clone());
    }
    match ch.choose(5) {
        0 | 1 => Mk::Ver("python_version", *ch.pick(&["<", ">=", "==", "!=", ">", "<="]), *ch.pick(&["3.9", "3.10", "3.11", "3.8"]), ch.chance(200)),
        2 => Mk::Ver("python_full_version", *ch.pick(&["<", ">="]), *ch.pick(&["3.10.4", "3.11.0", "3.8.1"]), false),
        3 => Mk::Str("sys_platform", ch.chance(500), *ch.pick(&["linux", "win32"])),
        _ => Mk::Str("platform_machine", ch.chance(500), *ch.pick(&["x86_64", "arm64"])),
    }
}

const WTAGS: [&str; 7] = [
    "py3-none-any",
    "cp310-cp310-manylinux_2_17_x86_64",
    "cp311-cp311-manylinux_2_12_x86_64.manylinux2010_x86_64",
    "py2.py3-none-any",
    "cp38-abi3-win_amd64",
    "cp310-cp310-musllinux_1_1_x86_64",
    "cp39-cp39-macosx_11_0_arm64",
];

pub fn draw_uni(plain: bool) -> Uni {
    let ch = &mut w().ch;
    let mut u = Uni { idx: vec!["http://idx.test/simple/".into()], pkgs: vec![], style: ch.choose(2310) as u64, stray: vec![], bad: BTreeMap::new(), fresh: *ch.pick(&[None, None, Some("max-age=600"), Some("public, max-age=86400")]) };
    let two = ch.chance(350);
    if two {
        u.idx.push("http://more.test/".into());
    }
    // interpreters
    let mut py = Pkg { name: PY.into(), rels: vec![] };
    let n = ch.range(1, 3);
    let mut fulls = vec!["3.10.4", "3.11.0", "3.8.1", "3.12.0b2"];
    for _ in 0..n {
        let f = fulls.remove(ch.choose(fulls.len()));
        let plats: Vec<&str> = match ch.choose(6) {
            0 | 1 | 2 => vec![PLAT],
            3 => vec!["manylinux_2_5_x86_64", PLAT],
            4 => vec!["musllinux_1_1_x86_64"],
            _ => vec!["win_amd64", PLAT],
        };
        let mut r = py_rel(f, &plats);
        for a in &mut r.arts {
            a.yanked = ch.chance(60);
            a.idx = if two && ch.chance(200) { 1 } else { 0 };
        }
        py.rels.push(r);
    }
    u.pkgs.push(py);
    let np = if plain { ch.range(1, 3) } else { ch.range(1, 6) };
    let names: Vec<String> = NAMES[..np].iter().map(|s| s.to_string()).collect();
    // versions first, so that constraints can be about them
    let mut vs: Vec<Vec<Vn>> = vec![];
    for _ in 0..np {
        let k = ch.range(1, 4);
        let mut pool: Vec<&str> = VERS.to_vec();
        let mut v: Vec<Vn> = vec![];
        for _ in 0..k {
            let x = vn(pool.remove(ch.choose(pool.len())));
            if !v.contains(&x) {
                v.push(x);
            }
        }
        vs.push(v);
    }
    for i in 0..np {
        let mut pkg = Pkg { name: names[i].clone(), rels: vec![] };
        let extras: Vec<String> = if ch.chance(350) { vec!["fast".to_string(), "All_Of.it".to_string()] } else { vec![] };
        for v in &vs[i] {
            let nd = ch.choose(4).min(3);
            let mut deps = vec![];
            for _ in 0..nd {
                let j = if ch.chance(800) && i + 1 < np { i + 1 + ch.choose(np - i - 1) } else { ch.choose(np) };
                if j == i && !ch.chance(100) {
                    continue;
                }
                let missing = ch.chance(25);
                let mut d = Dep::on(if missing { "missing_pkg" } else { &names[j] });
                if ch.chance(200) {
                    d.name = d.name.to_uppercase().replace('.', "-");
                }
                d.spec = draw_spec(ch, &vs[j]);
                if ch.chance(300) {
                    d.marker = Some(draw_marker(ch, &extras, 2));
                }
                if ch.chance(200) {
                    d.extras = if ch.chance(500) { vec!["fast".into()] } else { vec!["all-of-it".into(), "Fast".into()] };
                }
                if deps.iter().any(|x: &Dep| x.norm() == d.norm()) && !ch.chance(250) {
                    continue;
                }
                deps.push(d);
            }
            let rp = if ch.chance(250) { Some(vec![Sp { op: *ch.pick(&[">=", "<"]), v: ch.pick(&["3.9", "3.11", "3.7", "3.10.4"]).to_string() }]) } else { None };
            let mine = if ch.chance(930) { extras.clone() } else { vec![] };
            let meta = metadata(&pkg.name, v, &deps, &mine, &rp, "r");
            let k = if ch.chance(300) { 2 } else { 1 };
            let mut arts: Vec<Art> = vec![];
            let mut tags = WTAGS.to_vec();
            for _ in 0..k {
                let t = if ch.chance(600) { tags.remove(0) } else { tags.remove(ch.choose(tags.len())) };
                let mut a = wheel(&pkg.name, v, t, meta.clone(), payload(&pkg.name, v, t, ch.size(2000)));
                a.hashed = !ch.chance(60);
                a.yanked = ch.chance(60);
                a.idx = if two && ch.chance(350) { 1 } else { 0 };
                a.rp = if ch.chance(960) { rp.clone() } else { None };
                arts.push(a);
            }
            if ch.chance(300) {
                let mut a = sdist(&pkg.name, v, vec![super::arch::Ent::file("setup.py", b"#\n")], ch.chance(300));
                a.rp = rp.clone();
                arts.push(a);
            }
            pkg.rels.push(Rel { v: v.clone(), deps, extras: mine, rp, arts, env: BTreeMap::new(), wheel_tags: vec![] });
        }
        u.pkgs.push(pkg);
    }
    u.place();
    // someone else's artifact, listed on the wrong page
    if ch.chance(150) && np > 1 {
        let (i, j) = (ch.choose(np), ch.choose(np));
        let p = &u.pkgs[1 + j];
        let a = p.rels[ch.choose(p.rels.len())].arts[0].clone();
        if i != j {
            let (n, k) = (u.pkgs[1 + i].norm(), ch.choose(u.idx.len()));
            u.stray.push((k, n, a));
        }
    }
    u
}
/// A request, more often than not one that has an answer.
pub fn draw_ask(u: &Uni) -> Ask {
    let tries = if w().ch.chance(250) { 1 } else { 5 };
    let none = Hints::new();
    for _ in 1..tries {
        let a = draw_ask1(u);
        if want_python(u, &a, &none).map_or(false, |p| solvable(u, &a, p, &none) == Some(true)) {
            return a;
        }
    }
    draw_ask1(u)
}
fn draw_ask1(u: &Uni) -> Ask {
    let ch = &mut w().ch;
    let mut ask = Ask { py: vec![], reqs: vec![], allow: Some(vec![]), plats: vec![PLAT.into()] };
    if ch.chance(300) {
        ask.py = match ch.choose(4) {
            0 => vec![Sp { op: "<", v: "3.11".into() }],
            1 => vec![Sp { op: ">=", v: "3.9".into() }],
            2 => vec![Sp { op: "==", v: "3.10.*".into() }],
            _ => vec![Sp { op: ">=", v: "3".into() }, Sp { op: "<", v: "3.12".into() }],
        };
    }
    if ch.chance(150) {
        ask.plats.push("musllinux_1_1_x86_64".into());
    }
    let others: Vec<&Pkg> = u.pkgs.iter().filter(|p| p.name != PY).collect();
    let n = ch.range(1, 3);
    for i in 0..n {
        let p = if i == 0 { others[0] } else { others[ch.choose(others.len())] };
        let vs: Vec<Vn> = p.rels.iter().map(|r| r.v.clone()).collect();
        let mut d = Dep::on(&p.name);
        if ch.chance(400) {
            d.spec = draw_spec(ch, &vs);
        }
        if ch.chance(150) {
            d.marker = Some(draw_marker(ch, &[], 1));
        }
        if ch.chance(250) {
            d.extras = vec!["fast".into()];
        }
        if ask.reqs.iter().any(|x| x.norm() == d.norm()) && !ch.chance(300) {
            continue;
        }
        ask.reqs.push(d);
    }
    match ch.choose(8) {
        0 => ask.allow = None,
        1 => ask.allow = Some(vec![others[ch.choose(others.len())].name.clone()]),
        _ => (),
    }
    ask
}

// ---------------------------------------------------------------- running

#[derive(Clone, Debug)]
pub struct RRec {
    pub pid: Pid,
    pub cache: String,
    pub b: u64,
    pub e: u64,
    pub out: Option<Result<Res, String>>,
    pub healthy: bool,
    pub gen: usize,
    pub liked: bool,
}
pub struct RSh {
    pub u: Arc<Mutex<Uni>>,
    pub ask: Ask,
    pub recs: Mutex<Vec<RRec>>,
}

pub fn with_db<T>(cache: &str, idx: &[String], f: impl FnOnce(&PackageDB, &EnvForest) -> eyre::Result<T>) -> eyre::Result<T> {
    let forest = EnvForest::new(Path::new("/forest"))?;
    let build = KVDirStore::new(Path::new("/build"))?;
    let urls: Vec<Url> = idx.iter().map(|s| Url::parse(s).unwrap()).collect();
    let db = PackageDB::new(&urls, Path::new(cache), &forest, &build)?;
    f(&db, &forest)
}

pub fn session(sh: &RSh, cache: &str, times: usize, like: Option<&str>, healthy: bool, gen: usize) {
    let idx = sh.u.lock().unwrap().idx.clone();
    let id0 = {
        let mut g = sh.recs.lock().unwrap();
        for _ in 0..times {
            g.push(RRec { pid: me(), cache: cache.into(), b: seq(), e: u64::MAX, out: None, healthy, gen, liked: like.is_some() });
        }
        g.len() - times
    };
    let put = |k: usize, out: Result<Res, String>| {
        if dead() {
            return;
        }
        w().note(format!("resolution: {}", match &out { Ok(r) => r.text(), Err(e) => e.clone() }));
        let mut g = sh.recs.lock().unwrap();
        g[k].out = Some(out);
        g[k].e = seq();
    };
    let done = std::cell::Cell::new(0);
    let r = with_db(cache, &idx, |db, _| {
        let plats: Vec<PybiPlatform> = sh.ask.plats.iter().map(|s| PybiPlatform::new(s)).collect();
        let prefs: Vec<&PybiPlatform> = plats.iter().collect();
        let brief = sh.ask.brief()?;
        let like: Option<Blueprint> = match like {
            Some(j) => Some(serde_json::from_str(j)?),
            None => None,
        };
        for k in 0..times {
            let r = brief.resolve(db, &prefs, like.as_ref(), &[]);
            put(id0 + k, r.map(|b| Res::of(&b)).map_err(|e| errstr(&e)));
            done.set(k + 1);
        }
        Ok(())
    });
    if let Err(e) = r {
        for k in done.get()..times {
            put(id0 + k, Err(errstr(&e)));
        }
    }
}

/// Judges all resolutions of one constant universe.
pub fn judge_all(rep: &mut Rep, sh: &RSh, u: &Uni, hints: &Hints, faults: bool, gen: usize) {
    let recs: Vec<RRec> = sh.recs.lock().unwrap().iter().filter(|r| r.gen == gen).cloned().collect();
    let py = want_python(u, &sh.ask, hints);
    let exists = py.map_or(Some(false), |p| solvable(u, &sh.ask, p, hints));
    let odd = py.map_or(false, |p| anomalous(u, &sh.ask, p, hints));
    match exists {
        Some(true) => w().probe("solvable"),
        Some(false) => w().probe("unsolvable"),
        None => w().probe("too_big"),
    }
    if py.map_or(false, |p| forced(u, &sh.ask, p, hints).is_some()) {
        w().probe("forced");
    }
    let mut first: Option<Res> = None;
    for r in &recs {
        match &r.out {
            None => (),
            Some(Ok(x)) => {
                if let Err((sig, m)) = judge_res(u, &sh.ask, hints, x) {
                    let p = if sig == "preference" || sig == "python" { "C31" } else if sig == "provenance" || sig == "metadata" { "C33" } else { "C30" };
                    rep.fail(p, sig, format!("{} -> {}: {}", sh.ask.text(), x.text(), m));
                    if p != "C30" && sig != "preference" {
                        rep.fail("C30", sig, format!("{} -> {}: {}", sh.ask.text(), x.text(), m));
                    }
                    return;
                }
                match &first {
                    None => first = Some(x.clone()),
                    Some(f) => {
                        if !f.same(x) {
                            rep.fail("C31", "differs", format!("{} resolved to {} and to {} (or to different hashes or metadata) with the same index", sh.ask.text(), f.text(), x.text()));
                            return;
                        }
                    }
                }
                if exists == Some(false) {
                    rep.fail("C30", "model", format!("{} -> {} although the model finds no solution", sh.ask.text(), x.text()));
                }
            }
            Some(Err(e)) => {
                if exists == Some(true) && !odd && (!faults || r.healthy) {
                    let p = if r.healthy && faults { "C42" } else { "C30" };
                    rep.fail(p, "refused", format!("{} has a solution, but resolving fails{}: {}", sh.ask.text(), if faults { " after faults stopped" } else { "" }, e));
                    if p != "C30" {
                        rep.fail("C31", "refused", format!("{} resolves to nothing after faults stopped: {}", sh.ask.text(), e));
                    }
                    return;
                }
            }
        }
    }
    // the same universe gives an answer every time or never
    if !faults {
        let oks = recs.iter().filter(|r| matches!(r.out, Some(Ok(_)))).count();
        let errs = recs.iter().filter(|r| matches!(r.out, Some(Err(_)))).count();
        if oks > 0 && errs > 0 {
            rep.fail("C31", "sometimes", format!("{}: {} resolutions succeeded and {} failed with the same index and no faults", sh.ask.text(), oks, errs));
        }
    }
    if first.is_none() && exists != Some(false) {
        rep.trivial();
    }
}

fn resolve(rep: &mut Rep) {
    let u = draw_uni(false);
    let ask = draw_ask(&u);
    let uni = Arc::new(Mutex::new(u.clone()));
    super::uni::install(&uni);
    w().time_limit = Some(w().now + 4 * 3600 * 1_000_000_000);
    let sh = Arc::new(RSh { u: uni, ask, recs: Mutex::new(vec![]) });
    w().note(sh.ask.text());
    w().f.switch = *w().ch.pick(&[50, 200, 600]);
    w().f.short = *w().ch.pick(&[0, 0, 100]);
    w().net.f.frag = *w().ch.pick(&[0, 100]);
    w().net.f.delay = *w().ch.pick(&[0, 200]);
    let np = w().ch.range(1, 2);
    let shared = w().ch.chance(600);
    for i in 0..np {
        let sh = sh.clone();
        let times = w().ch.range(1, 2);
        spawn(&format!("p{}", i), move || session(&sh, if shared { "/cache" } else { ["/cache/a", "/cache/b"][i] }, times, None, true, 0));
    }
    let stop = run();
    judge_end(rep, &stop, &["C30", "C42"], &["C42"]);
    // a later session, with what the first left in the cache
    let sh2 = sh.clone();
    spawn("late", move || session(&sh2, if shared { "/cache" } else { "/cache/a" }, 1, None, true, 0));
    let stop = run();
    judge_end(rep, &stop, &["C30", "C42"], &["C42"]);
    judge_all(rep, &sh, &u, &Hints::new(), false, 0);
}

pub fn net_trouble() {
    let wd = w();
    wd.net.f.req = *wd.ch.pick(&[30, 100, 300]);
    wd.net.f.req_budget = *wd.ch.pick(&[1, 3, 10]);
    wd.net.f.conn = *wd.ch.pick(&[0, 100]);
    wd.net.f.conn_budget = 3;
    wd.net.f.dns = *wd.ch.pick(&[0, 50]);
    wd.net.f.statuses = vec![500, 503, 520, 502, 403, 429, 401, 410];
}

fn resolve_faults(rep: &mut Rep) {
    let u = draw_uni(true);
    let ask = draw_ask(&u);
    let uni = Arc::new(Mutex::new(u.clone()));
    super::uni::install(&uni);
    w().time_limit = Some(w().now + 12 * 3600 * 1_000_000_000);
    let sh = Arc::new(RSh { u: uni, ask, recs: Mutex::new(vec![]) });
    w().note(sh.ask.text());
    draw_sched();
    match w().ch.choose(5) {
        0 => net_trouble(),
        1 => draw_io(),
        2 => draw_crash(),
        3 => draw_watch(&["/cache", "/cache/metadata", "/cache/http"]),
        _ => {
            net_trouble();
            draw_io();
            draw_crash();
        }
    }
    let np = w().ch.range(1, 2);
    for i in 0..np {
        let sh = sh.clone();
        let times = w().ch.range(1, 2);
        spawn(&format!("p{}", i), move || session(&sh, "/cache", times, None, false, 0));
    }
    let stop = run();
    judge_end(rep, &stop, &["C30", "C42"], &["C42"]);
    calm();
    if w().ch.chance(250) {
        bad_reads(&["/cache/metadata", "/cache/http", "/cache"]);
        let sh2 = sh.clone();
        spawn("unread", move || session(&sh2, "/cache", 1, None, false, 0));
        let stop = run();
        judge_end(rep, &stop, &["C30", "C42"], &["C42"]);
        calm();
    }
    for (name, cache) in [("again", "/cache"), ("fresh", "/cache/fresh")] {
        let sh = sh.clone();
        spawn(name, move || session(&sh, cache, 1, None, true, 0));
        let stop = run();
        judge_end(rep, &stop, &["C30", "C42"], &["C42"]);
    }
    judge_all(rep, &sh, &u, &Hints::new(), true, 0);
}

/// A release whose wheels are all gone is gone: building is another scenario's business.
pub fn no_builds(u: &mut Uni) {
    for p in &mut u.pkgs {
        for r in &mut p.rels {
            if !r.arts.iter().any(|a| a.listed && a.kind != AK::Sdist) {
                r.arts.iter_mut().for_each(|a| a.listed = false);
            }
        }
    }
}

/// Time passes between two resolutions, the second of which prefers what the first pinned.
fn resolve_like(rep: &mut Rep) {
    let full = draw_uni(false);
    let mut before = full.clone();
    {
        let ch = &mut w().ch;
        for p in &mut before.pkgs {
            let n = p.rels.len();
            for r in &mut p.rels {
                // not out yet
                if n > 1 && ch.chance(350) {
                    for a in &mut r.arts {
                        a.listed = false;
                    }
                }
                for a in &mut r.arts {
                    if a.yanked && ch.chance(800) {
                        a.yanked = false;
                    }
                    if ch.chance(50) {
                        a.listed = false;
                    }
                }
            }
        }
    }
    let mut after = full;
    {
        let ch = &mut w().ch;
        for p in &mut after.pkgs {
            for r in &mut p.rels {
                for a in &mut r.arts {
                    if ch.chance(150) {
                        a.yanked = true;
                    }
                    if ch.chance(40) {
                        a.listed = false;
                    }
                }
            }
        }
    }
    no_builds(&mut before);
    no_builds(&mut after);
    let ask = draw_ask(&before);
    let uni = Arc::new(Mutex::new(before.clone()));
    super::uni::install(&uni);
    w().time_limit = Some(w().now + 12 * 3600 * 1_000_000_000);
    let sh = Arc::new(RSh { u: uni.clone(), ask, recs: Mutex::new(vec![]) });
    w().note(sh.ask.text());
    {
        let sh = sh.clone();
        spawn("first", move || session(&sh, "/cache", 1, None, true, 0));
    }
    let stop = run();
    judge_end(rep, &stop, &["C31", "C30"], &["C42"]);
    judge_all(rep, &sh, &before, &Hints::new(), false, 0);
    let r0 = match sh.recs.lock().unwrap()[0].out.clone() {
        Some(Ok(r)) => r,
        _ => return rep.trivial(),
    };
    *uni.lock().unwrap() = after.clone();
    let hints = r0.hints();
    for (i, cache) in ["/cache", "/cache/other"].iter().enumerate() {
        let sh = sh.clone();
        let json = r0.json.clone();
        spawn(&format!("like{}", i), move || session(&sh, cache, 1, Some(&json), true, 1));
    }
    w().f.switch = *w().ch.pick(&[50, 300]);
    let stop = run();
    judge_end(rep, &stop, &["C31", "C30"], &["C42"]);
    judge_all(rep, &sh, &after, &hints, false, 1);
}
