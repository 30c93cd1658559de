//! Building from source: the real build driver runs in a real Python interpreter whose system
//! calls are simulated; the build backends are ours and can do anything a backend may.

use super::arch::*;
use super::env::{gist, gist_of_pin, score, want_wheel};
use super::resolve::{with_db, Ask, Res, PLAT};
use super::uni::*;
use super::unpack::{diff, want_raw};
use super::util::*;
use crate::pyrun;
use crate::runner::{Rep, Scen};
use crate::sim::*;
use posy::sim_api::{Blueprint, PybiPlatform};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "build", props: &["C40", "C42"], weight: 5, f: build_plain },
        Scen { name: "build_faults", props: &["C40", "C42", "C22"], weight: 8, f: build_faults },
        Scen { name: "build_loop", props: &["C41", "C40"], weight: 6, f: build_loop },
    ]
}

// ---------------------------------------------------------------- sources and their backends

#[derive(Clone, Debug, PartialEq)]
enum Fail {
    /// an exception before anything is written
    Early,
    /// an exception after part of the output was written
    Late,
    /// the interpreter exits in the middle
    Exit,
    /// the whole output is there, and then it fails
    End,
}
/// What the backend of a source package does.
#[derive(Clone, Debug)]
struct Src {
    pkg: String,
    v: Vn,
    id: String,
    ents: Vec<Ent>,
    /// what building it needs: declared, and asked for by the backend
    fixed: Vec<Dep>,
    dynamic: Vec<Dep>,
    /// what it says it needs elsewhere
    elsewhere: Vec<Dep>,
    /// the backend has these steps
    prep: bool,
    getreq: bool,
    binary: bool,
    deps: Vec<Dep>,
    extras: Vec<String>,
    rp: Option<Spec>,
    /// the wheel takes its metadata from the directory it is given
    copies: bool,
    /// the wheel says something else than the metadata step did
    contradicts: bool,
    /// modules its wheel provides (build backends)
    modules: Vec<Ent>,
    /// fails this many times, at the hook
    fails: u32,
    fail_at: &'static str,
    fail: Fail,
    /// for other interpreters only
    foreign: bool,
    size: usize,
}
impl Src {
    fn metadata(&self, note: &str, wheel: bool) -> Vec<u8> {
        let mut deps = self.deps.clone();
        if wheel && self.contradicts {
            deps.push(Dep::on("leaf"));
        }
        metadata(&self.pkg, &self.v, &deps, &self.extras, &self.rp, note)
    }
    fn gist(&self) -> super::env::Gist {
        gist(&self.metadata("", false))
    }
}

fn backend_py(prep: bool, getreq: bool, nest: &[&str]) -> Vec<u8> {
    let mut s = String::from("import _sim\n");
    let mut ind = String::new();
    for n in nest {
        s += &format!("{}class {}:\n", ind, n);
        ind += "    ";
    }
    let dec = if nest.is_empty() { String::new() } else { format!("{}@staticmethod\n", ind) };
    if getreq {
        s += &format!("{}{}def get_requires_for_build_wheel(config_settings=None):\n{}    return _sim.call('requires')\n", dec, ind, ind);
    }
    if prep {
        s += &format!(
            "{}{}def prepare_metadata_for_build_wheel(metadata_directory, config_settings=None):\n{}    return _sim.call('metadata', metadata_directory)\n",
            dec, ind, ind
        );
    }
    s += &format!(
        "{}{}def build_wheel(wheel_directory, config_settings=None, metadata_directory=None):\n{}    return _sim.call('wheel', wheel_directory, metadata_directory)\n",
        dec, ind, ind
    );
    s.into_bytes()
}

/// How a source package says what builds it.
#[derive(Clone, Debug)]
struct Tool {
    /// the package that provides it; None: the source itself
    pkg: Option<&'static str>,
    backend: Option<&'static str>,
    path: Option<&'static str>,
    file: &'static str,
    nest: &'static [&'static str],
    prep: bool,
    getreq: bool,
}
fn draw_tools() -> Vec<Tool> {
    let ch = &mut w().ch;
    let mut t = vec![
        Tool { pkg: Some("setuptools"), backend: None, path: None, file: "setuptools/build_meta.py", nest: &["__legacy__"], prep: true, getreq: true },
        Tool { pkg: Some("hatch-ling"), backend: Some("hatchling.build"), path: None, file: "hatchling/build.py", nest: &[], prep: true, getreq: true },
        Tool { pkg: Some("flit"), backend: Some("flit:api.backend"), path: None, file: "flit/__init__.py", nest: &["api", "backend"], prep: false, getreq: false },
        Tool { pkg: None, backend: Some("inbuild"), path: Some("."), file: "inbuild.py", nest: &[], prep: false, getreq: false },
        Tool { pkg: None, backend: Some("inbuild:Hooks"), path: Some("tools/x"), file: "tools/x/inbuild/__init__.py", nest: &["Hooks"], prep: true, getreq: true },
    ];
    for x in t.iter_mut().skip(1) {
        x.prep = ch.chance(500);
        x.getreq = ch.chance(600);
    }
    t
}
fn module_ents(t: &Tool) -> Vec<Ent> {
    let mut v = vec![Ent::file(t.file, &backend_py(t.prep, t.getreq, t.nest))];
    if t.file.matches('/').count() == 1 && !t.file.ends_with("/__init__.py") {
        let d = t.file.split('/').next().unwrap();
        v.push(Ent::file(&format!("{}/__init__.py", d), b""));
    }
    v
}

// ---------------------------------------------------------------- universes

const WIN: &str = "win_amd64";
const SRC: [&str; 5] = ["app", "foo", "bar.baz", "Qux_lib", "leaf"];

/// needed by builds only
const HELPER: &str = "helper-lib";

struct World2 {
    u: Uni,
    srcs: Vec<Src>,
    py: String,
}

fn draw_world(loopy: bool) -> World2 {
    let mut u = Uni { idx: vec!["http://idx.test/simple/".into()], pkgs: vec![], style: w().ch.choose(2310) as u64, stray: vec![], bad: BTreeMap::new(), fresh: None };
    let mut py = Pkg { name: PY.into(), rels: vec![py_rel("3.10.4", &[PLAT])] };
    let mut want_py = "3.10.4";
    if w().ch.chance(250) {
        py.rels.push(py_rel("3.8.1", &[PLAT]));
        if w().ch.chance(600) {
            want_py = "3.8.1";
        }
    }
    if w().ch.chance(150) {
        py.rels.push(py_rel("3.10.2", &[PLAT]));
    }
    if w().ch.chance(200) {
        for r in py.rels.iter_mut() {
            *r = py_rel(&r.v.s, &[PLAT, WIN]);
        }
    }
    u.pkgs.push(py);
    let tools = draw_tools();
    let mut srcs: Vec<Src> = vec![];
    let np = w().ch.range(1, 5);
    let names: Vec<&str> = SRC[..np].to_vec();
    let tool_names = ["setuptools", "wheel", "hatch-ling", "flit"];
    // packages built from source come first, then what builds them
    let all: Vec<&str> = names.iter().copied().chain(tool_names).collect();
    for (i, name) in all.iter().enumerate() {
        let is_tool = i >= np;
        let ch = &mut w().ch;
        let v = vn(*ch.pick(&["1.0", "2.1"]));
        let mut deps = vec![];
        // what it needs when it runs
        for j in (if is_tool { np } else { i + 1 })..all.len().min(if is_tool { all.len() } else { np }) {
            if j > i && ch.chance(if is_tool { 80 } else { 250 }) {
                let mut d = Dep::on(all[j]);
                if ch.chance(200) {
                    d.spec = vec![Sp { op: ">=", v: "1.0".into() }];
                }
                deps.push(d);
            }
        }
        if loopy && !is_tool && ch.chance(150) {
            // (running needs may go round in circles: that is fine)
            let j = ch.choose(np);
            if j != i && !deps.iter().any(|d: &Dep| d.name == all[j]) {
                deps.push(Dep::on(all[j]));
            }
        }
        let extras: Vec<String> = if ch.chance(200) { vec!["fast".into()] } else { vec![] };
        let rp = if ch.chance(300) { Some(vec![Sp { op: ">=", v: "3.7".into() }]) } else { None };
        let mut arts = vec![];
        // 0: wheel only; 1: source only; 2: source and a wheel for something else; 3: both
        let kind = if is_tool {
            if ch.chance(if loopy { 350 } else { 120 }) {
                *ch.pick(&[1, 1, 2])
            } else {
                0
            }
        } else {
            *ch.pick(&[1, 1, 1, 1, 2, 0, 3])
        };
        let meta = metadata(name, &v, &deps, &extras, &rp, "listed");
        let mut mods = vec![];
        if let Some(t) = tools.iter().find(|t| t.pkg == Some(*name)) {
            mods = module_ents(t);
        }
        if kind != 1 {
            let tag = if kind == 2 {
                *ch.pick(&["cp310-cp310-win_amd64", "cp39-none-any", "cp310-cp310-musllinux_1_1_x86_64"])
            } else {
                "py3-none-any"
            };
            let mut p = payload(name, &v, tag, ch.size(1000));
            p.retain(|e| !mods.iter().any(|m| m.name == e.name));
            p.extend(mods.clone());
            arts.push(wheel(name, &v, tag, meta, p));
        }
        if kind != 0 {
            // which backend
            let mut ti = if is_tool {
                // tools build themselves, mostly
                if ch.chance(if loopy { 400 } else { 900 }) {
                    3 + ch.choose(2)
                } else {
                    ch.choose(3)
                }
            } else {
                ch.choose(5)
            };
            if is_tool && !loopy && ti < 3 {
                ti = 3;
            }
            let t = &tools[ti];
            let mut fixed = vec![];
            let mut dynamic = vec![];
            let need = |ch: &mut Choices, list: &mut Vec<Dep>, n: usize| {
                for _ in 0..n {
                    // without loops, what is needed to build comes later in the list
                    let lo = if loopy { 0 } else { i + 1 };
                    if lo >= all.len() {
                        return;
                    }
                    let j = lo + ch.choose(all.len() - lo);
                    if loopy && j == i && !ch.chance(400) {
                        continue;
                    }
                    if !list.iter().any(|d| norm(&d.name) == norm(all[j])) {
                        let mut d = Dep::on(all[j]);
                        if ch.chance(200) {
                            d.spec = vec![Sp { op: *ch.pick(&[">=", "!="]), v: "0.9".into() }];
                        }
                        list.push(d);
                    }
                }
            };
            let k = *ch.pick(&[0, 0, 1, 2]);
            let k = if is_tool && !loopy { 0 } else { k };
            need(ch, &mut fixed, k);
            let explicit = ti != 0 || !fixed.is_empty() || ch.chance(300);
            if let Some(p) = t.pkg {
                if !fixed.iter().any(|d| d.name == p) {
                    fixed.insert(0, Dep::on(p));
                }
                if p == "setuptools" && (!explicit || ch.chance(600)) && !fixed.iter().any(|d| d.name == "wheel") {
                    fixed.push(Dep::on("wheel"));
                }
            }
            let has_req = t.getreq;
            if has_req && !(is_tool && !loopy) {
                let k = *ch.pick(&[0, 0, 1, 2]);
                need(ch, &mut dynamic, k);
                dynamic.retain(|d| loopy || norm(&d.name) != norm(name));
            }
            // two clauses on one package may contradict: keep them apart
            dynamic.retain(|d| !fixed.iter().any(|f| f.name == d.name));
            // but this one comes in two versions
            if ch.chance(250) {
                let helper = |spec: &(&'static str, &'static str)| {
                    let mut d = Dep::on(HELPER);
                    if !spec.0.is_empty() {
                        d.spec = vec![Sp { op: spec.0, v: spec.1.into() }];
                    }
                    d
                };
                let any = ("", "");
                let (one, two) = *ch.pick(&[(any, any), (any, ("<", "1.0")), (any, ("==", "0.8")), (("<", "1.0"), any), ((">", "0.8"), any), ((">=", "0.8"), ("!=", "1.0"))]);
                if explicit && ch.chance(800) {
                    fixed.push(helper(&one));
                }
                if has_req && ch.chance(800) {
                    dynamic.push(helper(&two));
                }
            }
            let mut elsewhere = vec![vec![], vec![]];
            for (k, list) in [&mut fixed, &mut dynamic].into_iter().enumerate() {
                for d in list.iter_mut() {
                    if ch.chance(150) && (explicit || k == 1) {
                        d.marker = Some(ch.pick(&[Mk::Ver("python_version", ">=", "3", false), Mk::Str("sys_platform", false, "beos")]).clone());
                    }
                }
                if ch.chance(100) {
                    let mut d = Dep::on(all[ch.choose(all.len())]);
                    d.marker = Some(Mk::Str("sys_platform", true, "beos"));
                    elsewhere[k].push(d);
                }
            }
            let mut ents = payload(name, &v, "source", ch.size(1000));
            ents.push(Ent::file("setup.py", b"# nothing\n"));
            let id = format!("{} {}", name, v.s);
            ents.push(Ent::file("sim-id.txt", id.as_bytes()));
            if t.pkg.is_none() {
                ents.extend(module_ents(t));
            }
            if explicit {
                let mut s = String::from("[project]\nname = \"x\"\n\n[build-system]\n");
                s += &format!("requires = [{}]\n", fixed.iter().chain(&elsewhere[0]).map(|d| format!("{:?}", d.text())).collect::<Vec<_>>().join(", "));
                match t.backend {
                    Some(b) => s += &format!("build-backend = {:?}\n", b),
                    None if ch.chance(500) => s += "build-backend = \"setuptools.build_meta:__legacy__\"\n",
                    None => (),
                }
                if let Some(p) = t.path {
                    s += &format!("backend-path = [{:?}]\n", p);
                }
                ents.push(Ent::file("pyproject.toml", s.as_bytes()));
            } else {
                // no say at all: the defaults
                if !fixed.iter().any(|d| d.name == "wheel") {
                    fixed.push(Dep::on("wheel"));
                }
                if ch.chance(400) {
                    ents.push(Ent::file("pyproject.toml", b"[tool.x]\ny = 1\n"));
                }
            }
            let zipped = ch.chance(250);
            let a = sdist(name, &v, ents.clone(), zipped);
            arts.push(a);
            srcs.push(Src {
                pkg: name.to_string(),
                v: v.clone(),
                id,
                ents,
                fixed,
                dynamic,
                elsewhere: elsewhere.remove(1),
                prep: t.prep,
                getreq: has_req,
                binary: ch.chance(300),
                deps: deps.clone(),
                extras: extras.clone(),
                rp: rp.clone(),
                copies: t.prep && ch.chance(400),
                contradicts: false,
                modules: mods.clone(),
                fails: 0,
                fail_at: "wheel",
                fail: Fail::Early,
                foreign: false,
                size: if ch.chance(100) { 30_000 } else { ch.size(2000) },
            });
        }
        u.pkgs.push(Pkg { name: name.to_string(), rels: vec![Rel { v, deps, extras, rp, arts, env: BTreeMap::new(), wheel_tags: vec![] }] });
    }
    let mut helper = Pkg { name: HELPER.into(), rels: vec![] };
    for x in ["1.0", "0.8"] {
        let v = vn(x);
        let meta = metadata(HELPER, &v, &[], &[], &None, "listed");
        let a = wheel(HELPER, &v, "py3-none-any", meta, payload(HELPER, &v, x, 100));
        helper.rels.push(Rel { v, deps: vec![], extras: vec![], rp: None, arts: vec![a], env: BTreeMap::new(), wheel_tags: vec![] });
    }
    u.pkgs.push(helper);
    u.place();
    World2 { u, srcs, py: want_py.into() }
}

// ---------------------------------------------------------------- the model

#[derive(Clone, Debug, PartialEq)]
enum Bad2 {
    Loop,
    /// it cannot work
    Fails(String),
}
#[derive(Default, Debug)]
struct Plan {
    /// sources whose metadata must be built / whose wheel must be built
    meta: BTreeSet<String>,
    wheel: BTreeSet<String>,
    bad: Vec<Bad2>,
}
struct Model<'a> {
    u: &'a Uni,
    srcs: &'a [Src],
    py: &'a Rel,
    plat: String,
    seen: BTreeSet<(String, bool, Vec<String>)>,
    budget: u32,
}
impl<'a> Model<'a> {
    fn src(&self, n: &str) -> Option<&'a Src> {
        self.srcs.iter().find(|s| norm(&s.pkg) == n)
    }
    fn close(&self, reqs: &[Dep]) -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        let mut todo: Vec<Dep> = reqs.to_vec();
        while let Some(d) = todo.pop() {
            if out.insert(d.norm()) {
                if let Some(p) = self.u.pkg(&d.name) {
                    todo.extend(p.rels[0].deps.iter().cloned());
                }
            }
        }
        out
    }
    fn has_wheel(&self, n: &str, fits: bool) -> bool {
        self.u.pkg(n).map_or(false, |p| {
            p.rels[0].arts.iter().any(|a| a.kind == AK::Wheel && a.listed && a.hashed && (!fits || a.tags.iter().any(|t| score(self.py, &self.plat, t).is_some())))
        })
    }
    fn env(&mut self, reqs: &[Dep], stack: &[String], wheels: bool, p: &mut Plan) {
        for n in self.close(reqs) {
            if !self.has_wheel(&n, false) {
                p.meta.insert(n.clone());
                self.build(&n, stack, p);
            }
        }
        if wheels {
            for n in self.close(reqs) {
                if !self.has_wheel(&n, true) {
                    p.wheel.insert(n.clone());
                    self.build(&n, stack, p);
                }
            }
        }
    }
    fn build(&mut self, n: &str, stack: &[String], p: &mut Plan) {
        if stack.contains(&n.to_string()) {
            p.bad.push(Bad2::Loop);
            return;
        }
        let mut key = stack.to_vec();
        key.sort();
        if self.budget == 0 || !self.seen.insert((n.to_string(), true, key)) {
            return;
        }
        self.budget -= 1;
        let s = match self.src(n) {
            Some(s) => s,
            None => {
                p.bad.push(Bad2::Fails(format!("{} cannot be built", n)));
                return;
            }
        };
        let mut st = stack.to_vec();
        st.push(n.to_string());
        let mut reqs = s.fixed.clone();
        reqs.extend(s.dynamic.iter().cloned());
        // (builds happen on this machine, whatever they are for)
        let here = build_plat(&self.plat);
        let target = std::mem::replace(&mut self.plat, here);
        self.env(&reqs, &st, true, p);
        let here = std::mem::replace(&mut self.plat, target);
        if s.binary && here != self.plat {
            p.bad.push(Bad2::Fails(format!("the wheel of {} is for the machine it was built on", n)));
        }
        if s.fails == u32::MAX {
            p.bad.push(Bad2::Fails(format!("building {} fails", n)));
        }
        if s.foreign {
            p.bad.push(Bad2::Fails(format!("the wheel of {} is for something else", n)));
        }
        if s.contradicts && s.prep {
            p.bad.push(Bad2::Fails(format!("the wheel of {} contradicts its metadata", n)));
        }
    }
}
fn build_plat(target: &str) -> String {
    if target == WIN {
        PLAT.into()
    } else {
        target.into()
    }
}
/// What an ask is for: the interpreter's version, and the platform.
fn target(ask: &Ask) -> (String, String) {
    (ask.py[0].v.clone(), ask.plats[0].clone())
}
fn plan(u: &Uni, srcs: &[Src], ask: &Ask, env: bool) -> Plan {
    let (py, plat) = target(ask);
    let rel = u.pkg(PY).unwrap().rel(&vn(&py)).unwrap();
    let mut m = Model { u, srcs, py: rel, plat, seen: BTreeSet::new(), budget: 20_000 };
    let mut p = Plan::default();
    m.env(&ask.reqs, &[], env, &mut p);
    p
}

// ---------------------------------------------------------------- running

#[derive(Clone, Debug)]
struct Attempt {
    src: usize,
    hook: String,
    req: usize,
    b: u64,
    /// it returned: what it made
    done: Option<(String, Vec<u8>)>,
    art: Option<Art>,
}
#[derive(Clone, Debug)]
struct BRec {
    asks: usize,
    env: bool,
    healthy: bool,
    phase: usize,
    b: u64,
    e: u64,
    faults: u64,
    res: Option<Result<Res, String>>,
    out: Option<Result<Vec<String>, String>>,
}
struct Sh {
    u: Arc<Mutex<Uni>>,
    srcs: Mutex<Vec<Src>>,
    asks: Vec<Ask>,
    tries: Mutex<Vec<Attempt>>,
    recs: Mutex<Vec<BRec>>,
    /// the request each process is at
    at: Mutex<BTreeMap<Pid, usize>>,
    /// failures of the backends' own, by the process that asked for the build
    broke: Mutex<Vec<Pid>>,
    bad: Mutex<Vec<(&'static str, &'static str, String)>>,
}
impl Sh {
    fn target(&self, req: usize) -> (String, String) {
        self.recs.lock().unwrap().get(req).map_or((String::new(), String::new()), |r| target(&self.asks[r.asks]))
    }
    fn bad(&self, p: &'static str, s: &'static str, m: String) {
        w().note(format!("WRONG {} {}: {}", p, s, m));
        self.bad.lock().unwrap().push((p, s, m));
    }
}

fn env_of<'a>(spec: &'a ExecSpec, k: &str) -> &'a str {
    spec.env.iter().find(|(n, _)| n == k).map_or("", |x| x.1.as_str())
}

/// The simulated machine's programs: only Python, and only to build.
fn run_python(sh: &Arc<Sh>, spec: &ExecSpec) -> i32 {
    let prefix = spec.prog.strip_suffix("/bin/python").unwrap_or("").to_string();
    // which interpreter is this?
    let bytes = w().fs.get(&spec.prog).unwrap_or_default();
    let which = {
        let u = sh.u.lock().unwrap();
        u.pkg(PY).unwrap().rels.iter().find(|r| r.arts.iter().any(|a| a.ents.iter().any(|e| e.data == bytes && !bytes.is_empty()))).map(|r| r.v.s.clone())
    };
    let parent = w().procs[me()].parent;
    let req = sh.at.lock().unwrap().get(&parent).copied().unwrap_or(usize::MAX);
    let want = sh.target(req).0;
    match &which {
        None => {
            sh.bad("C40", "no-python", format!("{} is not an interpreter of the environment", spec.prog));
            return 127;
        }
        Some(v) if *v != want => sh.bad("C40", "other-python", format!("built with python {} for python {}", v, want)),
        _ => (),
    }
    if env_of(spec, "POSY_PYTHON") != spec.prog {
        sh.bad("C40", "vars", format!("POSY_PYTHON is {:?}, running {}", env_of(spec, "POSY_PYTHON"), spec.prog));
    }
    let p = pyrun::Prog { spec, stdlib: format!("{}/{}", prefix, STDLIB), purelib: format!("{}/{}", prefix, PURELIB), prefix };
    let (rc, msg) = pyrun::exec(&p, &mut |hook, a| backend(sh, spec, parent, req, hook, a));
    w().note(format!("python ended with {}: {}", rc, msg));
    rc
}

fn put_slowly(path: &str, data: &[u8]) -> Result<(), String> {
    use std::io::Write;
    let e = |e: std::io::Error| format!("{}: {}", path, e);
    let mut f = std::fs::File::create(path).map_err(e)?;
    let n = w().ch.range(1, 3);
    let step = data.len() / n + 1;
    for c in data.chunks(step) {
        f.write_all(c).map_err(e)?;
    }
    Ok(())
}

/// A call of the backend, in the interpreter's process.
fn backend(sh: &Arc<Sh>, spec: &ExecSpec, parent: Pid, req: usize, hook: &str, a: &[Value]) -> Result<Value, String> {
    let cwd = w().fs.path_of(w().procs[me()].cwd);
    let id = w().fs.get(&format!("{}/sim-id.txt", cwd)).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
    let (si, s) = {
        let g = sh.srcs.lock().unwrap();
        match g.iter().position(|s| s.id == id) {
            Some(i) => (i, g[i].clone()),
            None => {
                drop(g);
                sh.bad("C40", "wrong-dir", format!("a build backend was called in {}, which is no source tree", cwd));
                return Err("where am I?".into());
            }
        }
    };
    w().probe(match hook {
        "requires" => "hook_requires",
        "metadata" => "hook_metadata",
        _ => "hook_wheel",
    });
    w().note(format!("{}: {} in {}", s.id, hook, cwd));
    // the source tree is whole
    let mut tree = w().fs.tree(&cwd);
    tree.retain(|k, _| k != "build" && !k.starts_with("build/") && !k.contains("__pycache__"));
    if let Some(x) = diff(&tree, &want_raw(&s.ents), &[]) {
        sh.bad("C40", "source", format!("{}: the source tree the backend sees is not the source package: {}", s.id, x));
    }
    // everything asked for is there
    let paths: Vec<String> = a.first().and_then(|v| v.as_array()).map_or(vec![], |v| v.iter().filter_map(|x| x.as_str()).map(|x| x.to_string()).collect());
    let mut need = s.fixed.clone();
    if hook != "requires" {
        need.extend(s.dynamic.iter().cloned());
    }
    let u = sh.u.lock().unwrap().clone();
    let mut seen = BTreeSet::new();
    let mut todo: Vec<(String, Dep)> = need.iter().map(|d| ("the build".to_string(), d.clone())).collect();
    while let Some((who, d)) = todo.pop() {
        let rel = match u.pkg(&d.name) {
            Some(p) => &p.rels[0],
            None => continue,
        };
        if !seen.insert(d.norm()) {
            continue;
        }
        // (any version that all of them take)
        let m = u.pkg(&d.name).unwrap().rels.iter().filter(|r| need.iter().all(|q| q.norm() != d.norm() || sat(&q.spec, &r.v))).find_map(|r| {
            let di = dist_info(&d.name, &r.v);
            paths.iter().find_map(|p| w().fs.get(&format!("{}/{}/METADATA", p, di)))
        });
        let init = format!("{}/__init__.py", d.norm().replace('-', "_"));
        let code = paths.iter().any(|p| w().fs.exists(&format!("{}/{}", p, init)));
        if m.is_none() || !code {
            sh.bad("C40", "missing-requirement", format!("{}: {} needs {}, which is not in the build environment ({})", s.id, who, d.text(), hook));
        }
        for x in &rel.deps {
            todo.push((d.norm(), x.clone()));
        }
    }
    // does it work this time?
    let mut fail = None;
    {
        let mut g = sh.srcs.lock().unwrap();
        let t = &mut g[si];
        if t.fails > 0 && t.fail_at == hook {
            fail = Some(t.fail.clone());
            if t.fails != u32::MAX {
                t.fails -= 1;
            }
        }
    }
    if fail.is_some() {
        w().stat("backend_failure");
        w().faults_last_step = w().steps;
        let mut p = parent;
        while p != 0 {
            sh.broke.lock().unwrap().push(p);
            p = w().procs[p].parent;
        }
        w().procs[me()].nfaults += 1;
    }
    let k = {
        let mut g = sh.tries.lock().unwrap();
        g.push(Attempt { src: si, hook: hook.into(), req, b: seq(), done: None, art: None });
        g.len() - 1
    };
    let nonce = format!("{} attempt {}", s.id, k);
    let err = |f: &Fail| Err(if *f == Fail::Exit { "exit".to_string() } else { "the backend does not feel like it".to_string() });
    if fail == Some(Fail::Early) {
        return err(&Fail::Early);
    }
    // backends leave things lying about
    std::fs::create_dir_all("build").map_err(|e| e.to_string())?;
    std::fs::write("build/scratch.txt", nonce.as_bytes()).map_err(|e| e.to_string())?;
    let dir = |i: usize| a.get(i).and_then(|v| v.as_str()).map(|x| x.to_string());
    let finish = |name: String, bytes: Vec<u8>, art: Option<Art>, v: Value| {
        if !dead() {
            let mut g = sh.tries.lock().unwrap();
            g[k].done = Some((name, bytes));
            g[k].art = art;
        }
        Ok(v)
    };
    match hook {
        "requires" => {
            if let Some(f) = &fail {
                return err(f);
            }
            let v: Vec<String> = s.dynamic.iter().chain(&s.elsewhere).map(|d| d.text()).collect();
            finish(String::new(), vec![], None, json!(v))
        }
        "metadata" => {
            let d = dir(1).ok_or("no metadata directory")?;
            let di = dist_info(&s.pkg, &s.v);
            let m = s.metadata(&nonce, false);
            std::fs::create_dir(format!("{}/{}", d, di)).map_err(|e| format!("{}/{}: {}", d, di, e))?;
            let path = format!("{}/{}/METADATA", d, di);
            if matches!(fail, Some(Fail::Late | Fail::Exit)) {
                put_slowly(&path, &m[..m.len() / 2])?;
                return err(fail.as_ref().unwrap());
            }
            put_slowly(&path, &m)?;
            if let Some(f) = &fail {
                return err(f);
            }
            finish(di.clone(), m, None, json!(di))
        }
        "wheel" => {
            let d = dir(1).ok_or("no wheel directory")?;
            let mut m = s.metadata(&nonce, true);
            if let Some(md) = dir(2) {
                // must be what the metadata step made
                let text = std::fs::read(format!("{}/METADATA", md));
                let made: Vec<Vec<u8>> = sh.tries.lock().unwrap().iter().filter(|t| t.src == si && t.hook == "metadata").filter_map(|t| t.done.clone()).map(|x| x.1).collect();
                match text {
                    Ok(t) if made.contains(&t) => {
                        if s.copies && !s.contradicts {
                            m = t;
                        }
                    }
                    Ok(_) => sh.bad("C40", "metadata-directory", format!("{}: build_wheel was given a metadata directory with something its metadata step never finished", s.id)),
                    Err(e) if w().procs[me()].nfaults == 0 => {
                        sh.bad("C40", "metadata-directory", format!("{}: build_wheel was given a metadata directory without METADATA: {}", s.id, e));
                    }
                    Err(e) => return Err(e.to_string()),
                }
            }
            let cp = format!("cp{}", sh.target(req).0.split('.').take(2).collect::<String>());
            let tag = if s.foreign {
                "cp27-none-any".to_string()
            } else if s.binary {
                format!("{}-{}-linux_x86_64", cp, cp)
            } else {
                "py3-none-any".to_string()
            };
            let mut p = payload(&s.pkg, &s.v, &nonce, s.size);
            p.retain(|e| !s.modules.iter().any(|m| m.name == e.name));
            p.extend(s.modules.clone());
            let art = wheel(&s.pkg, &s.v, &tag, m, p);
            let path = format!("{}/{}", d, art.file);
            if matches!(fail, Some(Fail::Late | Fail::Exit)) {
                put_slowly(&path, &art.bytes[..art.bytes.len() / 2])?;
                return err(fail.as_ref().unwrap());
            }
            put_slowly(&path, &art.bytes)?;
            if let Some(f) = &fail {
                return err(f);
            }
            let _ = spec;
            finish(art.file.clone(), art.bytes.to_vec(), Some(art.clone()), json!(art.file))
        }
        _ => Err("no such hook".into()),
    }
}

/// Everything that went wrong for a process and the programs it started.
fn troubles(sh: &Sh, pid: Pid) -> u64 {
    let wd = w();
    let mut n = 0;
    for p in 1..wd.procs.len() {
        let mut a = p;
        while a != 0 && a != pid {
            a = wd.procs[a].parent;
        }
        if a == pid {
            n += wd.procs[p].nfaults;
            if p != pid && wd.procs[p].ended == Some(Ended::Killed) {
                n += 1;
            }
        }
    }
    n + sh.broke.lock().unwrap().iter().filter(|p| **p == pid).count() as u64 + net_faults(pid, 0, u64::MAX)
}

fn request(sh: &Sh, cache: &str, asks: &[(usize, bool)], healthy: bool, phase: usize) {
    let idx = sh.u.lock().unwrap().idx.clone();
    let mut f0 = 0;
    let begin = |ask: usize, env: bool| {
        let mut g = sh.recs.lock().unwrap();
        g.push(BRec { asks: ask, env, healthy, phase, b: seq(), e: u64::MAX, faults: 0, res: None, out: None });
        sh.at.lock().unwrap().insert(me(), g.len() - 1);
        g.len() - 1
    };
    let mut i = 0;
    let mut open = None;
    let r = with_db(cache, &idx, |db, forest| {
        for (ask, env) in asks {
            let id = begin(*ask, *env);
            open = Some(id);
            let a = &sh.asks[*ask];
            let pp: Vec<PybiPlatform> = a.plats.iter().map(|s| PybiPlatform::new(s)).collect();
            let prefs: Vec<&PybiPlatform> = pp.iter().collect();
            let r = a.brief()?.resolve(db, &prefs, None, &[]);
            let mut bp: Option<Blueprint> = None;
            let res = match r {
                Ok(b) => {
                    let x = Res::of(&b);
                    bp = Some(b);
                    Ok(x)
                }
                Err(e) => Err(format!("{:?}", e)),
            };
            if dead() {
                return Ok(());
            }
            w().note(format!("request {}: {}", id, match &res { Ok(x) => x.text(), Err(e) => e.clone() }));
            let mut out = None;
            if let (true, Some(b)) = (*env, &bp) {
                let r = forest.get_env(db, b, &prefs, &[]);
                if dead() {
                    return Ok(());
                }
                let o = match r {
                    Ok(e) => Ok(e.lib_dirs.iter().map(|p| p.to_string_lossy().to_string()).collect::<Vec<_>>()),
                    Err(e) => Err(format!("{:?}", e)),
                };
                w().note(format!("request {}: environment {}", id, match &o { Ok(x) => x.join(" "), Err(e) => e.clone() }));
                if let (Ok(libs), Ok(x)) = (&o, &res) {
                    inspect(sh, a, x, libs);
                }
                out = Some(o);
            }
            let f = troubles(sh, me());
            let mut g = sh.recs.lock().unwrap();
            g[id].e = seq();
            g[id].faults = f - f0;
            g[id].res = Some(res);
            g[id].out = out;
            f0 = f;
            i += 1;
            open = None;
        }
        Ok(())
    });
    if let Err(e) = r {
        if dead() {
            return;
        }
        // opening the stores failed, or the request could not be put at all
        let f = troubles(sh, me());
        for (k, (ask, env)) in asks.iter().enumerate().skip(i) {
            let id = match (k == i, open) {
                (true, Some(id)) => id,
                _ => begin(*ask, *env),
            };
            let mut g = sh.recs.lock().unwrap();
            g[id].e = seq();
            g[id].faults = f - f0;
            g[id].res = Some(Err(format!("{:?}", e)));
        }
    }
}

/// A returned environment holds complete results of completed builds.
fn inspect(sh: &Sh, ask: &Ask, res: &Res, libs: &[String]) {
    if libs.len() != res.pins.len() {
        sh.bad("C40", "shape", format!("{} pins, {} installed", res.pins.len(), libs.len()));
        return;
    }
    let u = sh.u.lock().unwrap().clone();
    let (py, plat) = target(ask);
    let py = u.pkg(PY).unwrap().rel(&vn(&py)).unwrap();
    // (what was built here is tagged for this machine in the end)
    let fits = |t: &str| score(py, &plat, t).is_some() || plat != WIN && score(py, "linux_x86_64", t).is_some();
    for (p, l) in res.pins.iter().zip(libs) {
        let root = l.rsplit_once('/').map_or("", |x| x.0);
        let tree = w().fs.tree(root);
        let rel = match u.pkg(&p.name) {
            Some(x) => &x.rels[0],
            None => continue,
        };
        let listed: Vec<&Art> = rel.arts.iter().filter(|a| a.kind == AK::Wheel && a.tags.iter().any(|t| score(py, &plat, t).is_some())).collect();
        let tries = sh.tries.lock().unwrap();
        let srcs = sh.srcs.lock().unwrap();
        let built: Vec<&Art> =
            if listed.is_empty() { tries.iter().filter(|t| norm(&srcs[t.src].pkg) == p.name).filter_map(|t| t.art.as_ref()).filter(|a| a.tags.iter().any(|t| fits(t))).collect() } else { vec![] };
        let mut why = "no build of it ever finished".to_string();
        let ok = listed.iter().copied().chain(built.iter().copied()).any(|a| {
            let (want, opt) = want_wheel(a, &p.name, &rel.v);
            match diff(&tree, &want, &opt) {
                None => true,
                Some(x) => {
                    why = x;
                    false
                }
            }
        });
        drop(tries);
        drop(srcs);
        if !ok {
            if any_io_error() || fired("process_kill") || fired("power_loss") {
                sh.bad("C22", "installed", format!("{} {} at {} is not complete: {}", p.name, p.v, root, why));
            }
            sh.bad("C40", "installed", format!("{} {} at {} is not the wheel a finished build made: {}", p.name, p.v, root, why));
        }
    }
}

fn judge(rep: &mut Rep, sh: &Sh, loops_prop: bool, phase: usize, u: &Uni) {
    for (p, s, m) in sh.bad.lock().unwrap().drain(..) {
        rep.fail(p, s, m);
    }
    let recs: Vec<BRec> = sh.recs.lock().unwrap().clone();
    let srcs0 = sh.srcs.lock().unwrap().clone();
    let faulty = recs.iter().any(|r| r.faults > 0) || any_io_error() || fired("process_kill") || fired("power_loss") || fired("backend_failure");
    for (ri, r) in recs.iter().enumerate().filter(|(_, r)| r.phase == phase) {
        let ask = &sh.asks[r.asks];
        let pr = plan(u, &srcs0, ask, false);
        let pe = plan(u, &srcs0, ask, true);
        let what = format!("{} on {}{}", ask.text(), ask.plats[0], if r.env { " (environment)" } else { "" });
        let err = match (&r.res, &r.out) {
            (None, _) => continue,
            (Some(Err(e)), _) => Some((e, &pr)),
            (_, Some(Err(e))) => Some((e, &pe)),
            _ => None,
        };
        // a resolution is what the backends said
        if let Some(Ok(x)) = &r.res {
            for p in &x.pins {
                if let (Some(s), true) = (srcs0.iter().find(|s| norm(&s.pkg) == p.name), pr.meta.contains(&p.name)) {
                    // (a wheel that says something else may have been built before)
                    if gist_of_pin(p) != s.gist() && !(s.contradicts && gist_of_pin(p) == gist(&s.metadata("", true))) {
                        rep.fail("C40", "metadata", format!("{}: {} is resolved with {:?}, its backend says {:?}", what, p.name, gist_of_pin(p), s.gist()));
                    }
                }
            }
            if pr.bad.contains(&Bad2::Loop) {
                rep.fail("C41", "loop-missed", format!("{}: resolved, although that needs a build that needs itself", what));
            }
            if let (true, Some(Ok(_)), true) = (r.env, &r.out, pe.bad.contains(&Bad2::Loop)) {
                rep.fail("C41", "loop-missed", format!("{}: an environment was made, although that needs a build that needs itself", what));
            }
            if let (true, Some(Ok(_))) = (r.env, &r.out) {
                // (a contradiction shows only to those who had the metadata first)
                let from_wheel = sh.tries.lock().unwrap().iter().any(|t| t.hook == "wheel" && t.done.is_some() && t.b < r.e && srcs0[t.src].contradicts && (t.b < r.b || t.req != ri))
                    || matches!(&r.res, Some(Ok(x)) if x.pins.iter().any(|p| srcs0.iter().any(|s| s.contradicts && norm(&s.pkg) == p.name && gist_of_pin(p) != s.gist())));
                if let (Some(Bad2::Fails(x)), false) = (pe.bad.iter().find(|b| matches!(b, Bad2::Fails(_))), from_wheel) {
                    rep.fail("C40", "should-fail", format!("{}: an environment was made, although {}", what, x));
                }
                w().probe("env_made");
                if !pe.wheel.is_empty() {
                    w().probe("env_made_with_built_wheels");
                }
            }
        }
        match err {
            None => (),
            Some((e, p)) => {
                let says = e.contains("loop");
                let is = p.bad.contains(&Bad2::Loop);
                if is {
                    w().probe("loop");
                    let cyc: Vec<String> = srcs0.iter().filter(|s| e.contains(&s.pkg) || e.contains(&norm(&s.pkg))).map(|s| s.pkg.clone()).collect();
                    if r.faults == 0 && p.bad.iter().all(|b| *b == Bad2::Loop) && !(says && !cyc.is_empty()) {
                        rep.fail("C41", "unnamed", format!("{}: needs a build that needs itself; the error does not say so: {}", what, e));
                    }
                } else if says {
                    rep.fail("C41", "false-loop", format!("{}: there is no loop, but: {}", what, e));
                } else if fired("eintr") && (e.contains("(os error 4)") || e.contains("tree.rs")) {
                    // (the tar and gzip readers don't go on after a signal)
                    w().probe("interrupted");
                } else if p.bad.is_empty() && r.faults == 0 {
                    let m = format!("{}: {}{}", what, e, if faulty && r.healthy { " (after faults stopped)" } else { "" });
                    if faulty && r.healthy {
                        rep.fail("C42", "refused-after-faults", m.clone());
                        if matches!(r.out, Some(Err(_))) {
                            rep.fail("C22", "refused-after-faults", m.clone());
                        }
                        rep.fail("C40", "stuck-failure", m);
                    } else if faulty {
                        rep.fail("C40", "others-failure", m);
                    } else {
                        rep.fail(if loops_prop { "C41" } else { "C40" }, "refused", m.clone());
                        rep.fail("C40", "refused", m);
                    }
                }
            }
        }
        // nothing is built again
        let tries = sh.tries.lock().unwrap();
        for t in tries.iter().filter(|t| t.req == ri) {
            for t0 in tries.iter().filter(|o| o.src == t.src && o.hook == t.hook && o.done.is_some() && o.b < t.b) {
                let q = match recs.get(t0.req) {
                    Some(q) if q.e < r.b && matches!(q.res, Some(Ok(_))) && !matches!(q.out, Some(Err(_))) => q,
                    _ => continue,
                };
                if target(&sh.asks[q.asks]) == target(ask) && ask.plats[0] != WIN {
                    rep.fail("C40", "built-again", format!("{}: {} of {} ran, although an earlier request had that already", what, t.hook, srcs0[t.src].id));
                }
            }
        }
    }
    // the same thing is built once
    if !faulty {
        let tries = sh.tries.lock().unwrap();
        for (i, s) in srcs0.iter().enumerate() {
            for h in ["requires", "metadata", "wheel"] {
                let mut by: BTreeMap<(String, String), u32> = BTreeMap::new();
                for t in tries.iter().filter(|t| t.src == i && t.hook == h) {
                    let n = by.entry(sh.target(t.req)).or_default();
                    *n += 1;
                    // (once to run here and once for there)
                    if *n > if sh.target(t.req).1 == WIN { 2 } else { 1 } {
                        rep.fail("C40", "built-twice", format!("{}: {} ran {} times for {:?}", s.id, h, n, sh.target(t.req)));
                    }
                }
                if by.len() > 1 {
                    w().probe("built_for_several_targets");
                }
            }
        }
    }
    // what is kept is what finished builds made
    let tries = sh.tries.lock().unwrap();
    for (k, n) in w().fs.tree("/cache") {
        if let (true, Node::File { data, .. }) = (k.contains("local-wheels") && k.ends_with(".whl"), n) {
            if !tries.iter().any(|t| t.art.as_ref().map_or(false, |a| *a.bytes == data)) {
                rep.fail("C40", "kept", format!("/cache/{} is not the wheel of any finished build", k));
            }
        }
    }
}

// ---------------------------------------------------------------- scenarios

fn begin(x: World2) -> Arc<Sh> {
    let reqs: Vec<String> = x.u.pkgs.iter().map(|p| p.name.clone()).filter(|n| SRC.contains(&n.as_str())).collect();
    let mut asks = vec![];
    let pyp = x.u.pkg(PY).unwrap();
    let pys: Vec<String> = pyp.rels.iter().map(|r| r.v.s.clone()).collect();
    let mut plats = vec!["manylinux_2_28_x86_64"];
    if pyp.rels[0].arts.len() > 1 {
        plats.push(WIN);
    }
    plats.retain(|p| *p == WIN || PybiPlatform::new(p).is_native().unwrap_or(false));
    if plats.is_empty() {
        plats.push(PLAT);
    }
    let n = w().ch.range(1, 2);
    for i in 0..n {
        let mut deps = vec![Dep::on(&reqs[if i == 0 { 0 } else { w().ch.choose(reqs.len()) }])];
        if w().ch.chance(300) {
            let d = Dep::on(&reqs[w().ch.choose(reqs.len())]);
            if d.name != deps[0].name {
                deps.push(d);
            }
        }
        let mut py = x.py.clone();
        let mut plat = PLAT;
        if w().ch.chance(250) {
            py = w().ch.pick(&pys).clone();
        }
        if w().ch.chance(200) {
            plat = *w().ch.pick(&plats);
        }
        asks.push(Ask { py: vec![Sp { op: "==", v: py }], reqs: deps, allow: Some(vec![]), plats: vec![plat.into()] });
    }
    for s in &x.srcs {
        w().note(format!(
            "{}: built with {} then {}; hooks {}{}{}{}",
            s.id,
            s.fixed.iter().map(|d| d.text()).collect::<Vec<_>>().join(", "),
            s.dynamic.iter().map(|d| d.text()).collect::<Vec<_>>().join(", "),
            if s.getreq { "requires " } else { "" },
            if s.prep { "metadata " } else { "" },
            if s.binary { "binary " } else { "" },
            if s.fails > 0 { format!("fails {} at {} {:?}", s.fails, s.fail_at, s.fail) } else { String::new() }
        ));
    }
    for p in &x.u.pkgs {
        for r in &p.rels {
            w().note(format!("{} {}: {}; needs {}", p.name, r.v.s, r.arts.iter().map(|a| a.file.clone()).collect::<Vec<_>>().join(" "), r.deps.iter().map(|d| d.text()).collect::<Vec<_>>().join(", ")));
        }
    }
    let sh = Arc::new(Sh {
        u: Arc::new(Mutex::new(x.u)),
        srcs: Mutex::new(x.srcs),
        asks,
        tries: Mutex::new(vec![]),
        recs: Mutex::new(vec![]),
        at: Mutex::new(BTreeMap::new()),
        broke: Mutex::new(vec![]),
        bad: Mutex::new(vec![]),
    });
    super::uni::install(&sh.u);
    w().time_limit = Some(w().now + 24 * 3600 * 1_000_000_000);
    w().step_limit = 1_500_000;
    let s2 = sh.clone();
    w().exec = Some(Arc::new(move |spec: &ExecSpec| {
        let (sh, spec) = (s2.clone(), spec.clone());
        Box::new(move || run_python(&sh, &spec))
    }));
    if w().ch.chance(150) {
        // the cache and the build area are different file systems
        w().fs.mount("/build");
    }
    sh
}
fn launch(sh: &Arc<Sh>, n: usize, healthy: bool, phase: usize, one_cache: bool) {
    for i in 0..n {
        let mut asks = vec![];
        for _ in 0..w().ch.range(1, 2) {
            asks.push((w().ch.choose(sh.asks.len()), w().ch.chance(750)));
        }
        let sh = sh.clone();
        spawn(&format!("posy{}", i), move || request(&sh, if one_cache { "/cache" } else { ["/cache/a", "/cache/b", "/cache/c"][i] }, &asks, healthy, phase));
    }
}
fn again(rep: &mut Rep, sh: &Arc<Sh>, phase: usize, stuck: &[&str]) {
    let fresh = w().ch.chance(300);
    for cache in ["/cache", "/cache/fresh"] {
        if cache != "/cache" && !fresh {
            break;
        }
        let asks: Vec<(usize, bool)> = (0..sh.asks.len()).map(|i| (i, true)).collect();
        let sh = sh.clone();
        spawn("again", move || request(&sh, cache, &asks, true, phase));
        let stop = run();
        judge_end(rep, &stop, &["C42"], stuck);
    }
}

fn build_plain(rep: &mut Rep) {
    let mut x = draw_world(false);
    // now and then something cannot work at all
    if w().ch.chance(200) && !x.srcs.is_empty() {
        let i = w().ch.choose(x.srcs.len());
        let s = &mut x.srcs[i];
        match w().ch.choose(4) {
            0 => {
                s.fails = u32::MAX;
                s.fail_at = "wheel";
                s.prep = s.prep;
                s.fail = w().ch.pick(&[Fail::Early, Fail::Late, Fail::Exit, Fail::End]).clone();
                if s.prep {
                    s.foreign = false;
                }
            }
            1 => s.foreign = true,
            2 if s.prep && !s.deps.iter().any(|d| d.name == "leaf") && x.u.pkg("leaf").is_some() && s.pkg != "leaf" => {
                s.contradicts = true;
                s.copies = false;
            }
            _ => (),
        }
    }
    let u = x.u.clone();
    let any = !x.srcs.is_empty();
    let sh = begin(x);
    w().f.switch = *w().ch.pick(&[50, 200, 600]);
    w().f.short = *w().ch.pick(&[0, 0, 100]);
    let one = w().ch.chance(700);
    let n = w().ch.range(1, 3);
    launch(&sh, n, true, 1, one);
    let stop = run();
    judge_end(rep, &stop, &["C42"], &["C42", "C40"]);
    judge(rep, &sh, false, 1, &u);
    again(rep, &sh, 2, &["C42", "C40"]);
    judge(rep, &sh, false, 2, &u);
    if !any {
        rep.trivial();
    }
}

fn build_faults(rep: &mut Rep) {
    let mut x = draw_world(false);
    for s in &mut x.srcs {
        if w().ch.chance(300) {
            let ch = &mut w().ch;
            s.fails = ch.range(1, 2) as u32;
            s.fail_at = *ch.pick(&["wheel", "metadata", "requires", "wheel"]);
            s.fail = ch.pick(&[Fail::Early, Fail::Late, Fail::Exit, Fail::End]).clone();
        }
    }
    let u = x.u.clone();
    let any = !x.srcs.is_empty();
    let sh = begin(x);
    draw_sched();
    match w().ch.choose(8) {
        0 => super::resolve::net_trouble(),
        1 => draw_io(),
        2 => draw_crash(),
        3..=5 => draw_watch(&["/forest", "/forest", "/cache", "/build", "/"]),
        6 => (),
        _ => {
            super::resolve::net_trouble();
            draw_io();
            draw_crash();
        }
    }
    let one = w().ch.chance(800);
    let n = w().ch.range(1, 3);
    launch(&sh, n, false, 1, one);
    let stop = run();
    judge_end(rep, &stop, &["C42"], &["C42", "C40"]);
    judge(rep, &sh, false, 1, &u);
    calm();
    for s in sh.srcs.lock().unwrap().iter_mut() {
        s.fails = 0;
    }
    if w().ch.chance(400) {
        let n = w().ch.range(1, 2);
        launch(&sh, n, true, 2, one);
        let stop = run();
        judge_end(rep, &stop, &["C42"], &["C42", "C40"]);
        judge(rep, &sh, false, 2, &u);
    }
    again(rep, &sh, 3, &["C42", "C40"]);
    judge(rep, &sh, false, 3, &u);
    if !any {
        rep.trivial();
    }
}

fn build_loop(rep: &mut Rep) {
    let x = draw_world(true);
    let u = x.u.clone();
    let any = !x.srcs.is_empty();
    let sh = begin(x);
    w().f.switch = *w().ch.pick(&[50, 200]);
    let rounds = w().ch.range(1, 2);
    for k in 0..rounds {
        launch(&sh, 1, true, 1 + k, true);
        let stop = run();
        judge_end(rep, &stop, &["C41", "C42"], &["C41", "C42"]);
        judge(rep, &sh, true, 1 + k, &u);
    }
    again(rep, &sh, 9, &["C41", "C42"]);
    judge(rep, &sh, true, 9, &u);
    if !any {
        rep.trivial();
    }
}
