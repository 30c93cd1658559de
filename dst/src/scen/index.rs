//! What an index says about a package, and where its metadata comes from.

use super::resolve::*;
use super::uni::*;
use super::util::*;
use crate::runner::{Rep, Scen};
use crate::sim::*;
use posy::sim_api::{ArtifactHash, ArtifactInfo, KVFileStore, PackageDB, PackageName, Pybi, Version, Wheel};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::{Arc, Mutex};

pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "index", props: &["C32"], weight: 6, f: index },
        Scen { name: "metadata", props: &["C33", "C42"], weight: 6, f: metadata_scen },
    ]
}

pub fn pkgname(s: &str) -> PackageName {
    PackageName::try_from(s).unwrap()
}

/// An entry of a listing: version, address, hash, withdrawn, wanted python
type Line = (String, String, String, bool, String);

fn line_of(ai: &ArtifactInfo) -> Line {
    (
        ai.name.version().to_string(),
        ai.url.as_str().split('#').next().unwrap().to_string(),
        ai.hash.as_ref().map_or(String::new(), |h| hexs(&h.raw_data)),
        ai.yanked.yanked,
        ai.requires_python.clone().unwrap_or_default(),
    )
}
fn want_lines(u: &Uni, i: usize, name: &str) -> Vec<Line> {
    let mut v = vec![];
    if let Some(p) = u.pkg(name) {
        for r in &p.rels {
            for a in &r.arts {
                if a.idx == i && a.listed {
                    let n = if a.kind == AK::Pybi { a.tags.len() } else { 1 };
                    for _ in 0..n {
                        v.push((
                            vstr(&r.v.s),
                            a.url.clone(),
                            if a.hashed { a.hash() } else { String::new() },
                            a.yanked,
                            a.rp.as_ref().map_or(String::new(), spec_text),
                        ));
                    }
                }
            }
        }
    }
    v.sort();
    v
}
fn vstr(s: &str) -> String {
    Version::try_from(s).unwrap().to_string()
}

// ---------------------------------------------------------------- C32

#[derive(Clone, Debug)]
struct IRec {
    pid: Pid,
    session: usize,
    pkg: String,
    b: u64,
    e: u64,
    faults: u64,
    out: Option<Result<Vec<Line>, String>>,
    ordered: bool,
}
struct ISh {
    u: Arc<Mutex<Uni>>,
    /// (when, what the world was from then on)
    hist: Mutex<Vec<(u64, Uni)>>,
    recs: Mutex<Vec<IRec>>,
    sessions: Mutex<usize>,
}

const BAD: [u16; 17] = [500, 403, 401, 410, 503, 400, 429, 405, 451, 502, 520, 300, 305, 302, 307, 304, 402];

fn draw_bad(ch: &mut Choices) -> Bad {
    match ch.choose(8) {
        0 => Bad::Type(*ch.pick(&["application/json", "text/plain", "application/vnd.pypi.simple.v1+json", "nonsense"])),
        1 => Bad::Version(*ch.pick(&["2.0", "0.9", "10.1"])),
        _ => Bad::Status(*ch.pick(&BAD)),
    }
}

fn index(rep: &mut Rep) {
    let mut u = draw_uni(true);
    {
        let ch = &mut w().ch;
        if ch.chance(300) {
            u.idx.push("http://third.test/root/pypi/+simple/".into());
        }
        let n = u.idx.len();
        for p in &mut u.pkgs {
            for r in &mut p.rels {
                for a in &mut r.arts {
                    a.idx = ch.choose(n);
                    a.listed = !ch.chance(80);
                }
            }
        }
    }
    let names: Vec<String> = u.pkgs.iter().map(|p| p.name.clone()).chain(["absent.pkg".to_string()]).collect();
    // some page is in a bad way from the start
    if w().ch.chance(350) {
        let ch = &mut w().ch;
        let (i, n) = (ch.choose(u.idx.len()), names[ch.choose(names.len())].clone());
        let b = draw_bad(ch);
        u.bad.insert((i, norm(&n)), b);
    }
    let uni = Arc::new(Mutex::new(u.clone()));
    super::uni::install(&uni);
    w().net.hosts.push("third.test".into());
    w().time_limit = Some(w().now + 24 * 3600 * 1_000_000_000);
    let sh = Arc::new(ISh { u: uni, hist: Mutex::new(vec![(0, u)]), recs: Mutex::new(vec![]), sessions: Mutex::new(0) });
    w().f.switch = *w().ch.pick(&[50, 200, 600]);
    w().f.short = *w().ch.pick(&[0, 0, 100]);
    w().net.f.frag = *w().ch.pick(&[0, 100]);
    let trouble = w().ch.choose(3);
    if trouble > 0 {
        net_trouble();
    }
    if trouble > 1 {
        draw_io();
        if w().ch.chance(300) {
            draw_crash();
        }
    }
    let np = w().ch.range(1, 3);
    for i in 0..np {
        let (sh, names) = (sh.clone(), names.clone());
        let shared = w().ch.chance(800);
        let sessions = w().ch.range(1, 2);
        spawn(&format!("p{}", i), move || {
            for _ in 0..sessions {
                i_session(&sh, if shared { "/cache" } else { "/cache/own" }, &names)
            }
        });
    }
    // the index changes meanwhile
    if w().ch.chance(600) {
        let (sh, names) = (sh.clone(), names.clone());
        spawn("keeper", move || {
            let k = w().ch.range(1, 4);
            for _ in 0..k {
                let n = w().ch.range(1, 8);
                for _ in 0..n {
                    yield_now();
                }
                let mut g = sh.u.lock().unwrap();
                let ch = &mut w().ch;
                let (i, n) = (ch.choose(g.idx.len()), names[ch.choose(names.len())].clone());
                match ch.choose(5) {
                    0 => {
                        let b = draw_bad(ch);
                        g.bad.insert((i, norm(&n)), b);
                    }
                    1 => g.bad.clear(),
                    _ => {
                        if let Some(p) = g.pkg_mut(&n) {
                            for r in &mut p.rels {
                                for a in &mut r.arts {
                                    match ch.choose(5) {
                                        0 => a.listed = !a.listed,
                                        1 => a.yanked = !a.yanked,
                                        _ => (),
                                    }
                                }
                            }
                        }
                    }
                }
                sh.hist.lock().unwrap().push((seq(), g.clone()));
                w().probe("index_changed");
            }
        });
    }
    let stop = run();
    judge_end(rep, &stop, &["C32"], &["C32"]);
    // and finally, in peace
    calm();
    {
        let (sh, names) = (sh.clone(), names.clone());
        spawn("late", move || i_session(&sh, "/cache", &names));
    }
    let stop = run();
    judge_end(rep, &stop, &["C32"], &["C32"]);
    judge_index(rep, &sh);
}

fn i_session(sh: &ISh, cache: &str, names: &[String]) {
    let sid = {
        let mut g = sh.sessions.lock().unwrap();
        *g += 1;
        *g
    };
    let idx = sh.u.lock().unwrap().idx.clone();
    let n = w().ch.range(1, 5);
    let _ = with_db(cache, &idx, |db, _| {
        for _ in 0..n {
            let pkg = names[w().ch.choose(names.len())].clone();
            let spelled = match w().ch.choose(4) {
                0 => pkg.to_uppercase(),
                1 => pkg.replace('.', "-"),
                _ => pkg.clone(),
            };
            let f0 = my_faults();
            let id = {
                let mut g = sh.recs.lock().unwrap();
                g.push(IRec { pid: me(), session: sid, pkg: norm(&pkg), b: seq(), e: u64::MAX, faults: 0, out: None, ordered: true });
                g.len() - 1
            };
            let r = db.available_artifacts(&pkgname(&spelled));
            if dead() {
                return Ok(());
            }
            let mut g = sh.recs.lock().unwrap();
            let rec = &mut g[id];
            rec.e = seq();
            rec.faults = my_faults() - f0;
            match r {
                Ok(m) => {
                    let mut v = vec![];
                    let mut last: Option<Vn> = None;
                    for (ver, ais) in m {
                        let x = vn(&ver.to_string());
                        if last.as_ref().map_or(false, |l| *l <= x) {
                            rec.ordered = false;
                        }
                        last = Some(x);
                        for ai in ais {
                            if ai.name.version() != ver {
                                rec.ordered = false;
                            }
                            v.push(line_of(ai));
                        }
                    }
                    v.sort();
                    rec.out = Some(Ok(v));
                }
                Err(e) => rec.out = Some(Err(errstr(&e))),
            }
        }
        Ok(())
    });
}

fn judge_index(rep: &mut Rep, sh: &ISh) {
    let recs = sh.recs.lock().unwrap().clone();
    let hist = sh.hist.lock().unwrap().clone();
    let all_urls: BTreeMap<String, usize> =
        hist[0].1.pkgs.iter().flat_map(|p| p.rels.iter().flat_map(|r| r.arts.iter().map(|a| (a.url.clone(), a.idx)))).collect();
    let mut told: BTreeMap<(usize, String), Vec<Line>> = BTreeMap::new();
    let mut useful = false;
    for r in &recs {
        let mut r = r.clone();
        r.faults += net_faults(r.pid, r.b, r.e);
        let during: Vec<&Uni> = hist
            .iter()
            .enumerate()
            .filter(|(k, (t, _))| *t <= r.e && hist.get(k + 1).map_or(true, |(t2, _)| *t2 >= r.b))
            .map(|(_, (_, u))| u)
            .collect();
        let key = (r.session, r.pkg.clone());
        match &r.out {
            None => (),
            Some(Ok(v)) => {
                if !r.ordered {
                    return rep.fail("C32", "order", format!("the candidates for {} are not in descending order of version, or filed under the wrong one", r.pkg));
                }
                if let Some(old) = told.get(&key) {
                    if old != v {
                        return rep.fail("C32", "changed", format!("within one session {} had {} candidates, then {}", r.pkg, old.len(), v.len()));
                    }
                    useful = true;
                    continue;
                }
                told.insert(key, v.clone());
                let n = hist[0].1.idx.len();
                for i in 0..n {
                    let mine: Vec<Line> = v.iter().filter(|l| all_urls.get(&l.1) == Some(&i)).cloned().collect();
                    let good: Vec<&&Uni> = during.iter().filter(|u| !u.bad.contains_key(&(i, r.pkg.clone()))).collect();
                    if good.is_empty() {
                        return rep.fail(
                            "C32",
                            "ignored-failure",
                            format!("{}: index {} answers {:?} about it, yet the lookup succeeds with {} candidates", r.pkg, i, during[0].bad.get(&(i, r.pkg.clone())), v.len()),
                        );
                    }
                    if !good.iter().any(|u| want_lines(u, i, &r.pkg) == mine) {
                        return rep.fail(
                            "C32",
                            "candidates",
                            format!("{}: index {} offers {} artifacts, {} came out{}", r.pkg, i, want_lines(good[0], i, &r.pkg).len(), mine.len(), if r.faults > 0 { " (after a fault)" } else { "" }),
                        );
                    }
                }
                if let Some(l) = v.iter().find(|l| !all_urls.contains_key(&l.1)) {
                    return rep.fail("C32", "invented", format!("{}: {} is offered by no index", r.pkg, l.1));
                }
                useful |= !v.is_empty();
            }
            Some(Err(e)) => {
                let any_bad = during.iter().any(|u| (0..u.idx.len()).any(|i| u.bad.contains_key(&(i, r.pkg.clone()))));
                if told.contains_key(&key) {
                    return rep.fail("C32", "forgot", format!("{} was known in this session, but asking again fails: {}", r.pkg, e));
                }
                if r.faults == 0 && !any_bad {
                    return rep.fail("C32", "refused", format!("every index answers properly about {}, but the lookup fails: {}", r.pkg, e));
                }
                w().probe(if any_bad { "unusable_index_refused" } else { "fault_reported" });
                useful = true;
            }
        }
    }
    if !useful {
        rep.trivial();
    }
}

// ---------------------------------------------------------------- C33

#[derive(Clone, Debug, PartialEq)]
enum MOut {
    /// address and what it said
    Ok(String, Vec<String>, String, Vec<String>),
    Err(String),
}
#[derive(Clone, Debug)]
struct MRec {
    pid: Pid,
    pkg: String,
    v: Vn,
    b: u64,
    e: u64,
    faults: u64,
    out: Option<MOut>,
    cache: String,
    healthy: bool,
}
struct MSh {
    u: Arc<Mutex<Uni>>,
    recs: Mutex<Vec<MRec>>,
    bad: Mutex<Vec<(&'static str, String)>>,
}

fn dep_texts(deps: &[Dep]) -> Vec<String> {
    deps.iter().map(|d| d.text()).collect()
}

/// requirements, python, extras
type Said = (Vec<String>, String, Vec<String>);
fn gist_texts(meta: &[u8]) -> Said {
    let t = String::from_utf8_lossy(meta).to_string();
    let get = |key: &str| t.lines().take_while(|l| !l.is_empty()).filter_map(|l| l.strip_prefix(key)).map(|s| s.to_string()).collect::<Vec<_>>();
    (get("Requires-Dist: "), get("Requires-Python: ").join(","), get("Provides-Extra: "))
}

fn metadata_scen(rep: &mut Rep) {
    let mut u = draw_uni(true);
    // every artifact says something of its own
    let mut said: BTreeMap<String, Said> = BTreeMap::new();
    {
        let ch = &mut w().ch;
        let style = u.style;
        let mut k = 0;
        for p in &mut u.pkgs {
            if p.norm() == norm(PY) {
                continue;
            }
            for r in &mut p.rels {
                for a in &mut r.arts {
                    if a.kind != AK::Wheel {
                        continue;
                    }
                    k += 1;
                    let mut deps = vec![Dep::on(&format!("own-{}", k))];
                    for j in 0..ch.choose(3) {
                        deps.push(Dep { spec: vec![Sp { op: ">=", v: format!("{}.{}", j, k) }], ..Dep::on(&format!("more{}", j)) });
                    }
                    let rp = Some(vec![Sp { op: ">=", v: format!("3.{}", k) }]);
                    let extras = vec![format!("e{}", k)];
                    let mut meta = metadata(&p.name, &r.v, &deps, &extras, &rp, &a.file);
                    if ch.chance(200) {
                        // longer than what is fetched at first
                        meta.extend(std::iter::repeat(b"All about it.\n".to_vec()).take(ch.size(3000)).flatten());
                    }
                    let tag = a.file.trim_end_matches(".whl").splitn(3, '-').nth(2).unwrap().to_string();
                    let size = ch.size(40_000);
                    let mut b = wheel(&p.name, &r.v, &tag, meta, payload(&p.name, &r.v, &a.file, size));
                    b.hashed = !ch.chance(80);
                    b.idx = a.idx;
                    *a = b;
                }
            }
        }
        u.stray.clear();
        u.style = style;
        u.place();
        for p in &u.pkgs {
            for r in &p.rels {
                for a in &r.arts {
                    if a.kind == AK::Wheel {
                        said.insert(a.url.clone(), gist_texts(&a.meta));
                    }
                }
            }
        }
        // a link to somebody else's wheel
        if ch.chance(300) && u.pkgs.len() > 2 {
            let (i, j) = (1 + ch.choose(u.pkgs.len() - 1), 1 + ch.choose(u.pkgs.len() - 1));
            let a = u.pkgs[j].rels[0].arts[0].clone();
            if i != j {
                let (n, k) = (u.pkgs[i].norm(), ch.choose(u.idx.len()));
                u.stray.push((k, n, a));
            }
        }
    }
    let uni = Arc::new(Mutex::new(u.clone()));
    super::uni::install(&uni);
    w().time_limit = Some(w().now + 24 * 3600 * 1_000_000_000);
    let sh = Arc::new(MSh { u: uni.clone(), recs: Mutex::new(vec![]), bad: Mutex::new(vec![]) });
    draw_sched();
    match w().ch.choose(6) {
        0 => net_trouble(),
        1 => draw_io(),
        2 => draw_crash(),
        3 => draw_watch(&["/cache", "/cache/metadata", "/cache/http"]),
        4 => {
            net_trouble();
            draw_io();
            draw_crash();
        }
        _ => (),
    }
    let np = w().ch.range(1, 3);
    for i in 0..np {
        let sh = sh.clone();
        spawn(&format!("p{}", i), move || m_session(&sh, "/cache", false));
    }
    let stop = run();
    judge_end(rep, &stop, &["C33", "C42"], &["C42"]);
    calm();
    if w().ch.chance(350) {
        bad_reads(&["/cache/metadata", "/cache/metadata", "/cache/http", "/cache"]);
        let sh2 = sh.clone();
        spawn("unread", move || m_session(&sh2, "/cache", false));
        let stop = run();
        judge_end(rep, &stop, &["C33", "C42"], &["C42"]);
        calm();
    }
    // files are taken back, and others of the same name put in their place
    let mut changed = None;
    if w().ch.chance(350) {
        let ch = &mut w().ch;
        for p in &mut u.pkgs {
            if p.norm() == norm(PY) {
                continue;
            }
            for r in &mut p.rels {
                let mut more = vec![];
                for a in r.arts.iter_mut().filter(|a| a.kind == AK::Wheel && a.listed) {
                    if !ch.chance(600) {
                        continue;
                    }
                    let deps = vec![Dep::on("new-here"), Dep::on(&format!("later-{}", ch.choose(100)))];
                    let (rp, extras) = (Some(vec![Sp { op: ">=", v: "3.1".into() }]), vec!["n".to_string()]);
                    let tag = a.file.trim_end_matches(".whl").splitn(3, '-').nth(2).unwrap().to_string();
                    let size = ch.size(2000);
                    let mut b = wheel(&p.name, &r.v, &tag, metadata(&p.name, &r.v, &deps, &extras, &rp, "replaced"), payload(&p.name, &r.v, "replaced", size));
                    b.idx = a.idx;
                    b.hashed = a.hashed;
                    b.url = a.url.replace("http://files.test/", "http://files.test/new/");
                    said.insert(b.url.clone(), gist_texts(&b.meta));
                    let old = std::mem::replace(a, b);
                    more.push(Art { listed: false, ..old });
                }
                r.arts.extend(more);
            }
        }
        *sh.u.lock().unwrap() = u.clone();
        changed = Some(seq());
    }
    for name in ["again", "more"] {
        let sh = sh.clone();
        spawn(name, move || m_session(&sh, "/cache", true));
        let stop = run();
        judge_end(rep, &stop, &["C33", "C42"], &["C42"]);
    }
    // what the cache holds in the end
    {
        let sh = sh.clone();
        spawn("audit", move || {
            let store = match KVFileStore::new(Path::new("/cache/metadata")) {
                Ok(s) => s,
                Err(_) => return,
            };
            let u = sh.u.lock().unwrap().clone();
            for p in &u.pkgs {
                for r in &p.rels {
                    for a in &r.arts {
                        let h = ArtifactHash { mode: "sha256".into(), raw_data: super::http2::sha256(&a.bytes) };
                        if let Some(mut f) = store.get(&&h) {
                            let got = super::kv::slurp(&mut f).unwrap_or_default();
                            if got != a.meta {
                                sh.bad.lock().unwrap().push(("cache", format!("the cached metadata of {} has {} bytes, it carries {}", a.file, got.len(), a.meta.len())));
                            }
                            w().probe("cached_metadata_checked");
                        }
                    }
                }
            }
        });
    }
    let stop = run();
    judge_end(rep, &stop, &["C33", "C42"], &["C42"]);
    for (s, m) in sh.bad.lock().unwrap().iter() {
        rep.fail("C33", s, m.clone());
    }
    judge_metadata(rep, &sh, &u, &said, changed);
}

fn m_session(sh: &MSh, cache: &str, healthy: bool) {
    let u = sh.u.lock().unwrap().clone();
    let k = w().ch.range(1, 3);
    let r = with_db(cache, &u.idx, |db, _| {
        for _ in 0..k {
            let p = &u.pkgs[w().ch.choose(u.pkgs.len())];
            let r = &p.rels[w().ch.choose(p.rels.len())];
            m_one(sh, db, cache, p, r, healthy);
        }
        Ok(())
    });
    if let Err(e) = r {
        if healthy && !dead() {
            sh.bad.lock().unwrap().push(("open", format!("opening the package database fails after faults stopped: {}", errstr(&e))));
        }
    }
}
fn m_one(sh: &MSh, db: &PackageDB, cache: &str, p: &Pkg, r: &Rel, healthy: bool) {
    let f0 = my_faults();
    let id = {
        let mut g = sh.recs.lock().unwrap();
        g.push(MRec { pid: me(), pkg: p.norm(), v: r.v.clone(), b: seq(), e: u64::MAX, faults: 0, out: None, cache: cache.into(), healthy });
        g.len() - 1
    };
    let go = || -> eyre::Result<MOut> {
        let arts = db.artifacts_for_version(&pkgname(&p.name), &Version::try_from(r.v.s.as_str())?)?;
        if p.norm() == norm(PY) {
            let (ai, m) = db.get_metadata::<Pybi, _>(arts, None)?;
            let mut t: Vec<String> = m.environment_marker_variables.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
            t.sort();
            return Ok(MOut::Ok(ai.url.as_str().split('#').next().unwrap().into(), t, String::new(), m.tags.iter().map(|x| x.to_string()).collect()));
        }
        let (ai, m) = db.get_metadata::<Wheel, _>(arts, None)?;
        let deps: Vec<String> = m.requires_dist.iter().map(|d| d.to_string()).collect();
        let extras = m.extras.iter().map(|e| e.normalized().to_string()).collect();
        Ok(MOut::Ok(ai.url.as_str().split('#').next().unwrap().into(), deps, m.requires_python.to_string(), extras))
    };
    let out = match go() {
        Ok(x) => x,
        Err(e) => MOut::Err(errstr(&e)),
    };
    if dead() {
        return;
    }
    let mut g = sh.recs.lock().unwrap();
    let rec = &mut g[id];
    rec.out = Some(out);
    rec.e = seq();
    rec.faults = my_faults() - f0;
}

fn judge_metadata(rep: &mut Rep, sh: &MSh, u: &Uni, said: &BTreeMap<String, Said>, changed: Option<u64>) {
    let recs = sh.recs.lock().unwrap().clone();
    let mut useful = false;
    for r in &recs {
        let mut r = r.clone();
        r.faults += net_faults(r.pid, r.b, r.e);
        let p = u.pkg(&r.pkg).unwrap();
        let rel = p.rel(&r.v).unwrap();
        // (what was listed before)
        let was = |a: &Art| changed.is_some() && !a.listed && r.b < changed.unwrap() && a.kind == AK::Wheel;
        let now = |a: &Art| a.listed && !(changed.map_or(false, |c| r.b < c) && a.url.contains("/new/"));
        let listed: Vec<&Art> = rel.arts.iter().filter(|a| now(a) || was(a)).collect();
        let nospace = |s: &str| s.replace(' ', "").replace(['(', ')'], "");
        match &r.out {
            None => (),
            Some(MOut::Ok(url, deps, rp, extras)) => {
                let a = match listed.iter().find(|a| a.url == *url) {
                    Some(a) => a,
                    None => return rep.fail("C33", "foreign", format!("{} {}: metadata from {}, which is not listed for it", r.pkg, r.v.s, url)),
                };
                useful = true;
                let ok = if a.kind == AK::Pybi {
                    let mut t: Vec<String> = rel.env.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
                    t.sort();
                    t == *deps && *extras == rel.wheel_tags
                } else {
                    let (d, p, e) = &said[url];
                    d.iter().map(|x| nospace(x)).collect::<Vec<_>>() == deps.iter().map(|x| nospace(x)).collect::<Vec<_>>() && nospace(p) == nospace(rp) && e == extras
                };
                if !ok {
                    return rep.fail(
                        "C33",
                        "different",
                        format!("{} {}: the metadata said to be from {} reads requires {:?}, python {}, extras {:?}; the file carries {:?}", r.pkg, r.v.s, url, deps, rp, extras, said.get(url)),
                    );
                }
                // once cached it is not downloaded again
                let cached = recs.iter().any(|q| {
                    q.e < r.b && changed.map_or(true, |c| q.b > c || r.e < c) && q.cache == r.cache && q.pkg == r.pkg && q.v == r.v && matches!(&q.out, Some(MOut::Ok(url2, ..)) if listed.iter().any(|a| a.url == *url2 && a.hashed))
                });
                if cached && r.faults == 0 {
                    w().probe("cached_before");
                    let again = w().net.reqs.iter().filter(|q| q.seq > r.b && q.seq < r.e && q.pid == r.pid && q.req.host == "files.test" && !q.req.url().contains("/_pages/")).count();
                    if again > 0 {
                        return rep.fail("C33", "again", format!("{} {}: its metadata was cached, yet {} requests for files were made", r.pkg, r.v.s, again));
                    }
                }
            }
            Some(MOut::Err(e)) => {
                let any = listed.iter().any(|a| a.kind != AK::Sdist);
                if any && (r.healthy || r.faults == 0) {
                    rep.fail("C33", "refused", format!("{} {}: no metadata although nothing is wrong: {}", r.pkg, r.v.s, e));
                    rep.fail("C42", "refused", format!("{} {}: no metadata although nothing is wrong: {}", r.pkg, r.v.s, e));
                    return;
                }
            }
        }
    }
    if !useful {
        rep.trivial();
    }
}
