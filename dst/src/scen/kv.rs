//! The on-disk caches: KVFileStore and KVDirStore under concurrency, kills, I/O errors, power loss.

use super::lin::{self, Kind, Op};
use super::util::*;
use crate::runner::{Rep, Scen};
use crate::sim::*;
use posy::sim_api::{ArtifactHash, KVDirStore, KVFileStore, PathKey};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

pub fn scens() -> Vec<Scen> {
    vec![
        Scen { name: "kv_blob", props: &["C01", "C03", "C06", "C42"], weight: 6, f: kv_blob },
        Scen { name: "kv_blob_io", props: &["C01", "C03", "C05", "C42"], weight: 4, f: kv_blob_io },
        Scen { name: "kv_blob_power", props: &["C02"], weight: 4, f: kv_power },
        Scen { name: "kv_dir", props: &["C03", "C04", "C42"], weight: 4, f: kv_dir },
        Scen { name: "kv_dir_io", props: &["C04", "C05", "C42"], weight: 3, f: kv_dir_io },
    ]
}

#[derive(Clone, Debug)]
pub enum Key {
    Bytes(Vec<u8>),
    Hash(String, Vec<u8>),
}
impl PathKey for Key {
    fn key(&self) -> PathBuf {
        match self {
            Key::Bytes(b) => b[..].key(),
            Key::Hash(m, d) => ArtifactHash { mode: m.clone(), raw_data: d.clone() }.key(),
        }
    }
}

/// Keys chosen to be near misses of one another.
fn draw_keys(n: usize) -> Vec<Key> {
    let ch = &mut w().ch;
    let mut d = ch.bytes(32);
    let mut v: Vec<Key> = vec![];
    while v.len() < n {
        let k = match ch.choose(7) {
            0 => Key::Bytes(format!("key-{}", v.len()).into_bytes()),
            1 => Key::Hash("sha256".into(), d.clone()),
            2 => Key::Hash("sha512".into(), d.clone()),
            3 => {
                d[0] ^= 4; // another first character
                Key::Hash("sha256".into(), d.clone())
            }
            4 => {
                d[31] ^= 1 << ch.choose(8); // same directories, different entry
                Key::Hash("sha256".into(), d.clone())
            }
            5 => Key::Bytes(vec![b'a'; v.len()]), // includes the empty key
            _ => {
                d[2] ^= 1;
                Key::Hash("sha256".into(), d.clone())
            }
        };
        let same = v.iter().any(|o| match (o, &k) {
            (Key::Bytes(a), Key::Bytes(b)) => a == b,
            (Key::Hash(a, x), Key::Hash(b, y)) => a == b && x == y,
            _ => false,
        });
        if !same {
            v.push(k);
        }
    }
    v
}

pub struct Values(Mutex<Vec<Vec<u8>>>, Mutex<Vec<usize>>);
impl Values {
    fn new() -> Values {
        Values(Mutex::new(vec![]), Mutex::new(vec![]))
    }
    /// A fresh value: its content is unique, its size varies from nothing to several buffers.
    fn fresh(&self, empty_used: &Mutex<HashSet<usize>>, key: usize) -> (u32, Vec<u8>) {
        let mut vs = self.0.lock().unwrap();
        let id = vs.len() as u32;
        let ch = &mut w().ch;
        let size = match ch.choose(6) {
            0 => 40,
            1 => {
                if empty_used.lock().unwrap().insert(key) {
                    0
                } else {
                    8
                }
            }
            2 => 8 + ch.size(100),
            3 => 8 + ch.size(9000),
            4 => 8192,
            _ => 8 + ch.size(30000),
        };
        let mut b = Rng::new(id as u64 * 7 + 3);
        let mut v = vec![];
        if size > 0 {
            v.extend_from_slice(&id.to_le_bytes());
            v.extend_from_slice(&(size as u32).to_le_bytes());
            while v.len() < size {
                v.extend_from_slice(&b.next().to_le_bytes());
            }
            v.truncate(size.max(8));
        }
        vs.push(v.clone());
        self.1.lock().unwrap().push(key);
        (id, v)
    }
    /// Values with this content, those written for `key` first (an empty value has no mark).
    fn ids_of(&self, key: usize, data: &[u8]) -> Vec<u32> {
        let vs = self.0.lock().unwrap();
        let owner = self.1.lock().unwrap();
        let mut v: Vec<u32> = vs.iter().enumerate().filter(|(_, v)| v[..] == *data).map(|(i, _)| i as u32).collect();
        v.sort_by_key(|i| owner[*i as usize] != key);
        v
    }
    fn get(&self, id: u32) -> Vec<u8> {
        self.0.lock().unwrap()[id as usize].clone()
    }
}

#[derive(Clone, Debug)]
enum Ev {
    Begin(u64, usize, What),
    End(u64, Res),
    Bad(&'static str, &'static str, String),
}
#[derive(Clone, Debug, PartialEq)]
enum What {
    Read,
    Set(u32),
    Remove,
    Fill(u32),
    Nothing,
}
#[derive(Clone, Debug)]
enum Res {
    Read(Option<u32>, bool),
    SetOk,
    RemoveOk,
    Fill(u32, bool, bool),
    NoEffect,
}

struct Sh {
    keys: Vec<Key>,
    values: Values,
    empties: Mutex<HashSet<usize>>,
    hist: Hist<Ev>,
    opctr: Mutex<u64>,
    holders: Mutex<HashMap<usize, Vec<Pid>>>,
    slow_holds: bool,
    io_faults: bool,
    prop_readers: bool,
}
impl Sh {
    fn begin(&self, key: usize, what: What) -> u64 {
        let id = {
            let mut g = self.opctr.lock().unwrap();
            *g += 1;
            *g
        };
        self.hist.push(Ev::Begin(id, key, what));
        id
    }
    fn end(&self, id: u64, r: Res) {
        self.hist.push(Ev::End(id, r));
    }
    fn bad(&self, prop: &'static str, sig: &'static str, m: String) {
        self.hist.push(Ev::Bad(prop, sig, m));
    }
    fn acquire(&self, key: usize) {
        if dead() {
            return;
        }
        let mut h = self.holders.lock().unwrap();
        let v = h.entry(key).or_default();
        v.retain(|p| !w().procs[*p].ghost && w().procs[*p].st != St::Done);
        let others: Vec<Pid> = v.iter().copied().collect();
        v.push(me());
        drop(h);
        if !others.is_empty() {
            self.bad("C03", "two-holders", format!("key {} is held by processes {:?} and {} at once", key, others, me()));
        }
    }
    fn release(&self, key: usize) {
        if dead() {
            return;
        }
        let mut h = self.holders.lock().unwrap();
        let v = h.entry(key).or_default();
        if let Some(i) = v.iter().position(|p| *p == me()) {
            v.remove(i);
        }
    }
}

fn write_chunked(out: &mut dyn Write, data: &[u8]) -> std::io::Result<()> {
    let ways = w().ch.choose(3);
    let mut rest = data;
    while !rest.is_empty() {
        let n = match ways {
            0 => rest.len(),
            1 => 1 + w().ch.choose(rest.len()),
            _ => rest.len().min(4096),
        };
        out.write_all(&rest[..n])?;
        rest = &rest[n..];
    }
    out.flush()
}

/// Reads a whole reader in drawn chunk sizes.
pub fn slurp<R: Read + ?Sized>(r: &mut R) -> std::io::Result<Vec<u8>> {
    let mut out = vec![];
    if w().ch.choose(2) == 0 {
        r.read_to_end(&mut out)?;
        return Ok(out);
    }
    let mut buf = vec![0u8; 1 + w().ch.size(5000)];
    loop {
        match r.read(&mut buf) {
            Ok(0) => return Ok(out),
            Ok(n) => out.extend_from_slice(&buf[..n]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => (),
            Err(e) => return Err(e),
        }
    }
}

trait RS: Read + Seek {}
impl<T: Read + Seek + ?Sized> RS for T {}

/// Reads everything, names the value; used as the result of a lookup.
fn observe(sh: &Sh, key: usize, r: &mut dyn RS, prop: &'static str) -> Option<u32> {
    let f0 = my_faults();
    match slurp(r) {
        Ok(b) => {
            let ids = sh.values.ids_of(key, &b);
            match ids.len() {
                0 => {
                    sh.bad(
                        prop,
                        "torn",
                        format!("key {}: read {} bytes that are no value ever written ({:02x?}..)", key, b.len(), &b[..b.len().min(12)]),
                    );
                    None
                }
                _ => Some(ids[0]),
            }
        }
        Err(e) => {
            if my_faults() == f0 && !dead() {
                sh.bad("C05", "spurious-read-error", format!("reading an entry failed without a fault: {}", e));
            }
            None
        }
    }
}

fn producer_error() -> eyre::Report {
    eyre::eyre!("producer gave up")
}

fn do_ops(sh: Arc<Sh>, nops: usize, kinds: &[usize]) {
    let mut store = match KVFileStore::new(Path::new("/cache/blobs")) {
        Ok(s) => s,
        Err(e) => {
            if my_faults() == 0 && !dead() {
                sh.bad("C05", "spurious-error", format!("opening the store failed without a fault: {:?}", e));
            }
            return;
        }
    };
    let mut held: Vec<(usize, u32, Box<dyn RS>)> = vec![];
    for _ in 0..nops {
        if dead() {
            return;
        }
        let key = w().ch.choose(sh.keys.len());
        let k = sh.keys[key].clone();
        let kind = kinds[w().ch.choose(kinds.len())];
        match kind {
            // lookup
            0 => {
                let muts0 = count_muts();
                let f0 = my_faults();
                let id = sh.begin(key, What::Read);
                match store.get(&k) {
                    None => {
                        sh.end(id, Res::Read(None, my_faults() > f0));
                        if count_muts() != muts0 {
                            sh.bad("C03", "probe-creates", format!("looking up an absent key changed the disk: {:?}", last_mut()));
                        }
                    }
                    Some(mut r) => {
                        let end = seq();
                        w().probe("lookup_hit");
                        if w().ch.chance(500) {
                            yield_now();
                        }
                        if let Some(v) = observe(&sh, key, &mut r, "C01") {
                            sh.hist.push(Ev::End(id, Res::Read(Some(v), false)));
                            let _ = end;
                            if w().ch.chance(600) {
                                held.push((key, v, Box::new(r)));
                            }
                        } else {
                            sh.end(id, Res::NoEffect);
                        }
                    }
                }
            }
            // conditional fill
            1 => {
                let (vid, data) = sh.values.fresh(&sh.empties, key);
                let fails = w().ch.chance(150);
                let abandon_at = w().ch.choose(data.len() + 1);
                let slow = w().ch.chance(200);
                let f0 = my_faults();
                let id = sh.begin(key, What::Fill(vid));
                let mut ran = 0;
                let sh2 = sh.clone();
                let r = store.get_or_set(&k, |out| {
                    ran += 1;
                    sh2.acquire(key);
                    let res = (|| {
                        if slow {
                            std::thread::sleep(std::time::Duration::from_millis(700));
                        }
                        if fails {
                            write_chunked(out, &data[..abandon_at])?;
                            return Err(producer_error());
                        }
                        write_chunked(out, &data)?;
                        Ok(())
                    })();
                    sh2.release(key);
                    res
                });
                if dead() {
                    return;
                }
                let lenient = my_faults() > f0;
                if ran > 1 {
                    sh.bad("C03", "producer-twice", "the producer ran twice in one call".into());
                }
                match r {
                    Ok(mut r) => {
                        if fails && ran > 0 {
                            sh.bad("C05", "false-success", "get-or-create reported success although its producer failed".into());
                        }
                        if let Some(v) = observe(&sh, key, &mut r, "C01") {
                            w().probe(if ran > 0 { "fill_produced" } else { "fill_reused" });
                            sh.end(id, Res::Fill(v, ran > 0, lenient));
                            if w().ch.chance(500) {
                                held.push((key, v, Box::new(r)));
                            }
                        } else {
                            // content unknown (read error): the write itself happened
                            if ran > 0 {
                                sh.end(id, Res::SetOk);
                            } else {
                                sh.end(id, Res::NoEffect);
                            }
                        }
                    }
                    Err(e) => {
                        if !lenient && !(fails && ran > 0) {
                            for p in ["C03", "C05"] {
                                sh.bad(p, "spurious-error", format!("get-or-create failed without a fault: {}", errstr(&e)));
                            }
                        }
                        sh.end(id, Res::NoEffect);
                    }
                }
            }
            // a locked session
            2 | 3 => {
                let f0 = my_faults();
                let muts0 = count_muts();
                let lock = if kind == 2 {
                    match store.lock(&k) {
                        Ok(l) => l,
                        Err(e) => {
                            if my_faults() == f0 && !dead() {
                                sh.bad("C05", "spurious-error", format!("locking failed without a fault: {}", errstr(&e)));
                            }
                            continue;
                        }
                    }
                } else {
                    match store.lock_if_exists(&k) {
                        Some(l) => l,
                        None => {
                            if count_muts() != muts0 {
                                sh.bad("C03", "probe-creates", format!("probing an absent key changed the disk: {:?}", last_mut()));
                            }
                            continue;
                        }
                    }
                };
                if dead() {
                    return;
                }
                sh.acquire(key);
                w().probe("locked_session");
                let steps = 1 + w().ch.choose(3);
                let mut removed = false;
                let mut lock = Some(lock);
                for _ in 0..steps {
                    if sh.slow_holds && w().ch.chance(300) {
                        std::thread::sleep(std::time::Duration::from_secs(5));
                    }
                    if dead() {
                        return;
                    }
                    match w().ch.choose(5) {
                        0 | 1 => {
                            let f0 = my_faults();
                            let id = sh.begin(key, What::Read);
                            match lock.as_ref().unwrap().reader() {
                                None => sh.end(id, Res::Read(None, my_faults() > f0)),
                                Some(mut r) => {
                                    match observe(&sh, key, &mut r, "C01") {
                                        Some(v) => {
                                            sh.end(id, Res::Read(Some(v), false));
                                            if w().ch.chance(400) {
                                                held.push((key, v, Box::new(r.detach_unlocked())));
                                            }
                                        }
                                        None => sh.end(id, Res::NoEffect),
                                    }
                                }
                            }
                        }
                        2 | 3 => {
                            let (vid, data) = sh.values.fresh(&sh.empties, key);
                            let abandon = w().ch.chance(250);
                            let f0 = my_faults();
                            let id = sh.begin(key, What::Set(vid));
                            let res: eyre::Result<bool> = (|| {
                                let mut wr = lock.as_ref().unwrap().begin()?;
                                if abandon {
                                    let n = w().ch.choose(data.len() + 1);
                                    write_chunked(&mut wr, &data[..n])?;
                                    return Ok(false);
                                }
                                if w().ch.chance(200) && !data.is_empty() {
                                    // out of order writing through seek
                                    let m = data.len() / 2;
                                    wr.seek(SeekFrom::Start(m as u64))?;
                                    wr.write_all(&data[m..])?;
                                    wr.seek(SeekFrom::Start(0))?;
                                    wr.write_all(&data[..m])?;
                                } else {
                                    write_chunked(&mut wr, &data)?;
                                }
                                let mut rd = wr.commit()?;
                                if w().ch.chance(500) {
                                    let b = slurp(&mut rd);
                                    if let Ok(b) = b {
                                        if b != data && !dead() {
                                            sh.bad("C01", "commit-reader", format!("the reader returned by commit gives {} bytes, not the {} committed", b.len(), data.len()));
                                        }
                                    }
                                    if w().ch.chance(500) {
                                        held.push((key, vid, Box::new(rd.detach_unlocked())));
                                    }
                                }
                                Ok(true)
                            })();
                            if dead() {
                                return;
                            }
                            match res {
                                Ok(true) => {
                                    w().probe("overwrite_committed");
                                    sh.end(id, Res::SetOk)
                                }
                                Ok(false) => sh.end(id, Res::NoEffect),
                                Err(e) => {
                                    if my_faults() == f0 {
                                        sh.bad("C05", "spurious-error", format!("overwriting failed without a fault: {}", errstr(&e)));
                                    }
                                    sh.end(id, Res::NoEffect)
                                }
                            }
                        }
                        _ => {
                            // remove consumes the handle; the lock is still held meanwhile
                            let f0 = my_faults();
                            let present = lock.as_ref().unwrap().reader().is_some();
                            let f1 = my_faults();
                            let id = sh.begin(key, What::Remove);
                            sh.release(key);
                            removed = true;
                            let r = lock.take().unwrap().remove();
                            if dead() {
                                return;
                            }
                            match r {
                                Ok(()) => {
                                    w().probe("removed");
                                    sh.end(id, Res::RemoveOk)
                                }
                                Err(e) => {
                                    if my_faults() == f0 && present && f1 == f0 {
                                        sh.bad("C05", "spurious-error", format!("removing failed without a fault: {}", errstr(&e)));
                                    }
                                    sh.end(id, Res::NoEffect)
                                }
                            }
                        }
                    }
                    if removed {
                        break;
                    }
                }
                if !removed {
                    sh.release(key);
                }
                drop(lock);
            }
            // use a reader opened earlier
            4 => {
                if held.is_empty() {
                    continue;
                }
                let i = w().ch.choose(held.len());
                let (hk, v, r) = &mut held[i];
                let want = sh.values.get(*v);
                for _ in 0..1 + w().ch.choose(4) {
                    if dead() {
                        return;
                    }
                    let f0 = my_faults();
                    let len = want.len() as i64;
                    let pos = match w().ch.choose(4) {
                        0 => r.seek(SeekFrom::Start(w().ch.choose(want.len() + 1) as u64)),
                        1 => r.seek(SeekFrom::End(-(w().ch.choose(want.len() + 1) as i64))),
                        2 => {
                            let cur = r.stream_position().unwrap_or(0) as i64;
                            let to = w().ch.choose(want.len() + 1) as i64;
                            r.seek(SeekFrom::Current(to - cur))
                        }
                        _ => r.seek(SeekFrom::End(0)).and_then(|e| {
                            if e as i64 != len && !dead() {
                                sh.bad("C06", "length", format!("an open reader of {} bytes says its end is at {}", len, e));
                            }
                            r.seek(SeekFrom::Start(0))
                        }),
                    };
                    let pos = match pos {
                        Ok(p) => p as usize,
                        Err(e) => {
                            if my_faults() == f0 && !dead() {
                                sh.bad("C06", "seek-failed", format!("seeking in an open entry failed: {}", e));
                            }
                            continue;
                        }
                    };
                    let mut buf = vec![0u8; 1 + w().ch.size(9000)];
                    match r.read(&mut buf) {
                        Ok(n) => {
                            if dead() {
                                return;
                            }
                            w().probe("reader_used_later");
                            let ok = pos + n <= want.len()
                                && buf[..n] == want[pos..pos + n]
                                && (n > 0 || pos == want.len());
                            if !ok {
                                sh.bad(
                                    "C06",
                                    "reader-changed",
                                    format!("reader of key {} at {}+{} no longer shows the value it was opened on ({} bytes)", hk, pos, n, want.len()),
                                );
                            }
                        }
                        Err(e) => {
                            if my_faults() == f0 && !dead() && e.kind() != std::io::ErrorKind::Interrupted {
                                sh.bad("C06", "read-failed", format!("reading an open entry failed: {}", e));
                            }
                        }
                    }
                }
                if w().ch.chance(300) {
                    held.swap_remove(i);
                }
            }
            // start over as if newly started
            _ => {
                if let Ok(s) = KVFileStore::new(Path::new("/cache/blobs")) {
                    store = s;
                }
            }
        }
    }
    if !sh.prop_readers {
        return;
    }
    // every reader still open shows its value to the end
    for (hk, v, mut r) in held {
        let f0 = my_faults();
        let want = sh.values.get(v);
        let res = r.seek(SeekFrom::Start(0)).and_then(|_| slurp(&mut *r));
        if dead() {
            return;
        }
        match res {
            Ok(b) if b == want => (),
            Ok(b) => sh.bad("C06", "reader-changed", format!("reader of key {} now gives {} bytes instead of the {} it was opened on", hk, b.len(), want.len())),
            Err(e) => {
                if my_faults() == f0 {
                    sh.bad("C06", "read-failed", format!("reading an open entry failed: {}", e))
                }
            }
        }
    }
}

fn count_muts() -> usize {
    let m = me();
    w().fs.muts.as_ref().map_or(0, |v| v.iter().filter(|x| x.pid == m).count())
}
fn last_mut() -> Option<String> {
    let m = me();
    w().fs.muts.as_ref().and_then(|v| v.iter().rev().find(|x| x.pid == m).map(|x| format!("{} {}", x.op, x.path)))
}

/// Turns the recorded history into per-key operations and judges them.
fn judge_hist(rep: &mut Rep, sh: &Sh, init: &HashMap<usize, HashSet<Option<u32>>>) -> HashMap<usize, HashSet<Option<u32>>> {
    let evs = sh.hist.take();
    let mut open: BTreeMap<u64, (u64, Pid, usize, What)> = BTreeMap::new();
    let mut per_key: Vec<Vec<Op>> = vec![vec![]; sh.keys.len()];
    let mut bads = vec![];
    for (t, pid, e) in evs {
        match e {
            Ev::Begin(id, key, what) => {
                open.insert(id, (t, pid, key, what));
            }
            Ev::End(id, res) => {
                let (inv, _, key, what) = match open.remove(&id) {
                    Some(x) => x,
                    None => continue,
                };
                let kind = match (what, res) {
                    (_, Res::NoEffect) => continue,
                    (What::Read, Res::Read(g, l)) => Kind::Read { got: g, lenient: l },
                    (What::Set(v), Res::SetOk) | (What::Fill(v), Res::SetOk) => Kind::Set(v),
                    (What::Remove, Res::RemoveOk) => Kind::Remove,
                    (What::Fill(own), Res::Fill(got, ran, lenient)) => Kind::Fill { got, own, ran, lenient },
                    _ => continue,
                };
                per_key[key].push(Op { inv, ret: t, maybe: false, kind });
            }
            Ev::Bad(p, s, m) => bads.push((p, s, m)),
        }
    }
    // operations whose process died in them
    for (_, (inv, pid, key, what)) in open {
        let ret = w().procs[pid].killed_seq;
        if ret == 0 {
            continue;
        }
        let kind = match what {
            What::Set(v) | What::Fill(v) => Kind::Set(v),
            What::Remove => Kind::Remove,
            _ => continue,
        };
        per_key[key].push(Op { inv, ret, maybe: true, kind });
    }
    for (p, s, m) in bads {
        rep.fail(p, s, m);
    }
    let mut finals = HashMap::new();
    for (key, ops) in per_key.iter().enumerate() {
        let mut in0: Vec<Option<u32>> = init.get(&key).map(|s| s.iter().copied().collect()).unwrap_or_else(|| vec![None]);
        in0.sort();
        // the contents of an empty value cannot tell which write it came from, but there is
        // at most one per key
        match lin::check(ops, &in0, false) {
            lin::Verdict::Bad => {
                let prop = if sh.io_faults { "C05" } else { "C01" };
                let m = format!("key {}: no order of its operations explains what was read: {:?}", key, brief(ops));
                rep.fail("C01", "not-linearizable", m.clone());
                if prop == "C05" {
                    rep.fail("C05", "not-linearizable", m);
                }
            }
            lin::Verdict::Ok(f) => {
                finals.insert(key, f);
                if let lin::Verdict::Bad = lin::check(ops, &in0, true) {
                    rep.fail("C03", "producer-ran-needlessly", format!("key {}: a producer ran although the key had an entry: {:?}", key, brief(ops)));
                }
            }
            lin::Verdict::TooBig => w().probe("history_too_big"),
        }
    }
    finals
}
fn brief(ops: &[Op]) -> Vec<String> {
    let mut o: Vec<&Op> = ops.iter().collect();
    o.sort_by_key(|x| x.inv);
    o.iter().map(|o| format!("[{}..{}{} {:?}]", o.inv, o.ret, if o.maybe { "?" } else { "" }, o.kind)).collect()
}

fn new_sh(nkeys: usize) -> Sh {
    Sh {
        keys: draw_keys(nkeys),
        values: Values::new(),
        empties: Mutex::new(HashSet::new()),
        hist: Hist::new(),
        opctr: Mutex::new(0),
        holders: Mutex::new(HashMap::new()),
        slow_holds: false,
        io_faults: false,
        prop_readers: true,
    }
}

fn leftovers(rep: &mut Rep, dir: &str, prop: &str) {
    // only processes that survived are answerable, and not for files the disk refused to delete
    if fired("process_kill") || fired("io_error_remove") || fired("io_error_dir") || fired("io_error_open") || fired("io_error_stat") {
        return;
    }
    let l = w().fs.list(dir);
    if !l.is_empty() {
        rep.fail(prop, "leftover", format!("{} still contains {:?}", dir, l));
    }
}

fn final_round(rep: &mut Rep, sh: &Arc<Sh>, prop: &'static str) {
    calm();
    // killed processes cannot hold anything any more: each key must be usable at once
    let s2 = sh.clone();
    let done = Arc::new(Mutex::new(0usize));
    let d2 = done.clone();
    w().time_limit = Some(w().now + 60_000_000_000);
    spawn("after", move || {
        let store = match KVFileStore::new(Path::new("/cache/blobs")) {
            Ok(s) => s,
            Err(e) => {
                s2.bad(prop, "unusable", format!("the store cannot be opened any more: {}", errstr(&e)));
                return;
            }
        };
        for key in 0..s2.keys.len() {
            let k = s2.keys[key].clone();
            let id = s2.begin(key, What::Read);
            match store.get(&k) {
                None => s2.end(id, Res::Read(None, false)),
                Some(mut r) => match observe(&s2, key, &mut r, "C01") {
                    Some(v) => s2.end(id, Res::Read(Some(v), false)),
                    None => s2.end(id, Res::NoEffect),
                },
            }
            let (vid, data) = s2.values.fresh(&s2.empties, key);
            let id = s2.begin(key, What::Fill(vid));
            let mut ran = false;
            match store.get_or_set(&k, |o| {
                ran = true;
                o.write_all(&data)?;
                Ok(())
            }) {
                Ok(mut r) => {
                    if let Some(v) = observe(&s2, key, &mut r, "C01") {
                        s2.end(id, Res::Fill(v, ran, false));
                    }
                }
                Err(e) => {
                    s2.end(id, Res::NoEffect);
                    s2.bad(prop, "unusable", format!("key {} cannot be filled any more: {}", key, errstr(&e)));
                }
            }
            *d2.lock().unwrap() += 1;
        }
    });
    let stop = run();
    w().time_limit = None;
    let stuck: &[&str] = &[prop, "C42"];
    judge_end(rep, &stop, stuck, stuck);
    if stop == Stop::AllDone && *done.lock().unwrap() != sh.keys.len() && rep.fails.is_empty() {
        w().note("final round incomplete".into());
    }
}

fn kv_blob(rep: &mut Rep) {
    let nkeys = w().ch.range(1, 3);
    let nprocs = w().ch.range(2, 4);
    let mut sh = new_sh(nkeys);
    sh.slow_holds = w().ch.chance(300);
    let sh = Arc::new(sh);
    w().fs.muts = Some(vec![]);
    w().fs.mkdir_p("/cache");
    if w().ch.chance(200) {
        w().fs.mkdir_p("/cache/blobs/tmp");
    }
    draw_sched();
    match w().ch.choose(4) {
        0 => draw_crash(),
        1 => draw_watch(&["/cache"]),
        _ => (),
    }
    w().f.same_tmp_names = w().ch.chance(200);
    for p in 0..nprocs {
        let sh = sh.clone();
        let nops = w().ch.range(2, 7);
        let mix: &'static [usize] = [&[0, 1, 2, 2, 4, 3][..], &[0, 1, 1, 0, 4], &[1], &[2, 2, 3, 0, 4], &[0, 1, 2, 3, 4, 5]][w().ch.choose(5)];
        spawn(&format!("p{}", p), move || do_ops(sh, nops, mix));
    }
    let stop = run();
    judge_end(rep, &stop, &["C01", "C03", "C06", "C42"], &["C03", "C42"]);
    let switches = w().switches;
    if !rep.fails.is_empty() {
        let _ = judge_hist(rep, &sh, &HashMap::new());
        return;
    }
    if w().ch.chance(700) {
        final_round(rep, &sh, "C01");
    }
    judge_hist(rep, &sh, &HashMap::new());
    leftovers(rep, "/cache/blobs/tmp", "C05");
    rep.trivial = switches < 6;
}

fn kv_blob_io(rep: &mut Rep) {
    let nkeys = w().ch.range(1, 2);
    let nprocs = w().ch.range(1, 3);
    let mut sh = new_sh(nkeys);
    sh.io_faults = true;
    let sh = Arc::new(sh);
    w().fs.muts = Some(vec![]);
    w().fs.mkdir_p("/cache");
    draw_sched();
    match w().ch.choose(4) {
        0 => draw_io(),
        1 => {
            let at = w().ch.range(1, 60) as u64;
            let p = w().ch.range(1, nprocs);
            w().f.io_at = Some((p, at));
        }
        2 => {
            // one kind of call fails, again and again
            let c = *w().ch.pick(&[Class::Write, Class::Sync, Class::Meta, Class::Read, Class::Open, Class::Create]);
            w().f.io_only = Some(vec![c]);
            w().f.io = *w().ch.pick(&[100, 300, 600]);
            w().f.io_budget = *w().ch.pick(&[1, 2, 6]);
        }
        _ => {
            let n = w().ch.size(40_000) as i64;
            w().fs.space_left = Some(n);
        }
    }
    w().f.short = *w().ch.pick(&[0, 200, 600]);
    if w().ch.chance(150) {
        draw_crash();
    }
    for p in 0..nprocs {
        let sh = sh.clone();
        let nops = w().ch.range(2, 6);
        let mix: &'static [usize] = [&[0, 1, 2, 4, 3][..], &[1, 0], &[2, 3, 0]][w().ch.choose(3)];
        spawn(&format!("p{}", p), move || do_ops(sh, nops, mix));
    }
    let stop = run();
    judge_end(rep, &stop, &["C05", "C42"], &["C03", "C42"]);
    leftovers(rep, "/cache/blobs/tmp", "C05");
    rep.trivial = !any_io_error() && !fired("short_transfer") && !fired("disk_full");
    if rep.fails.is_empty() {
        final_round(rep, &sh, "C05");
    }
    judge_hist(rep, &sh, &HashMap::new());
}

fn kv_power(rep: &mut Rep) {
    let nkeys = w().ch.range(1, 3);
    let nprocs = w().ch.range(1, 3);
    let mut sh = new_sh(nkeys);
    sh.prop_readers = false;
    let sh = Arc::new(sh);
    w().fs.mkdir_p("/cache");
    w().fs.start_power_tracking();
    let rounds = w().ch.range(1, 3);
    // for each key: every value whose write was begun as a complete one, ever
    let mut lost_any = false;
    for _ in 0..rounds {
        draw_sched();
        w().f.power_at = Some(w().steps + w().ch.range(5, 400) as u64);
        if w().ch.chance(250) {
            w().f.io = 60;
            w().f.io_only = Some(vec![Class::Sync]);
            w().f.io_budget = 2;
        }
        for p in 0..nprocs {
            let sh = sh.clone();
            let nops = w().ch.range(2, 6);
            let mix: &'static [usize] = [&[1, 2, 2, 0][..], &[1], &[2]][w().ch.choose(3)];
            spawn(&format!("p{}", p), move || do_ops(sh, nops, mix));
        }
        let stop = run();
        calm();
        w().f.io_only = None;
        if stop != Stop::PowerLoss {
            w().note("power loss at rest".into());
            w().stat("power_loss");
            judge_end(rep, &stop, &["C02"], &["C02"]);
        }
        let ch: *mut Choices = &mut w().ch;
        let (lost, damaged) = w().fs.power_cycle(unsafe { &mut *ch });
        w().note(format!("after power loss: {} directory operations lost, {} files damaged", lost, damaged));
        if lost > 0 {
            w().stat("directory_ops_lost");
        }
        if damaged > 0 {
            w().stat("files_torn_by_power_loss");
        }
        lost_any |= lost + damaged > 0;
        // reads during the run follow the ordinary rules; what each key may hold now:
        let evs = sh.hist.take();
        let mut begun: HashMap<usize, HashSet<u32>> = HashMap::new();
        let mut failed: HashSet<u64> = HashSet::new();
        let mut ids: HashMap<u64, (usize, u32)> = HashMap::new();
        for (_, _, e) in &evs {
            match e {
                Ev::Begin(id, k, What::Set(v)) | Ev::Begin(id, k, What::Fill(v)) => {
                    ids.insert(*id, (*k, *v));
                }
                Ev::End(id, Res::NoEffect) => {
                    failed.insert(*id);
                }
                Ev::Bad(p, s, m) if *s == "torn" => rep.fail("C02", s, format!("{} {}", p, m)),
                _ => (),
            }
        }
        for (id, (k, v)) in ids {
            if !failed.contains(&id) {
                begun.entry(k).or_default().insert(v);
            }
        }
        PAST.with(|p| {
            let mut p = p.borrow_mut();
            for (k, s) in begun {
                p.entry(k).or_default().extend(s);
            }
        });
        // restart
        let s2 = sh.clone();
        w().time_limit = Some(w().now + 60_000_000_000);
        spawn("restart", move || {
            let store = match KVFileStore::new(Path::new("/cache/blobs")) {
                Ok(s) => s,
                Err(e) => {
                    s2.bad("C02", "unusable", format!("after power loss the store cannot be opened: {}", errstr(&e)));
                    return;
                }
            };
            for key in 0..s2.keys.len() {
                let k = s2.keys[key].clone();
                if let Some(mut r) = store.get(&k) {
                    match slurp(&mut r) {
                        Ok(b) => {
                            let ids = s2.values.ids_of(key, &b);
                            w().probe("entry_survived_power_loss");
                            if ids.is_empty() {
                                s2.bad("C02", "torn-after-power-loss", format!("key {} holds {} bytes that are no value ever written ({:02x?}..)", key, b.len(), &b[..b.len().min(12)]));
                            } else {
                                let id = s2.begin(key, What::Read);
                                s2.end(id, Res::Read(Some(ids[0]), false));
                            }
                        }
                        Err(e) => s2.bad("C02", "unreadable", format!("key {} cannot be read after power loss: {}", key, e)),
                    }
                }
                let (vid, data) = s2.values.fresh(&s2.empties, key);
                let fill = w().ch.chance(600);
                let id = s2.begin(key, What::Set(vid));
                let r: eyre::Result<()> = (|| {
                    if fill {
                        let mut r = store.get_or_set(&k, |o| {
                            o.write_all(&data)?;
                            Ok(())
                        })?;
                        slurp(&mut r)?;
                    } else {
                        let l = store.lock(&k)?;
                        let mut wr = l.begin()?;
                        wr.write_all(&data)?;
                        let mut r = wr.commit()?;
                        let b = slurp(&mut r)?;
                        if b != data && !dead() {
                            s2.bad("C02", "torn-after-power-loss", "a fresh write reads back differently".into());
                        }
                    }
                    Ok(())
                })();
                if let Err(e) = r {
                    s2.bad("C02", "unusable", format!("after power loss key {} cannot be used: {}", key, errstr(&e)));
                }
                s2.end(id, Res::SetOk);
            }
        });
        let stop = run();
        w().time_limit = None;
        judge_end(rep, &stop, &["C02"], &["C02"]);
        for (_, _, e) in sh.hist.take() {
            match e {
                Ev::Bad("C02", s, m) => rep.fail("C02", s, m),
                Ev::Begin(_, k, What::Set(v)) => PAST.with(|p| {
                    p.borrow_mut().entry(k).or_default().insert(v);
                }),
                Ev::End(_, Res::Read(Some(v), _)) => {
                    // which key: encoded by order; checked below through the owner table
                    let owners: Vec<usize> = PAST.with(|p| p.borrow().iter().filter(|(_, s)| s.contains(&v)).map(|(k, _)| *k).collect());
                    LASTREAD.with(|l| l.borrow_mut().push((v, owners)));
                }
                Ev::Begin(_, k, What::Read) => LASTKEY.with(|l| l.borrow_mut().push(k)),
                _ => (),
            }
        }
        let keys = LASTKEY.with(|l| std::mem::take(&mut *l.borrow_mut()));
        let reads = LASTREAD.with(|l| std::mem::take(&mut *l.borrow_mut()));
        for (k, (v, owners)) in keys.iter().zip(reads) {
            // an empty value carries no identity
            if !owners.contains(k) && !sh.values.get(v).is_empty() {
                rep.fail(
                    "C02",
                    "unpublished-visible",
                    format!("after power loss key {} holds value {}, which was never successfully written for it (written for {:?})", k, v, owners),
                );
            }
        }
        // the durable state is the new baseline
        w().fs.sync_all();
        w().fs.start_power_tracking();
    }
    PAST.with(|p| p.borrow_mut().clear());
    rep.trivial = !lost_any;
}
thread_local! {
    static PAST: std::cell::RefCell<HashMap<usize, HashSet<u32>>> = Default::default();
    static LASTREAD: std::cell::RefCell<Vec<(u32, Vec<usize>)>> = Default::default();
    static LASTKEY: std::cell::RefCell<Vec<usize>> = Default::default();
}

// ---------------------------------------------------------------- directories

struct DirSh {
    keys: Vec<Key>,
    hist: Hist<DirEv>,
    holders: Mutex<HashMap<usize, Vec<Pid>>>,
    /// complete trees producers finished making, per key
    trees: Mutex<HashMap<usize, Vec<Tree>>>,
    /// producers that reported success, per key
    ok_runs: Mutex<HashMap<usize, u32>>,
    published: Mutex<HashMap<usize, (Tree, usize)>>,
    ctr: Mutex<u32>,
}
#[derive(Clone, Debug)]
enum DirEv {
    Got(usize, String, bool, bool),
    Bad(&'static str, &'static str, String),
}
impl DirSh {
    fn bad(&self, p: &'static str, s: &'static str, m: String) {
        self.hist.push(DirEv::Bad(p, s, m));
    }
}
const DBASE: &str = "/cache/dirs";

fn entry_path(k: &Key) -> String {
    format!("{}/{}", DBASE, k.key().display())
}

fn make_tree(dir: &Path, serial: u32, fail_at: Option<usize>) -> eyre::Result<Tree> {
    let mut t = Tree::new();
    let n = w().ch.range(1, 5);
    for i in 0..n {
        if fail_at == Some(i) {
            return Err(producer_error());
        }
        if w().ch.chance(250) {
            std::thread::sleep(std::time::Duration::from_millis(100));
        }
        let sub = w().ch.choose(3);
        let rel = match sub {
            0 => format!("f{}", i),
            1 => format!("d{}/f", i),
            _ => format!("d/e{}/f", i),
        };
        if let Some(p) = Path::new(&rel).parent() {
            if !p.as_os_str().is_empty() {
                std::fs::create_dir_all(dir.join(p))?;
                for a in p.ancestors() {
                    if !a.as_os_str().is_empty() {
                        t.insert(a.display().to_string(), Node::Dir);
                    }
                }
            }
        }
        let data = format!("content {} of {}\n", i, serial).repeat(1 + w().ch.choose(40)).into_bytes();
        std::fs::write(dir.join(&rel), &data)?;
        t.insert(rel, Node::File { data, exec: false });
    }
    Ok(t)
}

fn dir_ops(sh: Arc<DirSh>, nops: usize) {
    let store = match KVDirStore::new(Path::new(DBASE)) {
        Ok(s) => s,
        Err(e) => {
            if my_faults() == 0 && !dead() {
                sh.bad("C05", "spurious-error", format!("opening the store failed without a fault: {:?}", e));
            }
            return;
        }
    };
    for _ in 0..nops {
        if dead() {
            return;
        }
        let key = w().ch.choose(sh.keys.len());
        let k = sh.keys[key].clone();
        if w().ch.chance(200) {
            // hold the lock for a while
            if let Ok(l) = store.lock(&k) {
                if dead() {
                    return;
                }
                hold(&sh, key);
                let seen = l.exists();
                std::thread::sleep(std::time::Duration::from_millis(300));
                if l.exists() && !seen && !dead() && my_faults() == 0 {
                    sh.bad("C03", "changed-under-lock", format!("entry {} appeared while its lock was held by somebody else", key));
                }
                unhold(&sh, key);
            }
            continue;
        }
        let f0 = my_faults();
        let fails = w().ch.chance(200);
        let fail_at = if fails { Some(w().ch.choose(2)) } else { None };
        let mut ran = 0;
        let mut produced = false;
        let existed = w().fs.exists(&entry_path(&k));
        let sh2 = sh.clone();
        let r = store.get_or_set(&k, |d| {
            ran += 1;
            hold(&sh2, key);
            if w().fs.exists(&entry_path(&sh2.keys[key])) && !dead() && my_faults() == f0 {
                sh2.bad("C03", "producer-ran-needlessly", format!("the producer of {} started although the entry existed by then", key));
            }
            let serial = {
                let mut c = sh2.ctr.lock().unwrap();
                *c += 1;
                *c
            };
            let r = make_tree(d, serial, fail_at);
            unhold(&sh2, key);
            match r {
                Ok(t) => {
                    if dead() {
                        return Err(producer_error());
                    }
                    sh2.trees.lock().unwrap().entry(key).or_default().push(t);
                    produced = true;
                    Ok(())
                }
                Err(e) => Err(e),
            }
        });
        if dead() {
            return;
        }
        let lenient = my_faults() > f0;
        if existed && ran > 0 && !lenient {
            sh.bad("C03", "producer-ran-needlessly", format!("the producer of {} ran although the entry existed", key));
            sh.bad("C04", "producer-ran-needlessly", format!("the producer of {} ran although the entry existed", key));
        }
        match r {
            Ok(p) => {
                if ran > 0 && !produced {
                    sh.bad("C05", "false-success", "get-or-create reported success although its producer failed".into());
                }
                if produced {
                    *sh.ok_runs.lock().unwrap().entry(key).or_default() += 1;
                }
                w().probe(if ran > 0 { "dir_produced" } else { "dir_reused" });
                let ps = p.display().to_string();
                if !w().fs.exists(&ps) {
                    sh.bad("C04", "missing", format!("the path returned for {} does not exist", key));
                }
                sh.hist.push(DirEv::Got(key, ps, ran > 0, lenient));
            }
            Err(e) => {
                if !lenient && (ran == 0 || produced) {
                    for p in ["C03", "C05"] {
                        sh.bad(p, "spurious-error", format!("get-or-create failed without a fault: {}", errstr(&e)));
                    }
                    if w().fs.exists(&entry_path(&k)) || produced {
                        sh.bad("C04", "spurious-error", format!("get-or-create did not give the caller the entry: {}", errstr(&e)));
                    }
                }
            }
        }
    }
}
fn hold(sh: &DirSh, key: usize) {
    if dead() {
        return;
    }
    let mut h = sh.holders.lock().unwrap();
    let v = h.entry(key).or_default();
    v.retain(|p| !w().procs[*p].ghost && w().procs[*p].st != St::Done);
    let clash = !v.is_empty();
    v.push(me());
    drop(h);
    if clash {
        sh.bad("C03", "two-holders", format!("directory key {} is held twice at once", key));
    }
}
fn unhold(sh: &DirSh, key: usize) {
    if dead() {
        return;
    }
    let mut h = sh.holders.lock().unwrap();
    let v = h.entry(key).or_default();
    if let Some(i) = v.iter().position(|p| *p == me()) {
        v.remove(i);
    }
}

fn dir_setup(nkeys: usize) -> Arc<DirSh> {
    let sh = Arc::new(DirSh {
        keys: draw_keys(nkeys),
        hist: Hist::new(),
        holders: Mutex::new(HashMap::new()),
        trees: Mutex::new(HashMap::new()),
        ok_runs: Mutex::new(HashMap::new()),
        published: Mutex::new(HashMap::new()),
        ctr: Mutex::new(0),
    });
    w().fs.mkdir_p("/cache");
    let s2 = sh.clone();
    let paths: Vec<String> = sh.keys.iter().map(entry_path).collect();
    let mut n = 0u64;
    w().invariant = Some(Box::new(move |wd| {
        n += 1;
        for (i, p) in paths.iter().enumerate() {
            let ino = match wd.fs.lookup(ROOT, p.as_bytes(), true) {
                Ok(x) => x as usize,
                Err(_) => {
                    if s2.published.lock().unwrap().contains_key(&i) {
                        return Some(format!("C04|vanished|entry {} disappeared after it had been published", i));
                    }
                    continue;
                }
            };
            let mut pb = s2.published.lock().unwrap();
            match pb.get(&i) {
                None => {
                    let t = wd.fs.tree(p);
                    let whole = s2.trees.lock().unwrap().get(&i).map_or(false, |v| v.contains(&t));
                    if !whole {
                        return Some(format!("C04|partial|entry {} became visible with an incomplete tree: {:?}", i, t.keys().collect::<Vec<_>>()));
                    }
                    pb.insert(i, (t, ino));
                }
                Some((t, ino0)) => {
                    if *ino0 != ino {
                        return Some(format!("C04|replaced|entry {} was replaced after it had been published", i));
                    }
                    if n % 7 == 0 && wd.fs.tree(p) != *t {
                        return Some(format!("C04|modified|entry {} was modified after it had been published", i));
                    }
                }
            }
        }
        None
    }));
    sh
}

fn dir_judge(rep: &mut Rep, sh: &DirSh) {
    for (_, _, e) in sh.hist.take() {
        match e {
            DirEv::Bad(p, s, m) => rep.fail(p, s, m),
            DirEv::Got(k, path, _, _) => {
                let want = entry_path(&sh.keys[k]);
                rep.check(path == want, "C04", "path", || format!("key {} came back as {} (others get {})", k, path, want));
            }
        }
    }
    for (k, (t, _)) in sh.published.lock().unwrap().iter() {
        let now = w().fs.tree(&entry_path(&sh.keys[*k]));
        rep.check(now == *t, "C04", "modified", || format!("entry {} was modified after it had been published", k));
    }
    for (k, n) in sh.ok_runs.lock().unwrap().iter() {
        rep.check(*n <= 1, "C03", "producer-twice", || format!("{} producers of directory key {} succeeded", n, k));
    }
}

fn dir_after(rep: &mut Rep, sh: &Arc<DirSh>, prop: &'static str) {
    calm();
    let s2 = sh.clone();
    w().time_limit = Some(w().now + 60_000_000_000);
    spawn("after", move || {
        let store = match KVDirStore::new(Path::new(DBASE)) {
            Ok(s) => s,
            Err(e) => {
                s2.bad(prop, "unusable", format!("the store cannot be opened any more: {}", errstr(&e)));
                return;
            }
        };
        for key in 0..s2.keys.len() {
            let sh3 = s2.clone();
            let r = store.get_or_set(&s2.keys[key].clone(), |d| {
                let t = make_tree(d, 900 + key as u32, None)?;
                sh3.trees.lock().unwrap().entry(key).or_default().push(t);
                Ok(())
            });
            match r {
                Ok(p) => s2.hist.push(DirEv::Got(key, p.display().to_string(), true, false)),
                Err(e) => {
                    let m = format!("directory key {} cannot be produced any more: {}", key, errstr(&e));
                    s2.bad(prop, "unusable", m.clone());
                    s2.bad("C42", "unusable", m);
                }
            }
        }
    });
    let stop = run();
    w().time_limit = None;
    let pr: &[&str] = &[prop, "C42"];
    judge_end(rep, &stop, pr, pr);
}

fn kv_dir(rep: &mut Rep) {
    let nk = w().ch.range(1, 2);
    let sh = dir_setup(nk);
    draw_sched();
    match w().ch.choose(6) {
        0 | 1 => draw_crash(),
        2 | 3 => draw_watch(&["/cache"]),
        _ => (),
    }
    w().f.same_tmp_names = w().ch.chance(200);
    let np = w().ch.range(2, 4);
    for p in 0..np {
        let sh = sh.clone();
        let n = w().ch.range(1, 4);
        spawn(&format!("p{}", p), move || dir_ops(sh, n));
    }
    let stop = run();
    judge_end(rep, &stop, &["C03", "C04", "C42"], &["C03", "C42"]);
    rep.trivial = w().switches < 6;
    if rep.fails.is_empty() {
        dir_after(rep, &sh, "C04");
    }
    dir_judge(rep, &sh);
    leftovers(rep, "/cache/dirs/tmp", "C05");
    w().invariant = None;
}

fn kv_dir_io(rep: &mut Rep) {
    let nk = w().ch.range(1, 2);
    let sh = dir_setup(nk);
    draw_sched();
    match w().ch.choose(3) {
        0 => draw_io(),
        1 => {
            let at = w().ch.range(1, 50) as u64;
            w().f.io_at = Some((1, at));
        }
        _ => {
            let n = w().ch.size(6_000) as i64;
            w().fs.space_left = Some(n);
        }
    }
    if w().ch.chance(200) {
        draw_crash();
    }
    let np = w().ch.range(1, 3);
    for p in 0..np {
        let sh = sh.clone();
        let n = w().ch.range(1, 4);
        spawn(&format!("p{}", p), move || dir_ops(sh, n));
    }
    let stop = run();
    judge_end(rep, &stop, &["C04", "C05", "C42"], &["C42"]);
    leftovers(rep, "/cache/dirs/tmp", "C05");
    rep.trivial = !any_io_error() && !fired("disk_full");
    if rep.fails.is_empty() {
        dir_after(rep, &sh, "C05");
    }
    dir_judge(rep, &sh);
    w().invariant = None;
}
