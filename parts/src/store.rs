//! C15: programs of storage operations on the real back-ends.
use crate::{paths, Rng};
use omnipaxos::{
    ballot_leader_election::Ballot,
    storage::{Entry, Snapshot, StopSign, Storage, StorageOp},
    util::FlexibleQuorum,
    ClusterConfig,
};
use omnipaxos_storage::memory_storage::MemoryStorage;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const POISON: u64 = 99;

/// An entry of varying size; the one with value POISON cannot be serialized.
#[derive(Clone, Debug, PartialEq)]
pub struct Ent(pub u64);
impl Serialize for Ent {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0 == POISON {
            return Err(serde::ser::Error::custom("not serializable"));
        }
        (self.0, vec![self.0 as u8; (self.0 % 5) as usize]).serialize(s)
    }
}
impl<'a> Deserialize<'a> for Ent {
    fn deserialize<D: serde::Deserializer<'a>>(d: D) -> Result<Self, D::Error> {
        let (v, b): (u64, Vec<u8>) = Deserialize::deserialize(d)?;
        if b != vec![v as u8; (v % 5) as usize] {
            return Err(serde::de::Error::custom("corrupt entry"));
        }
        Ok(Ent(v))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Snap(pub Vec<u64>);
impl Snapshot<Ent> for Snap {
    fn create(e: &[Ent]) -> Self {
        Snap(e.iter().map(|x| x.0).collect())
    }
    fn merge(&mut self, d: Self) {
        self.0.extend(d.0)
    }
    fn use_snapshots() -> bool {
        true
    }
}
#[cfg(not(feature = "uc"))]
impl Entry for Ent {
    type Snapshot = Snap;
}
#[cfg(feature = "uc")]
mod nouc {
    use super::*;
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct NoCache;
    impl omnipaxos::unicache::UniCache for NoCache {
        type T = Ent;
        fn new() -> Self {
            NoCache
        }
        fn try_encode(&mut self, e: &Ent) -> Ent {
            e.clone()
        }
        fn decode(&mut self, e: Ent) -> Ent {
            e
        }
    }
    impl Entry for Ent {
        type Snapshot = Snap;
        type Encoded = u8;
        type Encodable = u8;
        type NotEncodable = u8;
        type EncodeResult = Ent;
        type UniCache = NoCache;
    }
}

fn bal(b: u64) -> Ballot {
    let mut x = Ballot::default();
    x.config_id = 1 + (b % 2) as u32;
    x.n = 3 * b as u32;
    x.priority = (b % 3) as u32;
    x.pid = 7 + b;
    x
}
fn bal_no(b: Option<Ballot>) -> u64 {
    match b {
        None => 0,
        Some(b) => (1..20).find(|k| bal(*k) == b).unwrap_or(999),
    }
}
fn ss(x: u64) -> Option<StopSign> {
    (x > 0).then(|| {
        StopSign::with(
            ClusterConfig {
                configuration_id: 1 + x as u32,
                nodes: vec![1, x + 2, x + 3],
                flexible_quorum: (x % 2 == 0).then(|| FlexibleQuorum { read_quorum_size: 3, write_quorum_size: 2 }),
            },
            (x % 3 != 0).then(|| vec![x as u8; x as usize]),
        )
    })
}
fn ss_no(s: Option<StopSign>) -> u64 {
    if s.is_none() {
        return 0;
    }
    (1..20).find(|k| ss(*k) == s).unwrap_or(999)
}
fn snap(x: u64) -> Option<Snap> {
    (x > 0).then(|| Snap((0..x).collect()))
}
fn snap_no(s: Option<Snap>) -> u64 {
    match s {
        None => 0,
        Some(s) => (1..20).find(|k| snap(*k).as_ref() == Some(&s)).unwrap_or(999),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub k: String,
    pub i: u64,
    pub v: Vec<u64>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    pub t: String,
    pub ops: Vec<Op>,
}

pub enum Back {
    Mem(MemoryStorage<Ent>),
    #[cfg(feature = "rocks")]
    Rocks(Option<omnipaxos_storage::persistent_storage::PersistentStorage<Ent>>, std::path::PathBuf),
}
fn ents(v: &[u64]) -> Vec<Ent> {
    v.iter().map(|x| Ent(*x)).collect()
}
fn to_op(o: &Op) -> StorageOp<Ent> {
    let i = o.i as usize;
    match o.k.as_str() {
        "AE" => StorageOp::AppendEntry(Ent(o.v[0])),
        "AS" => StorageOp::AppendEntries(ents(&o.v)),
        "AP" => StorageOp::AppendOnPrefix(i, ents(&o.v)),
        "SP" => StorageOp::SetPromise(bal(o.i)),
        "SA" => StorageOp::SetAcceptedRound(bal(o.i)),
        "SD" => StorageOp::SetDecidedIndex(i),
        "SC" => StorageOp::SetCompactedIdx(i),
        "TR" => StorageOp::Trim(i),
        "SS" => StorageOp::SetStopsign(ss(o.i)),
        "SN" => StorageOp::SetSnapshot(snap(o.i)),
        _ => panic!("bad op"),
    }
}
fn call<S: Storage<Ent>>(s: &mut S, o: &Op) -> bool {
    let i = o.i as usize;
    match o.k.as_str() {
        "AE" => s.append_entry(Ent(o.v[0])),
        "AS" => s.append_entries(ents(&o.v)),
        "AP" => s.append_on_prefix(i, ents(&o.v)),
        "SP" => s.set_promise(bal(o.i)),
        "SA" => s.set_accepted_round(bal(o.i)),
        "SD" => s.set_decided_idx(i),
        "SC" => s.set_compacted_idx(i),
        "TR" => s.trim(i),
        "SS" => s.set_stopsign(ss(o.i)),
        "SN" => s.set_snapshot(snap(o.i)),
        _ => panic!("bad op"),
    }
    .is_ok()
}
fn obs<S: Storage<Ent>>(s: &S, lo: usize, hi: usize) -> Value {
    let vals = |r: omnipaxos::storage::StorageResult<Vec<Ent>>| match r {
        Ok(v) => json!(v.iter().map(|e| e.0).collect::<Vec<_>>()),
        Err(_) => json!("error"),
    };
    let n = |r: omnipaxos::storage::StorageResult<usize>| r.map(|x| json!(x)).unwrap_or(json!("error"));
    json!({
        "prom": s.get_promise().map(|b| json!(bal_no(b))).unwrap_or(json!("error")),
        "acc": s.get_accepted_round().map(|b| json!(bal_no(b))).unwrap_or(json!("error")),
        "dec": n(s.get_decided_idx()), "cmp": n(s.get_compacted_idx()), "len": n(s.get_log_len()),
        "ss": s.get_stopsign().map(|x| json!(ss_no(x))).unwrap_or(json!("error")),
        "sn": s.get_snapshot().map(|x| json!(snap_no(x))).unwrap_or(json!("error")),
        "suf": (lo..=hi).map(|f| vals(s.get_suffix(f))).collect::<Vec<_>>(),
        "ent": (lo..=hi).map(|f| (lo..=hi).map(|t| vals(s.get_entries(f, t))).collect::<Vec<_>>()).collect::<Vec<_>>(),
    })
}
#[cfg(feature = "rocks")]
fn open(p: &std::path::Path) -> omnipaxos_storage::persistent_storage::PersistentStorage<Ent> {
    use omnipaxos_storage::persistent_storage::{PersistentStorage, PersistentStorageConfig};
    PersistentStorage::open(PersistentStorageConfig::with_path(p.to_str().unwrap().to_string()))
}

/// Copies the files of an open database; again if one of them changed meanwhile.
#[cfg(feature = "rocks")]
fn copy_files(from: &std::path::Path, to: &std::path::Path) {
    let list = || -> std::io::Result<Vec<(std::ffi::OsString, u64)>> {
        let mut v = vec![];
        for f in std::fs::read_dir(from)? {
            let f = f?;
            if f.file_name() != "LOCK" && f.file_name() != "LOG" {
                v.push((f.file_name(), f.metadata()?.len()));
            }
        }
        v.sort();
        Ok(v)
    };
    for _ in 0..2000 {
        let _ = std::fs::remove_dir_all(to);
        std::fs::create_dir_all(to).unwrap();
        if let Ok(a) = list() {
            let ok = a.iter().all(|(n, _)| std::fs::copy(from.join(n), to.join(n)).is_ok());
            if ok && list().ok() == Some(a) {
                return;
            }
        }
        std::thread::sleep(std::time::Duration::from_millis(2));
    }
    eprintln!("the files of the database keep changing");
    std::process::exit(2)
}

impl Back {
    pub fn new(kind: &str, dir: &str, no: usize) -> Back {
        match kind {
            "mem" => Back::Mem(MemoryStorage::default()),
            #[cfg(feature = "rocks")]
            "rocks" => {
                let p = std::path::Path::new(dir).join(format!("db-{}", no));
                let _ = std::fs::remove_dir_all(&p);
                Back::Rocks(Some(open(&p)), p)
            }
            _ => {
                let _ = (dir, no);
                eprintln!("no such back-end: {}", kind);
                std::process::exit(2)
            }
        }
    }
    fn step1(&mut self, st: &Step) -> bool {
        fn go<S: Storage<Ent>>(s: &mut S, st: &Step) -> bool {
            match st.t.as_str() {
                "C" => st.ops.iter().all(|o| call(s, o)),
                "G" => s.write_atomically(st.ops.iter().map(to_op).collect()).is_ok(),
                _ => true,
            }
        }
        match self {
            Back::Mem(m) => {
                if st.t == "R" || st.t == "K" {
                    *m = m.clone();
                }
                go(m, st)
            }
            #[cfg(feature = "rocks")]
            Back::Rocks(db, p) => {
                if st.t == "R" {
                    drop(db.take());
                    *db = Some(open(p));
                }
                if st.t == "K" {
                    // the files as a killed process leaves them
                    let mut q = p.clone().into_os_string();
                    q.push("k");
                    let q = std::path::PathBuf::from(q);
                    copy_files(p, &q);
                    drop(db.take());
                    let _ = std::fs::remove_dir_all(&*p);
                    *p = q;
                    *db = Some(open(p));
                }
                go(db.as_mut().unwrap(), st)
            }
        }
    }
    /// (result, what can be read afterwards); a panic shows as such
    pub fn step(&mut self, st: &Step, lo: usize, hi: usize) -> (String, Value) {
        let r = catch_unwind(AssertUnwindSafe(|| self.step1(st)));
        let ret = match r {
            Ok(true) => "ok",
            Ok(false) => "err",
            Err(_) => "panic",
        };
        let o = catch_unwind(AssertUnwindSafe(|| match self {
            Back::Mem(m) => obs(m, lo, hi),
            #[cfg(feature = "rocks")]
            Back::Rocks(db, _) => match db {
                Some(d) => obs(d, lo, hi),
                None => json!("closed"),
            },
        }));
        (ret.to_string(), o.unwrap_or(json!("panic")))
    }
    pub fn quiet(&mut self, st: &Step) {
        let _ = catch_unwind(AssertUnwindSafe(|| self.step1(st)));
    }
}
impl Drop for Back {
    fn drop(&mut self) {
        #[cfg(feature = "rocks")]
        if let Back::Rocks(db, p) = self {
            drop(db.take());
            let _ = std::fs::remove_dir_all(&p);
        }
    }
}

fn poisoned(s: &Step) -> bool {
    s.ops.iter().any(|o| o.v.contains(&POISON))
}
/// Replays the paths TLC printed; prints the shortest ones after which something else is read.
pub fn replay_paths(file: &str, kind: &str, dir: &str, max: usize, seed: u64) {
    paths(file, max, seed, |no, h, xp| {
        let steps: Vec<Step> = serde_json::from_value(h.clone()).expect("path");
        if kind == "mem" && steps.iter().any(|s| poisoned(s)) {
            return None; // nothing fails in memory
        }
        let mut b = Back::new(kind, dir, no);
        let hi = xp["obs"]["suf"].as_array().unwrap().len() - 1;
        for s in &steps[..steps.len() - 1] {
            b.quiet(s);
        }
        let (ret, o) = b.step(&steps[steps.len() - 1], 0, hi);
        let got = json!({ "ret": ret, "obs": o });
        if &got != xp {
            return Some(diff(xp, &got));
        }
        // whatever the last step left behind must not show after reopening either
        let (_, o) = b.step(&Step { t: "R".into(), ops: vec![] }, 0, hi);
        let got = json!({ "ret": xp["ret"], "obs": o });
        (&got != xp).then(|| format!("reopened: {}", diff(xp, &got)))
    });
}
pub fn diff(exp: &Value, got: &Value) -> String {
    if exp["ret"] != got["ret"] {
        return format!("returns {} instead of {}", got["ret"], exp["ret"]);
    }
    if let (Some(e), true) = (exp["obs"].as_object(), got["obs"].is_object()) {
        for (k, v) in e {
            if &got["obs"][k] != v {
                return format!("{} reads as {} instead of {}", k, got["obs"][k], v);
            }
        }
    }
    format!("{} instead of {}", got, exp)
}

/// Random programs as the library could issue them, recorded with all that is read after each step.
pub fn random(kind: &str, dir: &str, seed: u64, count: usize, len: usize, fail: bool, out: &str) {
    let mut all = vec![];
    for k in 0..count {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64));
        let mut b = Back::new(kind, dir, k);
        let (mut tr, mut end, mut next) = (0u64, 0u64, 1u64);
        let mut trace = vec![];
        // some logs were compacted so far up that indexes need more than 32 bits; these programs are
        // recorded with all indexes relative to `off`
        let off: u64 = [0, 0, 0, (1 << 32) - 6, 1 << 40][r.below(5) as usize];
        if off > 0 {
            let op = |k: &str, i: u64| Op { k: k.to_string(), i, v: vec![] };
            b.quiet(&Step { t: "G".into(), ops: vec![op("TR", off), op("SC", off), op("SD", off), op("AP", off)] });
        }
        // some programs start with a log that was compacted far up, so that indexes cross the
        // sizes at which their encoding changes
        let base = [0, 0, 250, 65_530][(r.below(4)) as usize];
        for n in 0..len {
            let op = |k: &str, i: u64, v: Vec<u64>| Op { k: k.to_string(), i, v };
            let mut vs = |r: &mut Rng, m: u64| -> Vec<u64> {
                (0..r.below(m + 1)).map(|_| { next = next % 80 + 1; next }).collect()
            };
            let g = if r.below(2) == 0 { "G" } else { "C" };
            let from = tr + r.below(end - tr + 1);
            let st = if n == 0 && base > 0 {
                let v = vs(&mut r, 3);
                Step { t: "G".into(), ops: vec![op("TR", base, vec![]), op("SC", base, vec![]), op("SN", 1 + r.below(9), vec![]), op("AP", base, v)] }
            } else { match r.below(if fail { 16 } else { 15 }) {
                0 => { let mut v = vs(&mut r, 1); v.resize(1, 7); Step { t: g.into(), ops: vec![op("AE", 0, v)] } }
                1 | 2 => { let v = vs(&mut r, 4); Step { t: g.into(), ops: vec![op("AS", 0, v)] } }
                3 | 4 => { let v = vs(&mut r, 4); Step { t: g.into(), ops: vec![op("AP", from, v)] } }
                5 => Step { t: g.into(), ops: vec![op("SP", 1 + r.below(9), vec![])] },
                6 => Step { t: g.into(), ops: vec![op("SD", from, vec![])] },
                7 => Step { t: g.into(), ops: vec![op("SA", 1 + r.below(9), vec![])] },
                8 => Step { t: g.into(), ops: vec![op("SS", r.below(6), vec![])] },
                9 => Step { t: g.into(), ops: vec![op("TR", from, vec![]), op("SC", from, vec![])] },
                10 => Step { t: "G".into(), ops: vec![op("TR", from, vec![]), op("SC", from, vec![]), op("SN", 1 + r.below(9), vec![])] },
                11 => {
                    let i = if r.below(2) == 0 { from } else { end + r.below(3) };
                    let v = vs(&mut r, 3);
                    Step { t: "G".into(), ops: vec![op("SA", 1 + r.below(9), vec![]), op("SD", i, vec![]), op("TR", i, vec![]), op("SC", i, vec![]),
                        op("SN", 1 + r.below(9), vec![]), op("AP", i, v), op("SS", r.below(3), vec![])] }
                }
                12 => { let v = vs(&mut r, 3); Step { t: "G".into(), ops: vec![op("SA", 1 + r.below(9), vec![]), op("SD", from, vec![]), op("AP", from, v), op("SS", r.below(3), vec![])] } }
                13 => { let (v, w) = (vs(&mut r, 2), vs(&mut r, 2)); Step { t: "G".into(), ops: vec![op("AS", 0, v), op("AP", from, w), op("AE", 0, vec![5])] } }
                14 => Step { t: if r.below(2) == 0 { "R".into() } else { "K".into() }, ops: vec![] },
                _ => {
                    let mut v = vs(&mut r, 2);
                    v.push(POISON);
                    if r.below(2) == 0 { v.push(3) }
                    let o = match r.below(3) { 0 => op("AS", 0, v), 1 => op("AP", from, v), _ => op("AE", 0, vec![POISON]) };
                    if g == "C" { Step { t: g.into(), ops: vec![o] } } else {
                        Step { t: g.into(), ops: vec![op("SD", from, vec![]), op("AS", 0, vec![4]), o, op("SP", 3, vec![])] }
                    }
                }
            } };
            let bad = poisoned(&st);
            if !bad {
                for o in &st.ops {
                    match o.k.as_str() {
                        "AE" | "AS" => end += o.v.len() as u64,
                        "AP" => end = o.i + o.v.len() as u64,
                        "TR" => { tr = o.i; end = end.max(tr) }
                        _ => {}
                    }
                }
            }
            // keep the indexes small: what is read grows with their square
            let lo = if tr >= base + 2 { tr - 2 } else { base.max(1) - 1 };
            let hi = (end + 1).min(base + 14);
            let mut real = st.clone();
            for o in real.ops.iter_mut().filter(|o| ["AP", "TR", "SC", "SD"].contains(&o.k.as_str())) {
                o.i += off;
            }
            let (mut ret, mut o) = b.step(&real, (lo + off) as usize, (hi + off) as usize);
            for k in ["dec", "cmp"] {
                if let Some(x) = o[k].as_u64() {
                    o[k] = if x >= off && x - off < 1_000_000 { json!(x - off) } else { json!(999_999_999) };
                }
            }
            if !o.is_object() || o.to_string().contains("\"error\"") {
                ret = "unreadable".to_string();
            }
            trace.push(json!({"t": st.t, "ops": st.ops, "ret": ret, "obs": o, "lo": lo, "hi": hi, "off": off.to_string()}));
            if end > base + 13 {
                break;
            }
        }
        all.push(trace);
    }
    std::fs::write(out, serde_json::to_string(&all).unwrap()).unwrap();
    println!("TRACES {{\"traces\":{},\"steps\":{}}}", all.len(), all.iter().map(|t| t.len()).sum::<usize>());
}
