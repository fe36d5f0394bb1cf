//! C16: sequences of values through the real caches.  A follower joins before every value, with a
//! copy of the leader's cache taken in each of the ways it can travel; all followers decode all
//! that follows.
use crate::paths;
use omnipaxos::macros::UniCacheEntry;
use omnipaxos::storage::Entry;
use omnipaxos::unicache::{lfu_cache::LFUniCache, lru_cache::LRUniCache, *};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};

// cached fields first, last and in between; both policies, several sizes and encodings
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, UniCacheEntry)]
pub struct Rec {
    #[unicache(encoding(u8), size(2), cache(lru))]
    a: String,
    id: u64,
    #[unicache(encoding(u64), size(2), cache(lfu))]
    b: String,
    #[unicache(encoding(u16), size(3), cache(lru))]
    c: u32,
    tag: String,
    #[unicache(size(1), cache(lfu))]
    d: String,
}
mod dflt {
    use omnipaxos::macros::UniCacheEntry;
    use omnipaxos::storage::Entry;
    use omnipaxos::unicache::{MaybeEncoded, UniCache};
    use serde::{Deserialize, Serialize};
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize, UniCacheEntry)]
    pub struct Dflt {
        pub id: u64,
        #[unicache()]
        pub a: String,
    }
}
use dflt::Dflt;
fn rec(v: u64, k: usize) -> Rec {
    Rec { a: format!("a{}", v), id: k as u64, b: "b".repeat(v as usize), c: 1000 + v as u32, tag: format!("t{}", k), d: format!("d{}", v) }
}
fn dflt(v: u64, k: usize) -> Dflt {
    Dflt { id: k as u64, a: format!("a{}", v) }
}

const MODES: [&str; 6] = ["clone", "clone of clone", "bincode", "json", "bincode of clone", "clone of bincode of clone"];
fn joined<C: Clone + Serialize + DeserializeOwned>(c: &C, mode: usize) -> C {
    let bin = |c: &C| -> C { bincode::deserialize(&bincode::serialize(c).unwrap()).unwrap() };
    let json = |c: &C| -> C { serde_json::from_str(&serde_json::to_string(c).unwrap()).unwrap() };
    match mode {
        0 => c.clone(),
        1 => c.clone().clone(),
        2 => bin(&c.clone()),
        3 => json(&c.clone()),
        4 => bin(&c.clone().clone()),
        _ => bin(&c.clone()).clone(),
    }
}

/// the first value that some follower decodes as something else
fn go<C, T, M>(vals: &[u64], new: impl Fn() -> C, val: impl Fn(u64, usize) -> T, enc: impl Fn(&mut C, &T) -> M, dec: impl Fn(&mut C, M) -> T) -> Option<String>
where
    C: Clone + Serialize + DeserializeOwned,
    T: PartialEq + std::fmt::Debug,
    M: Clone + Serialize + DeserializeOwned,
{
    // only what a serialised cache does differently from one that is handed over directly
    let ser = crate::arg("--ser", "0") == "1";
    let mut direct = None;
    let mut leader = new();
    let mut followers: Vec<(usize, usize, C)> = vec![(0, 9, new())];
    for (k, v) in vals.iter().enumerate() {
        for m in 0..MODES.len() {
            followers.push((k, m, joined(&leader, m)));
        }
        let x = val(*v, k);
        let msg = enc(&mut leader, &x);
        for (at, m, c) in followers.iter_mut() {
            let wire: M = bincode::deserialize(&bincode::serialize(&msg).unwrap()).unwrap();
            let r = catch_unwind(AssertUnwindSafe(|| dec(c, wire)));
            if *m == 0 {
                direct = r.as_ref().ok().map(|y| *y == x);
            }
            match r {
                Ok(y) if y == x => {}
                _ if ser && (*m < 2 || *m == 9 || direct != Some(true)) => {}
                r => {
                    let how = MODES.get(*m).unwrap_or(&"new");
                    return Some(format!("value no {} ({:?}) is decoded as {:?} by a follower that joined before value {} ({})", k + 1, x, r.ok(), *at + 1, how));
                }
            }
        }
    }
    None
}
fn field<C: FieldCache<String, u8> + Clone + Serialize + DeserializeOwned>(name: &str, vals: &[u64], size: usize) -> Option<String> {
    go(vals, || C::new(size), |v, _| format!("v{}", v), |c, x| c.try_encode(x), |c, m| c.decode(m)).map(|w| format!("{}({}): {}", name, size, w))
}
pub fn check(vals: &[u64]) -> Option<String> {
    let all = || {
        for size in 1..=3 {
            let r = field::<LRUniCache<String, u8>>("lru", vals, size).or_else(|| field::<LFUniCache<String, u8>>("lfu", vals, size));
            if r.is_some() {
                return r;
            }
        }
        go(vals, <Rec as Entry>::UniCache::new, rec, |c, x| c.try_encode(x), |c, m| c.decode(m))
            .map(|w| format!("derived: {}", w))
            .or_else(|| go(vals, <Dflt as Entry>::UniCache::new, dflt, |c, x| c.try_encode(x), |c, m| c.decode(m)).map(|w| format!("derived, default size: {}", w)))
    };
    match catch_unwind(AssertUnwindSafe(all)) {
        Ok(r) => r,
        Err(_) => Some("a panic while encoding".to_string()),
    }
}
pub fn replay_paths(file: &str, max: usize, seed: u64) {
    paths(file, max, seed, |_, h, _| {
        let vals: Vec<u64> = serde_json::from_value(h.clone()).expect("values");
        check(&vals)
    });
}
/// long random sequences over more values than the largest cache has slots, skewed
pub fn random(seed: u64, count: usize, len: usize) {
    let mut bad = vec![];
    for k in 0..count {
        let mut r = crate::Rng::new(seed * 7919 + k as u64);
        let n = 2 + r.below(7);
        let vals: Vec<u64> = (0..len).map(|_| 1 + r.below(n).min(r.below(n))).collect();
        if let Some(w) = check(&vals) {
            bad.push((vals, w));
        }
    }
    // the default size is 255 with u8 codes: more values than that
    let many: Vec<u64> = (0..700u64).map(|k| if k % 3 == 0 { 1 + k / 3 } else { 1 + (k * 7) % 300 }).collect();
    let r = catch_unwind(AssertUnwindSafe(|| {
        go(&many[..], || Wrap(LRUniCache::<String, u8>::new(255)), |v, _| format!("v{}", v), |c, x| c.0.try_encode(x), |c, m| c.0.decode(m))
    }));
    if let Some(w) = r.unwrap_or(Some("a panic".into())) {
        bad.push((many.clone(), w));
    }
    let r = catch_unwind(AssertUnwindSafe(|| {
        go(&many[..], || LFUniCache::<String, u8>::new(255), |v, _| format!("v{}", v), |c, x| c.try_encode(x), |c, m| c.decode(m))
    }));
    if let Some(w) = r.unwrap_or(Some("a panic".into())) {
        bad.push((many.clone(), w));
    }
    let outd = crate::arg("--out", "/tmp/opx-parts");
    std::fs::create_dir_all(&outd).unwrap();
    for (k, (v, w)) in bad.iter().take(3).enumerate() {
        let p = format!("{}/values-{}.txt", outd, k);
        std::fs::write(&p, format!("# {}\n<<\"PATH\", \"{}\">>\n", w, serde_json::json!(v))).unwrap();
        println!("FOUND {} {}", p, &w.chars().take(300).collect::<String>());
    }
    println!("PATHS {{\"emitted\":{0},\"paths\":{0},\"differing\":{1}}}", count + 1, bad.len());
}
#[derive(Clone, Serialize, Deserialize)]
#[serde(bound = "")]
struct Wrap(LRUniCache<String, u8>);
