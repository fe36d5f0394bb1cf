//! Log entry and snapshot types used to drive the library.  Snapshots are the exact sequence of
//! entries they stand for, so a snapshot that lost, duplicated or reordered an entry is visible.
use omnipaxos::storage::{Entry, NoSnapshot, Snapshot, StopSign};
use omnipaxos::ClusterConfig;
use omnipaxos::util::FlexibleQuorum;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;

pub type V = u32;
/// A decided/stored value that is none of the proposed ones.
pub const CORRUPT: V = 888_888;
/// Stop signs occupy a log slot; the k-th proposed stop sign is value SS_BASE + k.
pub const SS_BASE: V = 900_000;
pub const KEYS: u32 = 7;

pub fn key_of(id: u32) -> u32 {
    let mut x = id.wrapping_mul(0x9E37_79B1);
    x ^= x >> 15;
    x % KEYS
}

pub trait HEntry: Entry + PartialEq + Serialize + for<'a> Deserialize<'a> + 'static {
    const SNAP: bool;
    fn mk(id: u32) -> Self;
    fn val(&self) -> V;
    fn snap_vals(s: &Self::Snapshot) -> Vec<V>;
    #[cfg(feature = "uc")]
    fn enc_vals(e: &Self::EncodeResult) -> V;
    #[cfg(not(feature = "uc"))]
    fn acc_vals(e: &Vec<Self>) -> Vec<V> {
        e.iter().map(|x| x.val()).collect()
    }
    #[cfg(feature = "uc")]
    fn acc_vals(e: &Vec<Self::EncodeResult>) -> Vec<V> {
        e.iter().map(|x| Self::enc_vals(x)).collect()
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SeqSnap {
    pub vals: Vec<V>,
}

#[cfg(feature = "uc")]
pub mod uc {
    use super::*;
    use omnipaxos::unicache::{lfu_cache::LFUniCache, lru_cache::LRUniCache, *};
    pub const CACHE: usize = 3;
    macro_rules! cache {
        ($name:ident, $ent:ident, $field:ident) => {
            #[derive(Clone, Debug, Serialize, Deserialize)]
            #[serde(bound = "")]
            pub struct $name {
                pub c: $field<u32, u8>,
            }
            impl UniCache for $name {
                type T = $ent;
                fn new() -> Self {
                    $name { c: $field::new(CACHE) }
                }
                fn try_encode(&mut self, e: &$ent) -> (u32, MaybeEncoded<u32, u8>) {
                    (e.id, self.c.try_encode(&e.key))
                }
                fn decode(&mut self, p: (u32, MaybeEncoded<u32, u8>)) -> $ent {
                    let key = self.c.decode(p.1);
                    $ent { id: p.0, key }
                }
            }
        };
    }
    cache!(SECache, SE, LRUniCache);
    cache!(NECache, NE, LFUniCache);
    cache!(LECache, LE, LRUniCache);
}

macro_rules! ent {
    ($name:ident, $snap:ty, $use:expr, $cache:ident) => {
        #[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
        pub struct $name {
            pub id: u32,
            pub key: u32,
        }
        impl Entry for $name {
            type Snapshot = $snap;
            #[cfg(feature = "uc")]
            type Encoded = u8;
            #[cfg(feature = "uc")]
            type Encodable = u32;
            #[cfg(feature = "uc")]
            type NotEncodable = u32;
            #[cfg(feature = "uc")]
            type EncodeResult = (u32, omnipaxos::unicache::MaybeEncoded<u32, u8>);
            #[cfg(feature = "uc")]
            type UniCache = uc::$cache;
        }
        impl HEntry for $name {
            const SNAP: bool = $use;
            fn mk(id: u32) -> Self {
                $name { id, key: key_of(id) }
            }
            fn val(&self) -> V {
                if self.key == key_of(self.id) { self.id } else { CORRUPT }
            }
            fn snap_vals(s: &Self::Snapshot) -> Vec<V> {
                SnapVals::vals(s)
            }
            #[cfg(feature = "uc")]
            fn enc_vals(e: &Self::EncodeResult) -> V {
                e.0
            }
        }
    };
}
pub trait SnapVals {
    fn vals(&self) -> Vec<V>;
}
impl SnapVals for SeqSnap {
    fn vals(&self) -> Vec<V> {
        self.vals.clone()
    }
}
impl SnapVals for NoSnapshot {
    fn vals(&self) -> Vec<V> {
        vec![CORRUPT]
    }
}
ent!(SE, SeqSnap, true, SECache);
ent!(NE, NoSnapshot, false, NECache);
#[cfg(feature = "uc")]
ent!(LE, NoSnapshot, false, LECache);

impl Snapshot<SE> for SeqSnap {
    fn create(entries: &[SE]) -> Self {
        SeqSnap { vals: entries.iter().map(|e| e.val()).collect() }
    }
    fn merge(&mut self, delta: Self) {
        self.vals.extend(delta.vals);
    }
    fn use_snapshots() -> bool {
        true
    }
}

/// Configuration ids of proposed reconfigurations start here.
const SS_ID: u32 = 1000;
/// The k-th reconfiguration request of a run; shapes vary so that altered contents are visible.
pub fn mk_ss(k: u32, nodes: &[u64]) -> (ClusterConfig, Option<Vec<u8>>) {
    let x = k as usize + nodes.iter().sum::<u64>() as usize;
    let mut n: Vec<u64> = nodes.to_vec();
    let max = *nodes.iter().max().unwrap();
    match x % 5 {
        0 => {}
        1 => n.push(max + 1),
        2 => n.reverse(),
        3 => {
            n[0] = max + 7;
        }
        _ => {
            n.remove(0);
            n.push(max + 3);
            n.push(max + 1);
        }
    }
    let fq = match (x / 2) % 3 {
        0 => Some(FlexibleQuorum { read_quorum_size: n.len(), write_quorum_size: 2 }),
        _ => None,
    };
    let md = match x % 4 {
        0 => None,
        1 => Some(vec![]),
        2 => Some(vec![k as u8, 1, 2, 3]),
        _ => Some((0..300usize).map(|b| (b + x) as u8).collect()),
    };
    (ClusterConfig { configuration_id: SS_ID + k, nodes: n, flexible_quorum: fq }, md)
}

/// Value of a stop sign found in a log or returned by the API.
pub fn ss_val(ss: &StopSign, nodes: &[u64]) -> V {
    let id = ss.next_config.configuration_id;
    if id < SS_ID || id > SS_ID + 10_000 {
        return CORRUPT;
    }
    let (c, m) = mk_ss(id - SS_ID, nodes);
    if c == ss.next_config && m == ss.metadata {
        SS_BASE + (id - SS_ID)
    } else {
        CORRUPT
    }
}
