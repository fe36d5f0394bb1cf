//! A small cluster with FIFO links that can be cut, servers that can crash and restart on their
//! storage, and full control over which message is delivered when.
#![allow(dead_code)]
use omnipaxos::{
    ballot_leader_election::Ballot,
    messages::{sequence_paxos::PaxosMsg, Message},
    storage::{Entry, NoSnapshot, Snapshot, StopSign, Storage, StorageOp, StorageResult},
    util::{FlexibleQuorum, LogEntry, NodeId},
    ClusterConfig, OmniPaxos, OmniPaxosConfig, ServerConfig,
};
use omnipaxos_storage::memory_storage::MemoryStorage;
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, BTreeSet, VecDeque},
    rc::Rc,
};

/// An entry without snapshots.
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct E(pub u64);
impl Entry for E {
    type Snapshot = NoSnapshot;
}

/// An entry with snapshots: the list of the values.
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct S(pub u64);
#[derive(Clone, Debug, PartialEq, Default, serde::Serialize, serde::Deserialize)]
pub struct L(pub Vec<u64>);
impl Snapshot<S> for L {
    fn create(e: &[S]) -> Self {
        L(e.iter().map(|x| x.0).collect())
    }
    fn merge(&mut self, d: Self) {
        self.0.extend(d.0)
    }
    fn use_snapshots() -> bool {
        true
    }
}
impl Entry for S {
    type Snapshot = L;
}

pub trait Val: Entry + 'static {
    fn mk(v: u64) -> Self;
    fn val(&self) -> u64;
    fn snap(s: &Self::Snapshot) -> Vec<u64>;
}
impl Val for E {
    fn mk(v: u64) -> Self {
        E(v)
    }
    fn val(&self) -> u64 {
        self.0
    }
    fn snap(_: &NoSnapshot) -> Vec<u64> {
        unreachable!()
    }
}
impl Val for S {
    fn mk(v: u64) -> Self {
        S(v)
    }
    fn val(&self) -> u64 {
        self.0
    }
    fn snap(s: &L) -> Vec<u64> {
        s.0.clone()
    }
}

/// Storage that survives its server; `fuse` lets the server die right before the n-th next write.
pub struct Disk<T: Entry> {
    pub m: Rc<RefCell<MemoryStorage<T>>>,
    pub fuse: Rc<Cell<Option<u32>>>,
}
impl<T: Entry> Clone for Disk<T> {
    fn clone(&self) -> Self {
        Disk { m: self.m.clone(), fuse: self.fuse.clone() }
    }
}
impl<T: Entry> Disk<T> {
    fn new() -> Self {
        Disk { m: Rc::new(RefCell::new(MemoryStorage::default())), fuse: Rc::new(Cell::new(None)) }
    }
    fn w(&self) -> std::cell::RefMut<'_, MemoryStorage<T>> {
        if let Some(k) = self.fuse.get() {
            if k == 0 {
                std::panic::panic_any("power failure");
            }
            self.fuse.set(Some(k - 1));
        }
        self.m.borrow_mut()
    }
}
impl<T: Entry> Storage<T> for Disk<T> {
    fn write_atomically(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
        self.w().write_atomically(ops)
    }
    fn append_entry(&mut self, e: T) -> StorageResult<()> {
        self.w().append_entry(e)
    }
    fn append_entries(&mut self, e: Vec<T>) -> StorageResult<()> {
        self.w().append_entries(e)
    }
    fn append_on_prefix(&mut self, i: usize, e: Vec<T>) -> StorageResult<()> {
        self.w().append_on_prefix(i, e)
    }
    fn set_promise(&mut self, n: Ballot) -> StorageResult<()> {
        self.w().set_promise(n)
    }
    fn set_decided_idx(&mut self, i: usize) -> StorageResult<()> {
        self.w().set_decided_idx(i)
    }
    fn get_decided_idx(&self) -> StorageResult<usize> {
        self.m.borrow().get_decided_idx()
    }
    fn set_accepted_round(&mut self, n: Ballot) -> StorageResult<()> {
        self.w().set_accepted_round(n)
    }
    fn get_accepted_round(&self) -> StorageResult<Option<Ballot>> {
        self.m.borrow().get_accepted_round()
    }
    fn get_entries(&self, a: usize, b: usize) -> StorageResult<Vec<T>> {
        self.m.borrow().get_entries(a, b)
    }
    fn get_log_len(&self) -> StorageResult<usize> {
        self.m.borrow().get_log_len()
    }
    fn get_suffix(&self, a: usize) -> StorageResult<Vec<T>> {
        self.m.borrow().get_suffix(a)
    }
    fn get_promise(&self) -> StorageResult<Option<Ballot>> {
        self.m.borrow().get_promise()
    }
    fn set_stopsign(&mut self, s: Option<StopSign>) -> StorageResult<()> {
        self.w().set_stopsign(s)
    }
    fn get_stopsign(&self) -> StorageResult<Option<StopSign>> {
        self.m.borrow().get_stopsign()
    }
    fn trim(&mut self, i: usize) -> StorageResult<()> {
        self.w().trim(i)
    }
    fn set_compacted_idx(&mut self, i: usize) -> StorageResult<()> {
        self.w().set_compacted_idx(i)
    }
    fn get_compacted_idx(&self) -> StorageResult<usize> {
        self.m.borrow().get_compacted_idx()
    }
    fn set_snapshot(&mut self, s: Option<T::Snapshot>) -> StorageResult<()> {
        self.w().set_snapshot(s)
    }
    fn get_snapshot(&self) -> StorageResult<Option<T::Snapshot>> {
        self.m.borrow().get_snapshot()
    }
}

pub type Node<T> = OmniPaxos<T, Disk<T>>;

pub struct Cluster<T: Val> {
    pub pids: Vec<NodeId>,
    pub nodes: BTreeMap<NodeId, Node<T>>,
    pub disks: BTreeMap<NodeId, Disk<T>>,
    pub conf: BTreeMap<NodeId, ServerConfig>,
    pub cluster: ClusterConfig,
    pub links: BTreeMap<(NodeId, NodeId), VecDeque<Message<T>>>,
    pub cut: BTreeSet<(NodeId, NodeId)>,
    /// whether heartbeats are exchanged
    pub ble: bool,
}

pub fn kind<T: Entry>(m: &Message<T>) -> &'static str {
    match m {
        Message::BLE(_) => "hb",
        Message::SequencePaxos(p) => match p.msg {
            PaxosMsg::PrepareReq(_) => "preparereq",
            PaxosMsg::Prepare(_) => "prepare",
            PaxosMsg::Promise(_) => "promise",
            PaxosMsg::AcceptSync(_) => "acceptsync",
            PaxosMsg::AcceptDecide(_) => "acceptdecide",
            PaxosMsg::Accepted(_) => "accepted",
            PaxosMsg::NotAccepted(_) => "notaccepted",
            PaxosMsg::Decide(_) => "decide",
            PaxosMsg::ProposalForward(_) => "forward",
            PaxosMsg::Compaction(_) => "compaction",
            PaxosMsg::AcceptStopSign(_) => "acceptstopsign",
            PaxosMsg::ForwardStopSign(_) => "forwardstopsign",
        },
    }
}

impl<T: Val> Cluster<T> {
    pub fn new(n: u64) -> Self {
        Self::with((1..=n).collect(), None, |_| ())
    }
    pub fn with(pids: Vec<NodeId>, fq: Option<(usize, usize)>, f: impl Fn(&mut ServerConfig)) -> Self {
        let cluster = ClusterConfig {
            configuration_id: 1,
            nodes: pids.clone(),
            flexible_quorum: fq.map(|(r, w)| FlexibleQuorum { read_quorum_size: r, write_quorum_size: w }),
        };
        let mut c = Cluster {
            pids: pids.clone(),
            nodes: BTreeMap::new(),
            disks: BTreeMap::new(),
            conf: BTreeMap::new(),
            cluster,
            links: BTreeMap::new(),
            cut: BTreeSet::new(),
            ble: false,
        };
        for p in pids {
            let mut s = ServerConfig { pid: p, election_tick_timeout: 1, resend_message_tick_timeout: 5, flush_batch_tick_timeout: 3, ..Default::default() };
            f(&mut s);
            c.conf.insert(p, s);
            c.disks.insert(p, Disk::new());
            c.start(p);
        }
        c
    }
    pub fn start(&mut self, p: NodeId) {
        let conf = OmniPaxosConfig { cluster_config: self.cluster.clone(), server_config: self.conf[&p].clone() };
        self.disks[&p].fuse.set(None);
        let node = conf.build(self.disks[&p].clone()).expect("config");
        self.nodes.insert(p, node);
    }
    /// drops the server and all messages from and to it
    pub fn crash(&mut self, p: NodeId) {
        self.nodes.remove(&p);
        for ((a, b), q) in self.links.iter_mut() {
            if *a == p || *b == p {
                q.clear();
            }
        }
    }
    pub fn restart(&mut self, p: NodeId) {
        self.crash(p);
        self.start(p);
    }
    pub fn n(&mut self, p: NodeId) -> &mut Node<T> {
        self.nodes.get_mut(&p).expect("server is down")
    }
    /// moves the outgoing messages of p to its links
    pub fn take(&mut self, p: NodeId) {
        let mut buf = vec![];
        match self.nodes.get_mut(&p) {
            Some(n) => n.take_outgoing_messages(&mut buf),
            None => return,
        }
        for m in buf {
            let (a, b) = (p, m.get_receiver());
            if (kind(&m) != "hb" || self.ble) && !self.cut.contains(&(a, b)) {
                self.links.entry((a, b)).or_default().push_back(m);
            }
        }
    }
    /// delivers the oldest message of a link
    pub fn deliver(&mut self, a: NodeId, b: NodeId) -> Option<&'static str> {
        self.take(a);
        let m = self.links.get_mut(&(a, b)).and_then(|q| q.pop_front())?;
        let k = kind(&m);
        if let Some(n) = self.nodes.get_mut(&b) {
            n.handle_incoming(m);
        }
        Some(k)
    }
    /// delivers everything on a link
    pub fn drain(&mut self, a: NodeId, b: NodeId) {
        while self.deliver(a, b).is_some() {}
    }
    /// loses what is under way on a link
    pub fn lose(&mut self, a: NodeId, b: NodeId) {
        self.take(a);
        if let Some(q) = self.links.get_mut(&(a, b)) {
            q.clear()
        }
    }
    pub fn pump(&mut self) {
        for _ in 0..10_000 {
            let mut quiet = true;
            for a in self.pids.clone() {
                for b in self.pids.clone() {
                    if a != b && self.deliver(a, b).is_some() {
                        quiet = false;
                    }
                }
            }
            if quiet {
                return;
            }
        }
    }
    pub fn tick(&mut self, p: NodeId) {
        if let Some(n) = self.nodes.get_mut(&p) {
            n.tick()
        }
    }
    /// k rounds in which everybody ticks once and everything is delivered
    pub fn run(&mut self, k: usize) {
        for _ in 0..k {
            for p in self.pids.clone() {
                self.tick(p);
            }
            self.pump();
        }
    }
    /// cuts a link in both directions and loses what is under way
    pub fn cut(&mut self, a: NodeId, b: NodeId) {
        self.cut.insert((a, b));
        self.cut.insert((b, a));
        self.lose(a, b);
        self.lose(b, a);
    }
    pub fn isolate(&mut self, p: NodeId) {
        for q in self.pids.clone() {
            if q != p {
                self.cut(p, q);
            }
        }
    }
    pub fn heal(&mut self) {
        for p in self.pids.clone() {
            self.take(p);
        }
        self.cut.clear();
    }
    pub fn lead(&mut self, p: NodeId) {
        self.n(p).try_become_leader();
    }
    pub fn append(&mut self, p: NodeId, v: u64) -> bool {
        self.n(p).append(T::mk(v)).is_ok()
    }
    pub fn reconfigure(&mut self, p: NodeId, id: u32) -> bool {
        let mut c = self.cluster.clone();
        c.configuration_id = id;
        self.n(p).reconfigure(c, None).is_ok()
    }
    pub fn decided(&mut self, p: NodeId) -> usize {
        self.n(p).get_decided_idx()
    }
    /// the decided values; a stop sign shows as 1000000 + its configuration id
    pub fn log(&mut self, p: NodeId) -> Vec<u64> {
        let mut r = vec![];
        for e in self.n(p).read_decided_suffix(0).unwrap_or_default() {
            match e {
                LogEntry::Decided(x) => r.push(x.val()),
                LogEntry::Undecided(x) => panic!("undecided {:?} in the decided suffix", x.val()),
                LogEntry::Snapshotted(s) => r.extend(T::snap(&s.snapshot)),
                LogEntry::Trimmed(k) => r.extend(std::iter::repeat(0).take(k)),
                LogEntry::StopSign(s, _) => r.push(1_000_000 + s.next_config.configuration_id as u64),
            }
        }
        r
    }
    /// what the storage of p holds: (decided index, stored entries after the compacted prefix)
    pub fn disk(&self, p: NodeId) -> (usize, usize, Vec<u64>) {
        let m = self.disks[&p].m.borrow();
        let c = m.get_compacted_idx().unwrap();
        let e: Vec<u64> = m.get_suffix(c).unwrap().iter().map(|x| x.val()).collect();
        (m.get_decided_idx().unwrap(), c, e)
    }
    /// lets p die at the k-th write (counted from 0) that `f` performs, then restarts it;
    /// false if `f` does not write that often
    pub fn die_at(&mut self, p: NodeId, k: u32, f: impl FnOnce(&mut Node<T>)) -> bool {
        self.disks[&p].fuse.set(Some(k));
        std::panic::set_hook(Box::new(|_| ()));
        let mut n = self.nodes.remove(&p).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut n)));
        let _ = std::panic::take_hook();
        self.disks[&p].fuse.set(None);
        match r {
            Ok(()) => {
                self.nodes.insert(p, n);
                false
            }
            Err(_) => {
                std::mem::forget(n);
                self.crash(p);
                true
            }
        }
    }
    /// all pairs of decided logs are one a prefix of the other
    pub fn agree(&mut self) -> bool {
        let logs: Vec<Vec<u64>> = self.nodes.keys().copied().collect::<Vec<_>>().into_iter().map(|p| self.log(p)).collect();
        for a in &logs {
            for b in &logs {
                let k = a.len().min(b.len());
                if a[..k] != b[..k] {
                    eprintln!("decided logs differ: {:?} {:?}", a, b);
                    return false;
                }
            }
        }
        true
    }
}

pub fn check(what: &str, ok: bool) {
    if ok {
        println!("ok: {}", what);
    } else {
        println!("BROKEN: {}", what);
        std::process::exit(1);
    }
}
