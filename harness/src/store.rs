//! Storage wrapper around a real storage back-end of the repository: survives "process crashes"
//! (it is shared with the harness), injects write failures, and records every durable state.
use crate::types::*;
use omnipaxos::{
    ballot_leader_election::Ballot,
    storage::{StopSign, Storage, StorageOp, StorageResult},
};
use std::{cell::RefCell, rc::Rc};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord, Default)]
pub struct Bal {
    pub n: u32,
    pub prio: u32,
    pub pid: u64,
    pub cfg: u32,
}
pub fn bal(b: Ballot) -> Bal {
    Bal { n: b.n, prio: b.priority, pid: b.pid, cfg: b.config_id }
}

/// Durable state as read back from the storage.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Disk {
    pub has_prom: bool,
    pub prom: Bal,
    pub acc: Bal,
    pub dec: usize,
    pub cmp: usize,
    pub snap: Option<Vec<V>>,
    pub log: Vec<V>,
    pub ss: Option<V>,
    /// A read of the storage failed, panicked or disagreed with the reported length.
    pub bad: bool,
}
impl Disk {
    pub fn acc_len(&self) -> usize {
        self.cmp + self.log.len() + self.ss.is_some() as usize
    }
}

#[derive(Debug)]
pub struct Injected;
impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected storage failure")
    }
}
impl std::error::Error for Injected {}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FailMode {
    /// The process dies at this write: this and all later writes of the call fail.
    Crash,
    /// One write reports an error and has no effect.
    Once,
    /// The process dies right after that many writes that changed the durable state.
    After,
}

pub struct Inner<T: HEntry> {
    pub dev: Option<Box<dyn Storage<T>>>,
    pub reopen: Box<dyn Fn() -> Box<dyn Storage<T>>>,
    pub persistent: bool,
    pub fail: Option<(u32, FailMode)>,
    pub dead: bool,
    pub failed_writes: u32,
    pub mid: Vec<Disk>,
    pub last: Disk,
    pub nodes: Vec<u64>,
    pub writes: u64,
}

pub struct Store<T: HEntry>(pub Rc<RefCell<Inner<T>>>);
impl<T: HEntry> Clone for Store<T> {
    fn clone(&self) -> Self {
        Store(self.0.clone())
    }
}

pub fn read_disk<T: HEntry>(d: &dyn Storage<T>, nodes: &[u64]) -> Disk {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> StorageResult<Disk> {
        let p = d.get_promise()?;
        let cmp = d.get_compacted_idx()?;
        let len = d.get_log_len()?;
        let log: Vec<V> = d.get_suffix(cmp)?.iter().map(|e| e.val()).collect();
        let bad = log.len() != len;
        Ok(Disk {
            has_prom: p.is_some(),
            prom: bal(p.unwrap_or_default()),
            acc: bal(d.get_accepted_round()?.unwrap_or_default()),
            dec: d.get_decided_idx()?,
            cmp,
            snap: d.get_snapshot()?.map(|s| T::snap_vals(&s)),
            log,
            ss: d.get_stopsign()?.map(|s| ss_val(&s, nodes)),
            bad,
        })
    }));
    match r {
        Ok(Ok(d)) => d,
        _ => Disk { bad: true, ..Default::default() },
    }
}

impl<T: HEntry> Store<T> {
    pub fn new(nodes: &[u64], persistent: bool, reopen: Box<dyn Fn() -> Box<dyn Storage<T>>>) -> Self {
        let dev = reopen();
        let last = read_disk(dev.as_ref(), nodes);
        Store(Rc::new(RefCell::new(Inner {
            dev: Some(dev),
            reopen,
            persistent,
            fail: None,
            dead: false,
            failed_writes: 0,
            mid: vec![],
            last,
            nodes: nodes.to_vec(),
            writes: 0,
        })))
    }
    /// What a process restart does to the device: a persistent one is closed and opened again.
    pub fn restart(&self) {
        let mut i = self.0.borrow_mut();
        i.fail = None;
        i.dead = false;
        i.failed_writes = 0;
        i.mid.clear();
        if i.persistent && i.writes > 0 {
            // what the dead process left in its files is opened again
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (i.reopen)())) {
                Ok(d) => {
                    i.dev = Some(d);
                    i.refresh();
                }
                Err(_) => i.last = Disk { bad: true, ..Default::default() },
            }
            return;
        }
        i.refresh();
    }
    fn w<R>(&self, f: impl FnOnce(&mut Box<dyn Storage<T>>) -> StorageResult<R>) -> StorageResult<R> {
        let mut i = self.0.borrow_mut();
        if i.dead {
            i.failed_writes += 1;
            return Err(Box::new(Injected));
        }
        let mut die_after = false;
        if let Some((k, FailMode::After)) = i.fail {
            if k > 0 {
                die_after = true;
            }
        }
        if let (Some((k, m)), false) = (i.fail, die_after) {
            if k == 0 {
                i.fail = None;
                i.failed_writes += 1;
                if m != FailMode::Once {
                    i.dead = true;
                }
                return Err(Box::new(Injected));
            }
            i.fail = Some((k - 1, m));
        }
        i.writes += 1;
        let before = if die_after { Some(i.last.clone()) } else { None };
        let r = f(i.dev.as_mut().unwrap());
        i.refresh();
        if let (Some(b), Some((k, m))) = (before, i.fail) {
            if b != i.last {
                i.fail = Some((k - 1, m));
                if k == 1 {
                    i.fail = None;
                    i.dead = true;
                }
            }
        }
        let d = i.last.clone();
        i.mid.push(d);
        r
    }
    fn r<R>(&self, f: impl FnOnce(&Box<dyn Storage<T>>) -> StorageResult<R>) -> StorageResult<R> {
        f(self.0.borrow().dev.as_ref().unwrap())
    }
}
impl<T: HEntry> Inner<T> {
    fn refresh(&mut self) {
        self.last = read_disk(self.dev.as_ref().unwrap().as_ref(), &self.nodes);
    }
}

impl<T: HEntry> Storage<T> for Store<T> {
    fn write_atomically(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
        self.w(|d| d.write_atomically(ops))
    }
    fn append_entry(&mut self, entry: T) -> StorageResult<()> {
        self.w(|d| d.append_entry(entry))
    }
    fn append_entries(&mut self, entries: Vec<T>) -> StorageResult<()> {
        self.w(|d| d.append_entries(entries))
    }
    fn append_on_prefix(&mut self, from_idx: usize, entries: Vec<T>) -> StorageResult<()> {
        self.w(|d| d.append_on_prefix(from_idx, entries))
    }
    fn set_promise(&mut self, n: Ballot) -> StorageResult<()> {
        self.w(|d| d.set_promise(n))
    }
    fn set_decided_idx(&mut self, ld: usize) -> StorageResult<()> {
        self.w(|d| d.set_decided_idx(ld))
    }
    fn get_decided_idx(&self) -> StorageResult<usize> {
        self.r(|d| d.get_decided_idx())
    }
    fn set_accepted_round(&mut self, na: Ballot) -> StorageResult<()> {
        self.w(|d| d.set_accepted_round(na))
    }
    fn get_accepted_round(&self) -> StorageResult<Option<Ballot>> {
        self.r(|d| d.get_accepted_round())
    }
    fn get_entries(&self, from: usize, to: usize) -> StorageResult<Vec<T>> {
        self.r(|d| d.get_entries(from, to))
    }
    fn get_log_len(&self) -> StorageResult<usize> {
        self.r(|d| d.get_log_len())
    }
    fn get_suffix(&self, from: usize) -> StorageResult<Vec<T>> {
        self.r(|d| d.get_suffix(from))
    }
    fn get_promise(&self) -> StorageResult<Option<Ballot>> {
        self.r(|d| d.get_promise())
    }
    fn set_stopsign(&mut self, s: Option<StopSign>) -> StorageResult<()> {
        self.w(|d| d.set_stopsign(s))
    }
    fn get_stopsign(&self) -> StorageResult<Option<StopSign>> {
        self.r(|d| d.get_stopsign())
    }
    fn trim(&mut self, idx: usize) -> StorageResult<()> {
        self.w(|d| d.trim(idx))
    }
    fn set_compacted_idx(&mut self, idx: usize) -> StorageResult<()> {
        self.w(|d| d.set_compacted_idx(idx))
    }
    fn get_compacted_idx(&self) -> StorageResult<usize> {
        self.r(|d| d.get_compacted_idx())
    }
    fn set_snapshot(&mut self, s: Option<T::Snapshot>) -> StorageResult<()> {
        self.w(|d| d.set_snapshot(s))
    }
    fn get_snapshot(&self) -> StorageResult<Option<T::Snapshot>> {
        self.r(|d| d.get_snapshot())
    }
}
