//! Deterministic cluster simulator around the real library.
use crate::mon::Mon;
use crate::store::*;
use crate::types::*;
use omnipaxos::{
    ballot_leader_election::Ballot,
    messages::{ballot_leader_election::{BLEMessage, HeartbeatMsg, HeartbeatReply, HeartbeatRequest}, sequence_paxos::*, Message},
    storage::SnapshotType,
    util::{FlexibleQuorum, LogEntry, LogSync},
    ClusterConfig, CompactionErr, OmniPaxos, ProposeErr, ServerConfig,
};
use std::collections::VecDeque;
use std::ops::Bound::{Excluded, Included};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub pids: Vec<u64>,
    pub fq: Option<(usize, usize)>,
    pub batch: Vec<usize>,
    pub prio: Vec<u32>,
    pub ett: u64,
    pub rtt: u64,
    pub ftt: u64,
    pub snap: bool,
    /// Take outgoing messages after every call (otherwise only on explicit Take steps).
    pub eager: bool,
    pub lru: bool,
    /// Without ballot leader election: heartbeats are not transported.
    pub ble: bool,
    /// How messages travel: 0 as they are, 1 serialized with bincode, 2 as JSON.
    pub ser: u8,
    /// The storage: 0 MemoryStorage, 1 PersistentStorage.
    pub st: u8,
    /// The id of the configuration.
    pub cid: u32,
    /// The size of the buffers for outgoing messages (a hint, not a bound).
    pub buf: usize,
}
impl Cfg {
    pub fn n(&self) -> usize {
        self.pids.len()
    }
    pub fn rq(&self) -> usize {
        self.fq.map(|q| q.0).unwrap_or(self.n() / 2 + 1)
    }
    pub fn wq(&self) -> usize {
        self.fq.map(|q| q.1).unwrap_or(self.n() / 2 + 1)
    }
    pub fn text(&self) -> String {
        let j = |v: &Vec<String>| v.join(",");
        format!(
            "CFG pids={} fq={} batch={} prio={} ett={} rtt={} ftt={} snap={} eager={} lru={} ble={} ser={} st={} cid={} buf={}",
            j(&self.pids.iter().map(|x| x.to_string()).collect()),
            self.fq.map(|(a, b)| format!("{}/{}", a, b)).unwrap_or("-".into()),
            j(&self.batch.iter().map(|x| x.to_string()).collect()),
            j(&self.prio.iter().map(|x| x.to_string()).collect()),
            self.ett, self.rtt, self.ftt, self.snap as u8, self.eager as u8, self.lru as u8, self.ble as u8, self.ser, self.st, self.cid, self.buf
        )
    }
    pub fn parse(s: &str) -> Cfg {
        let mut c = Cfg { pids: vec![1, 2, 3], fq: None, batch: vec![], prio: vec![], ett: 5, rtt: 10, ftt: 10, snap: false, eager: true, lru: false, ble: true, ser: 0, st: 0, cid: 1, buf: 100_000 };
        for kv in s.split_whitespace().skip(1) {
            let (k, v) = kv.split_once('=').unwrap();
            match k {
                "pids" => c.pids = v.split(',').map(|x| x.parse().unwrap()).collect(),
                "fq" => c.fq = v.split_once('/').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())),
                "batch" => c.batch = v.split(',').map(|x| x.parse().unwrap()).collect(),
                "prio" => c.prio = v.split(',').map(|x| x.parse().unwrap()).collect(),
                "ett" => c.ett = v.parse().unwrap(),
                "rtt" => c.rtt = v.parse().unwrap(),
                "ftt" => c.ftt = v.parse().unwrap(),
                "snap" => c.snap = v == "1",
                "eager" => c.eager = v == "1",
                "lru" => c.lru = v == "1",
                "ble" => c.ble = v == "1",
                "ser" => c.ser = v.parse().unwrap(),
                "st" => c.st = v.parse().unwrap(),
                "cid" => c.cid = v.parse().unwrap(),
                "buf" => c.buf = v.parse().unwrap(),
                _ => {}
            }
        }
        c
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Tick(usize),
    Take(usize),
    Del(usize, usize),
    Drop(usize, usize),
    /// Cut both directions of a link; in-flight messages are lost.
    Cut(usize, usize),
    /// One direction only.
    Cut1(usize, usize),
    Heal(usize, usize),
    Rec(usize, usize),
    App(usize),
    Rcf(usize),
    Trim(usize, Option<usize>),
    Snap(usize, Option<usize>, bool),
    /// Stop a node; the flag drops what was in flight on its links.
    Crash(usize, bool),
    Start(usize),
    Fail(usize, u32, FailMode),
    Prio(usize, u32),
    Lead(usize),
    Read(usize, usize, usize),
    ReadD(usize, usize),
    ReadAll(usize),
    // composite steps (recorded as the elementary steps they expand to)
    /// Heal every link, restart every node and signal the re-established sessions.
    HealAll,
    /// Same, but without calling reconnected(): losses must be found by the protocol itself.
    HealQ,
    Star(usize),
    /// Stable partial connectivity: bit k of the first mask is the k-th pair (a,b), a<b, of servers
    /// being connected; the second mask names the servers that stay down.
    Topo(u32, u32),
    Rounds(usize),
    /// everything under way among these servers arrives, and all answers to it; no timer runs
    Pump(u32),
    AppAll,
    Expect(u8),
    /// From here on heartbeats are transported (for schedules that started without them).
    BleOn,
    /// A heartbeat reply of another configuration (older or newer) arrives, as if from server j.
    Stray(usize, usize, bool),
    /// In a healthy cluster a server is told to take over; all messages arrive; then it leads.
    Over(usize),
}
impl Op {
    pub fn text(&self) -> String {
        let o = |x: &Option<usize>| x.map(|v| v.to_string()).unwrap_or("-".into());
        match self {
            Op::Tick(i) => format!("T {}", i),
            Op::Take(i) => format!("K {}", i),
            Op::Del(a, b) => format!("D {} {}", a, b),
            Op::Drop(a, b) => format!("X {} {}", a, b),
            Op::Cut(a, b) => format!("C {} {}", a, b),
            Op::Cut1(a, b) => format!("C1 {} {}", a, b),
            Op::Heal(a, b) => format!("H {} {}", a, b),
            Op::Rec(a, b) => format!("R {} {}", a, b),
            Op::App(i) => format!("A {}", i),
            Op::Rcf(i) => format!("G {}", i),
            Op::Trim(i, x) => format!("M {} {}", i, o(x)),
            Op::Snap(i, x, l) => format!("S {} {} {}", i, o(x), *l as u8),
            Op::Crash(i, l) => format!("B {} {}", i, *l as u8),
            Op::Start(i) => format!("U {}", i),
            Op::Fail(i, k, m) => format!("F {} {} {}", i, k, match m { FailMode::Crash => 0, FailMode::Once => 1, FailMode::After => 2 }),
            Op::Prio(i, p) => format!("P {} {}", i, p),
            Op::Lead(i) => format!("L {}", i),
            Op::Read(i, a, b) => format!("Q {} {} {}", i, a, b),
            Op::ReadD(i, a) => format!("QD {} {}", i, a),
            Op::ReadAll(i) => format!("QA {}", i),
            Op::HealAll => "HA".into(),
            Op::HealQ => "HQ".into(),
            Op::Star(i) => format!("ST {}", i),
            Op::Topo(l, d) => format!("TO {} {}", l, d),
            Op::Rounds(k) => format!("N {}", k),
            Op::Pump(m) => format!("PU {}", m),
            Op::AppAll => "AA".into(),
            Op::Expect(k) => format!("E {}", k),
            Op::BleOn => "Y".into(),
            Op::Stray(i, j, x) => format!("Z {} {} {}", i, j, *x as u8),
            Op::Over(i) => format!("LX {}", i),
        }
    }
    pub fn parse(s: &str) -> Option<Op> {
        let p: Vec<&str> = s.split_whitespace().collect();
        let u = |i: usize| p[i].parse::<usize>().unwrap();
        let o = |i: usize| p[i].parse::<usize>().ok();
        Some(match *p.first()? {
            "T" => Op::Tick(u(1)),
            "K" => Op::Take(u(1)),
            "D" => Op::Del(u(1), u(2)),
            "X" => Op::Drop(u(1), u(2)),
            "C" => Op::Cut(u(1), u(2)),
            "C1" => Op::Cut1(u(1), u(2)),
            "H" => Op::Heal(u(1), u(2)),
            "R" => Op::Rec(u(1), u(2)),
            "A" => Op::App(u(1)),
            "G" => Op::Rcf(u(1)),
            "M" => Op::Trim(u(1), o(2)),
            "S" => Op::Snap(u(1), o(2), p[3] == "1"),
            "B" => Op::Crash(u(1), p[2] == "1"),
            "U" => Op::Start(u(1)),
            "F" => Op::Fail(u(1), u(2) as u32, match p[3] { "0" => FailMode::Crash, "1" => FailMode::Once, _ => FailMode::After }),
            "P" => Op::Prio(u(1), u(2) as u32),
            "L" => Op::Lead(u(1)),
            "Q" => Op::Read(u(1), u(2), u(3)),
            "QD" => Op::ReadD(u(1), u(2)),
            "QA" => Op::ReadAll(u(1)),
            "HA" => Op::HealAll,
            "HQ" => Op::HealQ,
            "ST" => Op::Star(u(1)),
            "TO" => Op::Topo(u(1) as u32, u(2) as u32),
            "N" => Op::Rounds(u(1)),
            "PU" => Op::Pump(u(1) as u32),
            "AA" => Op::AppAll,
            "E" => Op::Expect(u(1) as u8),
            "Y" => Op::BleOn,
            "Z" => Op::Stray(u(1), u(2), p[3] == "1"),
            "LX" => Op::Over(u(1)),
            _ => return None,
        })
    }
}

/// What the public API of a running node reports.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Api {
    pub dec: usize,
    pub cmp: usize,
    pub prom: Bal,
    pub leader: Option<(u64, bool)>,
    pub reconf: Option<V>,
    pub ui: Ui,
}
/// The part of it that is meant for a user interface.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Ui {
    pub dec: usize,
    pub lead: u64,
    pub cb: Bal,
    pub hb: Vec<(Bal, Bal, bool)>,
    pub ai: Vec<usize>,
}

/// One element of a read result.
#[derive(Clone, PartialEq, Debug)]
pub enum RE {
    Dec(V),
    Und(V),
    Trimmed(usize),
    Snap(usize, Vec<V>),
    Ss(V, bool),
}

/// Outcome of an API call, as far as the specification talks about it.
#[derive(Clone, PartialEq, Debug)]
pub enum Ret {
    None,
    Ok,
    PendingEntry(V),
    PendingConfig(V),
    ConfigErr,
    Undecided(usize),
    TrimmedIdx(usize),
    NotAll(usize),
    NotLeader(u64),
    Read(Option<Vec<RE>>),
}

pub struct Node<T: HEntry> {
    pub omni: Option<OmniPaxos<T, Store<T>>>,
    pub store: Store<T>,
    pub inc: u32,
    pub api: Api,
}

#[derive(Clone)]
pub struct Msg<T: HEntry> {
    pub m: Message<T>,
}

pub struct Ev {
    pub line: String,
}

pub struct World<T: HEntry> {
    pub cfg: Cfg,
    pub nodes: Vec<Node<T>>,
    pub q: Vec<Vec<VecDeque<Message<T>>>>,
    pub up: Vec<Vec<bool>>,
    pub next_id: u32,
    pub next_ss: u32,
    pub mon: Mon,
    pub rec: Option<Vec<Ev>>,
    pub steps: u64,
    pub settle_from: u32,
    pub in_settle: bool,
    pub lost_any: bool,
    pub ops_done: usize,
    pub panicked: bool,
    pub ble_on: bool,
}

pub type Mk<T> = dyn Fn(usize) -> (bool, Box<dyn Fn() -> Box<dyn omnipaxos::storage::Storage<T>>>);

impl<T: HEntry> World<T> {
    pub fn new(cfg: Cfg, rec: bool, mk: &Mk<T>) -> Self {
        let n = cfg.n();
        let mut w = World {
            nodes: (0..n)
                .map(|i| {
                    let (p, f) = mk(i);
                    Node { omni: None, store: Store::new(&cfg.pids, p, f), inc: 0, api: Api::default() }
                })
                .collect(),
            q: (0..n).map(|_| (0..n).map(|_| VecDeque::new()).collect()).collect(),
            up: vec![vec![true; n]; n],
            next_id: 0,
            next_ss: 0,
            mon: Mon::new(&cfg),
            rec: if rec { Some(vec![]) } else { None },
            steps: 0,
            settle_from: u32::MAX,
            in_settle: false,
            lost_any: false,
            ops_done: 0,
            panicked: false,
            ble_on: cfg.ble,
            cfg,
        };
        for i in 0..n {
            w.start(i);
        }
        w
    }

    fn server_cfg(&self, i: usize) -> ServerConfig {
        ServerConfig {
            pid: self.cfg.pids[i],
            election_tick_timeout: self.cfg.ett,
            resend_message_tick_timeout: self.cfg.rtt,
            flush_batch_tick_timeout: self.cfg.ftt,
            batch_size: self.cfg.batch[i],
            leader_priority: self.cfg.prio[i],
            buffer_size: self.cfg.buf,
            ..Default::default()
        }
    }
    pub fn cluster_cfg(&self) -> ClusterConfig {
        ClusterConfig {
            configuration_id: self.cfg.cid,
            nodes: self.cfg.pids.clone(),
            flexible_quorum: self.cfg.fq.map(|(r, w)| FlexibleQuorum { read_quorum_size: r, write_quorum_size: w }),
        }
    }

    pub fn alive(&self, i: usize) -> bool {
        self.nodes[i].omni.is_some()
    }
    pub fn disk(&self, i: usize) -> Disk {
        self.nodes[i].store.0.borrow().last.clone()
    }

    /// Runs a call on node i; a panic of the library is data.  Returns None if it panicked.
    fn call<R>(&mut self, i: usize, what: &str, f: impl FnOnce(&mut OmniPaxos<T, Store<T>>) -> R) -> Option<R> {
        let node = &mut self.nodes[i];
        let o = match node.omni.as_mut() {
            Some(o) => o,
            None => return None,
        };
        let r = catch_unwind(AssertUnwindSafe(|| f(o)));
        let (dead, failed) = {
            let s = node.store.0.borrow();
            (s.dead, s.failed_writes)
        };
        match r {
            Ok(v) => {
                if dead {
                    // the process died at a storage write although the call came back
                    self.kill(i);
                    return None;
                }
                Some(v)
            }
            Err(_) => {
                if failed == 0 {
                    self.mon.panic(i, what);
                    self.panicked = true;
                }
                self.kill(i);
                None
            }
        }
    }
    fn kill(&mut self, i: usize) {
        let o = self.nodes[i].omni.take();
        let _ = catch_unwind(AssertUnwindSafe(move || drop(o)));
        self.mon.faulty = true;
    }

    fn api(&mut self, i: usize) -> Option<Api> {
        let pids = self.cfg.pids.clone();
        let o = self.nodes[i].omni.as_ref()?;
        let r = catch_unwind(AssertUnwindSafe(|| Api {
            dec: o.get_decided_idx(),
            cmp: o.get_compacted_idx(),
            prom: bal(o.get_promise()),
            leader: o.get_current_leader(),
            reconf: o.is_reconfigured().map(|s| ss_val(&s, &pids)),
            ui: {
                let u = o.get_ui_states();
                let hb = |v: &Vec<omnipaxos::messages::ballot_leader_election::HeartbeatReply>| v.iter().map(|r| (bal(r.ballot), bal(r.leader), r.happy)).collect::<Vec<_>>();
                // the replies are reported twice
                let (a, b) = (hb(&u.heartbeats), hb(&u.cluster_state.heartbeats));
                Ui {
                    dec: u.decided_idx,
                    lead: u.current_leader.unwrap_or(0),
                    cb: bal(u.current_ballot),
                    hb: if a == b { a } else { vec![(Bal::default(), Bal::default(), false); 99] },
                    ai: pids.iter().map(|p| u.cluster_state.accepted_indexes.get(*p as usize).copied().unwrap_or(CORRUPT as usize)).collect(),
                }
            },
        }));
        match r {
            Ok(a) => Some(a),
            Err(_) => {
                self.mon.panic(i, "observers");
                self.panicked = true;
                self.kill(i);
                None
            }
        }
    }

    /// Called after every call on node i: feeds durable states, API state and new messages to the
    /// monitors and records the event.
    fn after(&mut self, i: usize, kind: &str, args: &str, ret: Ret, msg_in: Option<&Message<T>>, before: &Disk) {
        self.steps += 1;
        // a failed write is consumed by the call it hit
        let mids: Vec<Disk> = {
            let mut s = self.nodes[i].store.0.borrow_mut();
            s.failed_writes = 0;
            std::mem::take(&mut s.mid)
        };
        for d in &mids {
            self.mon.on_disk(i, d);
        }
        let api = self.api(i);
        let disk = self.disk(i);
        if let Some(m) = msg_in {
            self.mon.on_deliver(i, stale_ballot(m), before, &disk);
        }
        self.mon.on_hb(i, kind, msg_in);
        self.mon.on_ret(i, kind, &ret, before, &disk, api.as_ref());
        let was = self.nodes[i].api.clone();
        self.mon.on_batch(i, kind, &ret, msg_in, api.as_ref(), &was, before, &disk);
        if let Some(a) = &api {
            let was = self.nodes[i].api.clone();
            self.mon.on_ui(i, a, &disk, msg_in, &was);
            self.mon.on_stand(i, kind, a, before, &was);
            self.mon.on_progress(i, a, &was, &disk);
        }
        if let Some(a) = &api {
            self.mon.on_api(i, a, &disk);
            self.nodes[i].api = a.clone();
        }
        let mut out: Vec<Message<T>> = vec![];
        let mut kept = true;
        if api.is_some() && (self.cfg.eager || kind == "K") {
            if let Some(o) = self.nodes[i].omni.as_mut() {
                // the caller's buffer need not be empty; what is in it stays there
                let mark = self.steps % 3 == 0;
                if mark {
                    out.push(Message::BLE(BLEMessage { from: 0, to: 0, msg: HeartbeatMsg::Request(HeartbeatRequest { round: 424_242 }) }));
                }
                let r = catch_unwind(AssertUnwindSafe(|| o.take_outgoing_messages(&mut out)));
                if mark {
                    kept = out.first().map(|m| m.get_sender() == 0).unwrap_or(false);
                    out.retain(|m| m.get_sender() != 0);
                }
                if r.is_err() {
                    self.mon.panic(i, "take_outgoing_messages");
                    self.panicked = true;
                    self.kill(i);
                }
                if !kept {
                    self.mon.flag("C14", "messages in the caller's buffer are not kept".into());
                }
                if !self.ble_on {
                    out.retain(|m| !is_ble(m));
                }
            }
        }
        if self.rec.is_some() {
            let pids = self.cfg.pids.clone();
            let msgs: Vec<String> = out.iter().map(|m| msg_json(m, &pids)).collect();
            let mut s = String::new();
            write!(
                s,
                "{{\"k\":\"{}\",\"i\":{},\"o\":{},{}\"ret\":{},\"up\":{},\"pan\":{},\"kb\":{},\"d\":{},\"a\":{},\"mid\":[{}],\"out\":[{}],\"in\":{}}}",
                kind,
                i + 1,
                self.ops_done,
                args,
                ret_json(&ret),
                self.alive(i),
                self.panicked,
                kept,
                disk_json(&disk),
                api.as_ref().map(api_json).unwrap_or("{}".into()),
                mids.iter().map(disk_json).collect::<Vec<_>>().join(","),
                msgs.join(","),
                msg_in.map(|m| msg_json(m, &pids)).unwrap_or("{}".into()),
            )
            .unwrap();
            self.rec.as_mut().unwrap().push(Ev { line: s });
        }
        self.panicked = false;
        self.mon.on_idle(i, kind, api.is_some(), before, &disk, &out);
        for m in out {
            let inc = self.nodes[i].inc;
            self.mon.on_msg(i, &m, inc);
            let to = m.get_receiver();
            if m.get_sender() != self.cfg.pids[i] {
                self.mon.flag("C09", format!("node {} emitted a message with sender {}", self.cfg.pids[i], m.get_sender()));
            }
            match self.cfg.pids.iter().position(|p| *p == to) {
                Some(j) if self.up[i][j] && j != i => self.q[i][j].push_back(m),
                // a demoted leader may address the round it just left; nobody delivers that
                Some(j) if j == i => {}
                Some(_) => {
                    self.mon.faulty = true;
                    if !is_ble(&m) { self.lost_any = true; }
                }
                None => self.mon.flag("C09", format!("message to unknown node {}", to)),
            }
        }
    }
    fn note(&mut self, kind: &str, i: usize, j: usize) {
        if self.rec.is_some() {
            let s = format!("{{\"k\":\"{}\",\"i\":{},\"o\":{},\"j\":{}}}", kind, i + 1, self.ops_done, j + 1);
            self.rec.as_mut().unwrap().push(Ev { line: s });
        }
    }

    pub fn start(&mut self, i: usize) {
        if self.alive(i) {
            return;
        }
        self.nodes[i].store.restart();
        let before = self.disk(i);
        self.mon.on_disk(i, &before);
        let sc = self.server_cfg(i);
        let cc = self.cluster_cfg();
        let st = self.nodes[i].store.clone();
        let r = catch_unwind(AssertUnwindSafe(|| cc.build_for_server::<T, Store<T>>(sc, st)));
        match r {
            Ok(Ok(o)) => {
                self.nodes[i].omni = Some(o);
                self.nodes[i].inc += 1;
            }
            Ok(Err(_)) => self.mon.flag("C17", format!("valid configuration rejected for node {}", self.cfg.pids[i])),
            Err(_) => {
                self.mon.panic(i, "build/restart");
                self.panicked = true;
                self.mon.flag("C07", format!("node {} cannot restart from its storage", self.cfg.pids[i]));
            }
        }
        // what the application reads first
        let mut args = String::new();
        let len = before.acc_len();
        if len > 0 && self.alive(i) {
            let pids = self.cfg.pids.clone();
            let o = self.nodes[i].omni.as_ref().unwrap();
            if let Ok(rd) = catch_unwind(AssertUnwindSafe(|| Self::conv_read(o.read_entries(..), &pids))) {
                if !before.bad && self.mon.expected_read(&before, 0, len) != Some(rd.clone()) {
                    self.mon.flag("C07", format!("node {} reads {:?} after a restart from {:?}", self.cfg.pids[i], rd, before));
                }
                args = format!("\"rd\":{},", ret_json(&Ret::Read(rd)));
            }
        }
        self.after(i, "U", &args, Ret::None, None, &before);
        let after = self.disk(i);
        let api = if self.alive(i) { Some(self.nodes[i].api.clone()) } else { None };
        self.mon.on_restart(i, &before, &after, api.as_ref());
    }

    fn call_simple(&mut self, i: usize, kind: &str, args: &str, f: impl FnOnce(&mut OmniPaxos<T, Store<T>>)) {
        if !self.alive(i) {
            return;
        }
        let before = self.disk(i);
        self.call(i, kind, |o| f(o));
        self.after(i, kind, args, Ret::None, None, &before);
    }

    fn deliver(&mut self, a: usize, b: usize) -> bool {
        if !self.up[a][b] {
            return false;
        }
        let m = match self.q[a][b].pop_front() {
            Some(m) => m,
            None => return false,
        };
        if !self.alive(b) {
            self.mon.faulty = true;
            self.note("X", a, b);
            return true;
        }
        let before = self.disk(b);
        let (m, same) = wire(m, self.cfg.ser, &self.cfg.pids);
        if !same {
            self.mon.flag("C20", format!("a message from {} to {} arrives altered", self.cfg.pids[a], self.cfg.pids[b]));
        }
        let m2 = m.clone();
        self.mon.delivering = Some(a);
        self.call(b, "handle_incoming", move |o| o.handle_incoming(m2));
        let args = format!("\"j\":{},\"w\":{},", a + 1, same);
        self.after(b, "D", &args, Ret::None, Some(&m), &before);
        self.mon.delivering = None;
        true
    }

    fn stray(&mut self, i: usize, j: usize, newer: bool) {
        if !self.alive(i) {
            return;
        }
        let b = Ballot {
            config_id: if newer { self.cfg.cid + 1 } else { self.cfg.cid - 1 },
            n: self.nodes[i].api.prom.n + 5,
            priority: 9,
            pid: self.cfg.pids[j],
        };
        let m: Message<T> = Message::BLE(BLEMessage {
            from: self.cfg.pids[j],
            to: self.cfg.pids[i],
            msg: HeartbeatMsg::Reply(HeartbeatReply { round: self.mon.hbn[i].r, ballot: b, leader: b, happy: true }),
        });
        let before = self.disk(i);
        let m2 = m.clone();
        self.call(i, "handle_incoming", move |o| o.handle_incoming(m2));
        self.after(i, "Z", &format!("\"j\":{},", j + 1), Ret::None, Some(&m), &before);
    }

    fn append(&mut self, i: usize) {
        if !self.alive(i) {
            return;
        }
        self.next_id += 1;
        let id = self.next_id;
        let before = self.disk(i);
        let api = self.nodes[i].api.clone();
        self.mon.proposing(id, i, &api, self.in_settle);
        let r = self.call(i, "append", |o| match o.append(T::mk(id)) {
            Ok(()) => Ret::Ok,
            Err(ProposeErr::PendingReconfigEntry(e)) => Ret::PendingEntry(e.val()),
            Err(ProposeErr::PendingReconfigConfig(..)) => Ret::PendingConfig(0),
            Err(ProposeErr::ConfigError(..)) => Ret::ConfigErr,
        });
        let crashed = r.is_none();
        let ret = r.unwrap_or(Ret::None);
        self.mon.proposed(id, &ret, crashed);
        self.after(i, "A", &format!("\"v\":{},", id), ret, None, &before);
    }

    fn reconfigure(&mut self, i: usize) {
        if !self.alive(i) {
            return;
        }
        let k = self.next_ss;
        self.next_ss += 1;
        let (c, m) = mk_ss(k, &self.cfg.pids);
        let before = self.disk(i);
        let pids = self.cfg.pids.clone();
        let v = SS_BASE + k;
        let api = self.nodes[i].api.clone();
        self.mon.proposing(v, i, &api, self.in_settle);
        let r = self.call(i, "reconfigure", |o| match o.reconfigure(c, m) {
            Ok(()) => Ret::Ok,
            Err(ProposeErr::PendingReconfigConfig(c, m)) => {
                Ret::PendingConfig(ss_val(&omnipaxos::storage::StopSign::with(c, m), &pids))
            }
            Err(ProposeErr::PendingReconfigEntry(_)) => Ret::PendingEntry(0),
            Err(ProposeErr::ConfigError(..)) => Ret::ConfigErr,
        });
        let crashed = r.is_none();
        let ret = r.unwrap_or(Ret::None);
        self.mon.proposed(v, &ret, crashed);
        self.after(i, "G", &format!("\"v\":{},", v), ret, None, &before);
    }

    fn conv_err(r: Result<(), CompactionErr>) -> Ret {
        match r {
            Ok(()) => Ret::Ok,
            Err(CompactionErr::UndecidedIndex(i)) => Ret::Undecided(i),
            Err(CompactionErr::TrimmedIndex(i)) => Ret::TrimmedIdx(i),
            Err(CompactionErr::NotAllDecided(i)) => Ret::NotAll(i),
            Err(CompactionErr::NotCurrentLeader(i)) => Ret::NotLeader(i),
        }
    }

    fn conv_read(v: Option<Vec<LogEntry<T>>>, pids: &[u64]) -> Option<Vec<RE>> {
        v.map(|v| {
            v.into_iter()
                .map(|e| match e {
                    LogEntry::Decided(e) => RE::Dec(e.val()),
                    LogEntry::Undecided(e) => RE::Und(e.val()),
                    LogEntry::Trimmed(i) => RE::Trimmed(i),
                    LogEntry::Snapshotted(s) => RE::Snap(s.trimmed_idx, T::snap_vals(&s.snapshot)),
                    LogEntry::StopSign(s, d) => RE::Ss(ss_val(&s, pids), d),
                })
                .collect()
        })
    }

    pub fn read(&mut self, i: usize, a: usize, b: usize) {
        if !self.alive(i) {
            return;
        }
        let before = self.disk(i);
        let pids = self.cfg.pids.clone();
        let len = before.acc_len();
        let exp = self.mon.expected_read(&before, a, b);
        let r = self.call(i, "read_entries", |o| {
            let mut rs = vec![o.read_entries(a..b)];
            // the other ways to write the same range
            if a < b {
                rs.push(o.read_entries(a..=b - 1));
                if a == 0 {
                    rs.push(o.read_entries(..b));
                    rs.push(o.read_entries(..=b - 1));
                } else {
                    rs.push(o.read_entries((Excluded(a - 1), Excluded(b))));
                    rs.push(o.read_entries((Excluded(a - 1), Included(b - 1))));
                }
                if b == len {
                    rs.push(o.read_entries(a..));
                    if a == 0 {
                        rs.push(o.read_entries(..));
                    }
                }
                if b == usize::MAX {
                    rs.push(o.read_entries(a..=b));
                }
            }
            let rs: Vec<Option<Vec<RE>>> = rs.into_iter().map(|x| Self::conv_read(x, &pids)).collect();
            let k = rs.iter().position(|x| exp.as_ref().map(|e| e != x).unwrap_or(false)).unwrap_or(0);
            rs[k].clone()
        });
        let cap = |x: usize| x.min(1_000_000_000);
        let args = format!("\"f\":{},\"t\":{},", cap(a), cap(b));
        if let Some(r) = &r {
            self.mon.on_read(i, a, b, r, &before);
        }
        self.after(i, "Q", &args, r.map(Ret::Read).unwrap_or(Ret::None), None, &before);
        if a.checked_add(1) == Some(b) && self.alive(i) {
            let r = self.call(i, "read", |o| Self::conv_read(o.read(a).map(|e| vec![e]), &pids));
            if let Some(r) = &r {
                self.mon.on_read(i, a, b, r, &before);
            }
            self.after(i, "Q1", &args, r.map(Ret::Read).unwrap_or(Ret::None), None, &before);
        }
    }
    pub fn read_decided(&mut self, i: usize, a: usize) {
        if !self.alive(i) {
            return;
        }
        let before = self.disk(i);
        let pids = self.cfg.pids.clone();
        let r = self.call(i, "read_decided_suffix", |o| Self::conv_read(o.read_decided_suffix(a), &pids));
        if let Some(r) = r {
            self.mon.on_read_decided(i, a, &r, &before);
            self.after(i, "QD", &format!("\"f\":{},", a.min(1_000_000_000)), Ret::Read(r), None, &before);
        } else {
            self.after(i, "QD", &format!("\"f\":{},", a.min(1_000_000_000)), Ret::None, None, &before);
        }
    }

    pub fn deliver_all(&mut self) {
        self.deliver_among(u32::MAX)
    }
    pub fn deliver_among(&mut self, m: u32) {
        let n = self.cfg.n();
        let is_in = |i: usize| m >> i & 1 == 1;
        for _ in 0..2_000 {
            let mut any = false;
            for i in 0..n {
                if !self.cfg.eager && self.alive(i) && is_in(i) {
                    self.call_simple(i, "K", "", |_| ());
                }
            }
            for a in 0..n {
                for b in 0..n {
                    if a != b && is_in(a) && is_in(b) && self.deliver(a, b) {
                        any = true;
                    }
                }
            }
            if !any {
                break;
            }
        }
    }
    pub fn round(&mut self) {
        for i in 0..self.cfg.n() {
            self.call_simple(i, "T", "", |o| o.tick());
        }
        self.deliver_all();
    }
    fn set_link(&mut self, a: usize, b: usize, v: bool) {
        if self.up[a][b] != v {
            self.up[a][b] = v;
            if !v {
                if !self.q[a][b].is_empty() {
                    self.lost_any = true;
                }
                self.q[a][b].clear();
                self.mon.faulty = true;
            }
            self.note(if v { "H1" } else { "C1" }, a, b);
        }
    }

    pub fn exec(&mut self, op: &Op) {
        let n = self.cfg.n();
        self.ops_done += 1;
        match *op {
            Op::Tick(i) => self.call_simple(i, "T", "", |o| o.tick()),
            Op::Take(i) => {
                if !self.cfg.eager {
                    self.call_simple(i, "K", "", |_| ())
                }
            }
            Op::Del(a, b) => {
                self.deliver(a, b);
            }
            Op::Drop(a, b) => {
                if self.q[a][b].pop_front().is_some() {
                    self.mon.faulty = true;
                    self.lost_any = true;
                    self.note("X", a, b);
                }
            }
            Op::Cut(a, b) => {
                self.set_link(a, b, false);
                self.set_link(b, a, false);
            }
            Op::Cut1(a, b) => self.set_link(a, b, false),
            Op::Heal(a, b) => {
                self.set_link(a, b, true);
                self.set_link(b, a, true);
            }
            Op::Rec(a, b) => {
                let p = self.cfg.pids[b];
                self.call_simple(a, "R", &format!("\"j\":{},", b + 1), |o| o.reconnected(p));
            }
            Op::App(i) => self.append(i),
            Op::Rcf(i) => self.reconfigure(i),
            Op::Trim(i, x) => {
                if !self.alive(i) || self.cfg.snap {
                    return;
                }
                let before = self.disk(i);
                let r = self.call(i, "trim", |o| Self::conv_err(o.trim(x)));
                let ret = r.unwrap_or(Ret::None);
                let xs = x.map(|v| v.min(1_000_000_000) as i64).unwrap_or(-1);
                self.mon.on_trim(i, x, &ret, &before, &self.nodes[i].store.0.borrow().last.clone());
                self.after(i, "M", &format!("\"x\":{},", xs), ret, None, &before);
            }
            Op::Snap(i, x, l) => {
                if !self.alive(i) || !self.cfg.snap {
                    return;
                }
                let before = self.disk(i);
                let r = self.call(i, "snapshot", |o| Self::conv_err(o.snapshot(x, l)));
                let ret = r.unwrap_or(Ret::None);
                let xs = x.map(|v| v.min(1_000_000_000) as i64).unwrap_or(-1);
                self.mon.on_snap(i, x, &ret, &before, &self.nodes[i].store.0.borrow().last.clone());
                self.after(i, "S", &format!("\"x\":{},\"l\":{},", xs, l), ret, None, &before);
            }
            Op::Crash(i, lose) => {
                if !self.alive(i) {
                    return;
                }
                self.kill(i);
                self.note("B", i, i);
                if lose {
                    for j in 0..n {
                        for (a, b) in [(i, j), (j, i)] {
                            if !self.q[a][b].is_empty() {
                                self.q[a][b].clear();
                                self.note("XA", a, b);
                            }
                        }
                    }
                }
            }
            Op::Start(i) => self.start(i),
            Op::Fail(i, k, m) => {
                if self.alive(i) {
                    self.nodes[i].store.0.borrow_mut().fail = Some((k, m));
                    self.mon.faulty = true;
                    self.note("F", i, i);
                }
            }
            Op::Prio(i, p) => self.call_simple(i, "P", &format!("\"p\":{},", p), |o| o.set_priority(p)),
            Op::Lead(i) => self.call_simple(i, "L", "", |o| o.try_become_leader()),
            Op::Read(i, a, b) => self.read(i, a, b),
            Op::ReadD(i, a) => self.read_decided(i, a),
            Op::ReadAll(i) => {
                if !self.alive(i) {
                    return;
                }
                let l = self.disk(i).acc_len();
                for a in 0..=l {
                    self.read(i, a, a + 1);
                }
                for a in 0..l.min(12) {
                    self.read(i, a, l);
                    self.read_decided(i, a);
                }
            }
            Op::HealAll | Op::HealQ => {
                self.in_settle = true;
                let quiet = *op == Op::HealQ;
                for i in 0..n {
                    self.nodes[i].store.0.borrow_mut().fail = None;
                    if !self.alive(i) {
                        self.start(i);
                    }
                }
                let mut healed = vec![];
                for a in 0..n {
                    for b in (a + 1)..n {
                        if !quiet && (!self.up[a][b] || !self.up[b][a] || self.lost_any) {
                            healed.push((a, b));
                        }
                        self.set_link(a, b, true);
                        self.set_link(b, a, true);
                    }
                }
                for (a, b) in healed {
                    self.exec(&Op::Rec(a, b));
                    self.exec(&Op::Rec(b, a));
                    self.ops_done -= 2;
                }
            }
            Op::Star(h) => {
                // only the hub stays connected (to everybody), as in a chained/quorum-loss partition
                self.in_settle = true;
                for i in 0..n {
                    self.nodes[i].store.0.borrow_mut().fail = None;
                    if !self.alive(i) {
                        self.start(i);
                    }
                }
                for a in 0..n {
                    for b in (a + 1)..n {
                        let v = a == h || b == h;
                        let was = self.up[a][b] && self.up[b][a];
                        self.set_link(a, b, v);
                        self.set_link(b, a, v);
                        if v && (!was || self.lost_any) {
                            self.exec(&Op::Rec(a, b));
                            self.exec(&Op::Rec(b, a));
                            self.ops_done -= 2;
                        }
                    }
                }
            }
            Op::Topo(links, down) => {
                self.in_settle = true;
                for i in 0..n {
                    self.nodes[i].store.0.borrow_mut().fail = None;
                    if down >> i & 1 == 1 {
                        self.exec(&Op::Crash(i, true));
                        self.ops_done -= 1;
                    } else if !self.alive(i) {
                        self.start(i);
                    }
                }
                let mut k = 0;
                for a in 0..n {
                    for b in (a + 1)..n {
                        let v = links >> k & 1 == 1;
                        k += 1;
                        let was = self.up[a][b] && self.up[b][a];
                        self.set_link(a, b, v);
                        self.set_link(b, a, v);
                        if v && (!was || self.lost_any) {
                            self.exec(&Op::Rec(a, b));
                            self.exec(&Op::Rec(b, a));
                            self.ops_done -= 2;
                        }
                    }
                }
            }
            Op::Pump(m) => self.deliver_among(m),
            Op::Rounds(k) => {
                for _ in 0..k {
                    self.round();
                }
            }
            Op::AppAll => {
                if self.in_settle && self.settle_from == u32::MAX {
                    self.settle_from = self.next_id + 1;
                }
                for i in 0..n {
                    self.append(i);
                }
            }
            Op::BleOn => self.ble_on = true,
            Op::Stray(i, j, newer) => self.stray(i, j, newer),
            Op::Over(i) => {
                self.exec(&Op::Lead(i));
                self.ops_done -= 1;
                self.deliver_all();
                self.expect(9, i as u32 + 1);
            }
            Op::Expect(k) => {
                if k == 6 {
                    // only meaningful for a fresh, fully connected cluster
                    if self.ops_done != 1 || self.cfg.ett < 3 {
                        return;
                    }
                    for _ in 0..8 * self.cfg.ett + 2 {
                        self.round();
                    }
                }
                self.expect(k, self.settle_from)
            }
        }
    }

    fn expect(&mut self, k: u8, from: u32) {
        let n = self.cfg.n();
        let disks: Vec<Disk> = (0..n).map(|i| self.disk(i)).collect();
        let apis: Vec<Option<Api>> = (0..n).map(|i| if self.alive(i) { Some(self.nodes[i].api.clone()) } else { None }).collect();
        if self.rec.is_some() {
            let s = format!("{{\"k\":\"E\",\"i\":1,\"o\":{},\"x\":{},\"s\":{}}}", self.ops_done, k, if from == u32::MAX { 0 } else { from });
            self.rec.as_mut().unwrap().push(Ev { line: s });
        }
        self.mon.expect(k, &disks, &apis, from);
    }
}

pub fn is_ble<T: HEntry>(m: &Message<T>) -> bool {
    matches!(m, Message::BLE(_))
}

/// The round a leader message belongs to (None for messages that are not issued by a leader).
pub fn stale_ballot<T: HEntry>(m: &Message<T>) -> Option<Bal> {
    match m {
        Message::SequencePaxos(p) => match &p.msg {
            PaxosMsg::Prepare(x) => Some(bal(x.n)),
            PaxosMsg::AcceptSync(x) => Some(bal(x.n)),
            PaxosMsg::AcceptDecide(x) => Some(bal(x.n)),
            PaxosMsg::AcceptStopSign(x) => Some(bal(x.n)),
            PaxosMsg::Decide(x) => Some(bal(x.n)),
            _ => None,
        },
        _ => None,
    }
}

/// Kind and round of a replication message.
pub fn msg_shape<T: HEntry>(m: &Message<T>) -> Option<(u8, Option<Bal>)> {
    match m {
        Message::SequencePaxos(p) => Some(match &p.msg {
            PaxosMsg::PrepareReq(_) => (1, None),
            PaxosMsg::Prepare(x) => (2, Some(bal(x.n))),
            PaxosMsg::Promise(x) => (3, Some(bal(x.n))),
            PaxosMsg::AcceptSync(x) => (4, Some(bal(x.n))),
            PaxosMsg::AcceptDecide(x) => (5, Some(bal(x.n))),
            PaxosMsg::Accepted(x) => (6, Some(bal(x.n))),
            PaxosMsg::NotAccepted(x) => (7, Some(bal(x.n))),
            PaxosMsg::Decide(x) => (8, Some(bal(x.n))),
            PaxosMsg::ProposalForward(_) => (9, None),
            PaxosMsg::Compaction(_) => (10, None),
            PaxosMsg::AcceptStopSign(x) => (11, Some(bal(x.n))),
            PaxosMsg::ForwardStopSign(_) => (12, None),
        }),
        _ => None,
    }
}

/// The message as it arrives, and whether that is the message sent.
fn wire<T: HEntry>(m: Message<T>, ser: u8, pids: &[u64]) -> (Message<T>, bool) {
    let r: Option<Message<T>> = catch_unwind(AssertUnwindSafe(|| match ser {
        1 => bincode::serialize(&m).ok().and_then(|b| bincode::deserialize(&b).ok()),
        2 => serde_json::to_vec(&m).ok().and_then(|b| serde_json::from_slice(&b).ok()),
        _ => Some(m.clone()),
    }))
    .unwrap_or(None);
    match r {
        None => (m, false),
        Some(x) => {
            // (the order of the items of a cache is not fixed when it is printed)
            let same = ser == 0
                || if cfg!(feature = "uc") { msg_json(&x, pids) == msg_json(&m, pids) } else { format!("{:?}", x) == format!("{:?}", m) };
            (x, same)
        }
    }
}

// ---------------------------------------------------------------- JSON for the TLA+ side
pub fn bj(b: &Bal) -> String {
    format!("[{},{},{}]", b.n, b.prio, b.pid)
}
fn vj(v: &[V]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
pub fn disk_json(d: &Disk) -> String {
    format!(
        "{{\"prom\":{},\"acc\":{},\"dec\":{},\"cmp\":{},\"hs\":{},\"snap\":{},\"log\":{},\"ss\":{},\"bad\":{}}}",
        bj(&d.prom), bj(&d.acc), d.dec, d.cmp, d.snap.is_some(),
        vj(d.snap.as_ref().unwrap_or(&vec![])), vj(&d.log), d.ss.unwrap_or(0), d.bad
    )
}
pub fn api_json(a: &Api) -> String {
    format!(
        "{{\"dec\":{},\"cmp\":{},\"prom\":{},\"lead\":{},\"lacc\":{},\"rcf\":{},\"ui\":{{\"dec\":{},\"lead\":{},\"cb\":{},\"hb\":[{}],\"ai\":{}}}}}",
        a.dec, a.cmp, bj(&a.prom), a.leader.map(|x| x.0).unwrap_or(0), a.leader.map(|x| x.1).unwrap_or(false), a.reconf.unwrap_or(0),
        a.ui.dec, a.ui.lead, bj(&a.ui.cb),
        a.ui.hb.iter().map(|(b, l, h)| format!("{{\"b\":{},\"l\":{},\"h\":{}}}", bj(b), bj(l), h)).collect::<Vec<_>>().join(","),
        vj(&a.ui.ai.iter().map(|x| *x as V).collect::<Vec<_>>())
    )
}
pub fn ret_json(r: &Ret) -> String {
    match r {
        Ret::None => "{\"r\":\"-\"}".into(),
        Ret::Ok => "{\"r\":\"ok\"}".into(),
        Ret::PendingEntry(v) => format!("{{\"r\":\"pe\",\"v\":{}}}", v),
        Ret::PendingConfig(v) => format!("{{\"r\":\"pc\",\"v\":{}}}", v),
        Ret::ConfigErr => "{\"r\":\"ce\"}".into(),
        Ret::Undecided(i) => format!("{{\"r\":\"ud\",\"v\":{}}}", i),
        Ret::TrimmedIdx(i) => format!("{{\"r\":\"ti\",\"v\":{}}}", i),
        Ret::NotAll(i) => format!("{{\"r\":\"na\",\"v\":{}}}", i),
        Ret::NotLeader(i) => format!("{{\"r\":\"nl\",\"v\":{}}}", i),
        Ret::Read(None) => "{\"r\":\"none\"}".into(),
        Ret::Read(Some(v)) => format!(
            "{{\"r\":\"some\",\"es\":[{}]}}",
            v.iter()
                .map(|e| match e {
                    RE::Dec(v) => format!("[\"d\",{}]", v),
                    RE::Und(v) => format!("[\"u\",{}]", v),
                    RE::Trimmed(i) => format!("[\"t\",{}]", i),
                    RE::Snap(i, s) => format!("[\"s\",{},{}]", i, vj(s)),
                    RE::Ss(v, d) => format!("[\"x\",{},{}]", v, d),
                })
                .collect::<Vec<_>>()
                .join(",")
        ),
    }
}
fn sync_json<T: HEntry>(l: &LogSync<T>, pids: &[u64]) -> String {
    let (st, sv) = match &l.decided_snapshot {
        None => ("-", vec![]),
        Some(SnapshotType::Complete(s)) => ("c", T::snap_vals(s)),
        Some(SnapshotType::Delta(s)) => ("d", T::snap_vals(s)),
    };
    format!(
        "{{\"st\":\"{}\",\"sv\":{},\"suf\":{},\"idx\":{},\"ss\":{}}}",
        st, vj(&sv), vj(&l.suffix.iter().map(|e| e.val()).collect::<Vec<_>>()), l.sync_idx,
        l.stopsign.as_ref().map(|s| ss_val(s, pids)).unwrap_or(0)
    )
}
pub fn msg_json<T: HEntry>(m: &Message<T>, pids: &[u64]) -> String {
    match m {
        Message::BLE(b) => match &b.msg {
            HeartbeatMsg::Request(r) => format!("{{\"t\":\"HbReq\",\"from\":{},\"to\":{},\"r\":{}}}", b.from, b.to, r.round),
            HeartbeatMsg::Reply(r) => format!(
                "{{\"t\":\"HbRep\",\"from\":{},\"to\":{},\"r\":{},\"b\":{},\"l\":{},\"h\":{}}}",
                b.from, b.to, r.round, bj(&bal(r.ballot)), bj(&bal(r.leader)), r.happy
            ),
        },
        Message::SequencePaxos(p) => {
            let body = match &p.msg {
                PaxosMsg::PrepareReq(x) => format!("\"t\":\"PrepareReq\",\"n\":{}", bj(&bal(x.n))),
                PaxosMsg::Prepare(x) => format!(
                    "\"t\":\"Prepare\",\"n\":{},\"dec\":{},\"na\":{},\"acc\":{}",
                    bj(&bal(x.n)), x.decided_idx, bj(&bal(x.n_accepted)), x.accepted_idx
                ),
                PaxosMsg::Promise(x) => format!(
                    "\"t\":\"Promise\",\"n\":{},\"dec\":{},\"na\":{},\"acc\":{},\"hs\":{},\"sync\":{}",
                    bj(&bal(x.n)), x.decided_idx, bj(&bal(x.n_accepted)), x.accepted_idx, x.log_sync.is_some(),
                    x.log_sync.as_ref().map(|l| sync_json(l, pids)).unwrap_or("{\"st\":\"none\",\"sv\":[],\"suf\":[],\"idx\":0,\"ss\":0}".into())
                ),
                PaxosMsg::AcceptSync(x) => format!(
                    "\"t\":\"AcceptSync\",\"n\":{},\"sess\":{},\"ctr\":{},\"dec\":{},\"sync\":{}",
                    bj(&bal(x.n)), x.seq_num.session, x.seq_num.counter, x.decided_idx, sync_json(&x.log_sync, pids)
                ),
                PaxosMsg::AcceptDecide(x) => format!(
                    "\"t\":\"AcceptDecide\",\"n\":{},\"sess\":{},\"ctr\":{},\"dec\":{},\"es\":{}",
                    bj(&bal(x.n)), x.seq_num.session, x.seq_num.counter, x.decided_idx, vj(&T::acc_vals(&x.entries))
                ),
                PaxosMsg::Accepted(x) => format!("\"t\":\"Accepted\",\"n\":{},\"acc\":{}", bj(&bal(x.n)), x.accepted_idx),
                PaxosMsg::NotAccepted(x) => format!("\"t\":\"NotAccepted\",\"n\":{}", bj(&bal(x.n))),
                PaxosMsg::Decide(x) => format!(
                    "\"t\":\"Decide\",\"n\":{},\"sess\":{},\"ctr\":{},\"dec\":{}",
                    bj(&bal(x.n)), x.seq_num.session, x.seq_num.counter, x.decided_idx
                ),
                PaxosMsg::ProposalForward(x) => {
                    format!("\"t\":\"Forward\",\"es\":{}", vj(&x.iter().map(|e| e.val()).collect::<Vec<_>>()))
                }
                PaxosMsg::Compaction(Compaction::Trim(i)) => format!("\"t\":\"CTrim\",\"x\":{}", i),
                PaxosMsg::Compaction(Compaction::Snapshot(i)) => {
                    format!("\"t\":\"CSnap\",\"x\":{}", i.map(|v| v.min(1_000_000_000) as i64).unwrap_or(-1))
                }
                PaxosMsg::AcceptStopSign(x) => format!(
                    "\"t\":\"AcceptSS\",\"n\":{},\"sess\":{},\"ctr\":{},\"ss\":{}",
                    bj(&bal(x.n)), x.seq_num.session, x.seq_num.counter, ss_val(&x.ss, pids)
                ),
                PaxosMsg::ForwardStopSign(x) => format!("\"t\":\"ForwardSS\",\"ss\":{}", ss_val(x, pids)),
            };
            format!("{{{},\"from\":{},\"to\":{}}}", body, p.from, p.to)
        }
    }
}
