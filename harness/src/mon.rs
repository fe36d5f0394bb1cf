//! Fast monitors: the same predicates as spec/Props.tla, used to screen large numbers of real
//! executions.  A flagged execution is only a candidate; TLC decides on its recorded trace.
use crate::sim::{Api, Cfg, RE, Ret};
use crate::store::{bal, Bal, Disk};
use crate::types::*;
use omnipaxos::messages::{sequence_paxos::*, Message};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug)]
pub struct Flag {
    pub prop: &'static str,
    pub what: String,
    pub at: usize,
}

#[derive(Clone, Default)]
pub struct Prop {
    pub node: usize,
    pub ok: bool,
    pub unknown: bool,
    /// appended while the node reported a leader (that leader), for ordering
    pub lead: Option<u64>,
    pub settle: bool,
}

pub struct Mon {
    pub n: usize,
    pub wq: usize,
    pub rq: usize,
    pub pids: Vec<u64>,
    pub prio: Vec<u32>,
    pub snap: bool,
    pub flags: Vec<Flag>,
    pub step: usize,
    pub chosen: Vec<V>,
    /// round of the server that last made `chosen` longer
    pub chr: Bal,
    pub full: Vec<Vec<V>>,
    pub prev: Vec<Disk>,
    pub props: HashMap<V, Prop>,
    pub rounds: HashMap<Bal, Vec<V>>,
    pub hist: Vec<HashSet<(Bal, usize, usize)>>,
    pub proms: Vec<HashSet<Bal>>,
    pub acc_len: Vec<HashMap<Bal, usize>>,
    pub max_dec: Vec<usize>,
    pub led: HashMap<Bal, (usize, u32)>,
    pub faulty: bool,
    pub idle: bool,
    pub delivering: Option<usize>,
    pub panics: usize,
    pub stable: Option<Vec<Bal>>,
    pub seen: HashSet<&'static str>,
    // coverage counters
    pub n_dec: usize,
    pub n_ballots: usize,
    pub n_snap_sync: usize,
    pub n_resync: usize,
    pub trimmed: usize,
    pub snapped: usize,
    pub min_dec_at_expect: usize,
    /// compaction request made since the last full-agreement probe (requested index)
    pub comp_req: Option<Option<usize>>,
    pub ett: u64,
    pub hbn: Vec<Hb>,
    pub batch: Vec<usize>,
    /// entries a leader took since its log last grew
    pub wait: Vec<usize>,
}
/// Ticks since the start of the heartbeat round, its number, its replies and those of the round before.
#[derive(Clone, Default)]
pub struct Hb {
    pub tk: u64,
    pub r: u32,
    pub cur: Vec<(Bal, Bal, bool)>,
    pub prv: Vec<(Bal, Bal, bool)>,
}

impl Mon {
    pub fn new(c: &Cfg) -> Self {
        let n = c.n();
        Mon {
            n,
            wq: c.wq(),
            rq: c.rq(),
            pids: c.pids.clone(),
            prio: c.prio.clone(),
            snap: c.snap,
            flags: vec![],
            step: 0,
            chosen: vec![],
            chr: Bal::default(),
            full: vec![vec![]; n],
            prev: vec![Disk::default(); n],
            props: HashMap::new(),
            rounds: HashMap::new(),
            hist: vec![HashSet::new(); n],
            proms: vec![HashSet::new(); n],
            acc_len: vec![HashMap::new(); n],
            max_dec: vec![0; n],
            led: HashMap::new(),
            faulty: false,
            idle: false,
            delivering: None,
            panics: 0,
            stable: None,
            seen: HashSet::new(),
            n_dec: 0,
            n_ballots: 0,
            n_snap_sync: 0,
            n_resync: 0,
            trimmed: 0,
            snapped: 0,
            min_dec_at_expect: 0,
            comp_req: None,
            ett: c.ett,
            hbn: vec![Hb::default(); n],
            batch: c.batch.clone(),
            wait: vec![0; n],
        }
    }
    pub fn flag(&mut self, prop: &'static str, what: String) {
        if self.seen.insert(prop) {
            self.flags.push(Flag { prop, what, at: self.step });
        }
    }
    pub fn panic(&mut self, i: usize, what: &str) {
        self.panics += 1;
        self.flag("C18", format!("node {} panicked in {}", self.pids[i], what));
    }

    pub fn proposing(&mut self, v: V, i: usize, api: &Api, settle: bool) {
        let lead = api.leader.map(|l| l.0);
        self.props.insert(v, Prop { node: i, ok: false, unknown: true, lead, settle });
    }
    pub fn proposed(&mut self, v: V, r: &Ret, crashed: bool) {
        if let Some(p) = self.props.get_mut(&v) {
            p.ok = *r == Ret::Ok;
            p.unknown = crashed;
        }
    }

    pub fn on_disk(&mut self, i: usize, d: &Disk) {
        self.step += 1;
        let pid = self.pids[i];
        if d.bad {
            self.flag("C15", format!("storage of node {} cannot be read back consistently", pid));
            return;
        }
        if *d == self.prev[i] && self.step > self.n {
            return;
        }
        let p = self.prev[i].clone();
        // -- reconstruct the full log the storage stands for
        let mut full: Vec<V> = vec![];
        if self.snap {
            match &d.snap {
                Some(s) if s.len() == d.cmp => full.extend(s),
                None if d.cmp == 0 => {}
                s => {
                    self.flag("C12", format!("node {}: compacted index {} but snapshot of {:?} entries", pid, d.cmp, s.as_ref().map(|x| x.len())));
                    full.extend(self.full[i].iter().take(d.cmp));
                    full.resize(d.cmp, CORRUPT);
                }
            }
        } else {
            if self.full[i].len() < d.cmp {
                self.flag("C11", format!("node {}: trimmed to {} but never held that many entries", pid, d.cmp));
            }
            full.extend(self.full[i].iter().take(d.cmp));
            full.resize(d.cmp, CORRUPT);
        }
        full.extend(&d.log);
        if let Some(s) = d.ss {
            full.push(s);
        }
        // -- per-node monotonicity
        if d.prom < p.prom {
            self.flag("C05", format!("node {}: promise went back from {:?} to {:?}", pid, p.prom, d.prom));
        }
        if d.acc < p.acc {
            self.flag("C05", format!("node {}: accepted round went back from {:?} to {:?}", pid, p.acc, d.acc));
        }
        if d.acc > d.prom {
            self.flag("C05", format!("node {}: accepted round {:?} above its promise {:?}", pid, d.acc, d.prom));
        }
        if d.dec < p.dec {
            self.flag("C02", format!("node {}: decided index went back from {} to {}", pid, p.dec, d.dec));
        }
        if d.cmp < p.cmp {
            self.flag(if self.snap { "C12" } else { "C11" }, format!("node {}: compacted index went back from {} to {}", pid, p.cmp, d.cmp));
        }
        if d.dec > full.len() {
            self.flag("C07", format!("node {}: decided index {} beyond its durable log of length {}", pid, d.dec, full.len()));
            self.flag("C02", format!("node {}: decided index {} beyond its durable log of length {}", pid, d.dec, full.len()));
        }
        if d.cmp > d.dec {
            self.flag("C07", format!("node {}: compacted index {} above decided index {}", pid, d.cmp, d.dec));
            self.flag(if self.snap { "C12" } else { "C11" }, format!("node {}: compacted {} entries but only {} are decided", pid, d.cmp, d.dec));
        }
        // decided entries of this node never change
        let keep = p.dec.min(self.full[i].len());
        for k in 0..keep {
            if full.get(k) != self.full[i].get(k) {
                let (a, b) = (self.full[i][k], full.get(k).copied());
                self.flag("C02", format!("node {}: decided entry {} changed from {} to {:?}", pid, k, a, b));
                break;
            }
        }
        // -- global chosen log
        let dec = d.dec.min(full.len());
        for k in 0..dec {
            if k < self.chosen.len() {
                if self.chosen[k] != full[k] {
                    let c = self.chosen[k];
                    self.flag("C01", format!("node {} decided {} at index {}, another decided {}", pid, full[k], k, c));
                    break;
                }
            } else {
                let v = full[k];
                if let Some(s) = self.chosen.iter().find(|x| **x >= SS_BASE) {
                    let s = *s;
                    self.flag("C13", format!("entry {} decided at index {} after stop sign {}", v, k, s));
                }
                if self.chosen.contains(&v) {
                    self.flag("C03", format!("entry {} decided twice (again at index {})", v, k));
                }
                match self.props.get(&v) {
                    Some(pr) if pr.ok || pr.unknown => {}
                    Some(_) => self.flag("C03", format!("entry {} decided although it was refused", v)),
                    None => self.flag("C03", format!("entry {} decided at {} but never proposed", v, k)),
                }
                self.chosen.push(v);
                self.chr = d.acc;
                self.n_dec += 1;
            }
        }
        if self.snap && d.cmp > 0 {
            if let Some(s) = &d.snap {
                let l = s.len().min(self.chosen.len());
                if s[..l] != self.chosen[..l] || s.len() > self.chosen.len() {
                    self.flag("C12", format!("node {}: snapshot {:?} is not the decided prefix {:?}", pid, s, &self.chosen[..l]));
                }
            }
        }
        // -- rounds: one log per round
        if d.acc == Bal::default() {
            if !full.is_empty() {
                self.flag("C05", format!("node {} holds entries without an accepted round", pid));
            }
        } else {
            let r = self.rounds.entry(d.acc).or_default();
            let l = r.len().min(full.len());
            if r[..l] != full[..l] {
                let msg = format!("node {}: log {:?} in round {:?} conflicts with {:?}", pid, full, d.acc, r);
                self.flag("C05", msg);
            } else if full.len() > r.len() {
                *r = full.clone();
            }
        }
        self.full[i] = full;
        let len = self.full[i].len();
        self.hist[i].insert((d.acc, len, d.dec));
        self.proms[i].insert(d.prom);
        let e = self.acc_len[i].entry(d.acc).or_insert(0);
        if len > *e {
            *e = len;
        }
        self.max_dec[i] = self.max_dec[i].max(d.dec);
        self.prev[i] = d.clone();
        // -- durability of decided entries on a write quorum
        let c = self.chosen.len();
        if c > 0 {
            let have = (0..self.n).filter(|j| self.prev[*j].acc >= self.chr && self.full[*j].len() >= c && self.full[*j][..c] == self.chosen[..]).count();
            if have < self.wq {
                self.flag("C04", format!("{} entries decided, but only {} servers hold them durably since round {:?} (write quorum {})", c, have, self.chr, self.wq));
            }
        }
        // -- trimmed entries are held by everybody
        if !self.snap {
            let m = (0..self.n).map(|j| self.prev[j].cmp).max().unwrap_or(0);
            if m > 0 {
                for j in 0..self.n {
                    let l = m.min(self.chosen.len());
                    if self.full[j].len() < m || self.full[j][..l] != self.chosen[..l] {
                        let p2 = self.pids[j];
                        self.flag("C11", format!("log trimmed to {} although node {} does not hold those entries", m, p2));
                    }
                }
            }
        }
    }

    pub fn on_restart(&mut self, i: usize, before: &Disk, after: &Disk, a: Option<&Api>) {
        if let Some(a) = a {
            let rcf = if after.ss.is_some() && after.dec == after.acc_len() { after.ss } else { None };
            if !after.bad && (a.dec, a.cmp, a.prom, a.reconf) != (after.dec, after.cmp, after.prom, rcf) {
                self.flag("C07", format!("node {} reports {:?} after a restart from {:?}", self.pids[i], a, after));
            }
        }
        let mut b = before.clone();
        if !b.has_prom {
            b.has_prom = after.has_prom;
        }
        if b != *after {
            self.flag("C07", format!("node {}: restart changed durable state {:?} -> {:?}", self.pids[i], before, after));
        }
    }

    /// What is reported only grows.
    pub fn on_progress(&mut self, i: usize, a: &Api, was: &Api, d: &Disk) {
        if d.bad {
            return;
        }
        if a.dec < was.dec || a.dec > d.acc_len() {
            self.flag("C02", format!("node {} reported decided index {}, now {}", self.pids[i], was.dec, a.dec));
        }
        if a.prom < was.prom {
            self.flag("C05", format!("node {} reported promise {:?}, now {:?}", self.pids[i], was.prom, a.prom));
        }
    }
    /// A batch is written as soon as it is full.
    pub fn on_batch<T: HEntry>(&mut self, i: usize, kind: &str, ret: &Ret, m: Option<&Message<T>>, a: Option<&Api>, was: &Api, before: &Disk, d: &Disk) {
        let new = match m {
            Some(Message::SequencePaxos(PaxosMessage { msg: PaxosMsg::ProposalForward(es), .. })) => es.len(),
            None if kind == "A" && *ret == Ret::Ok => 1,
            _ => 0,
        };
        let me = self.pids[i];
        self.wait[i] = match a {
            Some(a)
                if !d.bad
                    && kind != "U"
                    && was.leader == Some((me, true))
                    && was.prom == a.prom
                    && before.ss.is_none()
                    && d.acc_len() == before.acc_len() =>
            {
                self.wait[i] + new
            }
            _ => 0,
        };
        if self.wait[i] >= self.batch[i] {
            self.flag("C14", format!("leader {} keeps {} entries in a batch of {}", me, self.wait[i], self.batch[i]));
        }
    }
    /// A healthy cluster with nothing to do sends heartbeats only.
    pub fn on_idle<T: HEntry>(&mut self, i: usize, kind: &str, up: bool, before: &Disk, d: &Disk, out: &[Message<T>]) {
        self.idle &= up && matches!(kind, "T" | "D" | "K");
        if !self.idle {
            return;
        }
        let stopped = self.chosen.iter().any(|v| *v >= SS_BASE);
        if before != d {
            self.flag("C22", format!("node {} of an idle cluster changed its durable state", self.pids[i]));
        }
        for m in out {
            if let Message::SequencePaxos(p) = m {
                if !(stopped && matches!(p.msg, PaxosMsg::Decide(_))) {
                    self.flag("C22", format!("node {} of an idle cluster sends {:?}", self.pids[i], m));
                }
            }
        }
    }

    pub fn on_api(&mut self, i: usize, a: &Api, d: &Disk) {
        let pid = self.pids[i];
        if a.dec != d.dec || a.prom != d.prom || a.cmp != d.cmp {
            self.flag("C06", format!("node {} reports decided {} compacted {} promise {:?}, storage holds {} {} {:?}", pid, a.dec, a.cmp, a.prom, d.dec, d.cmp, d.prom));
        }
        let el = if d.prom.pid == 0 { None } else { Some(d.prom.pid) };
        if a.leader.map(|x| x.0) != el {
            self.flag("C09", format!("node {} reports leader {:?}, promised to {:?}", pid, a.leader, d.prom));
        }
        if let Some((_, true)) = a.leader {
            if d.acc != d.prom {
                self.flag("C09", format!("node {} reports an accepted leader {:?} but its accepted round is {:?}", pid, a.leader, d.acc));
            }
        }
        let dss = if d.ss.is_some() && d.dec == d.acc_len() { d.ss } else { None };
        if a.reconf != dss {
            self.flag("C13", format!("node {}: is_reconfigured {:?}, log says {:?}", pid, a.reconf, dss));
        }
    }

    pub fn on_hb<T: HEntry>(&mut self, i: usize, kind: &str, m: Option<&Message<T>>) {
        let h = &mut self.hbn[i];
        match (kind, m) {
            ("U", _) => *h = Hb { r: 1, ..Default::default() },
            ("T", _) => {
                h.tk += 1;
                if h.tk == self.ett {
                    *h = Hb { tk: 0, r: h.r + 1, cur: vec![], prv: std::mem::take(&mut h.cur) };
                }
            }
            ("D", Some(Message::BLE(b))) => {
                if let omnipaxos::messages::ballot_leader_election::HeartbeatMsg::Reply(r) = &b.msg {
                    if r.round == h.r {
                        h.cur.retain(|x| x.0.pid != r.ballot.pid);
                        h.cur.push((bal(r.ballot), bal(r.leader), r.happy));
                    }
                }
            }
            _ => {}
        }
    }
    /// A server stands for election only if it heard from a quorum, or was told to.
    pub fn on_stand(&mut self, i: usize, kind: &str, a: &Api, before: &Disk, was: &Api) {
        if kind == "T" && a.ui.cb.n > was.ui.cb.n && a.ui.cb != before.prom {
            let s: HashSet<u64> = self.hbn[i].prv.iter().map(|x| x.0.pid).collect();
            if s.len() + 1 < self.rq {
                self.flag("C09", format!("node {} stands for election with {:?} having heard from {:?} only", self.pids[i], a.ui.cb, s));
            }
        }
    }
    pub fn on_ui<T: HEntry>(&mut self, i: usize, a: &Api, d: &Disk, m: Option<&Message<T>>, was: &Api) {
        if d.bad {
            return;
        }
        let pid = self.pids[i];
        let u = &a.ui;
        let mut bad = None;
        if u.dec != a.dec || u.lead != a.leader.map(|x| x.0).unwrap_or(0) || u.cb.pid != pid {
            bad = Some(format!("node {} shows {:?}, it reports {} {:?}", pid, u, a.dec, a.leader));
        }
        let sort = |v: &Vec<(Bal, Bal, bool)>| {
            let mut v = v.clone();
            v.sort();
            v
        };
        if sort(&u.hb) != sort(&self.hbn[i].prv) {
            bad = Some(format!("node {} shows heartbeats {:?}, got {:?}", pid, u.hb, self.hbn[i].prv));
        }
        if a.leader == Some((pid, true)) {
            for j in 0..self.n {
                let held = self.acc_len[j].get(&d.prom).copied().unwrap_or(0);
                if u.ai[j] > held {
                    bad = Some(format!("leader {} shows {} accepted by {}, which holds {}", pid, u.ai[j], self.pids[j], held));
                }
            }
            if u.ai[i] != d.acc_len() {
                bad = Some(format!("leader {} shows {} accepted by itself, it holds {}", pid, u.ai[i], d.acc_len()));
            }
            if let (Some(Message::SequencePaxos(p)), true) = (m, was.leader == Some((pid, true))) {
                if let PaxosMsg::Accepted(x) = &p.msg {
                    let j = self.pids.iter().position(|q| *q == p.from).unwrap_or(i);
                    if bal(x.n) == d.prom && u.ai[j] < x.accepted_idx {
                        bad = Some(format!("leader {} shows {} accepted by {}, which acknowledged {}", pid, u.ai[j], p.from, x.accepted_idx));
                    }
                }
            }
        }
        if let Some(w) = bad {
            self.flag("C21", w);
        }
    }

    pub fn on_deliver(&mut self, i: usize, b: Option<Bal>, before: &Disk, after: &Disk) {
        if let Some(b) = b {
            if b < before.prom && (before.log != after.log || before.acc != after.acc || before.dec != after.dec || before.prom != after.prom || before.ss != after.ss || before.cmp != after.cmp) {
                self.flag("C05", format!("node {} promised {:?} but obeyed a message of round {:?}", self.pids[i], before.prom, b));
            }
        }
    }

    pub fn on_ret(&mut self, i: usize, kind: &str, r: &Ret, before: &Disk, _after: &Disk, _a: Option<&Api>) {
        let pid = self.pids[i];
        match (kind, r) {
            ("A", Ret::None) | ("G", Ret::None) => {}
            ("A", Ret::Ok) | ("G", Ret::Ok) if before.ss.is_some() => {
                self.flag("C13", format!("node {} took a proposal although its log holds stop sign {:?}", pid, before.ss));
            }
            ("A", Ret::Ok) | ("G", Ret::Ok) => {}
            ("A", Ret::PendingEntry(v)) if before.ss.is_some() && self.props.contains_key(v) => {}
            ("G", Ret::PendingConfig(v)) if before.ss.is_some() && self.props.contains_key(v) => {}
            ("A", _) | ("G", _) => {
                self.flag("C13", format!("node {}: proposal answered {:?} with stop sign {:?} in the log", pid, r, before.ss));
            }
            _ => {}
        }
    }

    pub fn on_trim(&mut self, i: usize, x: Option<usize>, r: &Ret, before: &Disk, after: &Disk) {
        let pid = self.pids[i];
        self.comp_req = if before.prom.pid == pid { Some(x) } else { None };
        let logdec = |d: &Disk| if d.ss.is_some() && d.dec == d.acc_len() { d.dec - 1 } else { d.dec };
        match r {
            Ret::Ok => {
                if before.prom.pid != pid {
                    self.flag("C11", format!("trim accepted by node {} which follows {}", pid, before.prom.pid));
                }
                if let Some(x) = x {
                    let e = before.cmp.max(if x == before.dec { logdec(before) } else { x });
                    if after.cmp != e {
                        self.flag("C11", format!("node {}: trim({}) left compacted index {} (was {})", pid, x, after.cmp, before.cmp));
                    }
                }
                if after.cmp > before.cmp {
                    self.trimmed += 1;
                }
            }
            Ret::None => {}
            _ => {
                if after != before {
                    self.flag("C11", format!("node {}: refused trim changed the log", pid));
                }
                if before.prom.pid != pid && !matches!(r, Ret::NotLeader(_)) {
                    self.flag("C11", format!("node {} follows {} and answers trim with {:?}", pid, before.prom.pid, r));
                }
                if let Ret::NotAll(v) = r {
                    let least = self.full.iter().map(|f| f.len()).min().unwrap_or(0);
                    if *v > least || x.map(|x| *v >= x).unwrap_or(false) {
                        self.flag("C11", format!("node {} answers trim({:?}) with {:?}, the least anybody holds is {}", pid, x, r, least));
                    }
                }
                match r {
                    Ret::NotLeader(l) if *l != before.prom.pid => self.flag("C11", format!("node {}: trim names leader {} instead of {}", pid, l, before.prom.pid)),
                    Ret::Undecided(d) if *d != before.dec => self.flag("C11", format!("node {}: trim error reports decided index {} instead of {}", pid, d, before.dec)),
                    _ => {}
                }
            }
        }
    }
    pub fn on_snap(&mut self, i: usize, x: Option<usize>, r: &Ret, before: &Disk, after: &Disk) {
        let pid = self.pids[i];
        self.comp_req = Some(x);
        let logdec = if before.ss.is_some() && before.dec == before.acc_len() { before.dec - 1 } else { before.dec };
        let want = match x {
            Some(k) if k > before.dec => None,
            Some(k) if k == before.dec => Some(logdec),
            Some(k) => Some(k),
            None => Some(logdec),
        };
        match (r, want) {
            (Ret::None, _) => {}
            (Ret::Ok, Some(w)) => {
                if after.cmp != before.cmp.max(w) {
                    self.flag("C12", format!("node {}: snapshot({:?}) left compacted index {} (was {}, decided {})", pid, x, after.cmp, before.cmp, before.dec));
                }
                if after.cmp > before.cmp {
                    self.snapped += 1;
                }
            }
            (Ret::Undecided(d), None) if *d == before.dec && after == before => {}
            _ => self.flag("C12", format!("node {}: snapshot({:?}) with decided {} answered {:?}", pid, x, before.dec, r)),
        }
    }

    pub fn expected_read(&self, d: &Disk, a: usize, b: usize) -> Option<Option<Vec<RE>>> {
        if b == 0 {
            return Some(None);
        }
        if a >= b {
            return None; // empty ranges: only "does not fail" is claimed
        }
        let len = d.acc_len();
        if b > len {
            return Some(None);
        }
        let mut v = vec![];
        if a < d.cmp {
            v.push(match &d.snap {
                Some(s) => RE::Snap(d.cmp, s.clone()),
                None => RE::Trimmed(d.cmp),
            });
        }
        for k in a.max(d.cmp)..b {
            if k - d.cmp < d.log.len() {
                let x = d.log[k - d.cmp];
                v.push(if k < d.dec { RE::Dec(x) } else { RE::Und(x) });
            } else {
                v.push(RE::Ss(d.ss.unwrap_or(CORRUPT), d.dec == len));
            }
        }
        Some(Some(v))
    }
    pub fn on_read(&mut self, i: usize, a: usize, b: usize, r: &Option<Vec<RE>>, d: &Disk) {
        if let Some(e) = self.expected_read(d, a, b) {
            if e != *r {
                self.flag("C10", format!("node {}: read_entries({}..{}) = {:?}, log says {:?}", self.pids[i], a, b, r, e));
            }
        }
    }
    pub fn on_read_decided(&mut self, i: usize, a: usize, r: &Option<Vec<RE>>, d: &Disk) {
        let e = if a < d.dec { self.expected_read(d, a, d.dec) } else { Some(None) };
        if let Some(e) = e {
            if e != *r {
                self.flag("C10", format!("node {}: read_decided_suffix({}) = {:?}, log says {:?}", self.pids[i], a, r, e));
            }
        }
    }

    fn stored(&self, i: usize, r: &Bal) -> Vec<V> {
        let l = self.acc_len[i].get(r).copied().unwrap_or(0);
        let f = self.rounds.get(r).map(|f| &f[..l.min(f.len())]).unwrap_or(&[]);
        f.to_vec()
    }
    /// Entries sent by a leader are in its log.
    fn on_entries(&mut self, i: usize, r: Bal, es: &[V]) {
        let f = self.stored(i, &r);
        if !es.is_empty() && !f.windows(es.len()).any(|w| w == es) {
            self.flag("C06", format!("node {} sends {:?} in round {:?}, it stored {:?}", self.pids[i], es, r, f));
        }
    }
    /// What is sent to synchronize a log is what is stored.
    fn on_sync<T: HEntry>(&mut self, i: usize, r: Bal, acc: Option<usize>, l: &omnipaxos::util::LogSync<T>) {
        use omnipaxos::storage::SnapshotType::*;
        let f = match acc {
            Some(_) => self.rounds.get(&r).cloned().unwrap_or_default(),
            None => self.stored(i, &r),
        };
        let mut e: Vec<V> = l.suffix.iter().map(|e| e.val()).collect();
        if let Some(s) = &l.stopsign {
            e.push(ss_val(s, &self.pids));
        }
        let end = l.sync_idx + e.len();
        let mut ok = end <= f.len() && f[l.sync_idx..end] == e[..] && acc.map(|a| a == end).unwrap_or(true);
        if ok {
            ok = match &l.decided_snapshot {
                None => true,
                Some(Complete(s)) => T::snap_vals(s)[..] == f[..l.sync_idx],
                Some(Delta(s)) => {
                    let v = T::snap_vals(s);
                    v.len() <= l.sync_idx && v[..] == f[l.sync_idx - v.len()..l.sync_idx]
                }
            };
        }
        if !ok {
            self.flag("C06", format!("node {} sends {:?} for round {:?} {:?}, the log is {:?}", self.pids[i], l, r, acc, f));
        }
    }

    pub fn on_msg<T: HEntry>(&mut self, i: usize, m: &Message<T>, inc: u32) {
        let pid = self.pids[i];
        let p = match m {
            Message::SequencePaxos(p) => p,
            Message::BLE(b) => {
                if let omnipaxos::messages::ballot_leader_election::HeartbeatMsg::Reply(r) = &b.msg {
                    let l = r.leader.pid;
                    if r.ballot.pid != pid || (l != 0 && !self.pids.contains(&l)) {
                        self.flag("C09", format!("node {} answers a heartbeat with {:?}", pid, r));
                    }
                }
                return;
            }
        };
        let mut lead: Option<(Bal, Option<usize>)> = None;
        match &p.msg {
            PaxosMsg::Prepare(x) => {
                lead = Some((bal(x.n), None));
                if !self.hist[i].contains(&(bal(x.n_accepted), x.accepted_idx, x.decided_idx)) {
                    self.flag("C06", format!("node {}: Prepare describes a log ({:?},{},{}) it never stored", pid, x.n_accepted, x.accepted_idx, x.decided_idx));
                }
            }
            PaxosMsg::Promise(x) => {
                if !self.proms[i].contains(&bal(x.n)) || self.prev[i].prom < bal(x.n) {
                    self.flag("C06", format!("node {}: promised {:?} without having stored it", pid, x.n));
                }
                if !self.hist[i].contains(&(bal(x.n_accepted), x.accepted_idx, x.decided_idx)) {
                    self.flag("C06", format!("node {}: Promise describes a log ({:?},{},{}) it never stored", pid, x.n_accepted, x.accepted_idx, x.decided_idx));
                }
                if let Some(l) = &x.log_sync {
                    let (na, acc) = (bal(x.n_accepted), x.accepted_idx);
                    self.on_sync(i, na, Some(acc), l);
                    if l.decided_snapshot.is_some() {
                        self.n_snap_sync += 1;
                    }
                }
            }
            PaxosMsg::Accepted(x) => {
                let have = self.acc_len[i].get(&bal(x.n)).copied().unwrap_or(0);
                if have < x.accepted_idx {
                    self.flag("C06", format!("node {}: acknowledged {} entries in round {:?}, stored {}", pid, x.accepted_idx, x.n, have));
                }
            }
            PaxosMsg::AcceptSync(x) => {
                lead = Some((bal(x.n), Some(x.decided_idx)));
                self.on_sync(i, bal(x.n), None, &x.log_sync);
                self.n_resync += 1;
                if x.log_sync.decided_snapshot.is_some() {
                    self.n_snap_sync += 1;
                }
            }
            PaxosMsg::AcceptDecide(x) => {
                lead = Some((bal(x.n), Some(x.decided_idx)));
                if !cfg!(feature = "uc") {
                    self.on_entries(i, bal(x.n), &T::acc_vals(&x.entries));
                }
            }
            PaxosMsg::AcceptStopSign(x) => {
                lead = Some((bal(x.n), None));
                let v = ss_val(&x.ss, &self.pids);
                self.on_entries(i, bal(x.n), &[v]);
            }
            PaxosMsg::Decide(x) => lead = Some((bal(x.n), Some(x.decided_idx))),
            _ => {}
        }
        if let Some((b, d)) = lead {
            if b.pid != pid {
                self.flag("C09", format!("node {} acts as leader of round {:?}", pid, b));
            }
            match self.led.get(&b) {
                Some((j, k)) if *j != i || *k != inc => {
                    self.flag("C09", format!("round {:?} led by two servers or twice by a restarted one", b));
                    self.flag("C07", format!("node {} leads round {:?} again after a restart", pid, b));
                }
                Some(_) => {}
                None => {
                    self.led.insert(b, (i, inc));
                    self.n_ballots += 1;
                }
            }
            if !self.proms[i].contains(&b) {
                self.flag("C06", format!("node {} leads round {:?} without having stored its promise", pid, b));
            }
            if let Some(d) = d {
                if d > self.max_dec[i] {
                    self.flag("C06", format!("node {} announces decided index {} but has only {}", pid, d, self.max_dec[i]));
                    self.flag("C04", format!("node {} announces decided index {} but has decided only {}", pid, d, self.max_dec[i]));
                }
            }
        }
    }

    /// Expectations at the end of a healed, quiet period.
    /// 1: everybody decided the same log, incl. everything appended since healing
    /// 2: one leader, known to everybody        3: that leader stays (second probe after 2)
    /// 4: fault-free single-leader run: nothing lost, order kept
    /// 5: the hub of a star topology made progress
    /// 6: highest (priority, pid) leads a fresh, fully connected cluster
    /// 7: an explicit trim of what everybody decided took effect everywhere
    /// 8: a cluster-wide snapshot took effect everywhere
    pub fn expect(&mut self, k: u8, disks: &[Disk], apis: &[Option<Api>], settle_from: u32) {
        self.step += 1;
        let stopped = self.chosen.iter().any(|v| *v >= SS_BASE);
        match k {
            1 => {
                let c = self.chosen.len();
                for (i, d) in disks.iter().enumerate() {
                    if d.dec != c || d.acc_len() != c {
                        self.flag("C08", format!("after healing node {} is at {} of {} decided entries and holds {}", self.pids[i], d.dec, c, d.acc_len()));
                    }
                }
                if !stopped {
                    let missing: Vec<V> = self.props.iter().filter(|(v, p)| **v >= settle_from && **v < SS_BASE && p.ok && !self.chosen.contains(v)).map(|(v, _)| *v).collect();
                    if !missing.is_empty() {
                        self.flag("C08", format!("appended after healing but never decided: {:?}", missing));
                    }
                }
                self.min_dec_at_expect = c;
                self.comp_req = None;
            }
            2 => {
                let l: HashSet<Option<(u64, bool)>> = apis.iter().map(|a| a.as_ref().and_then(|a| a.leader)).collect();
                let b: HashSet<Bal> = disks.iter().map(|d| d.prom).collect();
                let ok = l.len() == 1 && b.len() == 1 && matches!(l.iter().next(), Some(Some((_, true))));
                if !ok {
                    self.flag("C09", format!("after healing the servers do not agree on an accepted leader: {:?}", apis.iter().map(|a| a.as_ref().map(|a| (a.prom, a.leader))).collect::<Vec<_>>()));
                }
                self.stable = Some(disks.iter().map(|d| d.prom).collect());
                let c = self.chosen.len();
                self.idle = ok && disks.iter().all(|d| d.dec == c);
            }
            3 => {
                let now: Vec<Bal> = disks.iter().map(|d| d.prom).collect();
                if let Some(s) = &self.stable {
                    if *s != now {
                        let m = format!("leader changed in a healthy idle cluster: {:?} -> {:?}", s, now);
                        self.flag("C09", m);
                    }
                }
            }
            4 => {
                if self.faulty || self.led.len() != 1 || stopped {
                    return;
                }
                if let Some(v) = self.props.iter().filter(|(v, p)| **v >= SS_BASE && p.ok).map(|(v, _)| *v).min() {
                    self.flag("C13", format!("fault-free run under one leader lost the reconfiguration {}", v));
                }
                let mut lost: Vec<V> = self.props.iter().filter(|(v, p)| **v < SS_BASE && p.ok && !self.chosen.contains(v)).map(|(v, _)| *v).collect();
                lost.sort();
                if !lost.is_empty() {
                    self.flag("C14", format!("fault-free run under one leader lost {:?}", lost));
                }
                for i in 0..self.n {
                    let mine: Vec<V> = self.chosen.iter().copied().filter(|v| self.props.get(v).map(|p| p.node == i && p.lead.is_some()).unwrap_or(false)).collect();
                    if mine.windows(2).any(|w| w[0] > w[1]) {
                        self.flag("C14", format!("entries appended at node {} were decided out of order: {:?}", self.pids[i], mine));
                    }
                }
            }
            5 => {
                if !stopped {
                    let any = self.props.iter().any(|(v, p)| *v >= settle_from && *v < SS_BASE && p.ok && self.chosen.contains(v));
                    if !any {
                        self.flag("C19", "a quorum-connected server exists but nothing appended since could be decided".into());
                    }
                }
            }
            10 => self.stable = Some(disks.iter().map(|d| d.prom).collect()),
            11 => {
                let now: Vec<Bal> = disks.iter().map(|d| d.prom).collect();
                if let Some(s) = &self.stable {
                    if *s != now {
                        let m = format!("leader changed although connectivity did not: {:?} -> {:?}", s, now);
                        self.flag("C19", m);
                    }
                }
            }
            6 => {
                let best = (0..self.n).max_by_key(|i| (self.prio[*i], self.pids[*i])).unwrap();
                for a in apis.iter() {
                    if a.as_ref().and_then(|a| a.leader) != Some((self.pids[best], true)) {
                        self.flag("C09", format!("highest priority server {} does not lead a fresh cluster: {:?}", self.pids[best], a.as_ref().map(|a| a.leader)));
                        break;
                    }
                }
            }
            9 => {
                let p = self.pids[settle_from as usize - 1];
                if apis.iter().any(|a| a.as_ref().and_then(|a| a.leader) != Some((p, true))) {
                    self.flag("C09", format!("server {} was told to take over a healthy cluster: {:?}", p, apis.iter().map(|a| a.as_ref().map(|a| a.leader)).collect::<Vec<_>>()));
                }
            }
            7 if stopped => {} // the last acknowledgement may be lost for good: refusing is fine
            7 | 8 => {
                let all = self.min_dec_at_expect.saturating_sub(stopped as usize);
                let want = match self.comp_req {
                    Some(Some(x)) if x <= self.min_dec_at_expect => x.min(all),
                    Some(None) => all,
                    _ => return,
                };
                for (i, d) in disks.iter().enumerate() {
                    if d.cmp < want {
                        self.flag(if k == 7 { "C11" } else { "C12" }, format!("node {} compacted to {} instead of {} although everybody decided it", self.pids[i], d.cmp, want));
                    }
                }
            }
            _ => {}
        }
    }
}
