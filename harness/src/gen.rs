//! Schedule generation: swarm-style random walks over the public API, the network and faults.
use crate::rng::Rng;
use crate::sim::*;
use crate::store::FailMode;
use crate::types::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Profile {
    Any,
    Snap,
    Trim,
    Reconf,
    Crash,
    Batch,
    Elect,
    Single,
    Star,
    Read,
    Duel,
    /// as Single, with reconfigurations
    Final,
}
impl Profile {
    /// no faults, one leader
    pub fn calm(self) -> bool {
        matches!(self, Profile::Single | Profile::Final)
    }
}
pub fn profile(s: &str) -> Profile {
    match s {
        "snap" => Profile::Snap,
        "trim" => Profile::Trim,
        "reconf" => Profile::Reconf,
        "crash" => Profile::Crash,
        "batch" => Profile::Batch,
        "elect" => Profile::Elect,
        "single" => Profile::Single,
        "star" => Profile::Star,
        "read" => Profile::Read,
        "duel" => Profile::Duel,
        "final" => Profile::Final,
        _ => Profile::Any,
    }
}

pub fn gen_cfg(r: &mut Rng, p: Profile) -> Cfg {
    let n = match p {
        Profile::Star => *r.pick(&[3, 4, 5, 5]),
        Profile::Duel => *r.pick(&[3, 3, 3, 3, 3, 4, 5]),
        _ if r.chance(1, 30) => *r.pick(&[6, 7]),
        _ => *r.pick(&[2, 3, 3, 3, 3, 3, 3, 4, 5, 5]),
    };
    let pids: Vec<u64> = if r.chance(6, 10) {
        (1..=n as u64).collect()
    } else {
        let mut all: Vec<u64> = (1..=9).chain([17, 64]).collect();
        let mut v = vec![];
        for _ in 0..n {
            let k = r.below(all.len());
            v.push(all.remove(k));
        }
        v
    };
    let fq = if r.chance(3, 10) {
        let w = 2 + r.below(n - 1);
        let lo = w.max(n + 1 - w);
        let rq = lo + r.below(n - lo + 1);
        Some((rq, w))
    } else {
        None
    };
    let batching = p == Profile::Batch || r.chance(4, 10);
    let batch = (0..n).map(|_| if batching { if r.chance(1, 12) { *r.pick(&[7, 16, 100]) } else { 1 + r.below(4) } } else { 1 }).collect();
    let prio = if r.chance(7, 10) { vec![0; n] } else { (0..n).map(|_| r.below(3) as u32).collect() };
    let single = p.calm();
    Cfg {
        pids,
        fq,
        batch,
        prio,
        ett: if p == Profile::Duel { *r.pick(&[5, 8]) } else if single { 100_000 } else { *r.pick(&[1, 2, 3, 3, 5, 5, 8]) },
        rtt: *r.pick(&[2, 4, 7, 12]),
        ftt: *r.pick(&[1, 2, 4, 9]),
        snap: match p {
            Profile::Snap => true,
            Profile::Trim => false,
            _ => r.chance(1, 2),
        },
        eager: r.chance(6, 10),
        lru: r.chance(1, 2),
        ble: p != Profile::Duel,
        ser: *r.pick(SER),
        st: 0,
        cid: *r.pick(&[1, 1, 1, 2, 77]),
        buf: *r.pick(&[1, 2, 8, 1000, 100_000]),
    }
}

#[cfg(not(feature = "uc"))]
const SER: &[u8] = &[0, 0, 0, 0, 0, 0, 1, 2];
#[cfg(feature = "uc")]
const SER: &[u8] = &[0, 0, 1, 1, 1, 2];

pub struct Weights {
    w: Vec<(u8, u32)>,
    total: u32,
    pub dense: bool,
    pub lead_bias: bool,
    /// how fast each link is, if links differ in this schedule
    pub speed: Option<Vec<u32>>,
}
const TICK: u8 = 0;
const TAKE: u8 = 1;
const DEL: u8 = 2;
const DROP: u8 = 3;
const CUT: u8 = 4;
const HEAL: u8 = 5;
const REC: u8 = 6;
const APP: u8 = 7;
const RCF: u8 = 8;
const COMP: u8 = 9;
const CRASH: u8 = 10;
const START: u8 = 11;
const FAIL: u8 = 12;
const PRIO: u8 = 13;
const LEAD: u8 = 14;
const READ: u8 = 15;
const ROUND: u8 = 16;
const DELB: u8 = 17;
const CUT1: u8 = 18;
const ISO: u8 = 19;
const FLUSHL: u8 = 20;
const TURN: u8 = 21;
const STRAY: u8 = 22;
const FOCUS: u8 = 23;

fn weights(r: &mut Rng, p: Profile, c: &Cfg) -> Weights {
    let lv = |r: &mut Rng, v: &[u32]| *r.pick(v);
    let mut w: Vec<(u8, u32)> = vec![];
    let faults = !p.calm();
    w.push((TICK, if p == Profile::Duel { lv(r, &[0, 0, 2, 6]) } else { lv(r, &[5, 15, 40]) }));
    if !c.eager {
        w.push((TAKE, lv(r, &[10, 30, 60])));
    }
    w.push((DEL, lv(r, &[60, 120, 240])));
    w.push((DELB, lv(r, &[3, 10, 25])));
    w.push((APP, lv(r, &[10, 30, 60])));
    w.push((ROUND, if p == Profile::Duel { 0 } else { lv(r, &[0, 1, 3]) }));
    w.push((FLUSHL, lv(r, &[0, 2, 8])));
    if faults {
        w.push((DROP, lv(r, &[0, 0, 3, 12])));
        w.push((CUT, lv(r, &[0, 1, 4])));
        w.push((CUT1, lv(r, &[0, 0, 0, 2])));
        w.push((ISO, lv(r, &[0, 0, 1, 3])));
        w.push((HEAL, lv(r, &[2, 6, 15])));
        w.push((REC, lv(r, &[0, 1, 4])));
        w.push((LEAD, if p == Profile::Duel { lv(r, &[6, 12, 25]) } else { lv(r, &[0, 1, 3, 8]) }));
        let cr = if p == Profile::Crash { 2 } else { 1 };
        w.push((CRASH, cr * lv(r, &[0, 0, 1, 3])));
        w.push((FAIL, cr * lv(r, &[0, 0, 1, 4])));
        w.push((START, lv(r, &[4, 8, 20])));
        w.push((TURN, lv(r, &[0, 0, 1, 3])));
        w.push((FOCUS, lv(r, &[0, 0, 1, 4])));
        w.push((STRAY, if p == Profile::Elect { 4 } else { lv(r, &[0, 0, 0, 1]) }));
        w.push((PRIO, if p == Profile::Elect { 3 } else { lv(r, &[0, 0, 0, 1]) }));
    }
    w.push((RCF, match p {
        Profile::Reconf => lv(r, &[2, 4]),
        Profile::Final => lv(r, &[1, 3]),
        Profile::Any | Profile::Crash | Profile::Duel => lv(r, &[0, 0, 0, 1]),
        _ => 0,
    }));
    w.push((COMP, match p {
        Profile::Snap | Profile::Trim => lv(r, &[4, 8, 20]),
        _ => lv(r, &[0, 0, 2, 6]),
    }));
    w.push((READ, if p == Profile::Read { 30 } else { lv(r, &[0, 1, 3]) }));
    let total = w.iter().map(|x| x.1).sum();
    let n = c.n();
    let speed = if r.chance(1, 2) || p == Profile::Duel { Some((0..n * n).map(|_| *r.pick(&[1, 2, 6, 20])).collect()) } else { None };
    Weights { w, total, dense: r.chance(1, 2), lead_bias: r.chance(1, 2), speed }
}

fn leader<T: HEntry>(w: &World<T>) -> Option<usize> {
    let mut best: Option<(usize, crate::store::Bal)> = None;
    for i in 0..w.cfg.n() {
        if w.alive(i) {
            let b = w.nodes[i].api.prom;
            if b.pid == w.cfg.pids[i] && best.map(|x| x.1 < b).unwrap_or(true) {
                best = Some((i, b));
            }
        }
    }
    best.map(|x| x.0)
}

pub struct Gen {
    pub r: Rng,
    pub wts: Weights,
    pub n: usize,
    /// now and then many entries at once, or a long time in which nothing happens
    pub long: bool,
    bonus: usize,
    queue: Vec<Op>,
}

impl Gen {
    pub fn new(mut r: Rng, p: Profile, c: &Cfg) -> Gen {
        let wts = weights(&mut r, p, c);
        Gen { r, wts, n: c.n(), long: false, bonus: 0, queue: vec![] }
    }
    fn other(&mut self, i: usize) -> usize {
        let j = self.r.below(self.n - 1);
        if j >= i { j + 1 } else { j }
    }
    pub fn next<T: HEntry>(&mut self, w: &World<T>) -> Op {
        if let Some(o) = self.queue.pop() {
            return o;
        }
        for _ in 0..50 {
            if let Some(o) = self.draw(w) {
                return o;
            }
        }
        Op::Tick(self.r.below(self.n))
    }
    fn draw<T: HEntry>(&mut self, w: &World<T>) -> Option<Op> {
        let mut x = self.r.below(self.wts.total as usize) as u32;
        let mut k = TICK;
        for (kk, ww) in &self.wts.w {
            if x < *ww {
                k = *kk;
                break;
            }
            x -= ww;
        }
        let n = self.n;
        let i = self.r.below(n);
        let j = self.other(i);
        Some(match k {
            TICK => Op::Tick(i),
            TAKE => Op::Take(i),
            DEL | DROP => {
                let mut ne = vec![];
                for a in 0..n {
                    for b in 0..n {
                        if !w.q[a][b].is_empty() && w.up[a][b] {
                            ne.push((a, b));
                        }
                    }
                }
                if ne.is_empty() {
                    return None;
                }
                let (a, b) = match &self.wts.speed {
                    Some(sp) => {
                        let t: u32 = ne.iter().map(|(a, b)| sp[a * n + b]).sum();
                        let mut x = self.r.below(t as usize) as u32;
                        let mut c = ne[0];
                        for (a, b) in &ne {
                            c = (*a, *b);
                            if x < sp[a * n + b] {
                                break;
                            }
                            x -= sp[a * n + b];
                        }
                        c
                    }
                    None => *self.r.pick(&ne),
                };
                if k == DEL {
                    if self.wts.dense && self.r.chance(1, 3) {
                        let c = 1 + self.r.below(w.q[a][b].len());
                        for _ in 0..c {
                            self.queue.push(Op::Del(a, b));
                        }
                    }
                    Op::Del(a, b)
                } else {
                    if self.r.chance(1, 4) {
                        let c = self.r.below(w.q[a][b].len());
                        for _ in 0..c {
                            self.queue.push(Op::Drop(a, b));
                        }
                    }
                    Op::Drop(a, b)
                }
            }
            DELB => {
                // deliver a burst: everything currently in flight, in random link order
                let mut ops = vec![];
                for a in 0..n {
                    for b in 0..n {
                        for _ in 0..w.q[a][b].len() {
                            ops.push(Op::Del(a, b));
                        }
                    }
                }
                if ops.is_empty() {
                    return None;
                }
                for t in (1..ops.len()).rev() {
                    let u = self.r.below(t + 1);
                    ops.swap(t, u);
                }
                if !w.cfg.eager {
                    for a in 0..n {
                        ops.insert(0, Op::Take(a));
                    }
                }
                self.queue = ops;
                return self.queue.pop();
            }
            CUT => Op::Cut(i, j),
            CUT1 => Op::Cut1(i, j),
            ISO => {
                for b in 0..n {
                    if b != i {
                        self.queue.push(Op::Cut(i, b));
                    }
                }
                return self.queue.pop();
            }
            HEAL => {
                let mut d = vec![];
                for a in 0..n {
                    for b in 0..n {
                        if a != b && !w.up[a][b] {
                            d.push((a, b));
                        }
                    }
                }
                if d.is_empty() {
                    return None;
                }
                let (a, b) = *self.r.pick(&d);
                if self.r.chance(3, 4) {
                    self.queue.push(Op::Rec(b, a));
                    if self.r.chance(3, 4) {
                        self.queue.push(Op::Rec(a, b));
                    }
                }
                Op::Heal(a, b)
            }
            REC => Op::Rec(i, if self.r.chance(1, 10) { i } else { j }),
            APP => {
                let i = if self.wts.lead_bias && self.r.chance(3, 4) { leader(w).unwrap_or(i) } else { i };
                if self.long && self.r.chance(1, 12) {
                    let k = *self.r.pick(&[18, 35, 70, 70, 140, 270]);
                    self.bonus += k;
                    for _ in 0..k {
                        self.queue.push(Op::App(i));
                    }
                } else if self.r.chance(1, 5) {
                    for _ in 0..self.r.below(4) {
                        self.queue.push(Op::App(i));
                    }
                }
                Op::App(i)
            }
            RCF => {
                let i = if self.r.chance(1, 2) { leader(w).unwrap_or(i) } else { i };
                Op::Rcf(i)
            }
            COMP => {
                let d = w.disk(i).dec;
                if w.cfg.snap {
                    let x = match self.r.below(4) {
                        0 | 1 => None,
                        2 => Some(self.r.below(d + 1)),
                        _ => Some(if self.r.chance(1, 40) { usize::MAX } else { d + self.r.below(2) }),
                    };
                    Op::Snap(i, x, self.r.chance(1, 2))
                } else {
                    let i = if self.r.chance(4, 5) { leader(w).unwrap_or(i) } else { i };
                    let d = w.disk(i).dec;
                    let x = match self.r.below(4) {
                        0 | 1 => None,
                        2 => Some(self.r.below(d + 1)),
                        _ => Some(if self.r.chance(1, 40) { usize::MAX } else { d + self.r.below(2) }),
                    };
                    Op::Trim(i, x)
                }
            }
            CRASH => Op::Crash(i, self.r.chance(1, 2)),
            START => {
                let d: Vec<usize> = (0..n).filter(|a| !w.alive(*a)).collect();
                if d.is_empty() {
                    return None;
                }
                let a = *self.r.pick(&d);
                if self.r.chance(1, 3) {
                    for b in 0..n {
                        if b != a && self.r.chance(1, 2) {
                            self.queue.push(Op::Rec(b, a));
                        }
                    }
                }
                Op::Start(a)
            }
            FAIL => Op::Fail(i, self.r.below(5) as u32, match self.r.below(4) { 0 => FailMode::Once, 1 => FailMode::After, _ => FailMode::Crash }),
            PRIO => Op::Prio(i, if self.r.chance(1, 20) { u32::MAX >> 1 } else { self.r.below(4) as u32 }),
            LEAD => Op::Lead(i),
            READ => {
                let l = w.disk(i).acc_len();
                if self.r.chance(1, 40) {
                    let a = *self.r.pick(&[0, l, usize::MAX - 1, usize::MAX]);
                    return Some(if self.r.chance(1, 3) { Op::ReadD(i, a) } else { Op::Read(i, a, usize::MAX) });
                }
                match self.r.below(4) {
                    0 => Op::ReadD(i, self.r.below(l + 2)),
                    1 => Op::Read(i, self.r.below(l + 2), self.r.below(l + 3)),
                    2 => {
                        let a = self.r.below(l + 2);
                        Op::Read(i, a, a + 1)
                    }
                    _ => {
                        let a = self.r.below(l + 1);
                        Op::Read(i, a, l)
                    }
                }
            }
            ROUND => Op::Rounds(if self.long && self.r.chance(1, 3) { *self.r.pick(&[40, 150, 300]) } else { 1 + self.r.below(3) }),
            FLUSHL => {
                let i = if self.r.chance(1, 2) { leader(w).unwrap_or(i) } else { i };
                for _ in 0..w.cfg.ftt.min(9) {
                    self.queue.push(Op::Tick(i));
                }
                return self.queue.pop();
            }
            STRAY => {
                let j = if self.r.chance(1, 2) { self.r.below(n) } else { j };
                Op::Stray(i, j, self.r.chance(1, 2))
            }
            FOCUS => {
                self.focus(w);
                return self.queue.pop();
            }
            TURN => {
                self.turn(w);
                return self.queue.pop();
            }
            _ => return None,
        })
    }
    /// Many steps between a leader and one follower, or between two that want to lead and the rest.
    pub fn focus<T: HEntry>(&mut self, w: &World<T>) {
        let n = self.n;
        let a = leader(w).filter(|_| self.r.chance(2, 3)).unwrap_or(self.r.below(n));
        let b = self.other(a);
        let pair = self.r.chance(1, 2);
        let mut ops: Vec<Op> = vec![];
        let rtt = w.cfg.rtt.min(12);
        if !pair {
            ops.push(Op::Lead(a));
        }
        for _ in 0..8 + self.r.below(24) {
            let (x, y) = if pair {
                if self.r.chance(1, 2) { (a, b) } else { (b, a) }
            } else {
                let x = if self.r.chance(1, 2) { a } else { b };
                let y = self.other(x);
                if self.r.chance(1, 2) { (x, y) } else { (y, x) }
            };
            let l = if self.r.chance(1, 2) { a } else { b };
            match self.r.below(20) {
                0..=9 => {
                    if !w.cfg.eager {
                        ops.push(Op::Take(x));
                    }
                    for _ in 0..1 + self.r.below(3) {
                        ops.push(Op::Del(x, y));
                    }
                }
                10 | 11 => {
                    if !w.cfg.eager {
                        ops.push(Op::Take(x));
                    }
                    ops.push(Op::Drop(x, y));
                }
                12..=14 => {
                    for _ in 0..rtt {
                        ops.push(Op::Tick(l));
                    }
                }
                15 => ops.push(Op::Rec(x, y)),
                16 => ops.push(Op::App(l)),
                17 => ops.push(if pair { Op::Rec(b, a) } else { Op::Lead(l) }),
                18 if pair || self.r.chance(1, 4) => {
                    ops.push(Op::Crash(b, self.r.chance(1, 2)));
                    ops.push(Op::Start(b));
                }
                _ => ops.push(Op::Lead(if pair { a } else { l })),
            }
        }
        ops.reverse();
        self.queue = ops;
    }
    /// A change of leadership among a random quorum, the others left out (cut off or only slow),
    /// with entries before or after; then possibly another one when the others are back.
    pub fn turn<T: HEntry>(&mut self, w: &World<T>) {
        let n = self.n;
        let mut ops: Vec<Op> = vec![];
        for k in 0..1 + self.r.below(3) {
            let q = if self.r.chance(3, 4) { w.cfg.rq().max(w.cfg.wq()) } else { 1 + self.r.below(n) };
            let mut all: Vec<usize> = (0..n).collect();
            for t in (1..n).rev() {
                let u = self.r.below(t + 1);
                all.swap(t, u);
            }
            if k == 0 && self.r.chance(1, 2) {
                // the servers that do not hold what somebody has decided come first
                let d: Vec<crate::store::Disk> = (0..n).map(|x| w.disk(x)).collect();
                let top = (0..n).max_by_key(|x| d[*x].dec).unwrap();
                let at = |y: &crate::store::Disk, p: usize| match p {
                    _ if p < y.cmp => None,
                    _ if p < y.cmp + y.log.len() => Some(y.log[p - y.cmp]),
                    _ if p == y.cmp + y.log.len() => y.ss,
                    _ => None,
                };
                let lacks = |x: usize| {
                    d[top].dec > 0 && d[x].cmp < d[top].dec && at(&d[x], d[top].dec - 1) != at(&d[top], d[top].dec - 1)
                };
                all.sort_by_key(|x| !lacks(*x));
            }
            let (m, rest) = all.split_at(q);
            let mask: u32 = m.iter().map(|x| 1u32 << x).sum();
            let cut = self.r.chance(1, 3);
            let reported = self.r.chance(1, 2);
            for a in m {
                for b in rest {
                    if cut {
                        ops.push(Op::Cut(*a, *b));
                    }
                }
                for b in m {
                    if a < b && !(w.up[*a][*b] && w.up[*b][*a] && k == 0) {
                        ops.push(Op::Heal(*a, *b));
                        if reported {
                            ops.push(Op::Rec(*a, *b));
                            ops.push(Op::Rec(*b, *a));
                        }
                    }
                }
                if !w.alive(*a) {
                    ops.push(Op::Start(*a));
                }
            }
            if self.r.chance(1, 6) {
                ops.push(Op::Crash(m[self.r.below(q)], true));
                for a in m {
                    ops.push(Op::Start(*a));
                }
            }
            let l = m[0];
            ops.push(Op::Lead(l));
            if self.r.chance(1, 6) {
                ops.push(Op::App(l));
            }
            ops.push(Op::Pump(mask));
            for _ in 0..self.r.below(3) {
                let x = if self.r.chance(3, 4) { l } else { m[self.r.below(q)] };
                ops.push(Op::App(x));
            }
            match self.r.below(4) {
                0 => {}
                1 => {
                    let v = m[self.r.below(q)];
                    ops.push(Op::Pump(mask & !(1 << v)));
                }
                _ => ops.push(Op::Pump(mask)),
            }
        }
        ops.reverse();
        self.queue = ops;
    }
}

/// Generates and executes one schedule; returns the operations executed.
pub fn run_one<T: HEntry>(seed: u64, p: Profile, cfg: Cfg, mk: &Mk<T>, maxlen: usize, prefix: &[Op], nov: Option<&Novelty>) -> (World<T>, Vec<Op>, usize) {
    let mut r = Rng::new(seed ^ 0x5bd1e995);
    let mut w: World<T> = World::new(cfg.clone(), false, mk);
    let mut ops: Vec<Op> = vec![];
    let mut g = Gen::new(Rng::new(seed ^ 0xabcdef), p, &cfg);
    g.long = maxlen >= 200 && r.chance(1, 12);
    let n = cfg.n();
    let mut run = |w: &mut World<T>, ops: &mut Vec<Op>, o: Op| {
        w.exec(&o);
        ops.push(o);
    };
    // what follows a suspicious base, or could have followed shortly before its end
    let prefix = if nov.is_none() && !prefix.is_empty() && r.chance(1, 2) { &prefix[..prefix.len() - r.below(prefix.len().min(20))] } else { prefix };
    for o in prefix {
        run(&mut w, &mut ops, *o);
    }
    if !cfg.ble && p != Profile::Duel && !prefix.contains(&Op::BleOn) {
        run(&mut w, &mut ops, Op::BleOn);
    }
    let mut novel = 0;
    let single = p.calm();
    if prefix.is_empty() {
        if single {
            let i = r.below(n);
            if r.chance(1, 3) {
                let a = r.below(n);
                run(&mut w, &mut ops, Op::App(a));
            }
            run(&mut w, &mut ops, Op::Lead(i));
            if r.chance(1, 2) {
                run(&mut w, &mut ops, Op::Rounds(1));
            }
        } else if p == Profile::Elect && cfg.ett >= 3 && r.chance(1, 3) {
            // fresh, fully connected cluster: the highest priority server must win
            run(&mut w, &mut ops, Op::Expect(6));
        } else if r.chance(7, 10) {
            run(&mut w, &mut ops, Op::Rounds(3 * cfg.ett as usize + 1));
        } else if r.chance(1, 2) {
            let i = r.below(n);
            run(&mut w, &mut ops, Op::Lead(i));
        }
    }
    let len = if !prefix.is_empty() { if nov.is_none() && r.chance(1, 3) { r.below(8) } else { 10 + r.below(maxlen / 3 + 1) } } else { 20 + r.below(maxlen) };
    // (after a base that looks suspicious: at once a change of leadership, more often than not)
    if nov.is_none() && !prefix.is_empty() && r.chance(2, 3) {
        if r.chance(2, 3) {
            g.turn(&w);
        } else {
            g.focus(&w);
        }
    }
    let mut k = 0;
    while k < len + g.bonus.min(800) {
        k += 1;
        let o = g.next(&w);
        run(&mut w, &mut ops, o);
        if let Some(nv) = nov {
            if ops.len() <= 160 && nv.is_new(signature(&w)) {
                novel = ops.len();
            }
        }
    }
    // -- quiet end of the schedule: liveness and completeness expectations
    let final_ = if p.calm() { true } else { r.chance(1, if p == Profile::Duel { 12 } else { 2 }) };
    if final_ {
        if !p.calm() && r.chance(1, 3) {
            g.focus(&w);
            while let Some(o) = g.queue.pop() {
                run(&mut w, &mut ops, o);
            }
        }
        if !w.ble_on {
            run(&mut w, &mut ops, Op::BleOn);
        }
        let e = cfg.ett.min(10) as usize;
        let r1 = 14 * e + 3 * cfg.rtt as usize;
        let r2 = 3 * cfg.rtt as usize + 4 * cfg.ftt as usize + 6;
        let star = !single && n >= 3 && r.chance(if p == Profile::Star { 9 } else { 1 }, 10);
        if star {
            let h = r.below(n);
            let o = if r.chance(1, 3) {
                Op::Star(h)
            } else {
                // hub h reaches a read and a write quorum; everything else is arbitrary
                let q = cfg.rq().max(cfg.wq());
                let mut others: Vec<usize> = (0..n).filter(|x| *x != h).collect();
                for t in (1..others.len()).rev() {
                    let u = r.below(t + 1);
                    others.swap(t, u);
                }
                let must: Vec<usize> = others[..q - 1].to_vec();
                let mut down = 0u32;
                for x in &others[q - 1..] {
                    if r.chance(1, 3) {
                        down |= 1 << x;
                    }
                }
                let dens = r.below(4) as usize;
                let (mut l, mut k) = (0u32, 0);
                for a in 0..n {
                    for b in (a + 1)..n {
                        let m = (a == h && must.contains(&b)) || (b == h && must.contains(&a));
                        if m || r.chance(dens as usize, 4) {
                            l |= 1 << k;
                        }
                        k += 1;
                    }
                }
                Op::Topo(l, down)
            };
            run(&mut w, &mut ops, o);
            run(&mut w, &mut ops, Op::Rounds(r1 * 2));
            run(&mut w, &mut ops, Op::AppAll);
            run(&mut w, &mut ops, Op::Rounds(r2));
            run(&mut w, &mut ops, Op::AppAll);
            run(&mut w, &mut ops, Op::Rounds(r2));
            run(&mut w, &mut ops, Op::Expect(5));
            run(&mut w, &mut ops, Op::Expect(10));
            run(&mut w, &mut ops, Op::Rounds(10 * e));
            run(&mut w, &mut ops, Op::Expect(11));
        } else {
            if !single {
                run(&mut w, &mut ops, if r.chance(1, 3) { Op::HealQ } else { Op::HealAll });
            }
            run(&mut w, &mut ops, Op::Rounds(if single { r2 } else { r1 }));
            run(&mut w, &mut ops, Op::AppAll);
            run(&mut w, &mut ops, Op::Rounds(r2));
            run(&mut w, &mut ops, Op::AppAll);
            run(&mut w, &mut ops, Op::Rounds(r2));
            run(&mut w, &mut ops, Op::Expect(4));
            run(&mut w, &mut ops, Op::Expect(1));
            if !single {
                run(&mut w, &mut ops, Op::Expect(2));
            }
            if r.chance(1, 3) && !single {
                run(&mut w, &mut ops, Op::Rounds(6 * e));
                run(&mut w, &mut ops, Op::Expect(3));
            }
            if r.chance(1, 3) && !single {
                let i = r.below(n);
                run(&mut w, &mut ops, Op::Over(i));
                run(&mut w, &mut ops, Op::Rounds(2));
            }
            let i = r.below(n);
            run(&mut w, &mut ops, Op::ReadAll(i));
            if matches!(p, Profile::Trim | Profile::Snap | Profile::Any) && r.chance(1, 2) {
                let d = w.disk(i).dec;
                if cfg.snap {
                    run(&mut w, &mut ops, Op::Snap(i, None, false));
                    run(&mut w, &mut ops, Op::Rounds(2));
                    run(&mut w, &mut ops, Op::Expect(8));
                } else if let Some(l) = leader(&w) {
                    run(&mut w, &mut ops, Op::Trim(l, if r.chance(1, 2) { None } else { Some(d) }));
                    run(&mut w, &mut ops, Op::Rounds(2));
                    run(&mut w, &mut ops, Op::Expect(7));
                }
                run(&mut w, &mut ops, Op::AppAll);
                run(&mut w, &mut ops, Op::Rounds(r2));
                run(&mut w, &mut ops, Op::Expect(1));
                let j = r.below(n);
                run(&mut w, &mut ops, Op::ReadAll(j));
            }
        }
    }
    (w, ops, novel)
}

/// Abstract states seen so far, shared by all threads.
pub struct Novelty(Vec<std::sync::Mutex<std::collections::HashSet<u64>>>);
impl Novelty {
    pub fn new() -> Self {
        Novelty((0..64).map(|_| Default::default()).collect())
    }
    fn is_new(&self, h: u64) -> bool {
        self.0[(h & 63) as usize].lock().unwrap().insert(h)
    }
    pub fn len(&self) -> usize {
        self.0.iter().map(|s| s.lock().unwrap().len()).sum()
    }
}
/// The shape of a cluster state: how the rounds, logs and decided prefixes of the servers relate,
/// and which messages of which relative round are under way.
fn signature<T: HEntry>(w: &World<T>) -> u64 {
    use std::hash::{Hash, Hasher};
    let n = w.cfg.n();
    let mut h = std::collections::hash_map::DefaultHasher::new();
    let ds: Vec<crate::store::Disk> = (0..n).map(|i| w.disk(i)).collect();
    let mut bs: Vec<crate::store::Bal> = vec![];
    for d in &ds {
        bs.push(d.prom);
        bs.push(d.acc);
    }
    bs.sort();
    bs.dedup();
    let rank = |b: &crate::store::Bal| bs.iter().position(|x| x >= b).unwrap_or(99);
    let mut ls: Vec<usize> = vec![];
    for d in &ds {
        ls.push(d.dec);
        ls.push(d.acc_len());
        ls.push(d.cmp);
    }
    ls.sort();
    ls.dedup();
    let lr = |x: usize| ls.iter().position(|y| *y == x).unwrap();
    (n, w.cfg.rq(), w.cfg.snap).hash(&mut h);
    for (i, d) in ds.iter().enumerate() {
        (w.alive(i), rank(&d.prom), rank(&d.acc), lr(d.dec), lr(d.acc_len()), lr(d.cmp), d.ss.is_some()).hash(&mut h);
        if w.alive(i) {
            let a = &w.nodes[i].api;
            (a.leader.map(|x| x.1), a.prom.pid == w.cfg.pids[i]).hash(&mut h);
        }
        // where the stored logs part
        for e in &ds[..i] {
            let c = d.cmp.max(e.cmp);
            let a = d.log.iter().skip(c - d.cmp);
            let b = e.log.iter().skip(c - e.cmp);
            let k = a.zip(b).take_while(|(x, y)| x == y).count() + c;
            (k < d.cmp + d.log.len(), k < e.cmp + e.log.len()).hash(&mut h);
        }
    }
    for a in 0..n {
        for b in 0..n {
            let mut seen: Vec<(u8, usize)> = w.q[a][b].iter().filter_map(|m| msg_shape(m)).map(|(k, x)| (k, x.map(|x| rank(&x)).unwrap_or(50))).collect();
            seen.dedup();
            seen.truncate(4);
            seen.hash(&mut h);
        }
    }
    h.finish()
}
