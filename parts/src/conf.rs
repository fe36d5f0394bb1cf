//! C17: configurations and quorum sizes on real servers.
use crate::{paths, store::Ent};
use omnipaxos::{messages::Message, util::FlexibleQuorum, ClusterConfig, OmniPaxos, OmniPaxosConfig, ProposeErr, ServerConfig};
use omnipaxos_storage::memory_storage::MemoryStorage;
use serde_json::Value;
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Op = OmniPaxos<Ent, MemoryStorage<Ent>>;
const BIG: u64 = 999_999;

fn num(v: &Value) -> u64 {
    let n = v.as_u64().expect("number");
    if n == BIG { u64::MAX } else { n }
}
fn cluster(c: &Value) -> ClusterConfig {
    ClusterConfig {
        configuration_id: num(&c["id"]) as u32,
        nodes: c["nodes"].as_array().map(|a| a.iter().map(num).collect()).unwrap_or_default(),
        flexible_quorum: c["fq"].as_bool().unwrap().then(|| FlexibleQuorum { read_quorum_size: num(&c["r"]) as usize, write_quorum_size: num(&c["w"]) as usize }),
    }
}
fn server(c: &Value) -> ServerConfig {
    ServerConfig {
        pid: num(&c["pid"]),
        election_tick_timeout: num(&c["ett"]),
        resend_message_tick_timeout: num(&c["rtt"]),
        flush_batch_tick_timeout: num(&c["ftt"]),
        buffer_size: num(&c["buf"]) as usize,
        batch_size: num(&c["batch"]) as usize,
        leader_priority: 0,
        ..Default::default()
    }
}
fn wrong(what: &str, got: bool, exp: bool) -> Option<String> {
    (got != exp).then(|| format!("{}: {} instead of {}", what, if got { "accepted" } else { "refused" }, if exp { "accepted" } else { "refused" }))
}

fn validation(c: &Value, xp: &Value) -> Option<String> {
    let (cl, sv) = (cluster(c), server(c));
    let (xc, xs, xo) = (xp["cluster"].as_bool().unwrap(), xp["server"].as_bool().unwrap(), xp["ok"].as_bool().unwrap());
    let full = OmniPaxosConfig { cluster_config: cl.clone(), server_config: sv.clone() };
    let r = wrong("ClusterConfig::validate", cl.validate().is_ok(), xc)
        .or_else(|| wrong("ServerConfig::validate", sv.validate().is_ok(), xs))
        .or_else(|| wrong("OmniPaxosConfig::validate", full.validate().is_ok(), xo))
        .or_else(|| wrong("build", full.clone().build::<Ent, _>(MemoryStorage::default()).is_ok(), xo))
        .or_else(|| wrong("build_for_server", cl.clone().build_for_server::<Ent, _>(sv.clone(), MemoryStorage::default()).is_ok(), xo));
    if r.is_some() {
        return r;
    }
    // as the next configuration
    let mut op: Op = ClusterConfig { configuration_id: 1, nodes: vec![1, 2, 3], flexible_quorum: None }
        .build_for_server(ServerConfig { pid: 1, ..Default::default() }, MemoryStorage::default())
        .expect("a plain configuration");
    let meta = Some(vec![4u8, 2]);
    match op.reconfigure(cl.clone(), meta.clone()) {
        Ok(()) => wrong("reconfigure", true, xc),
        Err(ProposeErr::ConfigError(_, c2, m2)) => {
            if xc {
                wrong("reconfigure", false, true)
            } else if c2 != cl || m2 != meta {
                Some("reconfigure: returns another configuration than the one refused".to_string())
            } else if op.is_reconfigured().is_some() || op.append(Ent(1)).is_err() {
                Some("reconfigure: refused, but has an effect".to_string())
            } else {
                None
            }
        }
        Err(_) => Some("reconfigure: another error".to_string()),
    }
}

#[cfg(feature = "toml")]
fn toml(no: usize, c: &Value, xp: &Value) -> Option<String> {
    let n = |k: &str| { let v = num(&c[k]); if v == u64::MAX { i64::MAX as u64 } else { v } };
    let (mut cl, mut sv) = (cluster(c), server(c));
    let mut t = format!("[cluster_config]\nconfiguration_id = {}\nnodes = {:?}\n", cl.configuration_id, cl.nodes);
    if let Some(f) = cl.flexible_quorum.as_mut() {
        *f = FlexibleQuorum { read_quorum_size: n("r") as usize, write_quorum_size: n("w") as usize };
        t += &format!("flexible_quorum = {{ read_quorum_size = {}, write_quorum_size = {} }}\n", f.read_quorum_size, f.write_quorum_size);
    }
    sv.election_tick_timeout = n("ett");
    sv.resend_message_tick_timeout = n("rtt");
    t += &format!("[server_config]\npid = {}\nelection_tick_timeout = {}\nresend_message_tick_timeout = {}\nflush_batch_tick_timeout = {}\nbuffer_size = {}\nbatch_size = {}\nleader_priority = {}\n",
        sv.pid, sv.election_tick_timeout, sv.resend_message_tick_timeout, sv.flush_batch_tick_timeout, sv.buffer_size, sv.batch_size, no % 3);
    let p = std::path::Path::new(&crate::arg("--dir", "/tmp/opx-parts-db")).join(format!("c{}.toml", no));
    std::fs::write(&p, t).unwrap();
    let r = OmniPaxosConfig::with_toml(p.to_str().unwrap());
    let _ = std::fs::remove_file(&p);
    let xo = xp["ok"].as_bool().unwrap();
    match r {
        Err(_) => wrong("with_toml", false, xo),
        Ok(k) => {
            let s = &k.server_config;
            if k.cluster_config != cl || (s.pid, s.election_tick_timeout, s.resend_message_tick_timeout, s.flush_batch_tick_timeout, s.buffer_size, s.batch_size, s.leader_priority)
                != (sv.pid, sv.election_tick_timeout, sv.resend_message_tick_timeout, sv.flush_batch_tick_timeout, sv.buffer_size, sv.batch_size, (no % 3) as u32)
            {
                return Some("with_toml: other values than in the file".to_string());
            }
            wrong("with_toml", true, xo)
        }
    }
}
#[cfg(not(feature = "toml"))]
fn toml(_: usize, _: &Value, _: &Value) -> Option<String> {
    None
}

struct Net {
    ops: Vec<Op>,
    up: Vec<bool>,
}
impl Net {
    fn tick(&mut self) {
        for o in &mut self.ops {
            o.tick();
        }
        self.exchange();
    }
    /// delivers all between servers that are up, in order, until nothing is left
    fn exchange(&mut self) {
        let mut q: VecDeque<Message<Ent>> = VecDeque::new();
        loop {
            for o in &mut self.ops {
                let mut b = Vec::new();
                o.take_outgoing_messages(&mut b);
                q.extend(b);
            }
            let Some(m) = q.pop_front() else { break };
            let (s, r) = (m.get_sender() as usize - 1, m.get_receiver() as usize - 1);
            if self.up[s] && self.up[r] {
                self.ops[r].handle_incoming(m);
            }
        }
    }
    fn leader(&self) -> Option<usize> {
        (0..self.ops.len()).find(|i| self.ops[*i].get_current_leader() == Some((*i as u64 + 1, true)))
    }
}

fn counting(x: &Value, xp: &Value, by_hand: bool) -> Option<String> {
    let c = &x["c"];
    let cl = cluster(c);
    let n = cl.nodes.len();
    let (k, a) = (num(&x["k"]) as usize, num(&x["a"]) as usize);
    let ops = (1..=n)
        .map(|i| {
            let mut s = server(c);
            s.pid = i as u64;
            if by_hand {
                s.election_tick_timeout = 1_000_000;
            }
            cl.clone().build_for_server(s, MemoryStorage::default()).expect("valid")
        })
        .collect();
    let mut w = Net { ops, up: (0..n).map(|i| i < k).collect() };
    if by_hand {
        w.ops[k / 2].try_become_leader();
    }
    for _ in 0..40 {
        w.tick();
    }
    let (xl, xd) = (xp["leads"].as_bool().unwrap(), xp["decides"].as_bool().unwrap());
    let l = w.leader();
    let how = if by_hand { "try_become_leader" } else { "election" };
    if l.is_some() != xl {
        return Some(format!("{}: {} of {} servers connected, a leader in the accept phase: {:?}", how, k, n, l.map(|i| i + 1)));
    }
    let Some(l) = l else {
        return None;
    };
    // the leader and a - 1 others of those that follow it
    let mut left = a - 1;
    for i in 0..n {
        let keep = i == l || (w.up[i] && left > 0);
        if keep && i != l {
            left -= 1;
        }
        w.up[i] = keep;
    }
    let before = w.ops[l].get_decided_idx();
    if w.ops[l].append(Ent(1)).is_err() {
        return Some("append fails".to_string());
    }
    for _ in 0..30 {
        w.tick();
    }
    let d = w.ops[l].get_decided_idx();
    if (d == before + 1) != xd || d > before + 1 {
        return Some(format!("{}: {} of {} servers accept an entry; decided index {} -> {}", how, a, n, before, d));
    }
    None
}

pub fn replay_paths(file: &str, max: usize, seed: u64) {
    std::fs::create_dir_all(crate::arg("--dir", "/tmp/opx-parts-db")).unwrap();
    paths(file, max, seed, |no, x, xp| {
        let r = catch_unwind(AssertUnwindSafe(|| {
            if x["t"] == "V" {
                validation(&x["c"], xp).or_else(|| toml(no, &x["c"], xp))
            } else {
                counting(x, xp, true).or_else(|| counting(x, xp, false))
            }
        }));
        r.unwrap_or(Some("a panic".to_string()))
    });
}
