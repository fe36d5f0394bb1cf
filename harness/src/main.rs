mod gen;
mod mon;
mod rng;
mod sim;
mod store;
mod types;

use gen::*;
use mon::Flag;
use rng::Rng;
use sim::*;
use std::collections::BTreeMap;
use std::sync::{atomic::*, Arc, Mutex};
use std::time::{Duration, Instant};
use types::*;

type Dev<T> = Box<dyn omnipaxos::storage::Storage<T>>;
/// The storage of the servers of a cluster.
fn mk<T: HEntry>(cfg: &Cfg) -> impl Fn(usize) -> (bool, Box<dyn Fn() -> Dev<T>>) {
    let persistent = cfg.st == 1;
    move |_i| {
        #[cfg(feature = "rocks")]
        if persistent {
            return (true, rocks::opener());
        }
        if persistent {
            eprintln!("built without PersistentStorage");
            std::process::exit(2)
        }
        (false, Box::new(|| Box::new(omnipaxos_storage::memory_storage::MemoryStorage::<T>::default())))
    }
}
#[cfg(feature = "rocks")]
mod rocks {
    use super::*;
    use omnipaxos_storage::persistent_storage::{PersistentStorage, PersistentStorageConfig};
    use std::path::{Path, PathBuf};
    static NO: AtomicU64 = AtomicU64::new(0);
    struct Dir(PathBuf);
    impl Drop for Dir {
        fn drop(&mut self) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
    /// Every call opens a copy of the files as they are now: they are what a process that dies leaves behind.
    pub fn opener<T: HEntry>() -> Box<dyn Fn() -> Dev<T>> {
        let a: Vec<String> = std::env::args().collect();
        let root = Dir(Path::new(&arg(&a, "--dir", "/tmp/opx-db")).join(format!("{}-{}", std::process::id(), NO.fetch_add(1, Ordering::Relaxed))));
        let gen = std::cell::Cell::new(0u32);
        std::fs::create_dir_all(&root.0).unwrap();
        Box::new(move || {
            let (old, new) = (root.0.join(gen.get().to_string()), root.0.join((gen.get() + 1).to_string()));
            if gen.get() > 0 {
                copy_files(&old, &new);
            }
            let r = std::panic::catch_unwind(|| PersistentStorage::<T>::open(PersistentStorageConfig::with_path(new.to_str().unwrap().to_string())));
            match r {
                Ok(d) => {
                    gen.set(gen.get() + 1);
                    Box::new(d)
                }
                Err(e) => {
                    let _ = std::fs::remove_dir_all(&new);
                    std::panic::resume_unwind(e)
                }
            }
        })
    }
    fn copy_files(from: &Path, to: &Path) {
        let list = || -> std::io::Result<Vec<(std::ffi::OsString, u64)>> {
            let mut v = vec![];
            for f in std::fs::read_dir(from)? {
                let f = f?;
                if f.file_name() != "LOCK" && f.file_name() != "LOG" {
                    v.push((f.file_name(), f.metadata()?.len()));
                }
            }
            v.sort();
            Ok(v)
        };
        for _ in 0..2000 {
            let _ = std::fs::remove_dir_all(to);
            std::fs::create_dir_all(to).unwrap();
            if let Ok(a) = list() {
                let ok = a.iter().all(|(n, _)| std::fs::copy(from.join(n), to.join(n)).is_ok());
                if ok && list().ok() == Some(a) {
                    return;
                }
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        eprintln!("the files of the database keep changing");
        std::process::exit(2)
    }
}

pub struct RunOut {
    pub flags: Vec<Flag>,
    pub steps: u64,
    pub dec: usize,
    pub ballots: usize,
    pub snap_sync: usize,
    pub resync: usize,
    pub trimmed: usize,
    pub snapped: usize,
    pub trace: Vec<String>,
    pub chosen: usize,
}
fn out<T: HEntry>(w: World<T>) -> RunOut {
    RunOut {
        flags: w.mon.flags.clone(),
        steps: w.steps,
        dec: w.mon.n_dec,
        ballots: w.mon.n_ballots,
        snap_sync: w.mon.n_snap_sync,
        resync: w.mon.n_resync,
        trimmed: w.mon.trimmed,
        snapped: w.mon.snapped,
        chosen: w.mon.chosen.len(),
        trace: w.rec.map(|r| r.into_iter().map(|e| e.line).collect()).unwrap_or_default(),
    }
}
fn gen_run(seed: u64, p: Profile, maxlen: usize, base: Option<(&Cfg, &[Op])>, nov: Option<&Novelty>) -> (Cfg, Vec<Op>, RunOut, usize) {
    let mut r = Rng::new(seed);
    let cfg = match base {
        Some((c, _)) => c.clone(),
        None => {
            let mut c = gen_cfg(&mut r, p);
            // --wire: all messages are serialized
            if c.ser == 0 && std::env::args().any(|x| x == "--wire") {
                c.ser = 1 + (seed % 2) as u8;
            }
            // --disk: the servers use PersistentStorage
            if std::env::args().any(|x| x == "--disk") {
                c.st = 1;
            }
            c
        }
    };
    let pre: &[Op] = base.map(|b| b.1).unwrap_or(&[]);
    if cfg.snap {
        let (w, ops, nv) = run_one::<SE>(seed, p, cfg.clone(), &mk(&cfg), maxlen, pre, nov);
        (cfg, ops, out(w), nv)
    } else {
        #[cfg(feature = "uc")]
        if cfg.lru {
            let (w, ops, nv) = run_one::<LE>(seed, p, cfg.clone(), &mk(&cfg), maxlen, pre, nov);
            return (cfg, ops, out(w), nv);
        }
        let (w, ops, nv) = run_one::<NE>(seed, p, cfg.clone(), &mk(&cfg), maxlen, pre, nov);
        (cfg, ops, out(w), nv)
    }
}
fn replay_t<T: HEntry>(cfg: &Cfg, ops: &[Op], rec: bool) -> RunOut {
    let mut w: World<T> = World::new(cfg.clone(), rec, &mk(cfg));
    for o in ops {
        w.exec(o);
    }
    out(w)
}
fn replay(cfg: &Cfg, ops: &[Op], rec: bool) -> RunOut {
    if cfg.snap {
        replay_t::<SE>(cfg, ops, rec)
    } else {
        #[cfg(feature = "uc")]
        if cfg.lru {
            return replay_t::<LE>(cfg, ops, rec);
        }
        replay_t::<NE>(cfg, ops, rec)
    }
}
/// Whether a flag counts for a property; with compressed entries (C16) several do.
fn counts(f: &str, prop: &str) -> bool {
    prop == "ALL" || f == prop || (prop == "C16" && matches!(f, "C01" | "C03" | "C05" | "C18" | "C20"))
}
fn has(o: &RunOut, prop: &str) -> bool {
    o.flags.iter().any(|f| counts(f.prop, prop))
}
fn valid(cfg: &Cfg, ops: &[Op]) -> bool {
    ops.iter().all(|o| {
        let m = match *o {
            Op::Tick(i) | Op::Take(i) | Op::App(i) | Op::Rcf(i) | Op::Start(i) | Op::Lead(i) | Op::ReadAll(i) | Op::Star(i) => i,
            Op::Trim(i, _) | Op::Snap(i, _, _) | Op::Crash(i, _) | Op::Fail(i, _, _) | Op::Prio(i, _) | Op::Read(i, _, _) | Op::ReadD(i, _) => i,
            Op::Del(a, b) | Op::Drop(a, b) | Op::Cut(a, b) | Op::Cut1(a, b) | Op::Heal(a, b) | Op::Rec(a, b) | Op::Stray(a, b, _) => a.max(b),
            _ => 0,
        };
        m < cfg.n()
    })
}
/// Delta-debugging of the operation list, keeping the same property flagged.  The quiet end of the
/// schedule (from the heal step on) is never thinned out, because expectations depend on it.
fn shrink(cfg: &Cfg, ops: &[Op], prop: &str, budget: Duration) -> Vec<Op> {
    let t0 = Instant::now();
    let full = replay(cfg, ops, false);
    if !has(&full, prop) {
        return ops.to_vec();
    }
    let tail = ops.iter().position(|o| matches!(o, Op::HealAll | Op::HealQ | Op::Star(_) | Op::Topo(..))).unwrap_or(ops.len());
    let mut head: Vec<Op> = ops[..tail].to_vec();
    let rest: Vec<Op> = ops[tail..].to_vec();
    // first try without the quiet end
    let test = |h: &[Op], r: &[Op]| {
        let mut v = h.to_vec();
        v.extend_from_slice(r);
        has(&replay(cfg, &v, false), prop)
    };
    let mut rest2: Vec<Op> = rest.clone();
    if test(&head, &[]) {
        rest2.clear();
    }
    if let Some(Op::Rounds(_)) = head.first() {
        // keep as is: shrinking the number of rounds below
    }
    let mut size = (head.len() / 2).max(1);
    while size >= 1 && t0.elapsed() < budget {
        let mut i = 0;
        let mut changed = false;
        while i < head.len() && t0.elapsed() < budget {
            let end = (i + size).min(head.len());
            let mut cand = head[..i].to_vec();
            cand.extend_from_slice(&head[end..]);
            if test(&cand, &rest2) {
                head = cand;
                changed = true;
            } else {
                i += size;
            }
        }
        if size == 1 && !changed {
            break;
        }
        if !changed || size > 1 {
            size = if size == 1 { 1 } else { size / 2 };
            if size == 0 {
                break;
            }
        }
    }
    head.extend(rest2);
    head
}

fn sched_text(cfg: &Cfg, ops: &[Op], flags: &[Flag]) -> String {
    let mut s = cfg.text();
    s.push('\n');
    for f in flags {
        s.push_str(&format!("# {} {}\n", f.prop, f.what));
    }
    for o in ops {
        s.push_str(&o.text());
        s.push('\n');
    }
    s
}
fn load(path: &str) -> (Cfg, Vec<Op>) {
    let t = std::fs::read_to_string(path).unwrap_or_else(|e| { eprintln!("cannot read {}: {}", path, e); std::process::exit(2) });
    let mut cfg = None;
    let mut ops = vec![];
    for l in t.lines() {
        if l.starts_with("CFG") {
            cfg = Some(Cfg::parse(l));
        } else if !l.starts_with('#') && !l.trim().is_empty() {
            ops.push(Op::parse(l).unwrap_or_else(|| { eprintln!("bad op {}", l); std::process::exit(2) }));
        }
    }
    (cfg.expect("no CFG line"), ops)
}
/// A recorded trace: one JSON object with the configuration and the list of events.
fn trace_json(cfg: &Cfg, id: usize, evs: &[String]) -> String {
    let l = |v: Vec<String>| format!("[{}]", v.join(","));
    format!(
        "{{\"id\":{},\"pids\":{},\"rq\":{},\"wq\":{},\"batch\":{},\"prio\":{},\"ett\":{},\"rtt\":{},\"ftt\":{},\"snap\":{},\"eager\":{},\"ble\":{},\"uc\":{},\"ev\":[\n{}\n]}}",
        id,
        l(cfg.pids.iter().map(|x| x.to_string()).collect()),
        cfg.rq(),
        cfg.wq(),
        l(cfg.batch.iter().map(|x| x.to_string()).collect()),
        l(cfg.prio.iter().map(|x| x.to_string()).collect()),
        cfg.ett.min(100000), cfg.rtt, cfg.ftt, cfg.snap, cfg.eager, cfg.ble, cfg!(feature = "uc"),
        evs.join(",\n")
    )
}

fn arg(a: &[String], k: &str, d: &str) -> String {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string())
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if at.starts_with("src/") {
            // the harness itself, not the library
            eprintln!("panic in the harness: {}", i);
        }
        if std::env::var("OPX_PANIC").is_ok() {
            eprintln!("panic: {}", i);
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).cloned().unwrap_or_default();
    match cmd.as_str() {
        "explore" => explore(&a),
        "replay" => {
            let (cfg, ops) = load(&a[2]);
            if !valid(&cfg, &ops) {
                eprintln!("schedule names unknown nodes");
                std::process::exit(2);
            }
            let tr = arg(&a, "--trace", "");
            let o = replay(&cfg, &ops, !tr.is_empty());
            if !tr.is_empty() {
                std::fs::write(&tr, format!("[{}]", trace_json(&cfg, 0, &o.trace))).unwrap();
            }
            for f in &o.flags {
                println!("FLAG {} {}", f.prop, f.what);
            }
            println!("STEPS {} CHOSEN {}", o.steps, o.chosen);
        }
        "shrink" => {
            let (cfg, ops) = load(&a[2]);
            let prop = arg(&a, "--prop", "ALL");
            let s = shrink(&cfg, &ops, &prop, Duration::from_secs(30));
            let o = replay(&cfg, &s, false);
            print!("{}", sched_text(&cfg, &s, &o.flags));
        }
        "gen" => {
            // regenerates the schedule of one exploration seed
            let seed: u64 = arg(&a, "--seed", "1").parse().unwrap();
            let maxlen: usize = arg(&a, "--maxlen", "220").parse().unwrap();
            let (cfg, ops, o, _) = gen_run(seed, profile(&arg(&a, "--profiles", "any")), maxlen, None, None);
            print!("{}", sched_text(&cfg, &ops, &o.flags));
        }
        "sample" => sample(&a),
        "paths" => paths(&a),
        "scheds" => scheds(&a),
        _ => {
            eprintln!("usage: explore|replay|shrink|sample");
            std::process::exit(2);
        }
    }
}

/// Records `--count` random executions as traces (JSON array) for validation by TLC.
fn sample(a: &[String]) {
    let seed: u64 = arg(a, "--seed", "1").parse().unwrap();
    let count: usize = arg(a, "--count", "20").parse().unwrap();
    let maxlen: usize = arg(a, "--maxlen", "80").parse().unwrap();
    let maxev: usize = arg(a, "--maxev", "400").parse().unwrap();
    let profs: Vec<Profile> = arg(a, "--profiles", "any").split(',').map(profile).collect();
    let outf = arg(a, "--out", "/dev/stdout");
    let scheds = arg(a, "--scheds", "");
    let mut v = vec![];
    let mut k = 0u64;
    let mut id = 0;
    while v.len() < count && k < count as u64 * 50 {
        let p = profs[(k as usize) % profs.len()];
        let (cfg, ops, o, _) = gen_run(seed.wrapping_mul(1_000_003).wrapping_add(k), p, maxlen, None, None);
        k += 1;
        if o.steps as usize > maxev {
            continue;
        }
        let o2 = replay(&cfg, &ops, true);
        id += 1;
        if !scheds.is_empty() {
            std::fs::write(format!("{}/{}.sched", scheds, id), sched_text(&cfg, &ops, &o2.flags)).unwrap();
        }
        v.push(trace_json(&cfg, id, &o2.trace));
    }
    std::fs::write(&outf, format!("[{}]", v.join(",\n"))).unwrap();
    println!("SAMPLED {}", v.len());
}

fn explore(a: &[String]) {
    let prop = arg(a, "--prop", "ALL");
    let seed: u64 = arg(a, "--seed", "1").parse().unwrap();
    let secs: f64 = arg(a, "--secs", "20").parse().unwrap();
    let threads: usize = arg(a, "--threads", "8").parse().unwrap();
    let maxlen: usize = arg(a, "--maxlen", "220").parse().unwrap();
    let maxfound: usize = arg(a, "--max", "3").parse().unwrap();
    let outd = arg(a, "--out", "/tmp/opx-out");
    let profs: Vec<Profile> = arg(a, "--profiles", "any").split(',').map(profile).collect();
    let base = arg(a, "--base", "");
    let base = if base.is_empty() { None } else { Some(load(&base)) };
    std::fs::create_dir_all(&outd).unwrap();
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Vec<(u64, Cfg, Vec<Op>, Vec<Flag>)>>> = Arc::new(Mutex::new(vec![]));
    let near: Arc<Mutex<BTreeMap<&'static str, Vec<(Cfg, Vec<Op>)>>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let tot: Arc<Mutex<BTreeMap<String, u64>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let t0 = Instant::now();
    let mut hs = vec![];
    // a call that never returns is found by a watchdog: what every thread runs, and since when
    let busy: Arc<Vec<Mutex<Option<(Instant, u64, usize, usize)>>>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    {
        let (busy, profs) = (busy.clone(), arg(a, "--profiles", "any"));
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            for b in busy.iter() {
                if let Some((t, s, k, ml)) = *b.lock().unwrap() {
                    if t.elapsed().as_secs() > 60 {
                        let names: Vec<&str> = profs.split(',').collect();
                        println!("HANG seed={} profile={} maxlen={}", s, names[k % names.len()], ml);
                        std::process::exit(3);
                    }
                }
            }
        });
    }
    let guided = arg(a, "--guided", "1") == "1";
    let nov = Arc::new(Novelty::new());
    let corpus: Arc<Mutex<Vec<Arc<(Cfg, Vec<Op>)>>>> = Arc::new(Mutex::new(vec![]));
    for t in 0..threads {
        let busy = busy.clone();
        let (nov, corpus) = (nov.clone(), corpus.clone());
        let near = near.clone();
        let (stop, found, tot, prop, profs, base) = (stop.clone(), found.clone(), tot.clone(), prop.clone(), profs.clone(), base.clone());
        hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let mut c: BTreeMap<String, u64> = BTreeMap::new();
            let mut distinct: std::collections::HashSet<(usize, usize, usize, usize, usize)> = Default::default();
            let mut k = 0u64;
            while !stop.load(Ordering::Relaxed) && t0.elapsed().as_secs_f64() < secs {
                let s = seed.wrapping_mul(0x1000_0000_01b3).wrapping_add((t as u64) << 40).wrapping_add(k);
                let p = profs[(k as usize) % profs.len()];
                k += 1;
                let ml = if k % 4 == 0 { maxlen * 2 } else if k % 4 == 1 { maxlen / 3 + 1 } else { maxlen };
                // every second schedule extends one that reached a new kind of state
                let mut r = Rng::new(s ^ 0x77);
                let picked: Option<Arc<(Cfg, Vec<Op>)>> = if k % 2 == 0 && base.is_none() && guided && !p.calm() {
                    let c = corpus.lock().unwrap();
                    if c.is_empty() { None } else {
                        let m = c.len();
                        let x = if r.chance(1, 2) { r.below(m) } else { m - 1 - r.below(m.min(200)) };
                        Some(c[x].clone())
                    }
                } else { None };
                let b = match &picked {
                    Some(x) => Some((&x.0, &x.1[..])),
                    None => base.as_ref().map(|(c, o)| (c, &o[..])),
                };
                *busy[t].lock().unwrap() = Some((Instant::now(), s, (k - 1) as usize, ml));
                let nv = if guided && base.is_none() { Some(&*nov) } else { None };
                let run = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| gen_run(s, p, ml, b, nv)));
                *busy[t].lock().unwrap() = None;
                let (cfg, ops, o, novel) = match run {
                    Ok(x) => x,
                    Err(_) => {
                        eprintln!("schedule seed={} profile={} maxlen={} could not be run", s, (k - 1) as usize % profs.len(), ml);
                        *c.entry("failed".into()).or_default() += 1;
                        continue;
                    }
                };
                if novel > 0 && base.is_none() && !p.calm() {
                    let e = Arc::new((cfg.clone(), ops[..novel].to_vec()));
                    let mut c = corpus.lock().unwrap();
                    if c.len() < 20000 { c.push(e) } else { let x = r.below(20000); c[x] = e }
                }
                *c.entry("schedules".into()).or_default() += 1;
                *c.entry("steps".into()).or_default() += o.steps;
                *c.entry("decided".into()).or_default() += o.dec as u64;
                *c.entry("ballots".into()).or_default() += o.ballots as u64;
                *c.entry("resyncs".into()).or_default() += o.resync as u64;
                *c.entry("snap_syncs".into()).or_default() += o.snap_sync as u64;
                *c.entry("trims".into()).or_default() += o.trimmed as u64;
                *c.entry("snapshots".into()).or_default() += o.snapped as u64;
                if o.dec > 0 && o.ballots > 0 {
                    *c.entry("nontrivial".into()).or_default() += 1;
                    distinct.insert((o.steps as usize, o.dec, o.ballots, o.resync, ops.len()));
                }
                for f in &o.flags {
                    *c.entry(format!("flag_{}", f.prop)).or_default() += 1;
                }
                if base.is_none() && prop != "ALL" && !has(&o, &prop) {
                    // another property fails here: a place from which this one may fail soon
                    for f in &o.flags {
                        let mut g = near.lock().unwrap();
                        let e = g.entry(f.prop).or_default();
                        if e.len() < 3 {
                            e.push((cfg.clone(), ops.clone()));
                        }
                    }
                }
                if has(&o, &prop) {
                    let mut g = found.lock().unwrap();
                    g.push((s, cfg, ops, o.flags));
                    if g.len() >= maxfound {
                        stop.store(true, Ordering::Relaxed);
                    }
                }
            }
            c.insert("distinct".into(), distinct.len() as u64);
            let mut g = tot.lock().unwrap();
            for (k, v) in c {
                *g.entry(k).or_default() += v;
            }
        }).unwrap());
    }
    for h in hs {
        if h.join().is_err() {
            eprintln!("harness thread failed");
            std::process::exit(2);
        }
    }
    let mut f = found.lock().unwrap();
    f.sort_by_key(|x| x.2.len());
    if prop == "ALL" {
        // survey mode: the shortest few candidates of every property
        let mut cnt: BTreeMap<&'static str, usize> = BTreeMap::new();
        let mut g: Vec<(u64, Cfg, Vec<Op>, Vec<Flag>)> = vec![];
        for (s, c, o, fl) in f.iter() {
            for x in fl {
                let k = cnt.entry(x.prop).or_default();
                if *k < 2 {
                    *k += 1;
                    g.push((*s, c.clone(), o.clone(), vec![x.clone()]));
                }
            }
        }
        *f = g;
    } else {
        f.truncate(maxfound);
    }
    for (k, (s, cfg, ops, flags)) in f.iter().enumerate() {
        let p = if prop == "ALL" { flags[0].prop.to_string() } else { prop.clone() };
        let sh = shrink(cfg, ops, &p, Duration::from_secs(20));
        let o = replay(cfg, &sh, false);
        let path = format!("{}/{}-{}.sched", outd, p, k);
        std::fs::write(&path, sched_text(cfg, &sh, &o.flags)).unwrap();
        let w = o.flags.iter().find(|f| counts(f.prop, &p)).map(|f| f.what.clone()).unwrap_or_default();
        println!("FOUND {} {} seed={} ops={} {}", p, path, s, sh.len(), w);
    }
    if f.is_empty() {
        for (q, v) in near.lock().unwrap().iter() {
            for (k, (cfg, ops)) in v.iter().enumerate() {
                let sh = shrink(cfg, ops, q, Duration::from_secs(4));
                let path = format!("{}/near-{}-{}.sched", outd, q, k);
                let o = replay(cfg, &sh, false);
                let w = o.flags.iter().find(|f| f.prop == *q).map(|f| f.what.clone()).unwrap_or_default();
                std::fs::write(&path, sched_text(cfg, &sh, &[])).unwrap();
                println!("NEAR {} {} {}", q, path, w);
            }
        }
    }
    let mut g = tot.lock().unwrap();
    g.insert("state_shapes".into(), nov.len() as u64);
    let s: Vec<String> = g.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    println!("STATS {{{}}}", s.join(","));
}

/// Replays the exhaustive test suite of a bounded model: every line of the TLC output names a path
/// (operations) and what the specification expects the last call to do.
fn paths(a: &[String]) {
    let cfg = Cfg::parse(&arg(a, "--cfg", "CFG"));
    let prop = arg(a, "--prop", "ALL");
    let outd = arg(a, "--out", "/tmp/opx-out");
    let threads: usize = arg(a, "--threads", "8").parse().unwrap();
    std::fs::create_dir_all(&outd).unwrap();
    let text = std::fs::read_to_string(&a[2]).unwrap_or_else(|e| { eprintln!("{}", e); std::process::exit(2) });
    let mut lines: Vec<&str> = text.lines().filter(|l| l.starts_with("<<\"PATH\"")).collect();
    // --max takes that many of them, evenly
    let max: usize = arg(a, "--max", "0").parse().unwrap();
    if max > 0 && lines.len() > max {
        let (n, seed) = (lines.len(), arg(a, "--seed", "1").parse::<usize>().unwrap());
        lines = (0..max).map(|k| lines[(k * n / max + seed * 7919) % n]).collect();
    }
    let next = AtomicUsize::new(0);
    let bad: Mutex<Vec<(Vec<Op>, String)>> = Mutex::new(vec![]);
    let found: Mutex<Vec<(Vec<Op>, String)>> = Mutex::new(vec![]);
    let steps = AtomicU64::new(0);
    let checked = AtomicU64::new(0);
    let nbad = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let k = next.fetch_add(64, Ordering::Relaxed);
                if k >= lines.len() {
                    break;
                }
                for l in &lines[k..(k + 64).min(lines.len())] {
                    let f: Vec<String> = l.trim_start_matches("<<").trim_end_matches(">>").split("\", \"").map(|x| x.trim_matches('"').replace("\\\"", "\"")).collect();
                    let ops: Vec<Op> = match serde_json::from_str::<Vec<String>>(&f[1]) {
                        Ok(v) => v.iter().map(|x| Op::parse(x).unwrap_or_else(|| { eprintln!("bad op {}", x); std::process::exit(2) })).collect(),
                        Err(e) => { eprintln!("bad line {}: {}", l, e); std::process::exit(2) }
                    };
                    let exp: serde_json::Value = serde_json::from_str(&f[2]).unwrap_or_else(|e| { eprintln!("bad line {}: {}", l, e); std::process::exit(2) });
                    let o = if cfg.snap { path_t::<SE>(&cfg, &ops) } else { path_t::<NE>(&cfg, &ops) };
                    steps.fetch_add(o.steps, Ordering::Relaxed);
                    if let Some(f) = o.flags.iter().find(|f| counts(f.prop, &prop)) {
                        found.lock().unwrap().push((ops.clone(), format!("{} {}", f.prop, f.what)));
                    }
                    if exp["i"] == 0 {
                        continue;
                    }
                    checked.fetch_add(1, Ordering::Relaxed);
                    let got: serde_json::Value = o.trace.last().map(|t| serde_json::from_str(t).unwrap()).unwrap_or_default();
                    let keys: &[&str] = if exp["up"] == true { &["i", "up", "d", "a", "ret", "out"] } else { &["i", "up", "d"] };
                    if let Some(k) = keys.iter().find(|k| exp[**k] != got[**k]) {
                        nbad.fetch_add(1, Ordering::Relaxed);
                        let mut b = bad.lock().unwrap();
                        if b.len() < 2000 {
                            b.push((ops, format!("{}: expected {} got {}", k, exp[*k], got[*k])));
                        }
                    }
                }
            });
        }
    });
    let mut b = bad.into_inner().unwrap();
    b.sort_by_key(|x| x.0.len());
    // the shortest disagreement of each kind of last operation
    let mut seen = std::collections::HashSet::new();
    b.retain(|(o, w)| seen.insert(format!("{} {}", o.last().unwrap().text().split(' ').next().unwrap(), w.split(':').next().unwrap())));
    for (k, (ops, w)) in b.iter().take(4).enumerate() {
        let p = format!("{}/path-diff-{}.sched", outd, k);
        std::fs::write(&p, sched_text(&cfg, ops, &[])).unwrap();
        println!("DIFF {} {}", p, &w[..w.len().min(400)]);
    }
    let mut f = found.into_inner().unwrap();
    f.sort_by_key(|x| x.0.len());
    for (k, (ops, w)) in f.iter().take(3).enumerate() {
        let p = format!("{}/path-{}.sched", outd, k);
        std::fs::write(&p, sched_text(&cfg, ops, &[])).unwrap();
        println!("FOUND {} {} ops={} {}", if prop == "ALL" { &w[..3] } else { &prop }, p, ops.len(), w);
    }
    println!("PATHS {{\"paths\":{},\"compared\":{},\"differing\":{},\"flagged\":{},\"steps\":{}}}", lines.len(), checked.into_inner(), nbad.into_inner(), f.len(), steps.into_inner());
}
fn path_t<T: HEntry>(cfg: &Cfg, ops: &[Op]) -> RunOut {
    let mut w: World<T> = World::new(cfg.clone(), false, &mk(cfg));
    for (k, o) in ops.iter().enumerate() {
        if k + 1 == ops.len() {
            w.rec = Some(vec![]);
        }
        w.exec(o);
    }
    out(w)
}

/// Replays behaviours that TLC's simulation published; the first ones are also recorded as traces.
fn scheds(a: &[String]) {
    let cfg = Cfg::parse(&arg(a, "--cfg", "CFG"));
    let prop = arg(a, "--prop", "ALL");
    let outd = arg(a, "--out", "/tmp/opx-out");
    let tr = arg(a, "--trace", "");
    let maxtr: usize = arg(a, "--traces", "10").parse().unwrap();
    let maxev: usize = arg(a, "--maxev", "1500").parse().unwrap();
    std::fs::create_dir_all(&outd).unwrap();
    let text = std::fs::read_to_string(&a[2]).unwrap_or_else(|e| { eprintln!("{}", e); std::process::exit(2) });
    let mut seen = std::collections::HashSet::new();
    let lines: Vec<&str> = text.lines().filter(|l| l.starts_with("<<\"SCHED\"") && l.ends_with(">>") && seen.insert(*l)).collect();
    let (mut nf, mut steps, mut dec) = (0, 0, 0);
    let mut traces = vec![];
    for (k, l) in lines.iter().enumerate() {
        let js = l.trim_start_matches("<<\"SCHED\", \"").trim_end_matches("\">>").replace("\\\"", "\"");
        let ops: Vec<Op> = match serde_json::from_str::<Vec<String>>(&js) {
            Ok(v) => v.iter().map(|x| Op::parse(x).unwrap_or_else(|| { eprintln!("bad op {}", x); std::process::exit(2) })).collect(),
            Err(e) => { eprintln!("bad line {}: {}", l, e); std::process::exit(2) }
        };
        let rec = !tr.is_empty() && traces.len() < maxtr;
        let o = replay(&cfg, &ops, rec);
        steps += o.steps;
        dec += o.dec;
        if rec && o.trace.len() <= maxev {
            std::fs::write(format!("{}/sim-{}.sched", outd, traces.len() + 1), sched_text(&cfg, &ops, &o.flags)).unwrap();
            traces.push(trace_json(&cfg, k, &o.trace));
        }
        if has(&o, &prop) {
            nf += 1;
            if nf <= 3 {
                let p = format!("{}/simfound-{}.sched", outd, nf);
                std::fs::write(&p, sched_text(&cfg, &ops, &o.flags)).unwrap();
                println!("FOUND {} {} ops={}", if prop == "ALL" { o.flags[0].prop } else { &prop }, p, ops.len());
            }
        }
    }
    if !tr.is_empty() {
        std::fs::write(&tr, format!("[{}]", traces.join(",\n"))).unwrap();
    }
    println!("SCHEDS {{\"behaviours\":{},\"steps\":{},\"decided\":{},\"flagged\":{},\"traces\":{}}}", lines.len(), steps, dec, nf, traces.len());
}
