//! Binds Storage.tla, UniCache.tla and Config.tla to the real code.
mod conf;
mod store;
#[cfg(feature = "uc")]
mod uc;
use serde_json::Value;
use std::sync::{
    atomic::{AtomicUsize, Ordering},
    Mutex,
};

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(s ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

pub fn arg(name: &str, default: &str) -> String {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned()).unwrap_or(default.to_string())
}

/// Calls f(number, path, expectation) for (at most `max` of, evenly chosen) the lines
/// <<"PATH", "..", "..">> of a TLC output; f returns what is wrong.  The shortest wrong paths are
/// written to --out, each in a file of the same format.
pub fn paths(file: &str, max: usize, seed: u64, f: impl Fn(usize, &Value, &Value) -> Option<String> + Sync) {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| { eprintln!("{}", e); std::process::exit(2) });
    let lines: Vec<&str> = text.lines().filter(|l| l.starts_with("<<\"PATH\"")).collect();
    let total = lines.len();
    let lines: Vec<&str> = if max == 0 || total <= max { lines } else {
        let mut r = Rng::new(seed);
        let p = max as f64 / total as f64;
        lines.into_iter().filter(|_| (r.next() >> 11) as f64 / (1u64 << 53) as f64 <= p).collect()
    };
    let next = AtomicUsize::new(0);
    let bad: Mutex<Vec<(usize, &str, String)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= lines.len() {
                    break;
                }
                let p: Vec<String> = lines[k].trim_start_matches("<<").trim_end_matches(">>").split("\", \"").map(|x| x.trim_matches('"').replace("\\\"", "\"")).collect();
                let parse = |s: &str| -> Value { serde_json::from_str(s).unwrap_or_else(|e| { eprintln!("bad line: {} {}", e, s); std::process::exit(2) }) };
                let h = parse(&p[1]);
                let xp = if p.len() > 2 { parse(&p[2]) } else { Value::Null };
                if let Some(w) = f(k, &h, &xp) {
                    let n = h.as_array().map(|a| a.len()).unwrap_or(0);
                    bad.lock().unwrap().push((n, lines[k], w));
                }
            });
        }
    });
    let mut b = bad.into_inner().unwrap();
    b.sort_by_key(|x| (x.0, x.1.len()));
    let outd = arg("--out", "/tmp/opx-parts");
    std::fs::create_dir_all(&outd).unwrap();
    for (k, (_, line, w)) in b.iter().take(3).enumerate() {
        let p = format!("{}/path-{}.txt", outd, k);
        std::fs::write(&p, format!("# {}\n{}\n", w, line)).unwrap();
        println!("FOUND {} {}", p, &w.chars().take(300).collect::<String>());
    }
    println!("PATHS {{\"emitted\":{},\"paths\":{},\"differing\":{}}}", total, lines.len(), b.len());
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("OPX_PANIC").is_ok() {
            eprintln!("panic: {}", i);
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let file = a.get(2).cloned().unwrap_or_default();
    let max: usize = arg("--max", "0").parse().unwrap();
    let seed: u64 = arg("--seed", "1").parse().unwrap();
    let dir = arg("--dir", "/tmp/opx-parts-db");
    match a.get(1).map(|s| s.as_str()) {
        Some("storage-paths") => {
            std::fs::create_dir_all(&dir).unwrap();
            store::replay_paths(&file, &arg("--backend", "mem"), &dir, max, seed)
        }
        Some("storage-random") => {
            std::fs::create_dir_all(&dir).unwrap();
            store::random(&arg("--backend", "mem"), &dir, seed, arg("--count", "20").parse().unwrap(), arg("--len", "60").parse().unwrap(), arg("--fail", "0") == "1", &arg("--trace", "/tmp/t.json"))
        }
        Some("config-paths") => conf::replay_paths(&file, max, seed),
        #[cfg(feature = "uc")]
        Some("uc-paths") => uc::replay_paths(&file, max, seed),
        #[cfg(feature = "uc")]
        Some("uc-random") => uc::random(seed, arg("--count", "50").parse().unwrap(), arg("--len", "40").parse().unwrap()),
        _ => {
            eprintln!("usage: opx-parts storage-paths|storage-random|config-paths|uc-paths ..");
            std::process::exit(2)
        }
    }
}
