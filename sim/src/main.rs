mod chain;
mod common;
mod engine;
mod ra;
mod replica;
mod rng;
mod seam;
mod v1;
mod v2;

use engine::*;
use std::collections::BTreeMap;

fn args() -> (String, Vec<String>, BTreeMap<String, String>) {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut pos = vec![];
    let mut kv = BTreeMap::new();
    let rest: Vec<String> = it.collect();
    let mut i = 0;
    while i < rest.len() {
        if let Some(k) = rest[i].strip_prefix("--") {
            if i + 1 < rest.len() && !rest[i + 1].starts_with("--") {
                kv.insert(k.to_string(), rest[i + 1].clone());
                i += 2;
                continue;
            }
            kv.insert(k.to_string(), "1".into());
        } else {
            pos.push(rest[i].clone());
        }
        i += 1;
    }
    (cmd, pos, kv)
}

fn known(path: &str) -> Vec<(String, String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            // finding: property=R07 sig="..." text
            if let Some(r) = l.strip_prefix("finding: property=") {
                let (p, r) = match r.split_once(" sig=\"") {
                    Some(x) => x,
                    None => continue,
                };
                if let Some((s, t)) = r.split_once('"') {
                    v.push((p.to_string(), s.to_string(), t.trim().to_string()));
                }
            }
        }
    }
    v
}

fn main() {
    chain::quiet_panics();
    let (cmd, pos, kv) = args();
    let get = |k: &str, d: &str| kv.get(k).cloned().unwrap_or_else(|| d.to_string());
    let seed: u64 = get("seed", "1").parse().unwrap_or(1);
    let workers: usize = get("workers", "8").parse().unwrap_or(8);
    let code = match cmd.as_str() {
        "replica" => replica::process(),
        "selftest" => {
            println!("seam {}", seam::works());
            i32::from(!seam::works())
        }
        "check" => {
            let o = Opts {
                property: get("property", ""),
                tier: get("tier", "quick"),
                seed,
                workers,
                runs: get("runs", "1000").parse().unwrap_or(1000),
                wall: get("wall", "60").parse().unwrap_or(60.0),
                evidence: get("evidence", "/tmp/evidence.json"),
                replay_dir: get("replays", "/tmp/replays"),
                known: known(&get("known", "")),
            };
            common::DEEP.store(o.tier == "thorough", std::sync::atomic::Ordering::Relaxed);
            match o.property.chars().next() {
                Some('R') => check::<ra::Ra>(&o),
                Some('M') => check::<v1::V1>(&o),
                Some('D') => check::<replica::Replicas>(&o),
                Some('V') => check::<v2::V2>(&o),
                _ => {
                    eprintln!("unknown property");
                    3
                }
            }
        }
        "replay" => {
            let path = pos.first().cloned().unwrap_or_default();
            let f: ReplayFile = match std::fs::read_to_string(&path).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
                Ok(f) => f,
                Err(e) => {
                    eprintln!("cannot read {path}: {e}");
                    std::process::exit(3);
                }
            };
            let trace = kv.contains_key("trace");
            match f.world.as_str() {
                ra_name if ra_name == <ra::Ra as World>::NAME => replay::<ra::Ra>(&path, &f, trace),
                n if n == <v1::V1 as World>::NAME => replay::<v1::V1>(&path, &f, trace),
                n if n == <v2::V2 as World>::NAME => replay::<v2::V2>(&path, &f, trace),
                n if n == <replica::Replicas as World>::NAME => replay::<replica::Replicas>(&path, &f, trace),
                w => {
                    eprintln!("unknown world {w}");
                    3
                }
            }
        }
        "hunt" => {
            let n: u64 = get("runs", "1000").parse().unwrap_or(1000);
            let wall: f64 = get("wall", "10").parse().unwrap_or(10.0);
            let profiles: Vec<String> = get("profiles", "M01").split(',').map(|s| s.to_string()).collect();
            let kn = known(&get("known", ""));
            match get("world", "ra").as_str() {
                "ra" => hunt::<ra::Ra>(seed, n, wall, workers, &profiles, &kn),
                "v1" => hunt::<v1::V1>(seed, n, wall, workers, &profiles, &kn),
                "v2" => hunt::<v2::V2>(seed, n, wall, workers, &profiles, &kn),
                "replicas" => hunt::<replica::Replicas>(seed, n, wall, workers, &profiles, &kn),
                _ => 3,
            }
        }
        "digest" => {
            let n: u64 = get("runs", "100").parse().unwrap_or(100);
            match get("world", "ra").as_str() {
                "ra" => digest::<ra::Ra>(seed, 0, n, workers, &get("profile", "R01")),
                "v1" => digest::<v1::V1>(seed, 0, n, workers, &get("profile", "M01")),
                "replicas" => digest::<replica::Replicas>(seed, 0, n, workers, &get("profile", "D01")),
                "v2" => digest::<v2::V2>(seed, 0, n, workers, &get("profile", "V01")),
                _ => {}
            }
            0
        }
        _ => {
            eprintln!("usage: mktsim check|replay|digest ...");
            3
        }
    };
    std::process::exit(code);
}
