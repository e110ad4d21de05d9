//! Seeded runs, shrinking, replay, evidence. Knows nothing about any particular contract.

use crate::rng::{derive, Rng};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    pub props: Vec<String>,
    pub sig: String,
    pub detail: String,
    pub step: usize,
}

/// What one run records.
#[derive(Default)]
pub struct Rec {
    pub viol: Vec<Viol>,
    pub stats: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub states: Vec<u64>,
    pub log: u64,
    pub step: usize,
    pub sim_ns: u128,
    pub trace: Option<Vec<String>>,
    pub committed: u64,
}

impl Rec {
    pub fn new() -> Self {
        Rec { log: crate::chain::FNV0, ..Default::default() }
    }
    pub fn violate(&mut self, props: &[&str], sig: impl Into<String>, detail: impl Into<String>) {
        let (sig, detail) = (sig.into(), detail.into());
        if let Some(t) = &mut self.trace {
            t.push(format!("    VIOLATED {props:?} {sig}: {detail}"));
        }
        self.viol.push(Viol { props: props.iter().map(|s| s.to_string()).collect(), sig, detail, step: self.step });
    }
    pub fn stat(&mut self, k: &str) {
        *self.stats.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn fault(&mut self, k: &str) {
        *self.faults.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn log(&mut self, s: &str) {
        crate::chain::fnv(&mut self.log, s.as_bytes());
        if let Some(t) = &mut self.trace {
            t.push(s.to_string());
        }
    }
}

/// One simulated system (chain, contracts, clients) with its oracle.
pub trait World: Sized {
    const NAME: &'static str;
    /// the kinds of fault this world can inject
    const FAULTS: &'static [&'static str];
    const ID: u64;
    type Cfg: Clone + Serialize + DeserializeOwned + Debug + Send + Sync;
    type Step: Clone + Serialize + DeserializeOwned + Debug + Send + Sync + PartialEq;
    fn gen_cfg(r: &mut Rng, profile: &str) -> Self::Cfg;
    fn new(cfg: &Self::Cfg) -> Self;
    fn steps(cfg: &Self::Cfg, r: &mut Rng) -> usize;
    /// Choose the next step (may look at the current state).
    fn gen(&mut self, r: &mut Rng) -> Self::Step;
    /// Execute a step on the system and judge it.
    fn apply(&mut self, s: &Self::Step, rec: &mut Rec);
    /// Called after the last step: bounded-liveness and history checks.
    fn finish(&mut self, rec: &mut Rec);
    /// Simpler variants of a step.
    fn shrink(s: &Self::Step) -> Vec<Self::Step>;
    fn chain(&self) -> &crate::chain::Chain;
}

#[derive(Clone, Serialize, Deserialize)]
pub struct ReplayFile {
    pub version: u32,
    pub property: String,
    pub world: String,
    pub seed: u64,
    pub run: u64,
    pub profile: String,
    pub violation: Viol,
    pub log_hash: String,
    pub original_steps: usize,
    pub cfg: serde_json::Value,
    pub steps: serde_json::Value,
}

pub struct Opts {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub workers: usize,
    pub runs: u64,
    pub wall: f64,
    pub evidence: String,
    pub replay_dir: String,
    pub known: Vec<(String, String, String)>, // property, sig, text
}

pub struct RunOut<W: World> {
    pub cfg: W::Cfg,
    pub steps: Vec<W::Step>,
    pub rec: Rec,
}

fn relevant<'a>(rec: &'a Rec, prop: &str, known: &[(String, String, String)]) -> Option<&'a Viol> {
    rec.viol.iter().find(|v| {
        v.props.iter().any(|p| p == prop) && !known.iter().any(|(kp, ks, _)| kp == prop && *ks == v.sig)
    })
}

/// Seed of the clock and randomness the code under test would see if it looked.
pub fn entropy<W: World>(seed: u64, run: u64) -> u64 {
    derive(seed ^ 0x5eed, W::ID, run)
}

/// Run in a thread of its own, with a simulated clock and seeded randomness.
pub fn isolated<T: Send>(entropy: u64, f: impl FnOnce() -> T + Send) -> std::thread::Result<T> {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, || {
                crate::seam::enter(entropy);
                f()
            })
            .unwrap()
            .join()
    })
}

/// Generate and execute one run.
pub fn one_run<W: World>(seed: u64, run: u64, profile: &str, stop: impl Fn(&Rec) -> bool) -> RunOut<W> {
    let mut r = Rng::new(derive(seed, W::ID, run));
    let cfg = W::gen_cfg(&mut r, profile);
    let n = W::steps(&cfg, &mut r);
    let mut w = W::new(&cfg);
    let mut rec = Rec::new();
    let mut steps = vec![];
    for i in 0..n {
        rec.step = i;
        let s = w.gen(&mut r);
        steps.push(s.clone());
        w.apply(&s, &mut rec);
        if stop(&rec) {
            return RunOut { cfg, steps, rec };
        }
    }
    rec.step = n;
    w.finish(&mut rec);
    RunOut { cfg, steps, rec }
}

/// Execute a fixed list of steps.
pub fn play<W: World>(cfg: &W::Cfg, steps: &[W::Step], trace: bool, stop: impl Fn(&Rec) -> bool) -> Rec {
    let mut w = W::new(cfg);
    let mut rec = Rec::new();
    if trace {
        rec.trace = Some(vec![]);
    }
    for (i, s) in steps.iter().enumerate() {
        rec.step = i;
        if trace {
            rec.trace.as_mut().unwrap().push(format!("#{i} {s:?}"));
        }
        w.apply(s, &mut rec);
        if stop(&rec) {
            return rec;
        }
    }
    rec.step = steps.len();
    w.finish(&mut rec);
    rec
}

/// Smallest list of steps found that still shows the same violation.
fn minimise<W: World>(entropy: u64, cfg: &W::Cfg, steps: Vec<W::Step>, prop: &str, sig: &str, budget: Duration) -> Vec<W::Step> {
    let t0 = Instant::now();
    let hit = |rec: &Rec| rec.viol.iter().any(|v| v.sig == sig && v.props.iter().any(|p| p == prop));
    let bad = |s: &[W::Step]| isolated(entropy, || hit(&play::<W>(cfg, s, false, hit))).unwrap_or(false);
    let mut cur = steps;
    if !bad(&cur) {
        return cur;
    }
    // drop chunks
    let mut chunk = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < cur.len() && t0.elapsed() < budget {
            let end = (i + chunk).min(cur.len());
            let mut c = cur[..i].to_vec();
            c.extend_from_slice(&cur[end..]);
            if !c.is_empty() && bad(&c) {
                cur = c;
                changed = true;
            } else {
                i += chunk;
            }
        }
        if t0.elapsed() >= budget {
            break;
        }
        if chunk == 1 {
            if !changed {
                break;
            }
        } else {
            chunk = (chunk / 2).max(1);
        }
    }
    // simplify single steps
    let mut again = true;
    while again && t0.elapsed() < budget {
        again = false;
        for i in 0..cur.len() {
            for s in W::shrink(&cur[i]) {
                if s == cur[i] {
                    continue;
                }
                let mut c = cur.clone();
                c[i] = s;
                if bad(&c) {
                    cur = c;
                    again = true;
                    break;
                }
            }
        }
    }
    cur
}

pub fn check<W: World>(o: &Opts) -> i32 {
    let gen = |k: u64| isolated(entropy::<W>(o.seed, k), || one_run::<W>(o.seed, k, &o.property, |rec| relevant(rec, &o.property, &o.known).is_some()));
    let broken = AtomicU64::new(u64::MAX);
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let found = AtomicU64::new(u64::MAX);
    let timeout = AtomicBool::new(false);
    struct Agg {
        runs: u64,
        steps: u64,
        stats: BTreeMap<String, u64>,
        faults: BTreeMap<String, u64>,
        states: HashSet<u64>,
        logs: HashSet<u64>,
        nontrivial: u64,
        sim_ns: u128,
        other: BTreeMap<String, u64>,
        known_hit: BTreeMap<String, u64>,
        samples: Vec<serde_json::Value>,
        best: Option<(u64, Viol)>,
    }
    let agg = Mutex::new(Agg {
        runs: 0,
        steps: 0,
        stats: BTreeMap::new(),
        faults: BTreeMap::new(),
        states: HashSet::new(),
        logs: HashSet::new(),
        nontrivial: 0,
        sim_ns: 0,
        other: BTreeMap::new(),
        known_hit: BTreeMap::new(),
        samples: vec![],
        best: None,
    });
    std::thread::scope(|sc| {
        for _ in 0..o.workers {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= o.runs || k > found.load(Ordering::SeqCst) {
                        break;
                    }
                    if t0.elapsed().as_secs_f64() > o.wall {
                        timeout.store(true, Ordering::SeqCst);
                        break;
                    }
                    let out = match gen(k) {
                        Ok(x) => x,
                        Err(_) => {
                            broken.fetch_min(k, Ordering::SeqCst);
                            continue;
                        }
                    };
                    let v = relevant(&out.rec, &o.property, &o.known).cloned();
                    let mut a = agg.lock().unwrap();
                    a.runs += 1;
                    a.steps += out.steps.len() as u64;
                    for (k, n) in &out.rec.stats {
                        *a.stats.entry(k.clone()).or_insert(0) += n;
                    }
                    for (k, n) in &out.rec.faults {
                        *a.faults.entry(k.clone()).or_insert(0) += n;
                    }
                    a.states.extend(out.rec.states.iter().copied());
                    a.sim_ns += out.rec.sim_ns;
                    if a.logs.insert(out.rec.log) && out.rec.committed > 0 && !out.rec.faults.is_empty() {
                        a.nontrivial += 1;
                    }
                    for v in &out.rec.viol {
                        if v.props.iter().any(|p| *p == o.property) {
                            if o.known.iter().any(|(p, s, _)| *p == o.property && *s == v.sig) {
                                *a.known_hit.entry(v.sig.clone()).or_insert(0) += 1;
                            }
                        } else {
                            *a.other.entry(v.sig.clone()).or_insert(0) += 1;
                        }
                    }
                    if k < 2 {
                        let st: Vec<String> = out.steps.iter().take(12).map(|s| format!("{s:?}")).collect();
                        a.samples.push(serde_json::json!({"run": k, "config": format!("{:?}", out.cfg), "steps_total": out.steps.len(), "first_steps": st}));
                    }
                    if let Some(v) = v {
                        if a.best.as_ref().map_or(true, |(b, _)| k < *b) {
                            a.best = Some((k, v));
                        }
                        found.fetch_min(k, Ordering::SeqCst);
                    }
                })
                .unwrap();
        }
    });
    let mut a = agg.into_inner().unwrap();
    a.samples.sort_by_key(|s| s["run"].as_u64());
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut viol_json = serde_json::Value::Null;
    if let Some((k, _)) = a.best.clone() {
        // regenerate the run, minimise it, write the replay file
        let prop = o.property.clone();
        let out = match gen(k) {
            Ok(x) => x,
            Err(_) => return 3,
        };
        let v = match relevant(&out.rec, &o.property, &o.known) {
            Some(v) => v.clone(),
            None => {
                // the system under test itself is not deterministic: report what was seen
                a.best.clone().unwrap().1
            }
        };
        let orig = out.steps.len();
        let ent = entropy::<W>(o.seed, k);
        let steps = minimise::<W>(ent, &out.cfg, out.steps.clone(), &prop, &v.sig, Duration::from_secs(20));
        let rec = match isolated(ent, || play::<W>(&out.cfg, &steps, false, |_| false)) {
            Ok(r) => r,
            Err(_) => return 3,
        };
        let v2 = rec.viol.iter().find(|x| x.sig == v.sig && x.props.contains(&prop)).cloned().unwrap_or(v);
        let rf = ReplayFile {
            version: 1,
            property: prop.clone(),
            world: W::NAME.into(),
            seed: o.seed,
            run: k,
            profile: o.property.clone(),
            violation: v2.clone(),
            log_hash: format!("{:016x}", rec.log),
            original_steps: orig,
            cfg: serde_json::Value::String(serde_json::to_string(&out.cfg).unwrap()),
            // cfg and each step as a line of JSON text: amounts need all 128 bits
            steps: serde_json::Value::Array(steps.iter().map(|s| serde_json::Value::String(serde_json::to_string(s).unwrap())).collect()),
        };
        let _ = std::fs::create_dir_all(&o.replay_dir);
        let path = format!("{}/{}-seed{}-run{}.json", o.replay_dir, prop, o.seed, k);
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&rf).unwrap()) {
            eprintln!("cannot write {path}: {e}");
            return 3;
        }
        println!("violation: {} at step {} of {} (minimised from {}): {}", v2.sig, v2.step, steps.len(), orig, v2.detail);
        println!("VIOLATION property={} replay={}", prop, path);
        viol_json = serde_json::json!({"sig": v2.sig, "detail": v2.detail, "replay": path});
        code = 1;
    }
    if broken.load(Ordering::SeqCst) < u64::MAX && code == 0 {
        eprintln!("internal error: the simulator itself failed in run {}", broken.load(Ordering::SeqCst));
        code = 3;
    }
    for (p, s, text) in &o.known {
        if *p == o.property {
            println!("KNOWN-FINDING: property={} {} [{}; seen {} times in this run]", p, text, s, a.known_hit.get(s).unwrap_or(&0));
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let per_h = if search_s > 0.0 { a.runs as f64 / search_s * 3600.0 } else { 0.0 };
    let never: Vec<&&str> = W::FAULTS.iter().filter(|k| !a.faults.contains_key(**k)).collect();
    let ev = serde_json::json!({
        "property": o.property, "tier": o.tier, "seed": o.seed, "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontrivial,
            "rule": "One evaluation is one simulated run: configuration, clients' transactions, block times, faults and their order all derived from (seed, run number). Non-trivial: at least one transaction committed and at least one fault fired; distinct: by hash of the complete execution log.",
            "samples": a.samples,
            "world": W::NAME,
            "steps": a.steps,
            "runs_and_seeds_per_hour": per_h.round(),
            "simulated_seconds": (a.sim_ns / 1_000_000_000) as u64,
            "faults_fired": a.faults,
            "faults_never_fired": never,
            "outcomes_and_probes": a.stats,
            "distinct_states": a.states.len(),
            "distinct_states_measure": "distinct hashes of the contract's complete storage after a step",
            "distinct_interleavings": a.logs.len(),
            "real_components": ["sg-marketplace v1, stargaze-reserve-auction, stargaze-marketplace-v2 (from /repo, the one(s) this world runs)", "stargaze-fair-burn 1.0.4", "stargaze-royalty-registry 0.3.0", "cw721-base 0.16"],
            "stub_components": ["bank and fair-burn pool modules", "wasm message dispatch, gas, replies and rollback", "sg721 collection info query", "hook subscribers", "block production and x/cron begin/end-block calls"],
            "violations_of_other_properties_seen": a.other,
            "known_findings_hit": a.known_hit,
            "wall_cap_reached": timeout.load(Ordering::SeqCst),
            "violation": viol_json,
        },
        "assumptions": [
            "block times never go backwards (guaranteed by consensus)",
            "the simulated chain rolls back failed transactions and failed sub-messages as wasmd does",
            "sampling: a clean batch is evidence for the property, not a proof",
        ],
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": if code == 1 { 1 } else { 0 },
    });
    if let Some(d) = std::path::Path::new(&o.evidence).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if let Err(e) = std::fs::write(&o.evidence, serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        eprintln!("cannot write evidence: {e}");
        return 3;
    }
    println!(
        "{} {}: {} runs, {} steps, {:.0} s simulated, {} distinct states, {:.1} s wall{}",
        o.property,
        W::NAME,
        a.runs,
        a.steps,
        a.sim_ns as f64 / 1e9,
        a.states.len(),
        wall,
        match code {
            0 => " -> held",
            1 => " -> VIOLATED",
            _ => " -> BROKEN",
        }
    );
    code
}

/// Replay one file: exit 1 and the VIOLATION line when it reproduces exactly, 0 when it does not.
pub fn replay<W: World>(path: &str, f: &ReplayFile, trace: bool) -> i32 {
    let cfg: W::Cfg = match serde_json::from_str(f.cfg.as_str().unwrap_or("")) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("bad replay cfg: {e}");
            return 3;
        }
    };
    let steps: Vec<W::Step> = match f.steps.as_array().map(|v| v.iter().map(|s| serde_json::from_str(s.as_str().unwrap_or(""))).collect::<Result<Vec<_>, _>>()).unwrap_or(Ok(vec![])) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("bad replay steps: {e}");
            return 3;
        }
    };
    let rec = match isolated(entropy::<W>(f.seed, f.run), || play::<W>(&cfg, &steps, trace, |_| false)) {
        Ok(r) => r,
        Err(_) => return 3,
    };
    if let Some(t) = &rec.trace {
        for l in t {
            println!("{l}");
        }
    }
    let same = rec.viol.iter().any(|v| v.sig == f.violation.sig && v.props.contains(&f.property));
    if same {
        println!("reproduced: {} (log {:016x}, recorded {})", f.violation.sig, rec.log, f.log_hash);
        println!("VIOLATION property={} replay={}", f.property, path);
        1
    } else {
        println!("not reproduced: {}", f.violation.sig);
        0
    }
}

/// Per-run log hashes, for proving that a seed determines the execution.
pub fn digest<W: World>(seed: u64, from: u64, n: u64, workers: usize, profile: &str) {
    let next = AtomicU64::new(from);
    let out = Mutex::new(BTreeMap::new());
    std::thread::scope(|sc| {
        for _ in 0..workers {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= from + n {
                        break;
                    }
                    let r = isolated(entropy::<W>(seed, k), || one_run::<W>(seed, k, profile, |_| false)).expect("run");
                    let sigs: BTreeSet<String> = r.rec.viol.iter().map(|v| v.sig.clone()).collect();
                    out.lock().unwrap().insert(k, (r.rec.log, r.steps.len(), sigs));
                })
                .unwrap();
        }
    });
    for (k, (h, n, s)) in out.into_inner().unwrap() {
        println!("{} {} {:016x} {} {:?}", W::NAME, k, h, n, s);
    }
}

/// Run one world under the profiles of several properties and list every kind of violation met, with
/// the properties it counts for: used to try the machinery against changed code.
pub fn hunt<W: World>(seed: u64, runs: u64, wall: f64, workers: usize, profiles: &[String], known: &[(String, String, String)]) -> i32 {
    let next = AtomicU64::new(0);
    let out: Mutex<BTreeMap<String, (u64, BTreeMap<String, u64>)>> = Mutex::new(BTreeMap::new());
    let t0 = Instant::now();
    let fresh = |v: &Viol| !v.props.iter().any(|p| known.iter().any(|(kp, ks, _)| kp == p && *ks == v.sig));
    std::thread::scope(|sc| {
        for _ in 0..workers {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= runs || t0.elapsed().as_secs_f64() > wall || out.lock().unwrap().values().map(|x| x.0).sum::<u64>() >= 12 {
                        break;
                    }
                    let p = &profiles[(k % profiles.len() as u64) as usize];
                    let r = isolated(entropy::<W>(seed, k), || one_run::<W>(seed, k, p, |rec| rec.viol.iter().any(|v| fresh(v))));
                    let mut o = out.lock().unwrap();
                    match r {
                        Ok(r) => {
                            for v in r.rec.viol.iter().filter(|v| fresh(v)) {
                                let e = o.entry(v.sig.clone()).or_default();
                                e.0 += 1;
                                for p in &v.props {
                                    *e.1.entry(p.clone()).or_insert(0) += 1;
                                }
                            }
                        }
                        Err(_) => o.entry("simulator-panic".into()).or_default().0 += 1,
                    }
                })
                .unwrap();
        }
    });
    let o = out.into_inner().unwrap();
    println!("runs {}", next.load(Ordering::SeqCst).min(runs));
    for (s, (n, p)) in &o {
        println!("hit {n} {s} {}", p.keys().cloned().collect::<Vec<_>>().join(","));
    }
    i32::from(!o.is_empty())
}
