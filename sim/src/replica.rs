//! D01: several nodes execute the same agreed inputs, each in processes of its own with its own
//! clock, randomness, mempool traffic, queries, crashes and restarts; all must agree on everything
//! consensus covers (success, gas, events, data, money movements, complete state) after every input.

use crate::chain::*;
use crate::engine::{Rec, World};
use crate::rng::Rng;
use crate::{ra, v1, v2};
use cosmwasm_std::Binary;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Write;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum CfgW {
    Ra(<ra::Ra as World>::Cfg),
    V1(<v1::V1 as World>::Cfg),
    V2(<v2::V2 as World>::Cfg),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    world: CfgW,
    /// seed of everything that distinguishes the nodes
    plan: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Ra(<ra::Ra as World>::Step),
    V1(<v1::V1 as World>::Step),
    V2(<v2::V2 as World>::Step),
}
enum Any {
    Ra(Box<ra::Ra>),
    V1(Box<v1::V1>),
    V2(Box<v2::V2>),
}
pub struct Replicas {
    plan: u64,
    name: &'static str,
    time0: u64,
    inner: Any,
}

#[derive(Serialize, Deserialize)]
struct Job {
    time0: u64,
    inputs: Vec<Input>,
    /// start from this disk, about to execute this input
    start: Option<(usize, Disk)>,
    entropy: u64,
    /// seed of mempool checks and queries between the inputs; 0: none
    noise: u64,
    /// (input, operations into it): the node crashes there and restarts
    crashes: Vec<(usize, u64)>,
    /// same, but the process ends
    last_crash: Option<(usize, u64)>,
    show: Option<usize>,
}
#[derive(Serialize, Deserialize, Default)]
struct Report {
    done: Vec<(usize, u64)>,
    resume: Option<(usize, Disk)>,
    counts: BTreeMap<String, u64>,
    shown: String,
}

fn probe(c: &Chain, r: &mut Rng) {
    let v = c.contracts();
    let (a, code) = r.pick(&v).clone();
    let q = match code {
        Code::V1 => ["{\"params\":{}}", "{\"collections\":{\"start_after\":null,\"limit\":null}}", "{\"sudo_params\":{}}"][r.idx(3)],
        Code::Ra => ["{\"config\":{}}", "{\"halt_manager\":{}}", "{\"auctions_by_end_time\":{\"end_time\":0}}"][r.idx(3)],
        Code::V2 => "{\"config\":{}}",
        Code::Nft => ["{\"collection_info\":{}}", "{\"all_tokens\":{}}"][r.idx(2)],
        _ => return,
    };
    let _ = c.query_raw(&a, &Binary::from(q.as_bytes()));
}

fn bump(m: &mut BTreeMap<String, u64>, k: &str) {
    *m.entry(k.into()).or_insert(0) += 1;
}

/// One life of a node, from a disk to the next crash (or the end).
fn life(job: &Job, from: usize, disk: Option<Disk>, entropy: u64, crash: Option<(usize, u64)>) -> Report {
    crate::seam::enter(entropy);
    let c = match &disk {
        Some(d) => Chain::restore(d),
        None => Chain::new(job.time0),
    };
    let mut r = Rng::new(job.noise ^ entropy);
    let mut rep = Report::default();
    let mut committed = (from, disk);
    for i in from..job.inputs.len() {
        let x = &job.inputs[i];
        if matches!(x, Input::Block { .. }) && crash.is_some() {
            committed = (i, Some(c.disk()));
        }
        if job.noise != 0 {
            while r.pct(30) {
                let j = if r.pct(50) { i } else { (i + r.idx(8)).min(job.inputs.len() - 1) };
                if let Input::Tx { sender, addr, msg, funds, .. } = &job.inputs[j] {
                    c.simulate(sender, addr, msg, funds);
                    bump(&mut rep.counts, "mempool_check_interleaved");
                }
            }
            if !c.contracts().is_empty() && r.pct(20) {
                probe(&c, &mut r);
                bump(&mut rep.counts, "query_interleaved");
            }
        }
        if let Some((at, ops)) = crash {
            if at == i {
                let mid = c.crash_in(x, ops);
                bump(&mut rep.counts, if mid { "node_crash_inside_transaction" } else { "node_crash_between_transactions" });
                // inputs before the last block boundary are durable, later ones are executed again
                rep.resume = Some(match committed.1 {
                    Some(d) => (committed.0, d),
                    None => (0, Chain::new(job.time0).disk()),
                });
                return rep;
            }
        }
        let out = c.feed(x);
        let mut h = FNV0;
        fnv(&mut h, out.as_bytes());
        fnv(&mut h, &c.state_hash().to_le_bytes());
        rep.done.push((i, h));
        if job.show == Some(i) {
            rep.shown = format!("{out} state={:016x}", c.state_hash());
        }
    }
    rep
}

/// Entry point of a replica process.
pub fn process() -> i32 {
    let mut s = String::new();
    if std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).is_err() {
        return 3;
    }
    let job: Job = match serde_json::from_str(&s) {
        Ok(j) => j,
        Err(e) => {
            eprintln!("bad job: {e}");
            return 3;
        }
    };
    let mut all = Report::default();
    let (mut from, mut disk) = match &job.start {
        Some((n, d)) => (*n, Some(d.clone())),
        None => (0, None),
    };
    let mut lives: Vec<Option<(usize, u64)>> = job.crashes.iter().map(|c| Some(*c)).collect();
    lives.push(job.last_crash);
    for (n, crash) in lives.into_iter().enumerate() {
        let d = disk.take();
        let jr = &job;
        let rep = std::thread::scope(|sc| {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || life(jr, from, d, jr.entropy.wrapping_add(n as u64), crash)).unwrap().join()
        });
        let rep = match rep {
            Ok(r) => r,
            Err(_) => return 3,
        };
        all.done.extend(rep.done);
        for (k, v) in rep.counts {
            *all.counts.entry(k).or_insert(0) += v;
        }
        if !rep.shown.is_empty() {
            all.shown = rep.shown;
        }
        match rep.resume {
            Some((f, d)) => {
                from = f;
                if crash == job.last_crash {
                    all.resume = Some((f, d));
                    break;
                }
                disk = Some(d);
            }
            None => break,
        }
    }
    println!("{}", serde_json::to_string(&all).unwrap());
    0
}

fn spawn(job: &Job, env: u64) -> Result<Report, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut p = std::process::Command::new(exe)
        .arg("replica")
        .env("TZ", ["UTC", "Asia/Tokyo", "America/New_York"][(env % 3) as usize])
        .env("HOSTNAME", format!("node-{env}"))
        .env("LANG", ["C", "de_DE.UTF-8"][(env % 2) as usize])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    let text = serde_json::to_string(job).unwrap();
    let mut si = p.stdin.take().unwrap();
    si.write_all(text.as_bytes()).map_err(|e| e.to_string())?;
    drop(si);
    let o = p.wait_with_output().map_err(|e| e.to_string())?;
    serde_json::from_slice(&o.stdout).map_err(|e| format!("replica process: {e}"))
}

impl Any {
    fn chain(&self) -> &Chain {
        match self {
            Any::Ra(w) => w.chain(),
            Any::V1(w) => w.chain(),
            Any::V2(w) => w.chain(),
        }
    }
}

/// What the input asks for, without its parameters (the same for every run that shows one defect).
fn kind(x: &Input) -> String {
    match x {
        Input::Tx { msg, .. } | Input::Sudo { msg, .. } | Input::Migrate { msg, .. } | Input::Instantiate { msg, .. } => {
            let v: serde_json::Value = serde_json::from_slice(msg).unwrap_or_default();
            v.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_else(|| "message".into())
        }
        Input::Block { .. } => "block".into(),
        _ => "environment".into(),
    }
}

impl World for Replicas {
    const NAME: &'static str = "replicas";
    const FAULTS: &'static [&'static str] = &[
        "node_process_restarted_from_disk",
        "clock_and_entropy_skew",
        "node_crash_between_transactions",
        "node_crash_inside_transaction",
        "query_interleaved",
        "mempool_check_interleaved",
    ];
    const ID: u64 = 4;
    type Cfg = Cfg;
    type Step = Step;

    fn gen_cfg(r: &mut Rng, profile: &str) -> Cfg {
        let world = match r.below(3) {
            0 => CfgW::Ra(ra::Ra::gen_cfg(r, profile)),
            1 => CfgW::V1(v1::V1::gen_cfg(r, profile)),
            _ => CfgW::V2(v2::V2::gen_cfg(r, profile)),
        };
        Cfg { world, plan: r.next() }
    }
    fn new(cfg: &Cfg) -> Self {
        Chain::record(true);
        let (name, inner) = match &cfg.world {
            CfgW::Ra(c) => ("ra", Any::Ra(Box::new(ra::Ra::new(c)))),
            CfgW::V1(c) => ("v1", Any::V1(Box::new(v1::V1::new(c)))),
            CfgW::V2(c) => ("v2", Any::V2(Box::new(v2::V2::new(c)))),
        };
        Chain::record(false);
        Replicas { plan: cfg.plan, name, time0: inner.chain().genesis_ns(), inner }
    }
    fn steps(cfg: &Cfg, r: &mut Rng) -> usize {
        match &cfg.world {
            CfgW::Ra(c) => ra::Ra::steps(c, r),
            CfgW::V1(c) => v1::V1::steps(c, r),
            CfgW::V2(c) => v2::V2::steps(c, r),
        }
    }
    fn gen(&mut self, r: &mut Rng) -> Step {
        match &mut self.inner {
            Any::Ra(w) => Step::Ra(w.gen(r)),
            Any::V1(w) => Step::V1(w.gen(r)),
            Any::V2(w) => Step::V2(w.gen(r)),
        }
    }
    fn apply(&mut self, s: &Step, rec: &mut Rec) {
        match (&mut self.inner, s) {
            (Any::Ra(w), Step::Ra(s)) => w.apply(s, rec),
            (Any::V1(w), Step::V1(s)) => w.apply(s, rec),
            (Any::V2(w), Step::V2(s)) => w.apply(s, rec),
            _ => {}
        }
        // what the single-node oracles think is the business of the other properties
        rec.viol.clear();
    }
    fn finish(&mut self, rec: &mut Rec) {
        let inputs = self.inner.chain().inputs();
        let n = inputs.len();
        let mut r = Rng::new(self.plan);
        let first = inputs.iter().position(|x| matches!(x, Input::Block { .. })).unwrap_or(n);
        let place = |r: &mut Rng| {
            let deep = if r.pct(50) { 12 } else { 80 };
            (if first < n { first + r.idx(n - first) } else { r.idx(n) }, 1 + r.below(deep))
        };
        let base = |inputs: &[Input]| Job { time0: self.time0, inputs: inputs.to_vec(), start: None, entropy: 0, noise: 0, crashes: vec![], last_crash: None, show: None };
        // node A: nothing unusual ever happens to it
        let mut a = base(&inputs);
        a.entropy = r.next();
        // node B: mempool, queries, crashes and restarts
        let mut b = base(&inputs);
        b.entropy = r.next();
        b.noise = r.next() | 1;
        let mut cr: Vec<(usize, u64)> = (0..r.below(3)).map(|_| place(&mut r)).collect();
        cr.sort();
        cr.dedup_by_key(|c| c.0);
        let lc = place(&mut r);
        cr.retain(|c| c.0 < lc.0);
        b.crashes = cr;
        b.last_crash = Some(lc);
        let b2 = (r.next(), r.next() | 1);
        let ra = match spawn(&a, 0) {
            Ok(x) => x,
            Err(e) => panic!("{e}"),
        };
        let rb = match spawn(&b, 1 + self.plan % 97) {
            Ok(x) => x,
            Err(e) => panic!("{e}"),
        };
        let mut jobs = vec![(b, rb)];
        if let Some((from, disk)) = jobs[0].1.resume.take() {
            let mut c = base(&inputs);
            c.start = Some((from, disk));
            c.entropy = b2.0;
            c.noise = b2.1;
            rec.fault("node_process_restarted_from_disk");
            match spawn(&c, 1 + self.plan % 89) {
                Ok(x) => jobs.push((c, x)),
                Err(e) => panic!("{e}"),
            }
        }
        rec.fault("clock_and_entropy_skew");
        let want: BTreeMap<usize, u64> = ra.done.iter().copied().collect();
        let mut seen = vec![false; n];
        for (_, rep) in &jobs {
            for (k, v) in &rep.counts {
                for _ in 0..*v {
                    rec.fault(k);
                }
            }
            for (i, _) in &rep.done {
                if std::mem::replace(&mut seen[*i], true) {
                    rec.stat("inputs_executed_again_after_crash");
                }
            }
        }
        rec.stat(&format!("histories_{}", self.name));
        for (i, h) in &ra.done {
            rec.log(&format!("{i} {h:016x}"));
            rec.stat("inputs_compared");
        }
        let bad = jobs.iter().enumerate().find_map(|(j, (_, rep))| rep.done.iter().find(|(i, h)| want.get(i) != Some(h)).map(|(i, _)| (j, *i)));
        if let Some((j, i)) = bad {
            let show = |job: &mut Job, env| {
                job.show = Some(i);
                spawn(job, env).map(|r| r.shown).unwrap_or_default()
            };
            let sa = show(&mut a, 0);
            let sb = show(&mut jobs[j].0, 5);
            let at = sa.bytes().zip(sb.bytes()).position(|(x, y)| x != y).unwrap_or(0).saturating_sub(60);
            let cut = |s: &str| s.chars().skip(at).take(200).collect::<String>();
            rec.violate(&["D01"], format!("replicas:{}:{}", self.name, kind(&inputs[i])), format!("two nodes disagree after input {i} ({}): [{}] against [{}]", kind(&inputs[i]), cut(&sa), cut(&sb)));
        } else if (0..n).any(|i| !seen[i]) || want.len() != n {
            rec.violate(&["D01"], format!("replicas:{}:incomplete", self.name), "a node did not execute every input".to_string());
        }
    }
    fn shrink(s: &Step) -> Vec<Step> {
        match s {
            Step::Ra(s) => ra::Ra::shrink(s).into_iter().map(Step::Ra).collect(),
            Step::V1(s) => v1::V1::shrink(s).into_iter().map(Step::V1).collect(),
            Step::V2(s) => v2::V2::shrink(s).into_iter().map(Step::V2).collect(),
        }
    }
    fn chain(&self) -> &Chain {
        self.inner.chain()
    }
}
