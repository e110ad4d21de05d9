//! The reserve-auction world: auctions, bidders, chain halts, end-of-block settlement.

use crate::chain::*;
use crate::common::*;
use crate::engine::{Rec, World};
use crate::rng::Rng;
use cosmwasm_std::Coin;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub type Key = (u8, u8);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub users: u8,
    pub colls: u8,
    pub tokens: u8,
    pub start_ns: u64,
    pub trading_fee: u128,
    pub min_inc: u128,
    pub min_dur: u64,
    pub max_dur: u64,
    pub extend: u64,
    pub fee: (u8, u128),
    pub limit: u64,
    pub halt_threshold: u64,
    pub halt_buffer: u64,
    pub halt_postpone: u64,
    pub mins: Vec<(u8, u128)>,
    pub royalty: Vec<Option<(u8, u128)>>,
    pub prices: Vec<u128>,
    // workload mix and fault rates (swarm)
    pub w: Vec<u64>,
    pub fault_pm: u64,
    pub loss: u64,
    pub dup: u64,
    pub delay: u64,
    pub poison: bool,
    /// picks a second instantiation to try; 0 for none
    #[serde(default)]
    pub birth: u64,
    /// seed of a book filled before the history starts; 0 for an empty one
    #[serde(default)]
    pub crowd: u64,
    pub zero_fee: bool,
    pub reenter: bool,
    pub subsec: bool,
    pub query_pm: u64,
    pub sim_pm: u64,
    pub nsteps: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Block { dt: u64, end_fault: Fault },
    Create { who: u8, k: Key, denom: u8, reserve: u128, dur: u64, recip: Option<u8>, funds: Funds, approve: bool },
    Update { who: u8, k: Key, denom: u8, reserve: u128, funds: Funds },
    Cancel { who: u8, k: Key, funds: Funds },
    Bid { who: u8, k: Key, funds: Funds },
    Settle { who: u8, k: Key, funds: Funds },
    Params(Params),
    SetMin(Vec<(u8, u128)>),
    UnsetMin(Vec<u8>),
    Nft { who: u8, k: Key, act: NftAct },
    Env { c: u8, ch: EnvCh },
    /// from the same version, or from an older one
    Migrate { older: bool },
    /// a user tries to use a governance message as a transaction
    Fake { who: u8, n: u8 },
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Params {
    pub fair_burn: Option<u8>,
    pub trading_fee: Option<u128>,
    pub min_inc: Option<u128>,
    pub min_dur: Option<u64>,
    pub extend: Option<u64>,
    pub fee: Option<(u8, u128)>,
    pub limit: Option<u64>,
    pub halt_threshold: Option<u64>,
    pub halt_buffer: Option<u64>,
    pub halt_postpone: Option<u64>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    pub op: Op,
    #[serde(default)]
    pub fault: Fault,
    #[serde(default)]
    pub net: u8,
    #[serde(default)]
    pub simulate: bool,
}

#[derive(Clone, Debug, PartialEq)]
struct Auc {
    seller: String,
    denom: String,
    reserve: u128,
    dur: u64,
    end: Option<u64>,
    recip: Option<String>,
    high: Option<(String, u128, String)>,
    first: Option<u64>,
}
impl Auc {
    fn sec(&self) -> u64 {
        self.end.map_or(u64::MAX, |e| e / SEC)
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct RCoin {
    denom: String,
    amount: String,
}

#[derive(Clone, Debug, PartialEq)]
struct Conf {
    fair_burn: String,
    trading_fee: u128,
    min_inc: u128,
    min_dur: u64,
    max_dur: u64,
    extend: u64,
    fee: (String, u128),
    limit: u64,
    threshold: u64,
    buffer: u64,
    postpone: u64,
}

#[derive(Clone, Debug)]
struct Obs {
    now: u64,
    conf: Conf,
    mins: BTreeMap<String, u128>,
    prev: u64,
    windows: Vec<(u64, u64)>,
    auc: BTreeMap<Key, Auc>,
    owner: BTreeMap<Key, Option<String>>,
    bank: Bank,
    version: String,
}

/// What somebody who reads nothing but events knows (they do not tell the duration).
#[derive(Clone, Debug, PartialEq)]
struct Follower {
    conf: Conf,
    mins: BTreeMap<String, u128>,
    auc: BTreeMap<Key, Auc>,
}

pub struct Ra {
    pub cfg: Cfg,
    born: Born,
    follower: Option<Follower>,
    chain: Chain,
    all_windows: Vec<(u64, u64)>,
    net: Net<Op>,
    supply0: BTreeMap<String, u128>,
    cur: Option<Obs>,
    memo: std::cell::RefCell<Memo<Obs>>,
    pending_net: Vec<(Op, u8)>,
}

fn market() -> String {
    contract("auction")
}
fn coll(c: u8) -> String {
    contract(["kong", "apes", "punk"][c as usize % 3])
}
fn tok(t: u8) -> String {
    // token ids whose text order is not numeric order
    match ["7", "10", "Kitty", "kitty ", "1/0"].get(t as usize) {
        Some(x) => x.to_string(),
        None => (t as u32 * 37).to_string(),
    }
}
fn fb(i: u8) -> String {
    contract(["fairburn", "burnfair"][i as usize % 2])
}

fn str_u(v: &Value) -> u128 {
    v.as_str().and_then(|s| s.parse().ok()).unwrap_or(0)
}

impl Ra {
    fn parse_auc(v: &Value) -> Auc {
        Auc {
            seller: v["seller"].as_str().unwrap_or("").into(),
            denom: v["reserve_price"]["denom"].as_str().unwrap_or("").into(),
            reserve: str_u(&v["reserve_price"]["amount"]),
            dur: v["duration"].as_u64().unwrap_or(0),
            end: v["end_time"].as_str().and_then(|s| s.parse().ok()),
            recip: v["seller_funds_recipient"].as_str().map(|s| s.to_string()),
            high: if v["high_bid"].is_null() {
                None
            } else {
                Some((
                    v["high_bid"]["bidder"].as_str().unwrap_or("").into(),
                    str_u(&v["high_bid"]["coin"]["amount"]),
                    v["high_bid"]["coin"]["denom"].as_str().unwrap_or("").into(),
                ))
            },
            first: v["first_bid_time"].as_str().and_then(|s| s.parse().ok()),
        }
    }

    fn q(&self, m: Value) -> Result<Value, String> {
        self.chain.query(&market(), &m)
    }

    /// Everything the queries, balances and NFT owners say. Asked anew when anything stored anywhere has
    /// changed, and now and then when nothing has.
    fn observe(&self) -> Result<Obs, String> {
        let h = self.chain.content_hash();
        if let Some(mut o) = self.memo.borrow_mut().get(h) {
            o.now = self.chain.now();
            return Ok(o);
        }
        let o = self.observe_all()?;
        self.memo.borrow_mut().set(h, &o);
        Ok(o)
    }

    fn parse_conf(c: &Value) -> Conf {
        Conf {
            fair_burn: c["fair_burn"].as_str().unwrap_or("").into(),
            trading_fee: dec(c["trading_fee_percent"].as_str().unwrap_or("0")),
            min_inc: dec(c["min_bid_increment_percent"].as_str().unwrap_or("0")),
            min_dur: c["min_duration"].as_u64().unwrap_or(0),
            max_dur: c["max_duration"].as_u64().unwrap_or(0),
            extend: c["extend_duration"].as_u64().unwrap_or(0),
            fee: (c["create_auction_fee"]["denom"].as_str().unwrap_or("").into(), str_u(&c["create_auction_fee"]["amount"])),
            limit: c["max_auctions_to_settle_per_block"].as_u64().unwrap_or(0),
            threshold: c["halt_duration_threshold"].as_u64().unwrap_or(0),
            buffer: c["halt_buffer_duration"].as_u64().unwrap_or(0),
            postpone: c["halt_postpone_duration"].as_u64().unwrap_or(0),
        }
    }

    fn observe_all(&self) -> Result<Obs, String> {
        let c = self.q(json!({"config": {}}))?;
        let conf = Self::parse_conf(&c);
        let m = self.q(json!({"min_reserve_prices": {"query_options": {"limit": 100}}}))?;
        let mut mins = BTreeMap::new();
        for x in m.as_array().cloned().unwrap_or_default() {
            mins.insert(x["denom"].as_str().unwrap_or("").to_string(), str_u(&x["amount"]));
        }
        let h = self.q(json!({"halt_manager": {}}))?;
        let windows = h["halt_windows"]
            .as_array()
            .cloned()
            .unwrap_or_default()
            .iter()
            .map(|w| (w["start_time"].as_u64().unwrap_or(0), w["end_time"].as_u64().unwrap_or(0)))
            .collect();
        let mut auc = BTreeMap::new();
        let mut owner = BTreeMap::new();
        for c in 0..self.cfg.colls {
            for t in 0..self.cfg.tokens {
                let a = self.q(json!({"auction": {"collection": coll(c), "token_id": tok(t)}}))?;
                if !a.is_null() {
                    auc.insert((c, t), Self::parse_auc(&a));
                }
                owner.insert((c, t), self.chain.nft_owner(&coll(c), &tok(t)));
            }
        }
        Ok(Obs {
            now: self.chain.now(),
            conf,
            mins,
            prev: h["prev_block_time"].as_u64().unwrap_or(0),
            windows,
            auc,
            owner,
            version: self.chain.kv(&market()).get("contract_info".as_bytes()).map(|v| String::from_utf8_lossy(v).to_string()).unwrap_or_default(), bank: bank_of(&self.chain),
        })
    }

    fn env(&self, c: u8) -> NftEnv {
        self.chain.inner.borrow().nft_env[&coll(c)].clone()
    }

    fn in_halt(&self, sec: u64) -> bool {
        self.all_windows.iter().any(|(s, e)| sec > *s && sec < *e)
    }

    /// Model of settling one auction. Ok(true) postponed, Ok(false) sold.
    fn settle(&self, o: &mut Obs, k: Key) -> Result<bool, &'static str> {
        let a = match o.auc.get(&k) {
            Some(a) => a.clone(),
            None => return Err("no auction"),
        };
        match a.end {
            Some(e) if e <= o.now => {}
            _ => return Err("not ended"),
        }
        if self.in_halt(a.sec()) {
            let e = o.now + o.conf.postpone * SEC;
            o.auc.get_mut(&k).unwrap().end = Some(e);
            return Ok(true);
        }
        let env = self.env(k.0);
        if env.info_fail {
            return Err("collection info unavailable");
        }
        let (bidder, amt, denom) = a.high.clone().ok_or("no high bid")?;
        let fee = mul_ceil(amt, o.conf.trading_fee).ok_or("overflow")?;
        let mut royalty = 0;
        let mut payee = String::new();
        if let Some((p, s)) = &env.royalty {
            if !p.starts_with("stars1") {
                return Err("royalty payee invalid");
            }
            royalty = mul_ceil(amt, dec(s)).ok_or("overflow")?;
            payee = p.clone();
        }
        if fee + royalty > amt {
            return Err("fees exceed bid");
        }
        if env.transfer_fail || env.transfer_panic {
            return Err("collection refuses transfer");
        }
        if fee == 0 {
            return Err("zero trading fee");
        }
        let m = market();
        mv(&mut o.bank, &m, NET, &denom, fee);
        mv(&mut o.bank, &m, &payee, &denom, royalty);
        let to = a.recip.clone().unwrap_or(a.seller.clone());
        mv(&mut o.bank, &m, &to, &denom, amt - fee - royalty);
        o.owner.insert(k, Some(bidder));
        o.auc.remove(&k);
        Ok(false)
    }

    fn compare(&self, exp: &Obs, got: &Obs, props: &[&str], what: &str, rec: &mut Rec) {
        let with = |extra: &[&'static str]| -> Vec<String> {
            let mut v: Vec<String> = props.iter().map(|s| s.to_string()).collect();
            for e in extra {
                if !v.iter().any(|x| x == e) {
                    v.push(e.to_string());
                }
            }
            v
        };
        let mut out: Vec<(Vec<String>, String, String)> = vec![];
        let bd = bank_diff(&exp.bank, &got.bank);
        if !bd.is_empty() {
            let txt: Vec<String> = bd.iter().map(|(a, d, x)| format!("{}: {:+}{}", nick(a), x, d)).collect();
            out.push((with(&["R01"]), "balances".into(), format!("balances off by {}", txt.join(", "))));
        }
        if exp.owner != got.owner {
            let txt: Vec<String> = exp
                .owner
                .iter()
                .filter(|(k, v)| got.owner[*k] != **v)
                .map(|(k, v)| format!("{k:?}: expected {:?}, is {:?}", v.as_ref().map(|a| nick(a)), got.owner[k].as_ref().map(|a| nick(a))))
                .collect();
            out.push((with(&["R01"]), "owner".into(), format!("NFT owner {}", txt.join(", "))));
        }
        let keys: BTreeSet<Key> = exp.auc.keys().chain(got.auc.keys()).copied().collect();
        for k in keys {
            match (exp.auc.get(&k), got.auc.get(&k)) {
                (Some(e), Some(g)) if e != g => {
                    if e.end != g.end || e.first != g.first {
                        out.push((with(&["R03"]), "end-time".into(), format!("auction {k:?}: expected end {:?} first bid {:?}, got end {:?} first bid {:?} (now {})", e.end, e.first, g.end, g.first, got.now)));
                    }
                    if e.high != g.high {
                        out.push((with(&["R02", "R01", "R04"]), "high-bid".into(), format!("auction {k:?}: expected high bid {:?}, got {:?}", e.high, g.high)));
                    }
                    if e.reserve != g.reserve || e.denom != g.denom || e.dur != g.dur || e.seller != g.seller || e.recip != g.recip {
                        out.push((with(if e.seller != g.seller || e.recip != g.recip { &["R05", "R08", "R04"] } else { &["R05", "R08"] }), "terms".into(), format!("auction {k:?}: expected {e:?}, got {g:?}")));
                    }
                }
                (Some(e), None) => out.push((with(&["R01"]), "gone".into(), format!("auction {k:?} disappeared: {e:?}"))),
                (None, Some(g)) => out.push((with(&["R01"]), "left".into(), format!("auction {k:?} should not exist: {g:?}"))),
                _ => {}
            }
        }
        if exp.conf != got.conf {
            out.push((with(&["R08"]), "config".into(), format!("configuration expected {:?}, got {:?}", exp.conf, got.conf)));
        }
        if exp.version != got.version {
            out.push((with(&["R08"]), "version".into(), format!("stored version expected {}, is {}", exp.version, got.version)));
        }
        if exp.mins != got.mins {
            out.push((with(&["R08"]), "mins".into(), format!("minimum prices expected {:?}, got {:?}", exp.mins, got.mins)));
        }
        if exp.prev != got.prev {
            out.push((with(&["R06"]), "prev-block".into(), format!("previous block time expected {}, got {}", exp.prev, got.prev)));
        }
        if exp.windows != got.windows {
            out.push((with(&["R06"]), "windows".into(), format!("halt windows expected {:?}, got {:?} (now {})", exp.windows, got.windows, got.now / SEC)));
        }
        for (p, s, d) in out {
            let pr: Vec<&str> = p.iter().map(|s| s.as_str()).collect();
            rec.violate(&pr, format!("ra:{what}:{s}"), d);
        }
    }

    fn invariants(&self, o: &Obs, rec: &mut Rec) {
        let m = market();
        let mut need: BTreeMap<String, u128> = BTreeMap::new();
        for a in o.auc.values() {
            if let Some((_, x, d)) = &a.high {
                *need.entry(d.clone()).or_insert(0) += x;
            }
        }
        for d in DENOMS {
            let b = bal(&o.bank, &m, d);
            let n = need.get(d).copied().unwrap_or(0);
            if b != n {
                rec.violate(&["R01"], "ra:inv:escrow", format!("contract holds {b}{d}, open high bids sum to {n}{d}"));
            }
        }
        for (k, ow) in &o.owner {
            let live = o.auc.contains_key(k);
            let held = ow.as_deref() == Some(m.as_str());
            if live != held {
                rec.violate(&["R01"], "ra:inv:custody", format!("token {k:?}: live auction {live}, held by contract {held}"));
            }
        }
        for (k, a) in &o.auc {
            if a.high.is_some() != a.end.is_some() || a.high.is_some() != a.first.is_some() {
                rec.violate(&["R03", "R02"], "ra:inv:shape", format!("auction {k:?}: {a:?}"));
            }
            if let Some((b, x, d)) = &a.high {
                if *x < a.reserve || *d != a.denom || *b == a.seller {
                    rec.violate(&["R02"], "ra:inv:highbid", format!("auction {k:?}: {a:?}"));
                }
            }
        }
        if supply(&o.bank) != self.supply0 {
            rec.violate(&["R01"], "ra:inv:supply", "coins were created or destroyed".to_string());
        }
    }

    /// A page that starts next to an entry which is gone, or never was, starts at the next one that is there.
    fn check_pages(&self, o: &Obs, mut x: u64, rec: &mut Rec) {
        let mut next = |n: u64| crate::rng::splitmix(&mut x) % n;
        let desc = next(2) == 1;
        let n = [0usize, 1, 2, 50, 100][next(5) as usize];
        let at = (coll(next(3) as u8), tok(next(6) as u8));
        let side = |o: std::cmp::Ordering| o == if desc { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater };
        let options = |sa: Value| json!({"descending": desc, "limit": n, "start_after": sa});
        let page = |rec: &mut Rec, sig: &str, q: Value, mut exp: Vec<Value>, f: &dyn Fn(&Value) -> Value| {
            if desc {
                exp.reverse();
            }
            match self.q(q.clone()) {
                Ok(r) => {
                    let got: Vec<Value> = r.as_array().map_or(vec![], |v| v.iter().map(f).collect());
                    if got.iter().ne(exp.iter().take(n.min(100))) {
                        rec.violate(&["R08"], sig, format!("{q}: expected {exp:?}, got {got:?}"));
                    }
                }
                Err(e) => rec.violate(&["R08"], format!("{sig}:error"), e),
            }
        };
        let name = |k: &Key| (coll(k.0), tok(k.1));
        let who = acct(next(self.cfg.users as u64) as u8);
        let mut mine: Vec<(String, String)> = o.auc.iter().filter(|(_, a)| a.seller == who).map(|(k, _)| name(k)).filter(|k| side(k.cmp(&at))).collect();
        mine.sort();
        let key = |x: &Value| json!([x["collection"], x["token_id"]]);
        let cursor = json!({"collection": at.0, "token_id": at.1});
        page(rec, "ra:query:seller:page-from", json!({"auctions_by_seller": {"seller": who, "query_options": options(cursor.clone())}}), mine.iter().map(|k| json!([k.0, k.1])).collect(), &key);
        let mut all: Vec<(u64, (String, String))> = o.auc.iter().map(|(k, a)| (a.sec(), name(k))).filter(|(s, _)| *s != u64::MAX).collect();
        all.sort();
        let end = if all.is_empty() { o.now / SEC } else { all[next(all.len() as u64) as usize].0 };
        let end = [end, end, end + 1, end - 1][next(4) as usize];
        let all: Vec<Value> = all.into_iter().filter(|e| side(e.cmp(&(end, at.clone())))).map(|e| json!([e.1 .0, e.1 .1])).collect();
        page(rec, "ra:query:end:page-from", json!({"auctions_by_end_time": {"end_time": end, "query_options": options(cursor)}}), all, &key);
        let d = [denom(next(4) as u8).to_string(), "a".into(), "v".into()][next(3) as usize].clone();
        let mins: Vec<Value> = o.mins.iter().filter(|(x, _)| side((*x).cmp(&d))).map(|(d, a)| json!([d, a.to_string()])).collect();
        page(rec, "ra:query:mins:page-from", json!({"min_reserve_prices": {"query_options": options(json!({"denom": d}))}}), mins, &|x| json!([x["denom"], x["amount"]]));
    }

    fn check_queries(&self, o: &Obs, seedy: u64, rec: &mut Rec) {
        rec.stat("query_sweeps");
        self.check_pages(o, seedy, rec);
        let lim = [Some(1u32), Some(2), Some(3), Some(10), Some(100), Some(4_000_000_000), None][(seedy % 7) as usize];
        let desc = (seedy / 7) % 2 == 1;
        // no options at all are the same as options with nothing in them
        let options = |so: &Option<Value>| if so.is_none() && lim.is_none() && !desc { Value::Null } else { json!({"descending": desc, "limit": lim, "start_after": so}) };
        let keyname = |k: &Key| (coll(k.0), tok(k.1));
        let by_name: BTreeMap<(String, String), Key> = o.owner.keys().map(|k| (keyname(k), *k)).collect();
        for u in 0..self.cfg.users {
            let who = acct(u);
            let mut exp: Vec<(String, String)> = o.auc.iter().filter(|(_, a)| a.seller == who).map(|(k, _)| keyname(k)).collect();
            exp.sort();
            if desc {
                exp.reverse();
            }
            let mut got = vec![];
            let mut sa: Option<(String, String)> = None;
            for _ in 0..2000 {
                let so = sa.as_ref().map(|(c, t)| json!({"collection": c, "token_id": t}));
                let r = self.q(json!({"auctions_by_seller": {"seller": who, "query_options": options(&so)}}));
                let r = match r {
                    Ok(r) => r.as_array().cloned().unwrap_or_default(),
                    Err(e) => {
                        rec.violate(&["R08"], "ra:query:seller:error", e);
                        return;
                    }
                };
                let n = r.len();
                for x in r {
                    let nk = (x["collection"].as_str().unwrap_or("").to_string(), x["token_id"].as_str().unwrap_or("").to_string());
                    if let Some(k) = by_name.get(&nk) {
                        if o.auc.get(k) != Some(&Self::parse_auc(&x)) {
                            rec.violate(&["R08"], "ra:query:seller:terms", format!("{nk:?}"));
                        }
                    }
                    sa = Some(nk.clone());
                    got.push(nk);
                }
                if lim.is_some_and(|l| n != (exp.len() + n).saturating_sub(got.len()).min(l.min(100) as usize)) {
                    rec.violate(&["R08"], "ra:query:seller:limit", format!("asked for {lim:?}, got {n}"));
                }
                if n == 0 {
                    break;
                }
            }
            if got != exp {
                rec.violate(&["R08"], "ra:query:seller", format!("desc {desc} limit {lim:?}: expected {exp:?}, got {got:?}"));
            }
        }
        // by end time
        let mut all: Vec<(u64, (String, String))> = o.auc.iter().map(|(k, a)| (a.sec(), keyname(k))).collect();
        all.sort();
        let start = if desc {
            [o.now / SEC + 1, u64::MAX - 1][(seedy / 14 % 2) as usize]
        } else {
            [0, o.now / SEC, all.first().map_or(0, |x| x.0.min(u64::MAX - 1))][(seedy / 14 % 3) as usize]
        };
        let mut exp: Vec<(u64, (String, String))> = all
            .into_iter()
            .filter(|(s, _)| *s != u64::MAX && if desc { *s < start } else { *s >= start })
            .collect();
        if desc {
            exp.reverse();
        }
        let mut got = vec![];
        let mut cur = start;
        let mut sa: Option<(String, String)> = None;
        for _ in 0..2000 {
            let so = sa.as_ref().map(|(c, t)| json!({"collection": c, "token_id": t}));
            let r = match self.q(json!({"auctions_by_end_time": {"end_time": cur, "query_options": options(&so)}})) {
                Ok(r) => r.as_array().cloned().unwrap_or_default(),
                Err(e) => {
                    rec.violate(&["R08"], "ra:query:end:error", e);
                    return;
                }
            };
            let n = r.len();
            for x in r {
                let a = Self::parse_auc(&x);
                let nk = (x["collection"].as_str().unwrap_or("").to_string(), x["token_id"].as_str().unwrap_or("").to_string());
                cur = a.sec();
                sa = Some(nk.clone());
                got.push((a.sec(), nk));
            }
            if lim.is_some_and(|l| n != (exp.len() + n).saturating_sub(got.len()).min(l.min(100) as usize)) {
                rec.violate(&["R08"], "ra:query:end:limit", format!("asked for {lim:?}, got {n}"));
            }
            if n == 0 {
                break;
            }
        }
        if got != exp {
            rec.violate(&["R08"], "ra:query:end", format!("desc {desc} limit {lim:?} from {start}: expected {exp:?}, got {got:?}"));
        }
        // minimum prices, page by page
        let mut exp: Vec<(String, u128)> = o.mins.iter().map(|(d, a)| (d.clone(), *a)).collect();
        if desc {
            exp.reverse();
        }
        let mut got = vec![];
        let mut sa: Option<String> = None;
        for _ in 0..10 {
            let so = sa.as_ref().map(|d| json!({ "denom": d }));
            let r = match self.q(json!({"min_reserve_prices": {"query_options": options(&so)}})) {
                Ok(r) => r.as_array().cloned().unwrap_or_default(),
                Err(e) => {
                    rec.violate(&["R08"], "ra:query:mins:error", e);
                    return;
                }
            };
            let n = r.len();
            for x in r {
                let d = x["denom"].as_str().unwrap_or("").to_string();
                sa = Some(d.clone());
                got.push((d, str_u(&x["amount"])));
            }
            if lim.is_some_and(|l| n != (exp.len() + n).saturating_sub(got.len()).min(l.min(100) as usize)) {
                rec.violate(&["R08"], "ra:query:mins:limit", format!("asked for {lim:?}, got {n}"));
            }
            if n == 0 {
                break;
            }
        }
        if got != exp {
            rec.violate(&["R08"], "ra:query:mins", format!("expected {exp:?}, got {got:?}"));
        }
    }

    fn msg(&self, op: &Op) -> Option<(String, Value, Vec<Coin>)> {
        let name = |k: &Key| (coll(k.0), tok(k.1));
        Some(match op {
            Op::Create { who, k, denom: d, reserve, dur, recip, funds, .. } => (
                acct(*who),
                json!({"create_auction": {"collection": name(k).0, "token_id": name(k).1, "reserve_price": {"denom": denom(*d), "amount": reserve.to_string()}, "duration": dur, "seller_funds_recipient": recip.map(acct)}}),
                coins(funds),
            ),
            Op::Update { who, k, denom: d, reserve, funds } => (
                acct(*who),
                json!({"update_reserve_price": {"collection": name(k).0, "token_id": name(k).1, "reserve_price": {"denom": denom(*d), "amount": reserve.to_string()}}}),
                coins(funds),
            ),
            Op::Cancel { who, k, funds } => (acct(*who), json!({"cancel_auction": {"collection": name(k).0, "token_id": name(k).1}}), coins(funds)),
            Op::Bid { who, k, funds } => (acct(*who), json!({"place_bid": {"collection": name(k).0, "token_id": name(k).1}}), coins(funds)),
            Op::Settle { who, k, funds } => (acct(*who), json!({"settle_auction": {"collection": name(k).0, "token_id": name(k).1}}), coins(funds)),
            Op::Fake { who, n } => (
                acct(*who),
                match n % 4 {
                    0 => json!({"end_block": {}}),
                    1 => json!({"begin_block": {}}),
                    2 => json!({"update_params": {"trading_fee_percent": "0.9"}}),
                    _ => json!({"set_min_reserve_prices": {"min_reserve_prices": [{"denom": "ujunk", "amount": "1"}]}}),
                },
                vec![],
            ),
            _ => return None,
        })
    }

    fn params_json(p: &Params) -> Value {
        json!({"update_params": {
            "fair_burn": p.fair_burn.map(fb),
            "trading_fee_percent": p.trading_fee.map(dec_str),
            "min_bid_increment_percent": p.min_inc.map(dec_str),
            "min_duration": p.min_dur, "extend_duration": p.extend,
            "create_auction_fee": p.fee.map(|(d, a)| json!({"denom": denom(d), "amount": a.to_string()})),
            "max_auctions_to_settle_per_block": p.limit,
            "halt_duration_threshold": p.halt_threshold,
            "halt_buffer_duration": p.halt_buffer,
            "halt_postpone_duration": p.halt_postpone,
        }})
    }

    /// Expected effect of a user message: new state, or the reason it must be refused.
    fn expect(&self, o: &Obs, op: &Op, who: &str, funds: &[Coin]) -> (Result<Obs, &'static str>, Vec<&'static str>, &'static str) {
        let mut n = o.clone();
        let m = market();
        let pay = |n: &mut Obs| pay_in(&mut n.bank, who, &m, funds);
        match op {
            Op::Create { k, denom: d, reserve, dur, recip, .. } => {
                let tags = vec!["R05"];
                let r = (|| {
                    let env = self.env(k.0);
                    let owner = o.owner.get(k).cloned().flatten();
                    if !pay(&mut n) {
                        return Err("insufficient funds");
                    }
                    if env.owner_fail || owner.as_deref() != Some(who) {
                        return Err("not the owner");
                    }
                    if env.approval_fail || !(self.chain.nft_token_approved(&coll(k.0), &tok(k.1), &m)) {
                        return Err("not approved");
                    }
                    if o.auc.contains_key(k) {
                        return Err("auction exists");
                    }
                    if !env.info_fail && env.start_trading_ns.map_or(false, |s| s > o.now) {
                        return Err("not tradable yet");
                    }
                    match o.mins.get(&denom(*d)) {
                        None => return Err("denom not allowed"),
                        Some(x) if reserve < x => return Err("reserve below minimum"),
                        _ => {}
                    }
                    if *dur < o.conf.min_dur || *dur > o.conf.max_dur {
                        return Err("duration out of range");
                    }
                    if o.conf.fee.1 == 0 {
                        if !funds.is_empty() {
                            return Err("payment not accepted");
                        }
                    } else {
                        if !(funds.len() == 1 && funds[0].denom == o.conf.fee.0 && funds[0].amount.u128() == o.conf.fee.1) {
                            return Err("wrong creation fee");
                        }
                        mv(&mut n.bank, &m, NET, &o.conf.fee.0, o.conf.fee.1);
                    }
                    if env.transfer_fail || env.transfer_panic {
                        return Err("collection refuses transfer");
                    }
                    n.owner.insert(*k, Some(m.clone()));
                    n.auc.insert(
                        *k,
                        Auc { seller: who.into(), denom: denom(*d), reserve: *reserve, dur: *dur, end: None, recip: recip.map(acct), high: None, first: None },
                    );
                    Ok(())
                })();
                (r.map(|_| n), tags, "create")
            }
            Op::Update { k, denom: d, reserve, .. } => {
                let r = (|| {
                    if !funds.is_empty() {
                        return Err("payment not accepted");
                    }
                    let a = n.auc.get_mut(k).ok_or("no auction")?;
                    if a.seller != who {
                        return Err("not the seller");
                    }
                    if a.first.is_some() || a.high.is_some() {
                        return Err("already started");
                    }
                    match o.mins.get(&denom(*d)) {
                        None => return Err("denom not allowed"),
                        Some(x) if reserve < x => return Err("reserve below minimum"),
                        _ => {}
                    }
                    a.denom = denom(*d);
                    a.reserve = *reserve;
                    Ok(())
                })();
                (r.map(|_| n), vec!["R05"], "update")
            }
            Op::Cancel { k, .. } => {
                let r = (|| {
                    if !funds.is_empty() {
                        return Err("payment not accepted");
                    }
                    let a = n.auc.get(k).cloned().ok_or("no auction")?;
                    if a.seller != who {
                        return Err("not the seller");
                    }
                    if a.first.is_some() || a.high.is_some() {
                        return Err("already started");
                    }
                    let env = self.env(k.0);
                    if env.transfer_fail || env.transfer_panic {
                        return Err("collection refuses transfer");
                    }
                    n.auc.remove(k);
                    n.owner.insert(*k, Some(a.seller));
                    Ok(())
                })();
                (r.map(|_| n), vec!["R05"], "cancel")
            }
            Op::Bid { k, .. } => {
                let mut tags = vec!["R02"];
                let r = (|| {
                    if !pay(&mut n) {
                        return Err("insufficient funds");
                    }
                    let a = n.auc.get(k).cloned().ok_or("no auction")?;
                    if funds.len() != 1 || funds[0].denom != a.denom {
                        return Err("wrong denomination or amount of coins");
                    }
                    let amt = funds[0].amount.u128();
                    if a.seller == who {
                        return Err("seller must not bid");
                    }
                    let min = match &a.high {
                        Some((_, x, _)) => mul_ceil(*x, E18 + o.conf.min_inc).ok_or("overflow")?,
                        None => a.reserve,
                    };
                    if amt < min {
                        return Err("bid too low");
                    }
                    if a.end.is_some() && a.sec() <= o.now / SEC {
                        tags.push("R03");
                        return Err("auction ended");
                    }
                    let na = n.auc.get_mut(k).unwrap();
                    match &a.high {
                        None => {
                            na.first = Some(o.now);
                            na.end = Some(o.now + a.dur * SEC);
                        }
                        Some((b, x, d)) => {
                            if a.sec() - o.now / SEC < o.conf.extend {
                                na.end = Some(o.now + o.conf.extend * SEC);
                            }
                            let (b, x, d) = (b.clone(), *x, d.clone());
                            mv(&mut n.bank, &m, &b, &d, x);
                        }
                    }
                    n.auc.get_mut(k).unwrap().high = Some((who.into(), amt, a.denom.clone()));
                    Ok(())
                })();
                (r.map(|_| n), tags, "bid")
            }
            Op::Settle { k, .. } => {
                let r = if !funds.is_empty() { Err("payment not accepted") } else { self.settle(&mut n, *k).map(|_| ()) };
                let mut tags = vec!["R04"];
                if let Some(a) = o.auc.get(k) {
                    if self.in_halt(a.sec()) {
                        tags.push("R06");
                    }
                }
                if r == Err("not ended") {
                    tags.push("R03");
                    tags.push("R07");
                }
                (r.map(|_| n), tags, "settle")
            }
            _ => (Err("not a contract message"), vec!["R08"], "fake"),
        }
    }

    fn truth(o: &Obs) -> Follower {
        let auc = o.auc.iter().map(|(k, a)| (*k, Auc { dur: 0, first: None, ..a.clone() })).collect();
        Follower { conf: o.conf.clone(), mins: o.mins.clone(), auc }
    }

    /// Take in one event the way an indexer does.
    fn hear(&self, f: &mut Follower, e: &Emitted) -> Result<(), String> {
        let need = |k: &str| e.get(k).map(|s| s.to_string()).ok_or_else(|| format!("event {} without {k}", e.ty));
        let num = |s: &str| s.parse::<u128>().map_err(|_| format!("event {}: not a number: {s}", e.ty));
        let money = |s: &str| parse_coin(s).ok_or_else(|| format!("event {}: not a coin: {s}", e.ty));
        let key = || -> Result<Key, String> {
            let (c, t) = (need("collection")?, need("token_id")?);
            (0..self.cfg.colls).flat_map(|c| (0..self.cfg.tokens).map(move |t| (c, t))).find(|k| coll(k.0) == c && tok(k.1) == t).ok_or_else(|| format!("event {} for unknown token {c}/{t}", e.ty))
        };
        let end = || -> Result<Option<u64>, String> {
            let s = need("auction_end_time")?;
            parse_time(&s).map(Some).ok_or_else(|| format!("event {}: not a time: {s}", e.ty))
        };
        let gone = |k: Key| format!("event {} for auction {k:?}, which was never announced", e.ty);
        match e.ty.as_str() {
            "create-auction" => {
                let (k, (denom, reserve)) = (key()?, money(&need("reserve_price")?)?);
                let a = Auc { seller: need("seller")?, denom, reserve, dur: 0, end: None, recip: e.get("seller_funds_recipient").map(|s| s.to_string()), high: None, first: None };
                if f.auc.insert(k, a).is_some() {
                    return Err(format!("event create-auction for {k:?}, which has one"));
                }
            }
            "update-reserve-price" => {
                let (k, (denom, reserve)) = (key()?, money(&need("reserve_price")?)?);
                let a = f.auc.get_mut(&k).ok_or_else(|| gone(k))?;
                (a.denom, a.reserve) = (denom, reserve);
            }
            "cancel-auction" => {
                let k = key()?;
                f.auc.remove(&k).ok_or_else(|| gone(k))?;
            }
            "place-bid" => {
                let (k, (denom, amount)) = (key()?, money(&need("bid_amount")?)?);
                let a = f.auc.get_mut(&k).ok_or_else(|| gone(k))?;
                let was = a.high.replace((need("bidder")?, amount, denom));
                a.end = end()?;
                let said = match (e.get("previous_bidder"), e.get("previous_bid_amount").and_then(parse_coin)) {
                    (Some(b), Some((d, x))) => Some((b.to_string(), x, d)),
                    _ => None,
                };
                if said != was || (need("first_bid")? == "true") != was.is_none() || need("seller")? != a.seller {
                    return Err(format!("event place-bid tells of a bid before it {said:?}, it was {was:?}"));
                }
            }
            "postpone-auction" => {
                let k = key()?;
                f.auc.get_mut(&k).ok_or_else(|| gone(k))?.end = end()?;
            }
            "settle-auction" => {
                let k = key()?;
                let a = f.auc.remove(&k).ok_or_else(|| gone(k))?;
                let said = (need("bidder")?, num(&need("bid_amount")?)?, need("bid_denom")?);
                if a.high.as_ref() != Some(&said) || need("seller")? != a.seller {
                    return Err(format!("event settle-auction tells {said:?}, it was {a:?}"));
                }
            }
            "set-min-reserve-price" => {
                f.mins.insert(need("denom")?, num(&need("amount")?)?);
            }
            "unset-min-reserve-price" => {
                f.mins.remove(&need("denom")?);
            }
            "sudo-update-params" => {
                for (k, v) in &e.attrs {
                    let n = || num(v).map(|x| x as u64);
                    let c = &mut f.conf;
                    match k.as_str() {
                        "fair_burn" => c.fair_burn = v.clone(),
                        "trading_fee_percent" => c.trading_fee = dec(v),
                        "min_bid_increment_percent" => c.min_inc = dec(v),
                        "min_duration" => c.min_dur = n()?,
                        "extend_duration" => c.extend = n()?,
                        "create_auction_fee" => c.fee = money(v)?,
                        "max_auctions_to_settle_per_block" => c.limit = n()?,
                        "halt_duration_threshold" => c.threshold = n()?,
                        "halt_buffer_duration" => c.buffer = n()?,
                        "halt_postpone_duration" => c.postpone = n()?,
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }

    /// Whoever follows the events alone must know every auction after every transaction and block.
    fn follow(&mut self, got: &Obs, out: &TxOut, rec: &mut Rec) {
        let truth = Self::truth(got);
        let mut f = match self.follower.take() {
            Some(f) => f,
            None => {
                self.follower = Some(truth);
                return;
            }
        };
        if out.ok {
            for e in &out.emitted {
                if let Err(x) = self.hear(&mut f, e) {
                    rec.violate(&["R09"], "ra:events:untrue", x);
                }
            }
        }
        if f.conf != truth.conf || f.mins != truth.mins {
            rec.violate(&["R09"], "ra:events:config", format!("events say {:?} {:?}, it is {:?} {:?}", f.conf, f.mins, truth.conf, truth.mins));
        }
        if f.auc != truth.auc {
            let d: Vec<String> = f.auc.iter().filter(|(k, v)| truth.auc.get(*k) != Some(v)).map(|x| format!("heard {x:?}")).chain(truth.auc.iter().filter(|(k, v)| f.auc.get(*k) != Some(v)).map(|x| format!("true {x:?}"))).collect();
            rec.violate(&["R09"], "ra:events:auctions", d.join("; "));
        }
        self.follower = Some(truth);
    }

    fn end_block(&mut self, o: Obs, fault: Fault, rec: &mut Rec) -> Obs {
        let m = market();
        let out = self.chain.sudo(&m, &bin(&json!({"end_block": {}})), fault);
        let got = match self.observe() {
            Ok(g) => g,
            Err(e) => {
                rec.violate(&["R08"], "ra:observe", e);
                return o;
            }
        };
        rec.log(&format!("endblock {} {:?}", out.ok, out.transfers));
        self.follow(&got, &out, rec);
        let mut due: Vec<(u64, Key)> = o.auc.iter().filter(|(_, a)| a.end.map_or(false, |e| e <= o.now)).map(|(k, a)| (a.sec(), *k)).collect();
        due.sort_by_key(|(s, k)| (*s, coll(k.0), tok(k.1)));
        let limit = o.conf.limit as usize;
        if out.gas_abort || out.fired_sub.is_some() {
            rec.fault(if out.gas_abort { "endblock_out_of_gas" } else { "endblock_submessage_failure" });
            if out.ok {
                rec.violate(&["R07", "R01", "R04"], "ra:endblock:fault-swallowed", format!("{:?}", out.fired_sub));
            }
            self.compare(&o, &got, &["R07"], "endblock-aborted", rec);
            return got;
        }
        // what could stand in the way of the batch
        let cut = due.get(limit.saturating_sub(1)).map_or(u64::MAX, |x| x.0);
        let mut poison: Option<&'static str> = None;
        let mut n_poison = 0;
        for (s, k) in &due {
            if *s > cut {
                break;
            }
            let mut t = o.clone();
            match self.settle(&mut t, *k) {
                Err(e) => {
                    n_poison += 1;
                    poison.get_or_insert(e);
                }
                // postponed to the time it already has: processing it shows nowhere
                Ok(_) if t.auc.get(k) == o.auc.get(k) => n_poison += 1,
                Ok(_) => {}
            }
        }
        if due.len() > limit {
            rec.stat("endblock_over_limit");
        }
        if !due.is_empty() {
            rec.stat("endblock_with_due");
        }
        let reentrant = due.iter().any(|(_, k)| self.env(k.0).reenter.is_some());
        if reentrant {
            return got;
        }
        if !out.ok {
            match poison {
                Some(p) => {
                    rec.stat("endblock_blocked");
                    rec.violate(&["R07"], format!("ra:endblock:blocked:{p}"), format!("end-block failed ({}) because one auction of the batch cannot be settled", out.err));
                }
                None => rec.violate(&["R07"], "ra:endblock:failed", format!("end-block failed with {} due auctions: {}", due.len(), out.err)),
            }
            self.compare(&o, &got, &["R07"], "endblock-failed", rec);
            return got;
        }
        // which auctions were processed
        let mut done: Vec<Key> = vec![];
        for (k, a) in &o.auc {
            if got.auc.get(k) != Some(a) {
                done.push(*k);
            }
        }
        let want = due.len().min(limit);
        let halted: &[&str] = if self.all_windows.is_empty() { &["R07"] } else { &["R07", "R06"] };
        if done.len() > limit {
            rec.violate(&["R07"], "ra:endblock:over-limit", format!("{} auctions processed, limit {}", done.len(), limit));
        }
        if done.len() + n_poison < want {
            rec.violate(halted, "ra:endblock:too-few", format!("{} of {} due auctions processed, limit {}", done.len(), due.len(), limit));
        }
        let last = done.iter().map(|k| o.auc[k].sec()).max().unwrap_or(0);
        for (s, k) in &due {
            let mut t = o.clone();
            if *s < last && !done.contains(k) && self.settle(&mut t, *k).is_ok() && t.auc.get(k) != o.auc.get(k) {
                rec.violate(&["R07"], "ra:endblock:order", format!("auction {k:?} ended at {s} but one ending at {last} was processed before it"));
            }
        }
        let mut exp = o.clone();
        for k in &done {
            match self.settle(&mut exp, *k) {
                Ok(true) => rec.stat("postponed"),
                Ok(false) => {
                    rec.stat("settled_by_endblock");
                    rec.committed += 1;
                }
                Err(e) => rec.violate(&["R07", "R04", "R03"], "ra:endblock:undue", format!("auction {k:?} processed although: {e}")),
            }
        }
        // halt windows may be forgotten only when nothing can fall inside them any more
        let mut gone = vec![];
        for w in &o.windows {
            if !got.windows.contains(w) {
                gone.push(*w);
                let live = got.auc.iter().find(|(_, a)| a.end.is_some() && a.sec() > w.0 && a.sec() < w.1);
                if o.now / SEC < w.1 {
                    rec.violate(&["R06"], "ra:endblock:window-dropped-early", format!("halt window {w:?} forgotten at {} although it is still open", o.now / SEC));
                } else if let Some((k, a)) = live {
                    rec.violate(&["R06"], "ra:endblock:window-dropped-early", format!("halt window {w:?} forgotten although auction {k:?} ends in it: {a:?}"));
                }
            }
        }
        exp.windows = exp.windows.iter().filter(|w| !gone.contains(w)).cloned().collect();
        if !gone.is_empty() {
            rec.stat("halt_windows_cleared");
        }
        let mut tags = vec!["R07", "R04"];
        if !self.all_windows.is_empty() {
            tags.push("R06");
        }
        self.compare(&exp, &got, &tags, "endblock", rec);
        got
    }

    fn begin_block(&mut self, o: Obs, rec: &mut Rec) -> Obs {
        let out = self.chain.sudo(&market(), &bin(&json!({"begin_block": {}})), Fault::None);
        let mut exp = o.clone();
        exp.now = self.chain.now();
        let sec = exp.now / SEC;
        let mut halt = None;
        if o.prev > 0 && sec - o.prev >= o.conf.threshold {
            let w = (o.prev, sec + o.conf.buffer);
            halt = Some(w);
            exp.windows.push(w);
            self.all_windows.push(w);
            rec.fault("chain_halt");
        }
        exp.prev = sec;
        rec.log(&format!("beginblock {}", out.ok));
        match self.observe() {
            Ok(got) => {
                self.follow(&got, &out, rec);
                let n = |e: &Emitted, k: &str| e.get(k).and_then(|s| s.parse::<u64>().ok());
                let told: Vec<(u64, u64)> = out.emitted.iter().filter_map(|e| Some((n(e, "start_time")?, n(e, "end_time")?))).collect();
                let noticed = out.emitted.iter().filter(|e| e.ty == "halt-detected").count();
                if out.ok && (told != halt.into_iter().collect::<Vec<_>>() || noticed != told.len()) {
                    rec.violate(&["R09"], "ra:events:halt", format!("halt {halt:?}, announced {noticed} times {told:?}"));
                }
                if !out.ok {
                    rec.violate(&["R06", "R07"], "ra:beginblock:failed", out.err.clone());
                }
                self.compare(&exp, &got, &["R06"], "beginblock", rec);
                got
            }
            Err(e) => {
                rec.violate(&["R08"], "ra:observe", e);
                exp
            }
        }
    }

    fn do_block(&mut self, o: Obs, dt: u64, end_fault: Fault, rec: &mut Rec) -> Obs {
        let o = self.end_block(o, end_fault, rec);
        self.chain.next_block(dt);
        rec.sim_ns += dt as u128;
        rec.stat("blocks");
        self.begin_block(o, rec)
    }

    fn sudo_expect(&self, o: &Obs, op: &Op) -> Result<Obs, &'static str> {
        let mut n = o.clone();
        match op {
            Op::Params(p) => {
                if let Some(x) = p.fair_burn {
                    n.conf.fair_burn = fb(x);
                }
                if let Some(x) = p.trading_fee {
                    n.conf.trading_fee = x;
                }
                if let Some(x) = p.min_inc {
                    n.conf.min_inc = x;
                }
                if let Some(x) = p.min_dur {
                    n.conf.min_dur = x;
                }
                if let Some(x) = p.extend {
                    n.conf.extend = x;
                }
                if let Some((d, a)) = p.fee {
                    n.conf.fee = (denom(d), a);
                }
                if let Some(x) = p.limit {
                    n.conf.limit = x;
                }
                if let Some(x) = p.halt_threshold {
                    n.conf.threshold = x;
                }
                if let Some(x) = p.halt_buffer {
                    n.conf.buffer = x;
                }
                if let Some(x) = p.halt_postpone {
                    n.conf.postpone = x;
                }
                if n.conf.min_inc == 0 || n.conf.min_inc >= E18 {
                    return Err("bid increment out of range");
                }
                if n.conf.min_dur == 0 {
                    return Err("minimum duration zero");
                }
                if n.conf.extend == 0 {
                    return Err("extension zero");
                }
                Ok(n)
            }
            Op::SetMin(v) => {
                for (d, a) in v {
                    if n.mins.insert(denom(*d), *a).is_some() {
                        return Err("denom already set");
                    }
                }
                Ok(n)
            }
            Op::UnsetMin(v) => {
                for d in v {
                    if n.mins.remove(&denom(*d)).is_none() {
                        return Err("denom not set");
                    }
                }
                Ok(n)
            }
            _ => Ok(n),
        }
    }

    fn pre(&self, op: &Op) {
        if let Op::Create { who, k, approve: true, .. } = op {
            // now and then only for a while
            let t = self.chain.now() / SEC;
            let act = if t % 6 == 0 { NftAct::ApproveFor(3 + t / 6 % 40) } else { NftAct::Approve };
            nft_act(&self.chain, &acct(*who), &coll(k.0), &tok(k.1), &market(), &act);
        }
    }

    /// Fills the book with orders before the history starts. Nothing is judged here.
    fn fill(&mut self) {
        let mut r = Rng::new(self.cfg.crowd);
        let w = std::mem::replace(&mut self.cfg.w, vec![0, 9, 0, 0, 6, 0, 0, 0, 0, 0]);
        let n = 5 * self.cfg.tokens as usize * self.cfg.colls as usize / 2;
        let mut seen = None;
        for i in 0..n {
            if i % 24 == 0 {
                seen = self.observe().ok();
            }
            let Some(o) = &seen else { break };
            let op = self.gen_op(&mut r, &o.clone());
            self.pre(&op);
            if let Some((from, msg, funds)) = self.msg(&op) {
                self.chain.tx(&from, &market(), &bin(&msg), &funds, Fault::None);
            }
        }
        self.cfg.w = w;
    }

    fn gen_op(&mut self, r: &mut Rng, o: &Obs) -> Op {
        let c = self.cfg.clone();
        let key = |r: &mut Rng| (r.below(c.colls as u64) as u8, r.below(c.tokens as u64) as u8);
        let who = |r: &mut Rng| r.below(c.users as u64) as u8;
        let who_of = |a: &str| (0..c.users).find(|i| acct(*i) == a).unwrap_or(0);
        // somebody other than the owner, often one the owner lets move the token
        let stranger = |r: &mut Rng, k: &Key| {
            let f: Vec<u8> = if r.pct(60) { self.chain.nft_friends(&coll(k.0), &tok(k.1)).iter().filter_map(|a| (0..c.users).find(|i| acct(*i) == *a)).collect() } else { vec![] };
            if f.is_empty() { who(r) } else { *r.pick(&f) }
        };
        let live: Vec<Key> = o.auc.keys().copied().collect();
        let lk = |r: &mut Rng| if live.is_empty() || r.pct(5) { key(r) } else { *r.pick(&live) };
        match r.weighted(&c.w) {
            0 => {
                // block: choose the next time so that boundaries are hit
                let mut dt = match r.below(10) {
                    0..=4 => r.range(1, 8) * SEC,
                    5 => r.range(20, 400) * SEC,
                    6 => c.halt_threshold * SEC,
                    _ => 6 * SEC,
                };
                if r.pct(45) {
                    let ends: Vec<u64> = o.auc.values().filter_map(|a| a.end).filter(|e| *e > o.now).collect();
                    let wins: Vec<u64> = self.all_windows.iter().map(|w| w.1 * SEC).filter(|e| *e > o.now).collect();
                    let pool = if !wins.is_empty() && r.pct(35) { wins } else { ends };
                    if !pool.is_empty() {
                        let e = *r.pick(&pool);
                        let off = *r.pick(&[0i64, -1, 1, -(SEC as i64), SEC as i64, -(o.conf.extend as i64 * SEC as i64), -((o.conf.extend as i64 - 1) * SEC as i64)]);
                        let t = (e as i64 + off).max(o.now as i64 + 1) as u64;
                        dt = t - o.now;
                    }
                }
                if r.pct(6) {
                    dt = o.conf.threshold.saturating_mul(SEC).saturating_add(r.below(3) * SEC).saturating_sub(SEC);
                }
                if c.subsec && r.pct(40) {
                    dt += r.below(SEC);
                }
                if c.subsec && r.pct(8) {
                    dt = 1 + r.below(SEC / 2);
                }
                if c.subsec && r.pct(12) {
                    // between two ends that lie in the same second
                    let ends: Vec<u64> = o.auc.values().filter_map(|a| a.end).filter(|e| *e > o.now).collect();
                    let l: Vec<u64> = ends.iter().copied().filter(|e| ends.iter().any(|f| f > e && f / SEC == e / SEC)).collect();
                    if !l.is_empty() {
                        dt = *r.pick(&l) + r.below(2) - o.now;
                    }
                }
                let dt = dt.clamp(1, 400_000 * SEC);
                Op::Block { dt, end_fault: gen_fault(r, c.fault_pm / 2) }
            }
            1 => {
                let mut k = key(r);
                // prefer tokens that can be listed
                for _ in 0..4 {
                    if o.auc.contains_key(&k) {
                        k = key(r);
                    }
                }
                let mut approve = r.pct(93);
                if r.pct(6) {
                    // the contract's leave to move the token has run out
                    let l: Vec<Key> = o.owner.keys().copied().filter(|k| self.chain.nft_lapsed(&coll(k.0), &tok(k.1), &market())).collect();
                    if !l.is_empty() {
                        k = *r.pick(&l);
                        approve = false;
                    }
                }
                let owner = o.owner.get(&k).cloned().flatten().unwrap_or_default();
                let w = if r.pct(92) { who_of(&owner) } else { stranger(r, &k) };
                let d = if r.pct(93) && !o.mins.is_empty() {
                    let ds: Vec<&String> = o.mins.keys().collect();
                    let x: &String = *r.pick(&ds);
                    DENOMS.iter().position(|y| y == x).unwrap_or(0) as u8
                } else {
                    r.below(4) as u8
                };
                let min = o.mins.get(&denom(d)).copied().unwrap_or(1);
                let reserve = if r.pct(25) { near(r, min) } else { min + gen_price(r, &c.prices) };
                let dur = match r.below(12) {
                    0 => o.conf.min_dur.saturating_sub(1),
                    1 => o.conf.max_dur + 1,
                    2 | 3 => o.conf.max_dur,
                    _ => o.conf.min_dur.max(1) + if r.pct(50) { 0 } else { r.below(30) },
                };
                let fd = DENOMS.iter().position(|y| *y == o.conf.fee.0).unwrap_or(0) as u8;
                let funds = match r.below(15) {
                    0 => vec![(fd, near(r, o.conf.fee.1))],
                    1 => vec![(fd, o.conf.fee.1), (3, 5)],
                    2 => vec![],
                    3 => vec![((fd + 1 + r.below(3) as u8) % 4, o.conf.fee.1)],
                    _ => vec![(fd, o.conf.fee.1)],
                };
                Op::Create { who: w, k, denom: d, reserve, dur, recip: if r.pct(30) { Some(who(r)) } else { None }, funds, approve }
            }
            2 => {
                let k = lk(r);
                let w = o.auc.get(&k).map(|a| who_of(&a.seller)).unwrap_or(0);
                let w = if r.pct(75) { w } else { who(r) };
                let d = r.below(3) as u8;
                let min = o.mins.get(&denom(d)).copied().unwrap_or(1);
                Op::Update { who: w, k, denom: d, reserve: if r.pct(50) { near(r, min) } else { min + gen_price(r, &c.prices) }, funds: if r.pct(4) { vec![(0, 1)] } else { vec![] } }
            }
            3 => {
                let k = lk(r);
                let w = o.auc.get(&k).map(|a| who_of(&a.seller)).unwrap_or(0);
                Op::Cancel { who: if r.pct(75) { w } else { who(r) }, k, funds: if r.pct(4) { vec![(0, 1)] } else { vec![] } }
            }
            4 => {
                let k = lk(r);
                let a = o.auc.get(&k);
                let mut w = who(r);
                if let Some(a) = a {
                    if r.pct(90) && acct(w) == a.seller {
                        w = (w + 1) % c.users;
                    }
                }
                let min = match a {
                    Some(a) => match &a.high {
                        Some((_, x, _)) => mul_ceil(*x, E18 + o.conf.min_inc).unwrap_or(*x),
                        None => a.reserve,
                    },
                    None => 10,
                };
                let amt = match r.below(10) {
                    0 => a.and_then(|a| a.high.as_ref()).map_or(min, |h| h.1 + 1),
                    1..=5 => near(r, min),
                    6 => min.saturating_mul(2),
                    _ => min + r.below(1000) as u128,
                };
                let d = a.map_or(0, |a| DENOMS.iter().position(|y| *y == a.denom).unwrap_or(0) as u8);
                let funds = match r.below(30) {
                    0 => vec![((d + 1) % 4, amt)],
                    1 => vec![(d, amt), ((d + 1) % 4, 7)],
                    2 => vec![],
                    _ => vec![(d, amt)],
                };
                Op::Bid { who: w, k, funds }
            }
            5 => Op::Settle { who: who(r), k: lk(r), funds: if r.pct(4) { vec![(0, 1)] } else { vec![] } },
            6 => match r.below(5) {
                0 | 1 if r.pct(50) => {
                    // retire a minimum, or bring one back above what open auctions ask for
                    let gone: Vec<u8> = (0..4).filter(|d| !o.mins.contains_key(&denom(*d))).collect();
                    if !gone.is_empty() && r.pct(70) {
                        let d = *r.pick(&gone);
                        let open: Vec<u128> = o.auc.values().filter(|a| a.high.is_none() && a.denom == denom(d)).map(|a| a.reserve).collect();
                        let x = if !open.is_empty() && r.pct(70) { *r.pick(&open) + *r.pick(&[0, 1, 50]) } else if r.pct(15) { 0 } else { gen_price(r, &c.prices) };
                        Op::SetMin(vec![(d, x)])
                    } else {
                        let live: Vec<u8> = (0..4).filter(|d| o.auc.values().any(|a| a.high.is_none() && a.denom == denom(*d))).collect();
                        Op::UnsetMin(vec![if live.is_empty() { r.below(4) as u8 } else { *r.pick(&live) }])
                    }
                }
                0 => Op::SetMin((0..r.range(1, 2)).map(|_| (r.below(4) as u8, if r.pct(20) { 0 } else { gen_price(r, &c.prices) })).collect()),
                1 => Op::UnsetMin((0..r.range(1, 3)).map(|_| r.below(4) as u8).collect()),
                _ => {
                    let mut p = Params::default();
                    for _ in 0..r.range(1, 3) {
                        match r.below(10) {
                            0 => p.fair_burn = Some(r.below(2) as u8),
                            1 => p.trading_fee = Some(if c.zero_fee && r.pct(40) { 0 } else { *r.pick(&[E18 / 50, E18 / 20, E18 / 3, E18 / 1000 + 1, 1]) }),
                            2 => p.min_inc = Some(*r.pick(&[0, 1, E18 / 20, E18 / 3, E18 - 1, E18, E18 + 1, E18 / 100])),
                            3 => p.min_dur = Some(if r.pct(12) { let m = u128::from(o.conf.max_dur); near(r, m) as u64 } else { *r.pick(&[0, 1, 30, 60]) }),
                            4 => p.extend = Some(if r.pct(12) { o.conf.max_dur + r.below(100) } else { *r.pick(&[0, 1, 10, 45]) }),
                            5 => p.fee = Some((r.below(2) as u8, *r.pick(&[0, 0, 5, 1000]))),
                            6 => p.limit = Some(*r.pick(&[1, 2, 3, 4, 12, 60, 256])),
                            7 => p.halt_threshold = Some(if r.pct(15) { *r.pick(&[10, 12, 20]) } else { r.range(60, 600) }),
                            8 => p.halt_buffer = Some(*r.pick(&[0, 1, 60, 300])),
                            _ => p.halt_postpone = Some(*r.pick(&[0, 1, 60, 900])),
                        }
                    }
                    Op::Params(p)
                }
            },
            7 => {
                let k = key(r);
                let ow = o.owner.get(&k).cloned().flatten().map(|a| who_of(&a)).unwrap_or(0);
                let act = match r.below(14) {
                    0..=3 => NftAct::Transfer(who(r)),
                    10 => NftAct::ApproveUser(who(r)),
                    11 => NftAct::Operator(who(r)),
                    12 | 13 => NftAct::ApproveFor(r.range(1, 60)),
                    4..=6 => NftAct::Approve,
                    7 => NftAct::Revoke,
                    8 => NftAct::ApproveAll,
                    _ => {
                        if r.pct(20) {
                            NftAct::Burn
                        } else {
                            NftAct::RevokeAll
                        }
                    }
                };
                Op::Nft { who: if r.pct(90) { ow } else { stranger(r, &k) }, k, act }
            }
            8 => {
                let cc = r.below(c.colls as u64) as u8;
                let ch = match r.below(10) {
                    0 => EnvCh::StartTrading(*r.pick(&[None, Some(o.now + 100 * SEC), Some(o.now), Some(o.now + 1)])),
                    1 | 2 => EnvCh::Royalty(if r.pct(25) { None } else { Some((payee(r), *r.pick(&[0, 1, E18 / 20, E18 / 3, E18 / 10 + 7, E18 / 2]))) }),
                    3 if c.poison => EnvCh::InfoFail(true),
                    4 if c.poison => EnvCh::TransferFail(true),
                    5 if c.poison => EnvCh::Royalty(Some(if r.pct(50) { (6, E18) } else { (255, E18 / 10) })),
                    6 => EnvCh::OwnerFail(r.pct(50)),
                    7 => EnvCh::ApprovalFail(r.pct(50)),
                    8 if c.reenter => {
                        let k = lk(r);
                        let m = match r.below(3) {
                            0 => json!({"settle_auction": {"collection": coll(k.0), "token_id": tok(k.1)}}),
                            1 => json!({"place_bid": {"collection": coll(k.0), "token_id": tok(k.1)}}),
                            _ => json!({"cancel_auction": {"collection": coll(k.0), "token_id": tok(k.1)}}),
                        };
                        EnvCh::Reenter(Some((m.to_string(), vec![])))
                    }
                    _ => EnvCh::Clear,
                };
                Op::Env { c: cc, ch }
            }
            9 => {
                if r.pct(50) {
                    Op::Migrate { older: r.pct(50) }
                } else {
                    Op::Fake { who: who(r), n: r.below(4) as u8 }
                }
            }
            _ => Op::Block { dt: 6 * SEC, end_fault: Fault::None },
        }
    }
}

fn deploy(cfg: &Cfg) -> (Chain, TxOut) {
    let chain = Chain::new(cfg.start_ns);
    for i in 0..2 {
        chain.add_contract(&fb(i), Code::FairBurn, None);
        let r = chain.instantiate(&fb(i), &user("deployer"), &bin(&json!({"fee_bps": 5000})));
        assert!(r.ok, "{}", r.err);
    }
    for c in 0..cfg.colls {
        let toks: Vec<(String, String)> = (0..cfg.tokens).map(|t| (tok(t), acct((t + c) % cfg.users))).collect();
        deploy_nft(&chain, &coll(c), &user("creator"), &toks);
        set_env(&chain, &coll(c), &market(), &EnvCh::Royalty(cfg.royalty[c as usize]));
    }
    for u in 0..cfg.users {
        for d in DENOMS {
            chain.mint(&acct(u), d, 1_000_000_000_000_000_000_000_000);
        }
    }
    chain.add_contract(&market(), Code::Ra, Some(user("deployer")));
    let out = chain.instantiate(&market(), &user("deployer"), &bin(&inst_json(cfg)));
    (chain, out)
}

fn inst_json(cfg: &Cfg) -> Value {
    json!({
        "fair_burn": fb(0), "trading_fee_percent": dec_str(cfg.trading_fee),
        "min_bid_increment_percent": dec_str(cfg.min_inc), "min_duration": cfg.min_dur, "max_duration": cfg.max_dur,
        "extend_duration": cfg.extend, "create_auction_fee": {"denom": denom(cfg.fee.0), "amount": cfg.fee.1.to_string()},
        "max_auctions_to_settle_per_block": cfg.limit, "halt_duration_threshold": cfg.halt_threshold,
        "halt_buffer_duration": cfg.halt_buffer, "halt_postpone_duration": cfg.halt_postpone,
        "min_reserve_prices": cfg.mins.iter().map(|(d, a)| json!({"denom": denom(*d), "amount": a.to_string()})).collect::<Vec<_>>(),
    })
}

/// The configuration an instantiation with this message has to store.
fn inst_conf(cfg: &Cfg) -> Conf {
    Conf {
        fair_burn: fb(0),
        trading_fee: cfg.trading_fee,
        min_inc: cfg.min_inc,
        min_dur: cfg.min_dur,
        max_dur: cfg.max_dur,
        extend: cfg.extend,
        fee: (denom(cfg.fee.0), cfg.fee.1),
        limit: cfg.limit,
        threshold: cfg.halt_threshold,
        buffer: cfg.halt_buffer,
        postpone: cfg.halt_postpone,
    }
}

impl Ra {
    /// The contract starts exactly as instantiated, and says so.
    fn check_birth(&mut self, out: &TxOut) {
        let tag: &'static [&'static str] = &["R08"];
        if !out.ok {
            self.born.push((tag, "ra:instantiate:wrongly-refused".into(), out.err.clone()));
            return;
        }
        let Some(o) = &self.cur else { return };
        let conf = inst_conf(&self.cfg);
        let mins: BTreeMap<String, u128> = self.cfg.mins.iter().map(|(d, a)| (denom(*d), *a)).collect();
        if o.conf != conf {
            self.born.push((tag, "ra:instantiate:config".into(), format!("instantiated with {conf:?}, is {:?}", o.conf)));
        }
        if o.mins != mins {
            self.born.push((tag, "ra:instantiate:minimums".into(), format!("instantiated with {mins:?}, is {:?}", o.mins)));
        }
        if o.version.is_empty() {
            self.born.push((tag, "ra:instantiate:version".into(), "the contract does not say what it is".into()));
        }
        if !o.auc.is_empty() || !o.windows.is_empty() {
            self.born.push((tag, "ra:instantiate:not-empty".into(), format!("starts with auctions {:?} and halts {:?}", o.auc, o.windows)));
        }
        let ev: &'static [&'static str] = &["R09"];
        let told: BTreeMap<String, Option<u128>> = out
            .emitted
            .iter()
            .filter(|e| e.ty.contains("set-min-reserve-price"))
            .map(|e| (e.get("denom").unwrap_or("").to_string(), e.get("amount").and_then(|x| x.parse().ok())))
            .collect();
        if told != mins.iter().map(|(d, a)| (d.clone(), Some(*a))).collect() {
            self.born.push((ev, "ra:events:instantiate-minimums".into(), format!("announced {told:?}, instantiated with {mins:?}")));
        }
        let c = &conf;
        for (k, v) in [
            ("fair_burn", c.fair_burn.clone()),
            ("min_duration", c.min_dur.to_string()),
            ("max_duration", c.max_dur.to_string()),
            ("extend_duration", c.extend.to_string()),
            ("create_auction_fee", format!("{}{}", c.fee.1, c.fee.0)),
            ("max_auctions_to_settle_per_block", c.limit.to_string()),
            ("halt_duration_threshold", c.threshold.to_string()),
            ("halt_buffer_duration", c.buffer.to_string()),
            ("halt_postpone_duration", c.postpone.to_string()),
            ("trading_fee_percent", dec_str(c.trading_fee)),
            ("min_bid_increment_percent", dec_str(c.min_inc)),
        ] {
            let told: Vec<&str> = out.emitted.iter().filter_map(|e| e.get(k)).collect();
            // the upper bound of the duration is not announced
            let silent = told.is_empty() && k != "max_duration";
            if silent || told.iter().any(|x| if k.ends_with("percent") { dec(x) != dec(&v) } else { *x != v }) {
                self.born.push((ev, "ra:events:instantiate".into(), format!("{k} announced as {told:?}, instantiated with {v}")));
            }
        }
    }

    /// A second contract, instantiated with other values, some of them not allowed.
    fn try_birth(&mut self) {
        if self.cfg.birth == 0 {
            return;
        }
        let x = self.cfg.birth / 16;
        let tag: &'static [&'static str] = &["R08"];
        let mut c = self.cfg.clone();
        let mut no: Option<&'static str> = None;
        let mut bad_burn = false;
        match self.cfg.birth % 12 {
            0 => {
                c.min_inc = 0;
                no = Some("bid increment zero")
            }
            1 => {
                c.min_inc = E18 + u128::from(x % 2);
                no = Some("bid increment of 100% or more")
            }
            2 => c.min_inc = E18 - 1,
            3 => {
                c.min_dur = 0;
                no = Some("minimum duration zero")
            }
            4 => {
                c.extend = 0;
                no = Some("extension zero")
            }
            5 => {
                c.mins.push((c.mins[(x % 2) as usize].0, 7));
                no = Some("denomination twice")
            }
            6 => {
                c.mins.clear();
                c.limit = 0;
            }
            7 => {
                bad_burn = true;
                no = Some("invalid address")
            }
            8 => {
                c.min_dur = u64::MAX;
                c.max_dur = u64::MAX;
                c.extend = u64::MAX;
                c.halt_threshold = u64::MAX;
                c.halt_postpone = 1;
            }
            9 => {
                c.trading_fee = u128::from(x);
                c.min_dur = 1;
                c.extend = 1;
                c.min_inc = 1;
            }
            _ => {
                c.mins = vec![((x % 4) as u8, u128::MAX)];
                c.fee = ((x % 3) as u8, u128::from(x));
                c.halt_buffer = x;
            }
        }
        let mut m = inst_json(&c);
        if bad_burn {
            m["fair_burn"] = json!("Not an address");
        }
        let addr = contract("decoy");
        self.chain.add_contract(&addr, Code::Ra, Some(user("deployer")));
        let out = self.chain.instantiate(&addr, &user("deployer"), &bin(&m));
        match (no, out.ok) {
            (Some(why), true) => self.born.push((tag, format!("ra:instantiate:wrongly-accepted:{why}"), format!("instantiated although: {why}"))),
            (None, false) => self.born.push((tag, "ra:instantiate:wrongly-refused".into(), out.err)),
            (Some(_), false) => {}
            (None, true) => {
                let got = self.chain.query::<Value>(&addr, &json!({"config": {}})).map(|v| Self::parse_conf(&v));
                if got.as_ref() != Ok(&inst_conf(&c)) {
                    self.born.push((tag, "ra:instantiate:config".into(), format!("instantiated with {:?}, is {got:?}", inst_conf(&c))));
                }
            }
        }
    }
}

impl World for Ra {
    const NAME: &'static str = "reserve-auction";
    const FAULTS: &'static [&'static str] = &[
        "tx_lost",
        "tx_delayed_or_reordered",
        "tx_duplicated",
        "out_of_gas",
        "submessage_failure",
        "nft_changed_outside_market",
        "collection_outage",
        "collection_refuses_transfers",
        "royalty_changed",
        "malicious_collection",
        "collection_change",
        "chain_halt",
        "endblock_out_of_gas",
        "endblock_submessage_failure",
        "reentrancy_attempt",
    ];
    const ID: u64 = 2;
    type Cfg = Cfg;
    type Step = Step;

    fn gen_cfg(r: &mut Rng, profile: &str) -> Cfg {
        let crowd = crowd_size(r);
        let colls = if crowd > 35 { 1 } else { r.range(1, 3) as u8 };
        let mut w: Vec<u64> = vec![40, 16, 5, 5, 34, 8, 4, 5, 4, 1];
        for x in w.iter_mut().skip(1) {
            if r.pct(12) {
                *x = 0;
            } else if r.pct(15) {
                *x *= 3;
            }
        }
        w[1] = w[1].max(8);
        w[4] = w[4].max(10);
        match profile {
            "R06" => w[0] = 55,
            "R07" => {
                w[1] = 30;
                w[4] = 40
            }
            "R08" => w[6] = 12,
            _ => {}
        }
        let quiet = r.pct(30);
        Cfg {
            users: r.range(3, 5) as u8,
            colls,
            tokens: if crowd > 0 { crowd } else { r.range(1, 5) as u8 },
            start_ns: *r.pick(&START) * SEC + if r.pct(60) { r.below(SEC) } else { 0 },
            trading_fee: *r.pick(&[E18 / 50, E18 / 20, E18 / 3, E18 / 1000 + 1, 1]),
            min_inc: *r.pick(&[E18 / 20, E18 / 100, E18 / 3, 1, E18 - 1, E18 / 10]),
            min_dur: *r.pick(&[1, 10, 30]),
            max_dur: *r.pick(&[60, 200, 200, 1000, 1000, 31_536_000]),
            extend: *r.pick(&[1, 5, 15, 40]),
            fee: *r.pick(&[(0, 0), (0, 500), (1, 3), (0, 1)]),
            limit: *r.pick(&[1, 1, 2, 3, 10, 10, 40, 256, 1 << 32]),
            halt_threshold: *r.pick(&[100, 300, 600]),
            halt_buffer: *r.pick(&[0, 1, 30, 120, 400]),
            halt_postpone: *r.pick(&[1, 30, 200, 600]),
            mins: vec![(0, *r.pick(&[0, 1, 100, 999])), (1, *r.pick(&[1, 50]))],
            royalty: (0..3).map(|_| if r.pct(40) { None } else { Some((payee(r), *r.pick(&[E18 / 20, E18 / 3, 1, 0, E18 / 10 + 7]))) }).collect(),
            prices: gen_prices(r, 4),
            w,
            fault_pm: if quiet { 0 } else { *r.pick(&[10, 40, 100]) },
            loss: if quiet { 0 } else { *r.pick(&[0, 30, 100]) },
            dup: if quiet { 0 } else { *r.pick(&[0, 50, 200]) },
            delay: if quiet { 0 } else { *r.pick(&[0, 50, 200]) },
            poison: r.pct(15),
            crowd: if crowd > 0 { 1 + r.below(1 << 32) } else { 0 },
            birth: if r.pct(30) { 1 + r.below(1 << 32) } else { 0 },
            zero_fee: r.pct(10),
            reenter: r.pct(12),
            subsec: r.pct(60),
            query_pm: if profile == "R08" { 300 } else { 25 },
            sim_pm: *r.pick(&[0, 50]),
            nsteps: if crowd > 0 { 50 } else { long(r, &[30, 60, 120]) },
        }
    }

    fn new(cfg: &Cfg) -> Self {
        let (chain, out) = deploy(cfg);
        let mut w = Ra { cfg: cfg.clone(), born: vec![], follower: None, chain, all_windows: vec![], net: Net::new(cfg.loss, cfg.dup, cfg.delay), supply0: BTreeMap::new(), cur: None, memo: Default::default(), pending_net: vec![] };
        w.chain.sudo(&market(), &bin(&json!({"begin_block": {}})), Fault::None);
        w.supply0 = supply(&bank_of(&w.chain));
        w.cur = w.observe().ok();
        w.follower = w.cur.as_ref().map(Self::truth);
        w.check_birth(&out);
        w.try_birth();
        if cfg.crowd > 0 {
            w.fill();
            w.cur = w.observe().ok();
            w.follower = w.cur.as_ref().map(Self::truth);
        }
        w
    }

    fn steps(cfg: &Cfg, r: &mut Rng) -> usize {
        (cfg.nsteps / 2 + r.below(cfg.nsteps)) as usize
    }

    fn gen(&mut self, r: &mut Rng) -> Step {
        let o = match &self.cur {
            Some(o) => o.clone(),
            None => return Step { op: Op::Block { dt: SEC, end_fault: Fault::None }, fault: Fault::None, net: 0, simulate: false },
        };
        let (op, net) = loop {
            if let Some(x) = self.net.late(r) {
                break x;
            }
            let op = self.gen_op(r, &o);
            match op {
                Op::Create { .. } | Op::Update { .. } | Op::Cancel { .. } | Op::Bid { .. } | Op::Settle { .. } => {
                    if let Some(x) = self.net.step(r, op) {
                        break x;
                    }
                }
                op => break (op, 0),
            }
        };
        let fault = match op {
            Op::Block { .. } | Op::Env { .. } | Op::Nft { .. } => Fault::None,
            _ => gen_fault(r, self.cfg.fault_pm),
        };
        Step { op, fault, net, simulate: r.permille(self.cfg.sim_pm) }
    }

    fn apply(&mut self, s: &Step, rec: &mut Rec) {
        report_birth(&mut self.born, rec);
        let o = match self.cur.take() {
            Some(o) => o,
            None => match self.observe() {
                Ok(o) => o,
                Err(e) => {
                    rec.violate(&["R08"], "ra:observe", e);
                    return;
                }
            },
        };
        for _ in 0..std::mem::take(&mut self.net.lost) {
            rec.fault("tx_lost");
        }
        match s.net {
            1 => rec.fault("tx_delayed_or_reordered"),
            2 => rec.fault("tx_duplicated"),
            _ => {}
        }
        let m = market();
        match &s.op {
            Op::Block { dt, end_fault } => {
                let o = self.do_block(o, *dt, *end_fault, rec);
                self.cur = Some(o);
            }
            Op::Env { c, ch } => {
                set_env(&self.chain, &coll(*c), &m, ch);
                rec.fault(match ch {
                    EnvCh::InfoFail(true) | EnvCh::OwnerFail(true) | EnvCh::ApprovalFail(true) => "collection_outage",
                    EnvCh::TransferFail(true) => "collection_refuses_transfers",
                    EnvCh::Royalty(_) => "royalty_changed",
                    EnvCh::Reenter(_) => "malicious_collection",
                    _ => "collection_change",
                });
                rec.log(&format!("env {c} {ch:?}"));
                self.cur = Some(o);
            }
            Op::Nft { who, k, act } => {
                let out = nft_act(&self.chain, &acct(*who), &coll(k.0), &tok(k.1), &m, act);
                rec.log(&format!("nft {}", out.ok));
                if out.ok {
                    rec.fault("nft_changed_outside_market");
                }
                if let Ok(g) = self.observe() {
                    self.follow(&g, &out, rec);
                    self.invariants(&g, rec);
                    self.cur = Some(g);
                }
            }
            Op::Params(_) | Op::SetMin(_) | Op::UnsetMin(_) => {
                let msg = match &s.op {
                    Op::Params(p) => Self::params_json(p),
                    Op::SetMin(v) => json!({"set_min_reserve_prices": {"min_reserve_prices": v.iter().map(|(d, a)| json!({"denom": denom(*d), "amount": a.to_string()})).collect::<Vec<_>>()}}),
                    Op::UnsetMin(v) => json!({"unset_min_reserve_prices": {"denoms": v.iter().map(|d| denom(*d)).collect::<Vec<_>>()}}),
                    _ => unreachable!(),
                };
                let exp = self.sudo_expect(&o, &s.op);
                let out = self.chain.sudo(&m, &bin(&msg), s.fault);
                rec.log(&format!("gov {}", out.ok));
                self.judge(o, exp, &["R08"], "gov", &out, rec, false);
            }
            Op::Migrate { older } => {
                let info: Value = serde_json::from_str(&o.version).unwrap_or_default();
                if *older {
                    self.chain.raw_set(&m, b"contract_info", &serde_json::to_vec(&json!({"contract": info["contract"], "version": older_version(info["version"].as_str().unwrap_or(""), o.now)})).unwrap());
                }
                let out = self.chain.migrate(&m, &bin(&json!({})));
                rec.log(&format!("migrate {}", out.ok));
                rec.stat("migrations");
                let exp = Ok(o.clone());
                self.judge(o, exp, &["R08"], "migrate", &out, rec, false);
            }
            op => {
                self.pre(op);
                let (who, msg, funds) = self.msg(op).unwrap();
                let (exp, tags, what) = self.expect(&o, op, &who, &funds);
                if s.simulate {
                    self.chain.simulate(&who, &m, &bin(&msg), &funds);
                    rec.stat("simulated_first");
                }
                let out = self.chain.tx(&who, &m, &bin(&msg), &funds, s.fault);
                rec.log(&format!("{what} {} {:?}", out.ok, out.transfers));
                let unpred = self.touches_reentrant(op);
                if out.ok {
                    rec.stat(&format!("ok_{what}"));
                    rec.committed += 1;
                } else {
                    rec.stat(&format!("refused_{what}"));
                }
                self.judge(o, exp, &tags, what, &out, rec, unpred);
            }
        }
        rec.states.push(self.chain.store_hash(&m));
        if let Some(g) = self.cur.clone() {
            self.invariants(&g, rec);
            let x = rec.log ^ (rec.step as u64).wrapping_mul(0x9E3779B97F4A7C15);
            if (x >> 7) % 1000 < self.cfg.query_pm {
                self.check_queries(&g, x >> 20, rec);
            }
        }
    }

    fn finish(&mut self, rec: &mut Rec) {
        report_birth(&mut self.born, rec);
        // faults stop; everything due must be processed within ceil(n / limit) blocks
        for c in 0..self.cfg.colls {
            set_env(&self.chain, &coll(c), &market(), &EnvCh::Clear);
        }
        let mut o = match self.cur.take() {
            Some(o) => o,
            None => return,
        };
        let late = o.auc.values().filter_map(|a| a.end).max().unwrap_or(o.now);
        let dt = (late.max(o.now) - o.now + SEC).min(400_000 * SEC);
        o = self.do_block(o, dt, Fault::None, rec);
        o = self.finish_due(o, rec);
        self.finish_windows(o, rec);
    }

    fn shrink(s: &Step) -> Vec<Step> {
        let mut v = vec![];
        let base = Step { op: s.op.clone(), fault: Fault::None, net: 0, simulate: false };
        v.push(base.clone());
        match &s.op {
            Op::Block { dt, end_fault } => {
                v.push(Step { op: Op::Block { dt: *dt, end_fault: Fault::None }, ..base.clone() });
                for d in [SEC, dt / SEC * SEC, 6 * SEC] {
                    if d > 0 && d < *dt {
                        v.push(Step { op: Op::Block { dt: d, end_fault: *end_fault }, ..base.clone() });
                    }
                }
            }
            Op::Create { who, k, denom, reserve, dur, recip, funds, approve } => {
                if recip.is_some() {
                    v.push(Step { op: Op::Create { who: *who, k: *k, denom: *denom, reserve: *reserve, dur: *dur, recip: None, funds: funds.clone(), approve: *approve }, ..base.clone() });
                }
                if *reserve > 100 {
                    v.push(Step { op: Op::Create { who: *who, k: *k, denom: *denom, reserve: 100, dur: *dur, recip: *recip, funds: funds.clone(), approve: *approve }, ..base.clone() });
                }
            }
            Op::Bid { who, k, funds } if funds.len() == 1 && funds[0].1 > 100 => {
                v.push(Step { op: Op::Bid { who: *who, k: *k, funds: vec![(funds[0].0, 100)] }, ..base.clone() });
            }
            _ => {}
        }
        v
    }

    fn chain(&self) -> &Chain {
        &self.chain
    }
}

impl Ra {
    /// Everything due is processed within ceil(n / limit) blocks.
    fn finish_due(&mut self, mut o: Obs, rec: &mut Rec) -> Obs {
        let due: Vec<(Key, u64)> = o.auc.iter().filter(|(_, a)| a.end.map_or(false, |e| e <= o.now)).map(|(k, a)| (*k, a.end.unwrap())).collect();
        if due.is_empty() {
            return o;
        }
        rec.stat("liveness_checks");
        let blocked = due.iter().any(|(k, _)| {
            let mut t = o.clone();
            self.settle(&mut t, *k).is_err()
        });
        if blocked {
            return o;
        }
        let n = due.len().div_ceil(o.conf.limit.max(1) as usize);
        let before = rec.viol.len();
        // time stands (almost) still so that postponed auctions do not come due again
        for _ in 0..n {
            o = self.do_block(o, 1, Fault::None, rec);
        }
        if o.conf.postpone > 0 && rec.viol.len() == before {
            for (k, e) in &due {
                if o.auc.get(k).map_or(false, |a| a.end == Some(*e)) {
                    rec.violate(if self.all_windows.is_empty() { &["R07"] } else { &["R07", "R06"] }, "ra:liveness", format!("auction {k:?} ended at {e} and is still unprocessed after {n} blocks"));
                }
            }
        }
        self.check_queries(&o, rec.log >> 20, rec);
        o
    }

    /// Halts that are over are forgotten, one per block, once no auction is due.
    fn finish_windows(&mut self, mut o: Obs, rec: &mut Rec) {
        let over = o.windows.iter().take_while(|w| w.1 <= o.now / SEC).count();
        if over == 0 || o.conf.threshold == 0 {
            return;
        }
        let all = o.windows.len();
        for _ in 0..over {
            if o.auc.values().any(|a| a.end.map_or(false, |e| e <= o.now)) {
                return;
            }
            o = self.do_block(o, 1, Fault::None, rec);
        }
        rec.stat("halts_forgotten_checks");
        if o.windows.len() > all - over {
            rec.violate(&["R06"], "ra:halt-never-forgotten", format!("{over} halts were over, {all} recorded; {over} blocks without a due auction later these are left: {:?}", o.windows));
        }
    }

    fn touches_reentrant(&self, op: &Op) -> bool {
        let k = match op {
            Op::Create { k, .. } | Op::Cancel { k, .. } | Op::Settle { k, .. } | Op::Bid { k, .. } => k,
            _ => return false,
        };
        self.env(k.0).reenter.is_some()
    }

    /// Compare what happened with what the model says.
    fn judge(&mut self, o: Obs, exp: Result<Obs, &'static str>, tags: &[&str], what: &str, out: &TxOut, rec: &mut Rec, unpredictable: bool) {
        let got = match self.observe() {
            Ok(g) => g,
            Err(e) => {
                rec.violate(&["R08"], "ra:observe", e);
                return;
            }
        };
        self.follow(&got, out, rec);
        if unpredictable {
            rec.fault("reentrancy_attempt");
            self.cur = Some(got);
            return;
        }
        let mut t: Vec<&str> = tags.to_vec();
        if out.gas_abort || out.fired_sub.is_some() {
            rec.fault(if out.gas_abort { "out_of_gas" } else { "submessage_failure" });
            t.push("R01");
            if out.ok {
                rec.violate(&t, format!("ra:{what}:fault-swallowed"), format!("sub-message {:?} failed but the transaction succeeded", out.fired_sub));
            }
            self.compare(&o, &got, &t, &format!("{what}-aborted"), rec);
            self.cur = Some(got);
            return;
        }
        match (exp, out.ok) {
            (Ok(e), true) => self.compare(&e, &got, &t, what, rec),
            (Err(why), false) => {
                rec.stat(&format!("why_{what}: {why}"));
                if why == "zero trading fee" {
                    rec.violate(&["R04"], format!("ra:{what}:zero-trading-fee"), format!("an ended auction cannot be settled while the trading fee is zero: {}", out.err));
                }
                self.compare(&o, &got, &t, &format!("{what}-refused"), rec)
            }
            (Ok(e), false) => {
                t.extend(match what {
                    "bid" | "update" => vec!["R08"],
                    "cancel" => vec!["R01"],
                    "settle" if o.windows.is_empty() => vec!["R01", "R07"],
                    "settle" => vec!["R01", "R07", "R06"],
                    "create" => vec!["R08"],
                    _ => vec![],
                });
                rec.violate(&t, format!("ra:{what}:wrongly-refused"), format!("refused with: {}", out.err));
                let _ = e;
                self.compare(&o, &got, &t, &format!("{what}-refused"), rec);
            }
            (Err(why), true) => {
                if why == "zero trading fee" {
                    // settling with a zero fee is what the property asks for
                } else {
                    t.extend(match why {
                        "payment not accepted" | "wrong creation fee" | "insufficient funds" | "wrong denomination or amount of coins" | "auction exists" => vec!["R01"],
                        "reserve below minimum" | "denom not allowed" | "duration out of range" => vec!["R08"],
                        "auction ended" => vec!["R04"],
                        "no auction" => vec!["R01", "R04"],
                        "already started" => vec!["R01", "R02"],
                        "bid too low" => vec!["R08"],
                        _ => vec![],
                    });
                    rec.violate(&t, format!("ra:{what}:wrongly-accepted:{why}"), format!("accepted although: {why}"));
                }
            }
        }
        self.cur = Some(got);
    }
}
