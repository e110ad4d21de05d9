//! Marketplace v1: asks, bids, collection bids, hooks, operators, governance.

use crate::chain::*;
use crate::common::*;
use crate::engine::{Rec, World};
use crate::rng::Rng;
use cosmwasm_std::Coin;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub type Key = (u8, u8);
const ST: &str = "ustars";
const MAX_PRICE: u128 = 100_000_000_000_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub users: u8,
    pub colls: u8,
    pub tokens: u8,
    pub start_ns: u64,
    pub trading: u64,
    pub ask_exp: (u64, u64),
    pub bid_exp: (u64, u64),
    pub operators: Vec<u8>,
    pub max_finder: u64,
    pub min_price: u128,
    pub stale: u64,
    pub reward: u64,
    pub listing: u128,
    pub sale_hook: bool,
    /// hooks registered at the start: (kind, hook number)
    pub hooks: Vec<(u8, u8)>,
    pub hook_mode: Vec<u8>,
    pub royalty: Vec<Option<(u8, u128)>>,
    pub prices: Vec<u128>,
    pub w: Vec<u64>,
    pub fault_pm: u64,
    pub loss: u64,
    pub dup: u64,
    pub delay: u64,
    pub poison: bool,
    /// picks a second instantiation to try; 0 for none
    #[serde(default)]
    pub birth: u64,
    /// seed of a book filled before the history starts; 0 for an empty one
    #[serde(default)]
    pub crowd: u64,
    pub reenter: bool,
    pub query_pm: u64,
    pub sim_pm: u64,
    pub nsteps: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Block { dt: u64 },
    SetAsk { who: u8, k: Key, auction: bool, denom: u8, price: u128, recip: Option<u8>, reserve: Option<u8>, bps: Option<u64>, exp: u64, funds: Funds, approve: bool },
    RemoveAsk { who: u8, k: Key, funds: Funds },
    Price { who: u8, k: Key, denom: u8, price: u128, funds: Funds },
    /// mode: 0 SetBid fixed price, 1 SetBid auction, 2 BuyNow, 3 BuyFor
    Bid { who: u8, k: Key, mode: u8, to: u8, exp: u64, finder: Option<u8>, bps: Option<u64>, funds: Funds },
    RemoveBid { who: u8, k: Key, funds: Funds },
    Accept { who: u8, k: Key, bidder: u8, finder: Option<u8>, funds: Funds, approve: bool },
    Reject { who: u8, k: Key, bidder: u8, funds: Funds },
    ColBid { who: u8, c: u8, exp: u64, bps: Option<u64>, funds: Funds },
    RemoveColBid { who: u8, c: u8, funds: Funds },
    AcceptCol { who: u8, k: Key, bidder: u8, finder: Option<u8>, funds: Funds, approve: bool },
    Sync { who: u8, k: Key, funds: Funds },
    StaleAsk { who: u8, k: Key, funds: Funds },
    StaleBid { who: u8, k: Key, bidder: u8, funds: Funds },
    StaleCol { who: u8, c: u8, bidder: u8, funds: Funds },
    Params(Params),
    Operator { add: bool, who: u8 },
    /// kind 0 ask, 1 bid, 2 sale
    Hook { kind: u8, add: bool, n: u8 },
    Nft { who: u8, k: Key, act: NftAct },
    Env { c: u8, ch: EnvCh },
    HookEnv { n: u8, mode: HookCh },
    /// 0 same version, 1 older stored version, 2 newer stored version, 3 other contract, 4 garbage version
    Migrate { stored: u8 },
    Fake { who: u8, n: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum HookCh {
    Ok,
    Fail,
    Panic,
    Reenter(String),
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Params {
    pub trading: Option<u64>,
    pub ask_exp: Option<(u64, u64)>,
    pub bid_exp: Option<(u64, u64)>,
    pub max_finder: Option<u64>,
    pub min_price: Option<u128>,
    pub stale: Option<u64>,
    pub reward: Option<u64>,
    pub listing: Option<u128>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    pub op: Op,
    #[serde(default)]
    pub fault: Fault,
    #[serde(default)]
    pub net: u8,
    #[serde(default)]
    pub simulate: bool,
}

#[derive(Clone, Debug, PartialEq)]
struct Ask {
    auction: bool,
    seller: String,
    price: u128,
    recip: Option<String>,
    reserve: Option<String>,
    bps: Option<u64>,
    exp: u64,
    active: bool,
}

#[derive(Clone, Debug, PartialEq)]
struct Bid {
    price: u128,
    bps: Option<u64>,
    exp: u64,
}

#[derive(Clone, Debug, PartialEq)]
struct Par {
    trading: u128, // basis points
    ask_exp: (u64, u64),
    bid_exp: (u64, u64),
    operators: Vec<String>,
    max_finder: u128, // basis points
    min_price: u128,
    stale: Option<u64>,
    reward: u128, // basis points
    listing: u128,
}

#[derive(Clone, Debug)]
struct Obs {
    now: u64,
    par: Par,
    hooks: [Vec<String>; 3],
    asks: BTreeMap<Key, Ask>,
    bids: BTreeMap<(u8, u8, u8), Bid>,
    cbids: BTreeMap<(u8, u8), Bid>,
    owner: BTreeMap<Key, Option<String>>,
    bank: Bank,
    version: String,
}

pub struct V1 {
    pub cfg: Cfg,
    born: Born,
    chain: Chain,
    net: Net<Op>,
    supply0: BTreeMap<String, u128>,
    cur: Option<Obs>,
    memo: std::cell::RefCell<Memo<Obs>>,
    version: String,
    follower: Option<Follower>,
}

/// What somebody knows who hears the events and never asks the contract.
#[derive(Clone, Debug, Default, PartialEq)]
struct Follower {
    operators: Vec<String>,
    hooks: [Vec<String>; 3],
    asks: BTreeMap<(String, String), Heard>,
    bids: BTreeMap<(String, String, String), (u128, u64)>,
    cbids: BTreeMap<(String, String), (u128, u64)>,
}

#[derive(Clone, Debug, PartialEq)]
struct Heard {
    auction: bool,
    seller: String,
    price: u128,
    reserve: Option<String>,
    exp: u64,
    active: bool,
}

type Bad = &'static str;
/// Expected state and hook deliveries.
type Exp = Result<(Obs, Vec<(String, Value)>), Bad>;

fn market() -> String {
    contract("market")
}
fn coll(c: u8) -> String {
    contract(["kong", "apes", "punk"][c as usize % 3])
}
const TOKS: [u32; 5] = [0, 65536, 9, 256, 4294967295];
fn tokn(t: u8) -> u32 {
    TOKS.get(t as usize).copied().unwrap_or(t as u32 * 37)
}
fn tok(t: u8) -> String {
    tokn(t).to_string()
}
const NHOOK: u8 = 7;
fn hookaddr(n: u8) -> String {
    contract(["hooka", "hookb", "hookc", "hookd", "hooke", "hookf", "hookg"][(n % NHOOK) as usize])
}
fn us(v: &Value) -> u128 {
    v.as_str().and_then(|s| s.parse().ok()).unwrap_or(u128::MAX)
}
fn os(v: &Value) -> Option<String> {
    v.as_str().map(|s| s.to_string())
}
fn ou(v: &Value) -> Option<u64> {
    v.as_u64()
}
fn oaddr(x: &Option<u8>) -> Option<String> {
    x.map(acct)
}

impl V1 {
    fn q(&self, m: Value) -> Result<Value, String> {
        self.chain.query(&market(), &m)
    }
    fn parse_ask(v: &Value) -> Ask {
        Ask {
            auction: v["sale_type"] == "auction",
            seller: os(&v["seller"]).unwrap_or_default(),
            price: us(&v["price"]),
            recip: os(&v["funds_recipient"]),
            reserve: os(&v["reserve_for"]),
            bps: ou(&v["finders_fee_bps"]),
            exp: us(&v["expires_at"]) as u64,
            active: v["is_active"].as_bool().unwrap_or(false),
        }
    }
    fn parse_bid(v: &Value) -> Bid {
        Bid { price: us(&v["price"]), bps: ou(&v["finders_fee_bps"]), exp: us(&v["expires_at"]) as u64 }
    }
    fn ask_json(k: Key, a: &Ask) -> Value {
        json!({"sale_type": if a.auction {"auction"} else {"fixed_price"}, "collection": coll(k.0), "token_id": tokn(k.1), "seller": a.seller,
            "price": a.price.to_string(), "funds_recipient": a.recip, "reserve_for": a.reserve, "finders_fee_bps": a.bps,
            "expires_at": a.exp.to_string(), "is_active": a.active})
    }
    fn bid_json(k: (u8, u8, u8), b: &Bid) -> Value {
        json!({"collection": coll(k.0), "token_id": tokn(k.1), "bidder": acct(k.2), "price": b.price.to_string(),
            "finders_fee_bps": b.bps, "expires_at": b.exp.to_string()})
    }
    fn cbid_json(k: (u8, u8), b: &Bid) -> Value {
        json!({"collection": coll(k.0), "bidder": acct(k.1), "price": b.price.to_string(),
            "finders_fee_bps": b.bps, "expires_at": b.exp.to_string()})
    }

    /// Everything the queries, balances and NFT owners say. Asked anew when anything stored anywhere has
    /// changed, and now and then when nothing has.
    fn observe(&self) -> Result<Obs, String> {
        let h = self.chain.content_hash();
        if let Some(mut o) = self.memo.borrow_mut().get(h) {
            o.now = self.chain.now();
            return Ok(o);
        }
        let o = self.observe_all()?;
        self.memo.borrow_mut().set(h, &o);
        Ok(o)
    }

    fn parse_par(p: &Value) -> Par {
        let bps = |v: &Value| dec(v.as_str().unwrap_or("0")) / (E18 / 100);
        let er = |v: &Value| (v["min"].as_u64().unwrap_or(0), v["max"].as_u64().unwrap_or(0));
        let mut operators: Vec<String> = p["operators"].as_array().cloned().unwrap_or_default().iter().filter_map(os).collect();
        operators.sort();
        Par {
            trading: bps(&p["trading_fee_percent"]),
            ask_exp: er(&p["ask_expiry"]),
            bid_exp: er(&p["bid_expiry"]),
            operators,
            max_finder: bps(&p["max_finders_fee_percent"]),
            min_price: us(&p["min_price"]),
            stale: p["stale_bid_duration"]["time"].as_u64(),
            reward: bps(&p["bid_removal_reward_percent"]),
            listing: us(&p["listing_fee"]),
        }
    }

    fn observe_all(&self) -> Result<Obs, String> {
        let v = self.q(json!({"params": {}}))?;
        let par = Self::parse_par(&v["params"]);
        let hl = |n: &str| -> Result<Vec<String>, String> {
            let v = self.q(json!({n: {}}))?;
            Ok(v["hooks"].as_array().cloned().unwrap_or_default().iter().filter_map(os).collect())
        };
        let hooks = [hl("ask_hooks")?, hl("bid_hooks")?, hl("sale_hooks")?];
        let mut asks = BTreeMap::new();
        let mut bids = BTreeMap::new();
        let mut cbids = BTreeMap::new();
        let mut owner = BTreeMap::new();
        for c in 0..self.cfg.colls {
            let cn = coll(c);
            for t in 0..self.cfg.tokens {
                let a = self.q(json!({"ask": {"collection": cn, "token_id": tokn(t)}}))?;
                if !a["ask"].is_null() {
                    let j = &a["ask"];
                    if j["collection"] != cn.as_str() || j["token_id"] != tokn(t) {
                        return Err(format!("ask query for {cn}/{} returned {j}", tokn(t)));
                    }
                    asks.insert((c, t), Self::parse_ask(j));
                }
                for u in 0..self.cfg.users {
                    let b = self.q(json!({"bid": {"collection": cn, "token_id": tokn(t), "bidder": acct(u)}}))?;
                    if !b["bid"].is_null() {
                        bids.insert((c, t, u), Self::parse_bid(&b["bid"]));
                    }
                }
                owner.insert((c, t), self.chain.nft_owner(&cn, &tok(t)));
            }
            for u in 0..self.cfg.users {
                let b = self.q(json!({"collection_bid": {"collection": cn, "bidder": acct(u)}}))?;
                if !b["bid"].is_null() {
                    cbids.insert((c, u), Self::parse_bid(&b["bid"]));
                }
            }
        }
        let version = self.chain.kv(&market()).get("contract_info".as_bytes()).map(|v| String::from_utf8_lossy(v).to_string()).unwrap_or_default();
        Ok(Obs { now: self.chain.now(), par, hooks, asks, bids, cbids, owner, bank: bank_of(&self.chain), version })
    }

    fn env(&self, c: u8) -> NftEnv {
        self.chain.inner.borrow().nft_env[&coll(c)].clone()
    }

    fn msg(&self, op: &Op) -> Option<(String, Value, Vec<Coin>)> {
        let n = |x: &Option<u8>| x.map(acct);
        Some(match op {
            Op::SetAsk { who, k, auction, denom: d, price, recip, reserve, bps, exp, funds, .. } => (
                acct(*who),
                json!({"set_ask": {"sale_type": if *auction {"auction"} else {"fixed_price"}, "collection": coll(k.0), "token_id": tokn(k.1),
                    "price": {"denom": denom(*d), "amount": price.to_string()}, "funds_recipient": n(recip), "reserve_for": n(reserve),
                    "finders_fee_bps": bps, "expires": exp.to_string()}}),
                coins(funds),
            ),
            Op::RemoveAsk { who, k, funds } => (acct(*who), json!({"remove_ask": {"collection": coll(k.0), "token_id": tokn(k.1)}}), coins(funds)),
            Op::Price { who, k, denom: d, price, funds } => (
                acct(*who),
                json!({"update_ask_price": {"collection": coll(k.0), "token_id": tokn(k.1), "price": {"denom": denom(*d), "amount": price.to_string()}}}),
                coins(funds),
            ),
            Op::Bid { who, k, mode, to, exp, finder, bps, funds } => {
                let mut b = json!({"collection": coll(k.0), "token_id": tokn(k.1), "expires": exp.to_string(), "finder": n(finder), "finders_fee_bps": bps});
                let name = match mode {
                    0 => {
                        b["sale_type"] = json!("fixed_price");
                        "set_bid"
                    }
                    1 => {
                        b["sale_type"] = json!("auction");
                        "set_bid"
                    }
                    2 => "buy_now",
                    _ => {
                        b["asset_recipient"] = json!(acct(*to));
                        "buy_for"
                    }
                };
                (acct(*who), json!({name: b}), coins(funds))
            }
            Op::RemoveBid { who, k, funds } => (acct(*who), json!({"remove_bid": {"collection": coll(k.0), "token_id": tokn(k.1)}}), coins(funds)),
            Op::Accept { who, k, bidder, finder, funds, .. } => (
                acct(*who),
                json!({"accept_bid": {"collection": coll(k.0), "token_id": tokn(k.1), "bidder": acct(*bidder), "finder": n(finder)}}),
                coins(funds),
            ),
            Op::Reject { who, k, bidder, funds } => {
                (acct(*who), json!({"reject_bid": {"collection": coll(k.0), "token_id": tokn(k.1), "bidder": acct(*bidder)}}), coins(funds))
            }
            Op::ColBid { who, c, exp, bps, funds } => {
                (acct(*who), json!({"set_collection_bid": {"collection": coll(*c), "expires": exp.to_string(), "finders_fee_bps": bps}}), coins(funds))
            }
            Op::RemoveColBid { who, c, funds } => (acct(*who), json!({"remove_collection_bid": {"collection": coll(*c)}}), coins(funds)),
            Op::AcceptCol { who, k, bidder, finder, funds, .. } => (
                acct(*who),
                json!({"accept_collection_bid": {"collection": coll(k.0), "token_id": tokn(k.1), "bidder": acct(*bidder), "finder": n(finder)}}),
                coins(funds),
            ),
            Op::Sync { who, k, funds } => (acct(*who), json!({"sync_ask": {"collection": coll(k.0), "token_id": tokn(k.1)}}), coins(funds)),
            Op::StaleAsk { who, k, funds } => (acct(*who), json!({"remove_stale_ask": {"collection": coll(k.0), "token_id": tokn(k.1)}}), coins(funds)),
            Op::StaleBid { who, k, bidder, funds } => {
                (acct(*who), json!({"remove_stale_bid": {"collection": coll(k.0), "token_id": tokn(k.1), "bidder": acct(*bidder)}}), coins(funds))
            }
            Op::StaleCol { who, c, bidder, funds } => {
                (acct(*who), json!({"remove_stale_collection_bid": {"collection": coll(*c), "bidder": acct(*bidder)}}), coins(funds))
            }
            Op::Fake { who, n } => {
                let m = match n % 8 {
                    0 => json!({"update_params": {"trading_fee_bps": 0}}),
                    1 => json!({"add_operator": {"operator": acct(*who)}}),
                    2 => json!({"remove_operator": {"operator": acct(*who)}}),
                    3 => json!({"add_sale_hook": {"hook": hookaddr(0)}}),
                    4 => json!({"remove_bid": {"collection": "nonsense", "token_id": 0}}),
                    5 => json!({"accept_bid": {"collection": coll(0), "token_id": 0, "bidder": "nonsense"}}),
                    6 => json!({"remove_ask_hook": {"hook": hookaddr(0)}}),
                    _ => json!({"set_collection_bid": {"collection": "Stars1NOTLOWER", "expires": "1", "finders_fee_bps": null}}),
                };
                (acct(*who), m, vec![])
            }
            _ => return None,
        })
    }

    /// Model of a completed sale.
    #[allow(clippy::too_many_arguments)]
    fn sale(&self, n: &mut Obs, h: &mut Vec<(String, Value)>, k: Key, price: u128, seller: &str, pay_to: &str, finder: Option<String>, bps: Option<u64>, buyer: &str, to: &str) -> Result<(), Bad> {
        let env = self.env(k.0);
        let m = market();
        let fee = price * n.par.trading / 10_000;
        if env.info_fail {
            return Err("collection info unavailable");
        }
        let finders = match &finder {
            Some(_) => price * bps.unwrap_or(0) as u128 / 10_000,
            None => 0,
        };
        let mut royalty = 0;
        let mut payee = String::new();
        if let Some((p, s)) = &env.royalty {
            royalty = mul_floor(price, dec(s)).ok_or("overflow")?;
            payee = p.clone();
            if royalty > 0 && !p.starts_with("stars1") {
                return Err("royalty payee invalid");
            }
        }
        if fee + finders + royalty > price {
            return Err("fees exceed payment");
        }
        if env.transfer_fail || env.transfer_panic {
            return Err("collection refuses transfer");
        }
        if !self.chain.nft_can_move(&coll(k.0), &tok(k.1), &m) {
            return Err("marketplace may not move the token");
        }
        mv(&mut n.bank, &m, NET, ST, fee);
        if let Some(f) = &finder {
            mv(&mut n.bank, &m, f, ST, finders);
        }
        mv(&mut n.bank, &m, &payee, ST, royalty);
        mv(&mut n.bank, &m, pay_to, ST, price - fee - finders - royalty);
        n.owner.insert(k, Some(to.to_string()));
        for a in n.hooks[2].clone() {
            h.push((
                a,
                json!({"sale_hook": {"collection": coll(k.0), "token_id": tokn(k.1), "price": {"denom": ST, "amount": price.to_string()}, "seller": seller, "buyer": buyer}}),
            ));
        }
        Ok(())
    }

    fn expect(&self, o: &Obs, op: &Op, who: &str, funds: &[Coin]) -> (Exp, Vec<&'static str>, &'static str) {
        let mut n = o.clone();
        let mut h: Vec<(String, Value)> = vec![];
        let m = market();
        let paid = pay_in(&mut n.bank, who, &m, funds);
        let free = funds.is_empty();
        let one = |f: &[Coin]| -> Option<u128> {
            if f.len() == 1 && f[0].denom == ST {
                Some(f[0].amount.u128())
            } else {
                None
            }
        };
        let owns = |k: &Key| !self.env(k.0).owner_fail && o.owner.get(k).cloned().flatten().as_deref() == Some(who);
        let tradable = |k: &Key| {
            let e = self.env(k.0);
            e.info_fail || e.start_trading_ns.map_or(true, |s| s <= o.now)
        };
        let approved = |k: &Key| !self.env(k.0).approval_fail && self.chain.nft_token_approved(&coll(k.0), &tok(k.1), &m);
        let in_range = |e: u64, r: (u64, u64)| e > o.now + r.0 * SEC && e <= o.now + r.1 * SEC;
        let bps_ok = |b: &Option<u64>| b.map_or(true, |b| b as u128 <= o.par.max_finder);
        let is_op = o.par.operators.iter().any(|x| x == who);
        let reply = |r: Result<(), Bad>, n: Obs, h: Vec<(String, Value)>| r.map(|_| (n, h));
        if !paid {
            return (Err("insufficient funds"), vec!["M01"], "broke");
        }
        let hooks = |n: &Obs, kind: usize, v: Value| -> Vec<(String, Value)> { n.hooks[kind].iter().map(|a| (a.clone(), v.clone())).collect() };
        match op {
            Op::SetAsk { k, auction, denom: d, price, recip, reserve, bps, exp, .. } => {
                let r = (|| {
                    if *price == 0 || denom(*d) != ST {
                        return Err("invalid price");
                    }
                    if *price < o.par.min_price {
                        return Err("price too small");
                    }
                    if *price > MAX_PRICE {
                        return Err("price too high");
                    }
                    if !owns(k) {
                        return Err("not the owner");
                    }
                    if !tradable(k) {
                        return Err("not tradable yet");
                    }
                    if !approved(k) {
                        return Err("not approved");
                    }
                    if !in_range(*exp, o.par.ask_exp) {
                        return Err("expiry out of range");
                    }
                    let fee = if free { 0 } else { one(funds).ok_or("wrong payment")? };
                    if fee != o.par.listing {
                        return Err("wrong listing fee");
                    }
                    if !bps_ok(bps) {
                        return Err("finder fee above maximum");
                    }
                    if let Some(r) = reserve {
                        if acct(*r) == who {
                            return Err("reserved for oneself");
                        }
                        if *auction {
                            return Err("reserved auction");
                        }
                    }
                    mv(&mut n.bank, &m, NET, ST, fee);
                    let a = Ask { auction: *auction, seller: who.into(), price: *price, recip: oaddr(recip), reserve: oaddr(reserve), bps: *bps, exp: *exp, active: true };
                    h.extend(hooks(&n, 0, json!({"ask_created_hook": {"ask": Self::ask_json(*k, &a)}})));
                    n.asks.insert(*k, a);
                    Ok(())
                })();
                (reply(r, n, h), vec!["M04", "M05", "M06", "M09"], "set_ask")
            }
            Op::RemoveAsk { k, .. } => {
                let r = (|| {
                    if !free {
                        return Err("payment refused");
                    }
                    if !owns(k) {
                        return Err("not the owner");
                    }
                    let a = n.asks.remove(k).ok_or("no ask")?;
                    h.extend(hooks(&n, 0, json!({"ask_deleted_hook": {"ask": Self::ask_json(*k, &a)}})));
                    Ok(())
                })();
                (reply(r, n, h), vec!["M04", "M05"], "remove_ask")
            }
            Op::Price { k, denom: d, price, .. } => {
                let r = (|| {
                    if !free {
                        return Err("payment refused");
                    }
                    if !owns(k) {
                        return Err("not the owner");
                    }
                    if *price == 0 || denom(*d) != ST {
                        return Err("invalid price");
                    }
                    if *price < o.par.min_price {
                        return Err("price too small");
                    }
                    if *price > MAX_PRICE {
                        return Err("price too high");
                    }
                    let a = n.asks.get_mut(k).ok_or("no ask")?;
                    if !a.active {
                        return Err("ask inactive");
                    }
                    if a.exp <= o.now {
                        return Err("ask expired");
                    }
                    a.price = *price;
                    let a = a.clone();
                    h.extend(hooks(&n, 0, json!({"ask_updated_hook": {"ask": Self::ask_json(*k, &a)}})));
                    Ok(())
                })();
                (reply(r, n, h), vec!["M04", "M05", "M06", "M09"], "update_price")
            }
            Op::Bid { who: w, k, mode, to, exp, finder, bps, .. } => {
                let mut tags = vec!["M05", "M06", "M01"];
                let r = (|| {
                    if oaddr(finder).as_deref() == Some(who) {
                        return Err("finder is the bidder");
                    }
                    if !bps_ok(bps) {
                        return Err("finder fee above maximum");
                    }
                    let price = one(funds).ok_or("wrong payment")?;
                    if price < o.par.min_price {
                        return Err("price too small");
                    }
                    if !in_range(*exp, o.par.bid_exp) {
                        return Err("expiry out of range");
                    }
                    let bk = (k.0, k.1, *w);
                    if let Some(old) = n.bids.remove(&bk) {
                        mv(&mut n.bank, &m, who, ST, old.price);
                    }
                    let ask = n.asks.get(k).cloned();
                    if let Some(a) = &ask {
                        if a.exp <= o.now {
                            return Err("ask expired");
                        }
                        if !a.active {
                            return Err("ask inactive");
                        }
                        if a.reserve.as_ref().map_or(false, |r| r != who) {
                            return Err("reserved for another");
                        }
                        if a.auction && price < a.price {
                            return Err("below the auction ask");
                        }
                        if !a.auction && price > a.price {
                            return Err("above the fixed price");
                        }
                    } else if *mode >= 2 {
                        return Err("not for sale");
                    }
                    match ask {
                        Some(a) if !a.auction && price == a.price => {
                            if self.env(k.0).owner_fail || o.owner.get(k).cloned().flatten().as_deref() != Some(a.seller.as_str()) {
                                return Err("seller no longer owns the token");
                            }
                            n.asks.remove(k);
                            let pay_to = a.recip.clone().unwrap_or(a.seller.clone());
                            let to = if *mode == 3 { acct(*to) } else { who.to_string() };
                            self.sale(&mut n, &mut h, *k, price, &a.seller, &pay_to, oaddr(finder), a.bps, who, &to)
                        }
                        _ => {
                            let b = Bid { price, bps: *bps, exp: *exp };
                            h.extend(hooks(&n, 1, json!({"bid_created_hook": {"bid": Self::bid_json(bk, &b)}})));
                            n.bids.insert(bk, b);
                            Ok(())
                        }
                    }
                })();
                let ask = o.asks.get(k);
                if ask.map_or(false, |a| !a.auction && one(funds) == Some(a.price)) {
                    tags.extend(["M02", "M04"]);
                }
                if o.bids.contains_key(&(k.0, k.1, *w)) {
                    tags.push("M03");
                }
                if one(funds).map_or(true, |p| p <= o.par.min_price) || !bps_ok(bps) {
                    tags.push("M09");
                }
                (reply(r, n, h), tags, ["set_bid", "set_bid", "buy_now", "buy_for"][(*mode % 4) as usize])
            }
            Op::RemoveBid { who: w, k, .. } => {
                let r = (|| {
                    if !free {
                        return Err("payment refused");
                    }
                    let bk = (k.0, k.1, *w);
                    let b = n.bids.remove(&bk).ok_or("no bid")?;
                    mv(&mut n.bank, &m, who, ST, b.price);
                    h.extend(hooks(&n, 1, json!({"bid_deleted_hook": {"bid": Self::bid_json(bk, &b)}})));
                    Ok(())
                })();
                (reply(r, n, h), vec!["M03", "M04"], "remove_bid")
            }
            Op::Accept { k, bidder, finder, .. } => {
                let r = (|| {
                    if !free {
                        return Err("payment refused");
                    }
                    if !owns(k) {
                        return Err("not the owner");
                    }
                    if !tradable(k) {
                        return Err("not tradable yet");
                    }
                    let b = n.bids.remove(&(k.0, k.1, *bidder)).ok_or("no bid")?;
                    if b.exp <= o.now {
                        return Err("bid expired");
                    }
                    n.asks.remove(k);
                    self.sale(&mut n, &mut h, *k, b.price, who, who, oaddr(finder), b.bps, &acct(*bidder), &acct(*bidder))
                })();
                (reply(r, n, h), vec!["M02", "M04", "M05", "M06"], "accept_bid")
            }
            Op::Reject { k, bidder, .. } => {
                let r = (|| {
                    if !free {
                        return Err("payment refused");
                    }
                    if !owns(k) {
                        return Err("not the owner");
                    }
                    let bk = (k.0, k.1, *bidder);
                    let b = n.bids.remove(&bk).ok_or("no bid")?;
                    mv(&mut n.bank, &m, &acct(*bidder), ST, b.price);
                    h.extend(hooks(&n, 1, json!({"bid_deleted_hook": {"bid": Self::bid_json(bk, &b)}})));
                    Ok(())
                })();
                (reply(r, n, h), vec!["M03", "M04"], "reject_bid")
            }
            Op::ColBid { who: w, c, exp, bps, .. } => {
                let r = (|| {
                    let price = one(funds).ok_or("wrong payment")?;
                    if price < o.par.min_price {
                        return Err("price too small");
                    }
                    if !in_range(*exp, o.par.bid_exp) {
                        return Err("expiry out of range");
                    }
                    if !bps_ok(bps) {
                        return Err("finder fee above maximum");
                    }
                    if let Some(old) = n.cbids.insert((*c, *w), Bid { price, bps: *bps, exp: *exp }) {
                        mv(&mut n.bank, &m, who, ST, old.price);
                    }
                    Ok(())
                })();
                (reply(r, n, h), vec!["M01", "M03", "M06", "M09"], "set_collection_bid")
            }
            Op::RemoveColBid { who: w, c, .. } => {
                let r = (|| {
                    if !free {
                        return Err("payment refused");
                    }
                    let b = n.cbids.remove(&(*c, *w)).ok_or("no bid")?;
                    mv(&mut n.bank, &m, who, ST, b.price);
                    Ok(())
                })();
                (reply(r, n, h), vec!["M03", "M04"], "remove_collection_bid")
            }
            Op::AcceptCol { k, bidder, finder, .. } => {
                let r = (|| {
                    if !free {
                        return Err("payment refused");
                    }
                    if !owns(k) {
                        return Err("not the owner");
                    }
                    if !tradable(k) {
                        return Err("not tradable yet");
                    }
                    let b = n.cbids.remove(&(k.0, *bidder)).ok_or("no bid")?;
                    if b.exp <= o.now {
                        return Err("bid expired");
                    }
                    n.asks.remove(k);
                    self.sale(&mut n, &mut h, *k, b.price, who, who, oaddr(finder), b.bps, &acct(*bidder), &acct(*bidder))
                })();
                (reply(r, n, h), vec!["M02", "M04", "M05", "M06"], "accept_collection_bid")
            }
            Op::Sync { k, .. } => {
                let r = (|| {
                    if !free {
                        return Err("payment refused");
                    }
                    if !is_op {
                        return Err("not an operator");
                    }
                    let ap = approved(k);
                    let a = n.asks.get_mut(k).ok_or("no ask")?;
                    if a.active == ap {
                        return Err("unchanged");
                    }
                    a.active = ap;
                    let a = a.clone();
                    h.extend(hooks(&n, 0, json!({"ask_updated_hook": {"ask": Self::ask_json(*k, &a)}})));
                    Ok(())
                })();
                (reply(r, n, h), vec!["M04", "M05", "M06"], "sync_ask")
            }
            Op::StaleAsk { k, .. } => {
                let r = (|| {
                    if !free {
                        return Err("payment refused");
                    }
                    if !is_op {
                        return Err("not an operator");
                    }
                    let a = n.asks.remove(k).ok_or("no ask")?;
                    let has_owner = !self.env(k.0).owner_fail && o.owner.get(k).cloned().flatten().is_some();
                    if has_owner && approved(k) && a.exp > o.now {
                        return Err("ask not stale");
                    }
                    h.extend(hooks(&n, 0, json!({"ask_deleted_hook": {"ask": Self::ask_json(*k, &a)}})));
                    Ok(())
                })();
                (reply(r, n, h), vec!["M04", "M06"], "remove_stale_ask")
            }
            Op::StaleBid { k, bidder, .. } => {
                let r = (|| {
                    if !free {
                        return Err("payment refused");
                    }
                    if !is_op {
                        return Err("not an operator");
                    }
                    let bk = (k.0, k.1, *bidder);
                    let b = n.bids.remove(&bk).ok_or("no bid")?;
                    if b.exp + o.par.stale.unwrap_or(0) * SEC > o.now {
                        return Err("bid not stale");
                    }
                    let rew = b.price * o.par.reward / 10_000;
                    mv(&mut n.bank, &m, &acct(*bidder), ST, b.price - rew);
                    mv(&mut n.bank, &m, who, ST, rew);
                    h.extend(hooks(&n, 1, json!({"bid_deleted_hook": {"bid": Self::bid_json(bk, &b)}})));
                    Ok(())
                })();
                (reply(r, n, h), vec!["M03", "M04", "M06"], "remove_stale_bid")
            }
            Op::StaleCol { c, bidder, .. } => {
                let r = (|| {
                    if !free {
                        return Err("payment refused");
                    }
                    if !is_op {
                        return Err("not an operator");
                    }
                    let b = n.cbids.remove(&(*c, *bidder)).ok_or("no bid")?;
                    if b.exp + o.par.stale.unwrap_or(0) * SEC > o.now {
                        return Err("bid not stale");
                    }
                    let rew = b.price * o.par.reward / 10_000;
                    mv(&mut n.bank, &m, &acct(*bidder), ST, b.price - rew);
                    mv(&mut n.bank, &m, who, ST, rew);
                    Ok(())
                })();
                (reply(r, n, h), vec!["M03", "M04", "M06"], "remove_stale_collection_bid")
            }
            _ => (Err("not a contract message"), vec!["M09", "M04"], "fake"),
        }
    }

    fn sudo_msg(op: &Op) -> Value {
        match op {
            Op::Params(p) => {
                let er = |x: &Option<(u64, u64)>| x.map(|(a, b)| json!({"min": a, "max": b}));
                json!({"update_params": {"trading_fee_bps": p.trading, "ask_expiry": er(&p.ask_exp), "bid_expiry": er(&p.bid_exp), "operators": null,
                    "max_finders_fee_bps": p.max_finder, "min_price": p.min_price.map(|x| x.to_string()), "stale_bid_duration": p.stale,
                    "bid_removal_reward_bps": p.reward, "listing_fee": p.listing.map(|x| x.to_string())}})
            }
            Op::Operator { add, who } => {
                if *add {
                    json!({"add_operator": {"operator": acct(*who)}})
                } else {
                    json!({"remove_operator": {"operator": acct(*who)}})
                }
            }
            Op::Hook { kind, add, n } => {
                let name = format!("{}_{}_hook", if *add { "add" } else { "remove" }, ["ask", "bid", "sale"][*kind as usize % 3]);
                json!({name: {"hook": hookaddr(*n)}})
            }
            _ => unreachable!(),
        }
    }

    fn sudo_expect(o: &Obs, op: &Op) -> Exp {
        let mut n = o.clone();
        match op {
            Op::Params(p) => {
                for (x, e) in [(p.trading, "trading fee above 100%"), (p.max_finder, "finder fee above 100%"), (p.reward, "reward above 100%")] {
                    if x.map_or(false, |x| x > 10_000) {
                        return Err(e);
                    }
                }
                for e in [p.ask_exp, p.bid_exp].into_iter().flatten() {
                    if e.0 > e.1 {
                        return Err("expiry range reversed");
                    }
                }
                let q = &mut n.par;
                if let Some(x) = p.trading {
                    q.trading = x as u128;
                }
                if let Some(x) = p.max_finder {
                    q.max_finder = x as u128;
                }
                if let Some(x) = p.reward {
                    q.reward = x as u128;
                }
                if let Some(x) = p.ask_exp {
                    q.ask_exp = x;
                }
                if let Some(x) = p.bid_exp {
                    q.bid_exp = x;
                }
                if let Some(x) = p.min_price {
                    q.min_price = x;
                }
                if let Some(x) = p.stale {
                    q.stale = Some(x);
                }
                if let Some(x) = p.listing {
                    q.listing = x;
                }
            }
            Op::Operator { add, who } => {
                let a = acct(*who);
                let has = n.par.operators.contains(&a);
                if has == *add {
                    return Err("operator already so");
                }
                if *add {
                    n.par.operators.push(a);
                    n.par.operators.sort();
                } else {
                    n.par.operators.retain(|x| *x != a);
                }
            }
            Op::Hook { kind, add, n: i } => {
                let a = hookaddr(*i);
                let l = &mut n.hooks[*kind as usize % 3];
                let has = l.contains(&a);
                if *add {
                    if l.len() >= 5 {
                        return Err("too many hooks");
                    }
                    if has {
                        return Err("hook already so");
                    }
                    l.push(a);
                } else {
                    if !has {
                        return Err("hook already so");
                    }
                    l.retain(|x| *x != a);
                }
            }
            _ => {}
        }
        Ok((n, vec![]))
    }

    fn compare(&self, exp: &Obs, got: &Obs, props: &[&str], what: &str, rec: &mut Rec) {
        let mut out: Vec<(Vec<&str>, &str, String)> = vec![];
        let with = |extra: &[&'static str]| -> Vec<&str> {
            let mut v: Vec<&str> = props.to_vec();
            for e in extra {
                if !v.contains(e) {
                    v.push(e);
                }
            }
            v
        };
        let bd = bank_diff(&exp.bank, &got.bank);
        if !bd.is_empty() {
            let txt: Vec<String> = bd.iter().map(|(a, d, x)| format!("{}: {:+}{}", nick(a), x, d)).collect();
            out.push((with(&["M01"]), "balances", format!("balances off by {}", txt.join(", "))));
        }
        for (k, e) in &exp.owner {
            if got.owner.get(k) != Some(e) {
                out.push((with(&["M04"]), "owner", format!("NFT {k:?}: expected owner {:?}, is {:?}", e.as_ref().map(|a| nick(a)), got.owner.get(k).cloned().flatten().map(|a| nick(&a)))));
            }
        }
        if exp.asks != got.asks {
            for k in exp.owner.keys() {
                if exp.asks.get(k) != got.asks.get(k) {
                    out.push((with(&["M05", "M08", "M02"]), "ask", format!("ask {k:?}: expected {:?}, is {:?}", exp.asks.get(k), got.asks.get(k))));
                }
            }
        }
        let mut bad = vec![];
        for k in exp.bids.keys().chain(got.bids.keys()) {
            if exp.bids.get(k) != got.bids.get(k) && !bad.contains(k) {
                bad.push(*k);
                out.push((with(&["M01", "M05", "M08", "M02"]), "bid", format!("bid {k:?}: expected {:?}, is {:?}", exp.bids.get(k), got.bids.get(k))));
            }
        }
        let mut bad = vec![];
        for k in exp.cbids.keys().chain(got.cbids.keys()) {
            if exp.cbids.get(k) != got.cbids.get(k) && !bad.contains(k) {
                bad.push(*k);
                out.push((with(&["M01", "M08", "M02"]), "collection-bid", format!("collection bid {k:?}: expected {:?}, is {:?}", exp.cbids.get(k), got.cbids.get(k))));
            }
        }
        let sorted = |p: &Par| {
            let mut p = p.clone();
            p.operators.sort();
            p
        };
        if sorted(&exp.par) != sorted(&got.par) {
            out.push((with(&["M09"]), "params", format!("parameters expected {:?}, are {:?}", exp.par, got.par)));
        }
        for i in 0..3 {
            let s = |v: &Vec<String>| {
                let mut v = v.clone();
                v.sort();
                v
            };
            if s(&exp.hooks[i]) != s(&got.hooks[i]) {
                out.push((with(&["M09", "M07"]), "hooks", format!("hook list {i} expected {:?}, is {:?}", exp.hooks[i], got.hooks[i])));
            }
        }
        if exp.version != got.version {
            out.push((with(&["M09"]), "version", format!("stored version expected {}, is {}", exp.version, got.version)));
        }
        for (p, s, d) in out {
            rec.violate(&p, format!("v1:{what}:{s}"), d);
        }
    }

    fn invariants(&self, o: &Obs, rec: &mut Rec) {
        let need: u128 = o.bids.values().chain(o.cbids.values()).map(|b| b.price).sum();
        for d in DENOMS {
            let b = bal(&o.bank, &market(), d);
            let n = if d == ST { need } else { 0 };
            if b != n {
                rec.violate(&["M01"], "v1:inv:escrow", format!("contract holds {b}{d}, open bids sum to {n}{d}"));
            }
        }
        for (k, ow) in &o.owner {
            if ow.as_deref() == Some(market().as_str()) {
                rec.violate(&["M04"], "v1:inv:custody", format!("marketplace owns token {k:?}"));
            }
        }
        for (k, a) in &o.asks {
            if a.price == 0 || a.price > MAX_PRICE {
                rec.violate(&["M09"], "v1:inv:ask-price", format!("ask {k:?} has price {}", a.price));
            }
        }
        if supply(&o.bank) != self.supply0 {
            rec.violate(&["M01"], "v1:inv:supply", "coins were created or destroyed".to_string());
        }
    }

    /// Walk a listing page by page and compare with the expected list.
    fn walk(&self, name: &str, lim: Option<u32>, exp: &[Value], ask: &dyn Fn(Option<&Value>, Option<u32>) -> Value, field: &str, rec: &mut Rec) {
        let mut got: Vec<Value> = vec![];
        let mut last: Option<Value> = None;
        for _ in 0..2000 {
            let r = match self.q(ask(last.as_ref(), lim)) {
                Ok(r) => r,
                Err(e) => {
                    rec.violate(&["M08"], format!("v1:query:{name}:failed"), e);
                    return;
                }
            };
            let page = r[field].as_array().cloned().unwrap_or_default();
            if let Some(l) = lim {
                let want = (exp.len().saturating_sub(got.len())).min(l.min(100) as usize);
                if page.len() != want {
                    rec.violate(&["M08"], format!("v1:query:{name}:page-size"), format!("page of {} entries, expected {want} (limit {l})", page.len()));
                    return;
                }
            }
            if page.is_empty() {
                break;
            }
            last = page.last().cloned();
            got.extend(page);
            if got.len() > exp.len() + 5 {
                break;
            }
        }
        if got != exp {
            let s = |v: &[Value]| v.iter().map(|x| format!("{}/{}/{}@{}", nick(x["collection"].as_str().unwrap_or(x.as_str().unwrap_or(""))), x["token_id"], nick(x["bidder"].as_str().unwrap_or("")), x["price"])).collect::<Vec<_>>().join(" ");
            rec.violate(&["M08"], format!("v1:query:{name}"), format!("limit {lim:?}: expected [{}], got [{}]", s(exp), s(&got)));
        }
    }

    /// A page that starts next to an entry which is gone, or never was, starts at the next one that is there.
    fn page(&self, name: &str, exp: Vec<Value>, q: Value, field: &str, rec: &mut Rec) {
        let n = q[name]["limit"].as_u64().map_or(exp.len(), |l| l.min(100) as usize);
        match self.q(q.clone()) {
            Ok(r) => {
                let got = r[field].as_array().cloned().unwrap_or_default();
                if got.iter().ne(exp.iter().take(n).take(got.len().max(1))) {
                    rec.violate(&["M08"], format!("v1:query:{name}:page-from"), format!("{q}: expected {exp:?}, got {got:?}"));
                }
            }
            Err(e) => rec.violate(&["M08"], format!("v1:query:{name}:failed"), e),
        }
    }

    fn check_pages(&self, o: &Obs, mut x: u64, rec: &mut Rec) {
        let mut next = |n: u64| crate::rng::splitmix(&mut x) % n;
        let (c, t, u, c2) = (next(self.cfg.colls as u64) as u8, next(5) as u8, next(self.cfg.users as u64) as u8, next(3) as u8);
        let n = [Some(0u32), Some(1), Some(2), Some(50), Some(100)][next(5) as usize];
        let (cn, un, t) = (coll(c), acct(u), tokn(t));
        let prices: Vec<u128> = o.asks.values().map(|a| a.price).chain(o.bids.values().map(|b| b.price)).chain(o.cbids.values().map(|b| b.price)).collect();
        let p = if prices.is_empty() { 0 } else { prices[next(prices.len() as u64) as usize] };
        let p = [p, p, p.saturating_add(1), p.saturating_sub(1)][next(4) as usize];
        let flip = |mut v: Vec<Value>| {
            v.reverse();
            v
        };
        let mut cs: Vec<String> = o.asks.keys().map(|k| coll(k.0)).filter(|x| *x > coll(c2)).collect();
        cs.sort();
        cs.dedup();
        self.page("collections", cs.iter().map(|c| json!(c)).collect(), json!({"collections": {"start_after": coll(c2), "limit": n}}), "collections", rec);
        let all = [Some(true), Some(false), None][next(3) as usize];
        let mut a: Vec<(Key, &Ask)> = o.asks.iter().filter(|(_, a)| all == Some(true) || a.active).map(|(k, a)| (*k, a)).collect();
        let js = |v: &[(Key, &Ask)], f: &dyn Fn(&Key, &Ask) -> bool| -> Vec<Value> { v.iter().filter(|(k, a)| f(k, a)).map(|(k, a)| Self::ask_json(*k, a)).collect() };
        a.sort_by_key(|(k, _)| (coll(k.0), tokn(k.1)));
        self.page("asks", js(&a, &|k, _| k.0 == c && tokn(k.1) > t), json!({"asks": {"collection": cn, "include_inactive": all, "start_after": t, "limit": n}}), "asks", rec);
        self.page("reverse_asks", flip(js(&a, &|k, _| k.0 == c && tokn(k.1) < t)), json!({"reverse_asks": {"collection": cn, "include_inactive": all, "start_before": t, "limit": n}}), "asks", rec);
        self.page("asks_by_seller", js(&a, &|k, a| a.seller == un && (coll(k.0), tokn(k.1)) > (coll(c2), t)), json!({"asks_by_seller": {"seller": un, "include_inactive": all, "start_after": {"collection": coll(c2), "token_id": t}, "limit": n}}), "asks", rec);
        a.sort_by_key(|(k, a)| (a.price, tokn(k.1)));
        let off = json!({"price": p.to_string(), "token_id": t});
        self.page("asks_sorted_by_price", js(&a, &|k, a| k.0 == c && (a.price, tokn(k.1)) > (p, t)), json!({"asks_sorted_by_price": {"collection": cn, "include_inactive": all, "start_after": off, "limit": n}}), "asks", rec);
        self.page("reverse_asks_sorted_by_price", flip(js(&a, &|k, a| k.0 == c && (a.price, tokn(k.1)) < (p, t))), json!({"reverse_asks_sorted_by_price": {"collection": cn, "include_inactive": all, "start_before": off, "limit": n}}), "asks", rec);
        let mut b: Vec<((u8, u8, u8), &Bid)> = o.bids.iter().map(|(k, b)| (*k, b)).collect();
        let js = |v: &[((u8, u8, u8), &Bid)], f: &dyn Fn(&(u8, u8, u8), &Bid) -> bool| -> Vec<Value> { v.iter().filter(|(k, b)| f(k, b)).map(|(k, b)| Self::bid_json(*k, b)).collect() };
        b.sort_by_key(|(k, _)| (coll(k.0), tokn(k.1), acct(k.2)));
        self.page("bids", js(&b, &|k, _| k.0 == c && tokn(k.1) == t && acct(k.2) > un), json!({"bids": {"collection": cn, "token_id": t, "start_after": un, "limit": n}}), "bids", rec);
        self.page("bids_by_bidder", js(&b, &|k, _| k.2 == u && (coll(k.0), tokn(k.1)) > (coll(c2), t)), json!({"bids_by_bidder": {"bidder": un, "start_after": {"collection": coll(c2), "token_id": t}, "limit": n}}), "bids", rec);
        b.sort_by_key(|(k, b)| (b.price, tokn(k.1), acct(k.2)));
        let off = json!({"price": p.to_string(), "token_id": t, "bidder": un});
        self.page("bids_sorted_by_price", js(&b, &|k, b| k.0 == c && (b.price, tokn(k.1), acct(k.2)) > (p, t, un.clone())), json!({"bids_sorted_by_price": {"collection": cn, "start_after": off, "limit": n}}), "bids", rec);
        self.page("reverse_bids_sorted_by_price", flip(js(&b, &|k, b| k.0 == c && (b.price, tokn(k.1), acct(k.2)) < (p, t, un.clone()))), json!({"reverse_bids_sorted_by_price": {"collection": cn, "start_before": off, "limit": n}}), "bids", rec);
        let mut b: Vec<((u8, u8), &Bid)> = o.cbids.iter().map(|(k, b)| (*k, b)).collect();
        let js = |v: &[((u8, u8), &Bid)], f: &dyn Fn(&(u8, u8), &Bid) -> bool| -> Vec<Value> { v.iter().filter(|(k, b)| f(k, b)).map(|(k, b)| Self::cbid_json(*k, b)).collect() };
        b.sort_by_key(|(k, _)| coll(k.0));
        self.page("collection_bids_by_bidder", js(&b, &|k, _| k.1 == u && coll(k.0) > coll(c2)), json!({"collection_bids_by_bidder": {"bidder": un, "start_after": {"collection": coll(c2), "token_id": t}, "limit": n}}), "bids", rec);
        b.sort_by_key(|(k, b)| (b.price, acct(k.1)));
        let off = json!({"price": p.to_string(), "collection": cn, "bidder": un});
        self.page("collection_bids_sorted_by_price", js(&b, &|k, b| k.0 == c && (b.price, acct(k.1)) > (p, un.clone())), json!({"collection_bids_sorted_by_price": {"collection": cn, "start_after": off, "limit": n}}), "bids", rec);
        self.page("reverse_collection_bids_sorted_by_price", flip(js(&b, &|k, b| k.0 == c && (b.price, acct(k.1)) < (p, un.clone()))), json!({"reverse_collection_bids_sorted_by_price": {"collection": cn, "start_before": off, "limit": n}}), "bids", rec);
    }

    fn check_queries(&self, o: &Obs, seedy: u64, rec: &mut Rec) {
        rec.stat("query_sweeps");
        self.check_pages(o, seedy, rec);
        let lim = [Some(1u32), Some(2), Some(3), Some(10), Some(100), None, Some(5), Some(4_000_000_000)][(seedy % 8) as usize];
        let inact = [None, Some(false), Some(true)][((seedy >> 4) % 3) as usize];
        let all_asks: Vec<(Key, Value)> = o.asks.iter().map(|(k, a)| (*k, Self::ask_json(*k, a))).collect();
        let vis = |k: &Key| inact == Some(true) || o.asks[k].active;
        // collections
        let mut cs: Vec<String> = o.asks.keys().map(|k| coll(k.0)).collect();
        cs.sort();
        cs.dedup();
        let cv: Vec<Value> = cs.iter().map(|c| json!(c)).collect();
        self.walk("collections", lim, &cv, &|l, n| json!({"collections": {"start_after": l, "limit": n}}), "collections", rec);
        for c in 0..self.cfg.colls {
            let cn = coll(c);
            let mine: Vec<(Key, Value)> = all_asks.iter().filter(|(k, _)| k.0 == c).cloned().collect();
            let mut v: Vec<&(Key, Value)> = mine.iter().filter(|(k, _)| vis(k)).collect();
            v.sort_by_key(|(k, _)| tokn(k.1));
            let asc: Vec<Value> = v.iter().map(|x| x.1.clone()).collect();
            let desc: Vec<Value> = asc.iter().rev().cloned().collect();
            self.walk("asks", lim, &asc, &|l, n| json!({"asks": {"collection": cn, "include_inactive": inact, "start_after": l.map(|x| x["token_id"].clone()), "limit": n}}), "asks", rec);
            self.walk("reverse_asks", lim, &desc, &|l, n| json!({"reverse_asks": {"collection": cn, "include_inactive": inact, "start_before": l.map(|x| x["token_id"].clone()), "limit": n}}), "asks", rec);
            v.sort_by_key(|(k, _)| (o.asks[k].price, tokn(k.1)));
            let asc: Vec<Value> = v.iter().map(|x| x.1.clone()).collect();
            let desc: Vec<Value> = asc.iter().rev().cloned().collect();
            let off = |l: Option<&Value>| l.map(|x| json!({"price": x["price"], "token_id": x["token_id"]}));
            self.walk("asks_sorted_by_price", lim, &asc, &|l, n| json!({"asks_sorted_by_price": {"collection": cn, "include_inactive": inact, "start_after": off(l), "limit": n}}), "asks", rec);
            self.walk("reverse_asks_sorted_by_price", lim, &desc, &|l, n| json!({"reverse_asks_sorted_by_price": {"collection": cn, "include_inactive": inact, "start_before": off(l), "limit": n}}), "asks", rec);
            match self.q(json!({"ask_count": {"collection": cn}})) {
                Ok(r) if r["count"] == mine.len() => {}
                r => rec.violate(&["M08"], "v1:query:ask_count", format!("expected {}, got {r:?}", mine.len())),
            }
            // bids of the collection
            let mut b: Vec<((u8, u8, u8), &Bid)> = o.bids.iter().filter(|(k, _)| k.0 == c).map(|(k, b)| (*k, b)).collect();
            b.sort_by_key(|(k, b)| (b.price, tokn(k.1), acct(k.2)));
            let asc: Vec<Value> = b.iter().map(|(k, b)| Self::bid_json(*k, b)).collect();
            let desc: Vec<Value> = asc.iter().rev().cloned().collect();
            let off = |l: Option<&Value>| l.map(|x| json!({"price": x["price"], "token_id": x["token_id"], "bidder": x["bidder"]}));
            self.walk("bids_sorted_by_price", lim, &asc, &|l, n| json!({"bids_sorted_by_price": {"collection": cn, "start_after": off(l), "limit": n}}), "bids", rec);
            self.walk("reverse_bids_sorted_by_price", lim, &desc, &|l, n| json!({"reverse_bids_sorted_by_price": {"collection": cn, "start_before": off(l), "limit": n}}), "bids", rec);
            for t in 0..self.cfg.tokens {
                let mut b: Vec<((u8, u8, u8), &Bid)> = o.bids.iter().filter(|(k, _)| k.0 == c && k.1 == t).map(|(k, b)| (*k, b)).collect();
                b.sort_by_key(|(k, _)| acct(k.2));
                let asc: Vec<Value> = b.iter().map(|(k, b)| Self::bid_json(*k, b)).collect();
                self.walk("bids", lim, &asc, &|l, n| json!({"bids": {"collection": cn, "token_id": tokn(t), "start_after": l.map(|x| x["bidder"].clone()), "limit": n}}), "bids", rec);
            }
            let mut b: Vec<((u8, u8), &Bid)> = o.cbids.iter().filter(|(k, _)| k.0 == c).map(|(k, b)| (*k, b)).collect();
            b.sort_by_key(|(k, b)| (b.price, acct(k.1)));
            let asc: Vec<Value> = b.iter().map(|(k, b)| Self::cbid_json(*k, b)).collect();
            let desc: Vec<Value> = asc.iter().rev().cloned().collect();
            let off = |l: Option<&Value>| l.map(|x| json!({"price": x["price"], "collection": x["collection"], "bidder": x["bidder"]}));
            self.walk("collection_bids_sorted_by_price", lim, &asc, &|l, n| json!({"collection_bids_sorted_by_price": {"collection": cn, "start_after": off(l), "limit": n}}), "bids", rec);
            self.walk("reverse_collection_bids_sorted_by_price", lim, &desc, &|l, n| json!({"reverse_collection_bids_sorted_by_price": {"collection": cn, "start_before": off(l), "limit": n}}), "bids", rec);
        }
        for u in 0..self.cfg.users {
            let un = acct(u);
            let mut v: Vec<&(Key, Value)> = all_asks.iter().filter(|(k, _)| o.asks[k].seller == un && vis(k)).collect();
            v.sort_by_key(|(k, _)| (coll(k.0), tokn(k.1)));
            let asc: Vec<Value> = v.iter().map(|x| x.1.clone()).collect();
            let off = |l: Option<&Value>| l.map(|x| json!({"collection": x["collection"], "token_id": x["token_id"]}));
            self.walk("asks_by_seller", lim, &asc, &|l, n| json!({"asks_by_seller": {"seller": un, "include_inactive": inact, "start_after": off(l), "limit": n}}), "asks", rec);
            let mut b: Vec<((u8, u8, u8), &Bid)> = o.bids.iter().filter(|(k, _)| k.2 == u).map(|(k, b)| (*k, b)).collect();
            b.sort_by_key(|(k, _)| (coll(k.0), tokn(k.1)));
            let asc: Vec<Value> = b.iter().map(|(k, b)| Self::bid_json(*k, b)).collect();
            self.walk("bids_by_bidder", lim, &asc, &|l, n| json!({"bids_by_bidder": {"bidder": un, "start_after": off(l), "limit": n}}), "bids", rec);
            b.sort_by_key(|(k, b)| (b.exp / SEC, coll(k.0), tokn(k.1)));
            let asc: Vec<Value> = b.iter().map(|(k, b)| Self::bid_json(*k, b)).collect();
            self.walk("bids_by_bidder_sorted_by_expiration", lim, &asc, &|l, n| json!({"bids_by_bidder_sorted_by_expiration": {"bidder": un, "start_after": off(l), "limit": n}}), "bids", rec);
            let mut b: Vec<((u8, u8), &Bid)> = o.cbids.iter().filter(|(k, _)| k.1 == u).map(|(k, b)| (*k, b)).collect();
            b.sort_by_key(|(k, _)| coll(k.0));
            let asc: Vec<Value> = b.iter().map(|(k, b)| Self::cbid_json(*k, b)).collect();
            self.walk("collection_bids_by_bidder", lim, &asc, &|l, n| json!({"collection_bids_by_bidder": {"bidder": un, "start_after": l.map(|x| json!({"collection": x["collection"], "token_id": 0})), "limit": n}}), "bids", rec);
            b.sort_by_key(|(k, b)| (b.exp / SEC, coll(k.0)));
            let asc: Vec<Value> = b.iter().map(|(k, b)| Self::cbid_json(*k, b)).collect();
            self.walk("collection_bids_by_bidder_sorted_by_expiration", lim, &asc, &|l, n| json!({"collection_bids_by_bidder_sorted_by_expiration": {"bidder": un, "start_after": l.map(|x| json!({"price": x["price"], "collection": x["collection"], "bidder": x["bidder"]})), "limit": n}}), "bids", rec);
        }
    }

    /// A message a malicious contract sends back; its sender has no rights, so it must be refused.
    fn nested(&self, r: &mut Rng, o: &Obs) -> Value {
        let k = (r.below(self.cfg.colls as u64) as u8, r.below(self.cfg.tokens as u64) as u8);
        let k = if !o.asks.is_empty() && r.pct(60) { *r.pick(&o.asks.keys().copied().collect::<Vec<_>>()) } else { k };
        let b = r.below(self.cfg.users as u64) as u8;
        let (c, t) = (coll(k.0), tokn(k.1));
        match r.below(8) {
            0 => json!({"remove_bid": {"collection": c, "token_id": t}}),
            1 => json!({"accept_bid": {"collection": c, "token_id": t, "bidder": acct(b)}}),
            2 => json!({"remove_ask": {"collection": c, "token_id": t}}),
            3 => json!({"buy_now": {"collection": c, "token_id": t, "expires": (o.now + 100 * SEC).to_string()}}),
            4 => json!({"remove_stale_bid": {"collection": c, "token_id": t, "bidder": acct(b)}}),
            5 => json!({"reject_bid": {"collection": c, "token_id": t, "bidder": acct(b)}}),
            6 => json!({"accept_collection_bid": {"collection": c, "token_id": t, "bidder": acct(b)}}),
            _ => json!({"remove_collection_bid": {"collection": c}}),
        }
    }

    /// Fills the book with orders before the history starts. Nothing is judged here.
    fn fill(&mut self) {
        let mut r = Rng::new(self.cfg.crowd);
        let w = std::mem::replace(&mut self.cfg.w, vec![0, 12, 0, 0, 6, 0, 0, 0, 6, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
        let n = 5 * self.cfg.tokens as usize * self.cfg.colls as usize / 2;
        let mut seen = None;
        for i in 0..n {
            if i % 24 == 0 {
                seen = self.observe().ok();
            }
            let Some(o) = &seen else { break };
            let op = self.gen_op(&mut r, &o.clone());
            self.pre(&op);
            if let Some((from, msg, funds)) = self.msg(&op) {
                self.chain.tx(&from, &market(), &bin(&msg), &funds, Fault::None);
            }
        }
        self.cfg.w = w;
    }

    fn gen_op(&mut self, r: &mut Rng, o: &Obs) -> Op {
        let c = self.cfg.clone();
        let key = |r: &mut Rng| (r.below(c.colls as u64) as u8, r.below(c.tokens as u64) as u8);
        let who = |r: &mut Rng| r.below(c.users as u64) as u8;
        let who_of = |a: &str| (0..c.users).find(|i| acct(*i) == a).unwrap_or(0);
        let owner = |k: &Key| o.owner.get(k).cloned().flatten().map(|a| who_of(&a)).unwrap_or(0);
        // somebody other than the owner, often one the owner lets move the token
        let stranger = |r: &mut Rng, k: &Key| {
            let f: Vec<u8> = if r.pct(60) { self.chain.nft_friends(&coll(k.0), &tok(k.1)).iter().filter_map(|a| (0..c.users).find(|i| acct(*i) == *a)).collect() } else { vec![] };
            if f.is_empty() { who(r) } else { *r.pick(&f) }
        };
        // a token whose ask is not simply open to everybody
        let odd = |k: &Key| {
            o.asks.get(k).map_or(false, |a| !a.active || a.exp <= o.now || a.reserve.is_some() || o.owner.get(k).cloned().flatten().as_deref() != Some(&a.seller))
        };
        let moved = |k: &Key| o.asks.get(k).map_or(false, |a| o.owner.get(k).cloned().flatten().map_or(false, |w| w != a.seller));
        let ask_keys: Vec<Key> = o.asks.keys().copied().collect();
        let bid_keys: Vec<(u8, u8, u8)> = o.bids.keys().copied().collect();
        let cb_keys: Vec<(u8, u8)> = o.cbids.keys().copied().collect();
        let stray = |r: &mut Rng| -> Funds { if r.pct(4) { vec![(r.below(2) as u8, 1 + r.below(9) as u128)] } else { vec![] } };
        let price = |r: &mut Rng| {
            let p = gen_price(r, &c.prices);
            match r.below(14) {
                0 => near(r, o.par.min_price),
                1 if r.pct(40) => near(r, MAX_PRICE),
                _ => p.max(if r.pct(90) { o.par.min_price } else { 0 }),
            }
        };
        let bps = |r: &mut Rng| -> Option<u64> {
            match r.below(8) {
                0..=2 => None,
                3 => Some(0),
                4 => Some(o.par.max_finder as u64),
                5 => Some(o.par.max_finder as u64 + if r.pct(30) { 1 } else { 0 }),
                6 => Some(1 + r.below(300)),
                _ => Some(if r.pct(10) { u64::MAX } else { r.below(o.par.max_finder as u64 + 1) }),
            }
        };
        let exp = |r: &mut Rng, e: (u64, u64)| -> u64 {
            let lo = o.now + e.0 * SEC;
            let hi = o.now + e.1 * SEC;
            match r.below(20) {
                0 => lo,
                1 => lo + 1,
                2 => hi + 1,
                3 => hi,
                4 => lo.saturating_sub(1),
                5 => o.now,
                _ => (lo + 1 + r.below(60) * SEC + if r.pct(40) { r.below(SEC) } else { 0 }).min(hi),
            }
        };
        let finder = |r: &mut Rng| if r.pct(40) { Some(if r.pct(70) { 7 } else { who(r) }) } else { None };
        let operator = |r: &mut Rng| if !o.par.operators.is_empty() && r.pct(90) { who_of(r.pick(&o.par.operators)) } else { who(r) };
        match r.weighted(&c.w) {
            0 => {
                let mut dt = match r.below(10) {
                    0..=5 => r.range(1, 9) * SEC,
                    6 => r.range(20, 200) * SEC,
                    _ => 6 * SEC,
                };
                if r.pct(40) {
                    let mut ts: Vec<u64> = o.asks.values().map(|a| a.exp).collect();
                    ts.extend(o.bids.values().chain(o.cbids.values()).map(|b| b.exp));
                    if r.pct(45) {
                        ts = o.bids.values().chain(o.cbids.values()).map(|b| b.exp + o.par.stale.unwrap_or(0) * SEC).collect();
                    }
                    ts.retain(|t| *t > o.now);
                    if !ts.is_empty() {
                        let off = *r.pick(&[0i64, -1, 1, -(SEC as i64), SEC as i64, 0]);
                        dt = ((*r.pick(&ts) as i64 + off).max(o.now as i64 + 1) as u64) - o.now;
                    }
                } else if r.pct(30) {
                    dt += r.below(SEC);
                }
                Op::Block { dt: dt.clamp(1, 20_000_000 * SEC) }
            }
            1 => {
                let mut k = key(r);
                let mut approve = r.pct(92);
                if r.pct(8) {
                    // the marketplace's leave to move the token has run out
                    let l: Vec<Key> = o.owner.keys().copied().filter(|k| self.chain.nft_lapsed(&coll(k.0), &tok(k.1), &market())).collect();
                    if !l.is_empty() {
                        k = *r.pick(&l);
                        approve = false;
                    }
                }
                if r.pct(8) {
                    let l: Vec<Key> = ask_keys.iter().filter(|k| odd(k)).copied().collect();
                    if !l.is_empty() {
                        k = *r.pick(&l);
                    }
                }
                let w = if r.pct(93) { owner(&k) } else { stranger(r, &k) };
                let auction = r.pct(35);
                Op::SetAsk {
                    who: w,
                    k,
                    auction,
                    denom: if r.pct(97) { 0 } else { 1 },
                    price: price(r),
                    recip: if r.pct(25) { Some(if r.pct(60) { 6 } else { who(r) }) } else { None },
                    reserve: if r.pct(if auction { 5 } else { 20 }) { Some(who(r)) } else { None },
                    bps: bps(r),
                    exp: exp(r, o.par.ask_exp),
                    funds: {
                        let l = o.par.listing;
                        match r.below(30) {
                            0 => vec![(0, l + 1)],
                            1 => vec![(0, l.saturating_sub(1))],
                            2 => vec![(0, l), (1, 5)],
                            3 => vec![(1, l)],
                            _ => vec![(0, l)],
                        }
                    },
                    approve,
                }
            }
            2 => {
                let k = if !ask_keys.is_empty() && r.pct(90) { *r.pick(&ask_keys) } else { key(r) };
                let w = if r.pct(75) { owner(&k) } else if r.pct(50) { o.asks.get(&k).map(|a| who_of(&a.seller)).unwrap_or(0) } else { who(r) };
                Op::RemoveAsk { who: w, k, funds: stray(r) }
            }
            3 => {
                let k = if !ask_keys.is_empty() && r.pct(92) { *r.pick(&ask_keys) } else { key(r) };
                let w = if r.pct(80) { owner(&k) } else if r.pct(50) { o.asks.get(&k).map(|a| who_of(&a.seller)).unwrap_or(0) } else { who(r) };
                Op::Price { who: w, k, denom: if r.pct(97) { 0 } else { 1 }, price: price(r), funds: stray(r) }
            }
            4 => {
                let mut k = if !ask_keys.is_empty() && r.pct(70) { *r.pick(&ask_keys) } else { key(r) };
                let mut w = who(r);
                if r.pct(15) {
                    // somebody whose bid lies on a token that is now for sale
                    let l: Vec<(u8, u8, u8)> = bid_keys.iter().filter(|b| o.asks.contains_key(&(b.0, b.1))).copied().collect();
                    if !l.is_empty() {
                        let b = *r.pick(&l);
                        (k, w) = ((b.0, b.1), b.2);
                    }
                }
                let mut whole = false;
                if r.pct(10) {
                    // an old ask for a token that has a new owner, whom the marketplace could take it from
                    let l: Vec<Key> = ask_keys.iter().filter(|k| moved(k) && self.chain.nft_can_move(&coll(k.0), &tok(k.1), &market())).copied().collect();
                    if !l.is_empty() {
                        k = *r.pick(&l);
                        whole = true;
                    }
                }
                let ask = o.asks.get(&k);
                let mut p = price(r);
                if let Some(a) = ask {
                    p = match r.below(10) {
                        _ if whole => a.price,
                        0..=4 => a.price,
                        5 => a.price.saturating_sub(1),
                        6 => a.price + 1,
                        7 => a.price / 2 + 1,
                        _ => p,
                    };
                    if let (Some(x), true) = (&a.reserve, r.pct(60)) {
                        w = who_of(x);
                    }
                }
                let f = match r.below(40) {
                    0 => vec![(1, p)],
                    1 => vec![(0, p), (1, 1)],
                    2 => vec![],
                    _ => vec![(0, p)],
                };
                Op::Bid { who: w, k, mode: *r.pick(&[0, 0, 1, 2, 2, 3]), to: who(r), exp: exp(r, o.par.bid_exp), finder: finder(r), bps: bps(r), funds: f }
            }
            5 => {
                let (k, w) = if !bid_keys.is_empty() && r.pct(85) {
                    let b = r.pick(&bid_keys);
                    ((b.0, b.1), b.2)
                } else {
                    (key(r), who(r))
                };
                Op::RemoveBid { who: if r.pct(92) { w } else { who(r) }, k, funds: stray(r) }
            }
            6 | 7 => {
                let mut from = bid_keys.clone();
                if r.pct(20) {
                    from.retain(|b| odd(&(b.0, b.1)));
                    if from.is_empty() {
                        from = bid_keys.clone();
                    }
                }
                let (k, b) = if !from.is_empty() && r.pct(92) {
                    let b = r.pick(&from);
                    ((b.0, b.1), b.2)
                } else {
                    (key(r), who(r))
                };
                let w = if r.pct(88) { owner(&k) } else { stranger(r, &k) };
                if r.pct(75) {
                    Op::Accept { who: w, k, bidder: b, finder: finder(r), funds: stray(r), approve: r.pct(85) }
                } else {
                    Op::Reject { who: w, k, bidder: b, funds: stray(r) }
                }
            }
            8 => {
                let p = price(r);
                let f = match r.below(40) {
                    0 => vec![(1, p)],
                    1 => vec![(0, p), (1, 1)],
                    2 => vec![],
                    _ => vec![(0, p)],
                };
                Op::ColBid { who: who(r), c: r.below(c.colls as u64) as u8, exp: exp(r, o.par.bid_exp), bps: bps(r), funds: f }
            }
            9 => {
                let (cc, w) = if !cb_keys.is_empty() && r.pct(88) { *r.pick(&cb_keys) } else { (key(r).0, who(r)) };
                Op::RemoveColBid { who: w, c: cc, funds: stray(r) }
            }
            10 => {
                let (cc, b) = if !cb_keys.is_empty() && r.pct(92) { *r.pick(&cb_keys) } else { (key(r).0, who(r)) };
                let mut k = (cc, key(r).1);
                if r.pct(20) {
                    let l: Vec<Key> = ask_keys.iter().filter(|k| k.0 == cc && odd(k)).copied().collect();
                    if !l.is_empty() {
                        k = *r.pick(&l);
                    }
                }
                let w = if r.pct(88) { owner(&k) } else { who(r) };
                Op::AcceptCol { who: w, k, bidder: b, finder: finder(r), funds: stray(r), approve: r.pct(85) }
            }
            11 => {
                let w = operator(r);
                // prefer asks whose approval has lapsed or whose time is over
                let odd: Vec<Key> = ask_keys
                    .iter()
                    .filter(|k| o.asks[*k].exp <= o.now || !self.chain.nft_token_approved(&coll(k.0), &tok(k.1), &market()))
                    .copied()
                    .collect();
                let p = if !odd.is_empty() && r.pct(50) { &odd } else { &ask_keys };
                let k = if !p.is_empty() && r.pct(92) { *r.pick(p) } else { key(r) };
                if r.pct(60) {
                    Op::Sync { who: w, k, funds: stray(r) }
                } else {
                    Op::StaleAsk { who: w, k, funds: stray(r) }
                }
            }
            12 => {
                let w = operator(r);
                if r.pct(55) {
                    // prefer expired bids
                    let ex: Vec<(u8, u8, u8)> = o.bids.iter().filter(|(_, b)| b.exp + o.par.stale.unwrap_or(0) * SEC <= o.now + 2 * SEC).map(|(k, _)| *k).collect();
                    let p = if !ex.is_empty() && r.pct(75) { &ex } else { &bid_keys };
                    let b = if p.is_empty() { (0, 0, 0) } else { *r.pick(p) };
                    Op::StaleBid { who: w, k: (b.0, b.1), bidder: b.2, funds: stray(r) }
                } else {
                    let ex: Vec<(u8, u8)> = o.cbids.iter().filter(|(_, b)| b.exp + o.par.stale.unwrap_or(0) * SEC <= o.now + 2 * SEC).map(|(k, _)| *k).collect();
                    let p = if !ex.is_empty() && r.pct(75) { &ex } else { &cb_keys };
                    let b = if p.is_empty() { (0, 0) } else { *r.pick(p) };
                    Op::StaleCol { who: w, c: b.0, bidder: b.1, funds: stray(r) }
                }
            }
            13 => match r.below(10) {
                0..=4 => {
                    let mut p = Params::default();
                    for _ in 0..r.range(1, 2) {
                        match r.below(8) {
                            0 => p.trading = Some(*r.pick(&[0, 1, 200, 333, 5000, 10_000, 10_001])),
                            1 => {
                                let lo = r.below(60);
                                p.ask_exp = Some((lo, *r.pick(&[lo, lo + 1, 1000, 5000, lo.saturating_sub(1)])))
                            }
                            2 => {
                                let lo = r.below(60);
                                p.bid_exp = Some((lo, *r.pick(&[lo, lo + 1, 1000, 5000, lo.saturating_sub(1)])))
                            }
                            3 => p.max_finder = Some(*r.pick(&[0, 1, 500, 1000, 10_000, 10_001])),
                            4 => p.min_price = Some(*r.pick(&[0, 1, 5, 100])),
                            5 => p.stale = Some(*r.pick(&[0, 1, 30, 100])),
                            6 => p.reward = Some(*r.pick(&[0, 1, 500, 3333, 10_000, 10_001])),
                            _ => p.listing = Some(*r.pick(&[0, 1, 7, 500])),
                        }
                    }
                    Op::Params(p)
                }
                5 | 6 => Op::Operator { add: r.pct(60), who: who(r) },
                _ => Op::Hook { kind: r.below(3) as u8, add: r.pct(65), n: r.below(NHOOK as u64) as u8 },
            },
            14 => {
                let k = if !ask_keys.is_empty() && r.pct(55) { *r.pick(&ask_keys) } else { key(r) };
                if r.pct(15) {
                    // the new owner of a token that was for sale trusts the marketplace too
                    let l: Vec<Key> = ask_keys.iter().filter(|k| moved(k) && !self.chain.nft_can_move(&coll(k.0), &tok(k.1), &market())).copied().collect();
                    if !l.is_empty() {
                        let k = *r.pick(&l);
                        return Op::Nft { who: owner(&k), k, act: if r.pct(60) { NftAct::Approve } else { NftAct::ApproveAll } };
                    }
                }
                let act = match r.below(16) {
                    0..=4 => NftAct::Transfer(who(r)),
                    14 => NftAct::ApproveUser(who(r)),
                    15 => NftAct::Operator(who(r)),
                    5 | 6 => NftAct::Approve,
                    7 => NftAct::Revoke,
                    8 => NftAct::ApproveAll,
                    9 => NftAct::RevokeAll,
                    10..=12 => NftAct::ApproveFor(r.range(1, 60)),
                    _ => if r.pct(20) { NftAct::Burn } else { NftAct::Revoke },
                };
                Op::Nft { who: if r.pct(93) { owner(&k) } else { stranger(r, &k) }, k, act }
            }
            15 => {
                let cc = r.below(c.colls as u64) as u8;
                let ch = match r.below(11) {
                    0 => EnvCh::StartTrading(*r.pick(&[None, Some(o.now + 100 * SEC), Some(o.now), Some(o.now + 1)])),
                    1 | 2 => EnvCh::Royalty(if r.pct(20) { None } else { Some((payee(r), *r.pick(&[0, 1, E18 / 20, E18 / 3, E18 / 10 + 7, E18 / 2, E18 / 1000]))) }),
                    3 if c.poison => EnvCh::InfoFail(true),
                    4 if c.poison => EnvCh::TransferFail(true),
                    5 if c.poison => EnvCh::Royalty(Some(match r.below(3) {
                        0 => (6, E18),
                        1 => (6, E18 + E18 / 2),
                        _ => (255, E18 / 10),
                    })),
                    6 if c.poison => EnvCh::TransferPanic(true),
                    7 => EnvCh::OwnerFail(r.pct(50)),
                    8 => EnvCh::ApprovalFail(r.pct(50)),
                    9 if c.reenter => EnvCh::Reenter(Some((self.nested(r, o).to_string(), vec![]))),
                    _ => EnvCh::Clear,
                };
                Op::Env { c: cc, ch }
            }
            16 => Op::HookEnv {
                n: r.below(NHOOK as u64) as u8,
                mode: match r.below(6) {
                    0 | 1 => HookCh::Fail,
                    2 => HookCh::Panic,
                    3 => HookCh::Reenter(self.nested(r, o).to_string()),
                    _ => HookCh::Ok,
                },
            },
            _ => {
                if r.pct(50) {
                    Op::Migrate { stored: r.below(5) as u8 }
                } else {
                    Op::Fake { who: who(r), n: r.below(8) as u8 }
                }
            }
        }
    }

    fn pre(&self, op: &Op) {
        let (who, k) = match op {
            Op::SetAsk { who, k, approve: true, .. } | Op::Accept { who, k, approve: true, .. } | Op::AcceptCol { who, k, approve: true, .. } => (who, k),
            _ => return,
        };
        // now and then only for a while
        let t = self.chain.now() / SEC;
        let act = if t % 6 == 0 { NftAct::ApproveFor(3 + t / 6 % 40) } else { NftAct::Approve };
        nft_act(&self.chain, &acct(*who), &coll(k.0), &tok(k.1), &market(), &act);
    }

    fn set_hook(&self, n: u8, m: &HookCh) {
        let v = match m {
            HookCh::Ok => HookMode::Ok,
            HookCh::Fail => HookMode::Fail,
            HookCh::Panic => HookMode::Panic,
            HookCh::Reenter(s) => HookMode::Reenter(market(), s.clone(), vec![]),
        };
        self.chain.set_hook_mode(&hookaddr(n), v);
    }

    fn do_migrate(&self, stored: u8) -> (TxOut, Option<Vec<u8>>) {
        let m = market();
        let info = |c: &str, v: &str| serde_json::to_vec(&json!({"contract": c, "version": v})).unwrap();
        let old = self.chain.kv(&m).get("contract_info".as_bytes()).cloned();
        let is = serde_json::from_slice::<Value>(old.as_deref().unwrap_or(b"{}")).unwrap_or_default();
        let (name, now) = (os(&is["contract"]).unwrap_or_default(), os(&is["version"]).unwrap_or_default());
        let val = match stored {
            1 => info(&name, &older_version(&now, self.chain.now())),
            2 => info(&name, &newer_version(&now, self.chain.now())),
            3 if self.chain.now() / 1_000_000_000 % 2 == 0 => info("crates.io:something-else", &now),
            3 => info("crates.io:something-else", "0.1.0"),
            4 => info(&name, "one"),
            _ => old.clone().unwrap_or_default(),
        };
        self.chain.raw_set(&m, b"contract_info", &val);
        let out = self.chain.migrate(&m, &bin(&json!({})));
        (out, old)
    }

    fn truth(o: &Obs) -> Follower {
        Follower {
            operators: o.par.operators.clone(),
            hooks: o.hooks.clone(),
            asks: o
                .asks
                .iter()
                .map(|(k, a)| {
                    let h = Heard { auction: a.auction, seller: a.seller.clone(), price: a.price, reserve: a.reserve.clone(), exp: a.exp, active: a.active };
                    ((coll(k.0), tok(k.1)), h)
                })
                .collect(),
            bids: o.bids.iter().map(|(k, b)| ((coll(k.0), tok(k.1), acct(k.2)), (b.price, b.exp))).collect(),
            cbids: o.cbids.iter().map(|(k, b)| ((coll(k.0), acct(k.1)), (b.price, b.exp))).collect(),
        }
    }

    /// Take in one event the way an indexer does. `sale`: the sale announced together with this bid or acceptance.
    fn hear(f: &mut Follower, e: &Emitted, sale: bool, out: &TxOut, now: u64) -> Result<(), String> {
        let need = |k: &str| e.get(k).map(|s| s.to_string()).ok_or_else(|| format!("event {} without {k}", e.ty));
        let num = |s: &str| s.parse::<u128>().map_err(|_| format!("event {}: not a number: {s}", e.ty));
        let native = |s: &str| parse_coin(s).filter(|c| c.0 == ST).map(|c| c.1).ok_or_else(|| format!("event {}: not a price: {s}", e.ty));
        let key = || -> Result<(String, String), String> { Ok((need("collection")?, need("token_id")?)) };
        let end = || -> Result<u64, String> { parse_time(&need("expires")?).ok_or_else(|| format!("event {}: not a time", e.ty)) };
        let unknown = || format!("event {} for what was never announced", e.ty);
        let paid = |to: &str| out.transfers.iter().filter(|x| x.to == to && x.denom == ST).map(|x| x.amount).sum::<u128>();
        match e.ty.as_str() {
            "set-ask" => {
                let auction = match need("sale_type")?.as_str() {
                    "auction" => true,
                    "fixed_price" => false,
                    x => return Err(format!("event set-ask: sale type {x}")),
                };
                let h = Heard { auction, seller: need("seller")?, price: native(&need("price")?)?, reserve: e.get("reserve_for").map(|s| s.to_string()), exp: end()?, active: true };
                f.asks.insert(key()?, h);
            }
            "update-ask" => f.asks.get_mut(&key()?).ok_or_else(unknown)?.price = native(&need("price")?)?,
            "update-ask-state" => f.asks.get_mut(&key()?).ok_or_else(unknown)?.active = need("is_active")? == "true",
            "remove-ask" => {
                let a = f.asks.remove(&key()?).ok_or_else(unknown)?;
                if e.get("expired").map_or(false, |x| x != (a.exp <= now).to_string()) {
                    return Err(format!("event remove-ask tells expired {:?}, the ask ends at {} and it is {now}", e.get("expired"), a.exp));
                }
                if e.get("expired").is_some() {
                    need("operator")?;
                }
            }
            "set-bid" => {
                let (c, t) = key()?;
                let k = (c, t, need("bidder")?);
                let b = (num(&need("bid_price")?)?, end()?);
                if sale {
                    f.bids.remove(&k);
                } else {
                    f.bids.insert(k, b);
                }
            }
            "remove-bid" | "reject-bid" | "accept-bid" | "remove-stale-bid" => {
                let (c, t) = key()?;
                let who = need("bidder")?;
                let b = f.bids.remove(&(c, t, who)).ok_or_else(unknown)?;
                if e.ty.starts_with("re") && e.ty != "remove-stale-bid" {
                    // the escrow goes back whole
                } else if e.ty == "accept-bid" && !sale {
                    return Err("event accept-bid without its sale".into());
                }
                if e.get("price").map_or(false, |p| p != b.0.to_string()) {
                    return Err(format!("event {} tells price {:?}, the bid was {}", e.ty, e.get("price"), b.0));
                }
            }
            "set-collection-bid" => {
                f.cbids.insert((need("collection")?, need("bidder")?), (num(&need("bid_price")?)?, end()?));
            }
            "remove-collection-bid" | "accept-collection-bid" | "remove-stale-collection-bid" => {
                let b = f.cbids.remove(&(need("collection")?, need("bidder")?)).ok_or_else(unknown)?;
                if e.ty == "accept-collection-bid" && !sale {
                    return Err("event accept-collection-bid without its sale".into());
                }
                if e.get("price").map_or(false, |p| p != b.0.to_string()) {
                    return Err(format!("event {} tells price {:?}, the bid was {}", e.ty, e.get("price"), b.0));
                }
            }
            "finalize-sale" => {
                let was = f.asks.remove(&key()?);
                num(&need("price")?)?;
                // an immediate sale is the ask's; an acceptance is the owner's, whose ask (if any) is replaced
                if sale && was.as_ref().map_or(true, |a| a.seller != e.get("seller").unwrap_or("") || a.price.to_string() != e.get("price").unwrap_or("")) {
                    return Err(format!("event finalize-sale tells seller {:?} and price {:?}, the ask was {was:?}", e.get("seller"), e.get("price")));
                }
            }
            "royalty-payout" => {
                need("collection")?;
                let (d, a) = parse_coin(&need("amount")?).ok_or_else(|| "event royalty-payout: not a coin".to_string())?;
                if d != ST || paid(&need("recipient")?) < a {
                    return Err(format!("event royalty-payout tells {a} {d} to {:?}, which got {}", e.get("recipient"), paid(&need("recipient")?)));
                }
            }
            "wasm" => {
                let hook = |f: &mut Follower, kind: usize, add: bool| -> Result<(), String> {
                    let h = need("hook")?;
                    f.hooks[kind].retain(|x| *x != h);
                    if add {
                        f.hooks[kind].push(h);
                    }
                    Ok(())
                };
                match e.get("action").unwrap_or("") {
                    "add_operator" => f.operators.push(need("operator")?),
                    "remove_operator" => {
                        let o = need("operator")?;
                        f.operators.retain(|x| *x != o);
                    }
                    "add_ask_hook" => hook(f, 0, true)?,
                    "add_bid_hook" => hook(f, 1, true)?,
                    "add_sale_hook" => hook(f, 2, true)?,
                    "remove_ask_hook" => hook(f, 0, false)?,
                    "remove_bid_hook" => hook(f, 1, false)?,
                    "remove_sale_hook" => hook(f, 2, false)?,
                    _ => {}
                }
            }
            _ => {}
        }
        if e.ty.starts_with("remove-stale") {
            let (op, r) = (need("operator")?, num(&need("reward")?)?);
            let bidder = need("bidder")?;
            let back = paid(&op);
            if (op != bidder && back < r) || back + paid(&bidder) < r {
                return Err(format!("event {} tells a reward of {r} for {}, which got {back}", e.ty, nick(&op)));
            }
        }
        Ok(())
    }

    /// Whoever follows the events alone must know the open orders after every transaction.
    fn follow(&mut self, before: &Obs, got: &Obs, out: &TxOut, rec: &mut Rec) {
        let mut f = self.follower.take().unwrap_or_else(|| Self::truth(before));
        let truth = Self::truth(got);
        let mut bad: Vec<(String, String)> = vec![];
        if out.ok {
            let evs = &out.emitted;
            // a sale is announced together with the bid or acceptance that made it
            let mut with: Vec<Option<usize>> = vec![None; evs.len()];
            for (i, e) in evs.iter().enumerate().filter(|(_, e)| e.ty == "finalize-sale") {
                let same = |j: usize| {
                    let x = &evs[j];
                    let c = x.get("collection") == e.get("collection") && x.get("token_id") == e.get("token_id") && x.get("bidder") == e.get("buyer");
                    let p = match x.ty.as_str() {
                        "set-bid" => x.get("bid_price"),
                        "accept-bid" | "accept-collection-bid" => x.get("price"),
                        _ => None,
                    };
                    c && p.is_some() && p == e.get("price") && with[j].is_none()
                };
                match (0..evs.len()).filter(|j| same(*j)).min_by_key(|j| j.abs_diff(i)) {
                    Some(j) => {
                        with[j] = Some(i);
                        with[i] = Some(j);
                    }
                    None => bad.push(("untrue".into(), format!("a sale of {:?}/{:?} was announced without bid or acceptance", e.get("collection"), e.get("token_id")))),
                }
            }
            for (i, e) in evs.iter().enumerate() {
                let sale = match with[i] {
                    Some(j) if e.ty == "finalize-sale" => evs[j].ty == "set-bid",
                    x => x.is_some(),
                };
                if let Err(x) = Self::hear(&mut f, e, sale, out, self.chain.now()) {
                    bad.push(("untrue".into(), x));
                }
            }
            let calm = {
                let c = self.chain.inner.borrow();
                c.nft_env.values().all(|e| e.reenter.is_none()) && c.hook_mode.values().all(|m| !matches!(m, HookMode::Reenter(..)))
            };
            for e in evs.iter().filter(|e| calm && e.ty == "finalize-sale") {
                let key = (0..self.cfg.colls).flat_map(|c| (0..=254u8).map(move |t| (c, t))).find(|(c, t)| e.get("collection") == Some(&coll(*c)) && e.get("token_id") == Some(&tok(*t)));
                let owner = key.and_then(|k| self.chain.nft_owner(&coll(k.0), &tok(k.1)));
                if owner.as_deref() != e.get("asset_recipient") {
                    bad.push(("untrue".into(), format!("the sale was announced to {:?}, the token went to {owner:?}", e.get("asset_recipient"))));
                }
                rec.stat("announced_sales");
            }
        }
        f.operators.sort();
        if f.operators != truth.operators {
            bad.push(("operators".into(), format!("events say {:?}, it is {:?}", f.operators, truth.operators)));
        }
        let sorted = |h: &[Vec<String>; 3]| {
            let mut h = h.clone();
            h.iter_mut().for_each(|l| l.sort());
            h
        };
        if sorted(&f.hooks) != sorted(&truth.hooks) {
            bad.push(("hooks".into(), format!("events say {:?}, it is {:?}", f.hooks, truth.hooks)));
        }
        fn diff<K: Ord + std::fmt::Debug, V: PartialEq + std::fmt::Debug>(a: &BTreeMap<K, V>, b: &BTreeMap<K, V>) -> String {
            let l = a.iter().filter(|(k, v)| b.get(k) != Some(v)).map(|(k, v)| format!("heard {k:?} {v:?}"));
            let r = b.iter().filter(|(k, v)| a.get(k) != Some(v)).map(|(k, v)| format!("true {k:?} {v:?}"));
            l.chain(r).collect::<Vec<_>>().join("; ")
        }
        for (n, d) in [("asks", diff(&f.asks, &truth.asks)), ("bids", diff(&f.bids, &truth.bids)), ("collection-bids", diff(&f.cbids, &truth.cbids))] {
            if !d.is_empty() {
                bad.push((n.into(), d));
            }
        }
        for (s, d) in bad {
            rec.violate(&["M10"], format!("v1:events:{s}"), d);
        }
        self.follower = Some(truth);
    }

    fn judge(&mut self, o: Obs, exp: Exp, tags: &[&'static str], what: &str, out: &TxOut, rec: &mut Rec) {
        let got = match self.observe() {
            Ok(g) => g,
            Err(e) => {
                rec.violate(&["M08"], "v1:observe", e);
                return;
            }
        };
        self.follow(&o, &got, out, rec);
        let mut t: Vec<&str> = tags.to_vec();
        let hook_fault = out.fired_sub.as_ref().map_or(false, |s| s.starts_with("Some(Hook)"));
        if hook_fault {
            rec.fault("hook_delivery_failure");
        }
        if self.chain.inner.borrow().hook_mode.values().any(|m| *m != HookMode::Ok) || self.chain.inner.borrow().nft_env.values().any(|e| e.reenter.is_some()) || hook_fault {
            t.push("M07");
        }
        if out.gas_abort || (out.fired_sub.is_some() && !hook_fault) {
            rec.fault(if out.gas_abort { "out_of_gas" } else { "submessage_failure" });
            t.push("M07");
            if out.ok {
                rec.violate(&t, format!("v1:{what}:fault-swallowed"), format!("sub-message {:?} failed but the transaction succeeded", out.fired_sub));
            }
            self.compare(&o, &got, &t, &format!("{what}-aborted"), rec);
            self.cur = Some(got);
            return;
        }
        match (exp, out.ok) {
            (Ok((e, hooks)), true) => {
                self.compare(&e, &got, &t, what, rec);
                // hook deliveries
                let calm = {
                    let c = self.chain.inner.borrow();
                    c.nft_env.values().all(|e| e.reenter.is_none()) && c.hook_mode.values().all(|m| !matches!(m, HookMode::Reenter(..)))
                };
                if calm {
                    // every hook that failed is announced as failed, and no other
                    let mut lost: Vec<String> = vec![];
                    for (a, v) in &hooks {
                        let bad = matches!(self.chain.inner.borrow().hook_mode.get(a), Some(HookMode::Fail | HookMode::Panic));
                        let hit = hook_fault && out.fired_sub.as_ref().unwrap().split('@').nth(1) == Some(a);
                        if bad || hit {
                            let kind = v.as_object().and_then(|m| m.keys().next().cloned()).unwrap_or_default();
                            let kind = ["collection_bid", "ask", "bid", "sale"].into_iter().find(|p| kind.starts_with(p)).unwrap_or("?");
                            lost.push(format!("{}-hook-failed", kind.replace('_', "-")));
                        }
                    }
                    let mut told: Vec<String> = out.emitted.iter().filter(|e| e.ty == "wasm").filter_map(|e| e.get("action")).filter(|a| a.ends_with("hook-failed")).map(|a| a.to_string()).collect();
                    lost.sort();
                    told.sort();
                    if lost != told {
                        rec.violate(&["M10"], "v1:events:hook-failures", format!("failed {lost:?}, announced {told:?}"));
                    }
                    if !lost.is_empty() {
                        rec.stat("announced_hook_failures");
                    }
                }
                let mut want: Vec<(String, String)> = hooks.iter().map(|(a, v)| (a.clone(), canon(v))).collect();
                let mut have: Vec<(String, String)> = out.hook_calls.iter().map(|(a, s)| (a.clone(), serde_json::from_str::<Value>(s).map(|v| canon(&v)).unwrap_or(s.clone()))).collect();
                want.sort();
                have.sort();
                if !want.is_empty() {
                    rec.stat("with_hook_deliveries");
                }
                if hook_fault {
                    let a = out.fired_sub.as_ref().unwrap().split('@').nth(1).unwrap_or("").to_string();
                    if let Some(i) = want.iter().position(|(x, _)| *x == a) {
                        want.remove(i);
                    }
                }
                if want != have {
                    let s = |v: &Vec<(String, String)>| v.iter().map(|(a, m)| format!("{}: {}", nick(a), m)).collect::<Vec<_>>().join("; ");
                    rec.violate(&["M07"], format!("v1:{what}:hook-calls"), format!("expected [{}], delivered [{}]", s(&want), s(&have)));
                }
            }
            (Err(why), false) => {
                rec.stat(&format!("why_{what}: {why}"));
                self.compare(&o, &got, &t, &format!("{what}-refused"), rec)
            }
            (Ok(_), false) => {
                rec.violate(&t, format!("v1:{what}:wrongly-refused"), format!("refused with: {}", out.err));
                self.compare(&o, &got, &t, &format!("{what}-refused"), rec);
            }
            (Err(why), true) => {
                let mut t = t.clone();
                if matches!(why, "collection info unavailable" | "royalty payee invalid" | "collection refuses transfer" | "marketplace may not move the token" | "insufficient funds") {
                    t.push("M07");
                }
                rec.violate(&t, format!("v1:{what}:wrongly-accepted:{why}"), format!("accepted although: {why}"))
            }
        }
        self.cur = Some(got);
    }
}

/// JSON text with sorted keys and without null members.
fn canon(v: &Value) -> String {
    match v {
        Value::Object(m) => {
            let mut k: Vec<&String> = m.keys().collect();
            k.sort();
            format!("{{{}}}", k.iter().filter(|x| !m[**x].is_null()).map(|x| format!("{x}:{}", canon(&m[*x]))).collect::<Vec<_>>().join(","))
        }
        Value::Array(a) => format!("[{}]", a.iter().map(canon).collect::<Vec<_>>().join(",")),
        v => v.to_string(),
    }
}

fn deploy(cfg: &Cfg) -> (Chain, TxOut) {
    let chain = Chain::new(cfg.start_ns);
    for c in 0..cfg.colls {
        let toks: Vec<(String, String)> = (0..cfg.tokens).map(|t| (tok(t), acct((t + c) % cfg.users))).collect();
        deploy_nft(&chain, &coll(c), &user("creator"), &toks);
        set_env(&chain, &coll(c), &market(), &EnvCh::Royalty(cfg.royalty[c as usize]));
    }
    for n in 0..NHOOK {
        chain.add_contract(&hookaddr(n), Code::Hook, None);
    }
    for u in 0..cfg.users {
        for d in DENOMS {
            chain.mint(&acct(u), d, 1_000_000_000_000_000_000_000_000);
        }
    }
    chain.add_contract(&market(), Code::V1, Some(user("deployer")));
    let out = chain.instantiate(&market(), &user("deployer"), &bin(&inst_json(cfg)));
    for (kind, n) in &cfg.hooks {
        chain.sudo(&market(), &bin(&V1::sudo_msg(&Op::Hook { kind: *kind, add: true, n: *n })), Fault::None);
    }
    (chain, out)
}

fn inst_json(cfg: &Cfg) -> Value {
    let er = |x: (u64, u64)| json!({"min": x.0, "max": x.1});
    json!({
        "trading_fee_bps": cfg.trading, "ask_expiry": er(cfg.ask_exp), "bid_expiry": er(cfg.bid_exp),
        "operators": cfg.operators.iter().map(|x| acct(*x)).collect::<Vec<_>>(),
        "sale_hook": if cfg.sale_hook { Some(hookaddr(0)) } else { None },
        "max_finders_fee_bps": cfg.max_finder, "min_price": cfg.min_price.to_string(), "stale_bid_duration": {"time": cfg.stale},
        "bid_removal_reward_bps": cfg.reward, "listing_fee": cfg.listing.to_string(),
    })
}

/// The parameters an instantiation with this message has to store.
fn inst_par(cfg: &Cfg) -> Par {
    let operators: std::collections::BTreeSet<String> = cfg.operators.iter().map(|x| acct(*x)).collect();
    Par {
        trading: u128::from(cfg.trading),
        ask_exp: cfg.ask_exp,
        bid_exp: cfg.bid_exp,
        operators: operators.into_iter().collect(),
        max_finder: u128::from(cfg.max_finder),
        min_price: cfg.min_price,
        stale: Some(cfg.stale),
        reward: u128::from(cfg.reward),
        listing: cfg.listing,
    }
}

impl V1 {
    /// The contract starts exactly as instantiated.
    fn check_birth(&mut self, out: &TxOut) {
        let tag: &'static [&'static str] = &["M09"];
        if !out.ok {
            self.born.push((tag, "v1:instantiate:wrongly-refused".into(), out.err.clone()));
            return;
        }
        let Some(o) = &self.cur else { return };
        let par = inst_par(&self.cfg);
        if o.par != par {
            self.born.push((tag, "v1:instantiate:params".into(), format!("instantiated with {par:?}, is {:?}", o.par)));
        }
        let mut hooks: [Vec<String>; 3] = Default::default();
        if self.cfg.sale_hook {
            hooks[2].push(hookaddr(0));
        }
        for (kind, n) in &self.cfg.hooks {
            let l = &mut hooks[*kind as usize % 3];
            if !l.contains(&hookaddr(*n)) && l.len() < 5 {
                l.push(hookaddr(*n));
            }
        }
        if o.hooks != hooks {
            self.born.push((tag, "v1:instantiate:hooks".into(), format!("set up with {hooks:?}, is {:?}", o.hooks)));
        }
        if o.version.is_empty() {
            self.born.push((tag, "v1:instantiate:version".into(), "the contract does not say what it is".into()));
        }
        if !o.asks.is_empty() || !o.bids.is_empty() || !o.cbids.is_empty() {
            self.born.push((tag, "v1:instantiate:not-empty".into(), "starts with orders".into()));
        }
    }

    /// A second contract, instantiated with other values, some of them not allowed.
    fn try_birth(&mut self) {
        if self.cfg.birth == 0 {
            return;
        }
        let x = self.cfg.birth / 16;
        let tag: &'static [&'static str] = &["M09"];
        let mut c = self.cfg.clone();
        let mut no: Option<&'static str> = None;
        let mut set: Option<(&'static str, Value)> = None;
        let above = [10_001, 10_000 + x, u64::MAX][(x % 3) as usize].max(10_001);
        match self.cfg.birth % 14 {
            0 => {
                c.trading = above;
                no = Some("trading fee above 100%")
            }
            1 => {
                c.max_finder = above;
                no = Some("finder fee above 100%")
            }
            2 => {
                c.reward = above;
                no = Some("reward above 100%")
            }
            3 => {
                c.ask_exp = (x + 1, x);
                no = Some("ask expiry range empty")
            }
            4 => {
                c.bid_exp = (x + 1, x);
                no = Some("bid expiry range empty")
            }
            5 => {
                set = Some(("stale_bid_duration", json!({"height": x})));
                no = Some("stale duration in blocks")
            }
            6 => {
                set = Some(("operators", json!([acct(0), "Not an address"])));
                no = Some("invalid address")
            }
            7 => {
                set = Some(("sale_hook", json!("Not an address")));
                no = Some("invalid address")
            }
            8 => {
                c.trading = 10_000;
                c.max_finder = 10_000;
                c.reward = 10_000;
            }
            9 => {
                c.trading = 0;
                c.max_finder = 0;
                c.reward = 0;
                c.listing = 0;
                c.min_price = 0;
            }
            10 => {
                c.ask_exp = (x, x);
                c.bid_exp = (0, 0);
            }
            11 => c.operators = vec![(x % 4) as u8, 3, 1, 3, (x % 4) as u8, 0],
            _ => {
                c.min_price = u128::from(x);
                c.listing = u128::from(x / 3);
                c.stale = x;
                c.trading = x % 10_001;
                c.max_finder = x / 7 % 10_001;
                c.reward = x / 11 % 10_001;
                c.ask_exp = (x % 90, x % 90 + x % 7);
                c.bid_exp = (x % 70, x % 70 + x % 13);
                c.sale_hook = x % 2 == 0;
            }
        }
        let mut m = inst_json(&c);
        if let Some((k, v)) = set {
            m[k] = v;
        }
        let addr = contract("decoy");
        self.chain.add_contract(&addr, Code::V1, Some(user("deployer")));
        let out = self.chain.instantiate(&addr, &user("deployer"), &bin(&m));
        match (no, out.ok) {
            (Some(why), true) => self.born.push((tag, format!("v1:instantiate:wrongly-accepted:{why}"), format!("instantiated although: {why}"))),
            (None, false) => self.born.push((tag, "v1:instantiate:wrongly-refused".into(), out.err)),
            (Some(_), false) => {}
            (None, true) => {
                let got = self.chain.query::<Value>(&addr, &json!({"params": {}})).map(|v| Self::parse_par(&v["params"]));
                if got.as_ref() != Ok(&inst_par(&c)) {
                    self.born.push((tag, "v1:instantiate:params".into(), format!("instantiated with {:?}, is {got:?}", inst_par(&c))));
                }
                let hooks = self.chain.query::<Value>(&addr, &json!({"sale_hooks": {}})).map(|v| v["hooks"].clone());
                let want = if c.sale_hook { json!([hookaddr(0)]) } else { json!([]) };
                if hooks.as_ref() != Ok(&want) {
                    self.born.push((tag, "v1:instantiate:hooks".into(), format!("instantiated with sale hooks {want}, has {hooks:?}")));
                }
            }
        }
    }
}

impl World for V1 {
    const NAME: &'static str = "marketplace-v1";
    const FAULTS: &'static [&'static str] = &[
        "tx_lost",
        "tx_delayed_or_reordered",
        "tx_duplicated",
        "out_of_gas",
        "submessage_failure",
        "nft_changed_outside_market",
        "collection_outage",
        "collection_refuses_transfers",
        "royalty_changed",
        "malicious_collection",
        "collection_change",
        "hook_delivery_failure",
        "hook_fails",
        "hook_panics",
        "hook_reenters",
        "hook_repaired",
    ];
    const ID: u64 = 1;
    type Cfg = Cfg;
    type Step = Step;

    fn gen_cfg(r: &mut Rng, profile: &str) -> Cfg {
        //                    blk ask rem upd bid rmb acc rej cb rcb acb syn stl gov nft env hk misc
        let mut w: Vec<u64> = vec![16, 22, 3, 5, 30, 5, 7, 7, 9, 3, 7, 5, 7, 4, 7, 4, 3, 1];
        for x in w.iter_mut().skip(1) {
            if r.pct(10) {
                *x = 0;
            } else if r.pct(15) {
                *x *= 3;
            }
        }
        w[1] = w[1].max(10);
        w[4] = w[4].max(12);
        match profile {
            "M03" => {
                w[5] += 8;
                w[9] += 6;
                w[12] += 10;
            }
            "M06" => {
                w[0] += 15;
                w[12] += 10;
                w[11] += 6;
            }
            "M07" => {
                w[16] += 6;
                w[13] += 5;
            }
            "M09" => {
                w[13] += 14;
                w[17] += 4;
            }
            _ => {}
        }
        let quiet = r.pct(25);
        let users = r.range(3, 5) as u8;
        let crowd = crowd_size(r);
        let colls = if crowd > 35 { 1 } else { r.range(1, 3) as u8 };
        let tokens = if crowd > 0 { crowd as u64 } else if colls == 1 { r.range(1, 5) } else { r.range(1, 3) } as u8;
        let mut hooks = vec![];
        for kind in 0..3u8 {
            if r.pct(45) {
                for n in 0..r.range(1, 3) {
                    hooks.push((kind, (n as u8 * 2 + kind) % NHOOK));
                }
            }
        }
        Cfg {
            users,
            colls,
            tokens,
            start_ns: *r.pick(&START) * SEC + if r.pct(50) { r.below(SEC) } else { 0 },
            trading: *r.pick(&[200, 200, 0, 1, 333, 5000, 10_000]),
            ask_exp: *r.pick(&[(0, 1000), (10, 500), (24, 4000), (5, 100), (86_400, 15_552_000)]),
            bid_exp: *r.pick(&[(0, 1000), (10, 500), (24, 4000), (5, 100), (86_400, 15_552_000)]),
            operators: (0..users).filter(|_| r.pct(40)).collect(),
            max_finder: *r.pick(&[1000, 500, 10_000, 0]),
            min_price: *r.pick(&[1, 5, 100, 0]),
            stale: *r.pick(&[0, 10, 100]),
            reward: *r.pick(&[500, 500, 0, 1, 10_000, 3333]),
            listing: *r.pick(&[0, 0, 1, 500]),
            sale_hook: r.pct(40),
            hooks,
            hook_mode: vec![],
            royalty: (0..3).map(|_| if r.pct(35) { None } else { Some((payee(r), *r.pick(&[E18 / 20, E18 / 3, 1, 0, E18 / 10 + 7]))) }).collect(),
            prices: gen_prices(r, 4),
            w,
            fault_pm: if quiet { 0 } else { *r.pick(&[10, 40, 120]) },
            loss: if quiet { 0 } else { *r.pick(&[0, 30, 100]) },
            dup: if quiet { 0 } else { *r.pick(&[0, 50, 200]) },
            delay: if quiet { 0 } else { *r.pick(&[0, 50, 200]) },
            poison: r.pct(30),
            crowd: if crowd > 0 { 1 + r.below(1 << 32) } else { 0 },
            birth: if r.pct(30) { 1 + r.below(1 << 32) } else { 0 },
            reenter: r.pct(25),
            query_pm: if profile == "M08" { 250 } else { 15 },
            sim_pm: *r.pick(&[0, 50]),
            nsteps: if crowd > 0 { 50 } else { long(r, &[40, 80, 140]) },
        }
    }

    fn new(cfg: &Cfg) -> Self {
        let (chain, out) = deploy(cfg);
        let mut w = V1 { cfg: cfg.clone(), born: vec![], chain, net: Net::new(cfg.loss, cfg.dup, cfg.delay), supply0: BTreeMap::new(), cur: None, memo: Default::default(), version: String::new(), follower: None };
        w.supply0 = supply(&bank_of(&w.chain));
        w.cur = w.observe().ok();
        w.version = w.cur.as_ref().map(|o| o.version.clone()).unwrap_or_default();
        w.check_birth(&out);
        w.try_birth();
        if cfg.crowd > 0 {
            w.fill();
            w.cur = w.observe().ok();
        }
        w
    }

    fn steps(cfg: &Cfg, r: &mut Rng) -> usize {
        (cfg.nsteps / 2 + r.below(cfg.nsteps)) as usize
    }

    fn gen(&mut self, r: &mut Rng) -> Step {
        let o = match &self.cur {
            Some(o) => o.clone(),
            None => return Step { op: Op::Block { dt: SEC }, fault: Fault::None, net: 0, simulate: false },
        };
        let (op, net) = loop {
            if let Some(x) = self.net.late(r) {
                break x;
            }
            let op = self.gen_op(r, &o);
            if matches!(op, Op::Fake { .. }) || self.msg(&op).is_none() {
                break (op, 0);
            }
            if let Some(x) = self.net.step(r, op) {
                break x;
            }
        };
        let fault = match op {
            Op::Block { .. } | Op::Env { .. } | Op::Nft { .. } | Op::HookEnv { .. } | Op::Migrate { .. } => Fault::None,
            _ => gen_fault(r, self.cfg.fault_pm),
        };
        Step { op, fault, net, simulate: r.permille(self.cfg.sim_pm) }
    }

    fn apply(&mut self, s: &Step, rec: &mut Rec) {
        report_birth(&mut self.born, rec);
        let o = match self.cur.take() {
            Some(o) => o,
            None => match self.observe() {
                Ok(o) => o,
                Err(e) => {
                    rec.violate(&["M08"], "v1:observe", e);
                    return;
                }
            },
        };
        for _ in 0..std::mem::take(&mut self.net.lost) {
            rec.fault("tx_lost");
        }
        match s.net {
            1 => rec.fault("tx_delayed_or_reordered"),
            2 => rec.fault("tx_duplicated"),
            _ => {}
        }
        let m = market();
        match &s.op {
            Op::Block { dt } => {
                self.chain.next_block(*dt);
                rec.sim_ns += *dt as u128;
                let mut o = o;
                o.now = self.chain.now();
                rec.log(&format!("block {}", o.now));
                self.cur = Some(o);
            }
            Op::Env { c, ch } => {
                set_env(&self.chain, &coll(*c), &m, ch);
                rec.fault(match ch {
                    EnvCh::InfoFail(true) | EnvCh::OwnerFail(true) | EnvCh::ApprovalFail(true) => "collection_outage",
                    EnvCh::TransferFail(true) | EnvCh::TransferPanic(true) => "collection_refuses_transfers",
                    EnvCh::Royalty(_) => "royalty_changed",
                    EnvCh::Reenter(_) => "malicious_collection",
                    _ => "collection_change",
                });
                rec.log(&format!("env {c} {ch:?}"));
                self.cur = Some(o);
            }
            Op::HookEnv { n, mode } => {
                self.set_hook(*n, mode);
                rec.fault(match mode {
                    HookCh::Ok => "hook_repaired",
                    HookCh::Fail => "hook_fails",
                    HookCh::Panic => "hook_panics",
                    HookCh::Reenter(_) => "hook_reenters",
                });
                rec.log(&format!("hookenv {n} {mode:?}"));
                self.cur = Some(o);
            }
            Op::Nft { who, k, act } => {
                let out = nft_act(&self.chain, &acct(*who), &coll(k.0), &tok(k.1), &m, act);
                rec.log(&format!("nft {}", out.ok));
                if out.ok {
                    rec.fault("nft_changed_outside_market");
                }
                let mut o = o;
                o.owner.insert(*k, self.chain.nft_owner(&coll(k.0), &tok(k.1)));
                self.cur = Some(o);
            }
            Op::Params(_) | Op::Operator { .. } | Op::Hook { .. } => {
                let exp = Self::sudo_expect(&o, &s.op);
                let out = self.chain.sudo(&m, &bin(&Self::sudo_msg(&s.op)), s.fault);
                rec.log(&format!("gov {}", out.ok));
                self.judge(o, exp, &["M09"], "gov", &out, rec);
            }
            Op::Migrate { stored } => {
                let (out, old) = self.do_migrate(*stored);
                rec.log(&format!("migrate {stored} {}", out.ok));
                rec.stat("migrations");
                let exp: Exp = match stored {
                    2 => Err("stored version is newer"),
                    3 => Err("another contract"),
                    4 => Err("unreadable version"),
                    _ => Ok((o.clone(), vec![])),
                };
                let mut o = o;
                if exp.is_err() {
                    o.version = self.chain.kv(&m).get("contract_info".as_bytes()).map(|v| String::from_utf8_lossy(v).to_string()).unwrap_or_default();
                }
                self.judge(o, exp, &["M09"], "migrate", &out, rec);
                // put the real version back
                if let (Some(v), true) = (old, *stored > 1) {
                    self.chain.raw_set(&m, b"contract_info", &v);
                    if let Some(c) = &mut self.cur {
                        c.version = String::from_utf8_lossy(&v).to_string();
                    }
                }
            }
            op => {
                self.pre(op);
                let (who, msg, funds) = self.msg(op).unwrap();
                let (exp, tags, what) = self.expect(&o, op, &who, &funds);
                if s.simulate {
                    self.chain.simulate(&who, &m, &bin(&msg), &funds);
                    rec.stat("simulated_first");
                }
                let out = self.chain.tx(&who, &m, &bin(&msg), &funds, s.fault);
                rec.log(&format!("{what} {} {:?}", out.ok, out.transfers));
                if out.ok {
                    rec.stat(&format!("ok_{what}"));
                    rec.committed += 1;
                } else {
                    rec.stat(&format!("refused_{what}"));
                }
                self.judge(o, exp, &tags, what, &out, rec);
            }
        }
        rec.states.push(self.chain.store_hash(&m));
        if let Some(g) = self.cur.take() {
            self.invariants(&g, rec);
            let x = rec.log ^ (rec.step as u64).wrapping_mul(0x9E3779B97F4A7C15);
            if (x >> 7) % 1000 < self.cfg.query_pm {
                self.check_queries(&g, x >> 20, rec);
            }
            self.cur = Some(g);
        }
    }

    fn finish(&mut self, rec: &mut Rec) {
        report_birth(&mut self.born, rec);
        // whatever the collections and hooks do, every bidder gets the money back on request
        let o = match self.cur.take() {
            Some(o) => o,
            None => return,
        };
        self.check_queries(&o, rec.log >> 20, rec);
        rec.stat("withdrawal_checks");
        for c in 0..self.cfg.colls {
            for ch in [EnvCh::InfoFail(true), EnvCh::OwnerFail(true), EnvCh::ApprovalFail(true), EnvCh::TransferFail(true)] {
                set_env(&self.chain, &coll(c), &market(), &ch);
            }
        }
        for n in 0..NHOOK {
            self.set_hook(n, &if n % 2 == 0 { HookCh::Fail } else { HookCh::Panic });
        }
        let ops: Vec<Op> = o
            .bids
            .keys()
            .map(|k| Op::RemoveBid { who: k.2, k: (k.0, k.1), funds: vec![] })
            .chain(o.cbids.keys().map(|k| Op::RemoveColBid { who: k.1, c: k.0, funds: vec![] }))
            .collect();
        self.cur = Some(o);
        for op in ops {
            let o = match self.cur.take() {
                Some(o) => o,
                None => return,
            };
            let (who, msg, funds) = self.msg(&op).unwrap();
            let (exp, _, _) = self.expect(&o, &op, &who, &funds);
            let out = self.chain.tx(&who, &market(), &bin(&msg), &funds, Fault::None);
            self.judge(o, exp, &["M03", "M07"], "final-withdrawal", &out, rec);
        }
        if let Some(o) = &self.cur {
            self.invariants(o, rec);
        }
    }

    fn shrink(s: &Step) -> Vec<Step> {
        let mut v = vec![];
        let base = Step { op: s.op.clone(), fault: Fault::None, net: 0, simulate: false };
        v.push(base.clone());
        let with = |op: Op| Step { op, fault: s.fault, net: 0, simulate: false };
        match &s.op {
            Op::Block { dt } => {
                for d in [SEC, dt / SEC * SEC, 6 * SEC] {
                    if d > 0 && d < *dt {
                        v.push(with(Op::Block { dt: d }));
                    }
                }
            }
            Op::SetAsk { who, k, auction, denom, price, recip, reserve, bps, exp, funds, approve } => {
                let mk = |recip: &Option<u8>, reserve: &Option<u8>, bps: &Option<u64>, price: u128| Op::SetAsk {
                    who: *who,
                    k: *k,
                    auction: *auction,
                    denom: *denom,
                    price,
                    recip: *recip,
                    reserve: *reserve,
                    bps: *bps,
                    exp: *exp,
                    funds: funds.clone(),
                    approve: *approve,
                };
                v.push(with(mk(&None, reserve, bps, *price)));
                v.push(with(mk(recip, &None, bps, *price)));
                v.push(with(mk(recip, reserve, &None, *price)));
                if *price > 100 {
                    v.push(with(mk(recip, reserve, bps, 100)));
                }
            }
            Op::Bid { who, k, mode, to, exp, finder, bps, funds } => {
                let mk = |mode: u8, finder: &Option<u8>, bps: &Option<u64>, funds: Funds| Op::Bid { who: *who, k: *k, mode, to: *to, exp: *exp, finder: *finder, bps: *bps, funds };
                v.push(with(mk(*mode, &None, bps, funds.clone())));
                v.push(with(mk(*mode, finder, &None, funds.clone())));
                if *mode > 0 {
                    v.push(with(mk(0, finder, bps, funds.clone())));
                }
                if funds.len() == 1 && funds[0].1 > 100 {
                    v.push(with(mk(*mode, finder, bps, vec![(funds[0].0, 100)])));
                }
            }
            Op::Accept { who, k, bidder, finder: Some(_), funds, approve } => {
                v.push(with(Op::Accept { who: *who, k: *k, bidder: *bidder, finder: None, funds: funds.clone(), approve: *approve }));
            }
            _ => {}
        }
        v
    }

    fn chain(&self) -> &Chain {
        &self.chain
    }
}
