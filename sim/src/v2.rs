//! Marketplace v2: escrowed asks, bids and collection bids matched on arrival.

use crate::chain::*;
use crate::common::*;
use crate::engine::{Rec, World};
use crate::rng::Rng;
use cosmwasm_std::Coin;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub type Key = (u8, u8);
/// id the model gives an order it expects to be created
const NEW: &str = "(new)";

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Conf {
    pub manager: u8,
    pub registry: bool,
    pub protocol: u64,
    pub max_royalty: u64,
    pub maker: u64,
    pub taker: u64,
    pub denom: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub users: u8,
    pub colls: u8,
    pub tokens: u8,
    pub start_ns: u64,
    pub conf: Conf,
    /// listing fee per denomination
    pub listing: Vec<(u8, u128)>,
    pub coll_denom: Vec<Option<u8>>,
    pub royalty: Vec<Option<(u8, u128)>>,
    pub prices: Vec<u128>,
    pub w: Vec<u64>,
    pub fault_pm: u64,
    pub loss: u64,
    pub dup: u64,
    pub delay: u64,
    pub poison: bool,
    /// picks a second instantiation to try; 0 for none
    #[serde(default)]
    pub birth: u64,
    /// seed of a book filled before the history starts; 0 for an empty one
    #[serde(default)]
    pub crowd: u64,
    pub reenter: bool,
    pub query_pm: u64,
    pub sim_pm: u64,
    pub nsteps: u64,
}

/// Terms of an order as a client writes them.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Terms {
    pub denom: u8,
    pub price: u128,
    pub recip: Option<u8>,
    pub finder: Option<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Block { dt: u64 },
    Config { who: u8, conf: Conf, funds: Funds },
    ColDenom { who: u8, c: u8, denom: u8, funds: Funds },
    ListFee { who: u8, denom: u8, amount: u128, funds: Funds },
    RmListFee { who: u8, denom: u8, funds: Funds },
    /// now: SellNft instead of SetAsk
    Ask { who: u8, k: Key, t: Terms, now: bool, funds: Funds, approve: bool },
    UpdAsk { who: u8, k: Key, t: Terms, funds: Funds },
    RmAsk { who: u8, k: Key, funds: Funds },
    AccAsk { who: u8, k: Key, t: Terms, funds: Funds },
    /// tag names the order for later steps; now: BuySpecificNft / BuyCollectionNft
    Bid { who: u8, k: Key, t: Terms, now: bool, tag: u32, funds: Funds },
    UpdBid { who: u8, tag: u32, t: Terms, funds: Funds },
    RmBid { who: u8, tag: u32, funds: Funds },
    AccBid { who: u8, tag: u32, t: Terms, funds: Funds, approve: bool },
    Col { who: u8, c: u8, t: Terms, now: bool, tag: u32, funds: Funds },
    UpdCol { who: u8, tag: u32, t: Terms, funds: Funds },
    RmCol { who: u8, tag: u32, funds: Funds },
    AccCol { who: u8, tag: u32, token: u8, t: Terms, funds: Funds, approve: bool },
    Nft { who: u8, k: Key, act: NftAct },
    Env { c: u8, ch: EnvCh },
    /// the collection's creator writes to the royalty registry: protocol entry or default, set or changed
    Registry { c: u8, protocol: bool, update: bool, to: u8, share: u128, dec: bool },
    /// chain-level change of the contract's administrator
    Admin { to: Option<u8> },
    Migrate { stored: u8 },
    Fake { who: u8, n: u8 },
    /// many bids (collection bids if no token) by one client in one block, each withdrawn again in the same block
    Burst { who: u8, c: u8, t: Option<u8>, n: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    pub op: Op,
    #[serde(default)]
    pub fault: Fault,
    #[serde(default)]
    pub net: u8,
    #[serde(default)]
    pub simulate: bool,
}

#[derive(Clone, Debug, PartialEq)]
struct Order {
    id: String,
    creator: String,
    c: u8,
    /// token; None for a collection bid
    t: Option<u8>,
    denom: String,
    price: u128,
    recip: Option<String>,
    finder: Option<String>,
}
impl Order {
    fn to(&self) -> String {
        self.recip.clone().unwrap_or_else(|| self.creator.clone())
    }
}

#[derive(Clone, Debug)]
struct Obs {
    now: u64,
    conf: Value,
    cdenom: BTreeMap<u8, Option<String>>,
    asks: BTreeMap<Key, Order>,
    bids: BTreeMap<String, Order>,
    cbids: BTreeMap<String, Order>,
    owner: BTreeMap<Key, Option<String>>,
    bank: Bank,
    version: String,
    /// what the sale just modelled pays in each role
    told: BTreeMap<&'static str, u128>,
}

pub struct V2 {
    pub cfg: Cfg,
    born: Born,
    chain: Chain,
    net: Net<Op>,
    supply0: BTreeMap<String, u128>,
    cur: Option<Obs>,
    memo: std::cell::RefCell<Memo<Obs>>,
    /// listing fees as the administrator set them (the contract has no query for them)
    listing: BTreeMap<String, u128>,
    admin: Option<String>,
    /// bids and collection bids by client tag
    tags: BTreeMap<u32, String>,
    /// last known id of the ask of a token
    ask_ids: BTreeMap<Key, String>,
    /// every bid or collection bid id ever seen
    seen: BTreeSet<String>,
    next_tag: u32,
    follower: Follower,
}

/// What somebody who reads nothing but events knows.
#[derive(Clone, Debug, Default, PartialEq)]
struct Follower {
    conf: Value,
    cdenom: BTreeMap<u8, Option<String>>,
    listing: BTreeMap<String, u128>,
    asks: BTreeMap<String, Order>,
    bids: BTreeMap<String, Order>,
    cbids: BTreeMap<String, Order>,
}

impl Follower {
    fn book(&mut self, event: &str) -> &mut BTreeMap<String, Order> {
        if event.ends_with("collection-bid") {
            &mut self.cbids
        } else if event.ends_with("bid") {
            &mut self.bids
        } else {
            &mut self.asks
        }
    }
}

type Bad = &'static str;
/// What an operation may lead to: any of these states (ties may be broken either way), or a refusal.
#[derive(Clone)]
struct Good {
    states: Vec<Obs>,
    sale: bool,
    listing: Option<BTreeMap<String, u128>>,
    /// One way of breaking the tie leads to this refusal instead.
    may: Option<Bad>,
}
type Exp = Result<Good, Bad>;

fn market() -> String {
    contract("marketb")
}
fn registry() -> String {
    contract("registry")
}
fn coll(c: u8) -> String {
    contract(["kong", "apes", "punk"][c as usize % 3])
}
const TOKS: [&str; 5] = ["1", "10", "1/0", "Kitty ", "kitty"];
fn tok(t: u8) -> String {
    match TOKS.get(t as usize) {
        Some(x) => x.to_string(),
        None => (t as u32 * 37).to_string(),
    }
}
/// Account 8 is the contract's first administrator.
fn person(i: u8) -> String {
    match i {
        8 => user("admin"),
        // who put the contract on the chain
        9 => user("deployer"),
        _ => acct(i),
    }
}
fn us(v: &Value) -> u128 {
    v.as_str().and_then(|s| s.parse().ok()).unwrap_or(u128::MAX)
}
fn os(v: &Value) -> Option<String> {
    v.as_str().map(|s| s.to_string())
}
fn details(t: &Terms) -> Value {
    json!({"price": {"denom": denom(t.denom), "amount": t.price.to_string()}, "recipient": t.recip.map(acct), "finder": t.finder.map(acct)})
}
fn conf_json(c: &Conf) -> Value {
    json!({"fee_manager": acct(c.manager), "royalty_registry": if c.registry { registry() } else { acct(0) }, "protocol_fee_bps": c.protocol,
        "max_royalty_fee_bps": c.max_royalty, "maker_reward_bps": c.maker, "taker_reward_bps": c.taker, "default_denom": denom(c.denom)})
}

/// Take coins out of a purse; false when there is not enough.
fn take(p: &mut BTreeMap<String, u128>, d: &str, a: u128) -> bool {
    let have = p.get(d).copied().unwrap_or(0);
    if have < a {
        return false;
    }
    p.insert(d.to_string(), have - a);
    true
}

impl V2 {
    fn q(&self, m: Value) -> Result<Value, String> {
        self.chain.query(&market(), &m)
    }
    fn parse(&self, v: &Value) -> Result<Order, String> {
        let col = v["collection"].as_str().unwrap_or("");
        let c = (0..self.cfg.colls).find(|c| coll(*c) == col).ok_or_else(|| format!("order of an unknown collection: {v}"))?;
        let t = match v.get("token_id") {
            None => None,
            Some(t) => Some((0..=254u8).find(|i| Some(tok(*i).as_str()) == t.as_str()).ok_or_else(|| format!("order of an unknown token: {v}"))?),
        };
        let d = &v["details"];
        Ok(Order {
            id: os(&v["id"]).unwrap_or_default(),
            creator: os(&v["creator"]).unwrap_or_default(),
            c,
            t,
            denom: os(&d["price"]["denom"]).unwrap_or_default(),
            price: us(&d["price"]["amount"]),
            recip: os(&d["recipient"]),
            finder: os(&d["finder"]),
        })
    }
    fn json(o: &Order) -> Value {
        let mut v = json!({"id": o.id, "creator": o.creator, "collection": coll(o.c),
            "details": {"price": {"denom": o.denom, "amount": o.price.to_string()}, "recipient": o.recip, "finder": o.finder}});
        if let Some(t) = o.t {
            v["token_id"] = json!(tok(t));
        }
        v
    }

    /// All orders of a kind, found through the creators' listings.
    fn orders(&self, q: &str) -> Result<Vec<Order>, String> {
        let mut out: Vec<Order> = vec![];
        for u in (0..self.cfg.users).chain([8]) {
            for c in 0..self.cfg.colls {
                let mut after: Option<String> = None;
                loop {
                    let v = self.q(json!({q: {"creator": person(u), "collection": coll(c), "query_options": {"limit": 100,
                        "min": after.as_ref().map(|a| json!({"exclusive": a}))}}}))?;
                    let page = v.as_array().cloned().unwrap_or_default();
                    for x in &page {
                        let o = self.parse(x)?;
                        if o.creator != person(u) || o.c != c {
                            return Err(format!("{q} for {}/{c} returned {x}", nick(&person(u))));
                        }
                        if out.iter().any(|y| y.id == o.id) {
                            return Err(format!("{q}: id {} listed twice", o.id));
                        }
                        after = Some(o.id.clone());
                        out.push(o);
                    }
                    if page.len() < 100 {
                        break;
                    }
                }
            }
        }
        Ok(out)
    }

    /// Everything the queries, balances and NFT owners say. Asked anew when anything stored anywhere has
    /// changed, and now and then when nothing has.
    fn observe(&self) -> Result<Obs, String> {
        let h = self.chain.content_hash();
        if let Some(mut o) = self.memo.borrow_mut().get(h) {
            o.now = self.chain.now();
            return Ok(o);
        }
        let o = self.observe_all()?;
        self.memo.borrow_mut().set(h, &o);
        Ok(o)
    }

    fn observe_all(&self) -> Result<Obs, String> {
        let conf = self.q(json!({"config": {}}))?;
        let mut cdenom = BTreeMap::new();
        let mut owner = BTreeMap::new();
        for c in 0..self.cfg.colls {
            cdenom.insert(c, os(&self.q(json!({"collection_denom": {"collection": coll(c)}}))?));
            for t in 0..self.cfg.tokens {
                owner.insert((c, t), self.chain.nft_owner(&coll(c), &tok(t)));
            }
        }
        let mut asks = BTreeMap::new();
        for a in self.orders("asks_by_creator_collection")? {
            let k = (a.c, a.t.unwrap());
            if let Some(b) = asks.insert(k, a) {
                return Err(format!("two asks for token {k:?}, one is {}", b.id));
            }
        }
        let mut bids: BTreeMap<String, Order> = self.orders("bids_by_creator_collection")?.into_iter().map(|o| (o.id.clone(), o)).collect();
        let mut cbids: BTreeMap<String, Order> = self.orders("collection_bids_by_creator_collection")?.into_iter().map(|o| (o.id.clone(), o)).collect();
        // the same orders again by identity, together with all that were open before
        let point = |q: &str, ids: Vec<String>| -> Result<BTreeMap<String, Order>, String> {
            let v = self.q(json!({q: ids}))?;
            let mut m = BTreeMap::new();
            for x in v.as_array().cloned().unwrap_or_default() {
                let o = self.parse(&x)?;
                m.insert(o.id.clone(), o);
            }
            Ok(m)
        };
        let known = |now: Vec<String>, was: Option<Vec<String>>| -> Vec<String> {
            let mut v: BTreeSet<String> = now.into_iter().collect();
            v.extend(was.unwrap_or_default());
            v.into_iter().collect()
        };
        let pa = point("asks", known(asks.values().map(|a| a.id.clone()).collect(), Some(self.ask_ids.values().cloned().collect())))?;
        let la: BTreeMap<String, Order> = asks.values().map(|a| (a.id.clone(), a.clone())).collect();
        if pa != la {
            return Err(format!("asks by identity {:?} differ from asks by creator {:?}", pa.keys(), la.keys()));
        }
        let was = |f: &dyn Fn(&Obs) -> Vec<String>| self.cur.as_ref().map(|o| f(o));
        let pb = point("bids", known(bids.keys().cloned().collect(), was(&|o| o.bids.keys().cloned().collect())))?;
        if pb != bids {
            return Err(format!("bids by identity {:?} differ from bids by creator {:?}", pb.keys(), bids.keys()));
        }
        let pc = point("collection_bids", known(cbids.keys().cloned().collect(), was(&|o| o.cbids.keys().cloned().collect())))?;
        if pc != cbids {
            return Err(format!("collection bids by identity {:?} differ from those by creator {:?}", pc.keys(), cbids.keys()));
        }
        bids.retain(|_, _| true);
        cbids.retain(|_, _| true);
        let version = self.chain.kv(&market()).get("contract_info".as_bytes()).map(|v| String::from_utf8_lossy(v).to_string()).unwrap_or_default();
        Ok(Obs { now: self.chain.now(), conf, cdenom, asks, bids, cbids, owner, bank: bank_of(&self.chain), version, told: Default::default() })
    }

    fn env(&self, c: u8) -> NftEnv {
        self.chain.inner.borrow().nft_env[&coll(c)].clone()
    }
    fn ask_id(&self, k: &Key) -> String {
        self.ask_ids.get(k).cloned().unwrap_or_else(|| "0badc0de".to_string())
    }
    fn tag_id(&self, t: u32) -> String {
        self.tags.get(&t).cloned().unwrap_or_else(|| format!("0badc0de{t}"))
    }

    fn msg(&self, op: &Op) -> Option<(String, Value, Vec<Coin>)> {
        Some(match op {
            Op::Config { who, conf, funds } => (person(*who), json!({"update_config": {"config": conf_json(conf)}}), coins(funds)),
            Op::ColDenom { who, c, denom: d, funds } => (person(*who), json!({"update_collection_denom": {"collection": coll(*c), "denom": denom(*d)}}), coins(funds)),
            Op::ListFee { who, denom: d, amount, funds } => {
                (person(*who), json!({"set_listing_fee": {"fee": {"denom": denom(*d), "amount": amount.to_string()}}}), coins(funds))
            }
            Op::RmListFee { who, denom: d, funds } => (person(*who), json!({"remove_listing_fee": {"denom": denom(*d)}}), coins(funds)),
            Op::Ask { who, k, t, now, funds, .. } => {
                (person(*who), json!({if *now {"sell_nft"} else {"set_ask"}: {"collection": coll(k.0), "token_id": tok(k.1), "details": details(t)}}), coins(funds))
            }
            Op::UpdAsk { who, k, t, funds } => (person(*who), json!({"update_ask": {"id": self.ask_id(k), "details": details(t)}}), coins(funds)),
            Op::RmAsk { who, k, funds } => (person(*who), json!({"remove_ask": {"id": self.ask_id(k)}}), coins(funds)),
            Op::AccAsk { who, k, t, funds } => (person(*who), json!({"accept_ask": {"id": self.ask_id(k), "details": details(t)}}), coins(funds)),
            Op::Bid { who, k, t, now, funds, .. } => {
                (person(*who), json!({if *now {"buy_specific_nft"} else {"set_bid"}: {"collection": coll(k.0), "token_id": tok(k.1), "details": details(t)}}), coins(funds))
            }
            Op::UpdBid { who, tag, t, funds } => (person(*who), json!({"update_bid": {"id": self.tag_id(*tag), "details": details(t)}}), coins(funds)),
            Op::RmBid { who, tag, funds } => (person(*who), json!({"remove_bid": {"id": self.tag_id(*tag)}}), coins(funds)),
            Op::AccBid { who, tag, t, funds, .. } => (person(*who), json!({"accept_bid": {"id": self.tag_id(*tag), "details": details(t)}}), coins(funds)),
            Op::Col { who, c, t, now, funds, .. } => {
                (person(*who), json!({if *now {"buy_collection_nft"} else {"set_collection_bid"}: {"collection": coll(*c), "details": details(t)}}), coins(funds))
            }
            Op::UpdCol { who, tag, t, funds } => (person(*who), json!({"update_collection_bid": {"id": self.tag_id(*tag), "details": details(t)}}), coins(funds)),
            Op::RmCol { who, tag, funds } => (person(*who), json!({"remove_collection_bid": {"id": self.tag_id(*tag)}}), coins(funds)),
            Op::AccCol { who, tag, token, t, funds, .. } => {
                (person(*who), json!({"accept_collection_bid": {"id": self.tag_id(*tag), "token_id": tok(*token), "details": details(t)}}), coins(funds))
            }
            Op::Fake { who, n } => {
                let any = json!({"price": {"denom": denom(0), "amount": "1"}, "recipient": null, "finder": null});
                let m = match n % 7 {
                    0 => json!({"set_config": {"config": {}}}),
                    1 => json!({"finalize_sale": {"id": self.ask_id(&(0, 0))}}),
                    2 => json!({"accept_bid": {"id": "", "details": any}}),
                    3 => json!({"set_bid": {"collection": "nonsense", "token_id": "1", "details": any}}),
                    4 => json!({"remove_bid": {"id": self.ask_id(&(0, 0))}}),
                    5 => json!({"set_bid": {"collection": coll(0), "token_id": "1", "details": {"price": {"denom": denom(0), "amount": "1"}, "recipient": "UPPER", "finder": null}}}),
                    _ => json!({"remove_ask": {"id": self.tags.values().next().cloned().unwrap_or_default()}}),
                };
                (person(*who), m, vec![])
            }
            _ => return None,
        })
    }

    /// The royalty that applies to a sale of the collection: registry protocol entry, registry default, collection info.
    fn royalty(&self, o: &Obs, c: u8) -> Result<Option<(String, u128)>, Bad> {
        let reg = o.conf["royalty_registry"].as_str().unwrap_or("").to_string();
        let v: Value = self.chain.query(&reg, &json!({"royalty_payment": {"collection": coll(c), "protocol": market()}})).map_err(|_| "royalty registry unavailable")?;
        for e in ["royalty_protocol", "royalty_default"] {
            if !v[e].is_null() {
                let r = &v[e]["royalty_entry"];
                return Ok(Some((os(&r["recipient"]).unwrap_or_default(), dec(r["share"].as_str().unwrap_or("0")))));
            }
        }
        let env = self.env(c);
        if env.info_fail {
            return Ok(None);
        }
        match &env.royalty {
            None => Ok(None),
            Some((p, s)) => {
                if !p.starts_with("stars1") {
                    return Err("royalty payee invalid");
                }
                if dec(s) > E18 {
                    return Err("royalty share above 100%");
                }
                Ok(Some((p.clone(), dec(s))))
            }
        }
    }

    /// Model of a sale: pays everyone out of the contract and moves the token.
    fn sale(&self, n: &mut Obs, ask: &Order, bid: &Order, ask_first: bool) -> Result<(), Bad> {
        let m = market();
        let (price, d) = if ask_first { (ask.price, &ask.denom) } else { (bid.price, &bid.denom) };
        let (maker, taker) = if ask_first { (&ask.finder, &bid.finder) } else { (&bid.finder, &ask.finder) };
        let bps = |x: &Value| x.as_u64().unwrap_or(0) as u128 * (E18 / 10_000);
        let all = bps(&n.conf["protocol_fee_bps"]);
        let mut protocol = all;
        let mut pays: Vec<(&'static str, String, u128)> = vec![];
        for (role, f, key) in [("maker", maker, "maker_reward_bps"), ("taker", taker, "taker_reward_bps")] {
            if let Some(f) = f {
                let r = all * bps(&n.conf[key]) / E18;
                protocol -= r;
                pays.push((role, f.clone(), r));
            }
        }
        pays.push(("protocol", os(&n.conf["fee_manager"]).unwrap_or_default(), protocol));
        if let Some((to, share)) = self.royalty(n, ask.c)? {
            pays.push(("royalty", to, share.min(bps(&n.conf["max_royalty_fee_bps"]))));
        }
        let mut rest = price;
        n.told.clear();
        for (role, to, share) in pays {
            let a = mul_ceil(price, share).ok_or("overflow")?;
            n.told.insert(role, a);
            rest = rest.checked_sub(a).ok_or("fees exceed price")?;
            mv(&mut n.bank, &m, &to, d, a);
        }
        mv(&mut n.bank, &m, &ask.to(), d, rest);
        n.told.insert("seller", rest);
        self.can_move(&(ask.c, ask.t.unwrap()))?;
        let k = (ask.c, ask.t.unwrap());
        n.owner.insert(k, Some(bid.to()));
        if n.asks.get(&k).map_or(false, |a| a.id == ask.id) {
            n.asks.remove(&k);
        }
        n.bids.remove(&bid.id);
        n.cbids.remove(&bid.id);
        Ok(())
    }
    fn can_move(&self, k: &Key) -> Result<(), Bad> {
        let env = self.env(k.0);
        if env.transfer_fail || env.transfer_panic {
            return Err("collection refuses transfer");
        }
        if !self.chain.nft_can_move(&coll(k.0), &tok(k.1), &market()) {
            return Err("marketplace may not move the token");
        }
        Ok(())
    }

    fn valid_price(o: &Obs, c: u8, t: &Terms) -> Result<(), Bad> {
        if t.price == 0 {
            return Err("price is zero");
        }
        let d = o.cdenom[&c].clone().or_else(|| os(&o.conf["default_denom"])).unwrap_or_default();
        if d != denom(t.denom) {
            return Err("wrong denomination");
        }
        Ok(())
    }
    fn tradable(&self, o: &Obs, c: u8) -> Result<(), Bad> {
        let env = self.env(c);
        match env.start_trading_ns {
            Some(s) if !env.info_fail && s > o.now => Err("not tradable yet"),
            _ => Ok(()),
        }
    }
    fn owns(&self, o: &Obs, who: &str, k: &Key) -> Result<(), Bad> {
        match o.owner.get(k).cloned().flatten() {
            None => Err("no such token"),
            Some(w) if w != who => Err("not the owner"),
            _ if self.env(k.0).owner_fail => Err("owner unknown"),
            _ => Ok(()),
        }
    }

    /// Best orders an ask could sell to (several when they tie).
    fn best_bids(o: &Obs, ask: &Order) -> Vec<Order> {
        let fit = |b: &&Order| b.c == ask.c && b.denom == ask.denom && b.price >= ask.price && (b.t.is_none() || b.t == ask.t);
        let top = match o.bids.values().chain(o.cbids.values()).filter(fit).map(|b| b.price).max() {
            Some(p) => p,
            None => return vec![],
        };
        let v: Vec<Order> = o.bids.values().filter(fit).filter(|b| b.price == top).cloned().collect();
        if !v.is_empty() {
            return v;
        }
        o.cbids.values().filter(fit).filter(|b| b.price == top).cloned().collect()
    }
    /// Cheapest asks a bid reaches.
    fn best_asks(o: &Obs, bid: &Order) -> Vec<Order> {
        let fit = |a: &&Order| a.c == bid.c && a.denom == bid.denom && a.price <= bid.price && (bid.t.is_none() || bid.t == a.t);
        let low = match o.asks.values().filter(fit).map(|a| a.price).min() {
            Some(p) => p,
            None => return vec![],
        };
        o.asks.values().filter(fit).filter(|a| a.price == low).cloned().collect()
    }

    fn order(id: &str, creator: &str, c: u8, t: Option<u8>, x: &Terms) -> Order {
        Order {
            id: id.to_string(),
            creator: creator.to_string(),
            c,
            t,
            denom: denom(x.denom),
            price: x.price,
            recip: x.recip.map(acct),
            finder: x.finder.map(acct),
        }
    }

    /// A bid or collection bid arrives or changes: trade with the cheapest ask or rest in the book.
    fn place(&self, n: Obs, who: &str, bid: Order, mut purse: BTreeMap<String, u128>, now: bool) -> Exp {
        let cands = Self::best_asks(&n, &bid);
        let m = market();
        let give_back = |n: &mut Obs, purse: &BTreeMap<String, u128>| {
            for (d, a) in purse {
                mv(&mut n.bank, &m, who, d, *a);
            }
        };
        if cands.is_empty() {
            if now {
                return Err("no match");
            }
            if !take(&mut purse, &bid.denom, bid.price) {
                return Err("payment below the price");
            }
            let mut n = n;
            give_back(&mut n, &purse);
            if bid.t.is_some() {
                n.bids.insert(bid.id.clone(), bid);
            } else {
                n.cbids.insert(bid.id.clone(), bid);
            }
            return Ok(Good { states: vec![n], sale: false, listing: None, may: None });
        }
        let mut states = vec![];
        let mut why = None;
        for a in cands {
            let mut p = purse.clone();
            if !take(&mut p, &a.denom, a.price) {
                why = Some("payment below the price");
                continue;
            }
            let mut x = n.clone();
            match self.sale(&mut x, &a, &bid, true) {
                Ok(()) => {
                    give_back(&mut x, &p);
                    states.push(x);
                }
                Err(e) => why = Some(e),
            }
        }
        if states.is_empty() {
            return Err(why.unwrap_or("no match"));
        }
        Ok(Good { states, sale: true, listing: None, may: why })
    }

    fn expect(&self, o: &Obs, op: &Op, who: &str, funds: &[Coin]) -> (Exp, &'static str) {
        let mut n = o.clone();
        let m = market();
        let paid = pay_in(&mut n.bank, who, &m, funds);
        let free = funds.is_empty();
        let mut purse: BTreeMap<String, u128> = funds.iter().map(|c| (c.denom.clone(), c.amount.u128())).collect();
        let admin = self.admin.as_deref() == Some(who);
        let one = |n: Obs| -> Exp { Ok(Good { states: vec![n], sale: false, listing: None, may: None }) };
        let what = match op {
            Op::Config { .. } => "config",
            Op::ColDenom { .. } => "collection_denom",
            Op::ListFee { .. } | Op::RmListFee { .. } => "listing_fee",
            Op::Ask { now: false, .. } => "set_ask",
            Op::Ask { now: true, .. } => "sell_nft",
            Op::UpdAsk { .. } => "update_ask",
            Op::RmAsk { .. } => "remove_ask",
            Op::AccAsk { .. } => "accept_ask",
            Op::Bid { now: false, .. } => "set_bid",
            Op::Bid { now: true, .. } => "buy_specific",
            Op::UpdBid { .. } => "update_bid",
            Op::RmBid { .. } => "remove_bid",
            Op::AccBid { .. } => "accept_bid",
            Op::Col { now: false, .. } => "set_collection_bid",
            Op::Col { now: true, .. } => "buy_collection",
            Op::UpdCol { .. } => "update_collection_bid",
            Op::RmCol { .. } => "remove_collection_bid",
            Op::AccCol { .. } => "accept_collection_bid",
            _ => "fake",
        };
        let r = (|| -> Exp {
            if !paid {
                return Err("insufficient funds");
            }
            match op {
                Op::Config { conf, .. } => {
                    if !free {
                        return Err("unwanted funds");
                    }
                    if !admin {
                        return Err("not the admin");
                    }
                    if conf.protocol >= 10_000 || conf.maker as u128 + conf.taker as u128 >= 10_000 {
                        return Err("fees out of range");
                    }
                    n.conf = conf_json(conf);
                    one(n)
                }
                Op::ColDenom { c, denom: d, .. } => {
                    if !free {
                        return Err("unwanted funds");
                    }
                    if !admin {
                        return Err("not the admin");
                    }
                    n.cdenom.insert(*c, Some(denom(*d)));
                    one(n)
                }
                Op::ListFee { .. } | Op::RmListFee { .. } => {
                    if !free {
                        return Err("unwanted funds");
                    }
                    if !admin {
                        return Err("not the admin");
                    }
                    let mut l = self.listing.clone();
                    match op {
                        Op::ListFee { denom: d, amount, .. } => l.insert(denom(*d), *amount),
                        Op::RmListFee { denom: d, .. } => l.remove(&denom(*d)),
                        _ => None,
                    };
                    Ok(Good { states: vec![n], sale: false, listing: Some(l), may: None })
                }
                Op::Ask { k, t, now, .. } => {
                    self.owns(o, who, k)?;
                    self.tradable(o, k.0)?;
                    Self::valid_price(o, k.0, t)?;
                    if funds.len() != 1 {
                        return Err("wrong listing fee");
                    }
                    if self.listing.get(&funds[0].denom) != Some(&funds[0].amount.u128()) {
                        return Err("wrong listing fee");
                    }
                    mv(&mut n.bank, &m, &os(&o.conf["fee_manager"]).unwrap_or_default(), &funds[0].denom, funds[0].amount.u128());
                    let ask = Self::order(NEW, who, k.0, Some(k.1), t);
                    let best = Self::best_bids(&n, &ask);
                    if best.is_empty() {
                        if *now {
                            return Err("no match");
                        }
                        self.can_move(k)?;
                        n.owner.insert(*k, Some(m.clone()));
                        n.asks.insert(*k, ask);
                        return one(n);
                    }
                    self.sell(&n, &ask, best)
                }
                Op::UpdAsk { k, t, .. } => {
                    if !free {
                        return Err("unwanted funds");
                    }
                    let mut ask = n.asks.get(k).cloned().ok_or("no ask")?;
                    if ask.creator != who {
                        return Err("not the creator");
                    }
                    Self::valid_price(o, k.0, t)?;
                    ask = Self::order(&ask.id, who, k.0, Some(k.1), t);
                    let best = Self::best_bids(&n, &ask);
                    if best.is_empty() {
                        n.asks.insert(*k, ask);
                        return one(n);
                    }
                    self.sell(&n, &ask, best)
                }
                Op::RmAsk { k, .. } => {
                    if !free {
                        return Err("unwanted funds");
                    }
                    let ask = n.asks.remove(k).ok_or("no ask")?;
                    if ask.creator != who {
                        return Err("not the creator");
                    }
                    self.can_move(k)?;
                    n.owner.insert(*k, Some(ask.to()));
                    one(n)
                }
                Op::AccAsk { k, t, .. } => {
                    let ask = n.asks.get(k).cloned().ok_or("no ask")?;
                    if denom(t.denom) != ask.denom || t.price < ask.price {
                        return Err("ask above the buyer's limit");
                    }
                    if !take(&mut purse, &ask.denom, ask.price) {
                        return Err("payment below the price");
                    }
                    let bid = Self::order(NEW, who, k.0, Some(k.1), t);
                    self.sale(&mut n, &ask, &bid, true)?;
                    for (d, a) in &purse {
                        mv(&mut n.bank, &m, who, d, *a);
                    }
                    Ok(Good { states: vec![n], sale: true, listing: None, may: None })
                }
                Op::Bid { k, t, now, .. } => {
                    self.tradable(o, k.0)?;
                    Self::valid_price(o, k.0, t)?;
                    self.place(n, who, Self::order(NEW, who, k.0, Some(k.1), t), purse, *now)
                }
                Op::Col { c, t, now, .. } => {
                    self.tradable(o, *c)?;
                    Self::valid_price(o, *c, t)?;
                    self.place(n, who, Self::order(NEW, who, *c, None, t), purse, *now)
                }
                Op::UpdBid { tag, t, .. } | Op::UpdCol { tag, t, .. } => {
                    let id = self.tag_id(*tag);
                    let book = if matches!(op, Op::UpdBid { .. }) { &mut n.bids } else { &mut n.cbids };
                    let old = book.get(&id).cloned().ok_or("no such order")?;
                    if old.creator != who {
                        return Err("not the creator");
                    }
                    Self::valid_price(o, old.c, t)?;
                    *purse.entry(old.denom.clone()).or_insert(0) += old.price;
                    self.place(n, who, Self::order(&id, who, old.c, old.t, t), purse, false)
                }
                Op::RmBid { tag, .. } | Op::RmCol { tag, .. } => {
                    if !free {
                        return Err("unwanted funds");
                    }
                    let id = self.tag_id(*tag);
                    let book = if matches!(op, Op::RmBid { .. }) { &mut n.bids } else { &mut n.cbids };
                    let old = book.remove(&id).ok_or("no such order")?;
                    if old.creator != who {
                        return Err("not the creator");
                    }
                    mv(&mut n.bank, &m, who, &old.denom, old.price);
                    one(n)
                }
                Op::AccBid { tag, t, .. } => {
                    let b = o.bids.get(&self.tag_id(*tag)).cloned().ok_or("no such order")?;
                    let token = b.t.unwrap();
                    self.accept(n, o, who, free, b, token, t)
                }
                Op::AccCol { tag, token, t, .. } => {
                    let b = o.cbids.get(&self.tag_id(*tag)).cloned().ok_or("no such order")?;
                    self.accept(n, o, who, free, b, *token, t)
                }
                _ => Err("not a valid message"),
            }
        })();
        (r, what)
    }

    fn sell(&self, n: &Obs, ask: &Order, best: Vec<Order>) -> Exp {
        let mut states = vec![];
        let mut why = None;
        for b in best {
            let mut x = n.clone();
            match self.sale(&mut x, ask, &b, false) {
                Ok(()) => states.push(x),
                Err(e) => why = Some(e),
            }
        }
        if states.is_empty() {
            Err(why.unwrap_or("no match"))
        } else {
            Ok(Good { states, sale: true, listing: None, may: why })
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn accept(&self, mut n: Obs, o: &Obs, who: &str, free: bool, b: Order, token: u8, t: &Terms) -> Exp {
        if !free {
            return Err("unwanted funds");
        }
        if denom(t.denom) != b.denom || b.price < t.price {
            return Err("bid below the seller's limit");
        }
        let k = (b.c, token);
        let ask = match o.asks.get(&k) {
            Some(a) => {
                if a.creator != who {
                    return Err("not the creator");
                }
                a.clone()
            }
            None => {
                self.owns(o, who, &k)?;
                Self::order(NEW, who, k.0, Some(k.1), t)
            }
        };
        self.sale(&mut n, &ask, &b, false)?;
        Ok(Good { states: vec![n], sale: true, listing: None, may: None })
    }

    /// Give the orders the model expects to be new the identity the contract gave them.
    fn bind(exp: &mut Obs, got: &Obs, o: &Obs) {
        for (k, a) in exp.asks.iter_mut() {
            if a.id == NEW {
                if let Some(g) = got.asks.get(k) {
                    a.id = g.id.clone();
                }
            }
        }
        for (e, g, b) in [(&mut exp.bids, &got.bids, &o.bids), (&mut exp.cbids, &got.cbids, &o.cbids)] {
            if let Some(mut x) = e.remove(NEW) {
                let id = g.keys().find(|i| !b.contains_key(*i)).cloned().unwrap_or_else(|| NEW.to_string());
                x.id = id.clone();
                e.insert(id, x);
            }
        }
    }
    fn same(a: &Obs, b: &Obs) -> bool {
        a.bank == b.bank && a.owner == b.owner && a.asks == b.asks && a.bids == b.bids && a.cbids == b.cbids
    }

    fn compare(&self, exp: &Obs, got: &Obs, sale: bool, props: &[&str], what: &str, rec: &mut Rec) {
        let mut out: Vec<(Vec<&str>, &str, String)> = vec![];
        let governance: &[&'static str] = if ["config", "collection_denom", "listing_fee", "migrate"].iter().any(|w| what.starts_with(w)) { &["V10"] } else { &[] };
        let with = |extra: &[&'static str]| -> Vec<&str> {
            let mut v: Vec<&str> = props.to_vec();
            for e in extra.iter().chain(governance) {
                if !v.contains(e) {
                    v.push(e);
                }
            }
            v
        };
        let bd = bank_diff(&exp.bank, &got.bank);
        if !bd.is_empty() {
            let txt: Vec<String> = bd.iter().map(|(a, d, x)| format!("{}: {:+}{}", nick(a), x, d)).collect();
            let tags: &[&'static str] = match sale {
                true if what == "set_ask" || what == "sell_nft" => &["V01", "V04", "V06", "V09"],
                true => &["V01", "V04", "V06"],
                false if what == "set_ask" => &["V01", "V09"],
                false => &["V01"],
            };
            out.push((with(tags), "balances", format!("balances off by {}", txt.join(", "))));
        }
        for (k, e) in &exp.owner {
            if got.owner.get(k) != Some(e) {
                let tags: &[&'static str] = if sale { &["V02", "V06", "V03"] } else { &["V02", "V06"] };
                out.push((with(tags), "owner", format!("NFT {k:?}: expected owner {:?}, is {:?}", e.as_ref().map(|a| nick(a)), got.owner.get(k).cloned().flatten().map(|a| nick(&a)))));
            }
        }
        let mut diff = |e: Vec<(String, &Order)>, g: Vec<(String, &Order)>, kind: &'static str, tags: &[&'static str]| {
            let e: BTreeMap<String, &Order> = e.into_iter().collect();
            let g: BTreeMap<String, &Order> = g.into_iter().collect();
            let mut keys: Vec<&String> = e.keys().chain(g.keys()).collect();
            keys.sort();
            keys.dedup();
            for k in keys {
                if e.get(k) != g.get(k) {
                    let mut tags = tags.to_vec();
                    if let (Some(a), Some(b)) = (e.get(k), g.get(k)) {
                        if a.creator != b.creator {
                            tags.push("V05");
                        }
                        if (a.price, &a.denom, &a.recip) != (b.price, &b.denom, &b.recip) {
                            tags.push("V06");
                        }
                        if a.finder != b.finder {
                            tags.extend(["V06", "V04"]);
                        }
                    }
                    out.push((with(&tags), kind, format!("{kind} {k}: expected {:?}, is {:?}", e.get(k), g.get(k))));
                }
            }
        };
        let ak = |m: &'_ BTreeMap<Key, Order>| -> Vec<(String, Order)> { m.iter().map(|(k, v)| (format!("{k:?}"), v.clone())).collect() };
        let (ea, ga) = (ak(&exp.asks), ak(&got.asks));
        diff(ea.iter().map(|(k, v)| (k.clone(), v)).collect(), ga.iter().map(|(k, v)| (k.clone(), v)).collect(), "ask", &["V02", "V03", "V08"]);
        diff(exp.bids.iter().map(|(k, v)| (k.clone(), v)).collect(), got.bids.iter().map(|(k, v)| (k.clone(), v)).collect(), "bid", &["V01", "V03", "V08"]);
        diff(exp.cbids.iter().map(|(k, v)| (k.clone(), v)).collect(), got.cbids.iter().map(|(k, v)| (k.clone(), v)).collect(), "collection-bid", &["V01", "V03", "V08"]);
        if exp.conf != got.conf {
            out.push((with(&["V10"]), "config", format!("configuration expected {}, is {}", exp.conf, got.conf)));
        }
        if exp.cdenom != got.cdenom {
            out.push((with(&["V10", "V09"]), "collection-denom", format!("denominations expected {:?}, are {:?}", exp.cdenom, got.cdenom)));
        }
        if exp.version != got.version {
            out.push((with(&["V10"]), "version", format!("stored version expected {}, is {}", exp.version, got.version)));
        }
        for (p, s, d) in out {
            rec.violate(&p, format!("v2:{what}:{s}"), d);
        }
    }

    fn invariants(&self, o: &Obs, rec: &mut Rec) {
        for d in DENOMS {
            let need: u128 = o.bids.values().chain(o.cbids.values()).filter(|b| b.denom == d).map(|b| b.price).sum();
            let b = bal(&o.bank, &market(), d);
            if b != need {
                rec.violate(&["V01"], "v2:inv:escrow", format!("contract holds {b}{d}, open bids sum to {need}{d}"));
            }
        }
        for (k, ow) in &o.owner {
            let held = ow.as_deref() == Some(market().as_str());
            if held != o.asks.contains_key(k) {
                rec.violate(&["V02"], "v2:inv:custody", format!("token {k:?}: in custody {held}, listed {}", !held));
            }
        }
        for a in o.asks.values() {
            if let Some(b) = Self::best_bids(o, a).first() {
                rec.violate(&["V03"], "v2:inv:crossed", format!("ask {:?} at {}{} and bid at {} are both open", (a.c, a.t), a.price, a.denom, b.price));
            }
        }
        for x in o.asks.values().chain(o.bids.values()).chain(o.cbids.values()) {
            if x.price == 0 {
                rec.violate(&["V09"], "v2:inv:zero-price", format!("order {} has price zero", x.id));
            }
        }
        if supply(&o.bank) != self.supply0 {
            rec.violate(&["V01"], "v2:inv:supply", "coins were created or destroyed".to_string());
        }
    }

    /// Remember what the clients now know: identities of new orders.
    fn learn(&mut self, o: &Obs, got: &Obs, out: &TxOut, tag: Option<u32>, rec: &mut Rec) {
        // a bid that traded at once never shows in the book, its identity is announced by the sale only
        for id in out.emitted.iter().filter(|e| out.ok && e.ty == "finalize-sale").flat_map(|s| [s.get("bid"), s.get("collection_bid")]).flatten() {
            if !o.bids.contains_key(id) && !o.cbids.contains_key(id) && !self.seen.insert(id.to_string()) {
                rec.violate(&["V08"], "v2:id-reused", format!("identity {id} was used by an earlier bid"));
            }
        }
        for (k, a) in &got.asks {
            self.ask_ids.insert(*k, a.id.clone());
        }
        let new: Vec<String> = got.bids.keys().filter(|i| !o.bids.contains_key(*i)).chain(got.cbids.keys().filter(|i| !o.cbids.contains_key(*i))).cloned().collect();
        for id in new {
            if !self.seen.insert(id.clone()) {
                rec.violate(&["V08"], "v2:id-reused", format!("identity {id} was used by an earlier bid"));
            }
            if let Some(mut t) = tag {
                while self.tags.contains_key(&t) {
                    t += 1_000_000;
                }
                self.tags.insert(t, id);
            }
        }
        let ids: BTreeSet<&String> = got.asks.values().map(|a| &a.id).collect();
        if ids.len() != got.asks.len() || got.bids.keys().any(|i| got.cbids.contains_key(i)) {
            rec.violate(&["V08"], "v2:id-shared", "two open orders share one identity".to_string());
        }
    }

    fn truth(&self, o: &Obs) -> Follower {
        Follower {
            conf: o.conf.clone(),
            cdenom: o.cdenom.clone(),
            listing: self.listing.clone(),
            asks: o.asks.values().map(|a| (a.id.clone(), a.clone())).collect(),
            bids: o.bids.clone(),
            cbids: o.cbids.clone(),
        }
    }

    /// Take in one event the way an indexer does.
    fn hear(&self, f: &mut Follower, e: &Emitted) -> Result<(), String> {
        let need = |k: &str| e.get(k).map(|s| s.to_string()).ok_or_else(|| format!("event {} without {k}", e.ty));
        let cidx = |s: &str| (0..self.cfg.colls).find(|c| coll(*c) == s).ok_or_else(|| format!("event {} for unknown collection {s}", e.ty));
        let num = |s: &str| s.parse::<u128>().map_err(|_| format!("event {}: not a number: {s}", e.ty));
        let order = |token: bool, creator: Option<String>| -> Result<Order, String> {
            let p = need("price")?;
            let n = p.find(|c: char| !c.is_ascii_digit()).unwrap_or(p.len());
            Ok(Order {
                id: need("id")?,
                creator: match creator {
                    Some(c) => c,
                    None => need("creator")?,
                },
                c: cidx(&need("collection")?)?,
                t: if token {
                    let t = need("token_id")?;
                    Some((0..=254u8).find(|i| tok(*i) == t).ok_or_else(|| format!("event {} for unknown token {t}", e.ty))?)
                } else {
                    None
                },
                denom: p[n..].to_string(),
                price: num(&p[..n])?,
                recip: e.get("recipient").map(|s| s.to_string()),
                finder: e.get("finder").map(|s| s.to_string()),
            })
        };
        match e.ty.as_str() {
            "set-config" => {
                f.conf = json!({"fee_manager": need("fee_manager")?, "royalty_registry": need("royalty_registry")?, "default_denom": need("default_denom")?,
                    "protocol_fee_bps": num(&need("protocol_fee_bps")?)? as u64, "max_royalty_fee_bps": num(&need("max_royalty_fee_bps")?)? as u64,
                    "maker_reward_bps": num(&need("maker_reward_bps")?)? as u64, "taker_reward_bps": num(&need("taker_reward_bps")?)? as u64});
            }
            "set-collection-denom" => {
                f.cdenom.insert(cidx(&need("collection")?)?, Some(need("denom")?));
            }
            "set-listing-fee" => {
                f.listing.insert(need("denom")?, num(&need("fee")?)?);
            }
            "remove-listing-fee" => {
                f.listing.remove(&need("denom")?);
            }
            "set-ask" | "set-bid" | "set-collection-bid" => {
                let n = order(!e.ty.ends_with("collection-bid"), None)?;
                if f.book(&e.ty).insert(n.id.clone(), n).is_some() {
                    return Err(format!("event {} for an order already announced", e.ty));
                }
            }
            "update-ask" | "update-bid" | "update-collection-bid" => {
                let id = need("id")?;
                let b = f.book(&e.ty);
                let old = b.get(&id).ok_or_else(|| format!("event {} for an unannounced order", e.ty))?;
                let n = order(!e.ty.ends_with("collection-bid"), Some(e.get("creator").map_or(old.creator.clone(), |s| s.to_string())))?;
                b.insert(id, n);
            }
            "remove-ask" | "remove-bid" | "remove-collection-bid" => {
                let id = need("id")?;
                if f.book(&e.ty).remove(&id).is_none() {
                    return Err(format!("event {} for an unannounced order", e.ty));
                }
            }
            "finalize-sale" => {
                f.asks.remove(&need("ask")?);
                match (e.get("bid"), e.get("collection_bid")) {
                    (Some(i), None) => f.bids.remove(i),
                    (None, Some(i)) => f.cbids.remove(i),
                    _ => return Err("event finalize-sale names no bid or two".into()),
                };
                let fixed = ["collection", "token_id", "denom", "price", "seller_recipient", "nft_recipient", "ask", "bid", "collection_bid"];
                let mut sum = 0u128;
                for (_, v) in e.attrs.iter().filter(|(k, _)| !fixed.contains(&k.as_str())) {
                    sum = sum.saturating_add(num(v)?);
                }
                if sum != num(&need("price")?)? {
                    return Err(format!("event finalize-sale: shares sum to {sum}, price {}", need("price")?));
                }
            }
            _ => {}
        }
        Ok(())
    }

    /// Whoever follows the events alone must know the exact book after every transaction.
    fn follow(&mut self, got: &Obs, out: &TxOut, rec: &mut Rec) {
        let mut f = std::mem::take(&mut self.follower);
        let truth = self.truth(got);
        let mut bad = vec![];
        if out.ok {
            for e in &out.emitted {
                if let Err(x) = self.hear(&mut f, e) {
                    bad.push(x);
                }
            }
            let calm = self.chain.inner.borrow().nft_env.values().all(|e| e.reenter.is_none());
            for e in out.emitted.iter().filter(|e| calm && e.ty == "finalize-sale") {
                let key = (0..self.cfg.colls).flat_map(|c| (0..self.cfg.tokens).map(move |t| (c, t))).find(|(c, t)| e.get("collection") == Some(&coll(*c)) && e.get("token_id") == Some(&tok(*t)));
                let owner = key.and_then(|k| got.owner.get(&k).cloned().flatten());
                if owner.as_deref() != e.get("nft_recipient") {
                    bad.push(format!("sale announced to {:?}, the token went to {owner:?}", e.get("nft_recipient")));
                }
                let paid: u128 = out
                    .transfers
                    .iter()
                    .filter(|x| Some(x.to.as_str()) == e.get("seller_recipient"))
                    .filter(|x| Some(x.denom.as_str()) == e.get("denom"))
                    .map(|x| x.amount)
                    .sum();
                if e.get("seller").and_then(|s| s.parse::<u128>().ok()).map_or(false, |s| s > paid) {
                    bad.push(format!("sale announces {:?} for the seller, {paid} was paid", e.get("seller")));
                }
            }
        }
        let mut out: Vec<(String, String)> = bad.into_iter().map(|b| ("untrue".to_string(), b)).collect();
        if f.conf != truth.conf {
            out.push(("config".into(), format!("events say {}, it is {}", f.conf, truth.conf)));
        }
        if f.cdenom != truth.cdenom || f.listing != truth.listing {
            out.push(("denoms".into(), format!("events say {:?} {:?}, it is {:?} {:?}", f.cdenom, f.listing, truth.cdenom, truth.listing)));
        }
        for (n, a, b) in [("asks", &f.asks, &truth.asks), ("bids", &f.bids, &truth.bids), ("collection-bids", &f.cbids, &truth.cbids)] {
            if a != b {
                let d: Vec<String> = a.iter().filter(|(k, v)| b.get(*k) != Some(v)).map(|(_, v)| format!("heard {v:?}")).chain(b.iter().filter(|(k, v)| a.get(*k) != Some(v)).map(|(_, v)| format!("true {v:?}"))).collect();
                out.push((n.into(), d.join("; ")));
            }
        }
        for (s, d) in out {
            rec.violate(&["V11"], format!("v2:events:{s}"), d);
        }
        self.follower = truth;
    }

    #[allow(clippy::too_many_arguments)]
    fn judge(&mut self, o: Obs, exp: Exp, what: &str, out: &TxOut, tag: Option<u32>, rec: &mut Rec) {
        self.cur = Some(o.clone());
        let got = match self.observe() {
            Ok(g) => g,
            Err(e) => {
                self.cur = None;
                rec.violate(&["V08"], format!("v2:{what}:observe"), e);
                return;
            }
        };
        self.learn(&o, &got, out, tag, rec);
        let mut t: Vec<&str> = vec![];
        if self.chain.inner.borrow().nft_env.values().any(|e| e.reenter.is_some()) {
            t.push("V07");
        }
        if out.gas_abort || out.fired_sub.is_some() {
            rec.fault(if out.gas_abort { "out_of_gas" } else { "submessage_failure" });
            t = vec!["V07"];
            if out.ok {
                rec.violate(&t, format!("v2:{what}:fault-swallowed"), format!("sub-message {:?} failed but the transaction succeeded", out.fired_sub));
            }
            self.compare(&o, &got, false, &t, &format!("{what}-aborted"), rec);
            self.cur = Some(got);
            return;
        }
        let exp = match exp {
            Ok(Good { may: Some(why), .. }) if !out.ok => Err(why),
            e => e,
        };
        match (exp, out.ok) {
            (Ok(mut g), true) => {
                for s in g.states.iter_mut() {
                    Self::bind(s, &got, &o);
                }
                if g.states.len() > 1 {
                    rec.stat("ties");
                }
                if g.sale {
                    rec.stat(&format!("sale_{what}"));
                }
                if let Some(l) = g.listing {
                    self.listing = l;
                }
                let i = g.states.iter().position(|s| Self::same(s, &got)).unwrap_or(0);
                self.compare(&g.states[i], &got, g.sale, &t, what, rec);
                let calm = self.chain.inner.borrow().nft_env.values().all(|e| e.reenter.is_none());
                if let ([e], true, true) = (&out.emitted.iter().filter(|e| e.ty == "finalize-sale").collect::<Vec<_>>()[..], calm, g.sale) {
                    for (role, amount) in &g.states[i].told {
                        let said = e.get(role).map_or(Some(0), |x| x.parse().ok());
                        if said != Some(*amount) {
                            rec.violate(&["V11"], "v2:events:shares", format!("sale announces {:?} for the {role}, {amount} was due", e.get(role)));
                        }
                    }
                }
            }
            (Err(why), false) => {
                rec.stat(&format!("why_{what}: {why}"));
                if why == "fees exceed price" && !what.starts_with("accept") {
                    rec.violate(&["V03"], "v2:match:blocked:fees-exceed-price", format!("{what} refused because the rounded-up fees of the matching order exceed its price: {}", out.err));
                }
                self.compare(&o, &got, false, &[&t[..], &["V07"]].concat(), &format!("{what}-refused"), rec)
            }
            (Ok(g), false) => {
                if g.sale {
                    t.extend(["V03", "V04"]);
                }
                match what {
                    "set_ask" | "set_bid" | "set_collection_bid" => t.extend(["V09", "V08"]),
                    "remove_bid" | "remove_collection_bid" | "update_bid" | "update_collection_bid" => t.extend(["V01", "V08"]),
                    "remove_ask" => t.extend(["V02", "V08"]),
                    "update_ask" => t.extend(["V03", "V08"]),
                    "config" | "collection_denom" | "listing_fee" | "migrate" => t.push("V10"),
                    _ => t.push("V03"),
                }
                rec.violate(&t, format!("v2:{what}:wrongly-refused"), format!("refused with: {}", out.err));
                self.compare(&o, &got, false, &t, &format!("{what}-refused"), rec);
            }
            (Err(why), true) => {
                t.extend(match why {
                    "not the owner" | "owner unknown" | "no such token" | "not the creator" | "not the admin" => vec!["V05"],
                    "not tradable yet" | "wrong denomination" | "price is zero" | "wrong listing fee" => vec!["V09"],
                    "payment below the price" | "insufficient funds" => vec!["V09", "V01"],
                    "ask above the buyer's limit" | "bid below the seller's limit" => vec!["V06"],
                    "no match" => vec!["V03"],
                    "fees out of range" => vec!["V10"],
                    "unwanted funds" => vec!["V01"],
                    "no ask" | "no such order" => vec!["V08", "V05"],
                    "fees exceed price" => vec!["V04"],
                    "royalty share above 100%" | "royalty payee invalid" | "royalty registry unavailable" => vec!["V07", "V04"],
                    "collection refuses transfer" | "marketplace may not move the token" => vec!["V07", "V02"],
                    _ => vec!["V05"],
                });
                rec.violate(&t, format!("v2:{what}:wrongly-accepted:{why}"), format!("accepted although: {why}"))
            }
        }
        self.follow(&got, out, rec);
        self.cur = Some(got);
    }

    /// Follow a listing page by page from the given bounds and compare with the expected list.
    fn walk(&self, name: &str, exp: &[Order], base: &Value, price_key: bool, lim: Option<u32>, desc: Option<bool>, min: Option<Value>, max: Option<Value>, rec: &mut Rec) {
        let off = |x: &Value| if price_key { json!({"id": x["id"], "amount": x["details"]["price"]["amount"]}) } else { x["id"].clone() };
        let (mut lo, mut hi) = (min.clone(), max.clone());
        let exp: Vec<Value> = exp.iter().map(Self::json).collect();
        let mut got: Vec<Value> = vec![];
        for _ in 0..3000 {
            let mut m = base.clone();
            m["query_options"] = json!({"limit": lim, "descending": desc, "min": lo, "max": hi});
            let page = match self.q(json!({name: m})) {
                Ok(r) => r.as_array().cloned().unwrap_or_default(),
                Err(e) => {
                    rec.violate(&["V08"], format!("v2:query:{name}:failed"), e);
                    return;
                }
            };
            if let Some(l) = lim {
                let want = exp.len().saturating_sub(got.len()).min(l.min(100) as usize);
                if page.len() != want {
                    rec.violate(&["V08"], format!("v2:query:{name}:page-size"), format!("page of {} entries, expected {want} (limit {l}, min {min:?}, max {max:?}, descending {desc:?})", page.len()));
                    return;
                }
            }
            match page.last() {
                None => break,
                Some(l) => {
                    let b = Some(json!({"exclusive": off(l)}));
                    if desc == Some(true) {
                        hi = b;
                    } else {
                        lo = b;
                    }
                }
            }
            got.extend(page);
            if got.len() > exp.len() + 3 {
                break;
            }
        }
        if got != exp {
            let s = |v: &[Value]| v.iter().map(|x| format!("{}@{}", &x["id"].as_str().unwrap_or("")[..6.min(x["id"].as_str().unwrap_or("").len())], x["details"]["price"]["amount"])).collect::<Vec<_>>().join(" ");
            rec.violate(&["V08"], format!("v2:query:{name}"), format!("limit {lim:?} min {min:?} max {max:?} descending {desc:?}: expected [{}], got [{}]", s(&exp), s(&got)));
        }
    }

    fn check_queries(&self, o: &Obs, mut x: u64, rec: &mut Rec) {
        rec.stat("query_sweeps");
        let mut next = |n: u64| crate::rng::splitmix(&mut x) % n;
        let books: [(&str, &str, Vec<&Order>, &str, &str); 3] = [
            ("asks_by_collection_denom", "asks_by_creator_collection", o.asks.values().collect(), "ask", "asks"),
            ("bids_by_token_price", "bids_by_creator_collection", o.bids.values().collect(), "bid", "bids"),
            ("collection_bids_by_price", "collection_bids_by_creator_collection", o.cbids.values().collect(), "collection_bid", "collection_bids"),
        ];
        for (by_price, by_creator, all, single, many) in books {
            // by identity
            let mut ids: Vec<String> = all.iter().map(|a| a.id.clone()).collect();
            ids.push("0badc0de".into());
            let keep = next(3);
            let ids: Vec<String> = ids.into_iter().filter(|_| keep == 0 || next(2) == 0).collect();
            for id in &ids {
                let want = all.iter().find(|a| a.id == *id).map(|a| Self::json(a)).unwrap_or(Value::Null);
                match self.q(json!({single: id})) {
                    Ok(v) if v == want => {}
                    r => rec.violate(&["V08"], format!("v2:query:{single}"), format!("{id}: expected {want}, got {r:?}")),
                }
            }
            let want: Vec<Value> = ids.iter().filter_map(|id| all.iter().find(|a| a.id == *id).map(|a| Self::json(a))).collect();
            match self.q(json!({many: ids})) {
                Ok(v) if v == Value::Array(want.clone()) => {}
                r => rec.violate(&["V08"], format!("v2:query:{many}"), format!("expected {want:?}, got {r:?}")),
            }
            for c in 0..self.cfg.colls {
                let toks: Vec<Option<u8>> = if single == "bid" { (0..self.cfg.tokens).map(Some).collect() } else { vec![None] };
                for t in toks {
                    for d in DENOMS.iter().take(3) {
                        let mut v: Vec<Order> = all.iter().filter(|a| a.c == c && (t.is_none() || a.t == t) && a.denom == **d).map(|a| (*a).clone()).collect();
                        v.sort_by(|a, b| (a.price, &a.id).cmp(&(b.price, &b.id)));
                        let mut base = json!({"collection": coll(c), "denom": d});
                        if let Some(t) = t {
                            base["token_id"] = json!(tok(t));
                        }
                        if v.is_empty() && next(3) > 0 {
                            continue;
                        }
                        let desc = [None, Some(false), Some(true)][next(3) as usize];
                        let lim = [Some(1u32), Some(2), Some(3), None, Some(100), Some(4_000_000_000)][next(6) as usize];
                        let mut bound = |v: &Vec<Order>| -> Option<(u128, String, bool)> {
                            if v.is_empty() || next(2) == 0 {
                                return None;
                            }
                            let a = &v[next(v.len() as u64) as usize];
                            let p = [a.price, a.price, a.price + 1, a.price.saturating_sub(1)][next(4) as usize];
                            Some((p, if next(2) == 0 { a.id.clone() } else { String::new() }, next(2) == 0))
                        };
                        let (lo, hi) = (bound(&v), bound(&v));
                        let mut exp: Vec<Order> = v
                            .iter()
                            .filter(|a| lo.as_ref().map_or(true, |(p, i, inc)| (a.price, &a.id) > (*p, i) || (*inc && (a.price, &a.id) == (*p, i))))
                            .filter(|a| hi.as_ref().map_or(true, |(p, i, inc)| (a.price, &a.id) < (*p, i) || (*inc && (a.price, &a.id) == (*p, i))))
                            .cloned()
                            .collect();
                        if desc == Some(true) {
                            exp.reverse();
                        }
                        let bj = |b: &Option<(u128, String, bool)>| b.as_ref().map(|(p, i, inc)| json!({if *inc {"inclusive"} else {"exclusive"}: {"id": i, "amount": p.to_string()}}));
                        self.walk(by_price, &exp, &base, true, lim, desc, bj(&lo), bj(&hi), rec);
                    }
                }
                for u in 0..self.cfg.users {
                    let mut v: Vec<Order> = all.iter().filter(|a| a.c == c && a.creator == acct(u)).map(|a| (*a).clone()).collect();
                    if v.is_empty() && next(3) > 0 {
                        continue;
                    }
                    v.sort_by(|a, b| a.id.cmp(&b.id));
                    let desc = [None, Some(false), Some(true)][next(3) as usize];
                    let lim = [Some(1u32), Some(2), Some(3), None, Some(100)][next(5) as usize];
                    let mut bound = |v: &Vec<Order>| -> Option<(String, bool)> {
                        if v.is_empty() || next(2) == 0 {
                            return None;
                        }
                        let at = v[next(v.len() as u64) as usize].id.clone();
                        Some(([at.clone(), at, format!("{:04x}", next(65536))][next(3) as usize].clone(), next(2) == 0))
                    };
                    let (lo, hi) = (bound(&v), bound(&v));
                    let mut exp: Vec<Order> = v
                        .iter()
                        .filter(|a| lo.as_ref().map_or(true, |(i, inc)| a.id > *i || (*inc && a.id == *i)))
                        .filter(|a| hi.as_ref().map_or(true, |(i, inc)| a.id < *i || (*inc && a.id == *i)))
                        .cloned()
                        .collect();
                    if desc == Some(true) {
                        exp.reverse();
                    }
                    let bj = |b: &Option<(String, bool)>| b.as_ref().map(|(i, inc)| json!({if *inc {"inclusive"} else {"exclusive"}: i}));
                    self.walk(by_creator, &exp, &json!({"creator": acct(u), "collection": coll(c)}), false, lim, desc, bj(&lo), bj(&hi), rec);
                }
            }
        }
    }

    /// A message a malicious collection sends back; the collection has no orders, tokens, money or rights, so it must be refused.
    fn nested(&self, r: &mut Rng, o: &Obs) -> Value {
        let k = if !o.asks.is_empty() && r.pct(70) { *r.pick(&o.asks.keys().copied().collect::<Vec<_>>()) } else { (r.below(self.cfg.colls as u64) as u8, r.below(self.cfg.tokens as u64) as u8) };
        let b: Vec<String> = o.bids.keys().cloned().collect();
        let cb: Vec<String> = o.cbids.keys().cloned().collect();
        let pick = |r: &mut Rng, v: &Vec<String>| if v.is_empty() { "00".to_string() } else { r.pick(v).clone() };
        let d = |p: u128| json!({"price": {"denom": denom(0), "amount": p.to_string()}, "recipient": null, "finder": null});
        match r.below(9) {
            0 => json!({"remove_bid": {"id": pick(r, &b)}}),
            1 => json!({"remove_collection_bid": {"id": pick(r, &cb)}}),
            2 => json!({"remove_ask": {"id": self.ask_id(&k)}}),
            3 => json!({"update_ask": {"id": self.ask_id(&k), "details": d(1)}}),
            4 => json!({"accept_ask": {"id": self.ask_id(&k), "details": d(1_000_000_000)}}),
            5 => json!({"accept_bid": {"id": pick(r, &b), "details": d(0)}}),
            6 => json!({"accept_collection_bid": {"id": pick(r, &cb), "token_id": tok(k.1), "details": d(0)}}),
            7 => json!({"set_bid": {"collection": coll(k.0), "token_id": tok(k.1), "details": d(1_000_000)}}),
            _ => json!({"update_bid": {"id": pick(r, &b), "details": d(1)}}),
        }
    }

    /// Many bids in one block: each has an identity of its own, and each can be withdrawn.
    fn burst(&mut self, o: &Obs, who: u8, c: u8, t: Option<u8>, n: u16, rec: &mut Rec) {
        let d = o.cdenom[&c].clone().or_else(|| os(&o.conf["default_denom"])).unwrap_or_default();
        let Some(di) = DENOMS.iter().position(|x| *x == d) else { return };
        let terms = Terms { denom: di as u8, price: 1, recip: None, finder: None };
        let op = match t {
            Some(t) => Op::Bid { who, k: (c, t), now: false, tag: 0, funds: vec![(di as u8, 1)], t: terms },
            None => Op::Col { who, c, now: false, tag: 0, funds: vec![(di as u8, 1)], t: terms },
        };
        let (from, msg, funds) = self.msg(&op).unwrap();
        match self.expect(o, &op, &from, &funds).0 {
            Ok(g) if !g.sale => {}
            _ => return,
        }
        rec.stat("bursts");
        let m = market();
        let mut ids: Vec<String> = vec![];
        for _ in 0..n {
            let out = self.chain.tx(&from, &m, &bin(&msg), &funds, Fault::None);
            if !out.ok {
                rec.violate(&["V08", "V03"], "v2:burst:refused", format!("bid {} of one block was refused: {}", ids.len() + 1, out.err));
                break;
            }
            let id = out.emitted.iter().filter(|e| e.ty == "set-bid" || e.ty == "set-collection-bid").filter_map(|e| e.get("id").map(|x| x.to_string())).next().unwrap_or_default();
            if !self.seen.insert(id.clone()) {
                rec.violate(&["V08"], "v2:id-reused", format!("bid {} of one block has the identity {id} of an earlier bid", ids.len() + 1));
            }
            ids.push(id);
        }
        for id in &ids {
            let remove = json!({if t.is_some() { "remove_bid" } else { "remove_collection_bid" }: {"id": id}});
            let out = self.chain.tx(&from, &m, &bin(&remove), &[], Fault::None);
            if !out.ok {
                rec.violate(&["V01", "V08"], "v2:burst:not-withdrawn", format!("bid {id} could not be withdrawn: {}", out.err));
                break;
            }
        }
        rec.log(&format!("burst {}", ids.len()));
        match self.observe() {
            Ok(g) => {
                if g.bank != o.bank {
                    rec.violate(&["V01"], "v2:burst:balances", "money is missing after placing and withdrawing bids".to_string());
                }
                if g.bids != o.bids || g.cbids != o.cbids || g.asks != o.asks {
                    rec.violate(&["V08", "V01"], "v2:burst:book", "the book is not what it was before the bids were placed and withdrawn".to_string());
                }
            }
            Err(e) => rec.violate(&["V08"], "v2:burst:observe", e),
        }
    }

    /// Fills the book with orders before the history starts. Nothing is judged here.
    fn fill(&mut self) {
        let mut r = Rng::new(self.cfg.crowd);
        let w = std::mem::replace(&mut self.cfg.w, vec![0, 12, 0, 0, 0, 6, 0, 0, 0, 6, 0, 0, 0, 0, 0, 0, 0, 0]);
        let n = 5 * self.cfg.tokens as usize * self.cfg.colls as usize / 2;
        let mut seen = None;
        for i in 0..n {
            if i % 24 == 0 {
                seen = self.observe().ok();
            }
            let Some(o) = &seen else { break };
            let op = self.gen_op(&mut r, &o.clone());
            self.pre(&op);
            if let Some((from, msg, funds)) = self.msg(&op) {
                self.chain.tx(&from, &market(), &bin(&msg), &funds, Fault::None);
            }
        }
        self.cfg.w = w;
        if let Ok(o) = self.observe() {
            for id in o.bids.keys().chain(o.cbids.keys()) {
                self.next_tag += 1;
                self.seen.insert(id.clone());
                self.tags.insert(self.next_tag, id.clone());
            }
            for (k, a) in &o.asks {
                self.ask_ids.insert(*k, a.id.clone());
            }
        }
    }

    fn gen_op(&mut self, r: &mut Rng, o: &Obs) -> Op {
        let c = self.cfg.clone();
        let key = |r: &mut Rng| (r.below(c.colls as u64) as u8, r.below(c.tokens as u64) as u8);
        let who = |r: &mut Rng| r.below(c.users as u64) as u8;
        let who_of = |a: &str| (0..c.users).find(|i| acct(*i) == a).unwrap_or(0);
        // somebody other than the owner, often one the owner lets move the token
        let stranger = |r: &mut Rng, k: &Key| {
            let f: Vec<u8> = if r.pct(60) { self.chain.nft_friends(&coll(k.0), &tok(k.1)).iter().filter_map(|a| (0..c.users).find(|i| acct(*i) == *a)).collect() } else { vec![] };
            if f.is_empty() { who(r) } else { *r.pick(&f) }
        };
        let owner = |k: &Key| o.owner.get(k).cloned().flatten().map(|a| who_of(&a)).unwrap_or(0);
        let stray = |r: &mut Rng| -> Funds { if r.pct(4) { vec![(r.below(2) as u8, 1 + r.below(9) as u128)] } else { vec![] } };
        let dix = |d: &str| DENOMS.iter().position(|x| *x == d).unwrap_or(0) as u8;
        let cden = |cc: u8| dix(&o.cdenom[&cc].clone().or_else(|| os(&o.conf["default_denom"])).unwrap_or_default());
        let ask_keys: Vec<Key> = o.asks.keys().copied().collect();
        // open bids and collection bids with their tags
        let tag_of: BTreeMap<&String, u32> = self.tags.iter().map(|(t, i)| (i, *t)).collect();
        let bids: Vec<(u32, Order)> = o.bids.values().filter_map(|b| tag_of.get(&b.id).map(|t| (*t, b.clone()))).collect();
        let cbids: Vec<(u32, Order)> = o.cbids.values().filter_map(|b| tag_of.get(&b.id).map(|t| (*t, b.clone()))).collect();
        let terms = |r: &mut Rng, cc: u8| -> Terms {
            let price = match r.below(40) {
                0 => 0,
                1..=3 if !o.asks.is_empty() => { let p = r_pick(r, o.asks.values().map(|a| a.price).collect()); near(r, p) },
                4..=6 if !bids.is_empty() => { let p = r_pick(r, bids.iter().map(|a| a.1.price).collect()); near(r, p) },
                _ => gen_price(r, &c.prices),
            };
            Terms {
                denom: if r.pct(95) { cden(cc) } else { r.below(3) as u8 },
                price,
                recip: if r.pct(25) { Some(if r.pct(50) { 5 } else { who(r) }) } else { None },
                finder: if r.pct(35) { Some(if r.pct(70) { 7 } else { who(r) }) } else { None },
            }
        };
        // funds for a bid: what it needs, now and then more, less, or something else besides
        let fund = |r: &mut Rng, d: u8, need: u128| -> Funds {
            match r.below(30) {
                0 => vec![(d, need.saturating_sub(1))],
                1 | 2 => vec![(d, need + 1 + r.below(50) as u128)],
                3 => vec![(d, need), ((d + 1) % 3, 7)],
                4 => vec![((d + 1) % 3, need)],
                5 => vec![],
                6 => vec![(d, near(r, need))],
                7 | 8 => {
                    // a purse of several coins
                    let mut f: Funds = vec![(d, need + if r.pct(50) { r.below(9) as u128 } else { 0 })];
                    for x in 0..DENOMS.len() as u8 {
                        if x != d && r.pct(65) {
                            f.push((x, 1 + r.below(40) as u128));
                        }
                    }
                    f
                }
                _ => vec![(d, need)],
            }
        };
        let admin = |r: &mut Rng| -> u8 {
            if r.pct(12) {
                return if r.pct(25) { 9 } else { who(r) };
            }
            match &self.admin {
                None if r.pct(60) => 9,
                Some(a) if *a == person(8) => 8,
                Some(a) => who_of(a),
                None => 8,
            }
        };
        match r.weighted(&c.w) {
            0 => {
                let mut dt = r.range(1, 9) * SEC;
                if r.pct(30) {
                    let ts: Vec<u64> = (0..c.colls).filter_map(|x| self.env(x).start_trading_ns).filter(|t| *t > o.now).collect();
                    if !ts.is_empty() {
                        let off = *r.pick(&[0i64, -1, 1]);
                        dt = ((*r.pick(&ts) as i64 + off).max(o.now as i64 + 1) as u64) - o.now;
                    }
                }
                Op::Block { dt }
            }
            1 => {
                let k = key(r);
                let w = if r.pct(93) { owner(&k) } else { stranger(r, &k) };
                let t = terms(r, k.0);
                let fees: Vec<(u8, u128)> = self.listing.iter().map(|(d, a)| (dix(d), *a)).collect();
                let f = if fees.is_empty() { (0, 5) } else { *r.pick(&fees) };
                let funds = match r.below(30) {
                    0 => vec![(f.0, f.1 + 1)],
                    1 => vec![(f.0, f.1.saturating_sub(1))],
                    2 => vec![f, ((f.0 + 1) % 3, 5)],
                    3 => vec![((f.0 + 1) % 3, f.1)],
                    4 => vec![],
                    5 => vec![(3, f.1)],
                    _ => vec![f],
                };
                Op::Ask { who: w, k, t, now: r.pct(15), funds, approve: r.pct(90) }
            }
            2 => {
                let k = if !ask_keys.is_empty() && r.pct(94) { *r.pick(&ask_keys) } else { key(r) };
                let w = if r.pct(92) { o.asks.get(&k).map(|a| who_of(&a.creator)).unwrap_or(0) } else { who(r) };
                Op::UpdAsk { who: w, k, t: terms(r, k.0), funds: stray(r) }
            }
            3 => {
                let k = if !ask_keys.is_empty() && r.pct(94) { *r.pick(&ask_keys) } else { key(r) };
                let w = if r.pct(90) { o.asks.get(&k).map(|a| who_of(&a.creator)).unwrap_or(0) } else { who(r) };
                Op::RmAsk { who: w, k, funds: stray(r) }
            }
            4 => {
                let k = if !ask_keys.is_empty() && r.pct(94) { *r.pick(&ask_keys) } else { key(r) };
                let mut t = terms(r, k.0);
                let mut need = t.price;
                let mut pay = t.denom;
                if let Some(a) = o.asks.get(&k) {
                    // now and then the limit is named in another coin than the price
                    let d = dix(&a.denom);
                    t.denom = if r.pct(93) { d } else { (d + 1 + r.below(2) as u8) % 3 };
                    pay = if r.pct(80) { d } else { t.denom };
                    t.price = match r.below(10) {
                        0 => a.price.saturating_sub(1),
                        1..=3 => a.price + r.below(100) as u128,
                        _ => a.price,
                    };
                    need = if r.pct(60) { t.price } else { a.price };
                }
                Op::AccAsk { who: who(r), k, funds: fund(r, pay, need), t }
            }
            5 => {
                let mut k = key(r);
                let now = r.pct(18);
                if now && !ask_keys.is_empty() && r.pct(60) {
                    k = *r.pick(&ask_keys);
                    // an ask left from before the collection set (another) start of trading
                    let l: Vec<Key> = ask_keys.iter().copied().filter(|k| self.env(k.0).start_trading_ns.map_or(false, |t| t > o.now)).collect();
                    if !l.is_empty() && r.pct(60) {
                        k = *r.pick(&l);
                    }
                }
                let mut t = terms(r, k.0);
                if let (true, Some(a)) = (now && r.pct(60), o.asks.get(&k)) {
                    t.denom = dix(&a.denom);
                    t.price = a.price + if r.pct(25) { 1 + r.below(50) as u128 } else { 0 };
                }
                let need = match o.asks.get(&k) {
                    Some(a) if r.pct(50) => a.price.min(t.price),
                    _ => t.price,
                };
                self.next_tag += 1;
                Op::Bid { who: who(r), k, now, tag: self.next_tag, funds: fund(r, t.denom, need), t }
            }
            6 => {
                let (tag, b) = if bids.is_empty() || r.pct(3) { (r.below(9) as u32, None) } else { let x = r.pick(&bids); (x.0, Some(x.1.clone())) };
                let w = match &b {
                    Some(b) if r.pct(93) => who_of(&b.creator),
                    _ => who(r),
                };
                let t = terms(r, b.as_ref().map_or(0, |b| b.c));
                let have = b.as_ref().filter(|b| dix(&b.denom) == t.denom).map_or(0, |b| b.price);
                Op::UpdBid { who: w, tag, funds: fund(r, t.denom, t.price.saturating_sub(have)), t }
            }
            7 => {
                let (tag, b) = if bids.is_empty() || r.pct(5) { (r.below(9) as u32, None) } else { let x = r.pick(&bids); (x.0, Some(x.1.clone())) };
                let w = match &b {
                    Some(b) if r.pct(90) => who_of(&b.creator),
                    _ => who(r),
                };
                Op::RmBid { who: w, tag, funds: stray(r) }
            }
            8 => {
                let (tag, b) = if bids.is_empty() || r.pct(3) { (r.below(9) as u32, None) } else { let x = r.pick(&bids); (x.0, Some(x.1.clone())) };
                let cc = b.as_ref().map_or(0, |b| b.c);
                let mut t = terms(r, cc);
                let mut w = who(r);
                if let Some(b) = &b {
                    let k = (b.c, b.t.unwrap());
                    w = match r.below(12) {
                        0 => w,
                        1 => stranger(r, &k),
                        _ => o.asks.get(&k).map(|a| who_of(&a.creator)).unwrap_or_else(|| owner(&k)),
                    };
                    if r.pct(95) {
                        t.denom = dix(&b.denom);
                    }
                    t.price = match r.below(8) {
                        0 => b.price + 1,
                        1 => 0,
                        2 => b.price / 2,
                        _ => b.price,
                    };
                }
                Op::AccBid { who: w, tag, t, funds: stray(r), approve: r.pct(88) }
            }
            9 => {
                let cc = key(r).0;
                let t = terms(r, cc);
                let low = o.asks.values().filter(|a| a.c == cc).map(|a| a.price).min();
                let need = match low {
                    Some(a) if r.pct(50) => a.min(t.price),
                    _ => t.price,
                };
                let now = r.pct(18);
                self.next_tag += 1;
                let t = if now && r.pct(15) { Terms { price: u128::MAX, ..t } } else { t };
                Op::Col { who: who(r), c: cc, now, tag: self.next_tag, funds: fund(r, t.denom, if t.price == u128::MAX { low.unwrap_or(1) } else { need }), t }
            }
            10 => {
                let (tag, b) = if cbids.is_empty() || r.pct(3) { (r.below(9) as u32, None) } else { let x = r.pick(&cbids); (x.0, Some(x.1.clone())) };
                let w = match &b {
                    Some(b) if r.pct(93) => who_of(&b.creator),
                    _ => who(r),
                };
                let t = terms(r, b.as_ref().map_or(0, |b| b.c));
                let have = b.as_ref().filter(|b| dix(&b.denom) == t.denom).map_or(0, |b| b.price);
                Op::UpdCol { who: w, tag, funds: fund(r, t.denom, t.price.saturating_sub(have)), t }
            }
            11 => {
                let (tag, b) = if cbids.is_empty() || r.pct(5) { (r.below(9) as u32, None) } else { let x = r.pick(&cbids); (x.0, Some(x.1.clone())) };
                let w = match &b {
                    Some(b) if r.pct(90) => who_of(&b.creator),
                    _ => who(r),
                };
                Op::RmCol { who: w, tag, funds: stray(r) }
            }
            12 => {
                let (tag, b) = if cbids.is_empty() || r.pct(3) { (r.below(9) as u32, None) } else { let x = r.pick(&cbids); (x.0, Some(x.1.clone())) };
                let cc = b.as_ref().map_or(0, |b| b.c);
                let token = key(r).1;
                let mut t = terms(r, cc);
                let mut w = who(r);
                if let Some(b) = &b {
                    let k = (b.c, token);
                    w = match r.below(12) {
                        0 => w,
                        1 => stranger(r, &k),
                        _ => o.asks.get(&k).map(|a| who_of(&a.creator)).unwrap_or_else(|| owner(&k)),
                    };
                    if r.pct(95) {
                        t.denom = dix(&b.denom);
                    }
                    t.price = match r.below(8) {
                        0 => b.price + 1,
                        1 => 0,
                        2 => b.price / 2,
                        _ => b.price,
                    };
                }
                Op::AccCol { who: w, tag, token, t, funds: stray(r), approve: r.pct(88) }
            }
            13 => match r.below(10) {
                0..=3 => {
                    let mut cf = c.conf.clone();
                    match r.below(8) {
                        0 => cf.protocol = *r.pick(&[0, 1, 200, 333, 5000, 9999, 10_000, 10_001, u64::MAX]),
                        1 => cf.maker = *r.pick(&[0, 1, 4000, 5000, 9999, 10_000, u64::MAX]),
                        2 => cf.taker = *r.pick(&[0, 1, 1000, 4999, 5000, 9999, 10_000]),
                        3 => cf.max_royalty = *r.pick(&[0, 1, 500, 1000, 10_000, 20_000]),
                        4 => cf.denom = r.below(3) as u8,
                        5 => cf.manager = *r.pick(&[4, 6, 3]),
                        6 => cf.registry = !c.poison || r.pct(40),
                        _ => {}
                    }
                    // changes add up, so that later configurations differ in several fields
                    let conf_ok = cf.protocol < 10_000 && cf.maker as u128 + (cf.taker as u128) < 10_000;
                    if conf_ok {
                        self.cfg.conf = cf.clone();
                    }
                    Op::Config { who: admin(r), conf: cf, funds: stray(r) }
                }
                4 | 5 => Op::ColDenom { who: admin(r), c: key(r).0, denom: r.below(3) as u8, funds: stray(r) },
                6..=8 => Op::ListFee { who: admin(r), denom: r.below(4) as u8, amount: *r.pick(&[0, 1, 5, 100, 3]), funds: stray(r) },
                _ => Op::RmListFee { who: admin(r), denom: r.below(4) as u8, funds: stray(r) },
            },
            14 => {
                let k = key(r);
                let act = match r.below(14) {
                    0..=4 => NftAct::Transfer(who(r)),
                    12 => NftAct::ApproveUser(who(r)),
                    13 => NftAct::Operator(who(r)),
                    5 => NftAct::Approve,
                    6 | 7 => NftAct::Revoke,
                    8 => NftAct::ApproveAll,
                    9 => NftAct::RevokeAll,
                    10 => NftAct::ApproveFor(r.range(1, 60)),
                    _ => if r.pct(15) { NftAct::Burn } else { NftAct::ApproveAll },
                };
                Op::Nft { who: if r.pct(93) { owner(&k) } else { stranger(r, &k) }, k, act }
            }
            15 => {
                let cc = r.below(c.colls as u64) as u8;
                let ch = match r.below(11) {
                    0 => EnvCh::StartTrading(*r.pick(&[None, Some(o.now + 100 * SEC), Some(o.now), Some(o.now + 1), Some(o.now + 20 * SEC)])),
                    1 | 2 => EnvCh::Royalty(if r.pct(20) { None } else { Some((payee(r), *r.pick(&[0, 1, E18 / 20, E18 / 3, E18 / 10 + 7, E18 / 2, E18 / 1000]))) }),
                    3 if c.poison => EnvCh::InfoFail(true),
                    4 if c.poison => EnvCh::TransferFail(true),
                    5 if c.poison => EnvCh::Royalty(Some(match r.below(3) {
                        0 => (6, E18),
                        1 => (6, E18 + E18 / 2),
                        _ => (255, E18 / 10),
                    })),
                    6 if c.poison => EnvCh::TransferPanic(true),
                    7 => EnvCh::OwnerFail(r.pct(50)),
                    8 if c.reenter => EnvCh::Reenter(Some((self.nested(r, o).to_string(), vec![]))),
                    _ => EnvCh::Clear,
                };
                Op::Env { c: cc, ch }
            }
            16 => Op::Registry {
                c: key(r).0,
                protocol: r.pct(50),
                update: r.pct(50),
                to: *r.pick(&[6, 5, 3]),
                share: *r.pick(&[0, 1, E18 / 20, E18 / 3, E18 / 100, E18 / 10 + 7]),
                dec: r.pct(40),
            },
            _ => match r.below(11) {
                10 => Op::Burst { who: who(r), c: key(r).0, t: if r.pct(50) { Some(key(r).1) } else { None }, n: if r.pct(10) { 280 } else { r.range(2, 20) as u16 } },
                0..=3 => Op::Migrate { stored: r.below(2) as u8 },
                4 | 5 => Op::Admin { to: if r.pct(30) { None } else if r.pct(60) { Some(8) } else { Some(who(r)) } },
                _ => Op::Fake { who: who(r), n: r.below(7) as u8 },
            },
        }
    }

    fn pre(&self, op: &Op) {
        let (who, k) = match op {
            Op::Ask { who, k, approve: true, .. } => (who, *k),
            Op::AccBid { who, tag, approve: true, .. } => {
                let id = self.tag_id(*tag);
                match self.q(json!({"bid": id})).ok().and_then(|v| self.parse(&v).ok()) {
                    Some(b) => (who, (b.c, b.t.unwrap_or(0))),
                    None => return,
                }
            }
            Op::AccCol { who, tag, token, approve: true, .. } => {
                let id = self.tag_id(*tag);
                match self.q(json!({"collection_bid": id})).ok().and_then(|v| self.parse(&v).ok()) {
                    Some(b) => (who, (b.c, *token)),
                    None => return,
                }
            }
            _ => return,
        };
        nft_act(&self.chain, &person(*who), &coll(k.0), &tok(k.1), &market(), &NftAct::Approve);
    }

    fn do_registry(&self, c: u8, protocol: bool, update: bool, to: u8, share: u128, decr: bool) -> TxOut {
        let m = match (protocol, update) {
            (false, false) => json!({"set_collection_royalty_default": {"collection": coll(c), "recipient": acct(to), "share": dec_str(share)}}),
            (true, false) => json!({"set_collection_royalty_protocol": {"collection": coll(c), "protocol": market(), "recipient": acct(to), "share": dec_str(share)}}),
            (false, true) => json!({"update_collection_royalty_default": {"collection": coll(c), "recipient": acct(to), "share_delta": dec_str(share), "decrement": decr}}),
            (true, true) => json!({"update_collection_royalty_protocol": {"collection": coll(c), "protocol": market(), "recipient": acct(to), "share_delta": dec_str(share), "decrement": decr}}),
        };
        self.chain.tx(&user("creator"), &registry(), &bin(&m), &[], Fault::None)
    }
    fn set_admin(&self, to: Option<u8>) -> Option<String> {
        let a = to.map(person);
        self.chain.set_admin(&market(), a.clone());
        a
    }
    fn do_migrate(&self, stored: u8) -> (TxOut, String) {
        let m = market();
        let old = self.chain.kv(&m).get("contract_info".as_bytes()).cloned().unwrap_or_default();
        if stored == 1 {
            let info: Value = serde_json::from_slice(&old).unwrap_or_default();
            let v = older_version(info["version"].as_str().unwrap_or(""), self.chain.now());
            self.chain.raw_set(&m, b"contract_info", &serde_json::to_vec(&json!({"contract": info["contract"], "version": v})).unwrap());
        }
        (self.chain.migrate(&m, &bin(&json!({}))), String::from_utf8_lossy(&old).to_string())
    }
    fn tag_for(op: &Op) -> Option<u32> {
        match op {
            Op::Bid { tag, .. } | Op::Col { tag, .. } => Some(*tag),
            _ => None,
        }
    }
}

fn r_pick(r: &mut Rng, v: Vec<u128>) -> u128 {
    v[r.idx(v.len())]
}

fn deploy(cfg: &Cfg) -> (Chain, TxOut) {
    let chain = Chain::new(cfg.start_ns);
    chain.add_contract(&registry(), Code::Registry, None);
    let r = chain.instantiate(&registry(), &user("deployer"), &bin(&json!({"config": {"update_wait_period": 5, "max_share_delta": "0.5"}})));
    assert!(r.ok, "{}", r.err);
    for c in 0..cfg.colls {
        let toks: Vec<(String, String)> = (0..cfg.tokens).map(|t| (tok(t), acct((t + c) % cfg.users))).collect();
        deploy_nft(&chain, &coll(c), &user("creator"), &toks);
        set_env(&chain, &coll(c), &market(), &EnvCh::Royalty(cfg.royalty[c as usize]));
    }
    for u in 0..cfg.users {
        for d in DENOMS {
            chain.mint(&acct(u), d, 1_000_000_000_000_000_000_000_000);
        }
    }
    for d in DENOMS {
        chain.mint(&person(8), d, 1_000_000);
    }
    chain.add_contract(&market(), Code::V2, Some(person(8)));
    let out = chain.instantiate(&market(), &user("deployer"), &bin(&json!({"config": conf_json(&cfg.conf)})));
    for (d, a) in &cfg.listing {
        chain.tx(&person(8), &market(), &bin(&json!({"set_listing_fee": {"fee": {"denom": denom(*d), "amount": a.to_string()}}})), &[], Fault::None);
    }
    for (c, d) in cfg.coll_denom.iter().enumerate() {
        if let (Some(d), true) = (d, (c as u8) < cfg.colls) {
            chain.tx(&person(8), &market(), &bin(&json!({"update_collection_denom": {"collection": coll(c as u8), "denom": denom(*d)}})), &[], Fault::None);
        }
    }
    (chain, out)
}

impl V2 {
    /// The contract starts exactly as instantiated, and says so.
    fn check_birth(&mut self, out: &TxOut) {
        let tag: &'static [&'static str] = &["V10"];
        if !out.ok {
            self.born.push((tag, "v2:instantiate:wrongly-refused".into(), out.err.clone()));
            return;
        }
        let Some(o) = &self.cur else { return };
        let want = conf_json(&self.cfg.conf);
        if o.conf != want {
            self.born.push((tag, "v2:instantiate:config".into(), format!("instantiated with {want}, is {}", o.conf)));
        }
        if o.version.is_empty() {
            self.born.push((tag, "v2:instantiate:version".into(), "the contract does not say what it is".into()));
        }
        if !o.asks.is_empty() || !o.bids.is_empty() || !o.cbids.is_empty() {
            self.born.push((tag, "v2:instantiate:not-empty".into(), "starts with orders".into()));
        }
        let mut f = Follower::default();
        let mut heard = Ok(());
        for e in &out.emitted {
            heard = heard.and(self.hear(&mut f, e));
        }
        if heard.is_err() || f.conf != want {
            self.born.push((&["V11"], "v2:events:instantiate".into(), format!("instantiated with {want}, announced {} {heard:?}", f.conf)));
        }
    }

    /// A second contract, instantiated with other values, some of them not allowed.
    fn try_birth(&mut self) {
        if self.cfg.birth == 0 {
            return;
        }
        let x = self.cfg.birth / 16;
        let tag: &'static [&'static str] = &["V10"];
        let mut c = self.cfg.conf.clone();
        let mut no: Option<&'static str> = None;
        let mut set: Option<&'static str> = None;
        match self.cfg.birth % 9 {
            0 => {
                c.protocol = [10_000, 10_000 + x, u64::MAX][(x % 3) as usize];
                no = Some("protocol fee of 100% or more")
            }
            1 => {
                c.maker = x % 10_001;
                c.taker = 10_000 - c.maker + x % 2;
                no = Some("rewards of 100% or more")
            }
            2 => {
                (c.maker, c.taker) = if x % 2 == 0 { (u64::MAX, 1) } else { (1, u64::MAX) };
                no = Some("rewards of 100% or more")
            }
            3 => {
                set = Some("fee_manager");
                no = Some("invalid address")
            }
            4 => {
                set = Some("royalty_registry");
                no = Some("invalid address")
            }
            5 => {
                c.protocol = 9_999;
                c.maker = x % 10_000;
                c.taker = 9_999 - c.maker;
            }
            _ => {
                c.protocol = x % 10_000;
                c.maker = x / 3 % 5_000;
                c.taker = x / 7 % 5_000;
                c.max_royalty = x;
                c.denom = (x % 4) as u8;
                c.manager = (x % 5) as u8;
            }
        }
        let mut m = conf_json(&c);
        if let Some(k) = set {
            m[k] = json!("Not an address");
        }
        let addr = contract("decoy");
        self.chain.add_contract(&addr, Code::V2, Some(person(8)));
        let out = self.chain.instantiate(&addr, &user("deployer"), &bin(&json!({"config": m})));
        match (no, out.ok) {
            (Some(why), true) => self.born.push((tag, format!("v2:instantiate:wrongly-accepted:{why}"), format!("instantiated although: {why}"))),
            (None, false) => self.born.push((tag, "v2:instantiate:wrongly-refused".into(), out.err)),
            (Some(_), false) => {}
            (None, true) => {
                let got = self.chain.query::<Value>(&addr, &json!({"config": {}}));
                if got.as_ref() != Ok(&conf_json(&c)) {
                    self.born.push((tag, "v2:instantiate:config".into(), format!("instantiated with {}, is {got:?}", conf_json(&c))));
                }
            }
        }
    }
}

impl World for V2 {
    const NAME: &'static str = "marketplace-v2";
    const FAULTS: &'static [&'static str] = &[
        "tx_lost",
        "tx_delayed_or_reordered",
        "tx_duplicated",
        "out_of_gas",
        "submessage_failure",
        "nft_changed_outside_market",
        "collection_outage",
        "collection_refuses_transfers",
        "royalty_changed",
        "malicious_collection",
        "collection_repaired",
        "trading_start_moved",
        "registry_royalty_changed",
        "administrator_changed",
    ];
    const ID: u64 = 3;
    type Cfg = Cfg;
    type Step = Step;

    fn gen_cfg(r: &mut Rng, profile: &str) -> Cfg {
        //                    blk ask upa rma aca bid upb rmb acb col upc rmc acc adm nft env reg misc
        let mut w: Vec<u64> = vec![7, 24, 9, 4, 8, 18, 8, 4, 7, 12, 7, 3, 6, 5, 5, 4, 3, 2];
        for x in w.iter_mut().skip(1) {
            if r.pct(10) {
                *x = 0;
            } else if r.pct(15) {
                *x *= 3;
            }
        }
        w[1] = w[1].max(10);
        w[5] = w[5].max(8);
        match profile {
            "V04" => w[16] += 6,
            "V09" | "V10" => {
                w[13] += 12;
                w[17] += 4;
                w[15] += 4;
            }
            _ => {}
        }
        let quiet = r.pct(25);
        let crowd = crowd_size(r);
        let colls = if crowd > 35 { 1 } else { r.range(1, 3) as u8 };
        let maker = *r.pick(&[0u64, 4000, 1, 5000, 3333]);
        Cfg {
            users: r.range(3, 5) as u8,
            colls,
            tokens: if crowd > 0 { crowd } else if colls == 1 { r.range(1, 5) as u8 } else { r.range(1, 3) as u8 },
            start_ns: *r.pick(&START) * SEC + if r.pct(50) { r.below(SEC) } else { 0 },
            conf: Conf {
                manager: *r.pick(&[4, 6]),
                registry: true,
                protocol: *r.pick(&[200, 200, 0, 1, 333, 5000, 9999]),
                max_royalty: *r.pick(&[500, 1000, 1000, 0, 10_000]),
                maker,
                taker: *r.pick(&[0u64, 1000, 1, 4999, 3333]),
                denom: if r.pct(80) { 0 } else { 1 },
            },
            listing: if r.pct(8) { vec![] } else { vec![(0, *r.pick(&[5, 1, 100])), (r.range(1, 2) as u8, *r.pick(&[5, 1, 0]))] },
            coll_denom: (0..3).map(|_| if r.pct(25) { Some(r.below(3) as u8) } else { None }).collect(),
            royalty: (0..3).map(|_| if r.pct(35) { None } else { Some((payee(r), *r.pick(&[E18 / 20, E18 / 3, 1, 0, E18 / 10 + 7, E18 / 1000]))) }).collect(),
            prices: {
                let n = r.range(1, 4);
                gen_prices(r, n)
            },
            w,
            fault_pm: if quiet { 0 } else { *r.pick(&[10, 40, 120]) },
            loss: if quiet { 0 } else { *r.pick(&[0, 30, 100]) },
            dup: if quiet { 0 } else { *r.pick(&[0, 50, 200]) },
            delay: if quiet { 0 } else { *r.pick(&[0, 50, 200]) },
            poison: r.pct(30),
            crowd: if crowd > 0 { 1 + r.below(1 << 32) } else { 0 },
            birth: if r.pct(30) { 1 + r.below(1 << 32) } else { 0 },
            reenter: r.pct(25),
            query_pm: if profile == "V08" { 250 } else { 15 },
            sim_pm: *r.pick(&[0, 50]),
            nsteps: if crowd > 0 { 50 } else { long(r, &[40, 80, 140]) },
        }
    }

    fn new(cfg: &Cfg) -> Self {
        let (chain, out) = deploy(cfg);
        let mut w = V2 {
            cfg: cfg.clone(),
            born: vec![],
            chain,
            net: Net::new(cfg.loss, cfg.dup, cfg.delay),
            supply0: BTreeMap::new(),
            cur: None,
            memo: Default::default(),
            listing: cfg.listing.iter().map(|(d, a)| (denom(*d), *a)).collect(),
            admin: Some(person(8)),
            tags: BTreeMap::new(),
            ask_ids: BTreeMap::new(),
            seen: BTreeSet::new(),
            next_tag: 0,
            follower: Follower::default(),
        };
        w.supply0 = supply(&bank_of(&w.chain));
        w.cur = w.observe().ok();
        if let Some(o) = &w.cur {
            w.follower = w.truth(o);
        }
        w.check_birth(&out);
        w.try_birth();
        if cfg.crowd > 0 {
            w.fill();
            w.cur = w.observe().ok();
            if let Some(o) = &w.cur {
                w.follower = w.truth(o);
            }
        }
        w
    }

    fn steps(cfg: &Cfg, r: &mut Rng) -> usize {
        (cfg.nsteps / 2 + r.below(cfg.nsteps)) as usize
    }

    fn gen(&mut self, r: &mut Rng) -> Step {
        let o = match &self.cur {
            Some(o) => o.clone(),
            None => return Step { op: Op::Block { dt: SEC }, fault: Fault::None, net: 0, simulate: false },
        };
        let (op, net) = loop {
            if let Some(x) = self.net.late(r) {
                break x;
            }
            let op = self.gen_op(r, &o);
            if matches!(op, Op::Fake { .. }) || self.msg(&op).is_none() {
                break (op, 0);
            }
            if let Some(x) = self.net.step(r, op) {
                break x;
            }
        };
        let fault = if self.msg(&op).is_some() { gen_fault(r, self.cfg.fault_pm) } else { Fault::None };
        Step { op, fault, net, simulate: r.permille(self.cfg.sim_pm) }
    }

    fn apply(&mut self, s: &Step, rec: &mut Rec) {
        report_birth(&mut self.born, rec);
        let o = match self.cur.take() {
            Some(o) => o,
            None => match self.observe() {
                Ok(o) => o,
                Err(e) => {
                    rec.violate(&["V08"], "v2:observe", e);
                    return;
                }
            },
        };
        for _ in 0..std::mem::take(&mut self.net.lost) {
            rec.fault("tx_lost");
        }
        match s.net {
            1 => rec.fault("tx_delayed_or_reordered"),
            2 => rec.fault("tx_duplicated"),
            _ => {}
        }
        let m = market();
        match &s.op {
            Op::Block { dt } => {
                self.chain.next_block(*dt);
                rec.sim_ns += *dt as u128;
                let mut o = o;
                o.now = self.chain.now();
                rec.log(&format!("block {}", o.now));
                self.cur = Some(o);
            }
            Op::Env { c, ch } => {
                set_env(&self.chain, &coll(*c), &m, ch);
                rec.fault(match ch {
                    EnvCh::InfoFail(true) | EnvCh::OwnerFail(true) => "collection_outage",
                    EnvCh::TransferFail(true) | EnvCh::TransferPanic(true) => "collection_refuses_transfers",
                    EnvCh::Royalty(_) => "royalty_changed",
                    EnvCh::StartTrading(_) => "trading_start_moved",
                    EnvCh::Reenter(_) => "malicious_collection",
                    _ => "collection_repaired",
                });
                rec.log(&format!("env {c} {ch:?}"));
                self.cur = Some(o);
            }
            Op::Nft { who, k, act } => {
                let out = nft_act(&self.chain, &person(*who), &coll(k.0), &tok(k.1), &m, act);
                rec.log(&format!("nft {}", out.ok));
                if out.ok {
                    rec.fault("nft_changed_outside_market");
                }
                let mut o = o;
                o.owner.insert(*k, self.chain.nft_owner(&coll(k.0), &tok(k.1)));
                self.cur = Some(o);
            }
            Op::Registry { c, protocol, update, to, share, dec } => {
                let out = self.do_registry(*c, *protocol, *update, *to, *share, *dec);
                rec.log(&format!("registry {}", out.ok));
                if out.ok {
                    rec.fault("registry_royalty_changed");
                }
                self.cur = Some(o);
            }
            Op::Burst { who, c, t, n } => {
                self.burst(&o, *who, *c, *t, *n, rec);
                self.cur = Some(o);
            }
            Op::Admin { to } => {
                self.admin = self.set_admin(*to);
                rec.fault("administrator_changed");
                rec.log("admin");
                self.cur = Some(o);
            }
            Op::Migrate { stored } => {
                let (out, version) = self.do_migrate(*stored);
                rec.log(&format!("migrate {stored} {}", out.ok));
                rec.stat("migrations");
                let mut n = o.clone();
                n.version = version;
                self.judge(o, Ok(Good { states: vec![n], sale: false, listing: None, may: None }), "migrate", &out, None, rec);
            }
            op => {
                self.pre(op);
                let (who, msg, funds) = self.msg(op).unwrap();
                let (exp, what) = self.expect(&o, op, &who, &funds);
                if s.simulate {
                    self.chain.simulate(&who, &m, &bin(&msg), &funds);
                    rec.stat("simulated_first");
                }
                let out = self.chain.tx(&who, &m, &bin(&msg), &funds, s.fault);
                rec.log(&format!("{what} {} {:?}", out.ok, out.transfers));
                if out.ok {
                    rec.stat(&format!("ok_{what}"));
                    rec.committed += 1;
                } else {
                    rec.stat(&format!("refused_{what}"));
                }
                self.judge(o, exp, what, &out, Self::tag_for(op), rec);
            }
        }
        rec.states.push(self.chain.store_hash(&m));
        if let Some(g) = self.cur.take() {
            self.invariants(&g, rec);
            let x = rec.log ^ (rec.step as u64).wrapping_mul(0x9E3779B97F4A7C15);
            if (x >> 7) % 1000 < self.cfg.query_pm {
                self.check_queries(&g, x >> 20, rec);
            }
            self.cur = Some(g);
        }
    }

    fn finish(&mut self, rec: &mut Rec) {
        report_birth(&mut self.born, rec);
        let o = match self.cur.take() {
            Some(o) => o,
            None => return,
        };
        self.check_queries(&o, rec.log >> 20, rec);
        rec.stat("withdrawal_checks");
        // whatever the collections do, every bidder gets the money back on request
        for c in 0..self.cfg.colls {
            for ch in [EnvCh::InfoFail(true), EnvCh::OwnerFail(true), EnvCh::ApprovalFail(true), EnvCh::TransferFail(true)] {
                set_env(&self.chain, &coll(c), &market(), &ch);
            }
        }
        let tag_of: BTreeMap<String, u32> = self.tags.iter().map(|(t, i)| (i.clone(), *t)).collect();
        let idx = |a: &str| (0..9u8).find(|i| person(*i) == a).unwrap_or(0);
        let mut ops: Vec<Op> = vec![];
        for b in o.bids.values() {
            if let Some(t) = tag_of.get(&b.id) {
                ops.push(Op::RmBid { who: idx(&b.creator), tag: *t, funds: vec![] });
            }
        }
        for b in o.cbids.values() {
            if let Some(t) = tag_of.get(&b.id) {
                ops.push(Op::RmCol { who: idx(&b.creator), tag: *t, funds: vec![] });
            }
        }
        let bids = ops.len();
        for (k, a) in &o.asks {
            ops.push(Op::RmAsk { who: idx(&a.creator), k: *k, funds: vec![] });
        }
        self.cur = Some(o);
        for (i, op) in ops.into_iter().enumerate() {
            if i == bids {
                for c in 0..self.cfg.colls {
                    set_env(&self.chain, &coll(c), &market(), &EnvCh::Clear);
                }
            }
            let o = match self.cur.take() {
                Some(o) => o,
                None => return,
            };
            let (who, msg, funds) = self.msg(&op).unwrap();
            let (exp, what) = self.expect(&o, &op, &who, &funds);
            if exp.is_err() {
                rec.violate(&["V01", "V02"], "v2:final-withdrawal:model", "an open order cannot be withdrawn".to_string());
            }
            let out = self.chain.tx(&who, &market(), &bin(&msg), &funds, Fault::None);
            self.judge(o, exp, what, &out, None, rec);
        }
        if let Some(o) = &self.cur {
            self.invariants(o, rec);
        }
    }

    fn shrink(s: &Step) -> Vec<Step> {
        let mut v = vec![];
        v.push(Step { op: s.op.clone(), fault: Fault::None, net: 0, simulate: false });
        let with = |op: Op| Step { op, fault: s.fault, net: 0, simulate: false };
        let mut alts: Vec<Terms> = vec![];
        if let Op::Ask { t, .. } | Op::UpdAsk { t, .. } | Op::AccAsk { t, .. } | Op::Bid { t, .. } | Op::UpdBid { t, .. } | Op::AccBid { t, .. } | Op::Col { t, .. } | Op::UpdCol { t, .. } | Op::AccCol { t, .. } = &s.op {
            alts.push(Terms { recip: None, finder: None, ..t.clone() });
            alts.push(Terms { recip: None, ..t.clone() });
            alts.push(Terms { finder: None, ..t.clone() });
            if t.price > 100 {
                alts.push(Terms { price: 100, ..t.clone() });
            }
        }
        for a in alts {
            let mut op = s.op.clone();
            if let Op::Ask { t, .. } | Op::UpdAsk { t, .. } | Op::AccAsk { t, .. } | Op::Bid { t, .. } | Op::UpdBid { t, .. } | Op::AccBid { t, .. } | Op::Col { t, .. } | Op::UpdCol { t, .. } | Op::AccCol { t, .. } = &mut op {
                *t = a;
            }
            v.push(with(op));
        }
        if let Op::Block { dt } = &s.op {
            if *dt > SEC {
                v.push(with(Op::Block { dt: SEC }));
            }
        }
        v
    }

    fn chain(&self) -> &Chain {
        &self.chain
    }
}
