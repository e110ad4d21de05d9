//! Things the three worlds share: accounts, collections, decimals, observation helpers.

use crate::chain::*;
use crate::rng::Rng;
use cosmwasm_std::{Binary, Coin, Uint128};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub const SEC: u64 = 1_000_000_000;
pub const E18: u128 = 1_000_000_000_000_000_000;
/// Account names; their address order is deliberately not their index order.
pub const NAMES: [&str; 8] = ["mia", "zed", "bob", "yak", "cat", "eve", "roy", "fin"];
/// One is a denomination as IBC makes them.
pub const DENOMS: [&str; 4] = ["ustars", "ibc/9DF365E2C0EF4EA02FA771F638BB9C0C830EFCD354629BDC017F79B348B4E989", "uosmo", "ujunk"];
/// What is wrong with a contract from its instantiation on: properties, signature, detail.
pub type Born = Vec<(&'static [&'static str], String, String)>;
pub fn report_birth(b: &mut Born, rec: &mut crate::engine::Rec) {
    for (props, sig, detail) in b.drain(..) {
        rec.violate(props, sig, detail);
    }
}
pub const NET: &str = "@net";

pub fn acct(i: u8) -> String {
    user(NAMES[i as usize % NAMES.len()])
}
pub fn denom(i: u8) -> String {
    DENOMS[i as usize % DENOMS.len()].to_string()
}
pub fn bin(v: &Value) -> Binary {
    Binary::from(serde_json::to_vec(v).unwrap())
}
pub fn coin(amount: u128, denom: &str) -> Coin {
    Coin { denom: denom.to_string(), amount: Uint128::new(amount) }
}
pub type Funds = Vec<(u8, u128)>;
/// Attached funds as the SDK would deliver them: sorted, merged, no zero coins.
pub fn coins(f: &Funds) -> Vec<Coin> {
    let mut m: BTreeMap<String, u128> = BTreeMap::new();
    for (d, a) in f {
        *m.entry(denom(*d)).or_insert(0) += a;
    }
    m.into_iter().filter(|(_, a)| *a > 0).map(|(d, a)| coin(a, &d)).collect()
}

/// Decimal string to 18-digit fixed point.
pub fn dec(s: &str) -> u128 {
    let (i, f) = match s.split_once('.') {
        Some((i, f)) => (i, f),
        None => (s, ""),
    };
    let mut frac = f.to_string();
    while frac.len() < 18 {
        frac.push('0');
    }
    i.parse::<u128>().unwrap_or(0) * E18 + frac[..18].parse::<u128>().unwrap_or(0)
}
/// 18-digit fixed point to decimal string.
pub fn dec_str(a: u128) -> String {
    let s = format!("{}.{:018}", a / E18, a % E18);
    s.trim_end_matches('0').trim_end_matches('.').to_string()
}
/// Exact as long as the result fits.
pub fn mul_ceil(a: u128, d: u128) -> Option<u128> {
    let p = (a % E18).checked_mul(d)?;
    (a / E18).checked_mul(d)?.checked_add(p / E18 + u128::from(p % E18 > 0))
}
pub fn mul_floor(a: u128, d: u128) -> Option<u128> {
    (a / E18).checked_mul(d)?.checked_add((a % E18).checked_mul(d)? / E18)
}

pub type Bank = BTreeMap<(String, String), u128>;

/// Snapshot of all balances; burned coins and the fair-burn pool are one "network" account.
pub fn bank_of(c: &Chain) -> Bank {
    let mut out = Bank::new();
    for ((a, d), v) in c.inner.borrow().bank.iter() {
        if *v == 0 {
            continue;
        }
        let a = if a == BURN_ACC || a == POOL_ACC { NET.to_string() } else { a.clone() };
        *out.entry((a, d.clone())).or_insert(0) += v;
    }
    out
}
pub fn supply(b: &Bank) -> BTreeMap<String, u128> {
    let mut m = BTreeMap::new();
    for ((_, d), v) in b {
        *m.entry(d.clone()).or_insert(0) += v;
    }
    m
}
pub fn bal(b: &Bank, a: &str, d: &str) -> u128 {
    b.get(&(a.to_string(), d.to_string())).copied().unwrap_or(0)
}
/// Move coins in a model bank; false when there is not enough.
pub fn mv(b: &mut Bank, from: &str, to: &str, d: &str, amt: u128) -> bool {
    if amt == 0 {
        return true;
    }
    let f = bal(b, from, d);
    if f < amt {
        return false;
    }
    if f == amt {
        b.remove(&(from.to_string(), d.to_string()));
    } else {
        b.insert((from.to_string(), d.to_string()), f - amt);
    }
    *b.entry((to.to_string(), d.to_string())).or_insert(0) += amt;
    true
}
pub fn pay_in(b: &mut Bank, from: &str, to: &str, f: &[Coin]) -> bool {
    for c in f {
        if !mv(b, from, to, &c.denom, c.amount.u128()) {
            return false;
        }
    }
    true
}
/// Differences between two balance sheets as text.
pub fn bank_diff(exp: &Bank, got: &Bank) -> Vec<(String, String, i128)> {
    let mut keys: Vec<&(String, String)> = exp.keys().chain(got.keys()).collect();
    keys.sort();
    keys.dedup();
    keys.into_iter()
        .filter_map(|k| {
            let e = exp.get(k).copied().unwrap_or(0) as i128;
            let g = got.get(k).copied().unwrap_or(0) as i128;
            if e != g {
                Some((k.0.clone(), k.1.clone(), g - e))
            } else {
                None
            }
        })
        .collect()
}

/// Short name for an address in reports.
pub fn nick(a: &str) -> String {
    a.strip_prefix("stars1").map(|x| x.trim_start_matches('0').to_string()).unwrap_or_else(|| a.to_string())
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum NftAct {
    Transfer(u8),
    Approve,
    Revoke,
    ApproveAll,
    RevokeAll,
    Burn,
    /// approval that ends this many seconds from now
    ApproveFor(u64),
    /// another account may move this token
    ApproveUser(u8),
    /// another account may move all tokens
    Operator(u8),
}

/// Switchable collection behaviour as a step.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum EnvCh {
    StartTrading(Option<u64>),
    Royalty(Option<(u8, u128)>),
    InfoFail(bool),
    OwnerFail(bool),
    ApprovalFail(bool),
    TransferFail(bool),
    TransferPanic(bool),
    Reenter(Option<(String, Funds)>), // message the collection sends to the market when it moves a token
    Clear,
}

pub fn deploy_nft(c: &Chain, addr: &str, creator: &str, tokens: &[(String, String)]) {
    c.add_contract(addr, Code::Nft, Some(creator.to_string()));
    let r = c.instantiate(addr, creator, &bin(&json!({"name": "C", "symbol": "C", "minter": creator})));
    assert!(r.ok, "{}", r.err);
    c.set_nft_env(addr, NftEnv { creator: creator.to_string(), ..Default::default() });
    for (t, owner) in tokens {
        let r = c.tx(creator, addr, &bin(&json!({"mint": {"token_id": t, "owner": owner, "token_uri": null, "extension": null}})), &[], Fault::None);
        assert!(r.ok, "{}", r.err);
    }
}

pub fn nft_act(c: &Chain, who: &str, coll: &str, token: &str, market: &str, a: &NftAct) -> TxOut {
    let m = match a {
        NftAct::Transfer(to) => json!({"transfer_nft": {"recipient": acct(*to), "token_id": token}}),
        NftAct::Approve => json!({"approve": {"spender": market, "token_id": token, "expires": null}}),
        NftAct::ApproveFor(s) => {
            json!({"approve": {"spender": market, "token_id": token, "expires": {"at_time": (c.now() + s * SEC).to_string()}}})
        }
        NftAct::ApproveUser(u) => json!({"approve": {"spender": acct(*u), "token_id": token, "expires": null}}),
        NftAct::Operator(u) => json!({"approve_all": {"operator": acct(*u), "expires": null}}),
        NftAct::Revoke => json!({"revoke": {"spender": market, "token_id": token}}),
        NftAct::ApproveAll => json!({"approve_all": {"operator": market, "expires": null}}),
        NftAct::RevokeAll => json!({"revoke_all": {"operator": market}}),
        NftAct::Burn => json!({"burn": {"token_id": token}}),
    };
    c.tx(who, coll, &bin(&m), &[], Fault::None)
}

pub fn set_env(c: &Chain, coll: &str, market: &str, ch: &EnvCh) {
    let mut env = c.inner.borrow().nft_env[coll].clone();
    let e = &mut env;
    match ch {
        EnvCh::StartTrading(t) => e.start_trading_ns = *t,
        EnvCh::Royalty(r) => e.royalty = r.map(|(a, s)| (if a == 255 { "not-an-address".to_string() } else { acct(a) }, dec_str(s))),
        EnvCh::InfoFail(b) => e.info_fail = *b,
        EnvCh::OwnerFail(b) => e.owner_fail = *b,
        EnvCh::ApprovalFail(b) => e.approval_fail = *b,
        EnvCh::TransferFail(b) => e.transfer_fail = *b,
        EnvCh::TransferPanic(b) => e.transfer_panic = *b,
        EnvCh::Reenter(r) => e.reenter = r.clone().map(|(m, f)| (market.to_string(), m, coins(&f))),
        EnvCh::Clear => {
            let creator = e.creator.clone();
            let royalty = e.royalty.clone();
            *e = NftEnv { creator, royalty, ..Default::default() };
        }
    }
    c.set_nft_env(coll, env);
}

/// Choose a small change around a value.
pub fn near(r: &mut Rng, v: u128) -> u128 {
    match r.below(6) {
        0 => v.saturating_sub(1),
        1 => v + 1,
        2 => v + r.below(5) as u128,
        _ => v,
    }
}

/// The prices a run draws from; one run in six has some beyond 32 or 64 bits.
pub fn gen_prices(r: &mut Rng, n: u64) -> Vec<u128> {
    let mut v: Vec<u128> = (0..n).map(|_| *r.pick(&[1u128, 3, 7, 99, 100, 101, 1000, 3333, 123_457, 1_000_000])).collect();
    if r.pct(16) {
        let base = *r.pick(&[1u128 << 32, 1 << 64, 99_999_999_999_999, 1 << 65]);
        for x in v.iter_mut() {
            if r.pct(70) {
                *x = base + *r.pick(&[0u128, 1, 2, 100, 3333]);
            }
        }
    }
    v
}

fn version(now: &str) -> [u64; 3] {
    let mut it = now.split(['.', '-']).map(|x| x.parse().unwrap_or(0));
    [(); 3].map(|_| it.next().unwrap_or(0))
}

/// A version older than `now`.
pub fn older_version(now: &str, pick: u64) -> String {
    let [a, b, c] = version(now);
    match pick / 1_000_000_000 % 4 {
        0 if c > 0 => format!("{a}.{b}.{}", c - 1),
        0 | 1 => format!("{a}.{b}.{c}-rc.1"),
        2 if b > 0 => format!("{a}.{}.99", b - 1),
        _ => "0.0.9".into(),
    }
}

/// A version newer than `now`.
pub fn newer_version(now: &str, pick: u64) -> String {
    let [a, b, c] = version(now);
    match pick / 1_000_000_000 % 4 {
        0 => format!("{a}.{b}.{}", c + 1),
        1 => format!("{a}.{}.{c}", b + 1),
        2 => format!("{a}.{}.{c}", (b + 1) * 10),
        _ => "99.0.0".into(),
    }
}

/// A price: small odd numbers (rounding), round numbers, now and then huge.
pub fn gen_price(r: &mut Rng, prices: &[u128]) -> u128 {
    match r.below(10) {
        0 => 1 + r.below(120) as u128,
        1 => 1 + r.below(2_000_003) as u128,
        _ => *r.pick(prices),
    }
}

pub fn gen_fault(r: &mut Rng, permille: u64) -> Fault {
    if !r.permille(permille) {
        return Fault::None;
    }
    if r.pct(60) {
        Fault::Sub(r.below(1000) as u16)
    } else {
        Fault::Gas(r.below(1000) as u16)
    }
}

/// Messages waiting in simulated clients: lost, delayed, reordered or sent twice.
#[derive(Clone)]
pub struct Net<S: Clone> {
    pub pending: Vec<(S, u8)>,
    pub loss: u64,
    pub dup: u64,
    pub delay: u64,
    pub lost: u64,
}
impl<S: Clone> Net<S> {
    pub fn new(loss: u64, dup: u64, delay: u64) -> Self {
        Net { pending: vec![], loss, dup, delay, lost: 0 }
    }
    /// Feed a fresh client message in; get the message that is delivered now, if any.
    /// The tag is 0 for in-order delivery, 1 delayed/reordered, 2 duplicate.
    pub fn step(&mut self, r: &mut Rng, fresh: S) -> Option<(S, u8)> {
        if r.permille(self.loss) {
            self.lost += 1;
            return None;
        }
        if r.permille(self.dup) {
            self.pending.push((fresh.clone(), 2));
        }
        if r.permille(self.delay) {
            self.pending.push((fresh, 1));
            return None;
        }
        Some((fresh, 0))
    }
    pub fn late(&mut self, r: &mut Rng) -> Option<(S, u8)> {
        if self.pending.is_empty() || !r.pct(25) {
            return None;
        }
        let i = r.idx(self.pending.len());
        Some(self.pending.swap_remove(i))
    }
}

/// The last observation and the hash of the state it was made in.
pub struct Memo<O> {
    last: Option<(u64, O)>,
    used: u64,
}
impl<O> Default for Memo<O> {
    fn default() -> Self {
        Memo { last: None, used: 0 }
    }
}
impl<O: Clone> Memo<O> {
    pub fn get(&mut self, h: u64) -> Option<O> {
        match &self.last {
            Some((h0, o)) if *h0 == h => {
                self.used += 1;
                if self.used % 8 == 0 {
                    None
                } else {
                    Some(o.clone())
                }
            }
            _ => None,
        }
    }
    pub fn set(&mut self, h: u64, o: &O) {
        self.last = Some((h, o.clone()));
    }
}

/// "100ustars" as an event shows it.
pub fn parse_coin(s: &str) -> Option<(String, u128)> {
    let n = s.find(|c: char| !c.is_ascii_digit())?;
    Some((s[n..].to_string(), s[..n].parse().ok()?))
}
/// "1600000000.000000001" in nanoseconds.
pub fn parse_time(s: &str) -> Option<u64> {
    let (a, b) = s.split_once('.').unwrap_or((s, "0"));
    let mut f = b.to_string();
    while f.len() < 9 {
        f.push('0');
    }
    a.parse::<u64>().ok()?.checked_mul(SEC)?.checked_add(f[..9].parse().ok()?)
}

/// Who a collection names for royalties: mostly an outsider, sometimes one of the traders.
pub fn payee(r: &mut Rng) -> u8 {
    *r.pick(&[6, 6, 6, 0, 1, 2])
}

/// The thorough tier: more long histories.
pub static DEEP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Length of a history; a few are many times longer than the rest.
pub fn long(r: &mut Rng, lengths: &[u64]) -> u64 {
    let n = *r.pick(lengths);
    if r.pct(if DEEP.load(std::sync::atomic::Ordering::Relaxed) { 15 } else { 1 }) {
        n * 8
    } else {
        n
    }
}
/// Now and then a book is crowded from the start: this many tokens per collection, else 0.
pub fn crowd_size(r: &mut Rng) -> u8 {
    if r.permille(25) {
        *r.pick(&[12, 12, 35, 35, 110])
    } else {
        0
    }
}
/// When a history starts; now and then after the year 2106, when seconds no longer fit in 32 bits.
pub const START: [u64; 8] = [1_600_000_000, 1_600_000_000, 1_600_000_000, 1_700_000_000, 1_700_000_000, 1_700_000_000, 1_700_000_000, 4_400_000_000];
