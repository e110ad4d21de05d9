//! The simulated chain: one process, one thread per simulated node, everything the contracts can
//! observe (storage, block time, bank, other contracts, failures) behind seams this file owns.
//!
//! Real code: the three marketplace contracts, the fair-burn and royalty-registry contracts and
//! cw721-base. Stubs: bank, wasm dispatch, the fair-burn pool module, hook subscribers, and the
//! sg721-specific part of collections (collection info).

use cosmwasm_std::{
    from_json, to_json_binary, Addr, Api, BankMsg, BankQuery, Binary, BlockInfo, CanonicalAddr, Coin,
    ContractInfo, ContractInfoResponse, ContractResult, CosmosMsg, Deps, DepsMut, Empty, Env, Event,
    MessageInfo, Order, Querier, QuerierResult, QuerierWrapper, QueryRequest, Record, RecoverPubkeyError,
    Reply, ReplyOn, Response, StdError, StdResult, Storage, SubMsg, SubMsgResponse, SubMsgResult,
    SystemError, SystemResult, Timestamp, Uint128, VerificationError, WasmMsg, WasmQuery,
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use sg_std::{StargazeMsg, StargazeMsgWrapper};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Display;
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};

pub const NATIVE: &str = "ustars";
pub const BURN_ACC: &str = "@burned";
pub const POOL_ACC: &str = "@fairburnpool";
const MAX_DEPTH: usize = 6;

pub type Kv = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Code {
    V1,
    Ra,
    V2,
    FairBurn,
    Registry,
    Nft,
    Hook,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Meta {
    pub code: Code,
    pub admin: Option<String>,
}

/// Simulated, switchable behaviour of a collection contract (the parts cw721-base does not have,
/// and its faults).
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct NftEnv {
    pub creator: String,
    pub start_trading_ns: Option<u64>,
    pub royalty: Option<(String, String)>, // (payment address, share as decimal string)
    pub info_fail: bool,
    pub owner_fail: bool,
    pub approval_fail: bool,
    pub transfer_fail: bool,
    pub transfer_panic: bool,
    /// call made by the collection while it handles a transfer (malicious collection)
    pub reenter: Option<(String, String, Vec<Coin>)>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub enum HookMode {
    #[default]
    Ok,
    Fail,
    Panic,
    Reenter(String, String, Vec<Coin>),
}

#[derive(Clone, Debug)]
enum Undo {
    Kv(usize, Vec<u8>, Option<Vec<u8>>),
    Bank((String, String), Option<u128>),
}

#[derive(Clone)]
pub struct Inner {
    pub height: u64,
    pub time_ns: u64,
    pub bank: BTreeMap<(String, String), u128>,
    pub index: BTreeMap<String, usize>,
    pub metas: Vec<(String, Meta)>,
    pub stores: Vec<Kv>,
    pub nft_env: BTreeMap<String, NftEnv>,
    pub hook_mode: BTreeMap<String, HookMode>,
    journal: Vec<Undo>,
}

/// Everything a node keeps on disk, in a form that can be handed to another process.
#[derive(Clone, Serialize, Deserialize)]
pub struct Disk {
    height: u64,
    time_ns: u64,
    bank: Vec<(String, String, u128)>,
    metas: Vec<(String, Meta)>,
    stores: Vec<Vec<(Binary, Binary)>>,
    nft_env: BTreeMap<String, NftEnv>,
    hook_mode: BTreeMap<String, HookMode>,
}

/// One input of the chain, as agreed by consensus (or one change of the simulated surroundings).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Input {
    Deploy { addr: String, code: Code, admin: Option<String> },
    Mint { addr: String, denom: String, amount: u128 },
    Instantiate { addr: String, sender: String, msg: Binary },
    Tx { sender: String, addr: String, msg: Binary, funds: Vec<Coin>, gas: Option<u64>, sub: Option<u64> },
    Sudo { addr: String, msg: Binary, gas: Option<u64>, sub: Option<u64> },
    Migrate { addr: String, msg: Binary },
    Block { dt: u64 },
    Nft { addr: String, env: NftEnv },
    Hook { addr: String, mode: HookMode },
    Admin { addr: String, admin: Option<String> },
    Raw { addr: String, key: Binary, val: Binary },
}

/// Per-transaction bookkeeping, never part of the chain state.
#[derive(Default)]
struct TxCtx {
    ops: u64,
    ops_limit: Option<u64>,
    subs: u64,
    fail_sub: Option<u64>,
    fired_sub: Option<String>,
    /// inside a message a stub issued (its outcome is hidden by the stub, so no fault goes there)
    in_stub: u32,
    hook_calls: Vec<(String, String)>,
    events: Vec<String>,
    emitted: Vec<Emitted>,
    capture: bool,
    transfers: Vec<Transfer>,
}

/// A money movement made by contracts during a committed transaction.
#[derive(Clone, Debug, PartialEq)]
pub struct Transfer {
    pub from: String,
    pub to: String,
    pub denom: String,
    pub amount: u128,
}

pub struct Chain {
    pub inner: RefCell<Inner>,
    ctx: RefCell<TxCtx>,
    depth: Cell<usize>,
    api: SimApi,
    /// the inputs so far, when they are recorded for replicas
    log: RefCell<Option<Vec<Input>>>,
    genesis: u64,
}

/// Reply id of the messages the malicious stubs send.
const STUB_REENTER: u64 = 7_777_777;

/// Panic payload for a simulated out-of-gas / node crash.
struct OutOfGas;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Default)]
pub enum Fault {
    #[default]
    None,
    /// the node runs out of gas after this many thousandths of the transaction's operations
    Gas(u16),
    /// the sub-message at this many thousandths of the transaction's sub-messages fails
    Sub(u16),
}

#[derive(Clone, Debug, Default)]
pub struct TxOut {
    pub ok: bool,
    pub err: String,
    pub gas_abort: bool,
    /// target of the sub-message that was made to fail
    pub fired_sub: Option<String>,
    pub hook_calls: Vec<(String, String)>,
    pub events: Vec<String>,
    /// events of the contracts under test that were not rolled back, in order
    pub emitted: Vec<Emitted>,
    pub transfers: Vec<Transfer>,
    pub ops: u64,
    pub subs: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Emitted {
    pub ty: String,
    pub attrs: Vec<(String, String)>,
}
impl Emitted {
    /// The first attribute of this name.
    pub fn get(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|(a, _)| a == k).map(|(_, v)| v.as_str())
    }
}

enum Msg {
    Send(String, Vec<Coin>),
    Burn(Vec<Coin>),
    Pool(Vec<Coin>),
    Exec(String, Binary, Vec<Coin>),
    Other(String),
}

struct Sub {
    id: u64,
    msg: Msg,
    reply_on: ReplyOn,
}

struct Resp {
    subs: Vec<Sub>,
    attrs: Vec<(String, String)>,
    events: Vec<Event>,
    data: Option<Binary>,
}

enum Entry<'a> {
    Instantiate(&'a str, &'a Binary),
    Execute(&'a str, &'a Binary, &'a [Coin]),
    Reply(Reply),
    Sudo(&'a Binary),
    Migrate(&'a Binary),
}

enum Fail {
    Contract(String),
    Gas,
}

pub trait PoolMsg {
    fn into_pool(self) -> Result<Vec<Coin>, String>;
}
impl PoolMsg for StargazeMsgWrapper {
    fn into_pool(self) -> Result<Vec<Coin>, String> {
        match self.msg_data {
            StargazeMsg::FundFairburnPool { amount } | StargazeMsg::FundCommunityPool { amount } => Ok(amount),
            _ => Err("unsupported custom message".into()),
        }
    }
}
impl PoolMsg for Empty {
    fn into_pool(self) -> Result<Vec<Coin>, String> {
        Err("unsupported custom message".into())
    }
}

fn conv_msg<T: PoolMsg>(m: CosmosMsg<T>) -> Msg {
    match m {
        CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => Msg::Send(to_address, amount),
        CosmosMsg::Bank(BankMsg::Burn { amount }) => Msg::Burn(amount),
        CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => Msg::Exec(contract_addr, msg, funds),
        CosmosMsg::Custom(c) => match c.into_pool() {
            Ok(a) => Msg::Pool(a),
            Err(e) => Msg::Other(e),
        },
        _ => Msg::Other("unsupported message".into()),
    }
}

fn conv<T: PoolMsg, E: Display>(r: Result<Response<T>, E>) -> Result<Resp, String> {
    let r = r.map_err(|e| e.to_string())?;
    Ok(Resp {
        subs: r
            .messages
            .into_iter()
            .map(|s: SubMsg<T>| Sub { id: s.id, reply_on: s.reply_on, msg: conv_msg(s.msg) })
            .collect(),
        attrs: r.attributes.into_iter().map(|a| (a.key, a.value)).collect(),
        events: r.events,
        data: r.data,
    })
}

// ------------------------------------------------------------------ seams given to the contracts

#[derive(Clone, Copy)]
pub struct SimApi;

impl Api for SimApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        if human.starts_with("stars1")
            && human.len() >= 20
            && human.len() <= 90
            && human.bytes().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit())
        {
            Ok(Addr::unchecked(human))
        } else {
            Err(StdError::generic_err(format!("invalid address {human}")))
        }
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        self.addr_validate(human)?;
        Ok(CanonicalAddr::from(human.as_bytes().to_vec()))
    }
    fn addr_humanize(&self, canonical: &CanonicalAddr) -> StdResult<Addr> {
        let s = String::from_utf8(canonical.to_vec()).map_err(|_| StdError::generic_err("bad canonical"))?;
        self.addr_validate(&s)
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        Ok(false)
    }
    fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        Err(RecoverPubkeyError::unknown_err(0))
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        Ok(false)
    }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> {
        Ok(false)
    }
    fn debug(&self, _: &str) {}
}

struct SimStorage<'a> {
    chain: &'a Chain,
    idx: usize,
}

impl<'a> SimStorage<'a> {
    fn tick(&self, n: u64) {
        self.chain.tick(n)
    }
}

impl<'a> Storage for SimStorage<'a> {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.tick(1);
        self.chain.inner.borrow().stores[self.idx].get(key).cloned()
    }
    fn range<'b>(
        &'b self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'b> {
        use std::ops::Bound;
        if let (Some(s), Some(e)) = (start, end) {
            if s >= e {
                return Box::new(std::iter::empty());
            }
        }
        let lo = start.map_or(Bound::Unbounded, |s| Bound::Included(s.to_vec()));
        let hi = end.map_or(Bound::Unbounded, |s| Bound::Excluded(s.to_vec()));
        let mut v: Vec<Record> = self.chain.inner.borrow().stores[self.idx]
            .range((lo, hi))
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect();
        if order == Order::Descending {
            v.reverse();
        }
        self.tick(1);
        Box::new(v.into_iter())
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        self.tick(1);
        assert!(!value.is_empty(), "empty value stored");
        let mut inn = self.chain.inner.borrow_mut();
        let old = inn.stores[self.idx].insert(key.to_vec(), value.to_vec());
        let idx = self.idx;
        inn.journal.push(Undo::Kv(idx, key.to_vec(), old));
    }
    fn remove(&mut self, key: &[u8]) {
        self.tick(1);
        let mut inn = self.chain.inner.borrow_mut();
        let old = inn.stores[self.idx].remove(key);
        let idx = self.idx;
        if old.is_some() {
            inn.journal.push(Undo::Kv(idx, key.to_vec(), old));
        }
    }
}

struct SimQuerier<'a> {
    chain: &'a Chain,
}

impl<'a> Querier for SimQuerier<'a> {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<Empty> = match from_json(bin) {
            Ok(r) => r,
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest {
                    error: e.to_string(),
                    request: bin.into(),
                })
            }
        };
        match req {
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => {
                if self.chain.idx(&contract_addr).is_none() {
                    return SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr });
                }
                match self.chain.query_raw(&contract_addr, &msg) {
                    Ok(b) => SystemResult::Ok(ContractResult::Ok(b)),
                    Err(e) => SystemResult::Ok(ContractResult::Err(e)),
                }
            }
            QueryRequest::Wasm(WasmQuery::Raw { contract_addr, key }) => match self.chain.idx(&contract_addr) {
                None => SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }),
                Some(i) => {
                    let v = self.chain.inner.borrow().stores[i].get(key.as_slice()).cloned().unwrap_or_default();
                    SystemResult::Ok(ContractResult::Ok(v.into()))
                }
            },
            QueryRequest::Wasm(WasmQuery::ContractInfo { contract_addr }) => match self.chain.idx(&contract_addr) {
                None => SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }),
                Some(i) => {
                    let mut r = ContractInfoResponse::default();
                    r.code_id = 1;
                    r.creator = user("deployer");
                    r.admin = self.chain.inner.borrow().metas[i].1.admin.clone();
                    SystemResult::Ok(ContractResult::Ok(to_json_binary(&r).unwrap()))
                }
            },
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let amount = self.chain.balance(&address, &denom);
                SystemResult::Ok(ContractResult::Ok(
                    to_json_binary(&serde_json::json!({"amount": {"denom": denom, "amount": amount.to_string()}})).unwrap(),
                ))
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let v: Vec<Coin> = self.chain.all_balances(&address);
                SystemResult::Ok(ContractResult::Ok(
                    to_json_binary(&serde_json::json!({ "amount": v })).unwrap(),
                ))
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest { kind: "query".into() }),
        }
    }
}

fn padded(width: usize, name: &str) -> String {
    const ZEROS: &str = "stars10000000000000000000000000000000000000000000000000000000000";
    let mut s = String::with_capacity(6 + width);
    s.push_str(&ZEROS[..6 + width - name.len().min(width)]);
    s.push_str(name);
    s
}
/// A user address (44 characters, like a real account).
pub fn user(name: &str) -> String {
    padded(38, name)
}
/// A contract address (64 characters, like a real contract).
pub fn contract(name: &str) -> String {
    padded(58, name)
}

thread_local! { static RECORD: Cell<bool> = const { Cell::new(false) }; }
thread_local! { static IN_CONTRACT: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
/// Catch panics of contract code (as the wasm VM does), without printing them.
fn guarded<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    IN_CONTRACT.with(|d| d.set(d.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CONTRACT.with(|d| d.set(d.get() - 1));
    r
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        if IN_CONTRACT.with(|d| d.get()) == 0 || std::env::var("MKTSIM_PANIC").is_ok() {
            eprintln!("panic: {info}");
        }
    }));
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        format!("panic: {s}")
    } else if let Some(s) = p.downcast_ref::<String>() {
        format!("panic: {s}")
    } else {
        "panic".into()
    }
}

pub fn fnv(h: &mut u64, b: &[u8]) {
    for x in b {
        *h ^= *x as u64;
        *h = h.wrapping_mul(0x100000001b3);
    }
    *h ^= 0xff;
    *h = h.wrapping_mul(0x100000001b3);
}
pub const FNV0: u64 = 0xcbf29ce484222325;

impl Chain {
    pub fn new(time_ns: u64) -> Self {
        Chain {
            inner: RefCell::new(Inner {
                height: 1,
                time_ns,
                bank: BTreeMap::new(),
                index: BTreeMap::new(),
                metas: vec![],
                stores: vec![],
                nft_env: BTreeMap::new(),
                hook_mode: BTreeMap::new(),
                journal: vec![],
            }),
            ctx: RefCell::new(TxCtx::default()),
            depth: Cell::new(0),
            api: SimApi,
            log: RefCell::new(RECORD.with(|r| r.get()).then(Vec::new)),
            genesis: time_ns,
        }
    }

    /// A node started from what is on disk.
    pub fn restore(d: &Disk) -> Self {
        let c = Chain::new(d.time_ns);
        {
            let mut i = c.inner.borrow_mut();
            i.height = d.height;
            i.bank = d.bank.iter().map(|(a, b, c)| ((a.clone(), b.clone()), *c)).collect();
            i.metas = d.metas.clone();
            i.index = d.metas.iter().enumerate().map(|(n, m)| (m.0.clone(), n)).collect();
            i.stores = d.stores.iter().map(|s| s.iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect()).collect();
            i.nft_env = d.nft_env.clone();
            i.hook_mode = d.hook_mode.clone();
        }
        c
    }
    pub fn disk(&self) -> Disk {
        let i = self.inner.borrow();
        Disk {
            height: i.height,
            time_ns: i.time_ns,
            bank: i.bank.iter().map(|((a, b), c)| (a.clone(), b.clone(), *c)).collect(),
            metas: i.metas.clone(),
            stores: i.stores.iter().map(|s| s.iter().map(|(k, v)| (k.clone().into(), v.clone().into())).collect()).collect(),
            nft_env: i.nft_env.clone(),
            hook_mode: i.hook_mode.clone(),
        }
    }
    /// Chains created by this thread from now on record their inputs.
    pub fn record(on: bool) {
        RECORD.with(|r| r.set(on));
    }
    pub fn inputs(&self) -> Vec<Input> {
        self.log.borrow().clone().unwrap_or_default()
    }
    fn push(&self, i: impl FnOnce() -> Input) {
        if let Some(l) = self.log.borrow_mut().as_mut() {
            l.push(i());
        }
    }
    pub fn set_nft_env(&self, addr: &str, env: NftEnv) {
        self.push(|| Input::Nft { addr: addr.into(), env: env.clone() });
        self.inner.borrow_mut().nft_env.insert(addr.into(), env);
    }
    pub fn set_hook_mode(&self, addr: &str, mode: HookMode) {
        self.push(|| Input::Hook { addr: addr.into(), mode: mode.clone() });
        self.inner.borrow_mut().hook_mode.insert(addr.into(), mode);
    }
    pub fn set_admin(&self, addr: &str, admin: Option<String>) {
        self.push(|| Input::Admin { addr: addr.into(), admin: admin.clone() });
        let mut i = self.inner.borrow_mut();
        let n = i.index[addr];
        i.metas[n].1.admin = admin;
    }
    /// Feed one agreed input to this node; returns everything consensus covers.
    pub fn feed(&self, x: &Input) -> String {
        self.ctx.borrow_mut().capture = true;
        let out = match x {
            Input::Deploy { addr, code, admin } => {
                self.add_contract(addr, *code, admin.clone());
                None
            }
            Input::Mint { addr, denom, amount } => {
                self.mint(addr, denom, *amount);
                None
            }
            Input::Instantiate { addr, sender, msg } => Some(self.instantiate(addr, sender, msg)),
            Input::Tx { sender, addr, msg, funds, gas, sub } => Some(self.top(true, *gas, *sub, || self.exec(sender, addr, msg, funds).map(|r| self.done(r)))),
            Input::Sudo { addr, msg, gas, sub } => Some(self.top(true, *gas, *sub, || {
                let r = self.entry(addr, Entry::Sudo(msg))?;
                self.process(addr, r).map(|r| self.done(r))
            })),
            Input::Migrate { addr, msg } => Some(self.migrate(addr, msg)),
            Input::Block { dt } => {
                self.next_block(*dt);
                None
            }
            Input::Nft { addr, env } => {
                self.set_nft_env(addr, env.clone());
                None
            }
            Input::Hook { addr, mode } => {
                self.set_hook_mode(addr, mode.clone());
                None
            }
            Input::Admin { addr, admin } => {
                self.set_admin(addr, admin.clone());
                None
            }
            Input::Raw { addr, key, val } => {
                self.raw_set(addr, key, val);
                None
            }
        };
        // error texts are not part of what nodes agree on, gas is
        match out {
            Some(o) => format!("ok={} gas={} oog={} events={:?} hooks={:?} transfers={:?}", o.ok, o.ops, o.gas_abort, if o.ok { o.events } else { vec![] }, if o.ok { o.hook_calls } else { vec![] }, o.transfers),
            None => String::new(),
        }
    }
    fn done(&self, r: (Vec<Event>, Option<Binary>)) {
        self.capture(|| format!("data {:?}", r.1));
    }
    /// Start this input and stop after `ops` storage and call operations, as a crashing node does.
    pub fn crash_in(&self, x: &Input, ops: u64) -> bool {
        match x {
            Input::Tx { sender, addr, msg, funds, .. } => self.top(false, Some(ops), None, || self.exec(sender, addr, msg, funds).map(|_| ())).gas_abort,
            Input::Sudo { addr, msg, .. } => self.top(false, Some(ops), None, || {
                let r = self.entry(addr, Entry::Sudo(msg))?;
                self.process(addr, r).map(|_| ())
            }).gas_abort,
            _ => false,
        }
    }
    pub fn contracts(&self) -> Vec<(String, Code)> {
        self.inner.borrow().metas.iter().map(|(a, m)| (a.clone(), m.code)).collect()
    }

    /// Hash of all that is stored anywhere: balances and contract storage, not the block.
    pub fn content_hash(&self) -> u64 {
        let i = self.inner.borrow();
        let mut h = FNV0;
        for ((a, d), v) in &i.bank {
            fnv(&mut h, a.as_bytes());
            fnv(&mut h, d.as_bytes());
            fnv(&mut h, &v.to_le_bytes());
        }
        for (n, s) in i.stores.iter().enumerate() {
            fnv(&mut h, &(n as u64).to_le_bytes());
            for (k, v) in s {
                fnv(&mut h, k);
                fnv(&mut h, v);
            }
        }
        h
    }

    pub fn state_hash(&self) -> u64 {
        let i = self.inner.borrow();
        let mut h = FNV0;
        fnv(&mut h, &i.height.to_le_bytes());
        fnv(&mut h, &i.time_ns.to_le_bytes());
        for ((a, d), v) in &i.bank {
            if *v == 0 {
                continue;
            }
            fnv(&mut h, a.as_bytes());
            fnv(&mut h, d.as_bytes());
            fnv(&mut h, &v.to_le_bytes());
        }
        for (n, s) in i.stores.iter().enumerate() {
            fnv(&mut h, &(n as u64).to_le_bytes());
            for (k, v) in s {
                fnv(&mut h, k);
                fnv(&mut h, v);
            }
        }
        h
    }
    /// Hash of one contract's storage (state coverage measure).
    pub fn store_hash(&self, addr: &str) -> u64 {
        let i = self.inner.borrow();
        let mut h = FNV0;
        if let Some(n) = i.index.get(addr) {
            for (k, v) in &i.stores[*n] {
                fnv(&mut h, k);
                fnv(&mut h, v);
            }
        }
        h
    }
    pub fn kv(&self, addr: &str) -> Kv {
        let i = self.inner.borrow();
        i.stores[i.index[addr]].clone()
    }
    /// Overwrite one raw storage entry (used only to simulate an older stored contract version).
    pub fn raw_set(&self, addr: &str, key: &[u8], val: &[u8]) {
        self.push(|| Input::Raw { addr: addr.into(), key: key.into(), val: val.into() });
        let mut i = self.inner.borrow_mut();
        let n = i.index[addr];
        i.stores[n].insert(key.to_vec(), val.to_vec());
    }

    pub fn genesis_ns(&self) -> u64 {
        self.genesis
    }
    pub fn now(&self) -> u64 {
        self.inner.borrow().time_ns
    }
    pub fn height(&self) -> u64 {
        self.inner.borrow().height
    }
    pub fn next_block(&self, dt_ns: u64) {
        self.push(|| Input::Block { dt: dt_ns });
        let mut i = self.inner.borrow_mut();
        i.height += 1;
        i.time_ns = i.time_ns.saturating_add(dt_ns);
    }

    fn tick(&self, n: u64) {
        let hit = {
            let mut c = self.ctx.borrow_mut();
            c.ops += n;
            matches!(c.ops_limit, Some(l) if c.ops > l)
        };
        if hit {
            panic_any(OutOfGas);
        }
    }

    fn idx(&self, addr: &str) -> Option<usize> {
        self.inner.borrow().index.get(addr).copied()
    }

    pub fn add_contract(&self, addr: &str, code: Code, admin: Option<String>) {
        self.push(|| Input::Deploy { addr: addr.into(), code, admin: admin.clone() });
        let mut i = self.inner.borrow_mut();
        let n = i.metas.len();
        i.metas.push((addr.to_string(), Meta { code, admin }));
        i.stores.push(Kv::new());
        i.index.insert(addr.to_string(), n);
        match code {
            Code::Nft => {
                i.nft_env.insert(addr.to_string(), NftEnv::default());
            }
            Code::Hook => {
                i.hook_mode.insert(addr.to_string(), HookMode::Ok);
            }
            _ => {}
        }
    }

    // ---------------------------------------------------------------- bank
    pub fn balance(&self, addr: &str, denom: &str) -> u128 {
        self.inner.borrow().bank.get(&(addr.to_string(), denom.to_string())).copied().unwrap_or(0)
    }
    pub fn all_balances(&self, addr: &str) -> Vec<Coin> {
        self.inner
            .borrow()
            .bank
            .range((addr.to_string(), String::new())..)
            .take_while(|((a, _), _)| a == addr)
            .filter(|(_, v)| **v > 0)
            .map(|((_, d), v)| Coin { denom: d.clone(), amount: Uint128::new(*v) })
            .collect()
    }
    pub fn mint(&self, addr: &str, denom: &str, amount: u128) {
        self.push(|| Input::Mint { addr: addr.into(), denom: denom.into(), amount });
        *self.inner.borrow_mut().bank.entry((addr.to_string(), denom.to_string())).or_insert(0) += amount;
    }
    fn bank_set(&self, addr: &str, denom: &str, v: u128) {
        let mut i = self.inner.borrow_mut();
        let k = (addr.to_string(), denom.to_string());
        let old = i.bank.insert(k.clone(), v);
        i.journal.push(Undo::Bank(k, old));
    }
    fn mv(&self, from: &str, to: &str, coins: &[Coin], allow_empty: bool) -> Result<(), String> {
        let coins: Vec<&Coin> = coins.iter().filter(|c| !c.amount.is_zero()).collect();
        if coins.is_empty() && !allow_empty {
            return Err("invalid coins: empty amount".into());
        }
        for c in coins {
            let a = c.amount.u128();
            let b = self.balance(from, &c.denom);
            if b < a {
                return Err(format!("insufficient funds: {} has {}{}, needs {}", from, b, c.denom, a));
            }
            self.bank_set(from, &c.denom, b - a);
            let t = self.balance(to, &c.denom);
            self.bank_set(to, &c.denom, t + a);
            self.ctx.borrow_mut().transfers.push(Transfer {
                from: from.into(),
                to: to.into(),
                denom: c.denom.clone(),
                amount: a,
            });
        }
        Ok(())
    }

    // ---------------------------------------------------------------- journal
    fn mark(&self) -> (usize, usize) {
        (self.inner.borrow().journal.len(), self.ctx.borrow().transfers.len())
    }
    fn rollback(&self, m: (usize, usize)) {
        let mut i = self.inner.borrow_mut();
        while i.journal.len() > m.0 {
            match i.journal.pop().unwrap() {
                Undo::Kv(n, k, Some(v)) => {
                    i.stores[n].insert(k, v);
                }
                Undo::Kv(n, k, None) => {
                    i.stores[n].remove(&k);
                }
                Undo::Bank(k, Some(v)) => {
                    i.bank.insert(k, v);
                }
                Undo::Bank(k, None) => {
                    i.bank.remove(&k);
                }
            }
        }
        self.ctx.borrow_mut().transfers.truncate(m.1);
    }

    // ---------------------------------------------------------------- execution
    fn env(&self, addr: &str) -> Env {
        let i = self.inner.borrow();
        Env {
            block: BlockInfo {
                height: i.height,
                time: Timestamp::from_nanos(i.time_ns),
                chain_id: "stargaze-sim-1".into(),
            },
            transaction: None,
            contract: ContractInfo { address: Addr::unchecked(addr) },
        }
    }

    /// Run one entry point of one contract, isolating panics (as the wasm VM does).
    fn entry(&self, addr: &str, e: Entry) -> Result<Resp, Fail> {
        let idx = match self.idx(addr) {
            Some(i) => i,
            None => return Err(Fail::Contract(format!("no such contract: {addr}"))),
        };
        let code = self.inner.borrow().metas[idx].1.code;
        let r = guarded(|| {
            self.tick(1);
            self.dispatch(addr, idx, code, e)
        });
        match r {
            Ok(Ok(r)) => Ok(r),
            Ok(Err(e)) => Err(Fail::Contract(e)),
            Err(p) => {
                if p.is::<OutOfGas>() {
                    Err(Fail::Gas)
                } else {
                    Err(Fail::Contract(panic_text(p)))
                }
            }
        }
    }

    fn dispatch(&self, addr: &str, idx: usize, code: Code, e: Entry) -> Result<Resp, String> {
        let env = self.env(addr);
        let mut storage = SimStorage { chain: self, idx };
        let querier = SimQuerier { chain: self };
        let deps = DepsMut { storage: &mut storage, api: &self.api, querier: QuerierWrapper::new(&querier) };
        fn parse<T: DeserializeOwned>(b: &Binary) -> Result<T, String> {
            from_json(b).map_err(|e| format!("bad message: {e}"))
        }
        let info = |s: &str, f: &[Coin]| MessageInfo { sender: Addr::unchecked(s), funds: f.to_vec() };
        match (code, e) {
            (Code::V1, Entry::Instantiate(s, m)) => conv(sg_marketplace::execute::instantiate(deps, env, info(s, &[]), parse(m)?)),
            (Code::V1, Entry::Execute(s, m, f)) => conv(sg_marketplace::execute::execute(deps, env, info(s, f), parse(m)?)),
            (Code::V1, Entry::Reply(r)) => conv(sg_marketplace::execute::reply(deps, env, r)),
            (Code::V1, Entry::Sudo(m)) => conv(sg_marketplace::sudo::sudo(deps, env, parse(m)?)),
            (Code::V1, Entry::Migrate(m)) => conv(sg_marketplace::execute::migrate(deps, env, parse(m)?)),
            (Code::Ra, Entry::Instantiate(s, m)) => conv(stargaze_reserve_auction::instantiate::instantiate(deps, env, info(s, &[]), parse(m)?)),
            (Code::Ra, Entry::Execute(s, m, f)) => conv(stargaze_reserve_auction::execute::execute(deps, env, info(s, f), parse(m)?)),
            (Code::Ra, Entry::Sudo(m)) => conv(stargaze_reserve_auction::sudo::sudo(deps, env, parse(m)?)),
            (Code::Ra, Entry::Migrate(m)) => conv(stargaze_reserve_auction::migrate::migrate(deps, env, parse(m)?)),
            (Code::V2, Entry::Instantiate(s, m)) => conv(stargaze_marketplace_v2::instantiate::instantiate(deps, env, info(s, &[]), parse(m)?)),
            (Code::V2, Entry::Execute(s, m, f)) => conv(stargaze_marketplace_v2::execute::execute(deps, env, info(s, f), parse(m)?)),
            (Code::V2, Entry::Migrate(m)) => conv(stargaze_marketplace_v2::migrate::migrate(deps, env, parse(m)?)),
            (Code::FairBurn, Entry::Instantiate(s, m)) => conv(stargaze_fair_burn::contract::instantiate(deps, env, info(s, &[]), parse(m)?)),
            (Code::FairBurn, Entry::Execute(s, m, f)) => conv(stargaze_fair_burn::contract::execute(deps, env, info(s, f), parse(m)?)),
            (Code::Registry, Entry::Instantiate(s, m)) => conv(stargaze_royalty_registry::instantiate::instantiate(deps, env, info(s, &[]), parse(m)?)),
            (Code::Registry, Entry::Execute(s, m, f)) => conv(stargaze_royalty_registry::execute::execute(deps, env, info(s, f), parse(m)?)),
            (Code::Nft, Entry::Instantiate(s, m)) => conv(cw721_base::entry::instantiate(deps, env, info(s, &[]), parse(m)?)),
            (Code::Nft, Entry::Execute(s, m, f)) => {
                let ne = self.inner.borrow().nft_env[addr].clone();
                let msg: cw721_base::ExecuteMsg<Option<Empty>, Empty> = parse(m)?;
                let is_transfer = matches!(
                    msg,
                    cw721_base::ExecuteMsg::TransferNft { .. } | cw721_base::ExecuteMsg::SendNft { .. }
                );
                if is_transfer && ne.transfer_panic {
                    panic!("collection panics on transfer");
                }
                if is_transfer && ne.transfer_fail {
                    return Err("collection refuses transfer".into());
                }
                let r = cw721_base::entry::execute(deps, env, info(s, f), msg);
                let mut r = conv(r)?;
                if is_transfer {
                    if let Some((target, m, f)) = ne.reenter {
                        r.subs.push(Sub {
                            id: STUB_REENTER,
                            // a malicious collection hides its failed attempts
                            reply_on: ReplyOn::Error,
                            msg: Msg::Exec(target, Binary::from(m.into_bytes()), f),
                        });
                    }
                }
                Ok(r)
            }
            (Code::Nft, Entry::Reply(_)) => Ok(Resp { subs: vec![], attrs: vec![], events: vec![], data: None }),
            (Code::Hook, Entry::Execute(_, m, _)) => {
                self.ctx.borrow_mut().hook_calls.push((addr.to_string(), String::from_utf8_lossy(m).to_string()));
                let mode = self.inner.borrow().hook_mode[addr].clone();
                match mode {
                    HookMode::Ok => Ok(Resp { subs: vec![], attrs: vec![], events: vec![], data: None }),
                    HookMode::Fail => Err("hook fails".into()),
                    HookMode::Panic => panic!("hook panics"),
                    HookMode::Reenter(target, m, f) => Ok(Resp {
                        subs: vec![Sub {
                            id: STUB_REENTER,
                            reply_on: ReplyOn::Error,
                            msg: Msg::Exec(target, Binary::from(m.into_bytes()), f),
                        }],
                        attrs: vec![],
                        events: vec![],
                        data: None,
                    }),
                }
            }
            (Code::Hook, Entry::Reply(_)) => Ok(Resp { subs: vec![], attrs: vec![], events: vec![], data: None }),
            _ => Err("entry point not supported".into()),
        }
    }

    fn capture(&self, s: impl FnOnce() -> String) {
        if self.ctx.borrow().capture {
            let s = s();
            self.ctx.borrow_mut().events.push(s);
        }
    }

    fn process(&self, addr: &str, r: Resp) -> Result<(Vec<Event>, Option<Binary>), Fail> {
        let mut events: Vec<Event> = vec![];
        let tested = self.idx(addr).map_or(false, |i| matches!(self.inner.borrow().metas[i].1.code, Code::V1 | Code::V2 | Code::Ra));
        if !r.attrs.is_empty() {
            self.capture(|| format!("wasm {} {:?}", addr, r.attrs));
            if tested {
                self.ctx.borrow_mut().emitted.push(Emitted { ty: "wasm".into(), attrs: r.attrs.clone() });
            }
        }
        for e in &r.events {
            self.capture(|| format!("{} {} {:?}", e.ty, addr, e.attributes));
            if tested {
                self.ctx.borrow_mut().emitted.push(Emitted { ty: e.ty.clone(), attrs: e.attributes.iter().map(|a| (a.key.clone(), a.value.clone())).collect() });
            }
        }
        events.extend(r.events);
        let mut data = r.data;
        for s in r.subs {
            let m = self.mark();
            let told = self.ctx.borrow().emitted.len();
            let stub = s.id == STUB_REENTER && s.reply_on == ReplyOn::Error;
            let inject = {
                let mut c = self.ctx.borrow_mut();
                if stub {
                    c.in_stub += 1;
                }
                if c.in_stub > 0 {
                    false
                } else {
                    c.subs += 1;
                    c.fail_sub == Some(c.subs - 1)
                }
            };
            let res = if inject {
                let t = match &s.msg {
                    Msg::Send(..) => "send".to_string(),
                    Msg::Burn(..) => "burn".to_string(),
                    Msg::Pool(..) => "pool".to_string(),
                    Msg::Exec(a, ..) => {
                        let code = self.idx(a).map(|i| self.inner.borrow().metas[i].1.code);
                        format!("{code:?}@{a}")
                    }
                    Msg::Other(_) => "other".to_string(),
                };
                self.ctx.borrow_mut().fired_sub = Some(t);
                Err(Fail::Contract("injected sub-message failure".into()))
            } else {
                self.run_msg(addr, &s.msg)
            };
            if stub {
                self.ctx.borrow_mut().in_stub -= 1;
            }
            match res {
                Ok((ev, d)) => {
                    if matches!(s.reply_on, ReplyOn::Always | ReplyOn::Success) {
                        let reply = Reply {
                            id: s.id,
                            result: SubMsgResult::Ok(SubMsgResponse { events: ev.clone(), data: d }),
                        };
                        let rr = self.entry(addr, Entry::Reply(reply))?;
                        let (ev2, d2) = self.process(addr, rr)?;
                        events.extend(ev2);
                        if d2.is_some() {
                            data = d2;
                        }
                    }
                    events.extend(ev);
                }
                Err(Fail::Gas) => return Err(Fail::Gas),
                Err(Fail::Contract(e)) => {
                    self.rollback(m);
                    self.ctx.borrow_mut().emitted.truncate(told);
                    if matches!(s.reply_on, ReplyOn::Always | ReplyOn::Error) {
                        let reply = Reply { id: s.id, result: SubMsgResult::Err(e) };
                        let rr = self.entry(addr, Entry::Reply(reply))?;
                        let (ev2, d2) = self.process(addr, rr)?;
                        events.extend(ev2);
                        if d2.is_some() {
                            data = d2;
                        }
                    } else {
                        return Err(Fail::Contract(e));
                    }
                }
            }
        }
        Ok((events, data))
    }

    fn run_msg(&self, from: &str, m: &Msg) -> Result<(Vec<Event>, Option<Binary>), Fail> {
        match guarded(|| self.tick(1)) {
            Ok(()) => {}
            Err(_) => return Err(Fail::Gas),
        }
        match m {
            Msg::Send(to, coins) => {
                if self.api.addr_validate(to).is_err() {
                    return Err(Fail::Contract("invalid recipient".into()));
                }
                self.mv(from, to, coins, false).map_err(Fail::Contract)?;
                self.capture(|| format!("transfer {from} {to} {coins:?}"));
                Ok((vec![], None))
            }
            Msg::Burn(coins) => {
                self.mv(from, BURN_ACC, coins, true).map_err(Fail::Contract)?;
                self.capture(|| format!("burn {from} {coins:?}"));
                Ok((vec![], None))
            }
            Msg::Pool(coins) => {
                self.mv(from, POOL_ACC, coins, true).map_err(Fail::Contract)?;
                self.capture(|| format!("pool {from} {coins:?}"));
                Ok((vec![], None))
            }
            Msg::Exec(addr, msg, funds) => self.exec(from, addr, msg, funds),
            Msg::Other(e) => Err(Fail::Contract(e.clone())),
        }
    }

    fn exec(&self, sender: &str, addr: &str, msg: &Binary, funds: &[Coin]) -> Result<(Vec<Event>, Option<Binary>), Fail> {
        if self.depth.get() >= MAX_DEPTH {
            return Err(Fail::Contract("max call depth".into()));
        }
        self.depth.set(self.depth.get() + 1);
        let r = (|| {
            let funds: Vec<Coin> = funds.iter().filter(|c| !c.amount.is_zero()).cloned().collect();
            self.mv(sender, addr, &funds, true).map_err(Fail::Contract)?;
            self.capture(|| format!("execute {sender} {addr}"));
            let r = self.entry(addr, Entry::Execute(sender, msg, &funds))?;
            self.process(addr, r)
        })();
        self.depth.set(self.depth.get() - 1);
        r
    }

    fn top<F: FnOnce() -> Result<(), Fail>>(&self, commit: bool, gas: Option<u64>, sub: Option<u64>, f: F) -> TxOut {
        {
            let mut c = self.ctx.borrow_mut();
            let capture = c.capture;
            *c = TxCtx { capture, ops_limit: gas, fail_sub: sub, ..Default::default() };
        }
        self.depth.set(0);
        self.inner.borrow_mut().journal.clear();
        let r = f();
        let ok = r.is_ok() && commit;
        if !ok {
            self.rollback((0, 0));
        }
        self.inner.borrow_mut().journal.clear();
        let mut c = self.ctx.borrow_mut();
        c.ops_limit = None;
        c.fail_sub = None;
        let (err, gas_abort) = match &r {
            Ok(()) => (String::new(), false),
            Err(Fail::Gas) => ("out of gas".to_string(), true),
            Err(Fail::Contract(e)) => (e.clone(), false),
        };
        TxOut {
            ok: r.is_ok(),
            err,
            gas_abort,
            fired_sub: c.fired_sub.clone(),
            hook_calls: std::mem::take(&mut c.hook_calls),
            events: std::mem::take(&mut c.events),
            emitted: std::mem::take(&mut c.emitted),
            transfers: std::mem::take(&mut c.transfers),
            ops: c.ops,
            subs: c.subs,
        }
    }

    fn faulted<F: Fn() -> Result<(), Fail>>(&self, fault: Fault, input: impl Fn(Option<u64>, Option<u64>) -> Input, f: F) -> TxOut {
        match fault {
            Fault::None => {
                self.push(|| input(None, None));
                self.top(true, None, None, &f)
            }
            Fault::Gas(k) => {
                let sim = self.top(false, None, None, &f);
                let lim = (sim.ops * k as u64) / 1000;
                self.push(|| input(Some(lim), None));
                self.top(true, Some(lim), None, &f)
            }
            Fault::Sub(k) => {
                let sim = self.top(false, None, None, &f);
                if sim.subs == 0 {
                    self.push(|| input(None, None));
                    return self.top(true, None, None, &f);
                }
                let n = ((sim.subs * k as u64) / 1000).min(sim.subs - 1);
                self.push(|| input(None, Some(n)));
                self.top(true, None, Some(n), &f)
            }
        }
    }

    pub fn tx(&self, sender: &str, addr: &str, msg: &Binary, funds: &[Coin], fault: Fault) -> TxOut {
        self.faulted(fault, |gas, sub| Input::Tx { sender: sender.into(), addr: addr.into(), msg: msg.clone(), funds: funds.to_vec(), gas, sub }, || self.exec(sender, addr, msg, funds).map(|_| ()))
    }
    /// Run a transaction and throw its effects away (what a node does for a gas estimate).
    pub fn simulate(&self, sender: &str, addr: &str, msg: &Binary, funds: &[Coin]) -> TxOut {
        self.top(false, None, None, || self.exec(sender, addr, msg, funds).map(|_| ()))
    }
    pub fn sudo(&self, addr: &str, msg: &Binary, fault: Fault) -> TxOut {
        self.faulted(fault, |gas, sub| Input::Sudo { addr: addr.into(), msg: msg.clone(), gas, sub }, || {
            let r = self.entry(addr, Entry::Sudo(msg))?;
            self.process(addr, r).map(|_| ())
        })
    }
    pub fn migrate(&self, addr: &str, msg: &Binary) -> TxOut {
        self.faulted(Fault::None, |_, _| Input::Migrate { addr: addr.into(), msg: msg.clone() }, || {
            let r = self.entry(addr, Entry::Migrate(msg))?;
            self.process(addr, r).map(|_| ())
        })
    }
    pub fn instantiate(&self, addr: &str, sender: &str, msg: &Binary) -> TxOut {
        self.faulted(Fault::None, |_, _| Input::Instantiate { addr: addr.into(), sender: sender.into(), msg: msg.clone() }, || {
            let r = self.entry(addr, Entry::Instantiate(sender, msg))?;
            self.process(addr, r).map(|_| ())
        })
    }

    // ---------------------------------------------------------------- queries
    pub fn query_raw(&self, addr: &str, msg: &Binary) -> Result<Binary, String> {
        let idx = self.idx(addr).ok_or_else(|| format!("no such contract {addr}"))?;
        let code = self.inner.borrow().metas[idx].1.code;
        let r = guarded(|| {
            self.tick(1);
            self.dispatch_query(addr, idx, code, msg)
        });
        match r {
            Ok(r) => r,
            Err(p) => {
                if p.is::<OutOfGas>() {
                    resume_unwind(p)
                }
                Err(panic_text(p))
            }
        }
    }

    fn dispatch_query(&self, addr: &str, idx: usize, code: Code, msg: &Binary) -> Result<Binary, String> {
        let env = self.env(addr);
        let storage = SimStorage { chain: self, idx };
        let querier = SimQuerier { chain: self };
        let deps = Deps { storage: &storage, api: &self.api, querier: QuerierWrapper::new(&querier) };
        fn parse<T: DeserializeOwned>(b: &Binary) -> Result<T, String> {
            from_json(b).map_err(|e| format!("bad query: {e}"))
        }
        fn s<E: Display>(r: Result<Binary, E>) -> Result<Binary, String> {
            r.map_err(|e| e.to_string())
        }
        match code {
            Code::V1 => s(sg_marketplace::query::query(deps, env, parse(msg)?)),
            Code::Ra => s(stargaze_reserve_auction::query::query(deps, env, parse(msg)?)),
            Code::V2 => s(stargaze_marketplace_v2::query::query(deps, env, parse(msg)?)),
            Code::FairBurn => s(stargaze_fair_burn::contract::query(deps, env, parse(msg)?)),
            Code::Registry => s(stargaze_royalty_registry::query::query(deps, env, parse(msg)?)),
            Code::Hook => Err("no queries".into()),
            Code::Nft => {
                let ne = self.inner.borrow().nft_env[addr].clone();
                if msg.as_slice() == b"{\"collection_info\":{}}" {
                    if ne.info_fail {
                        return Err("collection info unavailable".into());
                    }
                    let royalty = ne
                        .royalty
                        .as_ref()
                        .map(|(a, s)| serde_json::json!({"payment_address": a, "share": s}));
                    let v = serde_json::json!({
                        "creator": ne.creator, "description": "d", "image": "https://example.com/i.png",
                        "external_link": null, "explicit_content": false,
                        "start_trading_time": ne.start_trading_ns.map(|n| n.to_string()),
                        "royalty_info": royalty,
                    });
                    return Ok(to_json_binary(&v).unwrap());
                }
                let q: cw721_base::QueryMsg<Empty> = parse(msg)?;
                if ne.owner_fail && matches!(q, cw721_base::QueryMsg::OwnerOf { .. }) {
                    return Err("collection unavailable".into());
                }
                if ne.approval_fail
                    && matches!(q, cw721_base::QueryMsg::Approval { .. } | cw721_base::QueryMsg::Approvals { .. })
                {
                    return Err("collection unavailable".into());
                }
                s(cw721_base::entry::query(deps, env, q))
            }
        }
    }

    pub fn query<T: DeserializeOwned>(&self, addr: &str, msg: &serde_json::Value) -> Result<T, String> {
        self.ctx.borrow_mut().ops_limit = None;
        let b = Binary::from(serde_json::to_vec(msg).unwrap());
        let r = self.query_raw(addr, &b)?;
        serde_json::from_slice(&r).map_err(|e| format!("bad response: {e}"))
    }

    // ---------------------------------------------------------------- NFT conveniences (used by the environment)
    pub fn nft_owner(&self, coll: &str, token: &str) -> Option<String> {
        // read through the real contract, ignoring simulated outages
        let saved = {
            let mut i = self.inner.borrow_mut();
            let e = i.nft_env.get_mut(coll)?;
            std::mem::replace(&mut e.owner_fail, false)
        };
        let r: Result<serde_json::Value, String> =
            self.query(coll, &serde_json::json!({"owner_of": {"token_id": token, "include_expired": true}}));
        self.inner.borrow_mut().nft_env.get_mut(coll).unwrap().owner_fail = saved;
        r.ok().and_then(|v| v["owner"].as_str().map(|s| s.to_string()))
    }
    /// Is `spender` allowed to move the token (token approval or operator)?
    pub fn nft_can_move(&self, coll: &str, token: &str, spender: &str) -> bool {
        let saved = {
            let mut i = self.inner.borrow_mut();
            let e = match i.nft_env.get_mut(coll) {
                Some(e) => e,
                None => return false,
            };
            let s = (e.owner_fail, e.approval_fail);
            e.owner_fail = false;
            e.approval_fail = false;
            s
        };
        let own: Result<serde_json::Value, String> =
            self.query(coll, &serde_json::json!({"owner_of": {"token_id": token, "include_expired": false}}));
        let res = match own {
            Err(_) => false,
            Ok(v) => {
                let owner = v["owner"].as_str().unwrap_or("").to_string();
                let appr = v["approvals"].as_array().map_or(false, |a| a.iter().any(|x| x["spender"] == spender));
                let ops: Result<serde_json::Value, String> = self.query(
                    coll,
                    &serde_json::json!({"all_operators": {"owner": owner, "include_expired": false, "limit": 100}}),
                );
                let op = ops.map_or(false, |o| {
                    o["operators"].as_array().map_or(false, |a| a.iter().any(|x| x["spender"] == spender))
                });
                owner == spender || appr || op
            }
        };
        let mut i = self.inner.borrow_mut();
        let e = i.nft_env.get_mut(coll).unwrap();
        e.owner_fail = saved.0;
        e.approval_fail = saved.1;
        res
    }
    /// Everybody the owner lets move this token, lapsed or not.
    pub fn nft_friends(&self, coll: &str, token: &str) -> Vec<String> {
        let saved = match self.inner.borrow_mut().nft_env.get_mut(coll) {
            Some(e) => std::mem::replace(&mut e.owner_fail, false),
            None => return vec![],
        };
        let own: Result<serde_json::Value, String> =
            self.query(coll, &serde_json::json!({"owner_of": {"token_id": token, "include_expired": true}}));
        self.inner.borrow_mut().nft_env.get_mut(coll).unwrap().owner_fail = saved;
        let own = own.unwrap_or_default();
        let ops: Result<serde_json::Value, String> = self.query(
            coll,
            &serde_json::json!({"all_operators": {"owner": own["owner"], "include_expired": true, "limit": 100}}),
        );
        let ops = ops.unwrap_or_default();
        let mut v: Vec<String> = vec![];
        for x in [&own["approvals"], &ops["operators"]] {
            v.extend(x.as_array().into_iter().flatten().filter_map(|a| a["spender"].as_str().map(|s| s.to_string())));
        }
        v
    }
    /// Has the spender's approval for this token run out?
    pub fn nft_lapsed(&self, coll: &str, token: &str, spender: &str) -> bool {
        let r: Result<serde_json::Value, String> = self.query(
            coll,
            &serde_json::json!({"approval": {"token_id": token, "spender": spender, "include_expired": true}}),
        );
        r.is_ok() && !self.nft_token_approved(coll, token, spender)
    }
    /// Is there a token-level approval for spender?
    pub fn nft_token_approved(&self, coll: &str, token: &str, spender: &str) -> bool {
        let saved = {
            let mut i = self.inner.borrow_mut();
            let e = i.nft_env.get_mut(coll).unwrap();
            std::mem::replace(&mut e.approval_fail, false)
        };
        let r: Result<serde_json::Value, String> = self.query(
            coll,
            &serde_json::json!({"approval": {"token_id": token, "spender": spender, "include_expired": null}}),
        );
        self.inner.borrow_mut().nft_env.get_mut(coll).unwrap().approval_fail = saved;
        r.is_ok()
    }
}
