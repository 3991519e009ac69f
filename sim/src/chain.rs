//! A deterministic, single-threaded CosmWasm chain.
//!
//! Every source of nondeterminism the contracts can see - block time and height, transaction
//! order, who sends what, what a sub-message returns, whether a transaction runs out of gas half
//! way - is an input of this module. State is journaled, so that a failed transaction (or a failed
//! sub-message with a reply handler) rolls back exactly to its savepoint, like on a real chain.
use bech32_no_std::{FromBase32, ToBase32};
use cosmwasm_std::{
    from_json, to_json_binary, Addr, AllBalanceResponse, Api, BalanceResponse, BankMsg, BankQuery,
    Binary, BlockInfo, CanonicalAddr, Coin, ContractInfo, ContractInfoResponse, ContractResult,
    CosmosMsg, Deps, DepsMut, Empty, Env, Event, MessageInfo, Order, Querier, QuerierResult,
    QuerierWrapper, QueryRequest, Record, RecoverPubkeyError, Reply, ReplyOn, Response, StdError,
    StdResult, Storage, SubMsg, SubMsgResponse, SubMsgResult, SystemError, SystemResult, Timestamp,
    TransactionInfo, Uint128, VerificationError, WasmMsg, WasmQuery,
};
use prost::Message;
use sha2::{Digest, Sha256};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub type CallResult = Result<Response, String>;

/// A contract's code: the real entry points, called natively.
#[derive(Clone, Copy)]
pub struct Code {
    pub name: &'static str,
    pub instantiate: fn(DepsMut, Env, MessageInfo, &[u8]) -> CallResult,
    pub execute: fn(DepsMut, Env, MessageInfo, &[u8]) -> CallResult,
    pub query: fn(Deps, Env, &[u8]) -> Result<Binary, String>,
    pub reply: fn(DepsMut, Env, Reply) -> CallResult,
    pub migrate: fn(DepsMut, Env, &[u8]) -> CallResult,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ContractMeta {
    pub addr: String,
    pub code_id: u64,
    pub creator: String,
    pub admin: Option<String>,
    pub label: String,
}

/// ICS-20 transfer, as the outposts contract and the ICS proxies encode it.
#[derive(Clone, PartialEq, prost::Message)]
pub struct ProtoCoin {
    #[prost(string, tag = "1")]
    pub denom: String,
    #[prost(string, tag = "2")]
    pub amount: String,
}

#[derive(Clone, PartialEq, prost::Message)]
pub struct MsgTransfer {
    #[prost(string, tag = "1")]
    pub source_port: String,
    #[prost(string, tag = "2")]
    pub source_channel: String,
    #[prost(message, optional, tag = "3")]
    pub token: Option<ProtoCoin>,
    #[prost(string, tag = "4")]
    pub sender: String,
    #[prost(string, tag = "5")]
    pub receiver: String,
    #[prost(uint64, tag = "7")]
    pub timeout_timestamp: u64,
    #[prost(string, tag = "8")]
    pub memo: String,
}

#[derive(Clone, Debug)]
enum Undo {
    Kv(usize, Vec<u8>, Option<Vec<u8>>),
    Bank(String, String, u128),
    NewContract,
    Meta(usize, ContractMeta),
    Outbox,
}

/// One dispatched message, as seen by the chain (the committed ones form the history).
#[derive(Clone, Debug)]
pub struct Call {
    pub depth: u32,
    pub caller: String,
    pub target: String,
    pub kind: &'static str,
    pub msg: String,
    pub funds: Vec<Coin>,
    pub ok: bool,
}

#[derive(Clone, Debug, Default)]
pub struct FaultPlan {
    /// out-of-gas: the whole transaction aborts when this dispatch (0-based) is reached
    pub abort_at: Option<u32>,
    /// the message dispatched at this index fails with an ordinary, catchable error
    pub fail_at: Option<u32>,
}

struct Inner {
    kv: Vec<BTreeMap<Vec<u8>, Vec<u8>>>,
    bank: BTreeMap<(String, String), u128>,
    contracts: Vec<ContractMeta>,
    by_addr: BTreeMap<String, usize>,
    journal: Vec<Undo>,
    outbox: Vec<MsgTransfer>,
    block: BlockInfo,
    dispatches: u32,
    fault: FaultPlan,
    fired: Vec<&'static str>,
    calls: Vec<Call>,
    writes: u64,
}

pub struct Chain {
    pub prefix: String,
    pub codes: Rc<RefCell<BTreeMap<u64, Code>>>,
    inner: RefCell<Inner>,
    salt: Cell<u64>,
    pub log_calls: Cell<bool>,
    max_dispatch: u32,
    /// storage operations of the entry point running now, and how deep its queries are nested
    ops: Cell<u64>,
    depth: Cell<u32>,
}

/// More than any contract needs: one that goes on beyond this has run out of gas.
const MAX_OPS: u64 = 500_000;
const MAX_QUERY_DEPTH: u32 = 40;

#[derive(Clone, Debug, PartialEq)]
pub enum SimErr {
    /// ordinary error, can be caught by a reply handler
    Err(String),
    /// out of gas / chain-level abort: takes the whole transaction down
    Abort(String),
}

impl SimErr {
    pub fn text(&self) -> &str {
        match self {
            SimErr::Err(s) | SimErr::Abort(s) => s,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct TxOk {
    pub events: Vec<Event>,
    pub data: Option<Binary>,
}

#[derive(Clone, Debug)]
pub struct TxOutcome {
    pub result: Result<TxOk, SimErr>,
    pub dispatches: u32,
    pub fired: Vec<&'static str>,
    pub calls: Vec<Call>,
    /// contracts whose state, code or admin the committed transaction touched
    pub touched: BTreeSet<String>,
}

impl TxOutcome {
    pub fn ok(&self) -> bool {
        self.result.is_ok()
    }
    pub fn err(&self) -> String {
        match &self.result {
            Ok(_) => String::new(),
            Err(e) => e.text().to_string(),
        }
    }
    pub fn attr(&self, key: &str) -> Vec<String> {
        match &self.result {
            Ok(ok) => ok
                .events
                .iter()
                .flat_map(|e| e.attributes.iter())
                .filter(|a| a.key == key)
                .map(|a| a.value.clone())
                .collect(),
            Err(_) => vec![],
        }
    }
}

type R<T> = Result<T, SimErr>;

fn e<T>(s: impl Into<String>) -> R<T> {
    Err(SimErr::Err(s.into()))
}

pub fn bech32_addr(prefix: &str, bytes: &[u8]) -> String {
    bech32_no_std::encode(prefix, bytes.to_base32()).expect("bech32")
}

pub fn hash_addr(prefix: &str, what: &str) -> String {
    let h = Sha256::digest(what.as_bytes());
    bech32_addr(prefix, &h[..])
}

/// IBC-hooks: the account on whose behalf a transfer memo is executed on the receiving chain.
/// Written from the ibc-hooks specification, independently of the code under test.
pub fn intermediate_sender(channel: &str, sender: &str, prefix: &str) -> String {
    let th = Sha256::digest(b"ibc-wasm-hook-intermediary");
    let mut h = Sha256::new();
    h.update(&th[..]);
    h.update(format!("{channel}/{sender}").as_bytes());
    let out = h.finalize();
    bech32_addr(prefix, &out[..])
}

// ------------------------------------------------------------------------------------------ api
pub struct SimApi {
    prefix: String,
}

impl Api for SimApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        let (hrp, data) = bech32_no_std::decode(human)
            .map_err(|x| StdError::generic_err(format!("invalid address {human}: {x:?}")))?;
        if hrp != self.prefix {
            return Err(StdError::generic_err(format!("wrong prefix {human}")));
        }
        Vec::<u8>::from_base32(&data)
            .map_err(|x| StdError::generic_err(format!("invalid address {human}: {x:?}")))?;
        if human.to_lowercase() != human {
            return Err(StdError::generic_err("address not normalized"));
        }
        Ok(Addr::unchecked(human))
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        self.addr_validate(human)?;
        let (_, data) = bech32_no_std::decode(human).unwrap();
        Ok(CanonicalAddr(Binary(
            Vec::<u8>::from_base32(&data).unwrap(),
        )))
    }
    fn addr_humanize(&self, canonical: &CanonicalAddr) -> StdResult<Addr> {
        Ok(Addr::unchecked(bech32_addr(&self.prefix, canonical)))
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        Err(VerificationError::unknown_err(1))
    }
    fn secp256k1_recover_pubkey(
        &self,
        _: &[u8],
        _: &[u8],
        _: u8,
    ) -> Result<Vec<u8>, RecoverPubkeyError> {
        Err(RecoverPubkeyError::unknown_err(1))
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        Err(VerificationError::unknown_err(1))
    }
    fn ed25519_batch_verify(
        &self,
        _: &[&[u8]],
        _: &[&[u8]],
        _: &[&[u8]],
    ) -> Result<bool, VerificationError> {
        Err(VerificationError::unknown_err(1))
    }
    fn debug(&self, _: &str) {}
}

// -------------------------------------------------------------------------------------- storage
pub struct Store<'a> {
    chain: &'a Chain,
    idx: usize,
    readonly: bool,
}

impl<'a> Storage for Store<'a> {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.chain.gas(1);
        self.chain.inner.borrow().kv[self.idx].get(key).cloned()
    }
    fn range<'b>(
        &'b self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'b> {
        if let (Some(s), Some(en)) = (start, end) {
            if s >= en {
                return Box::new(std::iter::empty());
            }
        }
        let lo = start.map_or(Bound::Unbounded, |s| Bound::Included(s.to_vec()));
        let hi = end.map_or(Bound::Unbounded, |s| Bound::Excluded(s.to_vec()));
        let inner = self.chain.inner.borrow();
        let mut v: Vec<Record> = inner.kv[self.idx]
            .range((lo, hi))
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect();
        if order == Order::Descending {
            v.reverse();
        }
        self.chain.gas(1 + v.len() as u64 / 16);
        Box::new(v.into_iter())
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        assert!(!self.readonly, "write in a query");
        self.chain.gas(1);
        let inner = &mut *self.chain.inner.borrow_mut();
        let old = inner.kv[self.idx].insert(key.to_vec(), value.to_vec());
        inner.journal.push(Undo::Kv(self.idx, key.to_vec(), old));
        inner.writes += 1;
    }
    fn remove(&mut self, key: &[u8]) {
        assert!(!self.readonly, "write in a query");
        self.chain.gas(1);
        let inner = &mut *self.chain.inner.borrow_mut();
        if let Some(old) = inner.kv[self.idx].remove(key) {
            inner
                .journal
                .push(Undo::Kv(self.idx, key.to_vec(), Some(old)));
            inner.writes += 1;
        }
    }
}

impl Querier for Chain {
    fn raw_query(&self, bin_request: &[u8]) -> QuerierResult {
        let req: QueryRequest<Empty> = match from_json(bin_request) {
            Ok(r) => r,
            Err(err) => {
                return SystemResult::Err(SystemError::InvalidRequest {
                    error: err.to_string(),
                    request: bin_request.into(),
                })
            }
        };
        match req {
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let amount = Coin::new(self.balance(&address, &denom), denom);
                SystemResult::Ok(ContractResult::from(to_json_binary(&BalanceResponse {
                    amount,
                })))
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let inner = self.inner.borrow();
                let amount = inner
                    .bank
                    .iter()
                    .filter(|((a, _), v)| *a == address && **v > 0)
                    .map(|((_, d), v)| Coin::new(*v, d.clone()))
                    .collect();
                SystemResult::Ok(ContractResult::from(to_json_binary(&AllBalanceResponse {
                    amount,
                })))
            }
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => {
                match self.smart_raw(&contract_addr, &msg) {
                    Ok(b) => SystemResult::Ok(ContractResult::Ok(b)),
                    Err(QErr::NoContract) => SystemResult::Err(SystemError::NoSuchContract {
                        addr: contract_addr,
                    }),
                    Err(QErr::Contract(s)) => SystemResult::Ok(ContractResult::Err(s)),
                }
            }
            QueryRequest::Wasm(WasmQuery::Raw { contract_addr, key }) => {
                let inner = self.inner.borrow();
                match inner.by_addr.get(&contract_addr) {
                    None => SystemResult::Err(SystemError::NoSuchContract {
                        addr: contract_addr,
                    }),
                    Some(i) => SystemResult::Ok(ContractResult::Ok(
                        inner.kv[*i]
                            .get(key.as_slice())
                            .cloned()
                            .unwrap_or_default()
                            .into(),
                    )),
                }
            }
            QueryRequest::Wasm(WasmQuery::ContractInfo { contract_addr }) => {
                let inner = self.inner.borrow();
                match inner.by_addr.get(&contract_addr) {
                    None => SystemResult::Err(SystemError::NoSuchContract {
                        addr: contract_addr,
                    }),
                    Some(i) => {
                        let m = &inner.contracts[*i];
                        let mut r = ContractInfoResponse::default();
                        r.code_id = m.code_id;
                        r.creator = m.creator.clone();
                        r.admin = m.admin.clone();
                        SystemResult::Ok(ContractResult::from(to_json_binary(&r)))
                    }
                }
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest {
                kind: "not simulated".into(),
            }),
        }
    }
}

pub enum QErr {
    NoContract,
    Contract(String),
}

impl Chain {
    pub fn new(prefix: &str, chain_id: &str, codes: Rc<RefCell<BTreeMap<u64, Code>>>) -> Chain {
        Chain {
            prefix: prefix.to_string(),
            codes,
            inner: RefCell::new(Inner {
                kv: vec![],
                bank: BTreeMap::new(),
                contracts: vec![],
                by_addr: BTreeMap::new(),
                journal: vec![],
                outbox: vec![],
                block: BlockInfo {
                    height: 1_000,
                    time: Timestamp::from_nanos(1_700_000_000_000_000_000),
                    chain_id: chain_id.to_string(),
                },
                dispatches: 0,
                fault: FaultPlan::default(),
                fired: vec![],
                calls: vec![],
                writes: 0,
            }),
            salt: Cell::new(0),
            log_calls: Cell::new(true),
            max_dispatch: 3000,
            ops: Cell::new(0),
            depth: Cell::new(0),
        }
    }

    // ------------------------------------------------------------------ clock
    pub fn block(&self) -> BlockInfo {
        self.inner.borrow().block.clone()
    }
    pub fn now(&self) -> Timestamp {
        self.inner.borrow().block.time
    }
    pub fn height(&self) -> u64 {
        self.inner.borrow().block.height
    }
    pub fn advance(&self, blocks: u64, nanos: u64) {
        let inner = &mut *self.inner.borrow_mut();
        inner.block.height += blocks;
        inner.block.time = inner.block.time.plus_nanos(nanos);
    }
    pub fn set_time(&self, nanos: u64) {
        self.inner.borrow_mut().block.time = Timestamp::from_nanos(nanos);
    }
    pub fn writes(&self) -> u64 {
        self.inner.borrow().writes
    }

    // ------------------------------------------------------------------- bank
    pub fn balance(&self, addr: &str, denom: &str) -> u128 {
        *self
            .inner
            .borrow()
            .bank
            .get(&(addr.to_string(), denom.to_string()))
            .unwrap_or(&0)
    }
    fn set_balance(&self, addr: &str, denom: &str, v: u128) {
        let inner = &mut *self.inner.borrow_mut();
        let k = (addr.to_string(), denom.to_string());
        let old = inner.bank.insert(k, v).unwrap_or(0);
        inner
            .journal
            .push(Undo::Bank(addr.to_string(), denom.to_string(), old));
    }
    pub fn mint(&self, addr: &str, denom: &str, amount: u128) {
        self.set_balance(addr, denom, self.balance(addr, denom) + amount);
    }
    pub fn burn(&self, addr: &str, denom: &str, amount: u128) -> R<()> {
        let b = self.balance(addr, denom);
        if b < amount {
            return e(format!(
                "insufficient funds: {b}{denom} is smaller than {amount}{denom}"
            ));
        }
        self.set_balance(addr, denom, b - amount);
        Ok(())
    }
    fn transfer(&self, from: &str, to: &str, coins: &[Coin]) -> R<()> {
        for c in coins {
            if c.amount.is_zero() {
                return e(format!("invalid coins: zero amount of {}", c.denom));
            }
        }
        for c in coins {
            self.burn(from, &c.denom, c.amount.u128())?;
            self.mint(to, &c.denom, c.amount.u128());
        }
        Ok(())
    }
    pub fn supply(&self, denom: &str) -> u128 {
        self.inner
            .borrow()
            .bank
            .iter()
            .filter(|((_, d), _)| d == denom)
            .map(|(_, v)| *v)
            .sum()
    }
    pub fn all_balances(&self) -> BTreeMap<(String, String), u128> {
        let mut b = self.inner.borrow().bank.clone();
        b.retain(|_, v| *v > 0);
        b
    }

    // -------------------------------------------------------------- contracts
    pub fn meta(&self, addr: &str) -> Option<ContractMeta> {
        let inner = self.inner.borrow();
        inner.by_addr.get(addr).map(|i| inner.contracts[*i].clone())
    }
    pub fn is_contract(&self, addr: &str) -> bool {
        self.inner.borrow().by_addr.contains_key(addr)
    }
    pub fn contracts(&self) -> Vec<ContractMeta> {
        self.inner.borrow().contracts.clone()
    }
    fn idx(&self, addr: &str) -> Option<usize> {
        self.inner.borrow().by_addr.get(addr).copied()
    }
    fn code(&self, idx: usize) -> R<Code> {
        let id = self.inner.borrow().contracts[idx].code_id;
        match self.codes.borrow().get(&id) {
            Some(c) => Ok(*c),
            None => e(format!("code id {id} not found")),
        }
    }
    fn env(&self, addr: &str) -> Env {
        Env {
            block: self.block(),
            transaction: Some(TransactionInfo { index: 0 }),
            contract: ContractInfo {
                address: Addr::unchecked(addr),
            },
        }
    }
    /// Raw storage of a contract (used to plant legacy state, and for state digests).
    pub fn raw_set(&self, addr: &str, key: &[u8], value: &[u8]) {
        let i = self.idx(addr).expect("contract");
        Store {
            chain: self,
            idx: i,
            readonly: false,
        }
        .set(key, value);
    }
    pub fn with_store<T>(&self, addr: &str, f: impl FnOnce(&mut dyn Storage) -> T) -> T {
        let i = self.idx(addr).expect("contract");
        f(&mut Store {
            chain: self,
            idx: i,
            readonly: false,
        })
    }
    pub fn dump(&self, addr: &str) -> BTreeMap<Vec<u8>, Vec<u8>> {
        match self.idx(addr) {
            Some(i) => self.inner.borrow().kv[i].clone(),
            None => BTreeMap::new(),
        }
    }
    /// Digest of the complete chain state (all contract storage, metadata, balances).
    pub fn digest(&self) -> u64 {
        let inner = self.inner.borrow();
        let mut h = 0xcbf29ce484222325u64;
        let mut feed = |b: &[u8]| {
            for x in b {
                h ^= *x as u64;
                h = h.wrapping_mul(0x100000001b3);
            }
            h ^= 0xff;
            h = h.wrapping_mul(0x100000001b3);
        };
        for (i, m) in inner.kv.iter().enumerate() {
            feed(format!("{:?}", inner.contracts[i]).as_bytes());
            for (k, v) in m {
                feed(k);
                feed(v);
            }
        }
        for ((a, d), v) in &inner.bank {
            if *v > 0 {
                feed(a.as_bytes());
                feed(d.as_bytes());
                feed(&v.to_be_bytes());
            }
        }
        h
    }

    fn rollback(&self, mark: usize) {
        let inner = &mut *self.inner.borrow_mut();
        while inner.journal.len() > mark {
            match inner.journal.pop().unwrap() {
                Undo::Kv(i, k, old) => {
                    match old {
                        Some(v) => inner.kv[i].insert(k, v),
                        None => inner.kv[i].remove(&k),
                    };
                }
                Undo::Bank(a, d, old) => {
                    inner.bank.insert((a, d), old);
                }
                Undo::NewContract => {
                    let m = inner.contracts.pop().unwrap();
                    inner.kv.pop();
                    inner.by_addr.remove(&m.addr);
                }
                Undo::Meta(i, m) => inner.contracts[i] = m,
                Undo::Outbox => {
                    inner.outbox.pop();
                }
            }
        }
    }
    fn mark(&self) -> usize {
        self.inner.borrow().journal.len()
    }

    /// Takes the packets committed by finished transactions.
    pub fn take_outbox(&self) -> Vec<MsgTransfer> {
        std::mem::take(&mut self.inner.borrow_mut().outbox)
    }

    // ---------------------------------------------------------------- queries
    /// Counts storage operations; panics, as wasm does, when they are too many.
    fn gas(&self, n: u64) {
        let ops = self.ops.get() + n;
        self.ops.set(ops);
        assert!(ops < MAX_OPS, "out of gas");
    }
    /// Runs an entry point, or a query of one.
    fn within<T>(&self, f: impl FnOnce() -> T) -> std::thread::Result<T> {
        if self.depth.get() == 0 {
            self.ops.set(0);
        }
        self.depth.set(self.depth.get() + 1);
        let r = catch_unwind(AssertUnwindSafe(f));
        self.depth.set(self.depth.get() - 1);
        r
    }
    pub fn smart_raw(&self, addr: &str, msg: &[u8]) -> Result<Binary, QErr> {
        if self.depth.get() > MAX_QUERY_DEPTH {
            return Err(QErr::Contract("queries nested too deeply".into()));
        }
        let i = self.idx(addr).ok_or(QErr::NoContract)?;
        let code = self
            .code(i)
            .map_err(|x| QErr::Contract(x.text().to_string()))?;
        let store = Store {
            chain: self,
            idx: i,
            readonly: true,
        };
        let api = SimApi {
            prefix: self.prefix.clone(),
        };
        let deps = Deps {
            storage: &store,
            api: &api,
            querier: QuerierWrapper::new(self),
        };
        let env = self.env(addr);
        match self.within(|| (code.query)(deps, env, msg)) {
            Ok(Ok(b)) => Ok(b),
            Ok(Err(s)) => Err(QErr::Contract(s)),
            Err(p) => Err(QErr::Contract(format!("panic: {}", panic_text(p)))),
        }
    }
    pub fn query<Q: serde::Serialize, T: serde::de::DeserializeOwned>(
        &self,
        addr: &str,
        q: &Q,
    ) -> Result<T, String> {
        let msg = to_json_binary(q).map_err(|x| x.to_string())?;
        match self.smart_raw(addr, &msg) {
            Ok(b) => from_json(b).map_err(|x| x.to_string()),
            Err(QErr::NoContract) => Err(format!("no such contract {addr}")),
            Err(QErr::Contract(s)) => Err(s),
        }
    }

    // ----------------------------------------------------------- transactions
    pub fn tx(&self, sender: &str, msgs: Vec<CosmosMsg>, fault: FaultPlan) -> TxOutcome {
        self.tx_with(fault, |c| {
            let mut out = TxOk::default();
            for m in &msgs {
                let r = c.dispatch(sender, m.clone(), 0)?;
                out.events.extend(r.events);
                out.data = r.data;
            }
            Ok(out)
        })
    }

    /// Runs `f` as one atomic transaction under the given fault plan.
    pub fn tx_with(&self, fault: FaultPlan, f: impl FnOnce(&Chain) -> R<TxOk>) -> TxOutcome {
        {
            let inner = &mut *self.inner.borrow_mut();
            inner.journal.clear();
            inner.dispatches = 0;
            inner.fault = fault;
            inner.fired.clear();
            inner.calls.clear();
        }
        let result = f(self);
        if result.is_err() {
            self.rollback(0);
        }
        let inner = &mut *self.inner.borrow_mut();
        let mut touched = BTreeSet::new();
        for u in &inner.journal {
            if let Undo::Kv(i, _, _) | Undo::Meta(i, _) = u {
                if let Some(m) = inner.contracts.get(*i) {
                    if !touched.contains(&m.addr) {
                        touched.insert(m.addr.clone());
                    }
                }
            }
        }
        inner.journal.clear();
        inner.fault = FaultPlan::default();
        TxOutcome {
            touched,
            result,
            dispatches: inner.dispatches,
            fired: std::mem::take(&mut inner.fired),
            calls: std::mem::take(&mut inner.calls),
        }
    }

    /// Like `tx`, but everything is rolled back afterwards: "what would happen if".
    pub fn simulate(&self, sender: &str, msgs: Vec<CosmosMsg>) -> TxOutcome {
        let mut keep: Option<Result<TxOk, SimErr>> = None;
        let mut o = self.tx_with(FaultPlan::default(), |c| {
            let mut out = TxOk::default();
            for m in &msgs {
                match c.dispatch(sender, m.clone(), 0) {
                    Ok(r) => {
                        out.events.extend(r.events);
                        out.data = r.data;
                    }
                    Err(x) => {
                        keep = Some(Err(x.clone()));
                        return Err(x);
                    }
                }
            }
            keep = Some(Ok(out));
            e("simulated")
        });
        o.result = keep.unwrap();
        o
    }

    pub fn dispatch(&self, sender: &str, msg: CosmosMsg, depth: u32) -> R<TxOk> {
        let call_idx = if self.log_calls.get() {
            let (target, kind, txt, funds) = describe(&msg);
            let inner = &mut *self.inner.borrow_mut();
            inner.calls.push(Call {
                depth,
                caller: sender.to_string(),
                target,
                kind,
                msg: txt,
                funds,
                ok: false,
            });
            Some(inner.calls.len() - 1)
        } else {
            None
        };
        // fault injection and gas
        {
            let inner = &mut *self.inner.borrow_mut();
            let n = inner.dispatches;
            inner.dispatches += 1;
            if inner.fault.abort_at == Some(n) {
                inner.fired.push("tx_abort_out_of_gas");
                return Err(SimErr::Abort("out of gas (injected)".into()));
            }
            if inner.fault.fail_at == Some(n) {
                inner.fired.push("submsg_error");
                return e("injected failure of a dispatched message");
            }
            if n >= self.max_dispatch || depth > 60 {
                return Err(SimErr::Abort("out of gas".into()));
            }
        }
        let res = self.dispatch_inner(sender, msg, depth);
        if let Some(i) = call_idx {
            let inner = &mut *self.inner.borrow_mut();
            if res.is_ok() {
                inner.calls[i].ok = true;
            } else {
                // everything below was rolled back as well
                for c in inner.calls[i..].iter_mut() {
                    c.ok = false;
                }
            }
        }
        res
    }

    fn dispatch_inner(&self, sender: &str, msg: CosmosMsg, depth: u32) -> R<TxOk> {
        match msg {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                SimApi {
                    prefix: self.prefix.clone(),
                }
                .addr_validate(&to_address)
                .map_err(|x| SimErr::Err(x.to_string()))?;
                if amount.is_empty() {
                    return e("empty coins");
                }
                self.transfer(sender, &to_address, &amount)?;
                Ok(TxOk {
                    events: vec![Event::new("transfer")
                        .add_attribute("recipient", to_address)
                        .add_attribute("sender", sender)],
                    data: None,
                })
            }
            CosmosMsg::Bank(BankMsg::Burn { amount }) => {
                for c in &amount {
                    self.burn(sender, &c.denom, c.amount.u128())?;
                }
                Ok(TxOk::default())
            }
            CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr,
                msg,
                funds,
            }) => {
                let i = match self.idx(&contract_addr) {
                    Some(i) => i,
                    None => return e(format!("no such contract {contract_addr}")),
                };
                self.transfer(sender, &contract_addr, &funds)?;
                let code = self.code(i)?;
                let info = MessageInfo {
                    sender: Addr::unchecked(sender),
                    funds,
                };
                let resp = self.call(i, &contract_addr, |deps, env| {
                    (code.execute)(deps, env, info, &msg)
                })?;
                let ev =
                    Event::new("execute").add_attribute("_contract_address", &contract_addr);
                let r = self.handle(&contract_addr, resp, vec![ev], depth)?;
                Ok(TxOk {
                    events: r.events,
                    data: r.data.map(|d| {
                        let mut out = vec![];
                        put_bytes(&mut out, 1, &d);
                        Binary(out)
                    }),
                })
            }
            CosmosMsg::Wasm(WasmMsg::Instantiate {
                admin,
                code_id,
                msg,
                funds,
                label,
            }) => {
                if label.is_empty() {
                    return e("label is required");
                }
                if !self.codes.borrow().contains_key(&code_id) {
                    return e(format!("code id {code_id} not found"));
                }
                let n = self.inner.borrow().contracts.len();
                let addr = hash_addr(
                    &self.prefix,
                    &format!("contract/{}/{}/{}", self.prefix, n, self.salt.get()),
                );
                {
                    let inner = &mut *self.inner.borrow_mut();
                    inner.kv.push(BTreeMap::new());
                    inner.by_addr.insert(addr.clone(), n);
                    inner.contracts.push(ContractMeta {
                        addr: addr.clone(),
                        code_id,
                        creator: sender.to_string(),
                        admin,
                        label,
                    });
                    inner.journal.push(Undo::NewContract);
                }
                self.transfer(sender, &addr, &funds)?;
                let code = self.code(n)?;
                let info = MessageInfo {
                    sender: Addr::unchecked(sender),
                    funds,
                };
                let resp = self.call(n, &addr, |deps, env| {
                    (code.instantiate)(deps, env, info, &msg)
                })?;
                let ev = Event::new("instantiate")
                    .add_attribute("_contract_address", &addr)
                    .add_attribute("code_id", code_id.to_string());
                let r = self.handle(&addr, resp, vec![ev], depth)?;
                let mut out = vec![];
                put_bytes(&mut out, 1, addr.as_bytes());
                if let Some(d) = r.data {
                    put_bytes(&mut out, 2, &d);
                }
                Ok(TxOk {
                    events: r.events,
                    data: Some(Binary(out)),
                })
            }
            CosmosMsg::Wasm(WasmMsg::Migrate {
                contract_addr,
                new_code_id,
                msg,
            }) => {
                let i = match self.idx(&contract_addr) {
                    Some(i) => i,
                    None => return e(format!("no such contract {contract_addr}")),
                };
                let meta = self.inner.borrow().contracts[i].clone();
                if meta.admin.as_deref() != Some(sender) {
                    return e("migrate: unauthorized");
                }
                let code = match self.codes.borrow().get(&new_code_id) {
                    Some(c) => *c,
                    None => return e(format!("code id {new_code_id} not found")),
                };
                {
                    let inner = &mut *self.inner.borrow_mut();
                    inner.journal.push(Undo::Meta(i, meta));
                    inner.contracts[i].code_id = new_code_id;
                }
                let resp =
                    self.call(i, &contract_addr, |deps, env| (code.migrate)(deps, env, &msg))?;
                let ev = Event::new("migrate")
                    .add_attribute("_contract_address", &contract_addr)
                    .add_attribute("code_id", new_code_id.to_string());
                self.handle(&contract_addr, resp, vec![ev], depth)
            }
            CosmosMsg::Wasm(WasmMsg::UpdateAdmin {
                contract_addr,
                admin,
            }) => {
                let i = match self.idx(&contract_addr) {
                    Some(i) => i,
                    None => return e("no such contract"),
                };
                let meta = self.inner.borrow().contracts[i].clone();
                if meta.admin.as_deref() != Some(sender) {
                    return e("update admin: unauthorized");
                }
                let inner = &mut *self.inner.borrow_mut();
                inner.journal.push(Undo::Meta(i, meta));
                inner.contracts[i].admin = Some(admin);
                Ok(TxOk::default())
            }
            CosmosMsg::Stargate { type_url, value } => {
                if type_url != "/ibc.applications.transfer.v1.MsgTransfer" {
                    return e(format!("unknown stargate message {type_url}"));
                }
                let t = match MsgTransfer::decode(value.as_slice()) {
                    Ok(t) => t,
                    Err(x) => return e(format!("bad MsgTransfer: {x}")),
                };
                if t.sender != sender {
                    return e("MsgTransfer: sender is not the signer");
                }
                let tok = t.token.clone().unwrap_or_default();
                let amount: u128 = match tok.amount.parse() {
                    Ok(a) if a > 0 => a,
                    _ => return e("MsgTransfer: bad amount"),
                };
                if t.timeout_timestamp <= self.now().nanos() {
                    return e("MsgTransfer: timeout already passed");
                }
                let escrow = self.escrow(&t.source_channel);
                self.transfer(sender, &escrow, &[Coin::new(amount, tok.denom.clone())])?;
                let inner = &mut *self.inner.borrow_mut();
                inner.outbox.push(t);
                inner.journal.push(Undo::Outbox);
                Ok(TxOk::default())
            }
            other => e(format!("unsupported message {other:?}")),
        }
    }

    /// A transfer arrives over IBC: the tokens are minted (or released from `from`), credited to the
    /// account derived from channel and sender, and the memo's contract call is made by it. Any
    /// failure undoes all of it (and the relayer takes back an error acknowledgement).
    pub fn ibc_receive(&self, fault: FaultPlan, from: Option<&str>, denom: &str, channel: &str, t: &MsgTransfer) -> TxOutcome {
        let inter = intermediate_sender(channel, &t.sender, &self.prefix);
        self.tx_with(fault, |c| {
            let coin = Coin::new(t.token.as_ref().and_then(|x| x.amount.parse().ok()).unwrap_or(0), denom);
            let memo: Result<crate::codes::HookMemo, _> = serde_json::from_str(&t.memo);
            let Ok(memo) = memo else { return e("no contract call in the memo") };
            if memo.wasm.contract != t.receiver {
                return e("ibc-hooks: the receiver is not the called contract");
            }
            match from {
                None => c.mint(&inter, denom, coin.amount.u128()),
                Some(f) => c.transfer(f, &inter, &[coin.clone()])?,
            }
            c.dispatch(
                &inter,
                CosmosMsg::Wasm(WasmMsg::Execute {
                    contract_addr: t.receiver.clone(),
                    msg: Binary(memo.wasm.msg.to_string().into_bytes()),
                    funds: vec![coin],
                }),
                0,
            )
        })
    }
    /// The escrowed tokens go back after a timeout or an error acknowledgement.
    pub fn ibc_refund(&self, t: &MsgTransfer) -> TxOutcome {
        let escrow = self.escrow(&t.source_channel);
        self.tx_with(FaultPlan::default(), |c| {
            let tok = t.token.clone().unwrap_or_default();
            let coin = Coin::new(tok.amount.parse().unwrap_or(0), tok.denom);
            c.transfer(&escrow, &t.sender, &[coin])?;
            Ok(TxOk::default())
        })
    }

    pub fn escrow(&self, channel: &str) -> String {
        hash_addr(&self.prefix, &format!("escrow/{channel}"))
    }

    fn call(
        &self,
        idx: usize,
        addr: &str,
        f: impl FnOnce(DepsMut, Env) -> CallResult,
    ) -> R<Response> {
        let mut store = Store {
            chain: self,
            idx,
            readonly: false,
        };
        let api = SimApi {
            prefix: self.prefix.clone(),
        };
        let env = self.env(addr);
        let deps = DepsMut {
            storage: &mut store,
            api: &api,
            querier: QuerierWrapper::new(self),
        };
        match self.within(|| f(deps, env)) {
            Ok(Ok(r)) => Ok(r),
            Ok(Err(s)) => e(s),
            Err(p) => e(format!("panic: {}", panic_text(p))),
        }
    }

    fn handle(&self, addr: &str, resp: Response, pre: Vec<Event>, depth: u32) -> R<TxOk> {
        let mut events = pre;
        if !resp.attributes.is_empty() {
            let mut ev = Event::new("wasm").add_attribute("_contract_address", addr);
            ev.attributes.extend(resp.attributes);
            events.push(ev);
        }
        for mut ev in resp.events {
            ev.ty = format!("wasm-{}", ev.ty);
            events.push(ev);
        }
        let mut data = resp.data;
        for sm in resp.messages {
            let r = self.submsg(addr, sm, depth + 1)?;
            events.extend(r.events);
            if r.data.is_some() {
                data = r.data;
            }
        }
        Ok(TxOk { events, data })
    }

    fn submsg(&self, addr: &str, sm: SubMsg, depth: u32) -> R<TxOk> {
        let mark = self.mark();
        let res = self.dispatch(addr, sm.msg, depth);
        match res {
            Ok(ok) => {
                if matches!(sm.reply_on, ReplyOn::Always | ReplyOn::Success) {
                    let reply = Reply {
                        id: sm.id,
                        result: SubMsgResult::Ok(SubMsgResponse {
                            events: ok.events.clone(),
                            data: ok.data,
                        }),
                    };
                    let r = self.do_reply(addr, reply, depth)?;
                    let mut events = ok.events;
                    events.extend(r.events);
                    Ok(TxOk {
                        events,
                        data: r.data,
                    })
                } else {
                    Ok(TxOk {
                        events: ok.events,
                        data: None,
                    })
                }
            }
            Err(SimErr::Err(s)) => {
                if matches!(sm.reply_on, ReplyOn::Always | ReplyOn::Error) {
                    self.rollback(mark);
                    let reply = Reply {
                        id: sm.id,
                        result: SubMsgResult::Err(s),
                    };
                    self.do_reply(addr, reply, depth)
                } else {
                    Err(SimErr::Err(s))
                }
            }
            Err(x) => Err(x),
        }
    }

    fn do_reply(&self, addr: &str, reply: Reply, depth: u32) -> R<TxOk> {
        let i = self.idx(addr).expect("replying contract");
        let code = self.code(i)?;
        let resp = self.call(i, addr, |deps, env| (code.reply)(deps, env, reply))?;
        let ev = Event::new("reply").add_attribute("_contract_address", addr);
        self.handle(addr, resp, vec![ev], depth)
    }
}

fn describe(m: &CosmosMsg) -> (String, &'static str, String, Vec<Coin>) {
    match m {
        CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => (
            to_address.clone(),
            "bank_send",
            String::new(),
            amount.clone(),
        ),
        CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr,
            msg,
            funds,
        }) => (
            contract_addr.clone(),
            "execute",
            String::from_utf8_lossy(msg).to_string(),
            funds.clone(),
        ),
        CosmosMsg::Wasm(WasmMsg::Instantiate {
            code_id,
            msg,
            funds,
            ..
        }) => (
            format!("code:{code_id}"),
            "instantiate",
            String::from_utf8_lossy(msg).to_string(),
            funds.clone(),
        ),
        CosmosMsg::Wasm(WasmMsg::Migrate {
            contract_addr,
            new_code_id,
            msg,
        }) => (
            contract_addr.clone(),
            "migrate",
            format!("{} {}", new_code_id, String::from_utf8_lossy(msg)),
            vec![],
        ),
        CosmosMsg::Stargate { type_url, .. } => {
            (type_url.clone(), "stargate", String::new(), vec![])
        }
        _ => (String::new(), "other", String::new(), vec![]),
    }
}

fn put_varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push((v as u8 & 0x7f) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

fn put_bytes(out: &mut Vec<u8>, field: u64, b: &[u8]) {
    if b.is_empty() {
        return;
    }
    put_varint(out, field << 3 | 2);
    put_varint(out, b.len() as u64);
    out.extend_from_slice(b);
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

pub fn u(x: u128) -> Uint128 {
    Uint128::new(x)
}
