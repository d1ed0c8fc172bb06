//! The simulated node: a small single-threaded wasmd. One flat ordered key-value store with an undo
//! journal holds everything durable (bank, contract metadata, contract storage). The contracts' real
//! entry points run in-process; every host call they make (storage, queries, dispatched messages)
//! goes through here, is counted, hashed and can be made to fail.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

use cosmwasm_std::{
    from_slice, to_binary, Addr, AllBalanceResponse, Api, BalanceResponse, BankMsg, BankQuery,
    Binary, BlockInfo, CanonicalAddr, Coin, ContractInfo, ContractInfoResponse, ContractResult,
    CosmosMsg, Deps, DepsMut, Empty, Env, Event, MessageInfo, Order, Querier, QuerierResult,
    QuerierWrapper, QueryRequest, Record, RecoverPubkeyError, Reply, ReplyOn, Response, StdError,
    StdResult, Storage, SubMsgResponse, SubMsgResult, SystemError, SystemResult, Timestamp,
    TransactionInfo, Uint128, VerificationError, WasmMsg, WasmQuery,
};
use serde::{Deserialize, Serialize};

use crate::codes;
use crate::rng::{fnv, FNV0};

pub const MAX_DEPTH: u32 = 40;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Abort {
    OutOfGas,
    NodeCrash,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Fault {
    /// execution stops at host call n (gas exhausted): the chain aborts the transaction
    Oog(u64),
    /// the node dies at host call n: everything since the last committed block is lost and re-executed
    Crash(u64),
    /// the n-th message dispatched by a contract is refused by its target
    FailMsg(u64),
    /// the n-th query made by a contract fails
    FailQuery(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Meta {
    pub code: u64,
    pub admin: Option<String>,
    pub creator: String,
    pub idx: u32,
}

pub struct World {
    pub kv: BTreeMap<Vec<u8>, Vec<u8>>,
    journal: Vec<(Vec<u8>, Option<Vec<u8>>)>,
    pub height: u64,
    pub time_ns: u64,
    pub chain_id: String,
    pub salt: u64,
    tx_index: u32,
    // per-transaction instrumentation
    pub calls: u64,
    pub msgs: u64,
    pub queries: u64,
    /// bytes handed to and by contracts
    pub moved: u64,
    pub digest: u64,
    fault: Option<Fault>,
    pub fired: bool,
    muted: bool,
    // since the last observation
    pub dirty: BTreeSet<String>,
    pub bank_dirty: bool,
    // the observer's answered queries, each with everything it read
    metas: RefCell<HashMap<String, Option<Meta>, Quick>>,
    changed: Vec<Vec<u8>>,
    reads: RefCell<Option<Reads>>,
    answers: Answers,
}

#[derive(Default, Clone)]
pub struct Fnv(u64);
impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.0 = fnv(if self.0 == 0 { FNV0 } else { self.0 }, b);
    }
}
type Quick = std::hash::BuildHasherDefault<Fnv>;

#[derive(Default)]
struct Reads {
    keys: Vec<Vec<u8>>,
    spans: Vec<(Vec<u8>, Vec<u8>)>,
}

/// What the observer asked before, kept until something changes that the answer was read from.
#[derive(Default)]
struct Answers {
    by_query: HashMap<(String, Vec<u8>), (u64, Result<Binary, String>), Quick>,
    by_key: HashMap<Vec<u8>, Vec<(u64, (String, Vec<u8>))>, Quick>,
    spans: Vec<(Vec<u8>, Vec<u8>, u64, (String, Vec<u8>))>,
    n: u64,
}
impl Answers {
    fn drop_one(&mut self, n: u64, q: &(String, Vec<u8>)) {
        if self.by_query.get(q).map(|x| x.0) == Some(n) {
            self.by_query.remove(q);
        }
    }
    fn forget(&mut self, key: &[u8]) {
        if let Some(v) = self.by_key.remove(key) {
            for (n, q) in v {
                self.drop_one(n, &q);
            }
        }
        let mut i = 0;
        while i < self.spans.len() {
            if self.spans[i].0.as_slice() <= key && key < self.spans[i].1.as_slice() {
                let (_, _, n, q) = self.spans.swap_remove(i);
                self.drop_one(n, &q);
            } else {
                i += 1;
            }
        }
    }
    fn keep(&mut self, q: (String, Vec<u8>), a: Result<Binary, String>, r: Reads) {
        self.n += 1;
        for k in r.keys {
            self.by_key.entry(k).or_default().push((self.n, q.clone()));
        }
        for (lo, hi) in r.spans {
            self.spans.push((lo, hi, self.n, q.clone()));
        }
        self.by_query.insert(q, (self.n, a));
    }
}

#[derive(Clone)]
pub struct Chain {
    pub w: Rc<RefCell<World>>,
}

#[derive(Clone, Debug)]
pub struct TxResult {
    pub res: Result<(Vec<Event>, Option<Binary>), String>,
    pub abort: Option<Abort>,
    pub calls: u64,
    pub msgs: u64,
    pub queries: u64,
    pub moved: u64,
    pub fired: bool,
    pub digest: u64,
}

impl TxResult {
    pub fn ok(&self) -> bool {
        self.res.is_ok()
    }
    pub fn events(&self) -> &[Event] {
        match &self.res {
            Ok((e, _)) => e,
            Err(_) => &[],
        }
    }
    /// hash of everything a replica could observe
    pub fn outcome_digest(&self, with_host: bool) -> u64 {
        let mut h = FNV0;
        match &self.res {
            Ok((ev, data)) => {
                h = fnv(h, b"ok");
                for e in ev {
                    h = fnv(h, e.ty.as_bytes());
                    for a in &e.attributes {
                        h = fnv(h, a.key.as_bytes());
                        h = fnv(h, b"=");
                        h = fnv(h, a.value.as_bytes());
                        h = fnv(h, b";");
                    }
                }
                if let Some(d) = data {
                    h = fnv(h, b"data");
                    h = fnv(h, d.as_slice());
                }
            }
            Err(e) => {
                h = fnv(h, b"err");
                h = fnv(h, e.as_bytes());
            }
        }
        if with_host {
            h = fnv(h, &self.calls.to_le_bytes());
            h = fnv(h, &self.digest.to_le_bytes());
        }
        h
    }
}

fn bank_key(addr: &str, denom: &str) -> Vec<u8> {
    let mut k = vec![b'B'];
    k.extend_from_slice(addr.as_bytes());
    k.push(0);
    k.extend_from_slice(denom.as_bytes());
    k
}
fn meta_key(addr: &str) -> Vec<u8> {
    let mut k = vec![b'C'];
    k.extend_from_slice(addr.as_bytes());
    k
}
fn store_prefix(idx: u32) -> Vec<u8> {
    let mut k = vec![b'S'];
    k.extend_from_slice(&idx.to_be_bytes());
    k
}

impl World {
    fn put(&mut self, key: Vec<u8>, val: Option<Vec<u8>>) {
        let old = match val {
            Some(v) => self.kv.insert(key.clone(), v),
            None => self.kv.remove(&key),
        };
        self.touched(&key);
        self.journal.push((key, old));
    }
    fn touched(&mut self, key: &[u8]) {
        if key.first() == Some(&b'C') {
            self.metas.borrow_mut().clear();
        }
        self.changed.push(key.to_vec());
    }
    fn saw(&self, key: impl FnOnce() -> Vec<u8>) {
        if let Some(r) = self.reads.borrow_mut().as_mut() {
            r.keys.push(key());
        }
    }
    fn saw_span(&self, span: impl FnOnce() -> (Vec<u8>, Vec<u8>)) {
        if let Some(r) = self.reads.borrow_mut().as_mut() {
            r.spans.push(span());
        }
    }
    pub fn mark(&self) -> usize {
        self.journal.len()
    }
    pub fn rollback(&mut self, mark: usize) {
        while self.journal.len() > mark {
            let (k, old) = self.journal.pop().unwrap();
            self.touched(&k);
            match old {
                Some(v) => {
                    self.kv.insert(k, v);
                }
                None => {
                    self.kv.remove(&k);
                }
            }
        }
    }
    pub fn commit(&mut self) {
        self.journal.clear();
    }
    pub fn state_hash(&self) -> u64 {
        let mut h = FNV0;
        for (k, v) in &self.kv {
            h = fnv(h, k);
            h = fnv(h, b"\0=");
            h = fnv(h, v);
            h = fnv(h, b"\0;");
        }
        h
    }
    pub fn dump(&self) -> Vec<(String, String)> {
        self.kv.iter().map(|(k, v)| (hex(k), hex(v))).collect()
    }
    pub fn balance(&self, addr: &str, denom: &str) -> u128 {
        let k = bank_key(addr, denom);
        self.saw(|| k.clone());
        self.kv
            .get(&k)
            .map(|v| u128::from_be_bytes(v.as_slice().try_into().unwrap()))
            .unwrap_or(0)
    }
    pub fn set_balance(&mut self, addr: &str, denom: &str, amt: u128) {
        self.bank_dirty = true;
        let k = bank_key(addr, denom);
        if amt == 0 {
            self.put(k, None);
        } else {
            self.put(k, Some(amt.to_be_bytes().to_vec()));
        }
    }
    fn transfer(&mut self, from: &str, to: &str, coins: &[Coin]) -> Result<(), String> {
        for c in coins {
            let a = c.amount.u128();
            let f = self.balance(from, &c.denom);
            if f < a {
                return Err(format!("insufficient funds: {} < {}{}", f, a, c.denom));
            }
            self.set_balance(from, &c.denom, f - a);
            let t = self.balance(to, &c.denom);
            self.set_balance(to, &c.denom, t + a);
        }
        Ok(())
    }
    pub fn meta(&self, addr: &str) -> Option<Meta> {
        self.saw(|| meta_key(addr));
        if let Some(m) = self.metas.borrow().get(addr) {
            return m.clone();
        }
        let m: Option<Meta> = self
            .kv
            .get(&meta_key(addr))
            .map(|v| serde_json::from_slice(v).unwrap());
        self.metas.borrow_mut().insert(addr.to_string(), m.clone());
        m
    }
    pub fn set_meta(&mut self, addr: &str, m: &Meta) {
        let v = serde_json::to_vec(m).unwrap();
        self.put(meta_key(addr), Some(v));
    }
    pub fn bank_all(&self) -> BTreeMap<(String, String), u128> {
        self.saw_span(|| (vec![b'B'], vec![b'C']));
        let mut m = BTreeMap::new();
        for (k, v) in self.kv.range(vec![b'B']..vec![b'C']) {
            let body = &k[1..];
            let z = body.iter().position(|b| *b == 0).unwrap();
            m.insert(
                (
                    String::from_utf8(body[..z].to_vec()).unwrap(),
                    String::from_utf8(body[z + 1..].to_vec()).unwrap(),
                ),
                u128::from_be_bytes(v.as_slice().try_into().unwrap()),
            );
        }
        m
    }
    pub fn contracts(&self) -> Vec<(String, Meta)> {
        self.kv
            .range(vec![b'C']..vec![b'D'])
            .map(|(k, v)| {
                (
                    String::from_utf8(k[1..].to_vec()).unwrap(),
                    serde_json::from_slice(v).unwrap(),
                )
            })
            .collect()
    }
    /// how many contracts were ever instantiated
    pub fn instances(&self) -> u32 {
        self.kv
            .get(b"N".as_slice())
            .map(|v| u32::from_be_bytes(v.as_slice().try_into().unwrap()))
            .unwrap_or(0)
    }
    fn next_instance(&mut self) -> u32 {
        let k = b"N".to_vec();
        let n = self.instances();
        self.put(k, Some((n + 1).to_be_bytes().to_vec()));
        n
    }
    fn block(&self) -> BlockInfo {
        BlockInfo {
            height: self.height,
            time: Timestamp::from_nanos(self.time_ns),
            chain_id: self.chain_id.clone(),
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = Vec::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize]);
        s.push(D[(x & 15) as usize]);
    }
    String::from_utf8(s).unwrap()
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    fn digit(c: u8) -> Option<u8> {
        match c {
            b'0'..=b'9' => Some(c - b'0'),
            b'a'..=b'f' => Some(c - b'a' + 10),
            b'A'..=b'F' => Some(c - b'A' + 10),
            _ => None,
        }
    }
    let mut v = Vec::with_capacity(s.len() / 2);
    for p in s.as_bytes().chunks_exact(2) {
        v.push(digit(p[0])? << 4 | digit(p[1])?);
    }
    Some(v)
}
fn pseudo(salt: u64, tag: u64, n: usize) -> Vec<u8> {
    let mut x = crate::rng::mix(salt, tag);
    let mut v = vec![];
    while v.len() < n {
        v.extend_from_slice(&crate::rng::splitmix(&mut x).to_le_bytes());
    }
    v.truncate(n);
    v
}
pub fn user_addr(salt: u64, i: u64) -> String {
    // accounts of modules and of other chains have long addresses
    let n = if crate::rng::mix(salt ^ 0x20, i) % 8 == 0 { 32 } else { 20 };
    format!("halo1{}", hex(&pseudo(salt, 1000 + i, n)))
}
fn contract_addr(salt: u64, i: u32) -> String {
    // older chains gave contracts short ones
    let n = if salt >> 58 != 0x3f && crate::rng::mix(salt ^ 0x32, i as u64) % 8 == 0 { 20 } else { 32 };
    format!("halo1{}", hex(&pseudo(salt, 1_000_000 + i as u64, n)))
}
/// canonical form: either all lower or all upper case (as bech32 allows)
pub fn canon(human: &str) -> Option<Vec<u8>> {
    if valid_addr(human) {
        return unhex(&human[5..]);
    }
    let low = human.to_lowercase();
    if human != low && human != human.to_uppercase() {
        return None;
    }
    let body = low.strip_prefix("halo1")?;
    let b = unhex(body)?;
    if b.len() == 20 || b.len() == 32 {
        Some(b)
    } else {
        None
    }
}
pub fn humanize(c: &[u8]) -> Option<String> {
    if c.len() == 20 || c.len() == 32 {
        Some(format!("halo1{}", hex(c)))
    } else {
        None
    }
}
pub fn valid_addr(s: &str) -> bool {
    match s.strip_prefix("halo1") {
        Some(b) => {
            (b.len() == 40 || b.len() == 64)
                && b.bytes().all(|c| matches!(c, b'0'..=b'9' | b'a'..=b'f'))
        }
        None => false,
    }
}

// ---------------------------------------------------------------- host interface

struct Store {
    c: Chain,
    prefix: Vec<u8>,
    addr: String,
    ro: bool,
}
impl Store {
    fn key(&self, k: &[u8]) -> Vec<u8> {
        let mut v = self.prefix.clone();
        v.extend_from_slice(k);
        v
    }
}
impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.c.tick(b'g', key);
        let w = self.c.w.borrow();
        let k = self.key(key);
        let r = w.kv.get(&k).cloned();
        w.saw(|| k);
        drop(w);
        self.c.moves(r.as_ref().map(|v| v.len()).unwrap_or(0));
        r
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        self.c.tick(b's', key);
        if self.ro {
            panic!("write in a query");
        }
        self.c.moves(value.len());
        let k = self.key(key);
        let mut w = self.c.w.borrow_mut();
        if w.digest != 0 {
            w.digest = fnv(w.digest, value);
        }
        w.dirty.insert(self.addr.clone());
        w.put(k, Some(value.to_vec()));
    }
    fn remove(&mut self, key: &[u8]) {
        self.c.tick(b'd', key);
        if self.ro {
            panic!("write in a query");
        }
        let k = self.key(key);
        let mut w = self.c.w.borrow_mut();
        w.dirty.insert(self.addr.clone());
        w.put(k, None);
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        self.c.tick(b'r', start.unwrap_or(b""));
        let lo = self.key(start.unwrap_or(b""));
        let hi = match end {
            Some(e) => self.key(e),
            None => {
                let mut p = self.prefix.clone();
                // prefixes end in a big-endian index that never saturates
                for i in (0..p.len()).rev() {
                    if p[i] != 0xff {
                        p[i] += 1;
                        p.truncate(i + 1);
                        break;
                    }
                }
                p
            }
        };
        self.c.w.borrow().saw_span(|| (lo.clone(), hi.clone()));
        let n = self.prefix.len();
        let mut items: Vec<Record> = if lo >= hi {
            vec![]
        } else {
            self.c
                .w
                .borrow()
                .kv
                .range(lo..hi)
                .map(|(k, v)| (k[n..].to_vec(), v.clone()))
                .collect()
        };
        if matches!(order, Order::Descending) {
            items.reverse();
        }
        let c = self.c.clone();
        Box::new(items.into_iter().inspect(move |(k, v)| {
            c.tick(b'n', k);
            c.moves(v.len());
        }))
    }
}

struct SimApi;
impl Api for SimApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        if valid_addr(human) {
            Ok(Addr::unchecked(human))
        } else {
            Err(StdError::generic_err("invalid or not normalized address"))
        }
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        canon(human)
            .map(CanonicalAddr::from)
            .ok_or_else(|| StdError::generic_err("invalid address"))
    }
    fn addr_humanize(&self, canonical: &CanonicalAddr) -> StdResult<Addr> {
        humanize(canonical.as_slice())
            .map(Addr::unchecked)
            .ok_or_else(|| StdError::generic_err("invalid canonical address"))
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        Err(VerificationError::unknown_err(1))
    }
    fn secp256k1_recover_pubkey(
        &self,
        _: &[u8],
        _: &[u8],
        _: u8,
    ) -> Result<Vec<u8>, RecoverPubkeyError> {
        Err(RecoverPubkeyError::unknown_err(1))
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        Err(VerificationError::unknown_err(1))
    }
    fn ed25519_batch_verify(
        &self,
        _: &[&[u8]],
        _: &[&[u8]],
        _: &[&[u8]],
    ) -> Result<bool, VerificationError> {
        Err(VerificationError::unknown_err(1))
    }
    fn debug(&self, _message: &str) {}
}

struct HostQuerier {
    c: Chain,
    depth: u32,
}
impl Querier for HostQuerier {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        self.c.tick(b'q', bin);
        {
            let mut w = self.c.w.borrow_mut();
            if !w.muted {
                w.queries += 1;
                if let Some(Fault::FailQuery(n)) = w.fault {
                    if w.queries == n {
                        w.fired = true;
                        return SystemResult::Err(SystemError::Unknown {});
                    }
                }
            }
        }
        let req: QueryRequest<Empty> = match from_slice(bin) {
            Ok(r) => r,
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest {
                    error: e.to_string(),
                    request: Binary::from(bin),
                })
            }
        };
        let r = self.c.host_query(req, self.depth);
        if let SystemResult::Ok(ContractResult::Ok(b)) = &r {
            self.c.moves(b.len());
        }
        r
    }
}

fn normal(addr: &str) -> Option<String> {
    // the chain accepts an all-upper-case address and treats it as the same account
    if valid_addr(addr) {
        return Some(addr.to_string());
    }
    canon(addr).and_then(|c| humanize(&c))
}

enum Entry {
    Instantiate,
    Execute,
    Migrate,
}

impl Chain {
    pub fn new(salt: u64, height: u64, time_ns: u64) -> Self {
        Chain {
            w: Rc::new(RefCell::new(World {
                kv: BTreeMap::new(),
                journal: vec![],
                height,
                time_ns,
                chain_id: "halo-sim-1".into(),
                salt,
                tx_index: 0,
                calls: 0,
                msgs: 0,
                queries: 0,
                moved: 0,
                digest: FNV0,
                fault: None,
                fired: false,
                muted: true,
                dirty: BTreeSet::new(),
                bank_dirty: true,
                metas: Default::default(),
                changed: vec![],
                reads: RefCell::new(None),
                answers: Answers::default(),
            })),
        }
    }

    pub fn load(salt: u64, chain_id: &str, kv: &[(String, String)]) -> Self {
        let c = Chain::new(salt, 1, 0);
        {
            let mut w = c.w.borrow_mut();
            w.chain_id = chain_id.to_string();
            w.kv = kv
                .iter()
                .map(|(k, v)| (unhex(k).expect("hex"), unhex(v).expect("hex")))
                .collect();
        }
        c
    }

    fn moves(&self, n: usize) {
        let mut w = self.w.borrow_mut();
        if !w.muted {
            w.moved += n as u64;
        }
    }

    /// every host call passes here
    fn tick(&self, kind: u8, key: &[u8]) {
        let mut w = self.w.borrow_mut();
        if w.muted {
            return;
        }
        w.calls += 1;
        w.moved += key.len() as u64;
        let d = fnv(w.digest, &[kind]);
        w.digest = fnv(d, key);
        let stop = match w.fault {
            Some(Fault::Oog(n)) if w.calls == n => Some(Abort::OutOfGas),
            Some(Fault::Crash(n)) if w.calls == n => Some(Abort::NodeCrash),
            _ => None,
        };
        if let Some(a) = stop {
            w.fired = true;
            drop(w);
            panic_any(a);
        }
    }

    fn env(&self, addr: &str) -> Env {
        let w = self.w.borrow();
        Env {
            block: w.block(),
            transaction: Some(TransactionInfo { index: w.tx_index }),
            contract: ContractInfo {
                address: Addr::unchecked(addr),
            },
        }
    }

    fn store(&self, addr: &str, m: &Meta, ro: bool) -> Store {
        Store {
            c: self.clone(),
            prefix: store_prefix(m.idx),
            addr: addr.to_string(),
            ro,
        }
    }

    fn guarded<T>(&self, f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(p) => {
                if p.downcast_ref::<Abort>().is_some() {
                    resume_unwind(p);
                }
                let msg = if let Some(s) = p.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "?".to_string()
                };
                Err(format!("contract panicked: {}", msg))
            }
        }
    }

    fn host_query(&self, req: QueryRequest<Empty>, depth: u32) -> QuerierResult {
        match req {
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let amt = normal(&address)
                    .map(|a| self.w.borrow().balance(&a, &denom))
                    .unwrap_or(0);
                SystemResult::Ok(ContractResult::Ok(
                    to_binary(&BalanceResponse {
                        amount: Coin {
                            denom,
                            amount: Uint128::new(amt),
                        },
                    })
                    .unwrap(),
                ))
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let coins: Vec<Coin> = self
                    .w
                    .borrow()
                    .bank_all()
                    .into_iter()
                    .filter(|((a, _), _)| Some(a) == normal(&address).as_ref())
                    .map(|((_, d), v)| Coin {
                        denom: d,
                        amount: Uint128::new(v),
                    })
                    .collect();
                SystemResult::Ok(ContractResult::Ok(
                    to_binary(&AllBalanceResponse { amount: coins }).unwrap(),
                ))
            }
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => {
                match self.smart(&contract_addr, msg.as_slice(), depth + 1) {
                    Ok(b) => SystemResult::Ok(ContractResult::Ok(b)),
                    Err(None) => SystemResult::Err(SystemError::NoSuchContract {
                        addr: contract_addr,
                    }),
                    Err(Some(e)) => SystemResult::Ok(ContractResult::Err(e)),
                }
            }
            QueryRequest::Wasm(WasmQuery::Raw { contract_addr, key }) => {
                let a = normal(&contract_addr);
                let m = a.as_ref().and_then(|a| self.w.borrow().meta(a));
                match m {
                    None => SystemResult::Err(SystemError::NoSuchContract {
                        addr: contract_addr,
                    }),
                    Some(m) => {
                        let mut k = store_prefix(m.idx);
                        k.extend_from_slice(key.as_slice());
                        self.w.borrow().saw(|| k.clone());
                        let v = self.w.borrow().kv.get(&k).cloned().unwrap_or_default();
                        SystemResult::Ok(ContractResult::Ok(Binary::from(v)))
                    }
                }
            }
            QueryRequest::Wasm(WasmQuery::ContractInfo { contract_addr }) => {
                let a = normal(&contract_addr);
                let m = a.as_ref().and_then(|a| self.w.borrow().meta(a));
                match m {
                    None => SystemResult::Err(SystemError::NoSuchContract {
                        addr: contract_addr,
                    }),
                    Some(m) => {
                        let mut r = ContractInfoResponse::new(m.code, m.creator);
                        r.admin = m.admin;
                        SystemResult::Ok(ContractResult::Ok(to_binary(&r).unwrap()))
                    }
                }
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest {
                kind: "not available in the simulated chain".into(),
            }),
        }
    }

    /// Err(None): no such contract
    fn smart(&self, addr: &str, msg: &[u8], depth: u32) -> Result<Binary, Option<String>> {
        if depth > MAX_DEPTH {
            return Err(Some("query depth exceeded".into()));
        }
        let a = normal(addr).ok_or(None)?;
        let m = self.w.borrow().meta(&a).ok_or(None)?;
        let store = self.store(&a, &m, true);
        let env = self.env(&a);
        let q = HostQuerier {
            c: self.clone(),
            depth,
        };
        let api = SimApi;
        self.guarded(|| {
            let deps = Deps {
                storage: &store,
                api: &api,
                querier: QuerierWrapper::new(&q),
            };
            codes::query(m.code, deps, env, msg)
        })
        .map_err(Some)
    }

    /// A query by a client (no faults, not counted).
    pub fn query(&self, addr: &str, msg: &[u8]) -> Result<Binary, String> {
        let was = std::mem::replace(&mut self.w.borrow_mut().muted, true);
        let r = self.smart(addr, msg, 0);
        self.w.borrow_mut().muted = was;
        r.map_err(|e| e.unwrap_or_else(|| "no such contract".into()))
    }

    /// The same, with the host calls it takes and the bytes they move.
    pub fn query_metered(&self, addr: &str, msg: &[u8]) -> (Result<Binary, String>, u64, u64) {
        let kept = {
            let mut w = self.w.borrow_mut();
            let kept = (w.calls, w.queries, w.moved, w.digest, w.muted, w.fault.take());
            (w.calls, w.queries, w.moved, w.muted) = (0, 0, 0, false);
            kept
        };
        let r = self.smart(addr, msg, 0);
        let mut w = self.w.borrow_mut();
        let (calls, moved) = (w.calls, w.moved);
        (w.calls, w.queries, w.moved, w.digest, w.muted, w.fault) = kept;
        (r.map_err(|e| e.unwrap_or_else(|| "no such contract".into())), calls, moved)
    }

    /// The same, answered from memory while nothing has changed that the answer was read from.
    pub fn query_again(&self, addr: &str, msg: &[u8]) -> Result<Binary, String> {
        let q = (addr.to_string(), msg.to_vec());
        {
            let mut w = self.w.borrow_mut();
            let w = &mut *w;
            for k in w.changed.drain(..) {
                w.answers.forget(&k);
            }
            if let Some((_, a)) = w.answers.by_query.get(&q) {
                return a.clone();
            }
            *w.reads.borrow_mut() = Some(Reads::default());
        }
        let a = self.query(addr, msg);
        let mut w = self.w.borrow_mut();
        let r = w.reads.borrow_mut().take().unwrap();
        w.answers.keep(q, a.clone(), r);
        a
    }

    fn call(
        &self,
        entry: Entry,
        addr: &str,
        sender: &str,
        funds: &[Coin],
        msg: &[u8],
        depth: u32,
    ) -> Result<(Vec<Event>, Option<Binary>), String> {
        if depth > MAX_DEPTH {
            return Err("call depth exceeded".into());
        }
        let m = self
            .w
            .borrow()
            .meta(addr)
            .ok_or_else(|| format!("no such contract: {}", addr))?;
        let info = MessageInfo {
            sender: Addr::unchecked(sender),
            funds: funds.to_vec(),
        };
        let resp: Response = {
            let mut store = self.store(addr, &m, false);
            let env = self.env(addr);
            let q = HostQuerier {
                c: self.clone(),
                depth,
            };
            let api = SimApi;
            self.guarded(|| {
                let deps = DepsMut {
                    storage: &mut store,
                    api: &api,
                    querier: QuerierWrapper::new(&q),
                };
                match entry {
                    Entry::Instantiate => codes::instantiate(m.code, deps, env, info, msg),
                    Entry::Execute => codes::execute(m.code, deps, env, info, msg),
                    Entry::Migrate => codes::migrate(m.code, deps, env, msg),
                }
            })?
        };
        self.w.borrow_mut().dirty.insert(addr.to_string());
        self.handle(addr, resp, depth)
    }

    fn handle(
        &self,
        addr: &str,
        resp: Response,
        depth: u32,
    ) -> Result<(Vec<Event>, Option<Binary>), String> {
        let mut events = vec![];
        if !resp.attributes.is_empty() {
            let mut e = Event::new("wasm").add_attribute("_contract_address", addr);
            e.attributes.extend(resp.attributes);
            events.push(e);
        }
        for ce in resp.events {
            let mut e =
                Event::new(format!("wasm-{}", ce.ty)).add_attribute("_contract_address", addr);
            e.attributes.extend(ce.attributes);
            events.push(e);
        }
        let mut data = resp.data;
        for sub in resp.messages {
            let mark = self.w.borrow().mark();
            let injected = {
                let mut w = self.w.borrow_mut();
                let mut hit = false;
                if !w.muted {
                    w.msgs += 1;
                    if let Some(Fault::FailMsg(n)) = w.fault {
                        if w.msgs == n {
                            w.fired = true;
                            hit = true;
                        }
                    }
                }
                hit
            };
            self.tick(b'm', &serde_json::to_vec(&sub.msg).unwrap());
            let r = if injected {
                Err("refused (injected)".to_string())
            } else {
                self.dispatch(addr, &sub.msg, depth + 1)
            };
            match r {
                Ok((ev, d)) => {
                    let want = matches!(sub.reply_on, ReplyOn::Always | ReplyOn::Success);
                    events.extend(ev.clone());
                    if want {
                        let reply = Reply {
                            id: sub.id,
                            result: SubMsgResult::Ok(SubMsgResponse {
                                events: ev,
                                data: d,
                            }),
                        };
                        let (ev2, d2) = self.reply(addr, reply, depth)?;
                        events.extend(ev2);
                        if d2.is_some() {
                            data = d2;
                        }
                    }
                }
                Err(e) => {
                    self.w.borrow_mut().rollback(mark);
                    if matches!(sub.reply_on, ReplyOn::Always | ReplyOn::Error) {
                        let reply = Reply {
                            id: sub.id,
                            result: SubMsgResult::Err(e),
                        };
                        let (ev2, d2) = self.reply(addr, reply, depth)?;
                        events.extend(ev2);
                        if d2.is_some() {
                            data = d2;
                        }
                    } else {
                        return Err(e);
                    }
                }
            }
        }
        Ok((events, data))
    }

    fn reply(
        &self,
        addr: &str,
        reply: Reply,
        depth: u32,
    ) -> Result<(Vec<Event>, Option<Binary>), String> {
        let m = self.w.borrow().meta(addr).unwrap();
        let resp = {
            let mut store = self.store(addr, &m, false);
            let env = self.env(addr);
            let q = HostQuerier {
                c: self.clone(),
                depth,
            };
            let api = SimApi;
            self.guarded(|| {
                let deps = DepsMut {
                    storage: &mut store,
                    api: &api,
                    querier: QuerierWrapper::new(&q),
                };
                codes::reply(m.code, deps, env, reply)
            })?
        };
        self.handle(addr, resp, depth)
    }

    fn funds(coins: &[Coin]) -> Vec<Coin> {
        // the chain normalises attached coins: zero entries disappear, equal denoms add up
        let mut m: BTreeMap<String, u128> = BTreeMap::new();
        for c in coins {
            *m.entry(c.denom.clone()).or_default() += c.amount.u128();
        }
        m.into_iter()
            .filter(|(_, a)| *a > 0)
            .map(|(denom, a)| Coin {
                denom,
                amount: Uint128::new(a),
            })
            .collect()
    }

    pub fn instantiate_at(
        &self,
        sender: &str,
        code: u64,
        admin: Option<String>,
        msg: &[u8],
        funds: &[Coin],
        depth: u32,
    ) -> Result<(String, Vec<Event>, Option<Binary>), String> {
        if !codes::exists(code) {
            return Err(format!("no such code: {}", code));
        }
        let addr = {
            let mut w = self.w.borrow_mut();
            let n = w.next_instance();
            let addr = contract_addr(w.salt, n);
            w.set_meta(
                &addr,
                &Meta {
                    code,
                    admin,
                    creator: sender.to_string(),
                    idx: n,
                },
            );
            addr
        };
        let funds = Self::funds(funds);
        self.w.borrow_mut().transfer(sender, &addr, &funds)?;
        let (mut ev, data) = self.call(Entry::Instantiate, &addr, sender, &funds, msg, depth)?;
        ev.insert(
            0,
            Event::new("instantiate")
                .add_attribute("_contract_address", &addr)
                .add_attribute("code_id", code.to_string()),
        );
        Ok((addr, ev, data))
    }

    fn dispatch(
        &self,
        sender: &str,
        msg: &CosmosMsg<Empty>,
        depth: u32,
    ) -> Result<(Vec<Event>, Option<Binary>), String> {
        match msg {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                let coins = Self::funds(amount);
                if coins.is_empty() {
                    return Err("invalid coins: empty or zero".into());
                }
                let to = normal(to_address).ok_or("invalid address")?;
                self.w.borrow_mut().transfer(sender, &to, &coins)?;
                Ok((
                    vec![Event::new("transfer")
                        .add_attribute("recipient", to)
                        .add_attribute("sender", sender)
                        .add_attribute("amount", format!("{:?}", coins))],
                    None,
                ))
            }
            CosmosMsg::Bank(BankMsg::Burn { amount }) => {
                let coins = Self::funds(amount);
                if coins.is_empty() {
                    return Err("invalid coins".into());
                }
                let mut w = self.w.borrow_mut();
                for c in &coins {
                    let b = w.balance(sender, &c.denom);
                    if b < c.amount.u128() {
                        return Err("insufficient funds".into());
                    }
                    w.set_balance(sender, &c.denom, b - c.amount.u128());
                }
                Ok((vec![], None))
            }
            CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr,
                msg,
                funds,
            }) => {
                let to = normal(contract_addr).ok_or("invalid address")?;
                if self.w.borrow().meta(&to).is_none() {
                    return Err(format!("no such contract: {}", contract_addr));
                }
                let funds = Self::funds(funds);
                self.w.borrow_mut().transfer(sender, &to, &funds)?;
                let (mut ev, data) =
                    self.call(Entry::Execute, &to, sender, &funds, msg.as_slice(), depth)?;
                ev.insert(
                    0,
                    Event::new("execute").add_attribute("_contract_address", &to),
                );
                let data = data.map(|d| Binary::from(proto(&[(1, d.as_slice())])));
                Ok((ev, data))
            }
            CosmosMsg::Wasm(WasmMsg::Instantiate {
                admin,
                code_id,
                msg,
                funds,
                label,
            }) => {
                if label.is_empty() {
                    return Err("label is required".into());
                }
                let (addr, ev, data) = self.instantiate_at(
                    sender,
                    *code_id,
                    admin.clone(),
                    msg.as_slice(),
                    funds,
                    depth,
                )?;
                let mut f: Vec<(u8, &[u8])> = vec![(1, addr.as_bytes())];
                if let Some(d) = &data {
                    f.push((2, d.as_slice()));
                }
                Ok((ev, Some(Binary::from(proto(&f)))))
            }
            CosmosMsg::Wasm(WasmMsg::Migrate {
                contract_addr,
                new_code_id,
                msg,
            }) => {
                let to = normal(contract_addr).ok_or("invalid address")?;
                let mut m = self
                    .w
                    .borrow()
                    .meta(&to)
                    .ok_or_else(|| format!("no such contract: {}", to))?;
                if m.admin.as_deref() != Some(sender) {
                    return Err("unauthorized: not the admin".into());
                }
                if !codes::exists(*new_code_id) {
                    return Err(format!("no such code: {}", new_code_id));
                }
                m.code = *new_code_id;
                self.w.borrow_mut().set_meta(&to, &m);
                let (mut ev, data) =
                    self.call(Entry::Migrate, &to, sender, &[], msg.as_slice(), depth)?;
                ev.insert(
                    0,
                    Event::new("migrate")
                        .add_attribute("_contract_address", &to)
                        .add_attribute("code_id", new_code_id.to_string()),
                );
                let data = data.map(|d| Binary::from(proto(&[(1, d.as_slice())])));
                Ok((ev, data))
            }
            CosmosMsg::Wasm(WasmMsg::UpdateAdmin {
                contract_addr,
                admin,
            }) => {
                let mut m = self
                    .w
                    .borrow()
                    .meta(contract_addr)
                    .ok_or("no such contract")?;
                if m.admin.as_deref() != Some(sender) {
                    return Err("unauthorized: not the admin".into());
                }
                m.admin = Some(admin.clone());
                self.w.borrow_mut().set_meta(contract_addr, &m);
                Ok((vec![], None))
            }
            CosmosMsg::Wasm(WasmMsg::ClearAdmin { contract_addr }) => {
                let mut m = self
                    .w
                    .borrow()
                    .meta(contract_addr)
                    .ok_or("no such contract")?;
                if m.admin.as_deref() != Some(sender) {
                    return Err("unauthorized: not the admin".into());
                }
                m.admin = None;
                self.w.borrow_mut().set_meta(contract_addr, &m);
                Ok((vec![], None))
            }
            _ => Err("message not available in the simulated chain".into()),
        }
    }

    /// One transaction: all messages or none. A node crash leaves the journal alone; the caller
    /// rolls back to the block's start.
    pub fn run_tx(
        &self,
        sender: &str,
        msgs: &[CosmosMsg<Empty>],
        fault: Option<Fault>,
        tx_index: u32,
    ) -> TxResult {
        let mark = {
            let mut w = self.w.borrow_mut();
            w.calls = 0;
            w.msgs = 0;
            w.queries = 0;
            w.moved = 0;
            w.digest = FNV0;
            w.fault = fault;
            w.fired = false;
            w.muted = false;
            w.tx_index = tx_index;
            w.mark()
        };
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut events = vec![];
            let mut data = None;
            for m in msgs {
                let (ev, d) = self.dispatch(sender, m, 0)?;
                events.extend(ev);
                data = d;
            }
            Ok((events, data))
        }));
        let mut w = self.w.borrow_mut();
        w.muted = true;
        w.fault = None;
        let (res, abort) = match r {
            Ok(Ok(x)) => (Ok(x), None),
            Ok(Err(e)) => {
                w.rollback(mark);
                (Err(e), None)
            }
            Err(p) => match p.downcast_ref::<Abort>() {
                Some(a) => {
                    w.rollback(mark);
                    (Err(format!("aborted: {:?}", a)), Some(*a))
                }
                None => {
                    drop(w);
                    resume_unwind(p)
                }
            },
        };
        TxResult {
            res,
            abort,
            calls: w.calls,
            msgs: w.msgs,
            queries: w.queries,
            moved: w.moved,
            fired: w.fired,
            digest: w.digest,
        }
    }

    pub fn mark(&self) -> usize {
        self.w.borrow().mark()
    }
    pub fn rollback(&self, m: usize) {
        let mut w = self.w.borrow_mut();
        w.rollback(m);
        w.bank_dirty = true;
    }
}

fn proto(fields: &[(u8, &[u8])]) -> Vec<u8> {
    let mut v = vec![];
    for (n, b) in fields {
        v.push((n << 3) | 2);
        let mut l = b.len();
        loop {
            let byte = (l & 0x7f) as u8;
            l >>= 7;
            if l == 0 {
                v.push(byte);
                break;
            }
            v.push(byte | 0x80);
        }
        v.extend_from_slice(b);
    }
    v
}
