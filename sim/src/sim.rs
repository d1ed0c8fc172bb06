//! The driver: executes a schedule step by step against the real contracts, predicts each
//! transaction with the reference model, and checks every property as the run proceeds.
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

use cosmwasm_std::Event;
use serde::{Deserialize, Serialize};
use serde_json::json;

use crate::chain::{user_addr, Chain, Fault, TxResult};
use crate::codes;
use crate::model::{is_tainted, Model, PendPair, PendTok, Stop, P};
use crate::msg::{hops_json, Mk, Msg};
use crate::num;
use crate::obs::{self, AInfo, Bind, Obs, PairBind, RegEntry};
use crate::ops::{Acct, Amt, Asset, Cw, EMode, Genesis, Hook, Op, Step};
use crate::rng::{fnv, mix, FNV0};

#[derive(Clone, Debug)]
pub struct Viol {
    pub step: usize,
    pub props: BTreeSet<P>,
    pub class: String,
    pub msg: String,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LogTx {
    sender: String,
    msgs: Vec<Msg>,
    fault: Option<Fault>,
    digest: u64,
    idx: u32,
}

/// a committed block, as another node would receive it
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LogBlock {
    pub height: u64,
    pub time_ns: u64,
    pub txs: Vec<LogTx>,
    pub hash: u64,
}

impl LogBlock {
    pub fn ntx(&self) -> u64 {
        self.txs.len() as u64
    }
}

/// what a node that syncs at some height starts from, and the blocks it then executes
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Ledger {
    pub salt: u64,
    pub chain_id: String,
    pub from: usize,
    pub kv: Vec<(String, String)>,
    pub blocks: Vec<LogBlock>,
}

pub struct Scan {
    start: BTreeSet<String>,
    seen: Vec<String>,
    last: Option<[AInfo; 2]>,
    done: bool,
    created_between: bool,
    pages: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Ok,
    Fail(&'static str),
    Unknown(&'static str),
}

/// what the generator may want to know about the transaction just executed
#[derive(Clone, Debug)]
pub struct Last {
    pub skipped: bool,
    pub ok: bool,
    pub calls: u64,
    pub msgs: u64,
    pub queries: u64,
    pub moved: u64,
    pub err: String,
}

pub struct Sim {
    pub c: Chain,
    pub b: Bind,
    pub o: Obs,
    pub viols: Vec<Viol>,
    pub known: BTreeMap<String, u64>,
    pub stats: BTreeMap<String, u64>,
    pub evals: u64,
    pub sigs: BTreeSet<u64>,
    pub dead: bool,
    pub step_no: usize,
    pub digest: u64,
    pub path: u64,
    pub last: Last,
    pub focus: Option<String>,
    pub pagers: BTreeMap<u8, Scan>,
    pub double: bool,
    pub stop_on_focus: bool,
    pub trace: Option<Vec<String>>,
    /// per transaction or quote: what a client of the chain could tell apart, names made symbolic
    pub trail: Option<Vec<Mark>>,
    names: Names,
    /// accounts, contracts and coins that are not part of this history (see crowd.rs)
    pub apart: std::collections::HashSet<String>,
    notes: u64,
    /// operations hostile tokens were told to perform when called
    reentry: Vec<Op>,
    blk: Vec<LogTx>,
    blk_hash: u64,
    /// when set: keep the state after this many blocks, and every block after it
    pub keep_from: Option<usize>,
    pub ledger: Ledger,
    nblocks: usize,
    genesis_time: u64,
}

pub fn lg(x: u128) -> u64 {
    128 - x.leading_zeros() as u64
}

/// classes of the known findings listed in /verif/known_findings.json (loaded at start)
pub static KNOWN: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();


fn attr<'e>(e: &'e Event, k: &str) -> &'e str {
    e.attributes
        .iter()
        .find(|a| a.key == k)
        .map(|a| a.value.as_str())
        .unwrap_or("")
}
fn num_attr(e: &Event, k: &str) -> Option<u128> {
    attr(e, k).parse().ok()
}

/// one step as the twin comparison of C28, C29 and C30 sees it
#[derive(Clone, Debug, PartialEq)]
pub struct Mark {
    pub step: usize,
    pub ok: bool,
    pub skipped: bool,
    /// the amounts reported by the step's events or answered to its quotes
    pub notes: u64,
    /// every balance, supply, allowance and setting
    pub ledger: u64,
    pub sig: u64,
    /// host calls of the transaction, bytes they moved
    pub cost: (u64, u64),
}

/// the symbolic names of everything on this chain
#[derive(Default)]
pub struct Names {
    count: usize,
    id: std::collections::HashMap<String, u64>,
    /// (the part hashed, kept alive so that its address stays its own)
    parts: BTreeMap<String, (Rc<dyn std::any::Any>, u64)>,
}

pub struct Diff {
    what: &'static str,
    asset: Option<AInfo>,
    holder: String,
    text: String,
    props: Vec<P>,
}

impl Sim {
    pub fn new(g: &Genesis, focus: Option<&str>) -> Sim {
        Sim::with_guests(g, focus, &[])
    }

    /// Guests hold tokens from the beginning but appear in no observation.
    pub fn with_guests(g: &Genesis, focus: Option<&str>, guests: &[String]) -> Sim {
        // the block that sets everything up precedes the first one of the history
        let c = Chain::new(g.salt, g.height.saturating_sub(1), g.time_ns - 5_000_000_000);
        let mut b = Bind::default();
        for i in 0..g.users {
            b.users.push(user_addr(g.salt, i as u64));
        }
        b.users.extend(guests.iter().cloned());
        for d in &g.denoms {
            b.denoms.push(d.denom.clone());
        }
        let blank = Obs::blank();
        let mut s = Sim {
            c,
            b,
            o: blank,
            viols: vec![],
            known: BTreeMap::new(),
            stats: BTreeMap::new(),
            evals: 0,
            sigs: BTreeSet::new(),
            dead: false,
            step_no: 0,
            digest: FNV0,
            path: FNV0,
            last: Last {
                skipped: false,
                ok: false,
                calls: 0,
                msgs: 0,
                queries: 0,
                moved: 0,
                err: String::new(),
            },
            focus: focus.map(|x| x.to_string()),
            pagers: BTreeMap::new(),
            double: false,
            stop_on_focus: true,
            trace: None,
            trail: None,
            names: Names::default(),
            apart: guests.iter().cloned().collect(),
            notes: 0,
            reentry: vec![],
            blk: vec![],
            blk_hash: 0,
            keep_from: None,
            ledger: Ledger::default(),
            nblocks: 0,
            genesis_time: g.time_ns - 5_000_000_000,
        };
        s.genesis(g);
        s.b.users.truncate(g.users as usize);
        s
    }

    pub fn stat(&mut self, k: &str) {
        *self.stats.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn stat_n(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_insert(0) += n;
    }
    fn hit(&mut self, p: P, sig: u64) {
        if self.focus.as_deref() == Some(p) {
            self.evals += 1;
            if self.sigs.len() < 200_000 {
                self.sigs.insert(sig);
            }
        }
    }
    pub fn sim_seconds(&self) -> u64 {
        (self.c.w.borrow().time_ns - self.genesis_time) / 1_000_000_000
    }

    pub fn viol(&mut self, props: &[P], class: &str, msg: String) {
        if props.is_empty() {
            return;
        }
        if KNOWN.get().map(|v| v.iter().any(|k| k == class)).unwrap_or(false) {
            *self.known.entry(class.to_string()).or_insert(0) += 1;
            return;
        }
        if let Some(t) = &mut self.trace {
            t.push(format!("   !! {:?} {} {}", props, class, msg));
        }
        if self.viols.len() < 200 {
            self.viols.push(Viol {
                step: self.step_no,
                props: props.iter().copied().collect(),
                class: class.to_string(),
                msg,
            });
        }
    }
    pub fn focus_viol(&self) -> Option<&Viol> {
        match &self.focus {
            None => self.viols.first(),
            Some(f) => self.viols.iter().find(|v| v.props.contains(f.as_str())),
        }
    }
    pub fn stopped(&self) -> bool {
        self.dead || (self.stop_on_focus && self.focus_viol().is_some())
    }

    // ------------------------------------------------------------------ genesis

    fn genesis(&mut self, g: &Genesis) {
        {
            let mut w = self.c.w.borrow_mut();
            for d in &g.denoms {
                for u in &self.b.users {
                    w.set_balance(u, &d.denom, d.each.0);
                }
            }
        }
        let owner = self.b.users[0].clone();
        let r = self.c.instantiate_at(
            &owner,
            codes::FACTORY,
            Some(owner.clone()),
            &serde_json::to_vec(&json!({"pair_code_id":codes::PAIR,"token_code_id":codes::TOKEN}))
                .unwrap(),
            &[],
            0,
        );
        match r {
            Ok((a, _, _)) => self.b.factory = a,
            Err(e) => {
                self.viol(&["C16", "C21"], "genesis:factory", e);
                self.dead = true;
                return;
            }
        }
        let r = self.c.instantiate_at(
            &owner,
            codes::ROUTER,
            Some(owner.clone()),
            &serde_json::to_vec(&json!({"halo_factory":self.b.factory})).unwrap(),
            &[],
            0,
        );
        match r {
            Ok((a, _, _)) => self.b.router = a,
            Err(e) => {
                self.viol(&["C12", "C21"], "genesis:router", e);
                self.dead = true;
                return;
            }
        }
        for d in &g.evils {
            let (a, _, _) = self
                .c
                .instantiate_at(
                    &owner,
                    codes::EVIL,
                    None,
                    &serde_json::to_vec(&json!({"decimals":d,"mode":"honest"})).unwrap(),
                    &[],
                    0,
                )
                .expect("hostile token");
            self.b.evils.push(a);
        }
        match Obs::first(&self.c, &self.b) {
            Ok(o) => self.o = o,
            Err(e) => {
                self.viol(&["C16", "C21"], "genesis:unreadable", e);
                self.dead = true;
                return;
            }
        }
        if self.o.fac.owner != owner
            || self.o.fac.tok != codes::TOKEN
            || self.o.fac.pair != codes::PAIR
        {
            self.viol(&["C16"], "genesis:config", "factory configuration differs from what it was set up with".into());
        }
        if self.o.rtr.factory != self.b.factory {
            self.viol(&["C12"], "genesis:router-config", "router does not report its factory".into());
        }
        self.blk_hash = self.c.w.borrow().state_hash();
        self.c.w.borrow_mut().commit();
        for (i, t) in g.toks.iter().enumerate() {
            // a capped token has no room for guests
            let n = if t.cap.is_some() { g.users as usize } else { self.b.users.len() };
            let init = (0..n as u8).map(|u| (Acct::U(u), t.each)).collect();
            self.exec_tx(
                0,
                &[Op::TokInst {
                    slot: i as u8,
                    dec: t.dec,
                    init,
                    minter: t.minter.map(Acct::U),
                    cap: t.cap,
                    name: None,
                    sym: None,
                }],
                None,
            );
        }
        for (e, _) in g.evils.iter().enumerate() {
            for u in 0..g.users {
                self.exec_tx(
                    u,
                    &[Op::EvilMint {
                        e: e as u8,
                        to: Acct::U(u),
                        amt: Amt(1_000_000_000_000),
                    }],
                    None,
                );
            }
        }
        for (i, d) in g.denoms.iter().enumerate() {
            if let Some(dec) = d.dec {
                self.exec_tx(
                    0,
                    &[
                        Op::Send {
                            denom: i as u8,
                            to: Acct::Factory,
                            amt: Amt(1),
                        },
                        Op::AddNative {
                            denom: i as u8,
                            dec,
                        },
                    ],
                    None,
                );
            }
        }
        self.end_block(5, 1);
    }

    // ------------------------------------------------------------------ steps

    pub fn finish(&mut self) {
        if !self.dead {
            self.end_block(5, 1);
            let h = self.c.w.borrow().state_hash();
            self.digest = mix(self.digest, h);
        }
    }

    pub fn exec(&mut self, st: &Step) {
        self.step_no += 1;
        self.notes = 0;
        let path = self.path;
        self.last.skipped = true;
        self.exec_step(st);
        if self.trail.is_some() {
            self.leave_mark(st, path);
        }
    }

    fn leave_mark(&mut self, st: &Step, path: u64) {
        let (ok, skipped) = match st {
            Step::Tx { .. } => (self.last.ok, self.last.skipped),
            Step::Quote { .. } | Step::RouteQuote { .. } => (true, false),
            _ => return,
        };
        let m = Mark {
            step: self.step_no,
            ok,
            skipped,
            notes: self.notes,
            ledger: self.ledger_mark(),
            sig: mix(self.path ^ path, self.notes & 0xff),
            cost: (self.last.calls, self.last.moved),
        };
        self.trail.as_mut().unwrap().push(m);
    }

    /// The whole observable state with every address and denomination replaced by its role.
    fn ledger_mark(&mut self) -> u64 {
        let n = self.b.pairs.len() * 2 + self.b.toks.len() + self.b.users.len() + self.b.evils.len();
        if self.names.count != n {
            self.names.count = n;
            self.names.id.clear();
            let mut all: Vec<String> = self.b.users.clone();
            all.extend(self.b.toks.values().cloned());
            all.extend(self.b.evils.iter().cloned());
            all.extend(self.b.pairs.values().flat_map(|p| [p.addr.clone(), p.lp.clone()]));
            all.push(self.b.factory.clone());
            all.push(self.b.router.clone());
            for a in all {
                let w = self.b.who(&a);
                self.names.id.insert(a, fnv(FNV0, w.as_bytes()));
            }
            for (i, d) in self.b.denoms.iter().enumerate() {
                self.names.id.insert(d.clone(), mix(0xD0, i as u64));
            }
            self.names.parts.clear();
        }
        let id = |x: &str, m: &std::collections::HashMap<String, u64>| -> u64 {
            m.get(x)
                .copied()
                .or_else(|| m.get(&x.to_lowercase()).map(|h| h ^ 1))
                .unwrap_or_else(|| fnv(FNV0, x.as_bytes()))
        };
        let amt = |v: u128| mix(v as u64, (v >> 64) as u64);
        // sums, so that the order of the entries does not matter
        let mut total = 0u64;
        let o = &self.o;
        type Parts = BTreeMap<String, (Rc<dyn std::any::Any>, u64)>;
        let part = |key: &str, ptr: Rc<dyn std::any::Any>, f: &dyn Fn() -> u64, parts: &mut Parts| -> u64 {
            match parts.get(key) {
                Some((p, h)) if Rc::as_ptr(p) as *const u8 == Rc::as_ptr(&ptr) as *const u8 => *h,
                _ => {
                    let h = f();
                    parts.insert(key.to_string(), (ptr, h));
                    h
                }
            }
        };
        let ids = &self.names.id;
        let apart = &self.apart;
        let parts = &mut self.names.parts;
        total = total.wrapping_add(part(
            "bank",
            o.bank.clone(),
            &|| {
                o.bank.iter().filter(|((a, d), v)| **v > 0 && !apart.contains(a) && !apart.contains(d)).fold(0u64, |h, ((a, d), v)| {
                    h.wrapping_add(mix(mix(id(a, ids), id(d, ids)), amt(*v)))
                })
            },
            parts,
        ));
        for (t, k) in &o.toks {
            total = total.wrapping_add(part(
                t,
                k.clone(),
                &|| {
                    let me = id(t, ids);
                    let theirs = k.bal.iter().filter(|(a, _)| apart.contains(*a)).fold(0u128, |s, (_, v)| s.wrapping_add(*v));
                    let mut h = mix(me, mix(amt(k.supply.wrapping_sub(theirs)), k.dec as u64));
                    if let Some((m, c)) = &k.minter {
                        h = h.wrapping_add(mix(mix(me, id(m, ids)), amt(c.unwrap_or(7)) + 1));
                    }
                    for (a, v) in k.bal.iter().filter(|(a, _)| !apart.contains(*a)) {
                        h = h.wrapping_add(mix(mix(me, id(a, ids)), amt(*v)));
                    }
                    for ((a, b), (v, _)) in &k.allow {
                        if *v > 0 && !apart.contains(a) && !apart.contains(b) {
                            h = h.wrapping_add(mix(mix(me, mix(id(a, ids), id(b, ids))), amt(*v)));
                        }
                    }
                    h
                },
                parts,
            ));
        }
        for (a, p) in &o.pairs {
            total = total.wrapping_add(part(
                a,
                p.clone(),
                &|| {
                    let me = id(a, ids);
                    let side = |i: usize| mix(mix(id(p.a[i].name(), ids), p.dec[i] as u64), amt(p.mins[i]));
                    let mut h = mix(mix(me, id(&p.lp, ids)), side(0).wrapping_add(side(1)));
                    for w in &p.white {
                        h = h.wrapping_add(mix(me, id(w, ids)));
                    }
                    h.wrapping_add(mix(me, p.code))
                },
                parts,
            ));
        }
        total.wrapping_add(part(
            "factory",
            o.fac.clone(),
            &|| {
                let f = &o.fac;
                let mut h = mix(mix(id(&f.owner, ids), f.tok), f.pair);
                for (d, k) in &f.dec {
                    h = h.wrapping_add(mix(id(d, ids), *k as u64 + 1));
                }
                for (a, e) in &f.reg {
                    for x in e {
                        h = h.wrapping_add(match x {
                            Ok(x) => mix(id(a, ids), mix(id(&x.addr, ids), id(&x.lp, ids))),
                            Err(_) => mix(id(a, ids), 13),
                        });
                    }
                }
                h
            },
            parts,
        ))
    }

    /// the observable state in words, for the report of a difference
    pub fn ledger_text(&self) -> BTreeSet<String> {
        let b = &self.b;
        let den = |d: &str| match b.denoms.iter().position(|x| x == d) {
            Some(i) => format!("coin{}", i),
            None => d.to_string(),
        };
        let mut v = BTreeSet::new();
        let far = |x: &str| self.apart.contains(x);
        for ((a, d), x) in self.o.bank.iter().filter(|((a, d), _)| !far(a) && !far(d)) {
            v.insert(format!("{} has {} {}", b.who(a), x, den(d)));
        }
        for (t, k) in &self.o.toks {
            let theirs = k.bal.iter().filter(|(a, _)| far(a)).fold(0u128, |s, (_, v)| s.wrapping_add(*v));
            v.insert(format!("{} supply {} minter {:?}", b.who(t), k.supply.wrapping_sub(theirs), k.minter.as_ref().map(|m| (b.who(&m.0), m.1))));
            for (a, x) in k.bal.iter().filter(|(a, _)| !far(a)) {
                v.insert(format!("{} has {} {}", b.who(a), x, b.who(t)));
            }
            for ((a, s), (x, _)) in &k.allow {
                if *x > 0 && !far(a) && !far(s) {
                    v.insert(format!("{} lets {} spend {} {}", b.who(a), b.who(s), x, b.who(t)));
                }
            }
        }
        for (a, p) in &self.o.pairs {
            for i in 0..2 {
                let n = match &p.a[i] {
                    AInfo::Nat(d) => den(d),
                    AInfo::Tok(t) => b.who(t),
                };
                v.insert(format!("{} asset {} decimals {} minimum {}", b.who(a), n, p.dec[i], p.mins[i]));
            }
            v.insert(format!("{} code {} admits {:?}", b.who(a), p.code, p.white.iter().map(|w| b.who(&w.to_lowercase())).collect::<BTreeSet<_>>()));
        }
        let f = &self.o.fac;
        v.insert(format!("factory owner {} codes {} {}", b.who(&f.owner), f.tok, f.pair));
        for (d, k) in &f.dec {
            v.insert(format!("{} registered with {} decimals", den(d), k));
        }
        for (a, e) in &f.reg {
            for x in e {
                v.insert(format!("looking up {} gives {:?}", b.who(a), x.as_ref().map(|x| (b.who(&x.addr), b.who(&x.lp))).map_err(|_| "nothing")));
            }
        }
        v
    }

    fn note(&mut self, v: u128) {
        self.notes = mix(self.notes, mix(v as u64, (v >> 64) as u64)).max(1);
    }

    fn note_events(&mut self, r: &TxResult) {
        const KEYS: [&str; 6] = [
            "offer_amount",
            "return_amount",
            "spread_amount",
            "commission_amount",
            "share",
            "withdrawn_share",
        ];
        let mut v: Vec<u128> = vec![];
        for e in r.events().iter().filter(|e| e.ty == "wasm" && self.o.pairs.contains_key(attr(e, "_contract_address"))) {
            for k in KEYS {
                if let Some(x) = num_attr(e, k) {
                    v.push(x);
                }
            }
        }
        for x in v {
            self.note(x);
        }
    }

    fn exec_step(&mut self, st: &Step) {
        match st {
            Step::Block { dt, dh } => self.end_block(*dt, *dh),
            Step::Tx { by, ops, fault } => self.exec_tx(*by, ops, *fault),
            Step::Quote { pair, first, amt } => self.quote(*pair, *first, amt.0),
            Step::RouteQuote { hops, amt } => self.route_quote(hops, amt.0),
            Step::Solo { pair, by, seed, n } => self.solo(*pair, *by, *seed, *n),
            Step::Page { c, limit, swap } => self.page(*c, *limit, *swap),
            Step::PageReset { c } => {
                self.pagers.remove(c);
            }
        }
    }

    pub fn end_block(&mut self, dt: u64, dh: u64) {
        if self.double && !self.blk.is_empty() {
            self.replay_block("re-execution in another process");
            if self.dead {
                return;
            }
        }
        let h = self.c.w.borrow().state_hash();
        self.digest = mix(self.digest, h);
        self.blk_hash = h;
        self.record_block(h);
        self.blk.clear();
        let mut w = self.c.w.borrow_mut();
        w.commit();
        w.height += dh.max(1);
        w.time_ns += dt.max(1) * 1_000_000_000;
        drop(w);
        self.stat("blocks");
    }

    fn record_block(&mut self, h: u64) {
        self.nblocks += 1;
        let from = match self.keep_from {
            Some(f) => f,
            None => return,
        };
        if self.nblocks < from {
            return;
        }
        let w = self.c.w.borrow();
        if self.nblocks == from {
            drop(w);
            self.keep_state(from);
        } else {
            self.ledger.blocks.push(LogBlock {
                height: w.height,
                time_ns: w.time_ns,
                txs: self.blk.clone(),
                hash: h,
            });
        }
    }

    fn keep_state(&mut self, from: usize) {
        let w = self.c.w.borrow();
        self.ledger.salt = w.salt;
        self.ledger.chain_id = w.chain_id.clone();
        self.ledger.from = from;
        self.ledger.kv = w.dump();
    }

    /// keep the committed state after block `from` (block 1 is genesis) and all later blocks
    pub fn keep(&mut self, from: usize) {
        self.keep_from = Some(from);
        if self.nblocks >= from {
            self.keep_state(self.nblocks);
        }
    }

    /// Another node: starts from the committed state alone and executes the blocks.
    pub fn replica(l: &Ledger) -> Option<String> {
        let c = Chain::load(l.salt, &l.chain_id, &l.kv);
        for (i, b) in l.blocks.iter().enumerate() {
            {
                let mut w = c.w.borrow_mut();
                w.height = b.height;
                w.time_ns = b.time_ns;
            }
            for (j, t) in b.txs.iter().enumerate() {
                let r = c.run_tx(&t.sender, &t.msgs, t.fault, t.idx);
                if r.outcome_digest(true) != t.digest {
                    return Some(format!(
                        "a node that synced after block {} gets another outcome for transaction {} of block {} ({:?})",
                        l.from,
                        j,
                        l.from + 1 + i,
                        t.msgs
                    ));
                }
            }
            let h = c.w.borrow().state_hash();
            if h != b.hash {
                return Some(format!(
                    "a node that synced after block {} has another state after block {}",
                    l.from,
                    l.from + 1 + i
                ));
            }
            c.w.borrow_mut().commit();
        }
        None
    }

    /// Lose everything since the last committed block, restart, execute the block's transactions again.
    fn replay_block(&mut self, why: &str) {
        let before = self.c.w.borrow().state_hash();
        self.c.rollback(0);
        let h0 = self.c.w.borrow().state_hash();
        if h0 != self.blk_hash {
            panic!("harness: rollback did not restore the committed state");
        }
        let blk = std::mem::take(&mut self.blk);
        for t in &blk {
            let r = self.c.run_tx(&t.sender, &t.msgs, t.fault, t.idx);
            let d = r.outcome_digest(true);
            if d != t.digest {
                self.viol(
                    &["C19"],
                    "re-execution:outcome",
                    format!("{}: a transaction of the block came out differently the second time", why),
                );
                self.dead = true;
                return;
            }
        }
        self.blk = blk;
        let after = self.c.w.borrow().state_hash();
        if after != before {
            self.viol(
                &["C19"],
                "re-execution:state",
                format!("{}: the state after the block differs", why),
            );
            self.dead = true;
        }
        self.stat("blocks re-executed");
    }

    fn log(&mut self, f: impl FnOnce() -> String) {
        if self.trace.is_some() {
            let s = f();
            self.trace.as_mut().unwrap().push(s);
        }
    }

    // ------------------------------------------------------------------ transactions

    fn skip(&mut self) {
        self.last = Last {
            skipped: true,
            ok: false,
            calls: 0,
            msgs: 0,
            queries: 0,
            moved: 0,
            err: String::new(),
        };
        self.stat("transactions skipped");
    }

    pub fn exec_tx(&mut self, by: u8, ops: &[Op], fault: Option<Fault>) {
        if self.dead {
            return;
        }
        let sender = match self.b.users.get(by as usize) {
            Some(s) => s.clone(),
            None => return self.skip(),
        };
        if ops.is_empty() {
            return self.skip();
        }
        for (i, op) in ops.iter().enumerate() {
            if let Some(slot) = creates(op) {
                let taken = match op {
                    Op::TokInst { .. } => self.b.toks.contains_key(&slot),
                    _ => self.b.pairs.contains_key(&slot),
                };
                if i + 1 != ops.len() || taken {
                    return self.skip();
                }
            }
        }
        let (height, time_ns) = {
            let w = self.c.w.borrow();
            (w.height, w.time_ns)
        };
        let mk = Mk {
            b: &self.b,
            height,
            time_ns,
        };
        let msgs: Option<Vec<Msg>> = ops.iter().map(|o| mk.msg(o)).collect();
        let msgs = match msgs {
            Some(m) => m,
            None => return self.skip(),
        };
        // what must happen
        let bind = self.b.clone();
        let mut m = Model::new(&self.o, &bind, height, time_ns);
        let mut pred = Pred::Ok;
        let mut props: Vec<P> = vec![];
        for op in ops {
            match m.apply(&sender, op) {
                Ok(()) => {}
                Err(Stop::Fail(w, p)) => {
                    pred = Pred::Fail(w);
                    props = p;
                    break;
                }
                Err(Stop::Unknown(w)) => {
                    pred = Pred::Unknown(w);
                    break;
                }
            }
        }
        if matches!(pred, Pred::Unknown(_)) && m.pend_pair.is_none() && m.pend_tok.is_none() {
            // what an unpredictable call creates later in the same transaction cannot be attributed
            if ops.iter().any(|o| matches!(o, Op::CreatePair { .. } | Op::TokInst { .. } | Op::PairInst { .. })) {
                return self.skip();
            }
        }
        // the quote a client would see right now
        let quote = self.pre_quote(ops);
        let rquote = self.pre_route_quote(ops, &m, &pred);

        let idx = self.blk.len() as u32;
        let inst0 = self.c.w.borrow().instances();
        let mut fault = fault;
        let mut r = self.c.run_tx(&sender, &msgs, fault, idx);
        if let (Some(Fault::Crash(_)), true) = (fault, r.fired) {
            self.stat("fault fired: node crash");
            self.path = mix(self.path, 0xC4A5);
            self.replay_block("after a crash");
            if self.dead {
                return;
            }
            fault = None;
            r = self.c.run_tx(&sender, &msgs, None, idx);
        }
        if let Some(Fault::Crash(_)) = fault {
            fault = None;
        }
        let d = r.outcome_digest(true);
        self.digest = mix(self.digest, d);
        self.blk.push(LogTx {
            sender: sender.clone(),
            msgs: msgs.clone(),
            fault,
            digest: d,
            idx,
        });
        self.last = Last {
            skipped: false,
            ok: r.ok(),
            calls: r.calls,
            msgs: r.msgs,
            queries: r.queries,
            moved: r.moved,
            err: r.res.as_ref().err().cloned().unwrap_or_default(),
        };
        self.stat("transactions");
        if r.fired {
            let k = match fault {
                Some(Fault::Oog(_)) => "fault fired: out of gas",
                Some(Fault::FailMsg(_)) => "fault fired: nested message refused",
                Some(Fault::FailQuery(_)) => "fault fired: query failed",
                _ => "fault fired: other",
            };
            self.stat(k);
        } else if fault.is_some() {
            self.stat("faults configured that did not fire");
        }
        let opsig = ops.iter().fold(7u64, |h, o| mix(h, op_sig(o)));
        let outcome = (r.ok() as u64) | ((r.fired as u64) << 1)
            | match pred {
                Pred::Ok => 0,
                Pred::Fail(w) => fnv(FNV0, w.as_bytes()) << 4,
                Pred::Unknown(_) => 1 << 3,
            };
        self.path = mix(self.path, mix(mix(opsig, by as u64), outcome));
        if self.trace.is_some() {
            let line = format!(
                "[{}] user{} {:?} fault={:?} -> {} (model: {:?})",
                self.step_no,
                by,
                ops,
                fault,
                match &r.res {
                    Ok(_) => "ok".to_string(),
                    Err(e) => format!("refused: {}", e),
                },
                pred
            );
            self.log(|| line);
        }

        if !r.ok() {
            self.c.w.borrow_mut().dirty.clear();
            if r.fired {
                self.stat("transactions undone by a fault");
                self.hit("C10", mix(opsig, fault_sig(&fault)));
                return;
            }
            match pred {
                Pred::Ok => {
                    if m.gray.is_some() {
                        self.stat("borderline guard refused");
                    } else {
                        self.unexpected_refusal(&sender, ops, &m, &r, idx);
                    }
                }
                Pred::Fail(w) => {
                    self.stat(&format!("refused as it must be: {}", w));
                    for p in props.clone() {
                        self.hit(p, mix(opsig, fnv(FNV0, w.as_bytes())));
                    }
                    self.hit("C10", opsig);
                }
                Pred::Unknown(w) => self.stat(&format!("unknown refused: {}", w)),
            }
            return;
        }

        // ------------------------------------------------ the transaction reports success
        let pre = self.o.clone();
        let inst1 = self.c.w.borrow().instances();
        let mut created: Vec<(String, u64)> = vec![];
        if inst1 > inst0 {
            let mut v: Vec<(u32, String, u64)> = self
                .c
                .w
                .borrow()
                .contracts()
                .into_iter()
                .filter(|(_, m)| m.idx >= inst0)
                .map(|(a, m)| (m.idx, a, m.code))
                .collect();
            v.sort();
            created = v.into_iter().map(|(_, a, c)| (a, c)).collect();
        }
        let pend_pair = m.pend_pair.clone();
        let pend_tok = m.pend_tok.clone();
        if let Some(pp) = &pend_pair {
            let pa = created.iter().find(|(_, c)| codes::is_pair(*c));
            let lp = created.iter().find(|(_, c)| codes::is_token(*c));
            if let (Some(pa), Some(lp)) = (pa, lp) {
                self.b.pairs.insert(
                    pp.slot,
                    PairBind {
                        addr: pa.0.clone(),
                        lp: lp.0.clone(),
                        a: pp.a,
                        by_factory: pp.by_factory,
                    },
                );
            }
        }
        if let Some(pt) = &pend_tok {
            if let Some((a, _)) = created.iter().find(|(_, c)| codes::is_token(*c)) {
                self.b.toks.insert(pt.slot, a.clone());
            }
        }
        if let Err(e) = self.o.refresh(&self.c, &self.b) {
            let mut p: Vec<P> = vec!["C21"];
            p.extend(kind_props(ops));
            self.viol(&p, "unreadable", format!("a public query fails after the transaction: {}", e));
            self.dead = true;
            return;
        }
        self.stat("transactions that succeeded");
        if self.trail.is_some() {
            self.note_events(&r);
        }
        for op in ops {
            if let Op::EvilSet {
                mode: EMode::Reenter(v),
                ..
            } = op
            {
                self.reentry.extend(v.iter().cloned());
            }
        }

        match pred {
            Pred::Fail(w) if props.is_empty() => {
                self.stat(&format!("unspecified accepted: {}", w));
                self.isolation(&pre, ops, &sender);
            }
            Pred::Fail(w) => {
                let mut p = props.clone();
                if r.fired && !p.is_empty() {
                    p.push("C10");
                }
                self.viol(
                    &p,
                    &format!("accepted:{}", w),
                    format!("accepted although it must be refused ({}): user{} {:?}", w, by, ops),
                );
            }
            Pred::Ok => {
                if m.gray.is_some() {
                    self.stat("borderline guard accepted");
                }
                let exp = m.o.clone();
                let diffs = self.diff(&exp, &pre, ops, &m, &sender);
                if !diffs.is_empty() {
                    self.report_diffs(&diffs, &sender, ops, &m, &r, &msgs, idx, &pre);
                }
                self.check_created(&pend_pair, &pend_tok, &created, &r, ops);
                self.check_events(&r, &m, &pre, ops, diffs.is_empty());
                self.check_quotes(quote, rquote, ops.len() == 1, &m, &r, &pre);
                self.count_ok(&m, ops, opsig, &fault, r.fired, &pre, by);
            }
            Pred::Unknown(w) => {
                self.stat(&format!("unknown accepted: {}", w));
                self.isolation(&pre, ops, &sender);
                if pend_pair.is_some() || pend_tok.is_some() {
                    self.check_created(&pend_pair, &pend_tok, &created, &r, ops);
                }
            }
        }
        if pend_pair.is_none() && pend_tok.is_none() && !created.is_empty() {
            self.viol(&["C14"], "contract-appeared", "contracts were created by an operation that creates none".into());
            self.dead = true;
            return;
        }
        self.invariants(&pre, &m, pred == Pred::Ok, ops, &r);
        self.minimum_kept(&pre, ops, &sender);
        self.approvals(&pre, ops, &sender);
        self.answers(Some(&pre));
    }

    /// The same transaction, changed, tried on a copy of the present state.
    fn what_if(&self, sender: &str, ops: &[Op], idx: u32) -> bool {
        let (height, time_ns) = {
            let w = self.c.w.borrow();
            (w.height, w.time_ns)
        };
        let mk = Mk {
            b: &self.b,
            height,
            time_ns,
        };
        let msgs: Option<Vec<Msg>> = ops.iter().map(|o| mk.msg(o)).collect();
        let msgs = match msgs {
            Some(m) => m,
            None => return false,
        };
        let mark = self.c.mark();
        let r = self.c.run_tx(sender, &msgs, None, idx);
        self.c.rollback(mark);
        self.c.w.borrow_mut().dirty.clear();
        r.ok()
    }

    /// another listed pair whose two assets, written one after the other, read the same
    fn key_collision(&self, a: &[Asset; 2]) -> bool {
        fn key(a: &[AInfo; 2]) -> Vec<u8> {
            let mut v: Vec<Vec<u8>> = a
                .iter()
                .map(|x| match x {
                    AInfo::Tok(t) => crate::chain::canon(t).unwrap_or_default(),
                    AInfo::Nat(d) => d.as_bytes().to_vec(),
                })
                .collect();
            v.sort();
            v.concat()
        }
        let me = match (self.b.asset(&a[0]), self.b.asset(&a[1])) {
            (Some(x), Some(y)) => [x.canon(), y.canon()],
            _ => return false,
        };
        self.o.pairs.values().any(|p| {
            let same = (p.a[0] == me[0] && p.a[1] == me[1]) || (p.a[0] == me[1] && p.a[1] == me[0]);
            !same && key(&p.a) == key(&me)
        })
    }

    fn unexpected_refusal(&mut self, sender: &str, ops: &[Op], m: &Model, r: &TxResult, idx: u32) {
        let err = r.res.as_ref().err().cloned().unwrap_or_default();
        if m.native_hop {
            self.viol(&["C21"], "route-native-offer-hop-refused", String::new());
            return;
        }
        if let Some(Op::CreatePair { a, .. }) = ops.last() {
            if self.key_collision(a) {
                self.viol(&["C14"], "denom-concat-collision", String::new());
                return;
            }
        }
        // which of the transaction's messages it is that fails
        let at = (1..=ops.len()).find(|&k| !self.what_if(sender, &ops[..k], idx));
        let culprit = match at {
            Some(k) => &ops[k - 1..k],
            None => ops,
        };
        let mut p: Vec<P> = refusal_props(culprit);
        let mut class = "refused".to_string();
        if m.guards > 0 && self.what_if(sender, &map_ops(ops, Strip::Guards), idx) {
            p = vec!["C04"];
            class = "refused:guard".into();
        }
        if m.tols > 0 && self.what_if(sender, &map_ops(ops, Strip::Tol), idx) {
            p = vec!["C06"];
            class = "refused:tolerance".into();
        }
        if m.mins > 0 && self.what_if(sender, &map_ops(ops, Strip::Min), idx) {
            p = vec!["C11"];
            class = "refused:minimum".into();
        }
        p.push("C21");
        let deposit = culprit.iter().any(|o| matches!(o, Op::Provide { .. }));
        if deposit && (m.whitelist_free || (m.first_deposit && class == "refused")) {
            p.push("C07");
        }
        self.viol(
            &p,
            &class,
            format!("a valid operation is refused ({}): {} {:?}", err, self.b.who(sender), ops),
        );
    }

    // ------------------------------------------------------------------ comparison with the model

    fn diff(&self, exp: &Obs, pre: &Obs, ops: &[Op], m: &Model, sender: &str) -> Vec<Diff> {
        let act = &self.o;
        let mut v: Vec<Diff> = vec![];
        let base = kind_props(ops);
        let migrates = has_migrate(ops);
        let mut push = |what: &'static str,
                        asset: Option<AInfo>,
                        holder: &str,
                        text: String,
                        props: Vec<P>| {
            let mut props = props;
            if migrates {
                props.push("C22");
            }
            props.sort();
            props.dedup();
            v.push(Diff {
                what,
                asset,
                holder: holder.to_string(),
                text,
                props,
            })
        };
        let bystander = |h: &str| h != sender && !m.named.contains(h);
        // looked up only when something differs
        let about = std::cell::OnceCell::new();
        let about = || about.get_or_init(|| self.concerned(pre, ops, sender));
        if !Rc::ptr_eq(&exp.bank, &act.bank) {
            let keys: BTreeSet<_> = exp.bank.keys().chain(act.bank.keys()).collect();
            for k in keys {
                let (e, a) = (
                    exp.bank.get(k).copied().unwrap_or(0),
                    act.bank.get(k).copied().unwrap_or(0),
                );
                if e != a {
                    let mut p = base.clone();
                    if bystander(&k.0) || !about().1.contains(&k.1) {
                        p.push("C13");
                    }
                    push(
                        "balance",
                        Some(AInfo::Nat(k.1.clone())),
                        &k.0,
                        format!("{} of {}: expected {}, is {}", k.1, self.b.who(&k.0), e, a),
                        p,
                    );
                }
            }
        }
        for (t, e) in &exp.toks {
            let a = match act.toks.get(t) {
                Some(a) => a,
                None => {
                    push("token", None, t, "token unreadable".into(), vec!["C21"]);
                    continue;
                }
            };
            if Rc::ptr_eq(e, a) || e == a {
                continue;
            }
            let lp = act.pairs.values().any(|p| p.lp == *t);
            let who = self.b.who(t);
            let keys: BTreeSet<_> = e.bal.keys().chain(a.bal.keys()).collect();
            for k in keys {
                let (x, y) = (
                    e.bal.get(k).copied().unwrap_or(0),
                    a.bal.get(k).copied().unwrap_or(0),
                );
                if x != y {
                    let mut p = base.clone();
                    if lp {
                        p.push("C09");
                    }
                    if bystander(k) || !about().2.contains(t) {
                        p.push("C13");
                    }
                    push(
                        "balance",
                        Some(AInfo::Tok(t.clone())),
                        k,
                        format!("{} of {}: expected {}, is {}", who, self.b.who(k), x, y),
                        p,
                    );
                }
            }
            if e.supply != a.supply {
                let mut p = base.clone();
                p.push(if lp { "C09" } else { "C23" });
                push(
                    "supply",
                    Some(AInfo::Tok(t.clone())),
                    "",
                    format!("supply of {}: expected {}, is {}", who, e.supply, a.supply),
                    p,
                );
            }
            if e.allow != a.allow {
                // expired entries may be tidied away
                let keys: BTreeSet<_> = e.allow.keys().chain(a.allow.keys()).collect();
                for k in keys {
                    let (x, y) = (e.allow.get(k), a.allow.get(k));
                    let nil = |z: Option<&(u128, cw20::Expiration)>| {
                        z.map(|z| z.0 == 0).unwrap_or(true)
                    };
                    if x == y || (nil(x) && nil(y)) {
                        continue;
                    }
                    let mut p = vec!["C23"];
                    if bystander(&k.0) {
                        p.push("C13");
                    }
                    push(
                        "allowance",
                        Some(AInfo::Tok(t.clone())),
                        &k.0,
                        format!(
                            "allowance of {} from {} to {}: expected {:?}, is {:?}",
                            who,
                            self.b.who(&k.0),
                            self.b.who(&k.1),
                            x,
                            y
                        ),
                        p,
                    );
                }
            }
            if e.minter != a.minter {
                push(
                    "minter",
                    None,
                    t,
                    format!("minter of {}: expected {:?}, is {:?}", who, e.minter, a.minter),
                    if lp { vec!["C09", "C23"] } else { vec!["C23"] },
                );
            }
            if e.dec != a.dec || e.code != a.code || e.admin != a.admin {
                push("token", None, t, format!("{}: settings changed", who), vec!["C22", "C23", "C34"]);
            }
            if e.name != a.name || e.sym != a.sym {
                let txt = format!("{}: called {:?} ({:?}) before, {:?} ({:?}) now", who, e.name, e.sym, a.name, a.sym);
                push("token", None, t, txt, vec!["C34"]);
            }
        }
        for (addr, e) in &exp.pairs {
            let a = match act.pairs.get(addr) {
                Some(a) => a,
                None => {
                    push("pair", None, addr, "pair unreadable".into(), vec!["C21"]);
                    continue;
                }
            };
            if Rc::ptr_eq(e, a) || e == a {
                continue;
            }
            let who = self.b.who(addr);
            if e.a != a.a || e.lp != a.lp {
                push("pair", None, addr, format!("{}: assets or liquidity token changed", who), vec!["C14", "C09"]);
            }
            if e.dec != a.dec {
                push("pair", None, addr, format!("{}: recorded decimals changed", who), vec!["C17"]);
            }
            if e.white != a.white || e.mins != a.mins {
                push("pair", None, addr, format!("{}: seeding requirements changed", who), vec!["C07"]);
            }
            if e.code != a.code || e.admin != a.admin {
                push(
                    "code",
                    None,
                    addr,
                    format!(
                        "{}: expected code {} admin {:?}, is code {} admin {:?}",
                        who, e.code, e.admin, a.code, a.admin
                    ),
                    vec!["C22", "C16"],
                );
            }
        }
        if !Rc::ptr_eq(&exp.fac, &act.fac) {
            let (e, a) = (&exp.fac, &act.fac);
            if (&e.owner, e.tok, e.pair) != (&a.owner, a.tok, a.pair) {
                push(
                    "config",
                    None,
                    "factory",
                    format!(
                        "factory configuration: expected {} {} {}, is {} {} {}",
                        self.b.who(&e.owner),
                        e.tok,
                        e.pair,
                        self.b.who(&a.owner),
                        a.tok,
                        a.pair
                    ),
                    vec!["C16"],
                );
            }
            if e.dec != a.dec {
                push(
                    "decimals",
                    None,
                    "factory",
                    format!("registered decimals: expected {:?}, is {:?}", e.dec, a.dec),
                    vec!["C17", "C16"],
                );
            }
            if e.code != a.code || e.admin != a.admin {
                push("code", None, "factory", "factory code or admin".into(), vec!["C22"]);
            }
        }
        for (p, e) in &pre.fac.reg {
            match act.fac.reg.get(p) {
                Some(a) if a == e => {}
                a => {
                    let mut pr = vec!["C14"];
                    if let Some([Ok(a0), _]) = a {
                        if let Ok(e0) = &e[0] {
                            if e0.dec != a0.dec {
                                pr.push("C17");
                            }
                        }
                    }
                    push(
                        "registry",
                        None,
                        p,
                        format!("registry entry of {} changed: {:?} -> {:?}", self.b.who(p), e, a),
                        pr,
                    );
                }
            }
        }
        if exp.rtr != act.rtr {
            push("router", None, "router", "router settings changed".into(), vec!["C22"]);
        }
        v
    }

    #[allow(clippy::too_many_arguments)]
    fn report_diffs(
        &mut self,
        diffs: &[Diff],
        sender: &str,
        ops: &[Op],
        m: &Model,
        r: &TxResult,
        msgs: &[Msg],
        idx: u32,
        _pre: &Obs,
    ) {
        let mut props: BTreeSet<P> = diffs.iter().flat_map(|d| d.props.iter().copied()).collect();
        if r.fired {
            props.insert("C10");
        }
        // a route whose hops, executed one by one, give the same: then the price is wrong, not the route
        if props.contains("C12") {
            if let Some(same) = self.hop_by_hop(sender, ops, m, msgs, idx) {
                props.remove(if same { "C12" } else { "C03" });
            }
        }
        let kinds: BTreeSet<&str> = diffs.iter().map(|d| d.what).collect();
        let class = format!(
            "wrong-effect:{}",
            kinds.into_iter().collect::<Vec<_>>().join("+")
        );
        let text: Vec<String> = diffs.iter().take(6).map(|d| d.text.clone()).collect();
        let _ = diffs.iter().map(|d| (&d.asset, &d.holder)).count();
        let p: Vec<P> = props.into_iter().collect();
        self.viol(
            &p,
            &class,
            format!(
                "{}{} {:?}: {}",
                if r.fired { "(a step was made to fail) " } else { "" },
                self.b.who(sender),
                ops,
                text.join("; ")
            ),
        );
    }

    /// Undo the transaction just executed, perform the route as separate swaps by its sender, compare
    /// every balance, and execute the transaction again.
    fn hop_by_hop(&mut self, sender: &str, ops: &[Op], m: &Model, msgs: &[Msg], idx: u32) -> Option<bool> {
        if ops.len() != 1 || m.native_hop {
            return None;
        }
        let (tok, amt, hops, to) = match &ops[0] {
            Op::Cw {
                tok,
                msg:
                    Cw::Send {
                        to: Acct::Router,
                        amt,
                        hook: Hook::Route { hops, to, .. },
                    },
            } => (tok, amt.0, hops, to),
            _ => return None,
        };
        let dest = match to {
            Some(t) => self.b.acct(t)?,
            None => sender.to_string(),
        };
        let after = self.o.clone();
        // put back
        let hash = self.c.w.borrow().state_hash();
        let mut undo = 0;
        for t in &self.blk {
            undo = undo.max(t.idx);
        }
        let blk_len = self.blk.len();
        self.c.rollback(0);
        for t in &self.blk[..blk_len - 1] {
            self.c.run_tx(&t.sender, &t.msgs, t.fault, t.idx);
        }
        let mark = self.c.mark();
        let mut cur = self.b.asset(tok)?;
        let mut amount = amt;
        let mut same = true;
        for (i, (x, y)) in hops.iter().enumerate() {
            let (x, y) = (self.b.asset(x)?, self.b.asset(y)?);
            let pair = m.find_pair(&x, &y);
            let recv = if i + 1 == hops.len() { dest.clone() } else { sender.to_string() };
            let bal = |c: &Chain, a: &AInfo, w: &str| -> u128 { live_balance(c, a, w) };
            match (&cur, pair) {
                (AInfo::Tok(t), Some(pair)) if cur == x && amount > 0 => {
                    let before = bal(&self.c, &y, &recv);
                    let hook = serde_json::to_vec(&json!({"swap":{"to":recv}})).unwrap();
                    let msg = cosmwasm_std::CosmosMsg::Wasm(cosmwasm_std::WasmMsg::Execute {
                        contract_addr: t.clone(),
                        msg: cosmwasm_std::Binary::from(
                            serde_json::to_vec(&json!({"send":{"contract":pair,
                                "amount":amount.to_string(),
                                "msg":cosmwasm_std::Binary::from(hook)}}))
                            .unwrap(),
                        ),
                        funds: vec![],
                    });
                    let rr = self.c.run_tx(sender, &[msg], None, idx);
                    if !rr.ok() {
                        same = false;
                        break;
                    }
                    amount = bal(&self.c, &y, &recv).saturating_sub(before);
                    cur = y;
                }
                _ => {
                    same = false;
                    break;
                }
            }
        }
        if same {
            let mut o = after.clone();
            let toks: Vec<String> = after.toks.keys().cloned().collect();
            for t in toks {
                self.c.w.borrow_mut().dirty.insert(t);
            }
            self.c.w.borrow_mut().bank_dirty = true;
            if o.refresh(&self.c, &self.b).is_err() {
                same = false;
            } else {
                same = *o.bank == *after.bank
                    && o.toks.iter().all(|(k, v)| {
                        after.toks.get(k).map(|w| w.bal == v.bal && w.supply == v.supply)
                            == Some(true)
                    });
            }
        }
        self.c.rollback(mark);
        self.c.run_tx(sender, msgs, None, idx);
        self.c.w.borrow_mut().dirty.clear();
        let h2 = self.c.w.borrow().state_hash();
        if h2 != hash {
            self.dead = true;
        }
        Some(same)
    }

    // ------------------------------------------------------------------ creation

    fn check_created(
        &mut self,
        pp: &Option<PendPair>,
        pt: &Option<PendTok>,
        created: &[(String, u64)],
        r: &TxResult,
        ops: &[Op],
    ) {
        if let Some(pt) = pt {
            let ok = created.len() == 1 && self.o.toks.contains_key(&created[0].0);
            if !ok {
                self.viol(&["C23", "C34"], "token-creation", "instantiating a token created something else".into());
                self.dead = true;
                return;
            }
            let t = self.o.toks[&created[0].0].clone();
            let want: BTreeMap<String, u128> =
                pt.init.iter().filter(|x| x.1 > 0).cloned().collect();
            let sum: u128 = want.values().sum();
            if t.bal != want || t.supply != sum || t.minter != pt.minter || t.dec != pt.dec || !t.allow.is_empty() {
                self.viol(
                    &["C23", "C34"],
                    "token-creation",
                    format!("new token: expected {:?} supply {} minter {:?} decimals {}; is {:?}", want, sum, pt.minter, pt.dec, t),
                );
            } else if t.name != pt.name || t.sym != pt.sym {
                self.viol(
                    &["C34"],
                    "token-creation:name",
                    format!("new token: expected to be called {:?} ({:?}), is called {:?} ({:?})", pt.name, pt.sym, t.name, t.sym),
                );
            }
            let k = pt.minter.as_ref().map_or(0, |m| 1 + m.1.map_or(0, |c| 1 + lg(c)));
            self.hit("C34", mix(mix(lg(sum), pt.dec as u64), mix(k, (pt.name.len() * 64 + pt.sym.len()) as u64)));
            self.hit("C23", mix(lg(sum), pt.dec as u64));
            self.stat("tokens created");
        }
        if let Some(pp) = pp {
            let bound = self.b.pairs.get(&pp.slot).cloned();
            let b = match bound {
                Some(b) if created.len() == 2 => b,
                _ => {
                    self.viol(
                        &["C14", "C10"],
                        "pair-creation",
                        format!("creating a pair reported success but created {} contracts", created.len()),
                    );
                    self.dead = true;
                    return;
                }
            };
            let p = match self.o.pairs.get(&b.addr) {
                Some(p) => p.clone(),
                None => {
                    self.viol(&["C14"], "pair-creation", "new pair not readable".into());
                    self.dead = true;
                    return;
                }
            };
            let lp = match self.o.toks.get(&b.lp) {
                Some(t) => t.clone(),
                None => {
                    self.viol(&["C09"], "pair-creation", "new liquidity token not readable".into());
                    self.dead = true;
                    return;
                }
            };
            let canon = [p.a[0].canon(), p.a[1].canon()];
            if canon != pp.info {
                self.viol(&["C14"], "pair-creation", format!("new pair has assets {:?}, asked for {:?}", p.a, pp.info));
            }
            if p.lp != b.lp {
                self.viol(&["C09", "C14"], "pair-creation", "the pair's liquidity token is not the one created for it".into());
            }
            let set = ops.iter().any(|o| matches!(o, Op::EvilSet { .. }));
            for i in 0..2 {
                // a hostile token's decimals are what it says they are
                let says = || -> Option<u8> {
                    if set || !self.b.is_evil(pp.info[i].name()) {
                        return None;
                    }
                    let v: serde_json::Value = obs::ask(&self.c, pp.info[i].name(), &json!({"token_info":{}})).ok()?;
                    v.get("decimals")?.as_u64().map(|d| d as u8)
                };
                if let Some(d) = pp.dec[i].or_else(says) {
                    if p.dec[i] != d {
                        self.viol(
                            &["C17"],
                            "pair-creation:decimals",
                            format!("decimals of asset {}: known {}, recorded {}", i, d, p.dec[i]),
                        );
                    }
                }
            }
            if p.white != pp.white || p.mins != pp.mins {
                self.viol(
                    &["C07", "C14"],
                    "pair-creation:requirements",
                    format!("requirements: asked {:?} {:?}, recorded {:?} {:?}", pp.white, pp.mins, p.white, p.mins),
                );
            }
            if p.code != pp.pair_code || lp.code != pp.tok_code {
                self.viol(
                    &["C16"],
                    "pair-creation:code",
                    format!("codes in force {} {}, used {} {}", pp.pair_code, pp.tok_code, p.code, lp.code),
                );
            }
            if lp.minter != Some((b.addr.clone(), None)) || lp.supply != 0 || !lp.bal.is_empty() {
                self.viol(
                    &["C09"],
                    "pair-creation:liquidity-token",
                    format!("liquidity token starts with minter {:?}, supply {}", lp.minter, lp.supply),
                );
            }
            if pp.by_factory {
                if p.admin.as_deref() != Some(self.b.factory.as_str()) {
                    self.viol(&["C16", "C22"], "pair-creation:admin", "the factory does not administer the new pair".into());
                }
                let ev = r
                    .events()
                    .iter()
                    .filter(|e| e.ty == "wasm" && attr(e, "_contract_address") == self.b.factory)
                    .find(|e| !attr(e, "pair_contract_addr").is_empty());
                match ev {
                    Some(e)
                        if attr(e, "pair_contract_addr") == b.addr
                            && attr(e, "liquidity_token_addr") == b.lp => {}
                    _ => {
                        let t = ev.map(|e| format!("{:?}", e)).unwrap_or_default();
                        self.viol(
                            &["C20"],
                            "report:pair-creation",
                            format!("addresses reported at creation are not those created: {}", t),
                        );
                    }
                }
                self.stat("pairs created");
                let kind = |a: &AInfo| matches!(a, AInfo::Tok(_)) as u64;
                let sg = mix(
                    mix(kind(&pp.info[0]) * 2 + kind(&pp.info[1]), (p.dec[0] as u64) << 8 | p.dec[1] as u64),
                    mix(lg(pp.mins[0]), mix(lg(pp.mins[1]), self.o.fac.reg.len() as u64)),
                );
                self.hit("C14", sg);
                self.hit("C16", mix(sg, p.code << 8 | lp.code));
                self.hit("C17", sg);
                self.hit("C20", sg);
                for s in self.pagers.values_mut() {
                    if !s.done && s.pages > 0 {
                        s.created_between = true;
                    }
                }
            } else {
                self.stat("pairs set up outside the factory");
            }
        }
    }

    // ------------------------------------------------------------------ invariants

    fn invariants(&mut self, pre: &Obs, m: &Model, modelled: bool, ops: &[Op], r: &TxResult) {
        let post = self.o.clone();
        // conservation
        if !Rc::ptr_eq(&pre.bank, &post.bank) {
            for d in self.b.denoms.clone() {
                let sum = |o: &Obs| -> num::Sum {
                    o.bank
                        .iter()
                        .filter(|((_, x), _)| *x == d)
                        .fold(num::Sum::default(), |s, (_, v)| s.add(*v))
                };
                if sum(pre) != sum(&post) {
                    panic!("harness: native coins are not conserved by the simulated bank");
                }
            }
        }
        for (t, k) in &post.toks {
            if let Some(p) = pre.toks.get(t) {
                if Rc::ptr_eq(p, k) {
                    continue;
                }
            }
            let s = k.bal.values().fold(num::Sum::default(), |s, v| s.add(*v));
            if s != num::Sum::default().add(k.supply) {
                let lp = post.pairs.values().any(|p| p.lp == *t);
                let p: &[P] = if lp { &["C09", "C13", "C23"] } else { &["C13", "C23"] };
                let w = self.b.who(t);
                self.viol(p, "supply-sum", format!("balances of {} do not add up to its supply {}", w, k.supply));
            }
        }
        // pairs
        for (addr, p) in &post.pairs {
            let lp = match post.toks.get(&p.lp) {
                Some(l) => l,
                None => continue,
            };
            let q = match pre.pairs.get(addr) {
                Some(q) => q,
                None => continue,
            };
            if lp.minter.as_ref().map(|x| x.0.as_str()) != Some(addr.as_str()) {
                let w = self.b.who(addr);
                self.viol(&["C09"], "liquidity-minter", format!("{} is not the minter of its liquidity token", w));
            }
            if !modelled && !Rc::ptr_eq(p, q) && p != q {
                let w = self.b.who(addr);
                let mut pr: Vec<P> = vec!["C22"];
                if p.dec != q.dec {
                    pr.push("C17");
                }
                if p.white != q.white || p.mins != q.mins {
                    pr.push("C07");
                }
                if p.a != q.a || p.lp != q.lp {
                    pr.push("C14");
                }
                if !has_migrate(ops) {
                    self.viol(&pr, "pair-settings", format!("settings of {} changed", w));
                }
            }
            if is_tainted(pre, &self.b, addr) {
                continue;
            }
            let (x0, y0) = match pre.reserves(addr) {
                Some(r) => r,
                None => continue,
            };
            let (x1, y1) = match post.reserves(addr) {
                Some(r) => r,
                None => continue,
            };
            let (s0, s1) = match (pre.lp_supply(addr), post.lp_supply(addr)) {
                (Some(a), Some(b)) => (a, b),
                _ => continue,
            };
            if (x0, y0, s0) == (x1, y1, s1) {
                continue;
            }
            // everything withdrawn and a first deposit after it, in one transaction: no holder stayed
            let burnt = r
                .events()
                .iter()
                .filter(|e| e.ty == "wasm" && attr(e, "_contract_address") == p.lp && attr(e, "action").starts_with("burn"))
                .filter_map(|e| attr(e, "amount").parse::<u128>().ok())
                .fold(0u128, |s, n| s.saturating_add(n));
            if s0 > 0 && burnt >= s0 {
                continue;
            }
            let swapped = m.swapped.contains(addr);
            let lpop = m.lp_ops.contains(addr);
            let sg = mix(
                mix(lg(x0) << 32 | lg(y0) << 16 | lg(s0), (swapped as u64) << 1 | lpop as u64),
                lg(x1.abs_diff(x0)) << 16 | lg(s1.abs_diff(s0)),
            );
            if s0 == s1 || (modelled && !lpop) {
                self.hit("C01", sg);
                let w = self.b.who(addr);
                if num::k_less(x1, y1, x0, y0) {
                    self.viol(
                        &["C01"],
                        "product-fell",
                        format!("{}: reserves {}*{} -> {}*{}", w, x0, y0, x1, y1),
                    );
                }
                if (x0 > 0 && x1 == 0) || (y0 > 0 && y1 == 0) {
                    self.viol(
                        &["C01"],
                        "reserve-emptied",
                        format!("{}: reserves {},{} -> {},{}", w, x0, y0, x1, y1),
                    );
                }
            }
            if s0 > 0 && s1 > 0 {
                self.hit("C02", sg);
                if num::backing_less(x1, y1, s1, x0, y0, s0) {
                    let w = self.b.who(addr);
                    self.viol(
                        &["C02"],
                        "backing-fell",
                        format!("{}: reserves {},{} for {} shares -> {},{} for {}", w, x0, y0, s0, x1, y1, s1),
                    );
                }
                if modelled && !swapped && (num::frac_less(x1, s1, x0, s0) || num::frac_less(y1, s1, y0, s0)) {
                    let w = self.b.who(addr);
                    self.viol(
                        &["C02"],
                        "reserve-per-share-fell",
                        format!("{}: reserves {},{} for {} shares -> {},{} for {} without a swap", w, x0, y0, s0, x1, y1, s1),
                    );
                }
            }
        }
        // registry
        if !Rc::ptr_eq(&pre.fac, &post.fac) {
            self.registry(&post);
        }
    }

    fn registry(&mut self, post: &Obs) {
        let mut out: Vec<(Vec<P>, &'static str, String)> = vec![];
        for (addr, e) in &post.fac.reg {
            let p = match post.pairs.get(addr) {
                Some(p) => p,
                None => continue,
            };
            let own = RegEntry {
                addr: addr.clone(),
                a: p.a.clone(),
                lp: p.lp.clone(),
                dec: p.dec,
                white: p.white.clone(),
                mins: p.mins,
            };
            for x in e {
                let w = self.b.who(addr);
                match x {
                    Err(err) => out.push((
                        vec!["C14"],
                        "registry-missing",
                        format!("{} cannot be looked up: {}", w, err),
                    )),
                    Ok(x) => {
                        if *x != own {
                            let mut pr = vec!["C14"];
                            if x.dec != own.dec {
                                pr.push("C17");
                            }
                            out.push((
                                pr,
                                "registry-differs",
                                format!("{}: registry says {:?}, the pair says {:?}", w, x, own),
                            ));
                        }
                    }
                }
            }
        }
        for (p, c, t) in out {
            self.viol(&p, c, t);
        }
    }

    /// What a route's minimum promises, read off the receiver's balance alone.
    fn minimum_kept(&mut self, pre: &Obs, ops: &[Op], sender: &str) {
        if ops.len() != 1 {
            return;
        }
        let (paid, hops, min, to) = match &ops[0] {
            Op::Cw {
                tok,
                msg:
                    Cw::Send {
                        to: Acct::Router,
                        amt,
                        hook: Hook::Route { hops, min: Some(m), to },
                    },
            } => (Some((*tok, amt.0)), hops, m.0, to),
            Op::Cw {
                msg:
                    Cw::SendFrom {
                        to: Acct::Router,
                        owner,
                        hook: Hook::Route { hops, min: Some(m), to },
                        ..
                    },
                ..
            } => {
                // the owner pays, the spender receives
                if self.b.acct(owner).as_deref() == Some(sender) || owner == to.as_ref().unwrap_or(&Acct::Bad) {
                    return;
                }
                (None, hops, m.0, to)
            }
            _ => return,
        };
        let last = match hops.last().and_then(|h| self.b.asset(&h.1)) {
            Some(a) if a == a.canon() => a,
            _ => return,
        };
        let recv = match to {
            None => sender.to_string(),
            Some(a) => match self.b.acct(a) {
                Some(r) => crate::chain::canon(&r).and_then(|c| crate::chain::humanize(&c)).unwrap_or(r),
                None => return,
            },
        };
        if recv == self.b.router || !self.b.users.contains(&recv) {
            return;
        }
        if hops.iter().any(|h| [h.0, h.1].iter().any(|x| matches!(x, Asset::E(_)))) || !self.reentry.is_empty() {
            return;
        }
        let mut was = pre.bal(&last, &recv);
        if let Some((tok, a)) = paid {
            if recv == sender && self.b.asset(&tok).map(|x| x.canon()) == Some(last.clone()) {
                was = was.saturating_sub(a);
            }
        }
        let now = self.o.bal(&last, &recv);
        self.hit("C11", mix(hops.len() as u64, lg(now.saturating_sub(was)) << 8 | lg(min)));
        if now.saturating_sub(was) < min {
            let w = self.b.who(&recv);
            self.viol(
                &["C11"],
                "below-minimum",
                format!("{} was promised at least {} and had {} before and {} after: {:?}", w, min, was, now, ops),
            );
        }
    }

    /// An allowance given to a pair shrinks only by its giver's own deposits and decreases.
    fn approvals(&mut self, pre: &Obs, ops: &[Op], sender: &str) {
        let post = self.o.clone();
        let mut out: Vec<String> = vec![];
        let mut seen: Vec<u64> = vec![];
        for (t, a) in &pre.toks {
            let b = match post.toks.get(t) {
                Some(b) if !Rc::ptr_eq(a, b) => b,
                _ => continue,
            };
            for ((owner, spender), (was, _)) in &a.allow {
                let slot = match self.b.pairs.iter().find(|(_, p)| p.addr == *spender) {
                    Some((s, _)) => *s,
                    None => continue,
                };
                if self.b.is_evil(owner) {
                    // what a hostile contract does to itself is its own affair
                    continue;
                }
                let now = b.allow.get(&(owner.clone(), spender.clone())).map(|x| x.0).unwrap_or(0);
                if now >= *was {
                    continue;
                }
                let mut allowed: u128 = 0;
                let mut free = false;
                if owner == sender {
                    for op in ops {
                        match op {
                            Op::Provide { pair, a, .. } if *pair == slot => {
                                for (x, v) in a {
                                    if self.b.asset(x).map(|x| x.canon()) == Some(AInfo::Tok(t.clone())) {
                                        allowed = allowed.saturating_add(v.0);
                                    }
                                }
                            }
                            Op::Cw { tok, msg: Cw::Dec { .. } }
                                if self.b.asset(tok).map(|x| x.canon()) == Some(AInfo::Tok(t.clone())) =>
                            {
                                free = true
                            }
                            _ => {}
                        }
                    }
                }
                seen.push(mix(mix(lg(*was), lg(was - now)), (now == 0) as u64));
                if !free && was - now > allowed {
                    out.push(format!(
                        "the allowance of {} from {} to {} fell from {} to {}, its owner deposits {} there",
                        self.b.who(t),
                        self.b.who(owner),
                        self.b.who(spender),
                        was,
                        now,
                        allowed
                    ));
                }
            }
            // tokens moved out of an account that gave a pair an allowance and did not act itself
            for ((owner, spender), (was, _)) in &a.allow {
                if *was == 0 || owner == sender || self.b.is_evil(owner) {
                    continue;
                }
                if !self.b.pairs.values().any(|p| p.addr == *spender) || pre.pairs.contains_key(owner) {
                    continue;
                }
                let (x, y) = (
                    a.bal.get(owner).copied().unwrap_or(0),
                    b.bal.get(owner).copied().unwrap_or(0),
                );
                seen.push(mix(77, lg(*was)));
                // a spender's own allowance for it
                let granted = |sp: &str| a.allow.get(&(owner.clone(), sp.to_string())).map(|v| v.0 >= x - y).unwrap_or(false);
                if y < x
                    && !(ops.iter().chain(self.reentry.iter()).any(|o| names_owner(o, &self.b, owner))
                        && (granted(sender) || self.b.evils.iter().any(|e| granted(e))))
                    && *owner != self.b.router
                {
                    out.push(format!(
                        "{} lost {} {} in a transaction that spends nothing of theirs by an allowance to its sender",
                        self.b.who(owner),
                        x - y,
                        self.b.who(t)
                    ));
                }
            }
        }
        let sg = ops.iter().fold(31, |h, o| mix(h, op_sig(o)));
        for x in seen {
            self.hit("C31", mix(sg, x));
        }
        for t in out {
            self.viol(&["C31"], "approval-used", format!("{} ({} {:?})", t, self.b.who(sender), ops));
        }
    }

    /// With a hostile token involved the model makes no prediction, but what the transaction does not
    /// name must stay as it is.
    /// the accounts, coins and tokens that the operations are about
    fn concerned(&self, pre: &Obs, ops: &[Op], sender: &str) -> (BTreeSet<String>, BTreeSet<String>, BTreeSet<String>) {
        let post = &self.o;
        let mut named: BTreeSet<String> = BTreeSet::new();
        let mut assets: Vec<AInfo> = vec![];
        for op in ops {
            self.walk(op, &mut named, &mut assets);
        }
        named.insert(sender.to_string());
        named.insert(self.b.router.clone());
        for e in &self.b.evils {
            named.insert(e.clone());
        }
        // what a hostile token was told to do
        for op in &self.reentry {
            self.walk(op, &mut named, &mut assets);
        }
        for (addr, p) in &pre.pairs {
            let n = p.a.iter().filter(|a| assets.contains(&a.canon())).count();
            if n == 2 || is_tainted(pre, &self.b, addr) {
                named.insert(addr.clone());
            }
        }
        let mut coins: BTreeSet<String> = BTreeSet::new();
        let mut tokens: BTreeSet<String> = named.clone();
        for op in ops.iter().chain(self.reentry.iter()) {
            self.coins(op, &mut coins);
        }
        for a in &assets {
            match a {
                AInfo::Nat(d) => coins.insert(d.clone()),
                AInfo::Tok(t) => tokens.insert(t.clone()),
            };
        }
        for (addr, p) in pre.pairs.iter().chain(post.pairs.iter()) {
            if named.contains(addr) {
                tokens.insert(p.lp.clone());
                for a in &p.a {
                    match a.canon() {
                        AInfo::Nat(d) => coins.insert(d),
                        AInfo::Tok(t) => tokens.insert(t),
                    };
                }
            }
        }
        (named, coins, tokens)
    }

    fn isolation(&mut self, pre: &Obs, ops: &[Op], sender: &str) {
        let post = self.o.clone();
        let (named, coins, tokens) = self.concerned(pre, ops, sender);
        let mut out: Vec<(Vec<P>, String)> = vec![];
        for (k, v) in post.bank.iter() {
            let before = pre.bank.get(k).copied().unwrap_or(0);
            if !coins.contains(&k.1) && before != *v {
                out.push((vec!["C13"], format!("the coin {} of {}: {} -> {}", k.1, self.b.who(&k.0), before, v)));
            }
        }
        for (t, b) in &post.toks {
            if let Some(a) = pre.toks.get(t) {
                if !tokens.contains(t) && a.bal != b.bal {
                    out.push((vec!["C13"], format!("balances of the token {}", self.b.who(t))));
                }
            }
        }
        for (k, v) in pre.bank.iter() {
            let now = post.bank.get(k).copied().unwrap_or(0);
            let pair = pre.pairs.contains_key(&k.0);
            if !named.contains(&k.0) && (now < *v || (pair && now != *v)) {
                out.push((vec!["C13"], format!("{} of {}: {} -> {}", k.1, self.b.who(&k.0), v, now)));
            }
        }
        for (t, a) in &pre.toks {
            let b = match post.toks.get(t) {
                Some(b) => b,
                None => continue,
            };
            if Rc::ptr_eq(a, b) {
                continue;
            }
            for (h, v) in &a.bal {
                let now = b.bal.get(h).copied().unwrap_or(0);
                let pair = pre.pairs.contains_key(h);
                if !named.contains(h) && (now < *v || (pair && now != *v)) {
                    out.push((vec!["C13"], format!("{} of {}: {} -> {}", self.b.who(t), self.b.who(h), v, now)));
                }
            }
            for (k, v) in &a.allow {
                if !named.contains(&k.0) && b.allow.get(k).map(|x| x.0).unwrap_or(0) != v.0 {
                    out.push((vec!["C13", "C23"], format!("allowance from {}", self.b.who(&k.0))));
                }
            }
            if let Some((addr, _)) = pre.pairs.iter().find(|(_, p)| p.lp == *t) {
                if !named.contains(addr) && !named.contains(t) && a.supply < b.supply {
                    out.push((vec!["C13", "C09"], format!("supply of {}", self.b.who(t))));
                }
            }
            if a.minter != b.minter && !named.contains(t) {
                out.push((vec!["C09", "C23"], format!("minter of {}", self.b.who(t))));
            }
        }
        if (&pre.fac.owner, pre.fac.tok, pre.fac.pair, &pre.fac.dec)
            != (&post.fac.owner, post.fac.tok, post.fac.pair, &post.fac.dec)
            && !ops.iter().any(|o| matches!(o, Op::UpdateConfig { .. } | Op::AddNative { .. }))
            // a hostile contract that owns the factory may set what it likes
            && !self.b.is_evil(&pre.fac.owner)
        {
            out.push((vec!["C16"], "factory settings changed".into()));
        }
        self.hit("C13", ops.iter().fold(3, |h, o| mix(h, op_sig(o))));
        for (p, t) in out {
            self.viol(&p, "bystander", format!("not named by the transaction: {} ({:?})", t, ops));
        }
    }

    /// the native coins an operation names or attaches
    fn coins(&self, op: &Op, out: &mut BTreeSet<String>) {
        let mut add = |d: u8| {
            if let Some(AInfo::Nat(n)) = self.b.asset(&Asset::N(d)) {
                out.insert(n);
            }
        };
        match op {
            Op::Send { denom, .. } => add(*denom),
            Op::Provide { a, funds, .. } => {
                for (x, _) in a {
                    if let Asset::N(d) = x {
                        add(*d)
                    }
                }
                for (d, _) in funds.iter().flatten() {
                    add(*d)
                }
            }
            Op::RouteDirect { funds, .. } | Op::Forge { funds, .. } => {
                for (d, _) in funds {
                    add(*d)
                }
            }
            Op::Relay { inner, .. } => self.coins(inner, out),
            _ => {}
        }
    }

    fn walk(&self, op: &Op, named: &mut BTreeSet<String>, assets: &mut Vec<AInfo>) {
        let mut acct = |a: &Acct| {
            if let Some(s) = self.b.acct(a) {
                named.insert(
                    crate::chain::canon(&s)
                        .and_then(|c| crate::chain::humanize(&c))
                        .unwrap_or(s),
                );
            }
        };
        let mut add = |a: &Asset| {
            if let Some(i) = self.b.asset(a) {
                assets.push(i.canon());
            }
        };
        fn hook(h: &Hook, acct: &mut dyn FnMut(&Acct), add: &mut dyn FnMut(&Asset)) {
            match h {
                Hook::Swap { to, .. } => {
                    if let Some(t) = to {
                        acct(t)
                    }
                }
                Hook::Route { hops, to, .. } => {
                    if let Some(t) = to {
                        acct(t)
                    }
                    for (x, y) in hops {
                        add(x);
                        add(y);
                    }
                }
                _ => {}
            }
        }
        match op {
            Op::Send { to, .. } => acct(to),
            Op::Cw { tok, msg } => {
                if let Some(AInfo::Tok(t)) = self.b.asset(tok) {
                    for (s, p) in &self.b.pairs {
                        if p.lp == t {
                            acct(&Acct::L(*s));
                        }
                    }
                    for (s, p) in &self.b.toks {
                        if *p == t {
                            acct(&Acct::T(*s));
                        }
                    }
                }
                match msg {
                    Cw::Transfer { to, .. } => acct(to),
                    Cw::TransferFrom { owner, to, .. } => {
                        acct(owner);
                        acct(to)
                    }
                    Cw::Send { to, hook: h, .. } => {
                        acct(to);
                        hook(h, &mut acct, &mut add)
                    }
                    Cw::SendFrom {
                        owner, to, hook: h, ..
                    } => {
                        acct(owner);
                        acct(to);
                        hook(h, &mut acct, &mut add)
                    }
                    Cw::BurnFrom { owner, .. } => acct(owner),
                    Cw::Mint { to, .. } => acct(to),
                    Cw::Inc { sp, .. } | Cw::Dec { sp, .. } => acct(sp),
                    Cw::Burn { .. } | Cw::UpdateMinter { .. } => {}
                }
            }
            Op::Provide { pair, recv, .. } => {
                acct(&Acct::P(*pair));
                acct(&Acct::L(*pair));
                if let Some(r) = recv {
                    acct(r)
                }
            }
            Op::RouteDirect { hops, to, .. } => {
                if let Some(t) = to {
                    acct(t)
                }
                for (x, y) in hops {
                    add(x);
                    add(y);
                }
            }
            Op::Forge {
                target, hook: h, ..
            } => {
                // the claimed sender is only a claim
                acct(target);
                hook(h, &mut acct, &mut add)
            }
            Op::EvilSet { mode, .. } => {
                if let EMode::Reenter(_) = mode {}
            }
            Op::Relay { inner, .. } => self.walk(inner, named, assets),
            _ => {}
        }
    }
}

// ---------------------------------------------------------------------- helpers on operations

pub fn live_balance(c: &Chain, a: &AInfo, who: &str) -> u128 {
    match a {
        AInfo::Nat(d) => c.w.borrow().balance(who, d),
        AInfo::Tok(t) => obs::ask::<serde_json::Value>(c, t, &json!({"balance":{"address":who}}))
            .ok()
            .and_then(|v| v.get("balance")?.as_str()?.parse().ok())
            .unwrap_or(0),
    }
}

/// does the operation spend this account's tokens by an allowance given to its sender?
fn names_owner(op: &Op, b: &Bind, who: &str) -> bool {
    match op {
        Op::Cw { msg, .. } => match msg {
            Cw::TransferFrom { owner, .. } | Cw::SendFrom { owner, .. } | Cw::BurnFrom { owner, .. } => {
                b.acct(owner).map(|a| a.to_lowercase()) == Some(who.to_lowercase())
            }
            _ => false,
        },
        Op::Relay { inner, .. } => names_owner(inner, b, who),
        _ => false,
    }
}

fn creates(op: &Op) -> Option<u8> {
    match op {
        Op::CreatePair { slot, .. } | Op::TokInst { slot, .. } | Op::PairInst { slot, .. } => {
            Some(*slot)
        }
        Op::Relay { inner, .. } => creates(inner),
        _ => None,
    }
}

pub fn has_migrate(ops: &[Op]) -> bool {
    ops.iter().any(|o| match o {
        Op::MigratePair { .. } | Op::AdminMigrate { .. } => true,
        Op::Relay { inner, .. } => has_migrate(std::slice::from_ref(inner)),
        _ => false,
    })
}

/// the properties that speak about what these operations do when they succeed
fn kind_props(ops: &[Op]) -> Vec<P> {
    let mut v: BTreeSet<P> = BTreeSet::new();
    for o in ops {
        match o {
            Op::Send { .. } => {}
            Op::Cw { msg, .. } => match msg {
                Cw::Send { hook, .. } | Cw::SendFrom { hook, .. } => match hook {
                    Hook::Swap { .. } => {
                        v.insert("C03");
                    }
                    Hook::Withdraw => {
                        v.insert("C08");
                    }
                    Hook::Route { .. } => {
                        v.insert("C12");
                        v.insert("C03");
                    }
                    Hook::Garbage => {
                        v.insert("C18");
                    }
                },
                _ => {
                    v.insert("C23");
                }
            },
            Op::Provide { .. } => {
                v.insert("C05");
            }
            Op::RouteDirect { .. } => {
                v.insert("C12");
                v.insert("C03");
            }
            Op::RouterStep { .. } | Op::Forge { .. } => {
                v.insert("C18");
            }
            Op::RouterAssert { .. } => {
                v.insert("C11");
            }
            Op::CreatePair { .. } => {
                v.insert("C14");
            }
            Op::AddNative { .. } => {
                v.insert("C17");
            }
            Op::UpdateConfig { .. } => {
                v.insert("C16");
            }
            Op::MigratePair { .. } | Op::AdminMigrate { .. } => {
                v.insert("C22");
            }
            Op::TokInst { .. } => {
                v.insert("C23");
                v.insert("C34");
            }
            Op::PairInst { .. } => {
                v.insert("C09");
            }
            Op::EvilSet { .. } | Op::EvilMint { .. } => {}
            Op::Relay { inner, .. } => v.extend(kind_props(std::slice::from_ref(inner))),
        }
    }
    v.into_iter().collect()
}

fn refusal_props(ops: &[Op]) -> Vec<P> {
    let mut v: BTreeSet<P> = BTreeSet::new();
    for o in ops {
        match o {
            Op::Cw { msg, .. } => match msg {
                Cw::Send { .. } | Cw::SendFrom { .. } => {}
                _ => {
                    v.insert("C23");
                }
            },
            Op::CreatePair { .. } => {
                v.insert("C14");
            }
            Op::AddNative { .. } => {
                v.insert("C17");
            }
            Op::UpdateConfig { .. } => {
                v.insert("C16");
            }
            Op::MigratePair { .. } | Op::AdminMigrate { .. } => {
                v.insert("C22");
            }
            Op::TokInst { .. } => {
                v.insert("C23");
                v.insert("C34");
            }
            Op::Relay { inner, .. } => v.extend(refusal_props(std::slice::from_ref(inner))),
            _ => {}
        }
    }
    v.into_iter().collect()
}

fn hook_kind(h: &Hook) -> u64 {
    match h {
        Hook::Swap { belief, max, to } => {
            10 + belief.is_some() as u64 + 2 * max.is_some() as u64 + 4 * to.is_some() as u64
        }
        Hook::Withdraw => 20,
        Hook::Route { hops, min, to } => {
            30 + hops.len() as u64 * 4 + min.is_some() as u64 * 2 + to.is_some() as u64
        }
        Hook::Garbage => 21,
    }
}
pub fn op_sig(o: &Op) -> u64 {
    match o {
        Op::Send { .. } => 1,
        Op::Cw { msg, .. } => match msg {
            Cw::Transfer { .. } => 100,
            Cw::TransferFrom { .. } => 101,
            Cw::Send { hook, .. } => 1000 + hook_kind(hook),
            Cw::SendFrom { hook, .. } => 2000 + hook_kind(hook),
            Cw::Burn { .. } => 102,
            Cw::BurnFrom { .. } => 103,
            Cw::Mint { .. } => 104,
            Cw::Inc { .. } => 105,
            Cw::Dec { .. } => 106,
            Cw::UpdateMinter { .. } => 107,
        },
        Op::Provide {
            tol, recv, funds, ..
        } => 40 + tol.is_some() as u64 + 2 * recv.is_some() as u64 + 4 * funds.is_some() as u64,
        Op::RouteDirect { hops, min, .. } => 60 + hops.len() as u64 * 2 + min.is_some() as u64,
        Op::RouterStep { .. } => 50,
        Op::RouterAssert { .. } => 51,
        Op::Forge { hook, .. } => 3000 + hook_kind(hook),
        Op::CreatePair { .. } => 52,
        Op::AddNative { .. } => 53,
        Op::UpdateConfig { owner, tok, pair } => {
            80 + owner.is_some() as u64 + 2 * tok.is_some() as u64 + 4 * pair.is_some() as u64
        }
        Op::MigratePair { code, .. } => 90 + code.is_some() as u64,
        Op::AdminMigrate { .. } => 92,
        Op::TokInst { .. } => 93,
        Op::PairInst { .. } => 94,
        Op::EvilSet { mode, .. } => match mode {
            EMode::Honest => 200,
            EMode::Fail => 201,
            EMode::Short => 202,
            EMode::Lie(_) => 203,
            EMode::Panic => 204,
            EMode::Reenter(_) => 205,
        },
        Op::EvilMint { .. } => 206,
        Op::Relay { inner, .. } => mix(207, op_sig(inner)),
    }
}
pub fn fault_sig(f: &Option<Fault>) -> u64 {
    match f {
        None => 0,
        Some(Fault::Oog(n)) => mix(1, *n),
        Some(Fault::Crash(n)) => mix(2, *n),
        Some(Fault::FailMsg(n)) => mix(3, *n),
        Some(Fault::FailQuery(n)) => mix(4, *n),
    }
}

enum Strip {
    Guards,
    Tol,
    Min,
}
fn map_ops(ops: &[Op], s: Strip) -> Vec<Op> {
    ops.iter().map(|o| map_op(o, &s)).collect()
}
fn map_hook(h: &Hook, s: &Strip) -> Hook {
    match (h, s) {
        (Hook::Swap { to, .. }, Strip::Guards) => Hook::Swap {
            belief: None,
            max: None,
            to: *to,
        },
        (Hook::Route { hops, to, .. }, Strip::Min) => Hook::Route {
            hops: hops.clone(),
            min: None,
            to: *to,
        },
        _ => h.clone(),
    }
}
fn map_op(o: &Op, s: &Strip) -> Op {
    let mut o = o.clone();
    match &mut o {
        Op::Cw {
            msg: Cw::Send { hook, .. },
            ..
        }
        | Op::Cw {
            msg: Cw::SendFrom { hook, .. },
            ..
        } => *hook = map_hook(hook, s),
        Op::Provide { tol, .. } => {
            if let Strip::Tol = s {
                *tol = None
            }
        }
        Op::RouteDirect { min, .. } => {
            if let Strip::Min = s {
                *min = None
            }
        }
        Op::Relay { inner, .. } => **inner = map_op(inner, s),
        _ => {}
    }
    o
}

include!("checks.rs");
