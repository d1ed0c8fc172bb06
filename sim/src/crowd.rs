//! Everybody else. For C32 and C33 a history runs a second time on a chain where other accounts are
//! busy with other coins, tokens and pools: before it begins, and between any two of its steps. They
//! touch no pool and no asset of the history (unrelated coins are thrown at its contracts and accounts,
//! though), so nothing in it may come out differently (C32) and nothing in it may cost more (C33).
use std::collections::BTreeMap;

use serde_json::{json, Value};

use crate::chain::{user_addr, TxResult};
use crate::codes;
use crate::msg::{Mk, Msg};
use crate::obs::{Bind, PairBind};
use crate::ops::{Acct, Amt, Asset, Cw, Genesis, Hook, Op};
use crate::rng::{fnv, mix, Rng};
use crate::sim::Sim;
use cosmwasm_std::{BankMsg, Coin, CosmosMsg, Uint128, WasmMsg};

/// what may be added to the cost of something without anyone minding: host calls, bytes
pub const SLACK: (u64, u64) = (16, 1024);
const FIRST_SLOT: u8 = 100;

/// the genesis of a history whose contracts all have addresses of one length
pub fn uniform(salt: u64) -> u64 {
    salt | (0x3f << 58)
}

pub fn guests(g: &Genesis) -> Vec<String> {
    let n = 3 + mix(g.salt, 0x6e57) % 3;
    (0..n).map(|i| user_addr(g.salt, 5_000 + i)).collect()
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Kind {
    Swap,
    Provide,
    Withdraw,
    Holder,
    Spender,
    Route,
    Dust,
    Create,
    Refused,
}

pub struct Crowd {
    r: Rng,
    b: Bind,
    /// the guests' coins: indices into b.denoms
    coins: Vec<u8>,
    junk: Vec<String>,
    /// tokens the guests hold
    toks: Vec<Asset>,
    pools: Vec<(u8, [Asset; 2])>,
    wanted: Vec<[Asset; 2]>,
    next: u8,
    made: u64,
    fresh: u64,
    /// everybody in one pool
    busy: bool,
    salt: u64,
    costs: BTreeMap<(Kind, u8), Vec<(u64, u64)>>,
    swaps: u64,
    pub done: u64,
    pub tried: u64,
    /// (class, what) found too expensive
    pub dear: Option<String>,
    queries: Vec<(String, String, Value, u64, (u64, u64))>,
}

impl Crowd {
    pub fn new(s: &mut Sim, g: &Genesis, who: Vec<String>) -> Crowd {
        let mut r = Rng::new(mix(g.salt, fnv(0xC0, b"crowd")));
        let mut b = s.b.clone();
        b.users = who;
        let first = b.denoms.len() as u8;
        let n = r.range(8, 12) as u8;
        for i in 0..n {
            let head = *r.pick(&["aa", "ibc/00", "zz"]);
            b.denoms.push(format!("{}{}crowd", head, (b'a' + i) as char));
        }
        // coins nobody trades
        let worthless = *r.pick(&[0, 12, 40, 70]);
        let junk: Vec<String> = (0..worthless).map(|i| format!("{}junk{}", r.pick(&["AA", "aa", "factory/x/", "zz"]), i)).collect();
        let coins: Vec<u8> = (first..first + n).collect();
        {
            let mut w = s.c.w.borrow_mut();
            for u in &b.users {
                for (i, d) in b.denoms.iter().enumerate() {
                    let each = if i < first as usize { g.denoms[i].each.0 } else { 10u128.pow(15) };
                    w.set_balance(u, d, each);
                }
            }
            for i in &coins {
                w.set_balance(&b.factory, &b.denoms[*i as usize], 1);
            }
        }
        s.apart.extend(junk.iter().cloned());
        {
            let mut w = s.c.w.borrow_mut();
            for d in &junk {
                w.set_balance(&b.users[0], d, 10u128.pow(15));
            }
        }
        s.apart.extend(coins.iter().map(|i| b.denoms[*i as usize].clone()));
        let mut c = Crowd {
            r,
            b,
            coins,
            junk,
            toks: vec![],
            pools: vec![],
            wanted: vec![],
            next: FIRST_SLOT,
            made: 0,
            fresh: 0,
            busy: false,
            salt: g.salt,
            costs: BTreeMap::new(),
            swaps: 0,
            done: 0,
            tried: 0,
            dear: None,
            queries: vec![],
        };
        c.settle(s, g);
        c
    }

    fn run(&mut self, s: &mut Sim, sender: &str, msgs: &[Msg]) -> TxResult {
        let i0 = s.c.w.borrow().instances();
        let r = s.c.run_tx(sender, msgs, None, 9_000);
        self.tried += 1;
        self.done += r.ok() as u64;
        if s.c.w.borrow().instances() > i0 {
            let new: Vec<String> = s.c.w.borrow().contracts().into_iter().filter(|(_, m)| m.idx >= i0).map(|(a, _)| a).collect();
            s.apart.extend(new);
        }
        let mut w = s.c.w.borrow_mut();
        let apart = &s.apart;
        w.dirty.retain(|d| !apart.contains(d));
        drop(w);
        r
    }

    fn ops(&mut self, s: &mut Sim, by: usize, ops: &[Op]) -> Option<TxResult> {
        let (height, time_ns) = {
            let w = s.c.w.borrow();
            (w.height, w.time_ns)
        };
        let mk = Mk { b: &self.b, height, time_ns };
        let msgs: Option<Vec<Msg>> = ops.iter().map(|o| mk.msg(o)).collect();
        let sender = self.b.users[by].clone();
        Some(self.run(s, &sender, &msgs?))
    }

    fn settle(&mut self, s: &mut Sim, g: &Genesis) {
        // the owner lists the guests' coins
        let owner = s.b.users[0].clone();
        for d in self.coins.clone() {
            let mk = Mk { b: &self.b, height: 0, time_ns: 0 };
            let m = mk.msg(&Op::AddNative { denom: d, dec: 6 }).unwrap();
            self.run(s, &owner, &[m]);
        }
        // a few chains are very busy
        let huge = self.r.chance(60);
        let mut listed = vec![];
        if huge || self.r.chance(500) {
            for d in self.junk.clone() {
                s.c.w.borrow_mut().set_balance(&self.b.factory, &d, 1);
                self.b.denoms.push(d);
                let denom = self.b.denoms.len() as u8 - 1;
                let mk = Mk { b: &self.b, height: 0, time_ns: 0 };
                let m = mk.msg(&Op::AddNative { denom, dec: 6 }).unwrap();
                self.run(s, &owner, &[m]);
                listed.push(Asset::N(denom));
            }
        }
        let n = self.b.users.len();
        for slot in [FIRST_SLOT, FIRST_SLOT + 1] {
            let i0 = s.c.w.borrow().instances();
            let init = (0..n as u8).map(|u| (Acct::U(u), Amt(10u128.pow(15)))).collect();
            self.ops(s, 0, &[Op::TokInst { slot, dec: 6, init, minter: Some(Acct::U(0)), cap: None, name: None, sym: None }]);
            let found = s.c.w.borrow().contracts().into_iter().find(|(_, m)| m.idx >= i0).map(|(a, _)| a);
            if let Some(a) = found {
                self.b.toks.insert(slot, a);
                self.toks.push(Asset::T(slot));
            }
        }
        if self.toks.len() < 2 {
            return;
        }
        let (x, y) = (self.toks[0], self.toks[1]);
        for (i, t) in g.toks.iter().enumerate() {
            if t.cap.is_none() && self.b.toks.contains_key(&(i as u8)) {
                self.toks.push(Asset::T(i as u8));
            }
        }
        let c = |k: usize| Asset::N(self.coins[k]);
        let mut rest: Vec<[Asset; 2]> = vec![];
        for i in 0..self.coins.len() {
            for j in 0..i {
                rest.push([c(i), c(j)]);
            }
            for t in self.toks.iter().chain(&listed) {
                rest.push([*t, c(i)]);
            }
            for d in 0..g.denoms.len() {
                if g.denoms[d].dec.is_some() {
                    rest.push([c(i), Asset::N(d as u8)]);
                }
            }
        }
        let first = vec![[x, y], [x, c(0)], [y, c(1)], [*self.toks.last().unwrap(), c(2)]];
        rest.retain(|p| !first.contains(p));
        self.r.shuffle(&mut rest);
        rest.extend(first.into_iter().rev());
        self.wanted = rest;
        for _ in 0..4 {
            self.create(s);
        }
        for k in 0..self.pools.len() {
            self.deposit(s, k, 0, 10_000_000, None);
        }
        self.ask_first(s);
        let more = if huge { 270 } else { *self.r.pick(&[20, 36, 60, 90]) };
        for _ in 0..more {
            self.create(s);
        }
        let spread = if huge && self.r.chance(500) { 280 } else { self.r.range(20, 60) };
        for _ in 0..spread {
            let k = if self.r.chance(600) { Kind::Holder } else { Kind::Spender };
            self.act(s, k);
        }
        let n = if huge { 420 } else { self.r.range(60, 120) };
        for _ in 0..n {
            let k = *self.r.pick(&[Kind::Swap, Kind::Swap, Kind::Provide, Kind::Withdraw, Kind::Route]);
            self.act(s, k);
        }
        if self.r.chance(80) {
            self.again_and_again(s);
        }
        self.ask_again(s);
        self.grown();
        let _ = s.o.refresh(&s.c, &s.b);
        s.c.w.borrow_mut().commit();
    }

    fn create(&mut self, s: &mut Sim) {
        let a = match self.wanted.pop() {
            Some(a) => a,
            None => return,
        };
        // only the first ones are ever named again
        let slot = self.next;
        self.next = slot.saturating_add(1);
        let i0 = s.c.w.borrow().instances();
        let white = (0..self.b.users.len() as u8).map(Acct::U).collect();
        let by = self.r.idx(self.b.users.len());
        let r = self.ops(s, by, &[Op::CreatePair { slot, a, white, mins: [Amt(1), Amt(1)] }]);
        self.spent(Kind::Create, slot, &r);
        if r.map(|r| r.ok()) != Some(true) {
            return;
        }
        let new: Vec<(String, u64)> = s.c.w.borrow().contracts().into_iter().filter(|(_, m)| m.idx >= i0).map(|(a, m)| (a, m.code)).collect();
        let pa = new.iter().find(|(_, c)| codes::is_pair(*c));
        let lp = new.iter().find(|(_, c)| codes::is_token(*c));
        if let (Some(pa), Some(lp)) = (pa, lp) {
            self.b.pairs.insert(slot, PairBind { addr: pa.0.clone(), lp: lp.0.clone(), a, by_factory: true });
            self.made += 1;
            if slot < u8::MAX {
                self.pools.push((slot, a));
            }
        }
    }

    fn deposit(&mut self, s: &mut Sim, k: usize, by: usize, amt: u128, recv: Option<Acct>) -> Option<TxResult> {
        let (slot, a) = self.pools[k];
        let mut ops = vec![];
        for x in a {
            if let Asset::T(_) = x {
                ops.push(Op::Cw { tok: x, msg: Cw::Inc { sp: Acct::P(slot), amt: Amt(amt), exp: None } });
            }
        }
        ops.push(Op::Provide { pair: slot, a: [(a[0], Amt(amt)), (a[1], Amt(amt))], funds: None, tol: None, recv });
        self.ops(s, by, &ops)
    }

    /// one more account, named like a last guest for now
    fn newcomer(&mut self, s: &mut Sim) -> Acct {
        let a = user_addr(self.salt, 10_000 + self.fresh);
        self.fresh += 1;
        s.apart.insert(a.clone());
        self.b.users.push(a);
        Acct::U(self.b.users.len() as u8 - 1)
    }

    fn act(&mut self, s: &mut Sim, k: Kind) {
        if self.pools.len() < 4 {
            return;
        }
        let by = self.r.idx(3);
        let amt = self.r.range128(1_000, 9_999);
        let pool = if self.busy || self.r.chance(600) { 1 } else { self.r.idx(4) };
        let (slot, a) = self.pools[pool];
        let r = match k {
            Kind::Swap => {
                // the offer is a token; one pool sees most of the trade
                let (slot, a) = if self.r.chance(800) { self.pools[1] } else { (slot, a) };
                let send = Cw::Send { to: Acct::P(slot), amt: Amt(amt), hook: Hook::Swap { belief: None, max: None, to: None } };
                let r = self.ops(s, by, &[Op::Cw { tok: a[0], msg: send }]);
                if let (Some(r), true) = (&r, slot == self.pools[1].0) {
                    self.swaps += r.ok() as u64;
                    if let (Err(e), true, true) = (&r.res, self.swaps > 10, self.dear.is_none()) {
                        self.dear = Some(format!("a pool that took {} swaps like it refuses one of {} units: {}", self.swaps, amt, e));
                    }
                }
                self.spent(k, slot, &r);
                return;
            }
            Kind::Provide if self.r.chance(400) => {
                let to = self.newcomer(s);
                let r = self.deposit(s, pool, by, amt, Some(to));
                self.b.users.pop();
                r
            }
            Kind::Provide => self.deposit(s, pool, by, amt, None),
            Kind::Withdraw => {
                let send = Cw::Send { to: Acct::P(slot), amt: Amt(amt), hook: Hook::Withdraw };
                self.ops(s, 0, &[Op::Cw { tok: Asset::L(slot), msg: send }])
            }
            Kind::Holder => {
                let tok = if self.r.chance(700) { *self.r.pick(&self.toks.clone()) } else { Asset::L(slot) };
                let to = self.newcomer(s);
                let r = self.ops(s, 0, &[Op::Cw { tok, msg: Cw::Transfer { to, amt: Amt(amt.min(1_000)) } }]);
                self.b.users.pop();
                r
            }
            Kind::Spender => {
                let tok = *self.r.pick(&self.toks.clone());
                let sp = self.newcomer(s);
                let r = self.ops(s, by, &[Op::Cw { tok, msg: Cw::Inc { sp, amt: Amt(amt), exp: None } }]);
                self.b.users.pop();
                r
            }
            Kind::Route => {
                let (x, y) = (self.toks[0], self.toks[1]);
                let hops = vec![(x, y), (y, Asset::N(self.coins[1]))];
                let send = Cw::Send { to: Acct::Router, amt: Amt(amt), hook: Hook::Route { hops, min: Some(Amt(1)), to: None } };
                self.ops(s, by, &[Op::Cw { tok: x, msg: send }])
            }
            Kind::Dust => {
                let mut to: Vec<String> = s.b.pairs.values().flat_map(|p| [p.addr.clone(), p.lp.clone()]).collect();
                to.push(s.b.factory.clone());
                to.push(s.b.router.clone());
                to.extend(s.b.users.iter().cloned());
                let to = self.r.pick(&to).clone();
                if self.r.chance(200) {
                    let tok = *self.r.pick(&self.toks[..2].to_vec());
                    let t = self.b.asset(&tok).unwrap().name().to_string();
                    let v = json!({"transfer":{"recipient":to,"amount":"1000"}});
                    let m = CosmosMsg::Wasm(WasmMsg::Execute {
                        contract_addr: t,
                        msg: serde_json::to_vec(&v).unwrap().into(),
                        funds: vec![],
                    });
                    let u = self.b.users[0].clone();
                    self.run(s, &u, &[m]);
                    return;
                }
                let all = self.r.chance(500) && !self.junk.is_empty();
                let names: Vec<String> = if all {
                    self.junk.clone()
                } else {
                    vec![self.b.denoms[*self.r.pick(&self.coins.clone()) as usize].clone()]
                };
                let amount = names.into_iter().map(|denom| Coin { denom, amount: Uint128::new(amt) }).collect();
                let m = CosmosMsg::Bank(BankMsg::Send { to_address: to, amount });
                let u = self.b.users[0].clone();
                Some(self.run(s, &u, &[m]))
            }
            Kind::Create => {
                self.create(s);
                return;
            }
            Kind::Refused => {
                let send = Cw::Send { to: Acct::P(slot), amt: Amt(amt), hook: Hook::Swap { belief: Some("0.000001".into()), max: Some("0.001".into()), to: None } };
                self.ops(s, by, &[Op::Cw { tok: a[0], msg: send }])
            }
        };
        self.spent(k, slot, &r);
    }

    fn spent(&mut self, k: Kind, slot: u8, r: &Option<TxResult>) {
        let slot = if matches!(k, Kind::Swap | Kind::Provide | Kind::Withdraw) { slot } else { 0 };
        if let Some(r) = r {
            if r.ok() {
                self.costs.entry((k, slot)).or_default().push((r.calls, r.moved));
            }
        }
    }

    /// one thing, hundreds of times: what worked the first twenty times works the next time too
    fn again_and_again(&mut self, s: &mut Sim) {
        let k = *self.r.pick(&[Kind::Swap, Kind::Swap, Kind::Provide, Kind::Withdraw, Kind::Route, Kind::Holder]);
        let n = if self.r.chance(150) { 700 } else { self.r.range(260, 320) };
        let mut went = 0;
        self.busy = true;
        for _ in 0..n {
            let before = self.done;
            self.act(s, k);
            if self.done > before {
                went += 1;
            } else if went > 20 && k != Kind::Holder && self.dear.is_none() {
                self.dear = Some(format!("{:?} worked {} times in a row and is refused the next time", k, went));
            }
        }
        self.busy = false;
    }

    /// Has the same operation on the same pool become more expensive over time?
    fn grown(&mut self) {
        for ((k, slot), v) in &self.costs {
            if matches!(k, Kind::Dust | Kind::Refused) || v.len() < 12 {
                continue;
            }
            let q = v.len() / 4;
            let top = |w: &[(u64, u64)]| (w.iter().map(|x| x.0).max().unwrap(), w.iter().map(|x| x.1).max().unwrap());
            let (early, late) = (top(&v[..q]), top(&v[v.len() - q..]));
            if late.0 > early.0 + SLACK.0 || late.1 > early.1 + SLACK.1 {
                self.dear = Some(format!(
                    "{:?} (slot {}) took {} host calls and {} bytes at first and take {} and {} after {} of them",
                    k, slot, early.0, early.1, late.0, late.1, v.len()
                ));
                return;
            }
        }
    }

    fn ask_first(&mut self, s: &Sim) {
        let (slot, a) = self.pools[1];
        let p = self.b.pairs[&slot].clone();
        let info = |x: &Asset| self.b.asset(x).unwrap().json();
        let (i, j) = (info(&a[0]), info(&a[1]));
        let tok = self.b.asset(&a[0]).unwrap().name().to_string();
        let me = self.b.users[0].clone();
        let f = self.b.factory.clone();
        let coin = self.b.denoms[self.coins[0] as usize].clone();
        let hop = json!([{"halo_swap":{"offer_asset_info": i, "ask_asset_info": j}}]);
        let list: Vec<(&str, String, Value, u64)> = vec![
            ("the factory's settings", f.clone(), json!({"config":{}}), 0),
            ("looking up a pair", f.clone(), json!({"pair":{"asset_infos":[i, j]}}), 0),
            ("a coin's decimals", f.clone(), json!({"native_token_decimals":{"denom":coin}}), 0),
            ("a page of 1 pair", f.clone(), json!({"pairs":{"limit":1}}), 1),
            ("a page of 3 pairs", f.clone(), json!({"pairs":{"limit":3}}), 3),
            ("a page of 2 pairs after one", f.clone(), json!({"pairs":{"start_after":[i, j],"limit":2}}), 2),
            ("a pool's state", p.addr.clone(), json!({"pool":{}}), 0),
            ("a pool's settings", p.addr.clone(), json!({"pair":{}}), 0),
            ("a quote", p.addr.clone(), json!({"simulation":{"offer_asset":{"info":i,"amount":"1000"}}}), 0),
            ("a reverse quote", p.addr.clone(), json!({"reverse_simulation":{"ask_asset":{"info":i,"amount":"1000"}}}), 0),
            ("a route quote", self.b.router.clone(), json!({"simulate_swap_operations":{"offer_amount":"1000","operations":hop}}), 0),
            ("a balance", tok.clone(), json!({"balance":{"address":me}}), 0),
            ("a token's facts", tok.clone(), json!({"token_info":{}}), 0),
            ("an allowance", tok.clone(), json!({"allowance":{"owner":me,"spender":p.addr}}), 0),
            ("a page of 3 holders", tok.clone(), json!({"all_accounts":{"limit":3}}), 3),
            ("a page of 3 allowances", tok, json!({"all_allowances":{"owner":me,"limit":3}}), 3),
        ];
        for (what, to, q, n) in list {
            let (r, calls, moved) = s.c.query_metered(&to, &serde_json::to_vec(&q).unwrap());
            if r.is_ok() {
                self.queries.push((what.to_string(), to, q, n, (calls, moved)));
            }
        }
    }

    fn ask_again(&mut self, s: &Sim) {
        for (what, to, q, n, was) in &self.queries {
            let (r, calls, moved) = s.c.query_metered(to, &serde_json::to_vec(q).unwrap());
            let top = (was.0 + SLACK.0 + 6 * n, was.1 + SLACK.1 + 2048 * n);
            if r.is_err() || calls > top.0 || moved > top.1 {
                self.dear = Some(format!(
                    "asking for {} took {} host calls and {} bytes on a young chain and {} on one with {} pairs and {} more holders",
                    what,
                    was.0,
                    was.1,
                    match r {
                        Ok(_) => format!("takes {} and {}", calls, moved),
                        Err(e) => format!("is refused ({})", e),
                    },
                    self.made,
                    self.fresh
                ));
                return;
            }
        }
    }

    pub fn counts(&self) -> (u64, u64, u64) {
        (self.made, self.done, self.tried)
    }

    /// between two steps of the history
    pub fn mill_about(&mut self, s: &mut Sim) {
        if s.dead || self.pools.len() < 4 || self.r.chance(500) {
            return;
        }
        for _ in 0..self.r.range(1, 3) {
            let k = *self.r.pick(&[
                Kind::Swap,
                Kind::Provide,
                Kind::Withdraw,
                Kind::Holder,
                Kind::Spender,
                Kind::Route,
                Kind::Dust,
                Kind::Dust,
                Kind::Create,
                Kind::Refused,
            ]);
            self.act(s, k);
        }
        if s.o.refresh(&s.c, &s.b).is_err() {
            s.dead = true;
        }
    }
}
