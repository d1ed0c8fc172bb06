//! The reference model: what each operation must do, written from the properties' text with exact
//! integers, on observable state only. It is applied to the state observed just before a transaction,
//! so one wrong outcome never makes later ones look wrong.
use std::collections::BTreeSet;
use std::rc::Rc;

use cw20::Expiration;

use crate::chain::{canon, humanize, valid_addr};
use crate::codes;
use crate::num;
use crate::obs::{AInfo, Bind, Obs};
use crate::ops::{Acct, Asset, Cw, Exp, Hook, Op};

pub type P = &'static str;

#[derive(Clone, Debug)]
pub enum Stop {
    /// must be refused; success would break these properties
    Fail(&'static str, Vec<P>),
    /// outside what the properties speak about: either outcome is fine
    Unknown(&'static str),
}
pub type R<T> = Result<T, Stop>;

fn fail<T>(why: &'static str, props: &[P]) -> R<T> {
    Err(Stop::Fail(why, props.to_vec()))
}
fn unknown<T>(why: &'static str) -> R<T> {
    Err(Stop::Unknown(why))
}

#[derive(Clone, Debug)]
pub struct SwapRep {
    pub pair: String,
    pub trader: String,
    pub receiver: String,
    pub off: AInfo,
    pub ask: AInfo,
    pub a: u128,
    pub x: u128,
    pub y: u128,
    pub gross: u128,
    pub net: u128,
    pub comm: u128,
    pub lo: u128,
    pub hi: u128,
    pub guarded: bool,
    pub routed: bool,
}

#[derive(Clone, Debug)]
pub struct ProvRep {
    pub pair: String,
    pub sender: String,
    pub receiver: String,
    pub assets: [(AInfo, u128); 2],
    pub share: u128,
    pub supply: u128,
    pub reserves: [u128; 2],
}
#[derive(Clone, Debug)]
pub struct WdRep {
    pub pair: String,
    pub who: String,
    pub l: u128,
    pub supply: u128,
    pub refunds: [(AInfo, u128); 2],
}

#[derive(Clone, Debug)]
pub struct PendPair {
    pub slot: u8,
    pub a: [Asset; 2],
    pub info: [AInfo; 2],
    pub dec: [Option<u8>; 2],
    pub white: Vec<String>,
    pub mins: [u128; 2],
    pub pair_code: u64,
    pub tok_code: u64,
    pub by_factory: bool,
}
#[derive(Clone, Debug)]
pub struct PendTok {
    pub slot: u8,
    pub dec: u8,
    pub init: Vec<(String, u128)>,
    pub minter: Option<(String, Option<u128>)>,
    pub name: String,
    pub sym: String,
}

/// What a token is called unless its launch says otherwise.
pub const SYMBOL: &str = "TOK";
pub fn token_name(slot: u8) -> String {
    format!("token {}", slot)
}

pub struct Model<'a> {
    pub o: Obs,
    pub b: &'a Bind,
    pub height: u64,
    pub time_ns: u64,
    pub gray: Option<&'static str>,
    pub native_hop: bool,
    pub pend_pair: Option<PendPair>,
    pub pend_tok: Option<PendTok>,
    pub swaps: Vec<SwapRep>,
    /// pairs deposited into or withdrawn from
    pub lp_ops: BTreeSet<String>,
    pub swapped: BTreeSet<String>,
    pub named: BTreeSet<String>,
    pub provs: Vec<ProvRep>,
    pub wds: Vec<WdRep>,
    pub guards: u32,
    pub tols: u32,
    pub mins: u32,
    pub first_deposit: bool,
    pub whitelist_free: bool,
}

pub fn expired(e: &Expiration, height: u64, time_ns: u64) -> bool {
    match e {
        Expiration::AtHeight(h) => height >= *h,
        Expiration::AtTime(t) => time_ns >= t.nanos(),
        Expiration::Never {} => false,
    }
}
pub fn resolve_exp(e: &Exp, height: u64, time_ns: u64) -> Expiration {
    match e {
        Exp::HeightIn(d) => Expiration::AtHeight((height as i64 + d).max(0) as u64),
        Exp::TimeIn(d) => Expiration::AtTime(cosmwasm_std::Timestamp::from_nanos(
            (time_ns as i128 + *d as i128 * 1_000_000_000).max(0) as u64,
        )),
        Exp::Never => Expiration::Never {},
    }
}

pub enum Verdict {
    Accept,
    Refuse,
    Gray,
    Domain(&'static str),
}

/// The price guard, from the property's text.
#[allow(clippy::too_many_arguments)]
pub fn guard(
    belief: Option<&str>,
    max: Option<&str>,
    a: u128,
    net: u128,
    lo: u128,
    hi: u128,
    off_dec: u8,
    ask_dec: u8,
) -> Verdict {
    use num::*;
    let d = off_dec.abs_diff(ask_dec) as u32;
    if d > 38 {
        return Verdict::Domain("decimals too far apart");
    }
    let f = 10u128.pow(d);
    let (a, net, lo, hi) = if off_dec > ask_dec {
        match (net.checked_mul(f), lo.checked_mul(f), hi.checked_mul(f)) {
            (Some(n), Some(l), Some(h)) => (a, n, l, h),
            _ => return Verdict::Domain("normalised amount exceeds 128 bits"),
        }
    } else {
        match a.checked_mul(f) {
            Some(a) => (a, net, lo, hi),
            None => return Verdict::Domain("normalised amount exceeds 128 bits"),
        }
    };
    let s = match max {
        None => return Verdict::Accept,
        Some(m) => match dec18(m) {
            Some(s) => s,
            None => return Verdict::Domain("max_spread not a decimal"),
        },
    };
    match belief {
        None => {
            if net == 0 && lo == 0 {
                return Verdict::Domain("nothing expected, nothing returned");
            }
            // accept when hi/(net+hi) <= s
            if mul(hi, E18) <= (w(net) + w(hi)) * w(s) {
                return Verdict::Accept;
            }
            // refuse when even the floored shortfall exceeds s
            let den = w(net) + w(lo);
            if den > w(0) && mul(lo, E18) / den > w(s) {
                return Verdict::Refuse;
            }
            Verdict::Gray
        }
        Some(b) => {
            let b = match dec18(b) {
                Some(b) if b > 0 => b,
                _ => return Verdict::Domain("belief price zero"),
            };
            // expected = a / belief = a*E18/b ; accept when (E - net)/E <= s
            //   <=> a*E18 - net*b <= s/E18 * a*E18
            let e_num = mul(a, E18);
            let n = mul(net, b);
            if e_num <= n || (e_num - n) <= mul(a, s) {
                return Verdict::Accept;
            }
            let e = e_num / w(b);
            if e > w(net) && ((e - w(net)) * w(E18)) / e > w(s) {
                return Verdict::Refuse;
            }
            Verdict::Gray
        }
    }
}

pub fn slippage(tol: &str, d: [u128; 2], r: [u128; 2]) -> Verdict {
    use num::*;
    let t = match dec18(tol) {
        Some(t) => t,
        None => return Verdict::Domain("tolerance not a decimal"),
    };
    if t > E18 {
        return Verdict::Refuse;
    }
    if d[0] == 0 || d[1] == 0 {
        return Verdict::Domain("zero deposit");
    }
    if r[0] == 0 || r[1] == 0 {
        return Verdict::Domain("tolerance against an empty reserve");
    }
    let mut accept = true;
    for (i, j) in [(0, 1), (1, 0)] {
        // d_i/d_j*(1-t) <= r_i/r_j
        let l = mul3(d[i], E18 - t, r[j]);
        let rr = mul3(r[i], d[j], E18);
        if l > rr {
            accept = false;
            if l > rr + w(3) * mul(d[j], r[j]) {
                return Verdict::Refuse;
            }
        }
    }
    if accept {
        Verdict::Accept
    } else {
        Verdict::Gray
    }
}

impl<'a> Model<'a> {
    pub fn new(o: &Obs, b: &'a Bind, height: u64, time_ns: u64) -> Self {
        Model {
            o: o.clone(),
            b,
            height,
            time_ns,
            gray: None,
            native_hop: false,
            pend_pair: None,
            pend_tok: None,
            swaps: vec![],
            lp_ops: BTreeSet::new(),
            swapped: BTreeSet::new(),
            named: BTreeSet::new(),
            provs: vec![],
            wds: vec![],
            guards: 0,
            tols: 0,
            mins: 0,
            first_deposit: false,
            whitelist_free: false,
        }
    }

    fn acct(&mut self, a: &Acct) -> String {
        let s = self.b.acct(a).unwrap_or_default();
        self.named.insert(s.clone());
        if let Some(h) = canon(&s).and_then(|c| humanize(&c)) {
            self.named.insert(h);
        }
        s
    }
    fn asset(&self, a: &Asset) -> AInfo {
        self.b.asset(a).unwrap_or(AInfo::Nat("?".into()))
    }

    pub fn tainted(&self, pair: &str) -> bool {
        is_tainted(&self.o, self.b, pair)
    }

    fn mv(&mut self, a: &AInfo, from: &str, to: &str, amt: u128, why: &'static str) -> R<()> {
        let f = self.o.bal(a, from);
        if f < amt {
            return fail(why, &["C13", "C10"]);
        }
        self.o.set(a, from, f - amt);
        let t = self.o.bal(a, to);
        match t.checked_add(amt) {
            Some(v) => self.o.set(a, to, v),
            None => return unknown("balance exceeds 128 bits"),
        }
        self.named.insert(to.to_string());
        Ok(())
    }

    fn attach(&mut self, from: &str, to: &str, funds: &[(String, u128)]) -> R<()> {
        for (d, a) in funds {
            self.mv(&AInfo::Nat(d.clone()), from, to, *a, "not enough coins")?;
        }
        Ok(())
    }

    fn is_contract(&self, a: &str) -> bool {
        self.o.toks.contains_key(a)
            || self.o.pairs.contains_key(a)
            || a == self.b.factory
            || a == self.b.router
            || self.b.is_evil(a)
    }

    /// properties a wrong outcome of a token operation breaks
    fn tp(&self, tok: &str) -> Vec<P> {
        if self.o.pairs.values().any(|p| p.lp == tok) {
            vec!["C23", "C09"]
        } else {
            vec!["C23"]
        }
    }

    fn deduct(&mut self, tok: &str, owner: &str, spender: &str, amt: u128) -> R<()> {
        let props = self.tp(tok);
        let (h, t) = (self.height, self.time_ns);
        let tk = match self.o.toks.get_mut(tok) {
            Some(t) => Rc::make_mut(t),
            None => return unknown("unknown token"),
        };
        match tk
            .allow
            .get_mut(&(owner.to_string(), spender.to_string()))
        {
            None => Err(Stop::Fail("no allowance", props)),
            Some((a, e)) => {
                if expired(e, h, t) {
                    return Err(Stop::Fail("allowance expired", props));
                }
                if *a < amt {
                    return Err(Stop::Fail("allowance too small", props));
                }
                *a -= amt;
                Ok(())
            }
        }
    }

    fn cw(&mut self, sender: &str, tok: &AInfo, m: &Cw) -> R<()> {
        let t = match tok.canon() {
            AInfo::Tok(t) => t,
            AInfo::Nat(_) => return fail("native coin is no contract", &[]),
        };
        if self.b.is_evil(&t) {
            return unknown("hostile token");
        }
        if !self.o.toks.contains_key(&t) {
            return fail("not a token", &[]);
        }
        let a = AInfo::Tok(t.clone());
        let tp = self.tp(&t);
        match m {
            Cw::Transfer { to, amt } => {
                if amt.0 == 0 {
                    return fail("zero amount", &[]);
                }
                let to = self.acct(to);
                if !valid_addr(&to) {
                    return fail("bad address", &[]);
                }
                self.tmv(&a, sender, &to, amt.0, &tp)
            }
            Cw::TransferFrom { owner, to, amt } => {
                let (owner, to) = (self.acct(owner), self.acct(to));
                if !valid_addr(&to) || !valid_addr(&owner) {
                    return fail("bad address", &[]);
                }
                self.deduct(&t, &owner, sender, amt.0)?;
                self.tmv(&a, &owner, &to, amt.0, &tp)
            }
            Cw::Send { to, amt, hook } => {
                if amt.0 == 0 {
                    return fail("zero amount", &[]);
                }
                let to = self.acct(to);
                if !valid_addr(&to) {
                    return fail("bad address", &[]);
                }
                self.tmv(&a, sender, &to, amt.0, &tp)?;
                self.notify(&to, &t, sender, amt.0, hook)
            }
            Cw::SendFrom {
                owner,
                to,
                amt,
                hook,
            } => {
                let (owner, to) = (self.acct(owner), self.acct(to));
                if !valid_addr(&to) || !valid_addr(&owner) {
                    return fail("bad address", &[]);
                }
                self.deduct(&t, &owner, sender, amt.0)?;
                self.tmv(&a, &owner, &to, amt.0, &tp)?;
                if amt.0 == 0 {
                    return unknown("zero notification");
                }
                self.notify(&to, &t, sender, amt.0, hook)
            }
            Cw::Burn { amt } => {
                if amt.0 == 0 {
                    return fail("zero amount", &[]);
                }
                self.burn(&t, sender, amt.0)
            }
            Cw::BurnFrom { owner, amt } => {
                let owner = self.acct(owner);
                if !valid_addr(&owner) {
                    return fail("bad address", &[]);
                }
                self.deduct(&t, &owner, sender, amt.0)?;
                self.burn(&t, &owner, amt.0)
            }
            Cw::Mint { to, amt } => {
                let to = self.acct(to);
                self.mint(&t, sender, &to, amt.0)
            }
            Cw::Inc { sp, amt, exp } => {
                let sp = self.acct(sp);
                if !valid_addr(&sp) || sp == sender {
                    return fail("bad spender", &[]);
                }
                let e = exp
                    .as_ref()
                    .map(|e| resolve_exp(e, self.height, self.time_ns));
                if let Some(e) = &e {
                    if expired(e, self.height, self.time_ns) {
                        return fail("already expired", &[]);
                    }
                }
                let tk = Rc::make_mut(self.o.toks.get_mut(&t).unwrap());
                let ent = tk
                    .allow
                    .entry((sender.to_string(), sp))
                    .or_insert((0, Expiration::Never {}));
                match ent.0.checked_add(amt.0) {
                    Some(v) => ent.0 = v,
                    None => return unknown("allowance exceeds 128 bits"),
                }
                if let Some(e) = e {
                    ent.1 = e;
                }
                Ok(())
            }
            Cw::Dec { sp, amt, exp } => {
                let sp = self.acct(sp);
                if !valid_addr(&sp) || sp == sender {
                    return fail("bad spender", &[]);
                }
                let e = exp
                    .as_ref()
                    .map(|e| resolve_exp(e, self.height, self.time_ns));
                let (h, tm) = (self.height, self.time_ns);
                let tk = Rc::make_mut(self.o.toks.get_mut(&t).unwrap());
                let k = (sender.to_string(), sp);
                match tk.allow.get_mut(&k) {
                    None => fail("no allowance", &[]),
                    Some(ent) => {
                        if amt.0 < ent.0 {
                            if let Some(e) = e {
                                if expired(&e, h, tm) {
                                    return fail("already expired", &[]);
                                }
                                ent.1 = e;
                            }
                            ent.0 -= amt.0;
                        } else {
                            tk.allow.remove(&k);
                        }
                        Ok(())
                    }
                }
            }
            Cw::UpdateMinter { to } => {
                let to = to.as_ref().map(|x| self.acct(x));
                let tk = self.o.toks.get_mut(&t).unwrap();
                let cap = match &tk.minter {
                    Some((m, cap)) if m == sender => *cap,
                    _ => return Err(Stop::Fail("not the minter", tp)),
                };
                if let Some(x) = &to {
                    if !valid_addr(x) {
                        return fail("bad address", &[]);
                    }
                }
                Rc::make_mut(tk).minter = to.map(|x| (x, cap));
                Ok(())
            }
        }
    }

    fn tmv(&mut self, a: &AInfo, from: &str, to: &str, amt: u128, tp: &[P]) -> R<()> {
        match self.mv(a, from, to, amt, "token balance too small") {
            Err(Stop::Fail(w, mut p)) => {
                p.extend(tp);
                Err(Stop::Fail(w, p))
            }
            x => x,
        }
    }

    fn burn(&mut self, t: &str, who: &str, amt: u128) -> R<()> {
        let props = self.tp(t);
        let a = AInfo::Tok(t.to_string());
        let b = self.o.bal(&a, who);
        if b < amt {
            return Err(Stop::Fail("token balance too small", props));
        }
        self.o.set(&a, who, b - amt);
        let tk = Rc::make_mut(self.o.toks.get_mut(t).unwrap());
        tk.supply = tk.supply.saturating_sub(amt);
        Ok(())
    }

    fn mint(&mut self, t: &str, sender: &str, to: &str, amt: u128) -> R<()> {
        let props = self.tp(t);
        if amt == 0 {
            return fail("zero amount", &[]);
        }
        let tk = self.o.toks.get_mut(t).unwrap();
        let cap = match &tk.minter {
            Some((m, cap)) if m == sender => *cap,
            _ => return Err(Stop::Fail("not the minter", props)),
        };
        let tk = Rc::make_mut(tk);
        let s = match tk.supply.checked_add(amt) {
            Some(s) => s,
            None => return unknown("supply exceeds 128 bits"),
        };
        if let Some(c) = cap {
            if s > c {
                return Err(Stop::Fail("cap exceeded", props));
            }
        }
        tk.supply = s;
        if !valid_addr(to) {
            return fail("bad address", &[]);
        }
        let a = AInfo::Tok(t.to_string());
        let b = self.o.bal(&a, to);
        self.o.set(&a, to, b + amt);
        Ok(())
    }

    fn notify(&mut self, to: &str, caller: &str, claimed: &str, amt: u128, hook: &Hook) -> R<()> {
        if self.b.is_evil(to) {
            return unknown("hostile token");
        }
        if self.o.pairs.contains_key(to) {
            return self.pair_receive(to, caller, claimed, amt, hook);
        }
        if to == self.b.router {
            return self.router_receive(claimed, hook);
        }
        fail("no notification handler", &["C10"])
    }

    fn pair_receive(
        &mut self,
        pair: &str,
        caller: &str,
        claimed: &str,
        amt: u128,
        hook: &Hook,
    ) -> R<()> {
        self.named.insert(pair.to_string());
        let p = self.o.pairs[pair].clone();
        match hook {
            Hook::Swap { belief, max, to } => {
                let ca = AInfo::Tok(caller.to_string());
                let i = match p.a.iter().position(|x| *x == ca) {
                    Some(i) => i,
                    None => return fail("swap notified by a contract that is no asset", &["C18"]),
                };
                if self.tainted(pair) {
                    return unknown("hostile token");
                }
                let to = match to {
                    Some(t) => {
                        let t = self.acct(t);
                        if !valid_addr(&t) {
                            return fail("bad address", &[]);
                        }
                        Some(t)
                    }
                    None => None,
                };
                self.swap(
                    pair,
                    i,
                    claimed,
                    amt,
                    belief.as_deref(),
                    max.as_deref(),
                    to,
                    false,
                )
            }
            Hook::Withdraw => {
                if caller != p.lp {
                    return fail("withdrawal notified by another contract", &["C18"]);
                }
                if !valid_addr(claimed) {
                    return fail("bad address", &[]);
                }
                if self.tainted(pair) {
                    self.lp_ops.insert(pair.to_string());
                    return unknown("hostile token");
                }
                self.withdraw(pair, claimed, amt)
            }
            _ => fail("not a hook of the pair", &[]),
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn swap(
        &mut self,
        pair: &str,
        i: usize,
        trader: &str,
        a: u128,
        belief: Option<&str>,
        max: Option<&str>,
        to: Option<String>,
        routed: bool,
    ) -> R<()> {
        let p = self.o.pairs[pair].clone();
        self.swapped.insert(pair.to_string());
        let (off, ask) = (&p.a[i], &p.a[1 - i]);
        let x = match self.o.bal(off, pair).checked_sub(a) {
            Some(x) => x,
            None => return fail("offered amount never arrived", &["C18", "C03"]),
        };
        let y = self.o.bal(ask, pair);
        if x == 0 {
            return if y > 0 {
                fail("swap against an empty offered reserve", &["C01"])
            } else {
                unknown("swap in an empty pool")
            };
        }
        let s = match num::swap_out(x, y, a) {
            Some(s) => s,
            None => return unknown("amounts exceed 128 bits"),
        };
        let (lo, hi) = match (s.spread_lo, s.spread_hi) {
            (Some(l), Some(h)) => (l, h),
            _ => return unknown("spread exceeds 128 bits"),
        };
        if max.is_some() {
            self.guards += 1;
        }
        match guard(belief, max, a, s.net, lo, hi, p.dec[i], p.dec[1 - i]) {
            Verdict::Accept => {}
            Verdict::Gray => self.gray = Some("spread within rounding of the limit"),
            Verdict::Refuse => return fail("spread above the limit", &["C04"]),
            Verdict::Domain(w) => return unknown(w),
        }
        let receiver = to.unwrap_or_else(|| trader.to_string());
        if s.net > 0 {
            self.mv(ask, pair, &receiver, s.net, "pair cannot pay")?;
        }
        self.swaps.push(SwapRep {
            pair: pair.to_string(),
            trader: trader.to_string(),
            receiver,
            off: off.clone(),
            ask: ask.clone(),
            a,
            x,
            y,
            gross: s.gross,
            net: s.net,
            comm: s.comm,
            lo,
            hi,
            guarded: max.is_some(),
            routed,
        });
        Ok(())
    }

    fn withdraw(&mut self, pair: &str, who: &str, l: u128) -> R<()> {
        let p = self.o.pairs[pair].clone();
        self.lp_ops.insert(pair.to_string());
        let s = self.o.toks.get(&p.lp).map(|t| t.supply).unwrap_or(0);
        if s == 0 || l == 0 || l > s {
            return fail("withdrawal above the supply", &["C08", "C09"]);
        }
        let ratio = num::ratio18(l, s).and_then(num::to128).unwrap_or(0);
        let mut refunds = [(p.a[0].clone(), 0), (p.a[1].clone(), 0)];
        for i in 0..2 {
            let r = self.o.bal(&p.a[i], pair);
            let refund = num::muldiv(r, ratio, num::E18).unwrap_or(0);
            if refund == 0 {
                return fail("refund of zero units", &[]);
            }
            refunds[i].1 = refund;
            self.mv(&p.a[i], pair, who, refund, "pair cannot pay")?;
        }
        self.wds.push(WdRep {
            pair: pair.to_string(),
            who: who.to_string(),
            l,
            supply: s,
            refunds,
        });
        self.burn(&p.lp, pair, l)
    }

    fn provide(
        &mut self,
        sender: &str,
        pair: &str,
        a: &[(AInfo, u128); 2],
        funds: &[(String, u128)],
        tol: Option<&str>,
        recv: Option<&Acct>,
    ) -> R<()> {
        self.named.insert(pair.to_string());
        self.attach(sender, pair, funds)?;
        let p = self.o.pairs[pair].clone();
        self.lp_ops.insert(pair.to_string());
        let recv = match recv {
            Some(r) => self.acct(r),
            None => sender.to_string(),
        };
        if self.tainted(pair) {
            return unknown("hostile token");
        }
        for (info, amt) in a {
            if let AInfo::Nat(d) = info {
                let f = funds.iter().find(|(x, _)| x == d).map(|x| x.1).unwrap_or(0);
                if f != *amt {
                    return fail("attached coins differ from the stated amount", &["C05"]);
                }
            }
        }
        let mut d = [0u128; 2];
        for i in 0..2 {
            match a.iter().find(|(x, _)| *x == p.a[i]) {
                Some((_, v)) => d[i] = *v,
                None => return fail("wrong asset", &["C05"]),
            }
        }
        let mut r = [0u128; 2];
        for i in 0..2 {
            let b = self.o.bal(&p.a[i], pair);
            r[i] = match &p.a[i] {
                AInfo::Nat(_) => match b.checked_sub(d[i]) {
                    Some(v) => v,
                    None => return fail("coins did not arrive", &["C05"]),
                },
                AInfo::Tok(_) => b,
            };
        }
        let s = self.o.toks.get(&p.lp).map(|t| t.supply).unwrap_or(0);
        if d[0] == 0 || d[1] == 0 {
            return fail("a deposit of zero units mints nothing", &["C05"]);
        }
        if let Some(t) = tol {
            self.tols += 1;
            match slippage(t, d, r) {
                Verdict::Accept => {}
                Verdict::Gray => self.gray = Some("slippage within rounding of the tolerance"),
                Verdict::Refuse => return fail("outside the slippage tolerance", &["C06"]),
                Verdict::Domain(w) => return unknown(w),
            }
        }
        let share = if s == 0 {
            self.first_deposit = true;
            if !p.white.iter().any(|x| x == sender) {
                return fail("first deposit by an account not on the whitelist", &["C07"]);
            }
            if d[0] < p.mins[0] || d[1] < p.mins[1] {
                return fail("first deposit below the minimums", &["C07"]);
            }
            num::isqrt_prod(d[0], d[1])
        } else {
            if !p.white.iter().any(|x| x == sender) || d[0] < p.mins[0] || d[1] < p.mins[1] {
                self.whitelist_free = true;
            }
            if r[0] == 0 || r[1] == 0 {
                return unknown("shares outstanding on an empty reserve");
            }
            match (num::muldiv(d[0], s, r[0]), num::muldiv(d[1], s, r[1])) {
                (Some(x), Some(y)) => x.min(y),
                _ => return unknown("share exceeds 128 bits"),
            }
        };
        if share == 0 {
            return fail("a deposit that mints nothing", &["C05"]);
        }
        for i in 0..2 {
            if let AInfo::Tok(t) = &p.a[i] {
                let pull = self
                    .deduct(t, sender, pair, d[i])
                    .and_then(|_| self.mv(&p.a[i], sender, pair, d[i], "token balance too small"));
                if let Err(Stop::Fail(w, mut pr)) = pull {
                    pr.extend(["C05", "C10"]);
                    return Err(Stop::Fail(w, pr));
                }
                pull?;
            }
        }
        self.mint(&p.lp, pair, &recv, share)?;
        self.provs.push(ProvRep {
            pair: pair.to_string(),
            sender: sender.to_string(),
            receiver: recv,
            assets: a.clone(),
            share,
            supply: s,
            reserves: r,
        });
        Ok(())
    }

    // ------------------------------------------------------------ router

    fn router_receive(&mut self, claimed: &str, hook: &Hook) -> R<()> {
        let r = self.b.router.clone();
        self.named.insert(r);
        match hook {
            Hook::Route { hops, min, to } => {
                if !valid_addr(claimed) {
                    return fail("bad address", &[]);
                }
                self.route(claimed, hops, min.map(|m| m.0), to.as_ref())
            }
            _ => fail("not a hook of the router", &[]),
        }
    }

    pub fn find_pair(&self, a: &AInfo, b: &AInfo) -> Option<String> {
        let (a, b) = (a.canon(), b.canon());
        self.b
            .pairs
            .values()
            .filter(|p| p.by_factory)
            .find(|p| {
                let x = self.b.asset(&p.a[0]).map(|x| x.canon());
                let y = self.b.asset(&p.a[1]).map(|x| x.canon());
                (x.as_ref() == Some(&a) && y.as_ref() == Some(&b))
                    || (x.as_ref() == Some(&b) && y.as_ref() == Some(&a))
            })
            .map(|p| p.addr.clone())
    }

    fn route(
        &mut self,
        sender: &str,
        hops: &[(Asset, Asset)],
        min: Option<u128>,
        to: Option<&Acct>,
    ) -> R<()> {
        let to = match to {
            Some(t) => {
                let t = self.acct(t);
                if !valid_addr(&t) {
                    return fail("bad address", &[]);
                }
                t
            }
            None => sender.to_string(),
        };
        if hops.is_empty() {
            return fail("empty route", &["C12"]);
        }
        let hops: Vec<(AInfo, AInfo)> = hops
            .iter()
            .map(|(x, y)| (self.asset(x), self.asset(y)))
            .collect();
        let mut outs: BTreeSet<String> = BTreeSet::new();
        for (x, y) in &hops {
            outs.remove(x.name());
            outs.insert(y.name().to_string());
        }
        if outs.len() != 1 {
            return fail("route with more than one output", &["C12"]);
        }
        let router = self.b.router.clone();
        let target = hops.last().unwrap().1.clone();
        for (x, y) in &hops {
            for z in [x, y] {
                if let AInfo::Tok(t) = z.canon() {
                    if self.b.is_evil(&t) {
                        return unknown("hostile token");
                    }
                }
            }
        }
        let prev = match min {
            None => 0,
            Some(_) => {
                self.mins += 1;
                if let AInfo::Tok(t) = &target {
                    if !self.o.toks.contains_key(t) {
                        return fail("output is no token", &[]);
                    }
                }
                self.o.bal(&target, &to)
            }
        };
        let n = hops.len();
        for (i, (off, ask)) in hops.iter().enumerate() {
            let pair = match self.find_pair(off, ask) {
                Some(p) => p,
                None => return fail("route over a pair that is not registered", &["C12"]),
            };
            if self.tainted(&pair) {
                return unknown("hostile token");
            }
            let amt = self.o.bal(off, &router);
            let last = i + 1 == n;
            let dest = if last { Some(to.clone()) } else { None };
            if amt == 0 {
                return fail("nothing to swap in a hop", &["C12"]);
            }
            let p = self.o.pairs.get(&pair).cloned();
            let p = match p {
                Some(p) => p,
                None => return unknown("pair not readable"),
            };
            let idx = match p.a.iter().position(|z| z == off) {
                Some(i) => i,
                None => return fail("asset named in another letter case", &[]),
            };
            if let AInfo::Nat(_) = off {
                self.native_hop = true;
            }
            self.mv(off, &router, &pair, amt, "router cannot pay")?;
            self.named.insert(pair.clone());
            self.swap(&pair, idx, &router, amt, None, None, dest, true)?;
        }
        if let Some(m) = min {
            let now = self.o.bal(&target, &to);
            if now < prev || now - prev < m {
                return fail("less than the minimum would be received", &["C11"]);
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------ one operation

    pub fn funds(&self, f: &[(u8, crate::ops::Amt)]) -> Vec<(String, u128)> {
        let mut m = std::collections::BTreeMap::new();
        for (d, a) in f {
            if let Some(n) = self.b.denoms.get(*d as usize) {
                *m.entry(n.clone()).or_insert(0u128) += a.0;
            }
        }
        m.into_iter().filter(|(_, a)| *a > 0).collect()
    }

    pub fn apply(&mut self, sender: &str, op: &Op) -> R<()> {
        self.named.insert(sender.to_string());
        match op {
            Op::Send { denom, to, amt } => {
                let to = self.acct(to);
                let to = match canon(&to).and_then(|c| humanize(&c)) {
                    Some(t) => t,
                    None => return fail("bad address", &[]),
                };
                if amt.0 == 0 {
                    return fail("zero coins", &[]);
                }
                let d = self.b.denoms.get(*denom as usize).cloned().unwrap_or_default();
                self.mv(&AInfo::Nat(d), sender, &to, amt.0, "not enough coins")
            }
            Op::Cw { tok, msg } => {
                let t = self.asset(tok);
                self.cw(sender, &t, msg)
            }
            Op::Provide {
                pair,
                a,
                funds,
                tol,
                recv,
            } => {
                let addr = self.b.pairs[pair].addr.clone();
                let listed = [
                    (self.asset(&a[0].0), a[0].1 .0),
                    (self.asset(&a[1].0), a[1].1 .0),
                ];
                let f = match funds {
                    Some(f) => self.funds(f),
                    None => default_funds(&listed),
                };
                self.provide(sender, &addr, &listed, &f, tol.as_deref(), recv.as_ref())
            }
            Op::RouteDirect {
                hops,
                min,
                to,
                funds,
            } => {
                let f = self.funds(funds);
                let r = self.b.router.clone();
                self.attach(sender, &r, &f)?;
                self.named.insert(r);
                self.route(sender, hops, min.map(|m| m.0), to.as_ref())
            }
            Op::RouterStep { .. } => fail("internal hop called from outside", &["C18"]),
            Op::RouterAssert {
                asset,
                prev,
                min,
                recv,
            } => {
                let recv = self.acct(recv);
                if !valid_addr(&recv) {
                    return fail("bad address", &[]);
                }
                let a = self.asset(asset);
                if let AInfo::Tok(t) = &a {
                    if self.b.is_evil(t) {
                        return unknown("hostile token");
                    }
                    if !self.o.toks.contains_key(t) {
                        return fail("no token", &[]);
                    }
                }
                let b = self.o.bal(&a, &recv);
                if b < prev.0 || b - prev.0 < min.0 {
                    return fail("less than the minimum was received", &["C11"]);
                }
                Ok(())
            }
            Op::Forge {
                target,
                claimed,
                amt,
                hook,
                funds,
            } => {
                let t = self.acct(target);
                let c = self.b.acct(claimed).unwrap_or_default();
                let f = self.funds(funds);
                if !self.is_contract(&t) {
                    return fail("no contract", &[]);
                }
                self.attach(sender, &t, &f)?;
                if self.b.is_evil(&t) {
                    return unknown("hostile token");
                }
                if self.o.pairs.contains_key(&t) {
                    return self.pair_receive(&t, sender, &c, amt.0, hook);
                }
                if t == self.b.router {
                    return self.router_receive(&c, hook);
                }
                fail("no notification handler", &[])
            }
            Op::CreatePair {
                slot,
                a,
                white,
                mins,
            } => {
                let info = [self.asset(&a[0]), self.asset(&a[1])];
                if info[0].canon() == info[1].canon() {
                    return fail("pair of an asset with itself", &["C14"]);
                }
                let mut dec = [None; 2];
                for i in 0..2 {
                    match info[i].canon() {
                        AInfo::Nat(d) => match self.o.fac.dec.get(&d) {
                            Some(x) => dec[i] = Some(*x),
                            None => return fail("native coin without verified decimals", &["C17"]),
                        },
                        AInfo::Tok(t) => {
                            if self.b.is_evil(&t) {
                                continue;
                            }
                            match self.o.toks.get(&t) {
                                Some(x) => dec[i] = Some(x.dec),
                                None => {
                                    return fail("asset that is no answering token", &["C17"])
                                }
                            }
                        }
                    }
                }
                if self.find_pair(&info[0], &info[1]).is_some() {
                    return fail("pair exists already", &["C14"]);
                }
                let (pc, tc) = (self.o.fac.pair, self.o.fac.tok);
                self.pend_pair = Some(PendPair {
                    slot: *slot,
                    a: *a,
                    info: [info[0].canon(), info[1].canon()],
                    dec,
                    white: white
                        .iter()
                        .map(|x| self.b.acct(x).unwrap_or_default())
                        .collect(),
                    mins: [mins[0].0, mins[1].0],
                    pair_code: pc,
                    tok_code: tc,
                    by_factory: true,
                });
                if !codes::is_pair(pc) || !codes::is_token(tc) {
                    return fail("configured code cannot be instantiated", &["C10", "C16"]);
                }
                if dec[0].is_none() || dec[1].is_none() {
                    return unknown("hostile token");
                }
                Ok(())
            }
            Op::AddNative { denom, dec } => {
                let d = self.b.denoms.get(*denom as usize).cloned().unwrap_or_default();
                if sender != self.o.fac.owner {
                    return fail("decimals set by a non-owner", &["C16", "C17"]);
                }
                if self.o.bal(&AInfo::Nat(d.clone()), &self.b.factory.clone()) == 0 {
                    return fail("factory holds none of the coin", &["C17"]);
                }
                Rc::make_mut(&mut self.o.fac).dec.insert(d, *dec);
                Ok(())
            }
            Op::UpdateConfig { owner, tok, pair } => {
                if sender != self.o.fac.owner {
                    return fail("configuration changed by a non-owner", &["C16"]);
                }
                let o = owner.as_ref().map(|x| self.acct(x));
                if let Some(x) = &o {
                    if !valid_addr(x) {
                        return fail("new owner is not a valid address", &["C16"]);
                    }
                }
                let f = Rc::make_mut(&mut self.o.fac);
                if let Some(x) = o {
                    f.owner = x;
                }
                if let Some(x) = tok {
                    f.tok = *x;
                }
                if let Some(x) = pair {
                    f.pair = *x;
                }
                Ok(())
            }
            Op::MigratePair { target, code } => {
                let t = self.acct(target);
                if sender != self.o.fac.owner {
                    return fail("pair migrated by a non-owner", &["C16", "C22"]);
                }
                let code = code.unwrap_or(self.o.fac.pair);
                let ok = self
                    .o
                    .pairs
                    .get(&t)
                    .map(|p| p.admin.as_deref() == Some(self.b.factory.as_str()))
                    .unwrap_or(false);
                if !ok {
                    return fail("not a pair the factory administers", &["C22"]);
                }
                if !codes::is_pair(code) {
                    return fail("no such pair code", &["C22", "C10"]);
                }
                Rc::make_mut(self.o.pairs.get_mut(&t).unwrap()).code = code;
                Ok(())
            }
            Op::AdminMigrate { target, code } => {
                let t = self.acct(target);
                if t == self.b.factory {
                    if self.o.fac.admin.as_deref() != Some(sender) {
                        return fail("not the admin", &["C22"]);
                    }
                    if *code != codes::FACTORY && *code != codes::FACTORY2 {
                        return unknown("odd migration");
                    }
                    Rc::make_mut(&mut self.o.fac).code = *code;
                    return Ok(());
                }
                if t == self.b.router {
                    if self.o.rtr.admin.as_deref() != Some(sender) {
                        return fail("not the admin", &["C22"]);
                    }
                    if *code != codes::ROUTER && *code != codes::ROUTER2 {
                        return unknown("odd migration");
                    }
                    Rc::make_mut(&mut self.o.rtr).code = *code;
                    return Ok(());
                }
                fail("not the admin", &["C22", "C16"])
            }
            Op::TokInst {
                slot,
                dec,
                init,
                minter,
                cap,
                name,
                sym,
            } => {
                let name = name.clone().unwrap_or_else(|| token_name(*slot));
                let sym = sym.clone().unwrap_or_else(|| SYMBOL.into());
                if name.len() < 3 || name.len() > 50 {
                    return fail("name of less than 3 or more than 50 bytes", &["C34"]);
                }
                if sym.len() < 3 || sym.len() > 12 || !sym.bytes().all(|b| b.is_ascii_alphabetic() || b == b'-') {
                    return fail("symbol that is not 3 to 12 letters or dashes", &["C34"]);
                }
                let mut sum = 0u128;
                let mut rows: Vec<(String, u128)> = vec![];
                for (w, a) in init {
                    let w = self.b.acct(w).unwrap_or_default();
                    if rows.iter().any(|r| r.0 == w) {
                        return fail("initial balances name an account twice", &["C23", "C34"]);
                    }
                    if !valid_addr(&w) {
                        return fail("bad address", &["C34"]);
                    }
                    sum = match sum.checked_add(a.0) {
                        Some(s) => s,
                        None => return fail("initial supply exceeds 128 bits", &["C23", "C34"]),
                    };
                    rows.push((w, a.0));
                }
                let minter = match minter {
                    Some(m) => {
                        let m = self.b.acct(m).unwrap_or_default();
                        if let Some(c) = cap {
                            if sum > c.0 {
                                return fail("initial supply above the cap", &["C23", "C34"]);
                            }
                        }
                        if !valid_addr(&m) {
                            return fail("bad address", &["C34"]);
                        }
                        Some((m, cap.map(|c| c.0)))
                    }
                    None => None,
                };
                if *dec > 18 {
                    return fail("too many decimals", &["C34"]);
                }
                self.pend_tok = Some(PendTok {
                    slot: *slot,
                    dec: *dec,
                    init: rows,
                    minter,
                    name,
                    sym,
                });
                Ok(())
            }
            Op::PairInst {
                slot,
                a,
                dec,
                white,
                mins,
            } => {
                let info = [self.asset(&a[0]).canon(), self.asset(&a[1]).canon()];
                self.pend_pair = Some(PendPair {
                    slot: *slot,
                    a: *a,
                    info,
                    dec: [Some(dec[0]), Some(dec[1])],
                    white: white
                        .iter()
                        .map(|x| self.b.acct(x).unwrap_or_default())
                        .collect(),
                    mins: [mins[0].0, mins[1].0],
                    pair_code: codes::PAIR,
                    tok_code: codes::TOKEN,
                    by_factory: false,
                });
                Ok(())
            }
            Op::EvilSet { .. } | Op::EvilMint { .. } => Ok(()),
            Op::Relay { e, inner } => {
                let me = self.b.evils.get(*e as usize).cloned().unwrap_or_default();
                self.apply(&me, inner)
            }
        }
    }
}

pub fn default_funds(listed: &[(AInfo, u128); 2]) -> Vec<(String, u128)> {
    let mut m = std::collections::BTreeMap::new();
    for (i, a) in listed {
        if let AInfo::Nat(d) = i {
            if *a > 0 {
                m.insert(d.clone(), *a);
            }
        }
    }
    m.into_iter().collect()
}

pub fn is_tainted(o: &Obs, b: &Bind, pair: &str) -> bool {
    fn go(o: &Obs, b: &Bind, pair: &str, depth: u32) -> bool {
        if depth > 8 {
            return true;
        }
        let p = match o.pairs.get(pair) {
            Some(p) => p,
            None => return true,
        };
        p.a.iter().any(|x| match x {
            AInfo::Nat(_) => false,
            AInfo::Tok(t) => {
                if b.is_evil(t) || !o.toks.contains_key(t) {
                    return true;
                }
                match o.pairs.iter().find(|(_, q)| q.lp == *t) {
                    Some((addr, _)) => go(o, b, addr, depth + 1),
                    None => false,
                }
            }
        })
    }
    go(o, b, pair, 0)
}
