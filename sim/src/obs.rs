//! What a user of the chain can see: balances, supplies, allowances, pair settings, the registry and
//! the configurations, read through the contracts' public queries (native balances come from the
//! simulated bank itself).
use std::collections::BTreeMap;
use std::rc::Rc;

use cosmwasm_std::{Binary, Uint128};
use cw20::Expiration;
use serde::de::DeserializeOwned;
use serde::Deserialize;
use serde_json::json;

use crate::chain::Chain;
use crate::codes;
use crate::ops::{Acct, Asset};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum AInfo {
    Tok(String),
    Nat(String),
}
impl AInfo {
    pub fn json(&self) -> serde_json::Value {
        match self {
            AInfo::Tok(a) => json!({"token":{"contract_addr":a}}),
            AInfo::Nat(d) => json!({"native_token":{"denom":d}}),
        }
    }
    pub fn name(&self) -> &str {
        match self {
            AInfo::Tok(a) => a,
            AInfo::Nat(d) => d,
        }
    }
    pub fn from_json(v: &serde_json::Value) -> Option<AInfo> {
        if let Some(t) = v.get("token") {
            return Some(AInfo::Tok(t.get("contract_addr")?.as_str()?.to_string()));
        }
        let n = v.get("native_token")?;
        Some(AInfo::Nat(n.get("denom")?.as_str()?.to_string()))
    }
    /// the same asset, however its address is written
    pub fn canon(&self) -> AInfo {
        match self {
            AInfo::Tok(a) => AInfo::Tok(
                crate::chain::canon(a)
                    .and_then(|c| crate::chain::humanize(&c))
                    .unwrap_or_else(|| a.clone()),
            ),
            x => x.clone(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct PairBind {
    pub addr: String,
    pub lp: String,
    pub a: [Asset; 2],
    pub by_factory: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Bind {
    pub users: Vec<String>,
    pub denoms: Vec<String>,
    pub toks: BTreeMap<u8, String>,
    pub evils: Vec<String>,
    pub pairs: BTreeMap<u8, PairBind>,
    pub factory: String,
    pub router: String,
}

impl Bind {
    pub fn acct(&self, a: &Acct) -> Option<String> {
        Some(match a {
            Acct::U(i) => self.users.get(*i as usize)?.clone(),
            Acct::UpU(i) => self.users.get(*i as usize)?.to_uppercase(),
            Acct::P(s) => self.pairs.get(s)?.addr.clone(),
            Acct::L(s) => self.pairs.get(s)?.lp.clone(),
            Acct::T(t) => self.toks.get(t)?.clone(),
            Acct::E(e) => self.evils.get(*e as usize)?.clone(),
            Acct::Factory => self.factory.clone(),
            Acct::Router => self.router.clone(),
            Acct::Bad => "not-an-address".to_string(),
        })
    }
    pub fn asset(&self, a: &Asset) -> Option<AInfo> {
        Some(match a {
            Asset::T(t) => AInfo::Tok(self.toks.get(t)?.clone()),
            Asset::UpT(t) => AInfo::Tok(self.toks.get(t)?.to_uppercase()),
            Asset::N(d) => AInfo::Nat(self.denoms.get(*d as usize)?.clone()),
            Asset::E(e) => AInfo::Tok(self.evils.get(*e as usize)?.clone()),
            Asset::L(s) => AInfo::Tok(self.pairs.get(s)?.lp.clone()),
            Asset::FakeU(u) => AInfo::Tok(self.users.get(*u as usize)?.clone()),
            Asset::FakeP(s) => AInfo::Tok(self.pairs.get(s)?.addr.clone()),
        })
    }
    pub fn is_evil(&self, addr: &str) -> bool {
        self.evils.iter().any(|e| e == addr)
    }
    pub fn who(&self, addr: &str) -> String {
        if let Some(i) = self.users.iter().position(|u| u == addr) {
            return format!("user{}", i);
        }
        if addr == self.factory {
            return "factory".into();
        }
        if addr == self.router {
            return "router".into();
        }
        for (s, p) in &self.pairs {
            if p.addr == addr {
                return format!("pair{}", s);
            }
            if p.lp == addr {
                return format!("lp{}", s);
            }
        }
        for (s, t) in &self.toks {
            if t == addr {
                return format!("token{}", s);
            }
        }
        if let Some(i) = self.evils.iter().position(|u| u == addr) {
            return format!("evil{}", i);
        }
        addr.to_string()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct TokObs {
    pub name: String,
    pub sym: String,
    pub dec: u8,
    pub bal: BTreeMap<String, u128>,
    pub supply: u128,
    pub minter: Option<(String, Option<u128>)>,
    pub allow: BTreeMap<(String, String), (u128, Expiration)>,
    pub code: u64,
    pub admin: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct PairObs {
    pub a: [AInfo; 2],
    pub lp: String,
    pub dec: [u8; 2],
    pub white: Vec<String>,
    pub mins: [u128; 2],
    pub code: u64,
    pub admin: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RegEntry {
    pub addr: String,
    pub a: [AInfo; 2],
    pub lp: String,
    pub dec: [u8; 2],
    pub white: Vec<String>,
    pub mins: [u128; 2],
}

#[derive(Clone, Debug, PartialEq)]
pub struct FacObs {
    pub owner: String,
    pub tok: u64,
    pub pair: u64,
    pub code: u64,
    pub admin: Option<String>,
    /// per pair the factory created: what looking its assets up answers, in both orders
    pub reg: BTreeMap<String, [Result<RegEntry, String>; 2]>,
    pub dec: BTreeMap<String, u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RtrObs {
    pub factory: String,
    pub code: u64,
    pub admin: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub bank: Rc<BTreeMap<(String, String), u128>>,
    pub toks: BTreeMap<String, Rc<TokObs>>,
    pub pairs: BTreeMap<String, Rc<PairObs>>,
    pub fac: Rc<FacObs>,
    pub rtr: Rc<RtrObs>,
}

pub fn ask<T: DeserializeOwned>(
    c: &Chain,
    addr: &str,
    q: &serde_json::Value,
) -> Result<T, String> {
    let b: Binary = c.query(addr, &serde_json::to_vec(q).unwrap())?;
    serde_json::from_slice(b.as_slice()).map_err(|e| e.to_string())
}

/// the observer's own reading
fn look<T: DeserializeOwned>(c: &Chain, addr: &str, q: &serde_json::Value) -> Result<T, String> {
    let b: Binary = c.query_again(addr, &serde_json::to_vec(q).unwrap())?;
    serde_json::from_slice(b.as_slice()).map_err(|e| e.to_string())
}

fn pair_fields(v: &serde_json::Value) -> Option<RegEntry> {
    let ai = v.get("asset_infos")?.as_array()?;
    let d = v.get("asset_decimals")?.as_array()?;
    let r = v.get("requirements")?;
    Some(RegEntry {
        addr: v.get("contract_addr")?.as_str()?.to_string(),
        a: [AInfo::from_json(&ai[0])?, AInfo::from_json(&ai[1])?],
        lp: v.get("liquidity_token")?.as_str()?.to_string(),
        dec: [d[0].as_u64()? as u8, d[1].as_u64()? as u8],
        white: r
            .get("whitelist")?
            .as_array()?
            .iter()
            .map(|x| x.as_str().unwrap_or("").to_string())
            .collect(),
        mins: [
            r.get("first_asset_minimum")?.as_str()?.parse().ok()?,
            r.get("second_asset_minimum")?.as_str()?.parse().ok()?,
        ],
    })
}

pub fn read_pair_entry(c: &Chain, addr: &str) -> Result<RegEntry, String> {
    let v: serde_json::Value = look(c, addr, &json!({"pair":{}}))?;
    pair_fields(&v).ok_or_else(|| format!("odd pair answer: {}", v))
}

pub fn read_pair(c: &Chain, addr: &str) -> Result<PairObs, String> {
    let e = read_pair_entry(c, addr)?;
    if e.addr != addr {
        return Err(format!("pair {} reports address {}", addr, e.addr));
    }
    let m = c.w.borrow().meta(addr).ok_or("no contract")?;
    Ok(PairObs {
        a: e.a,
        lp: e.lp,
        dec: e.dec,
        white: e.white,
        mins: e.mins,
        code: m.code,
        admin: m.admin,
    })
}

pub fn lookup(c: &Chain, fac: &str, a: &AInfo, b: &AInfo) -> Result<RegEntry, String> {
    let v: serde_json::Value = look(
        c,
        fac,
        &json!({"pair":{"asset_infos":[a.json(), b.json()]}}),
    )?;
    pair_fields(&v).ok_or_else(|| format!("odd registry answer: {}", v))
}

pub fn page(
    c: &Chain,
    fac: &str,
    after: Option<[AInfo; 2]>,
    limit: Option<u32>,
) -> Result<Vec<RegEntry>, String> {
    let sa = after.map(|x| json!([x[0].json(), x[1].json()]));
    let v: serde_json::Value = ask(
        c,
        fac,
        &json!({"pairs":{"start_after":sa,"limit":limit}}),
    )?;
    v.get("pairs")
        .and_then(|p| p.as_array())
        .ok_or("odd pairs answer")?
        .iter()
        .map(|x| pair_fields(x).ok_or_else(|| "odd entry".to_string()))
        .collect()
}

#[derive(Deserialize)]
struct Bal {
    balance: Uint128,
}
#[derive(Deserialize)]
struct Info {
    #[serde(default)]
    name: String,
    #[serde(default)]
    symbol: String,
    decimals: u8,
    total_supply: Uint128,
}
#[derive(Deserialize)]
struct Accts {
    accounts: Vec<String>,
}
#[derive(Deserialize)]
struct Minter {
    minter: String,
    cap: Option<Uint128>,
}
#[derive(Deserialize)]
struct Allows {
    allowances: Vec<AllowRow>,
}
#[derive(Deserialize)]
struct AllowRow {
    spender: String,
    allowance: Uint128,
    expires: Expiration,
}

pub fn read_token(c: &Chain, addr: &str, owners: &[String]) -> Result<TokObs, String> {
    let info: Info = look(c, addr, &json!({"token_info":{}}))?;
    let minter: Option<Minter> = look(c, addr, &json!({"minter":{}}))?;
    let mut bal = BTreeMap::new();
    let mut after: Option<String> = None;
    loop {
        let a: Accts = look(
            c,
            addr,
            &json!({"all_accounts":{"start_after":after,"limit":30}}),
        )?;
        let n = a.accounts.len();
        after = a.accounts.last().cloned();
        for x in a.accounts {
            let b: Bal = look(c, addr, &json!({"balance":{"address":x}}))?;
            if !b.balance.is_zero() {
                bal.insert(x, b.balance.u128());
            }
        }
        if n < 30 {
            break;
        }
    }
    let mut allow = BTreeMap::new();
    for o in owners {
        let mut after: Option<String> = None;
        loop {
            let r: Allows = look(
                c,
                addr,
                &json!({"all_allowances":{"owner":o,"start_after":after,"limit":30}}),
            )?;
            let n = r.allowances.len();
            after = r.allowances.last().map(|x| x.spender.clone());
            for x in r.allowances {
                allow.insert((o.clone(), x.spender), (x.allowance.u128(), x.expires));
            }
            if n < 30 {
                break;
            }
        }
    }
    let m = c.w.borrow().meta(addr).ok_or("no contract")?;
    Ok(TokObs {
        name: info.name,
        sym: info.symbol,
        dec: info.decimals,
        bal,
        supply: info.total_supply.u128(),
        minter: minter.map(|m| (m.minter, m.cap.map(|x| x.u128()))),
        allow,
        code: m.code,
        admin: m.admin,
    })
}

pub fn read_factory(c: &Chain, b: &Bind) -> Result<FacObs, String> {
    let fac = b.factory.as_str();
    let denoms = &b.denoms;
    #[derive(Deserialize)]
    struct Cfg {
        owner: String,
        pair_code_id: u64,
        token_code_id: u64,
    }
    let cfg: Cfg = look(c, fac, &json!({"config":{}}))?;
    let mut reg = BTreeMap::new();
    for p in b.pairs.values().filter(|p| p.by_factory) {
        let (x, y) = match (b.asset(&p.a[0]), b.asset(&p.a[1])) {
            (Some(x), Some(y)) => (x.canon(), y.canon()),
            _ => continue,
        };
        reg.insert(
            p.addr.clone(),
            [lookup(c, fac, &x, &y), lookup(c, fac, &y, &x)],
        );
    }
    let mut dec = BTreeMap::new();
    for d in denoms {
        #[derive(Deserialize)]
        struct D {
            decimals: u8,
        }
        if let Ok(x) = look::<D>(c, fac, &json!({"native_token_decimals":{"denom":d}})) {
            dec.insert(d.clone(), x.decimals);
        }
    }
    let m = c.w.borrow().meta(fac).ok_or("no factory")?;
    Ok(FacObs {
        owner: cfg.owner,
        tok: cfg.token_code_id,
        pair: cfg.pair_code_id,
        code: m.code,
        admin: m.admin,
        reg,
        dec,
    })
}

pub fn read_router(c: &Chain, r: &str) -> Result<RtrObs, String> {
    #[derive(Deserialize)]
    struct Cfg {
        halo_factory: String,
    }
    let cfg: Cfg = look(c, r, &json!({"config":{}}))?;
    let m = c.w.borrow().meta(r).ok_or("no router")?;
    Ok(RtrObs {
        factory: cfg.halo_factory,
        code: m.code,
        admin: m.admin,
    })
}

impl Obs {
    pub fn blank() -> Obs {
        Obs {
            bank: Rc::new(BTreeMap::new()),
            toks: BTreeMap::new(),
            pairs: BTreeMap::new(),
            fac: Rc::new(FacObs {
                owner: String::new(),
                tok: 0,
                pair: 0,
                code: 0,
                admin: None,
                reg: BTreeMap::new(),
                dec: BTreeMap::new(),
            }),
            rtr: Rc::new(RtrObs {
                factory: String::new(),
                code: 0,
                admin: None,
            }),
        }
    }
    pub fn first(c: &Chain, b: &Bind) -> Result<Obs, String> {
        let mut o = Obs {
            bank: Rc::new(BTreeMap::new()),
            toks: BTreeMap::new(),
            pairs: BTreeMap::new(),
            fac: Rc::new(read_factory(c, b)?),
            rtr: Rc::new(read_router(c, &b.router)?),
        };
        {
            let mut w = c.w.borrow_mut();
            for t in b.toks.values() {
                w.dirty.insert(t.clone());
            }
            w.bank_dirty = true;
        }
        o.refresh(c, b)?;
        Ok(o)
    }

    pub fn owners(b: &Bind) -> Vec<String> {
        let mut v = b.users.clone();
        v.extend(b.evils.iter().cloned());
        v.extend(b.pairs.values().map(|p| p.addr.clone()));
        v.push(b.router.clone());
        v.push(b.factory.clone());
        v
    }

    /// Re-read what changed since the last reading.
    pub fn refresh(&mut self, c: &Chain, b: &Bind) -> Result<(), String> {
        let (dirty, bank) = {
            let mut w = c.w.borrow_mut();
            (
                std::mem::take(&mut w.dirty),
                std::mem::replace(&mut w.bank_dirty, false),
            )
        };
        if bank {
            self.bank = Rc::new(c.w.borrow().bank_all());
        }
        let owners = Self::owners(b);
        for d in dirty {
            let m = match c.w.borrow().meta(&d) {
                Some(m) => m,
                None => {
                    self.toks.remove(&d);
                    self.pairs.remove(&d);
                    continue;
                }
            };
            if codes::is_token(m.code) {
                self.toks
                    .insert(d.clone(), Rc::new(read_token(c, &d, &owners)?));
            } else if codes::is_pair(m.code) {
                self.pairs.insert(d.clone(), Rc::new(read_pair(c, &d)?));
            } else if d == b.factory {
                self.fac = Rc::new(read_factory(c, b)?);
            } else if d == b.router {
                self.rtr = Rc::new(read_router(c, &d)?);
            }
        }
        Ok(())
    }

    pub fn bal(&self, a: &AInfo, who: &str) -> u128 {
        match a {
            AInfo::Nat(d) => self
                .bank
                .get(&(who.to_string(), d.clone()))
                .copied()
                .unwrap_or(0),
            AInfo::Tok(t) => self
                .toks
                .get(t)
                .and_then(|t| t.bal.get(who).copied())
                .unwrap_or(0),
        }
    }
    pub fn set(&mut self, a: &AInfo, who: &str, v: u128) {
        match a {
            AInfo::Nat(d) => {
                let m = Rc::make_mut(&mut self.bank);
                let k = (who.to_string(), d.clone());
                if v == 0 {
                    m.remove(&k);
                } else {
                    m.insert(k, v);
                }
            }
            AInfo::Tok(t) => {
                if let Some(t) = self.toks.get_mut(t) {
                    let t = Rc::make_mut(t);
                    if v == 0 {
                        t.bal.remove(who);
                    } else {
                        t.bal.insert(who.to_string(), v);
                    }
                }
            }
        }
    }
    pub fn reserves(&self, pair: &str) -> Option<(u128, u128)> {
        let p = self.pairs.get(pair)?;
        Some((self.bal(&p.a[0], pair), self.bal(&p.a[1], pair)))
    }
    pub fn lp_supply(&self, pair: &str) -> Option<u128> {
        let p = self.pairs.get(pair)?;
        self.toks.get(&p.lp).map(|t| t.supply)
    }
}
