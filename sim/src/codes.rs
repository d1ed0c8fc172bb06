//! Code ids of the simulated chain: the repository's real contracts (each listed twice where an
//! upgrade target is needed) and one hostile token written here.
use cosmwasm_std::{
    from_slice, Binary, CosmosMsg, Deps, DepsMut, Empty, Env, MessageInfo, Reply,
    Response, Uint128, WasmMsg,
};
use serde::{Deserialize, Serialize};

pub const TOKEN: u64 = 1;
pub const TOKEN2: u64 = 2;
pub const PAIR: u64 = 3;
pub const PAIR2: u64 = 4;
pub const FACTORY: u64 = 5;
pub const FACTORY2: u64 = 6;
pub const ROUTER: u64 = 7;
pub const ROUTER2: u64 = 8;
pub const EVIL: u64 = 9;
pub const NO_CODE: u64 = 77;

pub fn exists(code: u64) -> bool {
    (1..=9).contains(&code)
}
pub fn is_token(code: u64) -> bool {
    code == TOKEN || code == TOKEN2
}
pub fn is_pair(code: u64) -> bool {
    code == PAIR || code == PAIR2
}

/// serde_json, because the contracts' own serializer refuses untyped maps
fn bin(v: &serde_json::Value) -> Result<Binary, String> {
    serde_json::to_vec(v).map(Binary).map_err(s)
}

fn s<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

pub fn instantiate(
    code: u64,
    deps: DepsMut,
    env: Env,
    info: MessageInfo,
    msg: &[u8],
) -> Result<Response, String> {
    match code {
        TOKEN | TOKEN2 => {
            halo_token::contract::instantiate(deps, env, info, from_slice(msg).map_err(s)?)
                .map_err(s)
        }
        PAIR | PAIR2 => {
            halo_pair::contract::instantiate(deps, env, info, from_slice(msg).map_err(s)?)
                .map_err(s)
        }
        FACTORY | FACTORY2 => {
            halo_factory::contract::instantiate(deps, env, info, from_slice(msg).map_err(s)?)
                .map_err(s)
        }
        ROUTER | ROUTER2 => {
            halo_router::contract::instantiate(deps, env, info, from_slice(msg).map_err(s)?)
                .map_err(s)
        }
        EVIL => evil_instantiate(deps, msg),
        _ => Err("no such code".into()),
    }
}

pub fn execute(
    code: u64,
    deps: DepsMut,
    env: Env,
    info: MessageInfo,
    msg: &[u8],
) -> Result<Response, String> {
    match code {
        TOKEN | TOKEN2 => {
            halo_token::contract::execute(deps, env, info, from_slice(msg).map_err(s)?).map_err(s)
        }
        PAIR | PAIR2 => {
            halo_pair::contract::execute(deps, env, info, from_slice(msg).map_err(s)?).map_err(s)
        }
        FACTORY | FACTORY2 => {
            halo_factory::contract::execute(deps, env, info, from_slice(msg).map_err(s)?)
                .map_err(s)
        }
        ROUTER | ROUTER2 => {
            halo_router::contract::execute(deps, env, info, from_slice(msg).map_err(s)?).map_err(s)
        }
        EVIL => evil_execute(deps, info, msg),
        _ => Err("no such code".into()),
    }
}

pub fn query(code: u64, deps: Deps, env: Env, msg: &[u8]) -> Result<Binary, String> {
    match code {
        TOKEN | TOKEN2 => {
            halo_token::contract::query(deps, env, from_slice(msg).map_err(s)?).map_err(s)
        }
        PAIR | PAIR2 => {
            halo_pair::contract::query(deps, env, from_slice(msg).map_err(s)?).map_err(s)
        }
        FACTORY | FACTORY2 => {
            halo_factory::contract::query(deps, env, from_slice(msg).map_err(s)?).map_err(s)
        }
        ROUTER | ROUTER2 => {
            halo_router::contract::query(deps, env, from_slice(msg).map_err(s)?).map_err(s)
        }
        EVIL => evil_query(deps, msg),
        _ => Err("no such code".into()),
    }
}

pub fn reply(code: u64, deps: DepsMut, env: Env, reply: Reply) -> Result<Response, String> {
    match code {
        PAIR | PAIR2 => halo_pair::contract::reply(deps, env, reply).map_err(s),
        FACTORY | FACTORY2 => halo_factory::contract::reply(deps, env, reply).map_err(s),
        ROUTER | ROUTER2 => optional::router_reply(deps, env, reply),
        TOKEN | TOKEN2 => optional::token_reply(deps, env, reply),
        _ => Err("contract has no reply entry point".into()),
    }
}

pub fn migrate(code: u64, deps: DepsMut, env: Env, msg: &[u8]) -> Result<Response, String> {
    match code {
        PAIR | PAIR2 => {
            halo_pair::contract::migrate(deps, env, from_slice(msg).map_err(s)?).map_err(s)
        }
        FACTORY | FACTORY2 => {
            halo_factory::contract::migrate(deps, env, from_slice(msg).map_err(s)?).map_err(s)
        }
        ROUTER | ROUTER2 => {
            halo_router::contract::migrate(deps, env, from_slice(msg).map_err(s)?).map_err(s)
        }
        TOKEN | TOKEN2 => optional::token_migrate(deps, env, msg),
        _ => Err("contract has no migrate entry point".into()),
    }
}

/// Entry points a contract does not have today but may get: inside each function the contract's own
/// function, if there is one, hides the fallback of the same name.
mod optional {
    #![allow(unused_imports)]
    use cosmwasm_std::{from_slice, DepsMut, Empty, Env, Reply, Response};

    fn reply(_: DepsMut, _: Env, _: Reply) -> Result<Response, String> {
        Err("contract has no reply entry point".into())
    }
    fn migrate(_: DepsMut, _: Env, _: Empty) -> Result<Response, String> {
        Err("contract has no migrate entry point".into())
    }
    pub fn router_reply(deps: DepsMut, env: Env, r: Reply) -> Result<Response, String> {
        use halo_router::contract::*;
        reply(deps, env, r).map_err(|e| e.to_string())
    }
    pub fn token_reply(deps: DepsMut, env: Env, r: Reply) -> Result<Response, String> {
        use halo_token::contract::*;
        reply(deps, env, r).map_err(|e| e.to_string())
    }
    pub fn token_migrate(deps: DepsMut, env: Env, msg: &[u8]) -> Result<Response, String> {
        use halo_token::contract::*;
        migrate(deps, env, from_slice(msg).map_err(|e| e.to_string())?).map_err(|e| e.to_string())
    }
}

// ------------------------------------------------------------------ the hostile token (a stand-in)

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
#[serde(rename_all = "snake_case")]
pub enum EvilMode {
    Honest,
    FailTransfer,
    Short,
    Lie { balance: Uint128 },
    Panic,
    Reenter { msgs: Vec<CosmosMsg<Empty>> },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct EvilCfg {
    pub decimals: u8,
    pub mode: EvilMode,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
pub enum EvilExec {
    Transfer { recipient: String, amount: Uint128 },
    TransferFrom { owner: String, recipient: String, amount: Uint128 },
    Send { contract: String, amount: Uint128, msg: Binary },
    Mint { recipient: String, amount: Uint128 },
    Burn { amount: Uint128 },
    IncreaseAllowance { spender: String, amount: Uint128 },
    Set { cfg: EvilCfg },
    Relay { msgs: Vec<CosmosMsg<Empty>> },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
enum EvilQuery {
    TokenInfo {},
    Balance { address: String },
    Minter {},
    /// impersonation: answers like a factory / a pair would
    NativeTokenDecimals { denom: String },
}

fn bkey(a: &str) -> Vec<u8> {
    let mut k = b"b".to_vec();
    k.extend_from_slice(a.as_bytes());
    k
}
fn bal(st: &dyn cosmwasm_std::Storage, a: &str) -> u128 {
    st.get(&bkey(a))
        .map(|v| u128::from_be_bytes(v.as_slice().try_into().unwrap()))
        .unwrap_or(0)
}
fn setbal(st: &mut dyn cosmwasm_std::Storage, a: &str, v: u128) {
    st.set(&bkey(a), &v.to_be_bytes());
}
fn mv(st: &mut dyn cosmwasm_std::Storage, f: &str, t: &str, a: u128) -> Result<(), String> {
    let x = bal(st, f).checked_sub(a).ok_or("evil: insufficient")?;
    setbal(st, f, x);
    let y = bal(st, t).checked_add(a).ok_or("evil: overflow")?;
    setbal(st, t, y);
    Ok(())
}

fn evil_instantiate(deps: DepsMut, msg: &[u8]) -> Result<Response, String> {
    let cfg: EvilCfg = from_slice(msg).map_err(s)?;
    deps.storage.set(b"cfg", &cosmwasm_std::to_vec(&cfg).unwrap());
    Ok(Response::new())
}

fn evil_execute(deps: DepsMut, info: MessageInfo, msg: &[u8]) -> Result<Response, String> {
    let m: EvilExec = from_slice(msg).map_err(s)?;
    let mut cfg: EvilCfg = from_slice(&deps.storage.get(b"cfg").unwrap()).map_err(s)?;
    let mut resp = Response::new();
    let moving = matches!(
        m,
        EvilExec::Transfer { .. } | EvilExec::TransferFrom { .. } | EvilExec::Send { .. }
    );
    let mut short = false;
    if moving {
        match cfg.mode.clone() {
            EvilMode::FailTransfer => return Err("evil: refused".into()),
            EvilMode::Short => short = true,
            EvilMode::Reenter { msgs } => {
                // once: otherwise it would recurse for ever
                cfg.mode = EvilMode::Honest;
                deps.storage.set(b"cfg", &cosmwasm_std::to_vec(&cfg).unwrap());
                resp = resp.add_messages(msgs);
            }
            _ => {}
        }
    }
    let amt = |a: Uint128| if short { a.u128() / 2 } else { a.u128() };
    match m {
        EvilExec::Transfer { recipient, amount } => {
            mv(deps.storage, info.sender.as_str(), &recipient, amt(amount))?;
        }
        EvilExec::TransferFrom {
            owner,
            recipient,
            amount,
        } => {
            mv(deps.storage, &owner, &recipient, amt(amount))?;
        }
        EvilExec::Send {
            contract,
            amount,
            msg,
        } => {
            mv(deps.storage, info.sender.as_str(), &contract, amt(amount))?;
            resp = resp.add_message(WasmMsg::Execute {
                contract_addr: contract,
                msg: bin(&serde_json::json!({"receive":{
                    "sender": info.sender, "amount": amount, "msg": msg }}))?,
                funds: vec![],
            });
        }
        EvilExec::Mint { recipient, amount } => {
            let y = bal(deps.storage, &recipient)
                .checked_add(amount.u128())
                .ok_or("evil: overflow")?;
            setbal(deps.storage, &recipient, y);
        }
        EvilExec::Burn { amount } => {
            let x = bal(deps.storage, info.sender.as_str())
                .checked_sub(amount.u128())
                .ok_or("evil: insufficient")?;
            setbal(deps.storage, info.sender.as_str(), x);
        }
        EvilExec::IncreaseAllowance { .. } => {}
        EvilExec::Set { cfg } => {
            deps.storage.set(b"cfg", &cosmwasm_std::to_vec(&cfg).unwrap());
        }
        EvilExec::Relay { msgs } => {
            resp = resp.add_messages(msgs);
        }
    }
    Ok(resp)
}

fn evil_query(deps: Deps, msg: &[u8]) -> Result<Binary, String> {
    let m: EvilQuery = from_slice(msg).map_err(s)?;
    let cfg: EvilCfg = from_slice(&deps.storage.get(b"cfg").unwrap()).map_err(s)?;
    if cfg.mode == EvilMode::Panic {
        panic!("evil token panics");
    }
    match m {
        EvilQuery::TokenInfo {} => bin(&serde_json::json!({
            "name":"hostile","symbol":"EVIL","decimals":cfg.decimals,"total_supply":"1000000000"})),
        EvilQuery::Balance { address } => {
            let b = match cfg.mode {
                EvilMode::Lie { balance } => balance.u128(),
                _ => bal(deps.storage, &address),
            };
            bin(&serde_json::json!({ "balance": b.to_string() }))
        }
        EvilQuery::Minter {} => bin(&serde_json::json!(null)),
        EvilQuery::NativeTokenDecimals { .. } => {
            bin(&serde_json::json!({ "decimals": cfg.decimals }))
        }
    }
}
