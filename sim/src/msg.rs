//! Turns symbolic operations into the messages a client would sign.
use cosmwasm_std::{to_binary, BankMsg, Binary, Coin, CosmosMsg, Empty, Uint128, WasmMsg};
use serde_json::{json, Value};

use crate::codes;
use crate::codes::{EvilCfg, EvilExec, EvilMode};
use crate::model::{default_funds, resolve_exp};
use crate::obs::Bind;
use crate::ops::{Acct, Amt, Asset, Cw, EMode, Hook, Op};

pub type Msg = CosmosMsg<Empty>;

pub struct Mk<'a> {
    pub b: &'a Bind,
    pub height: u64,
    pub time_ns: u64,
}

pub fn hops_json(b: &Bind, hops: &[(Asset, Asset)]) -> Option<Value> {
    let v: Option<Vec<Value>> = hops
        .iter()
        .map(|(x, y)| {
            Some(json!({"halo_swap":{
                "offer_asset_info": b.asset(x)?.json(), "ask_asset_info": b.asset(y)?.json()}}))
        })
        .collect();
    Some(Value::Array(v?))
}

fn exec(addr: String, v: Value, funds: Vec<Coin>) -> Msg {
    CosmosMsg::Wasm(WasmMsg::Execute {
        contract_addr: addr,
        msg: Binary::from(serde_json::to_vec(&v).unwrap()),
        funds,
    })
}

impl<'a> Mk<'a> {
    fn acct(&self, a: &Acct) -> Option<String> {
        self.b.acct(a)
    }
    fn oacct(&self, a: &Option<Acct>) -> Option<Option<String>> {
        match a {
            None => Some(None),
            Some(x) => Some(Some(self.acct(x)?)),
        }
    }
    fn coins(&self, f: &[(u8, Amt)]) -> Option<Vec<Coin>> {
        f.iter()
            .map(|(d, a)| {
                Some(Coin {
                    denom: self.b.denoms.get(*d as usize)?.clone(),
                    amount: Uint128::new(a.0),
                })
            })
            .collect()
    }
    pub fn hook(&self, h: &Hook) -> Option<Value> {
        Some(match h {
            Hook::Swap { belief, max, to } => {
                json!({"swap":{"belief_price":belief,"max_spread":max,"to":self.oacct(to)?}})
            }
            Hook::Withdraw => json!({"withdraw_liquidity":{}}),
            Hook::Route { hops, min, to } => json!({"execute_swap_operations":{
                "operations": hops_json(self.b, hops)?,
                "minimum_receive": min.map(|m| m.0.to_string()),
                "to": self.oacct(to)? }}),
            Hook::Garbage => json!({"nonsense":{}}),
        })
    }
    fn hookb(&self, h: &Hook) -> Option<Binary> {
        Some(Binary::from(serde_json::to_vec(&self.hook(h)?).unwrap()))
    }
    fn evil_mode(&self, m: &EMode) -> Option<EvilMode> {
        Some(match m {
            EMode::Honest => EvilMode::Honest,
            EMode::Fail => EvilMode::FailTransfer,
            EMode::Short => EvilMode::Short,
            EMode::Lie(a) => EvilMode::Lie {
                balance: Uint128::new(a.0),
            },
            EMode::Panic => EvilMode::Panic,
            EMode::Reenter(ops) => EvilMode::Reenter {
                msgs: ops.iter().map(|o| self.msg(o)).collect::<Option<Vec<_>>>()?,
            },
        })
    }
    fn reqs(&self, white: &[Acct], mins: &[Amt; 2]) -> Option<Value> {
        let w: Option<Vec<String>> = white.iter().map(|x| self.acct(x)).collect();
        Some(json!({"whitelist": w?, "first_asset_minimum": mins[0].0.to_string(),
            "second_asset_minimum": mins[1].0.to_string()}))
    }

    pub fn msg(&self, op: &Op) -> Option<Msg> {
        let s = |a: &Amt| a.0.to_string();
        Some(match op {
            Op::Send { denom, to, amt } => CosmosMsg::Bank(BankMsg::Send {
                to_address: self.acct(to)?,
                amount: vec![Coin {
                    denom: self.b.denoms.get(*denom as usize)?.clone(),
                    amount: Uint128::new(amt.0),
                }],
            }),
            Op::Cw { tok, msg } => {
                let t = self.b.asset(tok)?.name().to_string();
                let e = |x: &Option<crate::ops::Exp>| {
                    x.as_ref().map(|e| {
                        serde_json::to_value(resolve_exp(e, self.height, self.time_ns)).unwrap()
                    })
                };
                let v = match msg {
                    Cw::Transfer { to, amt } => {
                        json!({"transfer":{"recipient":self.acct(to)?,"amount":s(amt)}})
                    }
                    Cw::TransferFrom { owner, to, amt } => json!({"transfer_from":{
                        "owner":self.acct(owner)?,"recipient":self.acct(to)?,"amount":s(amt)}}),
                    Cw::Send { to, amt, hook } => json!({"send":{
                        "contract":self.acct(to)?,"amount":s(amt),"msg":self.hookb(hook)?}}),
                    Cw::SendFrom {
                        owner,
                        to,
                        amt,
                        hook,
                    } => json!({"send_from":{"owner":self.acct(owner)?,
                        "contract":self.acct(to)?,"amount":s(amt),"msg":self.hookb(hook)?}}),
                    Cw::Burn { amt } => json!({"burn":{"amount":s(amt)}}),
                    Cw::BurnFrom { owner, amt } => {
                        json!({"burn_from":{"owner":self.acct(owner)?,"amount":s(amt)}})
                    }
                    Cw::Mint { to, amt } => {
                        json!({"mint":{"recipient":self.acct(to)?,"amount":s(amt)}})
                    }
                    Cw::Inc { sp, amt, exp } => json!({"increase_allowance":{
                        "spender":self.acct(sp)?,"amount":s(amt),"expires":e(exp)}}),
                    Cw::Dec { sp, amt, exp } => json!({"decrease_allowance":{
                        "spender":self.acct(sp)?,"amount":s(amt),"expires":e(exp)}}),
                    Cw::UpdateMinter { to } => {
                        json!({"update_minter":{"new_minter":self.oacct(to)?}})
                    }
                };
                exec(t, v, vec![])
            }
            Op::Provide {
                pair,
                a,
                funds,
                tol,
                recv,
            } => {
                let p = self.b.pairs.get(pair)?;
                let listed = [
                    (self.b.asset(&a[0].0)?, a[0].1 .0),
                    (self.b.asset(&a[1].0)?, a[1].1 .0),
                ];
                let coins = match funds {
                    Some(f) => self.coins(f)?,
                    None => default_funds(&listed)
                        .into_iter()
                        .map(|(denom, a)| Coin {
                            denom,
                            amount: Uint128::new(a),
                        })
                        .collect(),
                };
                let assets: Vec<Value> = listed
                    .iter()
                    .map(|(i, a)| json!({"info":i.json(),"amount":a.to_string()}))
                    .collect();
                exec(
                    p.addr.clone(),
                    json!({"provide_liquidity":{"assets":assets,"slippage_tolerance":tol,
                        "receiver":self.oacct(recv)?}}),
                    coins,
                )
            }
            Op::RouteDirect {
                hops,
                min,
                to,
                funds,
            } => exec(
                self.b.router.clone(),
                json!({"execute_swap_operations":{
                    "operations":hops_json(self.b, hops)?,
                    "minimum_receive":min.map(|m| m.0.to_string()),
                    "to":self.oacct(to)?}}),
                self.coins(funds)?,
            ),
            Op::RouterStep { hop, to } => exec(
                self.b.router.clone(),
                json!({"execute_swap_operation":{"operation":{"halo_swap":{
                    "offer_asset_info":self.b.asset(&hop.0)?.json(),
                    "ask_asset_info":self.b.asset(&hop.1)?.json()}},
                    "to":self.oacct(to)?}}),
                vec![],
            ),
            Op::RouterAssert {
                asset,
                prev,
                min,
                recv,
            } => exec(
                self.b.router.clone(),
                json!({"assert_minimum_receive":{"asset_info":self.b.asset(asset)?.json(),
                    "prev_balance":s(prev),"minimum_receive":s(min),
                    "receiver":self.acct(recv)?}}),
                vec![],
            ),
            Op::Forge {
                target,
                claimed,
                amt,
                hook,
                funds,
            } => exec(
                self.acct(target)?,
                json!({"receive":{"sender":self.acct(claimed)?,"amount":s(amt),
                    "msg":self.hookb(hook)?}}),
                self.coins(funds)?,
            ),
            Op::CreatePair { a, white, mins, .. } => exec(
                self.b.factory.clone(),
                json!({"create_pair":{"asset_infos":[self.b.asset(&a[0])?.json(),
                    self.b.asset(&a[1])?.json()],"requirements":self.reqs(white, mins)?}}),
                vec![],
            ),
            Op::AddNative { denom, dec } => exec(
                self.b.factory.clone(),
                json!({"add_native_token_decimals":{
                    "denom":self.b.denoms.get(*denom as usize)?,"decimals":dec}}),
                vec![],
            ),
            Op::UpdateConfig { owner, tok, pair } => exec(
                self.b.factory.clone(),
                json!({"update_config":{"owner":self.oacct(owner)?,"token_code_id":tok,
                    "pair_code_id":pair}}),
                vec![],
            ),
            Op::MigratePair { target, code } => exec(
                self.b.factory.clone(),
                json!({"migrate_pair":{"contract":self.acct(target)?,"code_id":code}}),
                vec![],
            ),
            Op::AdminMigrate { target, code } => CosmosMsg::Wasm(WasmMsg::Migrate {
                contract_addr: self.acct(target)?,
                new_code_id: *code,
                msg: Binary::from(b"{}".to_vec()),
            }),
            Op::TokInst {
                slot,
                dec,
                init,
                minter,
                cap,
                name,
                sym,
            } => {
                let name = name.clone().unwrap_or_else(|| crate::model::token_name(*slot));
                let sym = sym.clone().unwrap_or_else(|| crate::model::SYMBOL.into());
                let rows: Option<Vec<Value>> = init
                    .iter()
                    .map(|(w, a)| Some(json!({"address":self.acct(w)?,"amount":s(a)})))
                    .collect();
                let mint = match minter {
                    None => Value::Null,
                    Some(m) => json!({"minter":self.acct(m)?,"cap":cap.map(|c| c.0.to_string())}),
                };
                CosmosMsg::Wasm(WasmMsg::Instantiate {
                    admin: None,
                    code_id: codes::TOKEN,
                    msg: Binary::from(
                        serde_json::to_vec(&json!({"name":name,
                            "symbol":sym,"decimals":dec,"initial_balances":rows?,"mint":mint}))
                        .unwrap(),
                    ),
                    funds: vec![],
                    label: "token".into(),
                })
            }
            Op::PairInst {
                a,
                dec,
                white,
                mins,
                ..
            } => CosmosMsg::Wasm(WasmMsg::Instantiate {
                admin: None,
                code_id: codes::PAIR,
                msg: Binary::from(
                    serde_json::to_vec(&json!({"asset_infos":[self.b.asset(&a[0])?.json(),
                        self.b.asset(&a[1])?.json()],"token_code_id":codes::TOKEN,
                        "asset_decimals":dec,"requirements":self.reqs(white, mins)?}))
                    .unwrap(),
                ),
                funds: vec![],
                label: "pair".into(),
            }),
            Op::EvilSet { e, dec, mode } => exec(
                self.b.evils.get(*e as usize)?.clone(),
                serde_json::to_value(EvilExec::Set {
                    cfg: EvilCfg {
                        decimals: *dec,
                        mode: self.evil_mode(mode)?,
                    },
                })
                .ok()?,
                vec![],
            ),
            Op::EvilMint { e, to, amt } => exec(
                self.b.evils.get(*e as usize)?.clone(),
                json!({"mint":{"recipient":self.acct(to)?,"amount":s(amt)}}),
                vec![],
            ),
            Op::Relay { e, inner } => exec(
                self.b.evils.get(*e as usize)?.clone(),
                serde_json::to_value(EvilExec::Relay {
                    msgs: vec![self.msg(inner)?],
                })
                .ok()?,
                vec![],
            ),
        })
    }
}

#[allow(dead_code)]
pub fn b64(v: &Value) -> Binary {
    to_binary(v).unwrap()
}
