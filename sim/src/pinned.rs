//! Scenarios too rare for the generator, executed on every check of their property: the known
//! findings, and nothing that decides a property on its own.
use crate::ops::*;

pub struct Pinned {
    pub name: &'static str,
    pub property: &'static str,
    pub sched: Schedule,
}

fn genesis(denoms: &[&str], toks: usize) -> Genesis {
    Genesis {
        salt: 4242,
        users: 2,
        height: 100,
        time_ns: 1_650_000_000_000_000_000,
        toks: (0..toks)
            .map(|_| GenTok {
                dec: 6,
                each: Amt(1_000_000_000_000),
                minter: None,
                cap: None,
            })
            .collect(),
        denoms: denoms
            .iter()
            .map(|d| GenDenom {
                denom: d.to_string(),
                each: Amt(1_000_000_000_000),
                dec: Some(6),
            })
            .collect(),
        evils: vec![],
    }
}

fn tx(by: u8, ops: Vec<Op>) -> Step {
    Step::Tx { by, ops, fault: None }
}
fn create(slot: u8, a: Asset, b: Asset) -> Op {
    Op::CreatePair {
        slot,
        a: [a, b],
        white: vec![Acct::U(0)],
        mins: [Amt(0), Amt(0)],
    }
}

pub fn all() -> Vec<Pinned> {
    vec![
        Pinned {
            name: "denoms that read the same when written one after the other",
            property: "C14",
            sched: Schedule {
                genesis: genesis(&["atom", "ubtcusd", "atomubtc", "usd"], 0),
                steps: vec![
                    tx(0, vec![create(0, Asset::N(0), Asset::N(1))]),
                    Step::Block { dt: 5, dh: 1 },
                    tx(1, vec![create(1, Asset::N(2), Asset::N(3))]),
                ],
            },
        },
        Pinned {
            name: "a route whose second hop offers a native coin",
            property: "C21",
            sched: Schedule {
                genesis: genesis(&["uaura"], 2),
                steps: vec![
                    tx(0, vec![create(0, Asset::T(0), Asset::N(0))]),
                    tx(0, vec![create(1, Asset::N(0), Asset::T(1))]),
                    tx(
                        0,
                        vec![
                            Op::Cw {
                                tok: Asset::T(0),
                                msg: Cw::Inc {
                                    sp: Acct::P(0),
                                    amt: Amt(1_000_000),
                                    exp: None,
                                },
                            },
                            Op::Provide {
                                pair: 0,
                                a: [(Asset::T(0), Amt(1_000_000)), (Asset::N(0), Amt(1_000_000))],
                                funds: None,
                                tol: None,
                                recv: None,
                            },
                            Op::Cw {
                                tok: Asset::T(1),
                                msg: Cw::Inc {
                                    sp: Acct::P(1),
                                    amt: Amt(1_000_000),
                                    exp: None,
                                },
                            },
                            Op::Provide {
                                pair: 1,
                                a: [(Asset::N(0), Amt(1_000_000)), (Asset::T(1), Amt(1_000_000))],
                                funds: None,
                                tol: None,
                                recv: None,
                            },
                        ],
                    ),
                    Step::Block { dt: 5, dh: 1 },
                    tx(
                        1,
                        vec![Op::Cw {
                            tok: Asset::T(0),
                            msg: Cw::Send {
                                to: Acct::Router,
                                amt: Amt(1000),
                                hook: Hook::Route {
                                    hops: vec![(Asset::T(0), Asset::N(0)), (Asset::N(0), Asset::T(1))],
                                    min: None,
                                    to: None,
                                },
                            },
                        }],
                    ),
                ],
            },
        },
    ]
}
