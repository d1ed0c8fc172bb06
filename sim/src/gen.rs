//! The workload and fault generator. It watches the simulated chain the way clients do, writes the
//! next step of the schedule, and executes it; the schedule alone then replays the run.
use crate::chain::Fault;
use crate::codes;
use crate::num;
use crate::obs::AInfo;
use crate::ops::{
    Acct, Amt, Asset, Cw, EMode, Exp, GenDenom, GenTok, Genesis, Hook, Op, Schedule, Step,
};
use crate::rng::{mix, Rng};
use crate::sim::Sim;

const SWAP: usize = 0;
const PROVIDE: usize = 1;
const WITHDRAW: usize = 2;
const ROUTE: usize = 3;
const TOKEN: usize = 4;
const DONATE: usize = 5;
const CREATE: usize = 6;
const FORGE: usize = 7;
const CONFIG: usize = 8;
const MIGRATE: usize = 9;
const NATIVE: usize = 10;
const EVIL: usize = 11;
const QUOTE: usize = 12;
const RQUOTE: usize = 13;
const PAGE: usize = 14;
const TOKINST: usize = 15;
const PAIRINST: usize = 16;
const COMBO: usize = 17;
const EXITALL: usize = 18;
const SOLO: usize = 19;
const KINDS: usize = 20;

pub struct Cfg {
    pub steps: u64,
    w: [u64; KINDS],
    fault_pm: u64,
    delegate_pm: u64,
    wallet_pm: u64,
    fault_w: [u64; 4],
    delay_pm: u64,
    dup_pm: u64,
    drop_pm: u64,
    front_pm: u64,
    block_pm: u64,
    jump_pm: u64,
    heal: bool,
    guard_pm: u64,
    tol_pm: u64,
    odd_pm: u64,
    start_pairs: u64,
    many_pairs: bool,
    style: u64,
}

pub struct Pending {
    due: u64,
    by: u8,
    ops: Vec<Op>,
}

pub struct Gen {
    pub r: Rng,
    pub cfg: Cfg,
    pub sched: Schedule,
    mem: Vec<Pending>,
    next_slot: u8,
    next_tok: u8,
    wants: Vec<(u8, [Asset; 2])>,
    last_amt: u128,
    round: bool,
    timeless: bool,
    launches: bool,
    churn: bool,
    /// other people's accounts are named as receivers more often
    others: u64,
}

/// as long as a coin's name may get, and alike but for the end
pub const LONG: (&str, &str) = (
    "factory/halo1f3fd0f4b75318f59778795f933e5420e4c9730f6/liquid.staking.derivative.of.the.chain.number.seven.with.auto.restaking.v1",
    "factory/halo1f3fd0f4b75318f59778795f933e5420e4c9730f6/liquid.staking.derivative.of.the.chain.number.seven.with.auto.restaking.v2",
);

pub const DENOMS: &[&str] = &[
    "uaura",
    "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2",
    "factory/halo1abc/stone",
    "uhalo",
    "ueth",
    "uusdx",
    "wbtc8",
    "inj",
    "xyzcoin",
    "peggy0xdAC17F958D2ee523a2206206994597C13D831ec7",
    "ukuji",
    "qwerty",
    // two pairs of these read the same when written one after the other
    "uAURA",
    "uatom",
    "uato",
    "muaura",
];

fn weights(focus: &str) -> [u64; KINDS] {
    let w = base_weights(focus);
    let mut v = [0; KINDS];
    v[..19].copy_from_slice(&w);
    v[SOLO] = match focus {
        "C27" => 60,
        "C01" | "C02" => 1,
        _ => 0,
    };
    v
}

fn base_weights(focus: &str) -> [u64; 19] {
    //           sw  pr  wd  rt  tok don cre for cfg mig nat evil q  rq pg ti pi cmb exit
    match focus {
        "C01" => [60, 10, 6, 18, 3, 10, 3, 1, 0, 1, 1, 1, 0, 0, 0, 0, 1, 4, 1],
        "C02" => [30, 28, 22, 8, 6, 10, 3, 1, 0, 1, 1, 1, 0, 0, 0, 0, 1, 4, 2],
        "C03" => [60, 10, 5, 10, 2, 5, 4, 1, 0, 2, 1, 1, 25, 0, 0, 0, 2, 3, 1],
        "C04" => [80, 10, 5, 5, 2, 4, 6, 0, 0, 2, 3, 0, 0, 0, 0, 2, 2, 3, 1],
        "C05" => [20, 60, 15, 3, 4, 12, 4, 1, 0, 1, 1, 1, 0, 0, 0, 0, 3, 3, 4],
        "C06" => [30, 60, 8, 4, 2, 8, 3, 0, 0, 1, 1, 0, 0, 0, 0, 0, 1, 3, 1],
        "C07" => [15, 40, 15, 2, 8, 14, 12, 0, 1, 3, 2, 0, 0, 0, 0, 0, 6, 4, 14],
        "C08" => [25, 25, 40, 3, 10, 8, 3, 1, 0, 1, 1, 0, 0, 0, 0, 0, 1, 4, 5],
        "C09" => [10, 22, 20, 3, 40, 6, 5, 12, 1, 4, 1, 4, 0, 0, 0, 1, 2, 5, 2],
        "C10" => [28, 20, 14, 22, 8, 3, 12, 2, 1, 4, 3, 5, 0, 0, 0, 2, 2, 5, 1],
        "C11" => [25, 8, 4, 70, 3, 5, 6, 1, 0, 1, 1, 0, 0, 3, 0, 0, 0, 3, 0],
        "C12" => [12, 8, 4, 70, 3, 8, 8, 1, 0, 1, 1, 0, 0, 25, 0, 0, 0, 3, 0],
        "C13" => [25, 18, 10, 18, 15, 6, 8, 8, 1, 3, 2, 30, 0, 0, 0, 1, 2, 8, 2],
        "C14" => [6, 5, 2, 3, 3, 1, 70, 1, 4, 8, 12, 4, 0, 0, 4, 6, 2, 3, 0],
        "C15" => [1, 1, 0, 0, 0, 0, 60, 0, 1, 1, 8, 1, 0, 0, 70, 4, 0, 0, 0],
        "C16" => [3, 3, 1, 1, 1, 4, 20, 2, 60, 20, 20, 2, 0, 0, 0, 2, 0, 14, 0],
        "C17" => [3, 3, 1, 1, 1, 10, 50, 1, 8, 6, 50, 5, 0, 0, 0, 8, 2, 5, 0],
        "C18" => [12, 12, 6, 10, 4, 4, 5, 90, 0, 2, 1, 25, 0, 0, 0, 5, 2, 8, 0],
        "C19" => [25, 18, 10, 22, 10, 5, 12, 4, 3, 5, 4, 4, 0, 0, 0, 2, 2, 8, 2],
        "C20" => [40, 25, 18, 25, 3, 4, 12, 0, 0, 2, 1, 1, 0, 0, 0, 0, 2, 6, 2],
        "C21" => [30, 25, 18, 18, 4, 8, 10, 1, 1, 2, 2, 3, 4, 0, 0, 1, 1, 4, 6],
        "C22" => [20, 16, 10, 10, 6, 3, 12, 1, 8, 50, 5, 2, 0, 0, 0, 1, 1, 5, 2],
        "C23" => [8, 16, 6, 3, 100, 2, 3, 1, 0, 1, 1, 2, 0, 0, 0, 10, 1, 8, 0],
        "C34" => [5, 8, 3, 2, 60, 1, 12, 1, 2, 8, 2, 1, 0, 0, 0, 60, 6, 3, 0],
        "C24" => [30, 15, 6, 8, 2, 6, 6, 0, 0, 1, 1, 0, 60, 40, 0, 0, 3, 2, 1],
        "C26" => [30, 25, 18, 12, 14, 10, 8, 2, 1, 3, 2, 1, 10, 0, 0, 1, 2, 6, 4],
        "C27" => [15, 15, 6, 6, 2, 8, 5, 0, 0, 1, 1, 0, 0, 0, 0, 0, 2, 1, 2],
        "C28" => [40, 35, 20, 14, 6, 6, 12, 1, 1, 2, 3, 0, 14, 10, 0, 1, 5, 5, 3],
        "C29" => [35, 30, 18, 16, 16, 5, 8, 2, 2, 3, 3, 3, 6, 4, 0, 1, 2, 6, 3],
        "C30" => [35, 28, 16, 20, 10, 5, 14, 2, 3, 4, 6, 0, 8, 8, 0, 2, 3, 5, 2],
        "C31" => [10, 60, 8, 3, 50, 4, 3, 6, 0, 1, 1, 8, 0, 0, 0, 1, 2, 10, 1],
        _ => [30, 20, 12, 15, 12, 6, 8, 5, 3, 4, 4, 6, 4, 3, 3, 2, 2, 6, 2],
    }
}

pub const HOUR: u64 = 3_600_000_000_000;
const WIDE: [u8; 12] = [19, 20, 21, 22, 24, 27, 30, 36, 38, 39, 77, 255];

fn pick_each(r: &mut Rng, style: u64) -> u128 {
    match style {
        0 => r.range128(1_000, 5_000_000),
        1 => 10u128.pow(r.range(9, 16) as u32) + r.below128(1_000_000),
        2 => 10u128.pow(r.range(20, 28) as u32) + r.below128(1_000_000_000_000),
        3 => (1u128 << r.range(90, 120)) + r.below128(1 << 60),
        _ => r.logu(1u128 << 110) + 1000,
    }
}

impl Gen {
    pub fn new(seed: u64, run: u64, focus: &str) -> Gen {
        let mut r = Rng::new(mix(seed, mix(run, crate::rng::fnv(7, focus.as_bytes()))));
        let style = r.weighted(&[25, 35, 25, 10, 15]) as u64;
        let many = matches!(focus, "C15") || (focus == "C14" && r.chance(300)) || r.chance(20);
        // now and then very large amounts go to and fro through one pool
        let churn = !many && focus != "C33" && r.chance(20);
        let users = r.range(3, 6) as u8;
        let nt = if churn { 2 } else { r.range(2, 4) };
        let nd = if many { r.range(6, 10) } else { r.range(1, 4) };
        let ne = match focus {
            "C13" | "C18" | "C10" | "C09" => r.range(1, 2),
            "C28" | "C30" => 0,
            _ => r.chance(350) as u64,
        };
        let same_dec = r.chance(250) || churn;
        let d0 = r.below(19) as u8;
        let dec = |r: &mut Rng| -> u8 {
            if same_dec {
                d0
            } else {
                *r.pick(&[0, 1, 2, 5, 6, 6, 6, 8, 9, 12, 17, 18, 18])
            }
        };
        // a coin's decimals are whatever the owner registers
        let wide = |r: &mut Rng| -> u8 {
            if r.chance(100) {
                *r.pick(&WIDE)
            } else {
                dec(r)
            }
        };
        let toks = (0..nt)
            .map(|_| {
                let st = if r.chance(150) { r.below(5) } else { style };
                let each = if churn { (1u128 << 123) + r.below128(1 << 123) } else { pick_each(&mut r, st) };
                let minter = if r.chance(600) { Some(r.below(users as u64) as u8) } else { None };
                let total = each * users as u128;
                let cap = if minter.is_some() && r.chance(500) {
                    Some(Amt(total + r.below128(each)))
                } else {
                    None
                };
                GenTok {
                    dec: dec(&mut r),
                    each: Amt(each),
                    minter,
                    cap,
                }
            })
            .collect();
        let mut names: Vec<&str> = DENOMS.to_vec();
        r.shuffle(&mut names);
        if focus == "C30" {
            // the known finding of C14 depends on the spelling
            names.retain(|n| *n != "uato" && *n != "muaura");
            if nd >= 2 && r.chance(150) {
                names.insert(0, LONG.0);
                names.insert(r.below(2) as usize, LONG.1);
            }
        } else if focus != "C33" && nd >= 2 && r.chance(300) {
            // (C33 compares what operations cost, in bytes: every name is of much the same length there)
            // names that begin or end alike, or differ in letter case
            let (a, b) = *r.pick(&[("uatom", "uato"), ("uAURA", "uaura"), ("uaura", "muaura"), LONG, LONG]);
            names.retain(|n| *n != a && *n != b);
            names.insert(0, a);
            names.insert(r.below(2) as usize, b);
        }
        let denoms = (0..nd as usize)
            .map(|i| GenDenom {
                denom: names[i].to_string(),
                each: {
                    let st = if r.chance(150) { r.below(5) } else { style };
                    Amt(pick_each(&mut r, st))
                },
                dec: if r.chance(if many { 950 } else { 750 }) { Some(wide(&mut r)) } else { None },
            })
            .collect();
        let genesis = Genesis {
            salt: if focus == "C33" { crate::crowd::uniform(r.next()) } else { r.next() },
            users,
            height: if r.chance(750) { r.range(1, 1_000_000) } else { r.range(1, 1 << 36) },
            time_ns: if r.chance(750) {
                1_600_000_000_000_000_000 + r.below(100_000_000) * 1_000_000_000 + r.below(1_000_000_000)
            } else {
                1_000_000_000_000_000_000 + r.below(2_500_000_000) * 1_000_000_000 + r.below(1_000_000_000)
            },
            toks,
            denoms,
            evils: (0..ne).map(|_| wide(&mut r)).collect(),
        };
        let mut genesis = genesis;
        let round = r.chance(120);
        if round {
            // a chain that starts at a round height and hour
            genesis.height = (genesis.height / 1000 + 1) * 1000;
            genesis.time_ns = genesis.time_ns / HOUR * HOUR;
        }
        // swarm: some kinds of operation are switched off in some runs
        let mut w = weights(focus);
        for x in w.iter_mut() {
            if r.chance(150) && *x < 40 {
                *x = 0;
            } else if r.chance(150) {
                *x *= 3;
            }
        }
        let quiet = r.chance(match focus {
            "C10" | "C19" => 0,
            // the twin of such a run may pass its messages in another order
            "C28" | "C30" | "C32" | "C33" => 1000,
            _ => 350,
        });
        let fault_pm = if quiet {
            0
        } else {
            match focus {
                "C10" => r.range(250, 600),
                "C19" => r.range(100, 400),
                _ => r.range(10, 200),
            }
        };
        let mut fault_w = [3, 2, 4, 3];
        for x in fault_w.iter_mut() {
            if r.chance(250) {
                *x = 0;
            }
        }
        if fault_w == [0; 4] {
            fault_w = [1, 1, 1, 1];
        }
        if focus == "C19" {
            fault_w[1] = 8;
        }
        let long = !many && r.chance(10);
        let cfg = Cfg {
            steps: match focus {
                "C15" => r.range(60, 140),
                // now and then a long history of few pairs
                _ if long => r.range(400, 1500),
                _ => *r.pick(&[12, 25, 40, 60, 90, 140]),
            },
            w,
            fault_pm,
            delegate_pm: match focus {
                "C08" | "C20" | "C23" | "C31" => *r.pick(&[0, 100, 250]),
                _ => *r.pick(&[0, 0, 50, 150]),
            },
            wallet_pm: *r.pick(&[0, 50, 150]),
            fault_w,
            delay_pm: *r.pick(&[0, 200, 500, 800]),
            dup_pm: *r.pick(&[0, 30, 150]),
            drop_pm: *r.pick(&[0, 20, 100]),
            front_pm: *r.pick(&[0, 150, 500]),
            block_pm: *r.pick(&[50, 150, 300]),
            jump_pm: *r.pick(&[0, 100, 400]),
            heal: r.chance(if focus == "C21" || focus == "C08" { 900 } else { 300 }),
            guard_pm: if focus == "C04" { 900 } else { *r.pick(&[0, 200, 600]) },
            tol_pm: if focus == "C06" { 850 } else { *r.pick(&[0, 200, 500]) },
            odd_pm: *r.pick(&[0, 50, 150, 300]),
            start_pairs: if matches!(focus, "C11" | "C12") {
                r.range(3, 6)
            } else if many {
                r.range(2, 26)
            } else if long {
                1
            } else {
                r.range(1, 4)
            },
            many_pairs: many,
            style,
        };
        let mut cfg = cfg;
        if churn {
            cfg.steps = 140;
            cfg.start_pairs = 1;
            cfg.w[0] = 400;
        }
        Gen {
            r,
            cfg,
            sched: Schedule {
                genesis,
                steps: vec![],
            },
            mem: vec![],
            next_slot: 0,
            next_tok: 0,
            wants: vec![],
            last_amt: 0,
            round,
            timeless: focus == "C29",
            launches: focus == "C34",
            churn,
            others: match focus {
                "C31" => 600,
                "C05" | "C13" | "C23" => 350,
                _ => 0,
            },
        }
    }

    fn emit(&mut self, s: &mut Sim, st: Step) {
        if s.stopped() {
            return;
        }
        let st = if self.timeless { crate::twin::timeless(st) } else { st };
        s.exec(&st);
        self.sched.steps.push(st);
    }
    fn tx(&mut self, s: &mut Sim, by: u8, ops: Vec<Op>) {
        self.emit(
            s,
            Step::Tx {
                by,
                ops,
                fault: None,
            },
        );
    }

    /// Execute a transaction, possibly with a fault placed inside it.
    fn submit(&mut self, s: &mut Sim, by: u8, ops: Vec<Op>) {
        if s.stopped() {
            return;
        }
        let (mut by, mut ops) = (by, ops);
        for op in ops.iter_mut() {
            // an approval without limit
            if let Op::Cw { tok, msg: Cw::Inc { sp, amt, .. } } = op {
                if self.r.chance(40) {
                    *amt = Amt(self.room(s, tok, by, sp));
                }
            }
        }
        let mut settled = false;
        if let [Op::Cw { tok, msg }] = &ops[..] {
            // the allowance that a delegated call needs is given first
            let need = match msg {
                Cw::TransferFrom { owner: Acct::U(o), amt, .. }
                | Cw::BurnFrom { owner: Acct::U(o), amt }
                | Cw::SendFrom { owner: Acct::U(o), amt, .. } => Some((*o, amt.0)),
                _ => None,
            };
            if let Some((o, amt)) = need {
                if o != by && !self.granted(s, tok, o, by, amt) && self.r.chance(400) {
                    let tok = *tok;
                    let exp = match self.r.below(5) {
                        0 => Some(Exp::HeightIn(self.r.range(0, 4) as i64)),
                        1 => Some(Exp::TimeIn(self.r.range(0, 60) as i64)),
                        _ => None,
                    };
                    let amt = match self.r.weighted(&[47, 47, 6]) {
                        0 => amt,
                        1 => amt.saturating_add(self.r.logu(amt.max(1))),
                        _ => self.room(s, &tok, o, &Acct::U(by)),
                    };
                    self.tx(s, o, vec![Op::Cw { tok, msg: Cw::Inc { sp: Acct::U(by), amt: Amt(amt), exp } }]);
                    s.stat("allowances given for a delegated call");
                    settled = true;
                }
            }
        }
        let owner = s.b.evils.iter().position(|e| *e == s.o.fac.owner).map(|e| e as u8);
        if let (Some(e), true) = (
            owner,
            ops.iter().all(|o| matches!(o, Op::UpdateConfig { .. } | Op::AddNative { .. } | Op::MigratePair { .. } | Op::Send { .. })),
        ) {
            if self.r.chance(750) {
                ops = ops
                    .into_iter()
                    .map(|o| match o {
                        Op::Send { .. } => o,
                        _ => Op::Relay { e, inner: Box::new(o) },
                    })
                    .collect();
                s.stat("calls by a contract that owns the factory");
                settled = true;
            }
        }
        let wallet = match ops.last() {
            // a contract that may open the pool
            Some(Op::Provide { pair, .. }) if self.cfg.wallet_pm > 0 => {
                let p = s.b.pairs.get(pair).and_then(|p| s.o.pairs.get(&p.addr));
                p.map(|p| p.white.iter().any(|w| s.b.is_evil(w))).unwrap_or(false)
            }
            _ => false,
        };
        let pm = if wallet { 400 } else { self.cfg.wallet_pm };
        if !settled && !s.stopped() && !s.b.evils.is_empty() && self.r.chance(pm) {
            if let Some(v) = self.through_contract(s, by, &ops) {
                ops = v;
                settled = true;
                s.stat("transactions made by a contract with means of its own");
            }
        }
        if settled && s.stopped() {
            return;
        }
        if let [Op::Cw { tok, msg: Cw::Send { to, amt, hook } }] = &ops[..] {
            // somebody else does it, with an allowance for it
            if !settled && *hook != Hook::Garbage && self.r.chance(self.cfg.delegate_pm) {
                let (tok, to, amt, hook) = (*tok, *to, *amt, hook.clone());
                if let Acct::U(sp) = self.other_user(s) {
                    if sp != by {
                        let more = match self.r.below(4) {
                            0 => amt.0,
                            1 => amt.0.saturating_add(1),
                            2 => amt.0.saturating_mul(3),
                            _ => amt.0.saturating_add(self.r.logu(amt.0.max(1))),
                        };
                        let exp = match self.r.below(4) {
                            0 => Some(Exp::HeightIn(self.r.range(0, 4) as i64)),
                            1 => Some(Exp::TimeIn(self.r.range(0, 60) as i64)),
                            _ => None,
                        };
                        self.tx(s, by, vec![Op::Cw { tok, msg: Cw::Inc { sp: Acct::U(sp), amt: Amt(more), exp } }]);
                        s.stat("sends delegated to another account");
                        ops = vec![Op::Cw { tok, msg: Cw::SendFrom { owner: Acct::U(by), to, amt, hook } }];
                        by = sp;
                    }
                }
            }
        }
        if s.stopped() {
            return;
        }
        let mut fault = None;
        if self.cfg.fault_pm > 0 && self.r.chance(self.cfg.fault_pm) {
            if let Some((ok, calls, msgs, queries)) = s.dry(by, &ops) {
                if ok || self.r.chance(200) {
                    let k = self.r.weighted(&self.cfg.fault_w.clone());
                    fault = match k {
                        0 if calls > 0 => Some(Fault::Oog(self.r.range(1, calls))),
                        1 if calls > 0 => Some(Fault::Crash(self.r.range(1, calls))),
                        2 if msgs > 0 => Some(Fault::FailMsg(self.r.range(1, msgs))),
                        3 if queries > 0 => Some(Fault::FailQuery(self.r.range(1, queries))),
                        _ => None,
                    };
                }
            }
        }
        let retry = fault.is_some() && self.r.chance(500);
        self.emit(
            s,
            Step::Tx {
                by,
                ops: ops.clone(),
                fault,
            },
        );
        if retry && !s.last.ok && !s.last.skipped {
            s.stat("retries after a fault");
            // a creation keeps its slot: the first attempt left nothing behind
            self.tx(s, by, ops);
        }
    }

    /// What an allowance lacks of the largest there can be.
    fn room(&self, s: &Sim, tok: &Asset, o: u8, sp: &Acct) -> u128 {
        let f = || {
            let t = s.o.toks.get(s.b.asset(tok)?.name())?;
            let k = (s.b.users.get(o as usize)?.clone(), s.b.acct(sp)?);
            t.allow.get(&k).map(|x| x.0)
        };
        u128::MAX - f().unwrap_or(0)
    }

    fn granted(&self, s: &Sim, tok: &Asset, o: u8, sp: u8, amt: u128) -> bool {
        let f = || {
            let i = s.b.asset(tok)?;
            let t = s.o.toks.get(i.name())?;
            let k = (s.b.users.get(o as usize)?.clone(), s.b.users.get(sp as usize)?.clone());
            t.allow.get(&k).map(|x| x.0 >= amt)
        };
        f().unwrap_or(false)
    }

    /// The same operations, but the account that makes them is a contract: it is given what they need.
    fn through_contract(&mut self, s: &mut Sim, by: u8, ops: &[Op]) -> Option<Vec<Op>> {
        let e = self.r.below(s.b.evils.len() as u64) as u8;
        let mut needs: Vec<(Asset, u128)> = vec![];
        for op in ops {
            match op {
                Op::Cw { tok, msg: Cw::Send { amt, .. } | Cw::Transfer { amt, .. } | Cw::Burn { amt } } => needs.push((*tok, amt.0)),
                Op::Cw { .. } | Op::UpdateConfig { .. } | Op::AddNative { .. } | Op::MigratePair { .. } => {}
                Op::Provide { a, funds: None, .. } => needs.extend(a.iter().map(|(x, v)| (*x, v.0))),
                Op::Send { denom, amt, .. } => needs.push((Asset::N(*denom), amt.0)),
                _ => return None,
            }
        }
        if needs.iter().any(|(x, _)| matches!(x, Asset::E(_))) {
            return None;
        }
        let to = Acct::E(e);
        let more = self.r.chance(300);
        let mut first = vec![];
        for (x, v) in needs {
            if v == 0 || !self.r.chance(900) {
                continue;
            }
            let v = if more { v.saturating_mul(2).min(self.bal(s, &x, by).max(v)) } else { v };
            first.push(match x {
                Asset::N(d) => Op::Send { denom: d, to, amt: Amt(v) },
                _ => Op::Cw { tok: x, msg: Cw::Transfer { to, amt: Amt(v) } },
            });
        }
        let second: Vec<Op> = ops.iter().map(|o| Op::Relay { e, inner: Box::new(o.clone()) }).collect();
        if first.is_empty() || self.r.chance(300) {
            first.extend(second);
            return Some(first);
        }
        self.tx(s, by, first);
        Some(second)
    }

    // ---------------------------------------------------------------- looking around

    fn slots(&self, s: &Sim) -> Vec<u8> {
        s.b.pairs.keys().copied().collect()
    }
    /// a pair to deal with, mostly one that holds liquidity
    fn slot(&mut self, s: &Sim, live_pm: u64) -> Option<u8> {
        let all = self.slots(s);
        if all.is_empty() {
            return None;
        }
        if self.r.chance(live_pm) {
            let v: Vec<u8> = all.iter().copied().filter(|k| self.state(s, *k).map(|x| x.2 > 0) == Some(true)).collect();
            if !v.is_empty() {
                return Some(*self.r.pick(&v));
            }
        }
        Some(*self.r.pick(&all))
    }
    fn sane_slots(&self, s: &Sim) -> Vec<u8> {
        s.b.pairs
            .iter()
            .filter(|(_, p)| !crate::model::is_tainted(&s.o, &s.b, &p.addr))
            .map(|(k, _)| *k)
            .collect()
    }
    /// (asset index offered, reserves, supply)
    fn state(&self, s: &Sim, slot: u8) -> Option<(u128, u128, u128)> {
        let p = s.b.pairs.get(&slot)?;
        let (x, y) = s.o.reserves(&p.addr)?;
        Some((x, y, s.o.lp_supply(&p.addr)?))
    }
    fn user(&mut self, s: &Sim) -> u8 {
        self.r.below(s.b.users.len() as u64) as u8
    }
    fn bal(&self, s: &Sim, a: &Asset, by: u8) -> u128 {
        match (s.b.asset(a), s.b.users.get(by as usize)) {
            (Some(AInfo::Tok(t)), Some(_)) if s.b.is_evil(&t) => 1_000_000_000_000,
            (Some(i), Some(u)) => s.o.bal(&i.canon(), u),
            _ => 0,
        }
    }
    fn amount(&mut self, base: u128) -> u128 {
        let b = base;
        let v = match self.r.weighted(&[8, 6, 20, 20, 20, 6, 3, 3, 3, 2, 3, 1]) {
            8 => {
                // a round number
                let mut p = 10u128.pow(self.r.below(30) as u32);
                while p > b.max(1) {
                    p /= 10;
                }
                p.saturating_mul(self.r.range(1, 12) as u128)
            }
            9 => {
                // around the sizes of narrower integers
                let p = 1u128 << *self.r.pick(&[8u32, 16, 31, 32, 53, 63, 64, 64, 96]);
                p.wrapping_add(self.r.below128(3)).wrapping_sub(1)
            }
            10 if self.last_amt > 0 => self.last_amt,
            11 => b.saturating_sub(1).max(1),
            0 => self.r.range128(1, 3),
            1 => self.r.range128(1, 1000),
            2 => self.r.logu(b.max(1)),
            3 => num::muldiv(b, self.r.range(1, 99) as u128, 1000).unwrap_or(1),
            4 => num::muldiv(b, self.r.range(1, 900) as u128, 1000).unwrap_or(1),
            5 => b,
            6 => b.saturating_add(1),
            _ => num::muldiv(b, 1, self.r.range(2, 7) as u128).unwrap_or(1),
        };
        self.last_amt = v;
        v
    }
    fn someone(&mut self, s: &Sim) -> Acct {
        let slots = self.slots(s);
        match self.r.weighted(&[70, 4, 2, 2, 3, 3, 3, 2]) {
            1 if !slots.is_empty() => Acct::P(*self.r.pick(&slots)),
            2 => Acct::Router,
            3 => Acct::Factory,
            4 if !s.b.evils.is_empty() => Acct::E(self.r.below(s.b.evils.len() as u64) as u8),
            5 => Acct::UpU(self.user(s)),
            6 => Acct::Bad,
            7 if !slots.is_empty() => Acct::L(*self.r.pick(&slots)),
            _ => Acct::U(self.user(s)),
        }
    }
    fn other_user(&mut self, s: &Sim) -> Acct {
        Acct::U(self.user(s))
    }
    fn to(&mut self, s: &Sim) -> Option<Acct> {
        match self.r.weighted(&[60, 30, 10]) {
            0 => None,
            1 => Some(self.other_user(s)),
            _ => Some(self.someone(s)),
        }
    }
    fn any_asset(&mut self, s: &Sim) -> Asset {
        let nt: Vec<u8> = s.b.toks.keys().copied().collect();
        let nd = s.b.denoms.len() as u64;
        let slots = self.slots(s);
        match self.r.weighted(&[
            40,
            if self.cfg.many_pairs { 90 } else { 35 },
            if s.b.evils.is_empty() { 0 } else { 12 },
            if slots.is_empty() { 0 } else { 4 },
        ]) {
            0 if !nt.is_empty() => Asset::T(*self.r.pick(&nt)),
            2 => Asset::E(self.r.below(s.b.evils.len() as u64) as u8),
            3 => Asset::L(*self.r.pick(&slots)),
            _ => Asset::N(self.r.below(nd) as u8),
        }
    }
    fn odd_asset(&mut self, s: &Sim) -> Asset {
        let slots = self.slots(s);
        let nt: Vec<u8> = s.b.toks.keys().copied().collect();
        match self.r.below(4) {
            0 if !nt.is_empty() => Asset::UpT(*self.r.pick(&nt)),
            1 => Asset::FakeU(self.user(s)),
            2 if !slots.is_empty() => Asset::FakeP(*self.r.pick(&slots)),
            _ => self.any_asset(s),
        }
    }
    fn registered(&self, s: &Sim, a: Asset, b: Asset) -> bool {
        s.b.pairs.values().any(|p| {
            p.by_factory && ((p.a[0] == a && p.a[1] == b) || (p.a[0] == b && p.a[1] == a))
        })
    }

    // ---------------------------------------------------------------- intents

    fn intent(&mut self, s: &mut Sim, kind: usize) -> Option<(u8, Vec<Op>)> {
        match kind {
            SWAP => self.swap(s, None),
            PROVIDE => self.provide(s, None),
            WITHDRAW => self.withdraw(s),
            ROUTE => self.route(s),
            TOKEN => self.token_op(s),
            DONATE => self.donate(s),
            CREATE => self.create(s),
            FORGE => self.forge(s),
            CONFIG => self.config(s),
            MIGRATE => self.migrate(s),
            NATIVE => self.native(s),
            EVIL => self.evil(s),
            TOKINST => self.tok_inst(s),
            PAIRINST => self.pair_inst(s),
            COMBO => self.combo(s),
            _ => None,
        }
    }

    fn guards(&mut self, s: &Sim, slot: u8, i: usize, a: u128) -> (Option<String>, Option<String>) {
        if !self.r.chance(self.cfg.guard_pm) {
            if self.r.chance(100) {
                // a belief without a limit constrains nothing
                return (Some("1.5".into()), None);
            }
            return (None, None);
        }
        let p = match s.b.pairs.get(&slot).and_then(|p| s.o.pairs.get(&p.addr)) {
            Some(p) => p.clone(),
            None => return (None, Some("0.01".into())),
        };
        let (x, y, _) = self.state(s, slot).unwrap_or((0, 0, 0));
        let (x, y) = if i == 0 { (x, y) } else { (y, x) };
        let o = if x > 0 { num::swap_out(x, y, a) } else { None };
        let o = match o {
            Some(o) => o,
            None => return (None, Some("0.1".into())),
        };
        let (lo, net) = (o.spread_lo.unwrap_or(0), o.net);
        let jitter = |r: &mut Rng, v: u128| -> u128 {
            match r.below(8) {
                0 => v,
                1 => v.saturating_sub(1),
                2 => v.saturating_add(1),
                3 => v.saturating_add(r.below128(1_000_000_000)),
                4 => v.saturating_sub(r.below128(1_000_000_000)),
                5 => v.saturating_add(v / 100 + 1),
                6 => v.saturating_sub(v / 100 + 1),
                _ => v.saturating_add(r.below128(num::E18 / 10)),
            }
        };
        if self.r.chance(500) {
            // spread only
            let exact = num::ratio18(lo, net.saturating_add(lo).max(1))
                .and_then(num::to128)
                .unwrap_or(0);
            let m = match self.r.weighted(&[6, 2, 1, 1, 1]) {
                0 => jitter(&mut self.r, exact),
                1 => num::E18 / *self.r.pick(&[1000u128, 200, 100, 20, 2]),
                2 => 0,
                3 => num::E18,
                _ => num::E18 * 3,
            };
            (None, Some(num::dec18_str(m)))
        } else {
            let (od, ad) = (p.dec[i], p.dec[1 - i]);
            let f = 10u128.pow((od.abs_diff(ad) as u32).min(38));
            let (an, nn) = if od > ad {
                (Some(a), net.checked_mul(f))
            } else {
                (a.checked_mul(f), Some(net))
            };
            let (an, nn) = match (an, nn) {
                (Some(a), Some(n)) if a > 0 && n > 0 => (a, n),
                _ => return (None, Some("0.2".into())),
            };
            let s_lim = match self.r.below(4) {
                0 => 0,
                1 => num::E18 / 200,
                2 => num::E18 / 10,
                _ => self.r.below128(num::E18),
            };
            // expected amount that puts the shortfall right at the limit
            let e = num::muldiv(nn, num::E18, (num::E18 - s_lim).max(1)).unwrap_or(nn);
            let e = jitter(&mut self.r, e).max(1);
            let b = num::muldiv(an, num::E18, e).unwrap_or(num::E18).max(1);
            let b = if self.r.chance(100) { self.r.logu(num::E18 * 1000) } else { b };
            (Some(num::dec18_str(b)), Some(num::dec18_str(s_lim)))
        }
    }

    fn swap(&mut self, s: &Sim, slot: Option<u8>) -> Option<(u8, Vec<Op>)> {
        let slot = match slot {
            Some(x) => x,
            None => self.slot(s, 850)?,
        };
        let p = s.b.pairs.get(&slot)?.clone();
        let toks: Vec<usize> = (0..2).filter(|i| !matches!(p.a[*i], Asset::N(_))).collect();
        if toks.is_empty() {
            return None;
        }
        let mut i = *self.r.pick(&toks);
        let mut by = self.user(s);
        let churn = self.churn && self.r.chance(900);
        if churn {
            // whoever holds most
            for u in 0..s.b.users.len() as u8 {
                for j in &toks {
                    if self.bal(s, &p.a[*j], u) > self.bal(s, &p.a[i], by) {
                        (i, by) = (*j, u);
                    }
                }
            }
        }
        let bal = self.bal(s, &p.a[i], by);
        let (x, y, _) = self.state(s, slot)?;
        let x = if i == 0 { x } else { y };
        let base = match self.r.below(3) {
            0 => bal,
            1 => x.min(bal),
            _ => (x / 50).min(bal),
        };
        let a = self.amount(base.max(1));
        let a = if self.r.chance(950) { a.min(bal) } else { a };
        let a = if churn { bal } else { a };
        if a == 0 {
            return None;
        }
        let (belief, max) = self.guards(s, slot, i, a);
        let to = self.to(s);
        let mut tok = p.a[i];
        if self.r.chance(self.cfg.odd_pm / 6) {
            tok = self.any_asset(s);
        }
        let hook = Hook::Swap { belief, max, to };
        let msg = if self.r.chance(60) {
            Cw::SendFrom {
                owner: self.other_user(s),
                to: Acct::P(slot),
                amt: Amt(a),
                hook,
            }
        } else {
            Cw::Send {
                to: Acct::P(slot),
                amt: Amt(a),
                hook,
            }
        };
        Some((by, vec![Op::Cw { tok, msg }]))
    }

    fn provide(&mut self, s: &Sim, slot: Option<u8>) -> Option<(u8, Vec<Op>)> {
        let slot = match slot {
            Some(x) => x,
            None => self.slot(s, 500)?,
        };
        let pb = s.b.pairs.get(&slot)?.clone();
        let po = s.o.pairs.get(&pb.addr)?.clone();
        let (x, y, sup) = self.state(s, slot)?;
        let mut by = self.user(s);
        if sup == 0 && self.r.chance(750) {
            // most first depositors know the rules
            let w: Vec<u8> = (0..s.b.users.len() as u8)
                .filter(|u| po.white.contains(&s.b.users[*u as usize]))
                .collect();
            if !w.is_empty() {
                by = *self.r.pick(&w);
            }
        }
        let b = [self.bal(s, &pb.a[0], by), self.bal(s, &pb.a[1], by)];
        let mut d;
        if sup == 0 || x == 0 || y == 0 {
            let lop = self.r.chance(300);
            d = [0u128; 2];
            for i in 0..2 {
                d[i] = if lop { self.amount(b[i]) } else { num::muldiv(b[i], self.r.range(1, 40) as u128, 100).unwrap_or(1) };
                d[i] = match self.r.weighted(&[70, 10, 10, 10]) {
                    0 => d[i].max(po.mins[i]),
                    1 => po.mins[i],
                    2 => po.mins[i].saturating_sub(1),
                    _ => d[i],
                };
            }
        } else {
            d = [0; 2];
            let base0 = if self.r.chance(500) { b[0] } else { x.min(b[0]) };
            d[0] = self.amount(base0.max(1));
            let prop = num::muldiv(d[0], y, x).unwrap_or(1);
            d[1] = match self.r.weighted(&[40, 15, 15, 15, 10, 5]) {
                0 => prop,
                1 => prop.saturating_add(1),
                2 => num::muldiv(prop, self.r.range(900, 1100) as u128, 1000).unwrap_or(1),
                3 => num::muldiv_ceil(d[0], y, x).unwrap_or(1),
                4 => self.amount(b[1].max(1)),
                _ => num::muldiv(prop, self.r.range(1, 5000) as u128, 1000).unwrap_or(1),
            };
            if self.r.chance(850) && d[1] > b[1] {
                // scale down to what the user has
                d[1] = self.amount(b[1].max(1));
                d[0] = num::muldiv(d[1], x, y).unwrap_or(1).max(1);
            }
        }
        if self.r.chance(900) {
            for i in 0..2 {
                d[i] = d[i].min(b[i]).max(if self.r.chance(980) { 1 } else { 0 });
            }
        }
        let tol = if self.r.chance(self.cfg.tol_pm) {
            let mut t = num::E18 / *self.r.pick(&[1u128, 2, 10, 100, 1000]);
            if x > 0 && y > 0 && d[0] > 0 && d[1] > 0 && self.r.chance(700) {
                // right at the deviation: t = 1 - (r_i*d_j)/(r_j*d_i)
                let dev = |di: u128, dj: u128, ri: u128, rj: u128| -> Option<u128> {
                    let q = num::ratio18(di, dj).and_then(num::to128)?;
                    let p = num::ratio18(ri, rj).and_then(num::to128)?;
                    if q <= p || q == 0 {
                        return Some(0);
                    }
                    num::muldiv(q - p, num::E18, q)
                };
                let t0 = dev(d[0], d[1], x, y).unwrap_or(0);
                let t1 = dev(d[1], d[0], y, x).unwrap_or(0);
                let e = t0.max(t1);
                t = match self.r.below(7) {
                    0 => e,
                    1 => e + 1,
                    2 => e.saturating_sub(1),
                    3 => e.saturating_add(self.r.below128(1_000_000_000_000)),
                    4 => e.saturating_sub(self.r.below128(1_000_000_000_000)),
                    5 => e + e / 50 + 100_000,
                    _ => e.saturating_sub(e / 50 + 100_000),
                };
            }
            if self.r.chance(30) {
                t = num::E18 + self.r.range128(0, 2);
            }
            if self.r.chance(20) {
                t = 0;
            }
            Some(num::dec18_str(t))
        } else {
            None
        };
        let recv = if self.others > 0 && self.r.chance(self.others) {
            Some(self.other_user(s))
        } else if self.r.chance(250) {
            self.to(s)
        } else {
            None
        };
        let mut a = [(pb.a[0], Amt(d[0])), (pb.a[1], Amt(d[1]))];
        if self.r.chance(400) {
            a.swap(0, 1);
        }
        let mut funds = None;
        if self.r.chance(self.cfg.odd_pm / 3) {
            match self.r.below(4) {
                0 => a[1].0 = self.any_asset(s),
                1 => a[0].0 = a[1].0,
                2 => a[0].0 = self.odd_asset(s),
                _ => {
                    let mut f = vec![];
                    for (z, m) in &a {
                        if let Asset::N(n) = z {
                            let v = match self.r.below(4) {
                                0 => m.0.saturating_add(1),
                                1 => m.0.saturating_sub(1),
                                2 => 0,
                                _ => m.0,
                            };
                            if v > 0 {
                                f.push((*n, Amt(v)));
                            }
                        }
                    }
                    funds = Some(f);
                }
            }
        }
        if funds.is_none() && self.r.chance(40) {
            // coins of another kind come along
            let mut f: Vec<(u8, Amt)> = a
                .iter()
                .filter_map(|(z, m)| match z {
                    Asset::N(n) if m.0 > 0 => Some((*n, *m)),
                    _ => None,
                })
                .collect();
            let d = self.r.below(s.b.denoms.len() as u64) as u8;
            if !f.iter().any(|x| x.0 == d) {
                let v = self.bal(s, &Asset::N(d), by);
                if v > 0 {
                    f.push((d, Amt(self.amount(v).clamp(1, v))));
                    funds = Some(f);
                }
            }
        }
        if let (Asset::N(n0), Asset::N(n1)) = (a[0].0, a[1].0) {
            if n0 != n1 && self.r.chance(120) {
                // the right total in the wrong coins
                let t = a[0].1 .0.saturating_add(a[1].1 .0);
                let k = self.r.range128(0, t);
                let f: Vec<(u8, Amt)> = [(n0, Amt(k)), (n1, Amt(t - k))].into_iter().filter(|x| x.1 .0 > 0).collect();
                funds = Some(f);
            }
        }
        let natives: Vec<usize> = (0..2).filter(|i| matches!(a[*i].0, Asset::N(_)) && a[*i].1 .0 > 0).collect();
        if !natives.is_empty() && self.r.chance(60) {
            // the wrong coin, or too much or too little of the right one, beside others
            let k = *self.r.pick(&natives);
            let mut f: Vec<(u8, Amt)> = natives
                .iter()
                .filter_map(|i| match a[*i].0 {
                    Asset::N(n) => Some((n, a[*i].1)),
                    _ => None,
                })
                .collect();
            let (n, amt) = match a[k] {
                (Asset::N(n), m) => (n, m.0),
                _ => (0, 0),
            };
            let alike = |d: u8| {
                let (x, y) = (s.b.denoms[n as usize].to_lowercase(), s.b.denoms[d as usize].to_lowercase());
                d != n && (x.starts_with(&y) || y.starts_with(&x) || x.ends_with(&y) || y.ends_with(&x))
            };
            let nd = s.b.denoms.len() as u8;
            let other = match (0..nd).find(|d| alike(*d)) {
                Some(d) if self.r.chance(700) => d,
                _ => self.r.below(nd as u64) as u8,
            };
            let have = self.bal(s, &Asset::N(other), by);
            match self.r.below(3) {
                0 => {
                    // another coin in its place
                    f.retain(|x| x.0 != n);
                    if !f.iter().any(|x| x.0 == other) && other != n {
                        f.push((other, Amt(amt.min(have.max(1)))));
                    }
                }
                w => {
                    for x in f.iter_mut().filter(|x| x.0 == n) {
                        x.1 = Amt(if w == 1 { amt.saturating_add(self.r.logu(amt).max(1)) } else { amt.saturating_sub(self.r.logu(amt).max(1)) });
                    }
                    if !f.iter().any(|x| x.0 == other) && have > 0 {
                        f.push((other, Amt(self.amount(have).clamp(1, have))));
                    }
                }
            }
            f.retain(|x| x.1 .0 > 0);
            funds = Some(f);
        }
        let mut ops = vec![];
        if self.others > 0 && self.r.chance(self.others / 4) {
            // a standing approval, used later or by no one
            for z in pb.a.iter().filter(|z| !matches!(z, Asset::N(_))) {
                let v = self.bal(s, z, by);
                if v > 0 {
                    ops.push(Op::Cw {
                        tok: *z,
                        msg: Cw::Inc {
                            sp: Acct::P(slot),
                            amt: Amt(self.amount(v).max(1)),
                            exp: None,
                        },
                    });
                }
            }
            if self.r.chance(600) && !ops.is_empty() {
                return Some((by, ops));
            }
        }
        for i in 0..2 {
            if !matches!(pb.a[i], Asset::N(_)) && self.r.chance(if self.others > 0 { 750 } else { 930 }) {
                let exp = match self.r.below(6) {
                    0 => Some(Exp::HeightIn(self.r.range(1, 6) as i64)),
                    1 => Some(Exp::TimeIn(self.r.range(1, 60) as i64)),
                    2 => Some(Exp::Never),
                    _ => None,
                };
                let extra = if self.r.chance(300 + self.others) { self.r.logu(d[i].max(2)) } else { 0 };
                let am = if self.r.chance(30) { d[i].saturating_sub(1) } else { d[i].saturating_add(extra) };
                if am > 0 {
                    ops.push(Op::Cw {
                        tok: pb.a[i],
                        msg: Cw::Inc {
                            sp: Acct::P(slot),
                            amt: Amt(am),
                            exp,
                        },
                    });
                }
            }
        }
        ops.push(Op::Provide {
            pair: slot,
            a,
            funds,
            tol,
            recv,
        });
        Some((by, ops))
    }

    fn withdraw(&mut self, s: &Sim) -> Option<(u8, Vec<Op>)> {
        let slot = self.slot(s, 850)?;
        let by0 = self.user(s);
        let n = s.b.users.len() as u8;
        let by = (0..n)
            .map(|k| (by0 + k) % n)
            .find(|u| self.bal(s, &Asset::L(slot), *u) > 0)
            .unwrap_or(by0);
        let bal = self.bal(s, &Asset::L(slot), by);
        let amt = match self.r.weighted(&[40, 25, 30, 5]) {
            0 => self.amount(bal.max(1)).min(bal.max(1)),
            1 => bal,
            2 => num::muldiv(bal, self.r.range(1, 999) as u128, 1000).unwrap_or(1),
            _ => bal.saturating_add(1),
        };
        let msg = if self.r.chance(80) {
            Cw::SendFrom {
                owner: self.other_user(s),
                to: Acct::P(slot),
                amt: Amt(amt.max(1)),
                hook: Hook::Withdraw,
            }
        } else {
            Cw::Send {
                to: Acct::P(slot),
                amt: Amt(amt.max(1)),
                hook: Hook::Withdraw,
            }
        };
        Some((
            by,
            vec![Op::Cw {
                tok: Asset::L(slot),
                msg,
            }],
        ))
    }

    /// a walk over registered pairs
    fn hops(&mut self, s: &Sim, tokens_only: bool) -> Vec<(Asset, Asset)> {
        let edges: Vec<[Asset; 2]> = s
            .b
            .pairs
            .values()
            .filter(|p| p.by_factory)
            .filter(|p| {
                s.o.reserves(&p.addr)
                    .map(|(x, y)| x > 0 && y > 0)
                    .unwrap_or(false)
                    || self.cfg.odd_pm > 200
            })
            .map(|p| p.a)
            .collect();
        if edges.is_empty() {
            return vec![];
        }
        let n = 1 + self.r.weighted(&[20, 30, 23, 14, 8, 3, 1, 1]);
        let e = *self.r.pick(&edges);
        let mut cur = e[self.r.idx(2)];
        let mut v: Vec<(Asset, Asset)> = vec![];
        for _ in 0..n {
            if tokens_only && matches!(cur, Asset::N(_)) {
                break;
            }
            let nx: Vec<Asset> = edges
                .iter()
                .filter_map(|e| {
                    if e[0] == cur {
                        Some(e[1])
                    } else if e[1] == cur {
                        Some(e[0])
                    } else {
                        None
                    }
                })
                .collect();
            if nx.is_empty() {
                break;
            }
            // prefer not to end early in a native coin
            let t: Vec<Asset> = nx.iter().copied().filter(|a| !matches!(a, Asset::N(_))).collect();
            let go = if !t.is_empty() && self.r.chance(700) { *self.r.pick(&t) } else { *self.r.pick(&nx) };
            v.push((cur, go));
            cur = go;
        }
        v
    }

    /// the shares of a pair that an account holds
    fn lp_of(&self, s: &Sim, slot: u8, who: &str) -> u128 {
        let lp = match s.b.asset(&Asset::L(slot)) {
            Some(AInfo::Tok(t)) => t,
            _ => return 0,
        };
        s.o.toks.get(&lp).and_then(|t| t.bal.get(who).copied()).unwrap_or(0)
    }

    /// two routes in one, with everything that their hops offer first in the router's hands
    fn forked(&mut self, s: &mut Sim, by: u8, mut hops: Vec<(Asset, Asset)>) -> Option<(u8, Vec<Op>)> {
        let more = self.hops(s, true);
        let at = if self.r.chance(700) { hops.len() } else { self.r.idx(hops.len() + 1) };
        for (i, h) in more.into_iter().enumerate() {
            hops.insert(at + i, h);
        }
        hops.truncate(7);
        let mut ops = vec![];
        let mut had: Vec<Asset> = vec![];
        for (i, (x, _)) in hops.iter().enumerate() {
            if matches!(x, Asset::N(_)) || had.contains(x) || (i > 0 && hops[i - 1].1 == *x) {
                continue;
            }
            had.push(*x);
            let bal = self.bal(s, x, by);
            let amt = self.amount((bal / 50).max(1)).min(bal.max(1)).max(1);
            ops.push(Op::Cw {
                tok: *x,
                msg: Cw::Transfer {
                    to: Acct::Router,
                    amt: Amt(amt),
                },
            });
        }
        ops.push(Op::RouteDirect {
            hops,
            min: if self.r.chance(300) { Some(Amt(1)) } else { None },
            to: self.to(s),
            funds: vec![],
        });
        Some((by, ops))
    }

    fn route(&mut self, s: &mut Sim) -> Option<(u8, Vec<Op>)> {
        let tokens_only = self.r.chance(930);
        let mut hops = self.hops(s, tokens_only);
        if hops.is_empty() {
            return None;
        }
        let by = self.user(s);
        if self.r.chance(60) {
            return self.forked(s, by, hops);
        }
        let bal = self.bal(s, &hops[0].0, by);
        let base = if self.r.chance(600) { bal / 20 } else { bal };
        let amt = self.amount(base.max(1)).min(bal.max(1)).max(1);
        let to = self.to(s);
        let min = if self.r.chance(600) {
            let q = s.client_route_quote(&hops, amt).unwrap_or(1);
            let m = match self.r.below(8) {
                0 => q,
                1 => q.saturating_add(1),
                2 => q.saturating_sub(1),
                3 => num::muldiv(q, 995, 1000).unwrap_or(q),
                4 => num::muldiv(q, self.r.range(500, 1500) as u128, 1000).unwrap_or(q),
                5 => 0,
                6 => self.r.logu(q.max(1)),
                _ => q,
            };
            Some(Amt(m))
        } else {
            None
        };
        if self.r.chance(self.cfg.odd_pm / 2) {
            match self.r.below(6) {
                0 => hops = vec![],
                1 => {
                    let x = (self.any_asset(s), self.any_asset(s));
                    hops.push(x)
                }
                2 => {
                    let k = self.r.idx(hops.len());
                    hops.remove(k);
                }
                3 => hops.reverse(),
                4 => {
                    let k = self.r.idx(hops.len());
                    hops[k].1 = self.odd_asset(s)
                }
                _ => {
                    let k = self.r.idx(hops.len());
                    let h = hops[k];
                    hops.insert(k, h)
                }
            }
        }
        let first = match hops.first() {
            Some(h) => h.0,
            None => self.any_asset(s),
        };
        if let Asset::N(d) = first {
            return Some((
                by,
                vec![Op::RouteDirect {
                    hops,
                    min,
                    to,
                    funds: vec![(d, Amt(amt))],
                }],
            ));
        }
        // sometimes the tokens are sent first and the route called directly
        if self.r.chance(80) {
            return Some((
                by,
                vec![
                    Op::Cw {
                        tok: first,
                        msg: Cw::Transfer {
                            to: Acct::Router,
                            amt: Amt(amt),
                        },
                    },
                    Op::RouteDirect {
                        hops,
                        min,
                        to,
                        funds: vec![],
                    },
                ],
            ));
        }
        let hook = Hook::Route { hops, min, to };
        let msg = if self.r.chance(40) {
            Cw::SendFrom {
                owner: self.other_user(s),
                to: Acct::Router,
                amt: Amt(amt),
                hook,
            }
        } else {
            Cw::Send {
                to: Acct::Router,
                amt: Amt(amt),
                hook,
            }
        };
        Some((by, vec![Op::Cw { tok: first, msg }]))
    }

    fn token_op(&mut self, s: &Sim) -> Option<(u8, Vec<Op>)> {
        let slots = self.slots(s);
        let tok = if !slots.is_empty() && self.r.chance(350) {
            Asset::L(*self.r.pick(&slots))
        } else {
            let nt: Vec<u8> = s.b.toks.keys().copied().collect();
            if nt.is_empty() {
                return None;
            }
            Asset::T(*self.r.pick(&nt))
        };
        let mut by = self.user(s);
        let n = s.b.users.len() as u8;
        if self.r.chance(800) {
            by = (0..n).map(|k| (by + k) % n).find(|u| self.bal(s, &tok, *u) > 0).unwrap_or(by);
        }
        let bal = self.bal(s, &tok, by);
        let info = s.b.asset(&tok)?;
        let t = s.o.toks.get(info.name())?.clone();
        // spend existing allowances rather than guessing
        let live: Vec<(u8, u8, u128)> = t
            .allow
            .iter()
            .filter_map(|((o, sp), (a, _))| {
                let o = s.b.users.iter().position(|u| u == o)?;
                let sp = s.b.users.iter().position(|u| u == sp)?;
                Some((o as u8, sp as u8, *a))
            })
            .collect();
        let mut owner = self.other_user(s);
        let mut spend = self.amount(bal.max(1));
        let k = self.r.weighted(&[20, 20, 10, 8, 8, 14, 20, 8, 3, 8]);
        if matches!(k, 1 | 3 | 9) && live.is_empty() && self.r.chance(700) {
            // its owner is asked for an allowance before
            owner = Acct::U(by);
            by = self.user(s);
            spend = spend.min(bal.max(1));
        }
        if matches!(k, 1 | 3 | 9) && !live.is_empty() && self.r.chance(850) {
            let (o, sp, a) = *self.r.pick(&live);
            owner = Acct::U(o);
            by = sp;
            let ob = self.bal(s, &tok, o);
            spend = match self.r.below(5) {
                0 => a,
                1 => a.saturating_add(1),
                2 => a.min(ob),
                3 => self.amount(a.max(1)),
                _ => (a / 2).min(ob),
            };
        }
        let exp = match self.r.below(7) {
            0 => Some(Exp::HeightIn(self.r.range(0, 8) as i64 - 1)),
            1 => Some(Exp::TimeIn(self.r.range(0, 100) as i64 - 5)),
            2 => Some(Exp::Never),
            _ => None,
        };
        let msg = match k {
            0 => Cw::Transfer {
                to: self.someone(s),
                amt: Amt(spend),
            },
            1 => Cw::TransferFrom {
                owner,
                to: self.someone(s),
                amt: Amt(spend),
            },
            2 => Cw::Burn { amt: Amt(spend) },
            3 => Cw::BurnFrom {
                owner,
                amt: Amt(spend),
            },
            4 => Cw::Send {
                to: self.someone(s),
                amt: Amt(spend),
                hook: Hook::Garbage,
            },
            5 => {
                if let Some((m, cap)) = &t.minter {
                    if let Some(i) = s.b.users.iter().position(|u| u == m) {
                        if self.r.chance(700) {
                            by = i as u8;
                        }
                    }
                    let room = cap.map(|c| c.saturating_sub(t.supply)).unwrap_or(spend);
                    spend = match self.r.below(4) {
                        0 => room,
                        1 => room.saturating_add(1),
                        2 => room / 2,
                        _ => spend,
                    };
                }
                Cw::Mint {
                    to: self.someone(s),
                    amt: Amt(spend.min(1 << 122)),
                }
            }
            6 => Cw::Inc {
                sp: if self.r.chance(700) { self.other_user(s) } else { self.someone(s) },
                amt: Amt(spend),
                exp,
            },
            7 => {
                if !live.is_empty() {
                    let (o, sp, a) = *self.r.pick(&live);
                    by = o;
                    let v = match self.r.below(4) {
                        0 => a,
                        1 => a.saturating_add(1),
                        2 => a / 2,
                        _ => 1,
                    };
                    Cw::Dec {
                        sp: Acct::U(sp),
                        amt: Amt(v),
                        exp,
                    }
                } else {
                    Cw::Dec {
                        sp: self.other_user(s),
                        amt: Amt(spend),
                        exp,
                    }
                }
            }
            8 => {
                if let Some((m, _)) = &t.minter {
                    if let Some(i) = s.b.users.iter().position(|u| u == m) {
                        if self.r.chance(600) {
                            by = i as u8;
                        }
                    }
                }
                Cw::UpdateMinter {
                    to: if self.r.chance(700) { Some(self.other_user(s)) } else { None },
                }
            }
            _ => {
                let slot = slots.first().copied().unwrap_or(0);
                let slot = if slots.is_empty() { slot } else { *self.r.pick(&slots) };
                let hook = match tok {
                    Asset::L(_) => Hook::Withdraw,
                    _ => Hook::Swap {
                        belief: None,
                        max: None,
                        to: None,
                    },
                };
                let slot = match tok {
                    Asset::L(l) => l,
                    _ => slot,
                };
                Cw::SendFrom {
                    owner,
                    to: Acct::P(slot),
                    amt: Amt(spend),
                    hook,
                }
            }
        };
        Some((by, vec![Op::Cw { tok, msg }]))
    }

    fn donate(&mut self, s: &Sim) -> Option<(u8, Vec<Op>)> {
        let slots = self.slots(s);
        let by = self.user(s);
        if slots.is_empty() || self.r.chance(120) {
            let d = self.r.below(s.b.denoms.len() as u64) as u8;
            let bal = self.bal(s, &Asset::N(d), by);
            let to = match self.r.below(3) {
                0 => Acct::Factory,
                1 => Acct::Router,
                _ => self.someone(s),
            };
            return Some((
                by,
                vec![Op::Send {
                    denom: d,
                    to,
                    amt: Amt((self.amount(bal.max(1)) / 10).max(1)),
                }],
            ));
        }
        let slot = *self.r.pick(&slots);
        let p = s.b.pairs.get(&slot)?.clone();
        let mut a = p.a[self.r.idx(2)];
        if self.r.chance(150) && self.bal(s, &Asset::L(slot), by) > 0 {
            a = Asset::L(slot);
        }
        let bal = self.bal(s, &a, by);
        let base = if self.r.chance(700) { bal / 100 } else { bal };
        let amt = self.amount(base.max(1)).max(1);
        let to = if self.r.chance(60) { Acct::Router } else { Acct::P(slot) };
        Some((
            by,
            vec![match a {
                Asset::N(d) => Op::Send {
                    denom: d,
                    to,
                    amt: Amt(amt),
                },
                t => Op::Cw {
                    tok: t,
                    msg: Cw::Transfer { to, amt: Amt(amt) },
                },
            }],
        ))
    }

    fn whitelist(&mut self, s: &Sim) -> Vec<Acct> {
        let mut v = self.people(s);
        if !s.b.evils.is_empty() && self.r.chance(200) {
            let at = self.r.below(v.len() as u64 + 1) as usize;
            v.insert(at, Acct::E(self.r.below(s.b.evils.len() as u64) as u8));
        }
        v
    }

    fn people(&mut self, s: &Sim) -> Vec<Acct> {
        let n = s.b.users.len() as u8;
        if self.r.chance(60) {
            // a long list, one account of which stands in it only once
            let one = self.user(s);
            let k = self.r.range(4, 70);
            let mut v: Vec<Acct> = (0..k)
                .map(|_| match self.r.below(4) {
                    0 => Acct::Router,
                    1 => Acct::Factory,
                    _ => match self.user(s) {
                        u if u == one => Acct::Router,
                        u => Acct::U(u),
                    },
                })
                .collect();
            let at = if self.r.chance(500) { v.len() } else { self.r.below(v.len() as u64 + 1) as usize };
            v.insert(at, Acct::U(one));
            return v;
        }
        match self.r.below(6) {
            0 => vec![],
            1 => (0..n).map(Acct::U).collect(),
            2 => vec![Acct::UpU(self.user(s)), Acct::U(self.user(s))],
            3 => {
                let mut v = vec![Acct::U(self.user(s))];
                v.push(match self.r.below(4) {
                    0 => Acct::Router,
                    1 if !s.b.evils.is_empty() => Acct::E(0),
                    2 if !s.b.pairs.is_empty() => Acct::P(*s.b.pairs.keys().next().unwrap()),
                    _ => Acct::Factory,
                });
                v
            }
            _ => {
                let k = self.r.range(1, 3);
                (0..k).map(|_| Acct::U(self.user(s))).collect()
            }
        }
    }
    fn min_for(&mut self, s: &Sim, a: &Asset) -> Amt {
        let b = self.bal(s, a, 0);
        Amt(match self.r.below(5) {
            0 => 0,
            1 => 1,
            2 => self.r.logu(b.max(1)) / 4,
            3 => b / 50,
            _ => self.r.range128(1, 1000).min(b.max(1)),
        })
    }

    fn create(&mut self, s: &Sim) -> Option<(u8, Vec<Op>)> {
        if self.next_slot >= 60 {
            return None;
        }
        let mut a = [self.any_asset(s), self.any_asset(s)];
        if self.r.chance(750) {
            for _ in 0..12 {
                let mixed = a[0] != a[1] && !self.registered(s, a[0], a[1]);
                if mixed {
                    break;
                }
                a = [self.any_asset(s), self.any_asset(s)];
            }
        } else if self.r.chance(400) && !self.wants.is_empty() {
            // again, perhaps in the other order
            let w = self.r.pick(&self.wants).1;
            a = if self.r.chance(500) { [w[1], w[0]] } else { w };
        }
        if self.r.chance(self.cfg.odd_pm) {
            let i = self.r.idx(2);
            a[i] = match (self.r.below(3), a[1 - i]) {
                (0, Asset::T(t)) => Asset::UpT(t),
                _ => self.odd_asset(s),
            };
        }
        let by = self.user(s);
        let slot = self.next_slot;
        self.next_slot += 1;
        self.wants.push((slot, a));
        let white = self.whitelist(s);
        let mins = [self.min_for(s, &a[0]), self.min_for(s, &a[1])];
        Some((
            by,
            vec![Op::CreatePair {
                slot,
                a,
                white,
                mins,
            }],
        ))
    }

    fn pair_inst(&mut self, s: &Sim) -> Option<(u8, Vec<Op>)> {
        if self.next_slot >= 60 {
            return None;
        }
        let a = [self.any_asset(s), self.any_asset(s)];
        if a[0] == a[1] {
            return None;
        }
        let by = self.user(s);
        let slot = self.next_slot;
        self.next_slot += 1;
        let white = self.whitelist(s);
        let mins = [self.min_for(s, &a[0]), self.min_for(s, &a[1])];
        let dec = [self.r.below(19) as u8, self.r.below(19) as u8];
        Some((
            by,
            vec![Op::PairInst {
                slot,
                a,
                dec,
                white,
                mins,
            }],
        ))
    }

    fn tok_inst(&mut self, s: &Sim) -> Option<(u8, Vec<Op>)> {
        if self.next_tok >= 20 {
            return None;
        }
        let slot = 100 + self.next_tok;
        self.next_tok += 1;
        let by = self.user(s);
        let n = s.b.users.len() as u8;
        let launches = self.launches;
        let mut init: Vec<(Acct, Amt)> = vec![];
        for u in 0..n {
            if self.r.chance(if launches { 400 } else { 700 }) {
                init.push((Acct::U(u), Amt(pick_each(&mut self.r, self.cfg.style))));
            }
        }
        if self.r.chance(60) && !init.is_empty() {
            let d = init[0].clone();
            init.push(d);
        }
        if self.r.chance(40) {
            init.push((self.someone(s), Amt(1)));
        }
        if self.r.chance(80) {
            init.clear();
        }
        if launches && self.r.chance(80) && !init.is_empty() {
            let i = self.r.below(init.len() as u64) as usize;
            match self.r.below(3) {
                0 => init[i].0 = Acct::Bad,
                1 => init[i].0 = Acct::UpU(self.r.below(n as u64) as u8),
                _ => init[i].1 = Amt(0),
            }
        }
        if launches && self.r.chance(60) && !init.is_empty() {
            // as much as there can be, or a little more
            let rest = init[1..].iter().fold(0u128, |s, x| s.saturating_add(x.1 .0));
            init[0].1 = Amt((u128::MAX - rest).saturating_add(self.r.below(2) as u128));
        }
        let sum: u128 = init.iter().fold(0u128, |s, x| s.saturating_add(x.1 .0));
        let minter = if self.r.chance(700) {
            let slots = self.slots(s);
            // a token can name anyone, also a pair, as its minter
            if !slots.is_empty() && self.r.chance(200) {
                Some(Acct::P(*self.r.pick(&slots)))
            } else if launches && self.r.chance(60) {
                Some(if self.r.chance(500) { Acct::Bad } else { Acct::UpU(0) })
            } else {
                Some(self.other_user(s))
            }
        } else {
            None
        };
        let cap = if self.r.chance(600) {
            Some(Amt(match self.r.below(6) {
                5 => self.r.below(2) as u128,
                0 => sum,
                1 => sum.saturating_sub(1),
                2 => sum.saturating_add(1),
                3 => sum.saturating_add(self.r.logu(sum.max(1))),
                _ => self.r.logu(sum.max(1).saturating_mul(2)),
            }))
        } else {
            None
        };
        let (mut name, mut sym) = (None, None);
        if launches || self.r.chance(100) {
            let pm = if launches { 120 } else { 40 };
            name = Some(self.token_name(pm));
            sym = Some(self.symbol(pm));
        }
        let dec = match self.r.below(40) {
            0 => 19,
            1 if launches => *self.r.pick(&[18, 20, 32, 64, 127, 128, 255]),
            _ => self.r.below(19) as u8,
        };
        Some((
            by,
            vec![Op::TokInst {
                slot,
                dec,
                init,
                minter,
                cap,
                name,
                sym,
            }],
        ))
    }

    /// A name of 3 to 50 bytes, or one just outside with probability `pm`.
    fn token_name(&mut self, pm: u64) -> String {
        let len = match self.r.below(8) {
            _ if self.r.chance(pm) => *self.r.pick(&[0usize, 1, 2, 51, 52, 100]),
            0 => 3,
            1 => 50,
            2 => 49,
            _ => self.r.range(3, 50) as usize,
        };
        let letters: Vec<char> = match self.r.below(4) {
            0 => "aé€𝄞 b".chars().collect(),
            1 => "A B-0/\"'\\{}\t\n".chars().collect(),
            2 => " \u{0}\u{7f}".chars().collect(),
            _ => "Token of halo 123".chars().collect(),
        };
        let mut t = String::new();
        while t.len() < len {
            let c = *self.r.pick(&letters);
            t.push(if t.len() + c.len_utf8() > len { 'x' } else { c });
        }
        t
    }

    /// A symbol of 3 to 12 letters and dashes, or almost one with probability `pm`.
    fn symbol(&mut self, pm: u64) -> String {
        let bad = self.r.chance(pm);
        let len = match self.r.below(8) {
            0 | 1 if bad => *self.r.pick(&[0usize, 1, 2, 13, 14, 24]),
            0 | 2 => 3,
            3 => 12,
            _ => self.r.range(3, 12) as usize,
        };
        let all: Vec<char> = "ABCMYZabcmyz-".chars().collect();
        let mut t: Vec<char> = (0..len).map(|_| *self.r.pick(&all)).collect();
        if bad && !t.is_empty() {
            let i = self.r.below(t.len() as u64) as usize;
            t[i] = *self.r.pick(&['@', '[', '`', '{', ',', '.', '0', '9', '_', ' ', 'é', 'À', '\u{0}']);
        }
        t.into_iter().collect()
    }

    fn claimed(&mut self, s: &Sim) -> Acct {
        self.someone(s)
    }

    fn forge(&mut self, s: &Sim) -> Option<(u8, Vec<Op>)> {
        let slots = self.slots(s);
        if slots.is_empty() {
            return None;
        }
        let slot = *self.r.pick(&slots);
        let p = s.b.pairs.get(&slot)?.clone();
        let by = self.user(s);
        let (x, y, sup) = self.state(s, slot).unwrap_or((1, 1, 1));
        let amt = match self.r.below(5) {
            0 => 1,
            1 => x.max(1) / 10 + 1,
            2 => sup.max(1) / 3 + 1,
            3 => y.max(1),
            _ => self.r.logu(x.max(2)),
        };
        let hops = self.hops(s, true);
        let hook = match self.r.weighted(&[35, 40, 15, 5]) {
            0 => Hook::Swap {
                belief: None,
                max: None,
                to: self.to(s),
            },
            1 => Hook::Withdraw,
            2 => Hook::Route {
                hops: hops.clone(),
                min: None,
                to: self.to(s),
            },
            _ => Hook::Garbage,
        };
        let claimed = self.claimed(s);
        let mut ops: Vec<Op> = vec![];
        // what the forged message needs to come through is put in place first
        let mut amt = amt;
        if self.r.chance(350) {
            let lying = self.lp_of(s, slot, &p.addr);
            let own = self.bal(s, &Asset::L(slot), by);
            if lying > 0 && self.r.chance(600) {
                amt = self.amount(lying).min(lying).max(1);
            } else if own > 0 {
                amt = self.amount((own / 4).max(1)).min(own).max(1);
                ops.push(Op::Cw {
                    tok: Asset::L(slot),
                    msg: Cw::Transfer {
                        to: Acct::P(slot),
                        amt: Amt(amt),
                    },
                });
            }
        }
        let op = match self.r.weighted(&[30, 20, 18, 12, 10, 10]) {
            // a plain account claims to be a token
            0 => {
                let mut funds = vec![];
                if self.r.chance(300) {
                    for a in &p.a {
                        if let Asset::N(d) = a {
                            funds.push((*d, Amt(amt.min(self.bal(s, a, by)).max(1))));
                        }
                    }
                }
                Op::Forge {
                    target: if self.r.chance(850) { Acct::P(slot) } else { Acct::Router },
                    claimed,
                    amt: Amt(amt),
                    hook,
                    funds,
                }
            }
            // another pair's liquidity token
            1 => {
                let o = *self.r.pick(&slots);
                let bal = self.bal(s, &Asset::L(o), by);
                Op::Cw {
                    tok: Asset::L(o),
                    msg: Cw::Send {
                        to: Acct::P(slot),
                        amt: Amt(if self.r.chance(500) { amt } else { self.amount(bal.max(1)) }.min(bal.max(1)).max(1)),
                        hook: if self.r.chance(700) { Hook::Withdraw } else { hook },
                    },
                }
            }
            // a real token asks for the wrong thing, or a token that is no asset of this pair
            2 => {
                let mut tok = if self.r.chance(500) { p.a[self.r.idx(2)] } else { self.any_asset(s) };
                // look-alikes of the pair's liquidity token
                let alike: Vec<u8> = s
                    .b
                    .toks
                    .iter()
                    .filter(|(_, t)| {
                        s.o.toks.get(*t).and_then(|k| k.minter.as_ref()).map(|m| m.0 == p.addr).unwrap_or(false)
                    })
                    .map(|(k, _)| *k)
                    .collect();
                if !alike.is_empty() && self.r.chance(600) {
                    tok = Asset::T(*self.r.pick(&alike));
                }
                let bal = self.bal(s, &tok, by);
                Op::Cw {
                    tok,
                    msg: Cw::Send {
                        to: Acct::P(slot),
                        amt: Amt(if self.r.chance(500) { amt.min(bal) } else { bal / 20 }.max(1)),
                        hook: if self.r.chance(600) { Hook::Withdraw } else { hook },
                    },
                }
            }
            // internal router steps
            3 => {
                let hop = match hops.first() {
                    Some(h) => *h,
                    None => (p.a[0], p.a[1]),
                };
                ops.clear();
                if self.r.chance(500) && !matches!(hop.0, Asset::N(_)) {
                    let bal = self.bal(s, &hop.0, by);
                    ops.push(Op::Cw {
                        tok: hop.0,
                        msg: Cw::Transfer {
                            to: Acct::Router,
                            amt: Amt((bal / 50).max(1)),
                        },
                    });
                }
                Op::RouterStep {
                    hop,
                    to: if self.r.chance(250) { Some(Acct::Router) } else { self.to(s) },
                }
            }
            4 if !s.b.evils.is_empty() => {
                let e = self.r.below(s.b.evils.len() as u64) as u8;
                Op::Relay {
                    e,
                    inner: Box::new(Op::Forge {
                        target: Acct::P(slot),
                        claimed,
                        amt: Amt(amt),
                        hook,
                        funds: vec![],
                    }),
                }
            }
            _ => Op::RouterAssert {
                asset: p.a[self.r.idx(2)],
                prev: Amt(self.r.logu(x.max(2))),
                min: Amt(self.r.logu(x.max(2))),
                recv: self.someone(s),
            },
        };
        // a contract in the place of the account
        let op = match op {
            Op::Relay { .. } | Op::RouterAssert { .. } => op,
            _ if !s.b.evils.is_empty() && self.r.chance(200) => {
                let e = self.r.below(s.b.evils.len() as u64) as u8;
                if let Op::Cw { tok, msg: Cw::Send { amt, .. } } = &op {
                    ops.push(Op::Cw { tok: *tok, msg: Cw::Transfer { to: Acct::E(e), amt: *amt } });
                }
                Op::Relay { e, inner: Box::new(op) }
            }
            _ => op,
        };
        ops.push(op);
        Some((by, ops))
    }

    fn owner_or_not(&mut self, s: &Sim) -> u8 {
        if self.r.chance(600) {
            if let Some(i) = s.b.users.iter().position(|u| *u == s.o.fac.owner) {
                return i as u8;
            }
        }
        self.user(s)
    }

    /// one of these, or (rarely) an extreme id that looks like one of these
    fn code_id(&mut self, some: &[u64]) -> u64 {
        let c = *self.r.pick(some);
        if self.r.chance(80) {
            *self.r.pick(&[0, u64::MAX, (1 << 32) | c, (1 << 53) + 1, 256 + c])
        } else {
            c
        }
    }

    fn config(&mut self, s: &Sim) -> Option<(u8, Vec<Op>)> {
        let by = self.owner_or_not(s);
        let owner = if self.r.chance(400) {
            Some(match self.r.weighted(&[80, 10, 10]) {
                1 => match self.r.below(6) {
                    0 => *self.r.pick(&[Acct::Factory, Acct::Router]),
                    1 | 2 => Acct::UpU(1),
                    _ => Acct::Bad,
                },
                2 if !s.b.evils.is_empty() => Acct::E(self.r.below(s.b.evils.len() as u64) as u8),
                _ => self.other_user(s),
            })
        } else {
            None
        };
        let tok = if self.r.chance(350) {
            Some(self.code_id(&[codes::TOKEN, codes::TOKEN2, codes::TOKEN, codes::TOKEN2, codes::NO_CODE]))
        } else {
            None
        };
        let pair = if self.r.chance(350) {
            Some(self.code_id(&[codes::PAIR, codes::PAIR2, codes::PAIR, codes::PAIR2, codes::NO_CODE]))
        } else {
            None
        };
        Some((by, vec![Op::UpdateConfig { owner, tok, pair }]))
    }

    fn migrate(&mut self, s: &Sim) -> Option<(u8, Vec<Op>)> {
        let slots = self.slots(s);
        if self.r.chance(250) {
            let (t, c) = if self.r.chance(500) {
                (Acct::Factory, *self.r.pick(&[codes::FACTORY, codes::FACTORY2]))
            } else {
                (Acct::Router, *self.r.pick(&[codes::ROUTER, codes::ROUTER2]))
            };
            let by = if self.r.chance(700) { 0 } else { self.user(s) };
            return Some((by, vec![Op::AdminMigrate { target: t, code: c }]));
        }
        if slots.is_empty() {
            return None;
        }
        let slot = *self.r.pick(&slots);
        if self.r.chance(80) {
            return Some((
                self.user(s),
                vec![Op::AdminMigrate {
                    target: Acct::P(slot),
                    code: codes::PAIR2,
                }],
            ));
        }
        let by = self.owner_or_not(s);
        let target = if self.r.chance(930) { Acct::P(slot) } else { self.someone(s) };
        let code = match self.r.below(6) {
            0 | 1 => None,
            2 => Some(self.code_id(&[codes::PAIR])),
            3 | 4 => Some(self.code_id(&[codes::PAIR2])),
            _ => Some(self.code_id(&[codes::NO_CODE, 0])),
        };
        Some((by, vec![Op::MigratePair { target, code }]))
    }

    fn native(&mut self, s: &Sim) -> Option<(u8, Vec<Op>)> {
        let by = self.owner_or_not(s);
        let d = self.r.below(s.b.denoms.len() as u64) as u8;
        let mut ops = vec![];
        if self.r.chance(500) {
            ops.push(Op::Send {
                denom: d,
                to: Acct::Factory,
                amt: Amt(self.r.range128(1, 5)),
            });
        }
        ops.push(Op::AddNative {
            denom: d,
            dec: if self.r.chance(150) { *self.r.pick(&WIDE) } else { self.r.below(19) as u8 },
        });
        Some((by, ops))
    }

    fn evil(&mut self, s: &mut Sim) -> Option<(u8, Vec<Op>)> {
        if s.b.evils.is_empty() {
            return None;
        }
        let e = self.r.below(s.b.evils.len() as u64) as u8;
        let by = self.user(s);
        let op = match self.r.weighted(&[50, 10, 20, 10, 10]) {
            0 => {
                let mode = match self.r.weighted(&[10, 15, 15, 20, 10, 40]) {
                    0 => EMode::Honest,
                    1 => EMode::Fail,
                    2 => EMode::Short,
                    3 => {
                        let v = match self.r.below(5) {
                            0 => 0,
                            1 => 1,
                            2 => u128::MAX,
                            3 => self.r.logu(1 << 100),
                            _ => self.r.logu(1 << 40),
                        };
                        EMode::Lie(Amt(v))
                    }
                    4 => EMode::Panic,
                    _ => {
                        let k = self.r.range(1, 2);
                        let mut v = vec![];
                        for _ in 0..k {
                            let kind = *self.r.pick(&[SWAP, PROVIDE, WITHDRAW, ROUTE, FORGE, FORGE, TOKEN, CONFIG]);
                            if let Some((_, ops)) = self.intent(s, kind) {
                                v.extend(ops);
                            }
                        }
                        v.retain(|o| !matches!(o, Op::CreatePair { .. } | Op::TokInst { .. } | Op::PairInst { .. }));
                        v.truncate(3);
                        EMode::Reenter(v)
                    }
                };
                Op::EvilSet {
                    e,
                    dec: if self.r.chance(100) { *self.r.pick(&WIDE) } else { self.r.below(19) as u8 },
                    mode,
                }
            }
            1 => Op::EvilMint {
                e,
                to: self.someone(s),
                amt: Amt(self.r.logu(1 << 60)),
            },
            2 => {
                let kind = *self.r.pick(&[SWAP, PROVIDE, WITHDRAW, ROUTE, FORGE, TOKEN, CONFIG, NATIVE, MIGRATE]);
                let (_, ops) = self.intent(s, kind)?;
                let inner = ops.into_iter().last()?;
                if matches!(inner, Op::EvilSet { .. } | Op::Relay { .. } | Op::CreatePair { .. } | Op::TokInst { .. } | Op::PairInst { .. }) {
                    return None;
                }
                Op::Relay {
                    e,
                    inner: Box::new(inner),
                }
            }
            3 => {
                // arm the hostile contract with funds of its own
                let nt: Vec<u8> = s.b.toks.keys().copied().collect();
                if nt.is_empty() {
                    return None;
                }
                let t = Asset::T(*self.r.pick(&nt));
                let bal = self.bal(s, &t, by);
                Op::Cw {
                    tok: t,
                    msg: Cw::Transfer {
                        to: Acct::E(e),
                        amt: Amt((bal / 10).max(1)),
                    },
                }
            }
            _ => {
                let slots = self.slots(s);
                if slots.is_empty() {
                    return None;
                }
                Op::Relay {
                    e,
                    inner: Box::new(Op::Cw {
                        tok: Asset::T(0),
                        msg: Cw::Inc {
                            sp: Acct::P(*self.r.pick(&slots)),
                            amt: Amt(1 << 60),
                            exp: None,
                        },
                    }),
                }
            }
        };
        Some((by, vec![op]))
    }

    fn combo(&mut self, s: &mut Sim) -> Option<(u8, Vec<Op>)> {
        let k = self.r.range(2, 3);
        let mut all = vec![];
        let mut who = None;
        for _ in 0..k {
            let kind = *self.r.pick(&[SWAP, SWAP, PROVIDE, WITHDRAW, ROUTE, TOKEN, DONATE, CONFIG, NATIVE, MIGRATE]);
            if let Some((by, ops)) = self.intent(s, kind) {
                who = Some(by);
                all.extend(ops);
            }
        }
        if self.r.chance(150) {
            if let Some((by, ops)) = self.create(s) {
                who = who.or(Some(by));
                all.extend(ops);
            }
        }
        all.truncate(7);
        // a creation is only allowed at the end
        who.map(|w| (w, all))
    }

    // ---------------------------------------------------------------- the run

    fn target(ops: &[Op]) -> Option<u8> {
        for o in ops {
            match o {
                Op::Provide { pair, .. } => return Some(*pair),
                Op::Cw {
                    msg: Cw::Send {
                        to: Acct::P(p),
                        hook: Hook::Swap { .. },
                        ..
                    },
                    ..
                } => return Some(*p),
                _ => {}
            }
        }
        None
    }

    fn deliver(&mut self, s: &mut Sim, by: u8, ops: Vec<Op>) {
        if self.r.chance(self.cfg.front_pm) {
            let t = match Self::target(&ops) {
                Some(t) => Some(t),
                None => {
                    let v = self.sane_slots(s);
                    if v.is_empty() {
                        None
                    } else {
                        Some(*self.r.pick(&v))
                    }
                }
            };
            if let Some(t) = t {
                if let Some((b2, o2)) = self.swap(s, Some(t)) {
                    s.stat("front-running transactions");
                    self.submit(s, b2, o2);
                }
            }
        }
        self.submit(s, by, ops);
    }

    fn block(&mut self, s: &mut Sim) {
        let (dt, dh) = if self.r.chance(self.cfg.jump_pm) {
            s.stat("clock or height jumps");
            match self.r.below(4) {
                0 => (self.r.range(30, 120), 1),
                1 => (self.r.range(86_400, 90 * 86_400), self.r.range(1, 20_000)),
                2 => (1, self.r.range(2, 20)),
                _ => (self.r.range(1, 1000), self.r.range(1, 200)),
            }
        } else {
            (self.r.range(1, 8), 1)
        };
        let (dt, dh) = if self.round {
            (if dt < 60 { dt } else { dt / 60 * 60 }, if dh < 10 { dh } else { dh / 10 * 10 })
        } else {
            (dt, dh)
        };
        self.emit(s, Step::Block { dt, dh });
    }

    fn prologue(&mut self, s: &mut Sim) {
        // pairs and a first deposit in most of them, as ordinary transactions
        let n = self.cfg.start_pairs;
        for k in 0..n {
            if let Some((by, ops)) = self.create(s) {
                let mut ops = ops;
                if let Op::CreatePair { a, white, .. } = &mut ops[0] {
                    if k == 0 || self.r.chance(500) {
                        // keep the first pairs tradable
                        let nt = s.b.toks.len() as u64;
                        if nt >= 2 && !self.cfg.many_pairs {
                            let t0 = self.r.below(nt) as u8;
                            let t1 = ((t0 as u64 + 1 + self.r.below(nt - 1)) % nt) as u8;
                            *a = if self.r.chance(600) || s.b.denoms.is_empty() {
                                [Asset::T(t0), Asset::T(t1)]
                            } else {
                                [Asset::T(t0), Asset::N(self.r.below(s.b.denoms.len() as u64) as u8)]
                            };
                            if self.r.chance(500) {
                                a.swap(0, 1);
                            }
                        }
                    }
                    if white.is_empty() || !self.r.chance(300) {
                        white.push(Acct::U(self.user(s)));
                    }
                }
                let slot = match &ops[0] {
                    Op::CreatePair { slot, .. } => *slot,
                    _ => 0,
                };
                self.tx(s, by, ops);
                if self.r.chance(if self.cfg.many_pairs { 100 } else { 850 }) {
                    for _ in 0..3 {
                        if self.state(s, slot).map(|x| x.2) != Some(0) {
                            break;
                        }
                        if let Some((by, ops)) = self.provide(s, Some(slot)) {
                            self.tx(s, by, ops);
                        }
                    }
                }
            }
        }
        self.block(s);
    }

    fn exit_all(&mut self, s: &mut Sim, slot: u8) {
        let n = s.b.users.len() as u8;
        let mut us: Vec<u8> = (0..n).collect();
        self.r.shuffle(&mut us);
        for u in us {
            let b = self.bal(s, &Asset::L(slot), u);
            if b > 0 {
                self.tx(
                    s,
                    u,
                    vec![Op::Cw {
                        tok: Asset::L(slot),
                        msg: Cw::Send {
                            to: Acct::P(slot),
                            amt: Amt(b),
                            hook: Hook::Withdraw,
                        },
                    }],
                );
            }
        }
    }

    pub fn run(&mut self, s: &mut Sim) {
        self.prologue(s);
        let mut n = 0;
        while n < self.cfg.steps && !s.stopped() {
            n += 1;
            if self.r.chance(self.cfg.block_pm) {
                self.block(s);
                continue;
            }
            // something from the mempool?
            if !self.mem.is_empty() && self.r.chance(350) {
                let due: Vec<usize> = (0..self.mem.len()).filter(|i| self.mem[*i].due <= n).collect();
                if !due.is_empty() {
                    let i = *self.r.pick(&due);
                    let p = self.mem.remove(i);
                    s.stat("delayed transactions delivered");
                    self.deliver(s, p.by, p.ops);
                    continue;
                }
            }
            let k = self.r.weighted(&self.cfg.w.clone());
            match k {
                QUOTE => {
                    let v = self.sane_slots(s);
                    if !v.is_empty() {
                        let slot = *self.r.pick(&v);
                        let (x, y, _) = self.state(s, slot).unwrap_or((1, 1, 1));
                        let first = self.r.chance(500);
                        let amt = Amt(self.amount(if first { x } else { y }.max(1)).max(1));
                        self.emit(
                            s,
                            Step::Quote {
                                pair: slot,
                                first,
                                amt,
                            },
                        );
                    }
                    continue;
                }
                SOLO => {
                    if let Some(pair) = self.slot(s, 1000) {
                        let by = self.user(s);
                        let seed = self.r.next();
                        let n = *self.r.pick(&[3, 6, 10, 20]);
                        self.emit(s, Step::Solo { pair, by, seed, n });
                    }
                    continue;
                }
                RQUOTE => {
                    let hops = self.hops(s, self.r.clone().chance(600));
                    if !hops.is_empty() {
                        let b = self.bal(s, &hops[0].0, 0);
                        let amt = Amt(self.amount((b / 10).max(1)).max(1));
                        self.emit(s, Step::RouteQuote { hops, amt });
                    }
                    continue;
                }
                PAGE => {
                    let c = self.r.below(3) as u8;
                    if self.r.chance(60) {
                        self.emit(s, Step::PageReset { c });
                    }
                    let limit = match self.r.below(8) {
                        0 => None,
                        1 => Some(if self.r.chance(150) { 0 } else { 1 }),
                        2 => Some(self.r.range(1, 4) as u32),
                        3 => Some(30),
                        4 => Some(31),
                        5 => Some(self.r.range(5, 45) as u32),
                        6 => Some(match self.r.below(8) {
                            0 => u32::MAX,
                            // around the sizes of narrower integers
                            1 | 2 => (1u32 << *self.r.pick(&[7u32, 8, 8, 15, 16, 16, 31]))
                                .wrapping_add(self.r.below(12) as u32)
                                .wrapping_sub(self.r.below(3) as u32),
                            3 => 256 * self.r.range(1, 40) as u32 + self.r.below(30) as u32,
                            _ => 7,
                        }),
                        _ => Some(self.r.range(1, 12) as u32),
                    };
                    let swap = self.r.chance(400);
                    self.emit(s, Step::Page { c, limit, swap });
                    continue;
                }
                EXITALL => {
                    let v = self.slots(s);
                    if !v.is_empty() {
                        let slot = *self.r.pick(&v);
                        self.exit_all(s, slot);
                        if self.r.chance(500) {
                            if let Some((by, ops)) = self.provide(s, Some(slot)) {
                                self.submit(s, by, ops);
                            }
                        }
                    }
                    continue;
                }
                _ => {}
            }
            let (by, ops) = match self.intent(s, k) {
                Some(x) => x,
                None => continue,
            };
            if self.r.chance(self.cfg.drop_pm) {
                s.stat("transactions lost before inclusion");
                continue;
            }
            if self.r.chance(self.cfg.dup_pm) && !ops.iter().any(|o| matches!(o, Op::TokInst { .. } | Op::PairInst { .. })) {
                s.stat("transactions sent twice");
                self.mem.push(Pending {
                    due: n + self.r.below(10),
                    by,
                    ops: ops.clone(),
                });
            }
            if self.r.chance(self.cfg.delay_pm) {
                s.stat("transactions delayed");
                self.mem.push(Pending {
                    due: n + self.r.below(20),
                    by,
                    ops,
                });
                if self.mem.len() > 30 {
                    self.mem.remove(0);
                }
            } else {
                self.deliver(s, by, ops);
            }
        }
        if self.cfg.many_pairs && !s.stopped() {
            // finish the scans
            for c in 0..3u8 {
                for _ in 0..40 {
                    let limit = if self.r.chance(300) { None } else { Some(self.r.range(1, 12) as u32) };
                    let swap = self.r.chance(400);
                    if !s.scanning(c) {
                        break;
                    }
                    self.emit(s, Step::Page { c, limit, swap });
                }
            }
        }
        if self.cfg.heal && !s.stopped() {
            self.heal(s);
        }
    }

    /// No faults from here: valid operations, then everyone leaves every pool.
    fn heal(&mut self, s: &mut Sim) {
        s.stat("runs that healed and drained");
        self.block(s);
        let slots = self.sane_slots(s);
        let g = self.cfg.guard_pm;
        self.cfg.guard_pm = 0;
        self.cfg.odd_pm = 0;
        for slot in &slots {
            for _ in 0..2 {
                if let Some((by, ops)) = self.swap(s, Some(*slot)) {
                    self.tx(s, by, ops);
                }
            }
            if let Some((by, ops)) = self.provide(s, Some(*slot)) {
                self.tx(s, by, ops);
            }
        }
        if let Some((by, ops)) = self.route(s) {
            self.tx(s, by, ops);
        }
        if let Some((by, ops)) = self.create(s) {
            self.tx(s, by, ops);
        }
        self.cfg.guard_pm = g;
        for slot in self.sane_slots(s) {
            self.exit_all(s, slot);
        }
    }
}
