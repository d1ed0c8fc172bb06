//! Twin executions: the same history with something changed that must not matter. C28 changes the
//! order in which assets are listed, C29 when things happen, C30 how accounts, contracts and coins are
//! called. Both histories run against the real contracts; what their users can see must agree step by
//! step once names are replaced by roles. C32 and C33 leave the history as it is and add other people
//! (crowd.rs).
use std::collections::BTreeSet;

use crate::crowd::{self, Crowd};
use crate::ops::{Cw, EMode, Exp, Op, Schedule, Step};
use crate::rng::{fnv, mix, Rng};
use crate::sim::Sim;

pub fn is_twin(focus: &str) -> bool {
    matches!(focus, "C28" | "C29" | "C30" | "C32" | "C33")
}

fn each_op(op: &mut Op, f: &mut dyn FnMut(&mut Op)) {
    f(op);
    match op {
        Op::Relay { inner, .. } => each_op(inner, f),
        Op::EvilSet {
            mode: EMode::Reenter(v),
            ..
        } => {
            for o in v {
                each_op(o, f);
            }
        }
        _ => {}
    }
}

/// the step without anything that expires
pub fn timeless(mut st: Step) -> Step {
    if let Step::Tx { ops, .. } = &mut st {
        for o in ops {
            each_op(o, &mut |o| {
                if let Op::Cw { msg, .. } = o {
                    match msg {
                        Cw::Inc { exp, .. } | Cw::Dec { exp, .. } => {
                            if matches!(exp, Some(Exp::HeightIn(_)) | Some(Exp::TimeIn(_))) {
                                *exp = None;
                            }
                        }
                        _ => {}
                    }
                }
            });
        }
    }
    st
}

/// the history as this property speaks about it
pub fn prepare(focus: &str, s: &Schedule) -> Schedule {
    let mut t = s.clone();
    t.steps = t
        .steps
        .into_iter()
        .map(|st| match focus {
            "C29" => timeless(st),
            _ => match st {
                Step::Tx { by, ops, .. } => Step::Tx { by, ops, fault: None },
                x => x,
            },
        })
        .collect();
    t
}

pub fn twin(focus: &str, s: &Schedule) -> Schedule {
    let mut t = s.clone();
    let mut r = Rng::new(mix(s.genesis.salt, fnv(0x7714, focus.as_bytes())));
    match focus {
        "C28" => {
            let h = r.next();
            let flips = |slot: u8| mix(h, slot as u64) % 4 != 0;
            for (k, st) in t.steps.iter_mut().enumerate() {
                match st {
                    Step::Tx { ops, .. } => {
                        for o in ops {
                            each_op(o, &mut |o| match o {
                                Op::CreatePair { slot, a, mins, .. } if flips(*slot) => {
                                    a.swap(0, 1);
                                    mins.swap(0, 1);
                                }
                                Op::PairInst { slot, a, dec, mins, .. } if flips(*slot) => {
                                    a.swap(0, 1);
                                    dec.swap(0, 1);
                                    mins.swap(0, 1);
                                }
                                Op::Provide { a, .. } if mix(h, 1000 + k as u64) % 2 == 0 => a.swap(0, 1),
                                _ => {}
                            });
                        }
                    }
                    Step::Quote { pair, first, .. } if flips(*pair) => *first = !*first,
                    _ => {}
                }
            }
        }
        "C29" => {
            t.genesis.height = r.range(1, 1 << 40);
            t.genesis.time_ns = 1_000_000_000_000_000_000 + r.below(3_000_000_000) * 1_000_000_000 + r.below(1_000_000_000);
            // some twins keep to full hours, or to heights that are multiples of something
            let hours = r.chance(250);
            let every = if r.chance(300) { *r.pick(&[2u64, 10, 100, 1000, 1024, 100_000]) } else { 1 };
            if hours {
                t.genesis.time_ns = t.genesis.time_ns / crate::gen::HOUR * crate::gen::HOUR;
            }
            t.genesis.height = t.genesis.height / every * every + every;
            let pause = |r: &mut Rng| match pause(r) {
                Step::Block { dt, dh } => Step::Block {
                    dt: if hours { (dt / 3600 + 1) * 3600 } else { dt },
                    dh: if every > 1 { (dh / every + 1) * every } else { dh },
                },
                x => x,
            };
            let mut v = vec![];
            for st in t.steps {
                if r.chance(150) {
                    v.push(pause(&mut r));
                }
                match st {
                    Step::Block { .. } => {
                        if r.chance(800) {
                            v.push(pause(&mut r));
                        }
                    }
                    x => v.push(x),
                }
            }
            t.steps = v;
        }
        "C32" | "C33" => {}
        _ => {
            t.genesis.salt = r.next();
            let mut names: Vec<&str> = crate::gen::DENOMS.to_vec();
            names.retain(|n| *n != "uato" && *n != "muaura");
            r.shuffle(&mut names);
            let mut names: Vec<String> = names.into_iter().map(|n| n.to_string()).collect();
            match r.below(4) {
                0 => {
                    // two names as long as they may get, alike but for the end
                    names.insert(0, crate::gen::LONG.0.to_string());
                    names.insert(r.below(2) as usize, crate::gen::LONG.1.to_string());
                }
                1 => {
                    for x in names.iter_mut() {
                        if r.chance(500) {
                            *x = any_denom(&mut r);
                        }
                    }
                }
                _ => {}
            }
            for (d, n) in t.genesis.denoms.iter_mut().zip(names) {
                d.denom = n;
            }
        }
    }
    t
}

/// any name the chain takes for a coin
fn any_denom(r: &mut Rng) -> String {
    const FIRST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
    const REST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/:._-";
    let len = match r.below(3) {
        0 => r.range(8, 12),
        1 => r.range(8, 128),
        _ => r.range(100, 128),
    };
    let mut v = vec![FIRST[r.below(FIRST.len() as u64) as usize]];
    while (v.len() as u64) < len {
        v.push(REST[r.below(REST.len() as u64) as usize]);
    }
    String::from_utf8(v).unwrap()
}

fn pause(r: &mut Rng) -> Step {
    let (dt, dh) = match r.below(5) {
        0 => (1, 1),
        1 => (r.range(1, 100), r.range(1, 10)),
        2 => (r.range(3_000, 1_000_000), r.range(1, 1000)),
        3 => (r.range(1_000_000, 100_000_000), r.range(1, 10_000_000)),
        _ => (1, r.range(1, 100_000)),
    };
    Step::Block { dt, dh }
}

pub struct Outcome {
    pub compared: u64,
    pub sigs: BTreeSet<u64>,
    /// of a crowd: pools, successful transactions, transactions
    pub extra: (u64, u64, u64),
    /// (step of the base history, class, text)
    pub viol: Option<(usize, &'static str, String)>,
}

/// a chain on which a history runs, and who else is there
struct Stage {
    sim: Sim,
    crowd: Option<Crowd>,
}

impl Stage {
    fn new(focus: &str, s: &Schedule, second: bool) -> Stage {
        if second && matches!(focus, "C32" | "C33") {
            let who = crowd::guests(&s.genesis);
            let mut sim = Sim::with_guests(&s.genesis, None, &who);
            let crowd = if sim.dead { None } else { Some(Crowd::new(&mut sim, &s.genesis, who)) };
            return Stage::ready(sim, crowd);
        }
        Stage::ready(Sim::new(&s.genesis, None), None)
    }
    fn ready(mut sim: Sim, crowd: Option<Crowd>) -> Stage {
        sim.stop_on_focus = false;
        sim.trail = Some(vec![]);
        Stage { sim, crowd }
    }
    fn exec(&mut self, st: &Step) {
        if let (Some(c), Step::Tx { .. } | Step::Quote { .. } | Step::RouteQuote { .. }) = (&mut self.crowd, st) {
            c.mill_about(&mut self.sim);
        }
        self.sim.exec(st);
    }
    fn marks(&self) -> usize {
        self.sim.trail.as_ref().unwrap().len()
    }
}

fn upto(focus: &str, s: &Schedule, second: bool, marks: usize) -> (Sim, String) {
    let mut x = Stage::new(focus, s, second);
    let mut last = String::new();
    for st in &s.steps {
        if x.sim.dead || x.marks() >= marks {
            break;
        }
        if silent(st) {
            continue;
        }
        if let Step::Tx { .. } | Step::Quote { .. } | Step::RouteQuote { .. } = st {
            last = format!("{:?}", st);
        }
        x.exec(st);
    }
    (x.sim, last)
}

/// nothing to learn from looking around
fn silent(st: &Step) -> bool {
    matches!(st, Step::Page { .. } | Step::PageReset { .. } | Step::Solo { .. })
}

/// `base` has just executed `s` with a trail.
pub fn compare(focus: &str, s: &Schedule, base: &Sim) -> Outcome {
    let t = twin(focus, s);
    let mut o = Outcome {
        compared: 0,
        sigs: BTreeSet::new(),
        extra: (0, 0, 0),
        viol: None,
    };
    let ours = match &base.trail {
        Some(t) => t,
        None => return o,
    };
    let mut b = Stage::new(focus, &t, true);
    if let Some(c) = &b.crowd {
        o.extra = c.counts();
        if let (Some(m), "C33") = (&c.dear, focus) {
            o.viol = Some((0, "grown-cost", m.clone()));
            return o;
        }
    }
    for st in &t.steps {
        if b.sim.dead {
            break;
        }
        if silent(st) {
            continue;
        }
        b.exec(st);
        let n = b.marks();
        if n > ours.len() {
            break;
        }
        if n == 0 || n as u64 == o.compared {
            continue;
        }
        let (x, y) = (&ours[n - 1], &b.sim.trail.as_ref().unwrap()[n - 1]);
        o.compared = n as u64;
        if let Some(c) = &b.crowd {
            o.extra = c.counts();
        }
        if focus == "C33" {
            if x.ok != y.ok || x.skipped != y.skipped {
                break;
            }
            if !x.skipped {
                o.sigs.insert(mix(x.sig, x.ok as u64));
            }
            if !x.skipped && (y.cost.0 > x.cost.0 + crowd::SLACK.0 || y.cost.1 > x.cost.1 + crowd::SLACK.1) {
                let (_, la) = upto(focus, s, false, n);
                o.viol = Some((
                    x.step,
                    "twin-cost",
                    format!(
                        "{} takes {} host calls moving {} bytes; when others have used the chain ({} transactions of theirs) it takes {} moving {}",
                        la, x.cost.0, x.cost.1, o.extra.1, y.cost.0, y.cost.1
                    ),
                ));
                return o;
            }
            continue;
        }
        if (x.ok, x.skipped, x.notes, x.ledger) == (y.ok, y.skipped, y.notes, y.ledger) {
            if !x.skipped {
                o.sigs.insert(mix(x.sig, x.ok as u64));
            }
            continue;
        }
        let step = x.step;
        let class = if x.ok != y.ok {
            "twin-outcome"
        } else if x.ledger != y.ledger {
            "twin-ledger"
        } else {
            "twin-amounts"
        };
        let (sa, la) = upto(focus, s, false, n);
        let (sb, lb) = upto(focus, &t, true, n);
        let (ta, tb) = (sa.ledger_text(), sb.ledger_text());
        let only = |p: &BTreeSet<String>, q: &BTreeSet<String>| p.difference(q).take(5).cloned().collect::<Vec<_>>().join("; ");
        let what = match focus {
            "C28" => "with assets listed in the other order",
            "C29" => "at other times and heights",
            "C32" => "with other people busy elsewhere on the chain",
            _ => "under other addresses and coin names",
        };
        o.viol = Some((
            step,
            class,
            format!(
                "{} gives {} ({}); {} it gives {} ({}). Only the first: [{}]. Only the second: [{}]. Second history's step: {}",
                la,
                if x.ok { "success" } else { "a refusal" },
                sa.last.err,
                what,
                if y.ok { "success" } else { "a refusal" },
                sb.last.err,
                only(&ta, &tb),
                only(&tb, &ta),
                lb
            ),
        ));
        return o;
    }
    o
}
