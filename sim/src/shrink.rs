//! Makes a violating schedule small: fewer steps, fewer operations, no faults that do not matter,
//! round amounts, a smaller genesis, as long as the same violation of the same property remains.
use std::time::{Duration, Instant};

use crate::ops::{Amt, Cw, Genesis, Hook, Op, Schedule, Step};
use crate::run::{Reply, Runner};

pub struct Shrunk {
    pub sched: Schedule,
    pub reply: Reply,
    pub tried: u64,
}

struct Sh<'a> {
    z: &'a mut Runner,
    focus: String,
    class: String,
    best: Schedule,
    reply: Reply,
    tried: u64,
    end: Instant,
}

impl<'a> Sh<'a> {
    fn over(&self) -> bool {
        Instant::now() >= self.end
    }
    fn try_it(&mut self, s: Schedule) -> bool {
        if self.over() || s == self.best {
            return false;
        }
        self.tried += 1;
        let r = self.z.schedule(&s, &self.focus, false);
        if r.lost.is_some() {
            return false;
        }
        let same = r.hit(&self.focus).map(|v| v.class == self.class).unwrap_or(false);
        if same {
            let cut = r.hit(&self.focus).map(|v| v.step).unwrap_or(0);
            self.best = s;
            if cut > 0 && cut < self.best.steps.len() && self.focus != "C19" {
                self.best.steps.truncate(cut);
            }
            self.reply = r;
        }
        same
    }
    fn drop_steps(&mut self) -> bool {
        let mut any = false;
        let mut chunk = (self.best.steps.len() / 2).max(1);
        loop {
            let mut i = self.best.steps.len();
            while i > 0 && !self.over() {
                let lo = i.saturating_sub(chunk);
                let mut s = self.best.clone();
                let hi = i.min(s.steps.len());
                if lo >= hi {
                    i = lo;
                    continue;
                }
                s.steps.drain(lo..hi);
                if self.try_it(s) {
                    any = true;
                }
                i = lo.min(self.best.steps.len());
            }
            if chunk == 1 || self.over() {
                return any;
            }
            chunk /= 2;
        }
    }
    fn drop_ops(&mut self) -> bool {
        let mut any = false;
        let mut i = 0;
        while i < self.best.steps.len() {
            if let Step::Tx { ops, fault, .. } = self.best.steps[i].clone() {
                if fault.is_some() {
                    let mut s = self.best.clone();
                    if let Step::Tx { fault, .. } = &mut s.steps[i] {
                        *fault = None;
                    }
                    any |= self.try_it(s);
                }
                let mut k = ops.len();
                while k > 0 && i < self.best.steps.len() {
                    k -= 1;
                    let mut s = self.best.clone();
                    if let Step::Tx { ops, .. } = &mut s.steps[i] {
                        if ops.len() < 2 || k >= ops.len() {
                            continue;
                        }
                        ops.remove(k);
                    }
                    any |= self.try_it(s);
                }
            }
            i += 1;
        }
        any
    }
    fn small_steps(&mut self) -> bool {
        let mut any = false;
        for i in 0..self.best.steps.len() {
            if i >= self.best.steps.len() || self.over() {
                break;
            }
            match self.best.steps[i].clone() {
                Step::Block { dt, dh } if dt != 1 || dh != 1 => {
                    for (a, b) in [(1, 1), (1, dh), (dt, 1)] {
                        let mut s = self.best.clone();
                        s.steps[i] = Step::Block { dt: a, dh: b };
                        if self.try_it(s) {
                            any = true;
                            break;
                        }
                    }
                }
                Step::Tx { by, ops, fault } => {
                    for (k, op) in ops.iter().enumerate() {
                        for alt in simpler(op) {
                            if i >= self.best.steps.len() {
                                break;
                            }
                            let mut o2 = match &self.best.steps[i] {
                                Step::Tx { ops, .. } => ops.clone(),
                                _ => break,
                            };
                            if k >= o2.len() {
                                break;
                            }
                            o2[k] = alt;
                            let mut s = self.best.clone();
                            s.steps[i] = Step::Tx { by, ops: o2, fault };
                            any |= self.try_it(s);
                        }
                    }
                }
                _ => {}
            }
        }
        any
    }
    fn amounts(&mut self) -> bool {
        let mut any = false;
        let mut k = 0;
        loop {
            let mut t = self.best.clone();
            let mut slots = vec![];
            each_amt(&mut t, &mut |a| slots.push(a.0));
            if k >= slots.len() || self.over() {
                return any;
            }
            let x = slots[k];
            let mut cands: Vec<u128> = vec![1, 10, 1000];
            let mut p = 1u128;
            while p <= x / 10 {
                p *= 10;
            }
            cands.extend([p, x / p * p, x / (p / 10).max(1) * (p / 10).max(1), x / 2, x / 1000]);
            for c in cands {
                if c == 0 || c >= x {
                    continue;
                }
                let mut s = self.best.clone();
                let mut n = 0;
                each_amt(&mut s, &mut |a| {
                    if n == k {
                        a.0 = c;
                    }
                    n += 1;
                });
                if self.try_it(s) {
                    any = true;
                    break;
                }
            }
            k += 1;
        }
    }
    fn genesis(&mut self) -> bool {
        let mut any = false;
        let mut alts: Vec<Box<dyn Fn(&mut Genesis)>> = vec![];
        alts.push(Box::new(|g| g.evils.clear()));
        alts.push(Box::new(|g| g.users = g.users.saturating_sub(1).max(1)));
        alts.push(Box::new(|g| g.users = g.users.saturating_sub(1).max(1)));
        alts.push(Box::new(|g| {
            g.toks.pop();
        }));
        alts.push(Box::new(|g| {
            g.denoms.pop();
        }));
        alts.push(Box::new(|g| {
            g.toks.pop();
        }));
        alts.push(Box::new(|g| {
            g.denoms.pop();
        }));
        alts.push(Box::new(|g| {
            g.denoms.clear();
        }));
        alts.push(Box::new(|g| {
            for t in &mut g.toks {
                t.cap = None;
                t.minter = None;
            }
        }));
        alts.push(Box::new(|g| {
            for t in &mut g.toks {
                t.dec = 6;
            }
            for d in &mut g.denoms {
                d.dec = d.dec.map(|_| 6);
            }
        }));
        alts.push(Box::new(|g| {
            g.height = 1;
            g.time_ns = 1_600_000_000_000_000_000;
        }));
        for f in alts {
            let mut s = self.best.clone();
            f(&mut s.genesis);
            any |= self.try_it(s);
        }
        any
    }
}

fn simpler(op: &Op) -> Vec<Op> {
    let mut v = vec![];
    match op {
        Op::Cw { tok, msg } => match msg {
            Cw::Send { to, amt, hook } => match hook {
                Hook::Swap { belief, max, to: recv } => {
                    if belief.is_some() {
                        v.push(Op::Cw {
                            tok: *tok,
                            msg: Cw::Send {
                                to: to.clone(),
                                amt: *amt,
                                hook: Hook::Swap {
                                    belief: None,
                                    max: max.clone(),
                                    to: recv.clone(),
                                },
                            },
                        });
                    }
                    if max.is_some() || belief.is_some() {
                        v.push(Op::Cw {
                            tok: *tok,
                            msg: Cw::Send {
                                to: to.clone(),
                                amt: *amt,
                                hook: Hook::Swap {
                                    belief: None,
                                    max: None,
                                    to: recv.clone(),
                                },
                            },
                        });
                    }
                    if recv.is_some() {
                        v.push(Op::Cw {
                            tok: *tok,
                            msg: Cw::Send {
                                to: to.clone(),
                                amt: *amt,
                                hook: Hook::Swap {
                                    belief: belief.clone(),
                                    max: max.clone(),
                                    to: None,
                                },
                            },
                        });
                    }
                }
                Hook::Route { hops, min, to: recv } => {
                    let mk = |hops: Vec<_>, min: Option<Amt>, recv| Op::Cw {
                        tok: *tok,
                        msg: Cw::Send {
                            to: to.clone(),
                            amt: *amt,
                            hook: Hook::Route { hops, min, to: recv },
                        },
                    };
                    if min.is_some() {
                        v.push(mk(hops.clone(), None, recv.clone()));
                    }
                    if recv.is_some() {
                        v.push(mk(hops.clone(), *min, None));
                    }
                    if hops.len() > 1 {
                        v.push(mk(hops[..hops.len() - 1].to_vec(), *min, recv.clone()));
                    }
                }
                _ => {}
            },
            Cw::Inc { sp, amt, exp } if exp.is_some() => v.push(Op::Cw {
                tok: *tok,
                msg: Cw::Inc {
                    sp: sp.clone(),
                    amt: *amt,
                    exp: None,
                },
            }),
            _ => {}
        },
        Op::Provide {
            pair,
            a,
            funds,
            tol,
            recv,
        } => {
            if tol.is_some() {
                v.push(Op::Provide {
                    pair: *pair,
                    a: *a,
                    funds: funds.clone(),
                    tol: None,
                    recv: recv.clone(),
                });
            }
            if recv.is_some() {
                v.push(Op::Provide {
                    pair: *pair,
                    a: *a,
                    funds: funds.clone(),
                    tol: tol.clone(),
                    recv: None,
                });
            }
        }
        Op::CreatePair { slot, a, white, mins } => {
            if white.len() > 1 {
                for k in 0..white.len() {
                    v.push(Op::CreatePair {
                        slot: *slot,
                        a: *a,
                        white: vec![white[k].clone()],
                        mins: *mins,
                    });
                }
            }
        }
        _ => {}
    }
    v
}

fn amt_in(op: &mut Op, f: &mut dyn FnMut(&mut Amt)) {
    match op {
        Op::Send { amt, .. } => f(amt),
        Op::Cw { msg, .. } => match msg {
            Cw::Transfer { amt, .. } | Cw::Send { amt, .. } | Cw::Burn { amt } | Cw::Mint { amt, .. } | Cw::Inc { amt, .. } => {
                f(amt);
                if let Cw::Send {
                    hook: Hook::Route { min: Some(m), .. },
                    ..
                } = msg
                {
                    f(m);
                }
            }
            _ => {}
        },
        Op::Provide { a, .. } => {
            for (_, x) in a.iter_mut() {
                f(x);
            }
        }
        Op::CreatePair { mins, .. } => {
            for x in mins.iter_mut() {
                f(x);
            }
        }
        Op::Relay { inner, .. } => amt_in(inner, f),
        _ => {}
    }
}

fn each_amt(s: &mut Schedule, f: &mut dyn FnMut(&mut Amt)) {
    for t in &mut s.genesis.toks {
        f(&mut t.each);
    }
    for d in &mut s.genesis.denoms {
        f(&mut d.each);
    }
    for st in &mut s.steps {
        match st {
            Step::Tx { ops, .. } => {
                for o in ops {
                    amt_in(o, f);
                }
            }
            Step::Quote { amt, .. } | Step::RouteQuote { amt, .. } => f(amt),
            _ => {}
        }
    }
}

pub fn shrink(z: &mut Runner, focus: &str, sched: &Schedule, secs: u64) -> Option<Shrunk> {
    let first = z.schedule(sched, focus, false);
    let class = first.hit(focus)?.class.clone();
    let mut sh = Sh {
        z,
        focus: focus.into(),
        class,
        best: sched.clone(),
        reply: first,
        tried: 1,
        end: Instant::now() + Duration::from_secs(secs),
    };
    loop {
        let mut any = sh.drop_steps();
        any |= sh.drop_ops();
        any |= sh.genesis();
        any |= sh.small_steps();
        any |= sh.amounts();
        if !any || sh.over() {
            break;
        }
    }
    Some(Shrunk {
        sched: sh.best,
        reply: sh.reply,
        tried: sh.tried,
    })
}
