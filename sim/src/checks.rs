// Included into sim.rs: events (C20), quotes (C03, C12, C24), paging (C15), and counting.

pub struct PreQuote {
    pair: String,
    #[allow(dead_code)]
    receiver: String,
    answer: Result<(u128, u128, u128), String>,
}

fn get_num(v: &serde_json::Value, k: &str) -> Option<u128> {
    v.get(k)?.as_str()?.parse().ok()
}

impl Sim {
    /// (return, spread, commission)
    fn simulate(&self, pair: &str, off: &AInfo, amt: u128) -> Result<(u128, u128, u128), String> {
        let v: serde_json::Value = obs::ask(
            &self.c,
            pair,
            &json!({"simulation":{"offer_asset":{"info":off.json(),"amount":amt.to_string()}}}),
        )?;
        match (
            get_num(&v, "return_amount"),
            get_num(&v, "spread_amount"),
            get_num(&v, "commission_amount"),
        ) {
            (Some(a), Some(b), Some(c)) => Ok((a, b, c)),
            _ => Err(format!("odd simulation answer {}", v)),
        }
    }
    fn reverse(&self, pair: &str, ask: &AInfo, amt: u128) -> Result<(u128, u128, u128), String> {
        let v: serde_json::Value = obs::ask(
            &self.c,
            pair,
            &json!({"reverse_simulation":{"ask_asset":{"info":ask.json(),"amount":amt.to_string()}}}),
        )?;
        match (
            get_num(&v, "offer_amount"),
            get_num(&v, "spread_amount"),
            get_num(&v, "commission_amount"),
        ) {
            (Some(a), Some(b), Some(c)) => Ok((a, b, c)),
            _ => Err(format!("odd reverse simulation answer {}", v)),
        }
    }
    fn route_sim(&self, hops: &[(Asset, Asset)], amt: u128, reverse: bool) -> Result<u128, String> {
        let ops = hops_json(&self.b, hops).ok_or("unbound")?;
        let q = if reverse {
            json!({"reverse_simulate_swap_operations":{"ask_amount":amt.to_string(),"operations":ops}})
        } else {
            json!({"simulate_swap_operations":{"offer_amount":amt.to_string(),"operations":ops}})
        };
        let v: serde_json::Value = obs::ask(&self.c, &self.b.router, &q)?;
        get_num(&v, "amount").ok_or_else(|| format!("odd answer {}", v))
    }

    fn pre_quote(&self, ops: &[Op]) -> Option<PreQuote> {
        if ops.len() != 1 {
            return None;
        }
        let (tok, to, amt, hook) = match &ops[0] {
            Op::Cw {
                tok,
                msg: Cw::Send { to, amt, hook },
            } => (tok, to, amt, hook),
            Op::Cw {
                tok,
                msg: Cw::SendFrom { to, amt, hook, .. },
            } => (tok, to, amt, hook),
            _ => return None,
        };
        let to_recv = match hook {
            Hook::Swap { to, .. } => to,
            _ => return None,
        };
        let slot = match to {
            Acct::P(s) => s,
            _ => return None,
        };
        let pair = self.b.pairs.get(slot)?.addr.clone();
        if is_tainted(&self.o, &self.b, &pair) {
            return None;
        }
        let off = self.b.asset(tok)?.canon();
        let receiver = to_recv
            .as_ref()
            .and_then(|r| self.b.acct(r))
            .unwrap_or_default();
        Some(PreQuote {
            answer: self.simulate(&pair, &off, amt.0),
            pair,
            receiver,
        })
    }

    fn pre_route_quote(&self, ops: &[Op], m: &Model, pred: &Pred) -> Option<Result<u128, String>> {
        if ops.len() != 1 || *pred != Pred::Ok || m.native_hop {
            return None;
        }
        let mut seen = BTreeSet::new();
        if m.swaps.iter().any(|s| !seen.insert(s.pair.clone())) {
            return None;
        }
        let (tok, hops, amt) = match &ops[0] {
            Op::Cw {
                tok,
                msg:
                    Cw::Send {
                        to: Acct::Router,
                        amt,
                        hook: Hook::Route { hops, .. },
                    },
            } => (tok, hops, amt.0),
            Op::Cw {
                tok,
                msg:
                    Cw::SendFrom {
                        to: Acct::Router,
                        amt,
                        hook: Hook::Route { hops, .. },
                        ..
                    },
            } => (tok, hops, amt.0),
            _ => return None,
        };
        if hops.first().map(|h| h.0) != Some(*tok) {
            return None;
        }
        // a router holding leftovers is outside the comparison
        let router = self.b.router.clone();
        for (x, y) in hops {
            for z in [x, y] {
                let a = self.b.asset(z)?;
                // quotes compare addresses as written; only the usual spelling is priced
                if a != a.canon() {
                    return None;
                }
                if self.o.bal(&a, &router) > 0 {
                    return None;
                }
            }
        }
        Some(self.route_sim(hops, amt, false))
    }

    fn check_quotes(
        &mut self,
        quote: Option<PreQuote>,
        rquote: Option<Result<u128, String>>,
        alone: bool,
        m: &Model,
        r: &TxResult,
        pre: &Obs,
    ) {
        if let Some(q) = quote {
            if m.swaps.len() == 1 && m.swaps[0].pair == q.pair {
                let s = m.swaps[0].clone();
                // what the pair really paid out
                let paid = if s.receiver == s.pair {
                    None
                } else {
                    pre.bal(&s.ask, &s.pair).checked_sub(self.o.bal(&s.ask, &s.pair))
                };
                match (&q.answer, paid) {
                    (Ok((ret, _, _)), Some(p)) if *ret != p => {
                        let t = format!(
                            "simulation promised {} for {} against {},{}; the swap in that state paid {}",
                            ret, s.a, s.x, s.y, p
                        );
                        self.viol(&["C03"], "quote-differs", t);
                    }
                    (Err(e), Some(_)) => {
                        let t = format!("the swap executes but its simulation fails: {}", e);
                        self.viol(&["C03", "C21"], "quote-fails", t);
                    }
                    _ => {}
                }
            }
        }
        if let Some(q) = rquote {
            if let Some(s) = m.swaps.last().cloned() {
                let contract = pre.pairs.contains_key(&s.receiver) || s.receiver == self.b.router;
                let got = self
                    .o
                    .bal(&s.ask, &s.receiver)
                    .checked_sub(pre.bal(&s.ask, &s.receiver));
                // the receiver may itself have paid with the asset it receives
                let clean = !contract && m.swaps[0].off != s.ask;
                match (&q, got) {
                    (Ok(x), Some(g)) if clean && *x != g => {
                        let t = format!("router simulation promised {}, the route delivered {}", x, g);
                        self.viol(&["C12"], "route-quote-differs", t);
                    }
                    (Err(e), _) => {
                        let t = format!("the route executes but its simulation fails: {}", e);
                        self.viol(&["C12", "C21"], "route-quote-fails", t);
                    }
                    _ => {}
                }
                self.stat("routes compared with the router's simulation");
            }
        }
        let _ = r;
        // nothing left behind
        if alone && m.swaps.iter().any(|s| s.routed) {
            let router = self.b.router.clone();
            let mut left = vec![];
            for s in m.swaps.iter().filter(|s| s.routed) {
                for a in [&s.off, &s.ask] {
                    let (was, is) = (pre.bal(a, &router), self.o.bal(a, &router));
                    if was == 0 && is > 0 && s.receiver != router && m.swaps.last().map(|l| l.receiver != router) == Some(true) {
                        left.push(format!("{} {:?}", is, a));
                    }
                }
            }
            if !left.is_empty() {
                self.viol(&["C12"], "route-leftover", format!("the router keeps {}", left.join(", ")));
            }
        }
    }

    // ------------------------------------------------------------------ reported amounts

    fn check_events(&mut self, r: &TxResult, m: &Model, pre: &Obs, ops: &[Op], clean: bool) {
        let mut out: Vec<(&'static str, String)> = vec![];
        let evs: Vec<&Event> = r
            .events()
            .iter()
            .filter(|e| e.ty == "wasm")
            .filter(|e| {
                let a = attr(e, "_contract_address");
                pre.pairs.contains_key(a) && !is_tainted(pre, &self.b, a)
            })
            .collect();
        let sw: Vec<&&Event> = evs.iter().filter(|e| attr(e, "action") == "swap").collect();
        let pv: Vec<&&Event> = evs
            .iter()
            .filter(|e| attr(e, "action") == "provide_liquidity")
            .collect();
        let wd: Vec<&&Event> = evs
            .iter()
            .filter(|e| attr(e, "action") == "withdraw_liquidity")
            .collect();
        if sw.len() != m.swaps.len() || pv.len() != m.provs.len() || wd.len() != m.wds.len() {
            out.push((
                "report:missing",
                format!(
                    "{} swaps, {} deposits, {} withdrawals took place; {}, {}, {} were reported",
                    m.swaps.len(),
                    m.provs.len(),
                    m.wds.len(),
                    sw.len(),
                    pv.len(),
                    wd.len()
                ),
            ));
        } else {
            for (i, (e, s)) in sw.iter().zip(&m.swaps).enumerate() {
                let (o, ret, com, spr) = match (
                    num_attr(e, "offer_amount"),
                    num_attr(e, "return_amount"),
                    num_attr(e, "commission_amount"),
                    num_attr(e, "spread_amount"),
                ) {
                    (Some(a), Some(b), Some(c), Some(d)) => (a, b, c, d),
                    _ => {
                        out.push(("report:swap", format!("amounts missing in {:?}", e)));
                        continue;
                    }
                };
                if attr(e, "_contract_address") != s.pair
                    || attr(e, "sender") != s.trader
                    || attr(e, "receiver") != s.receiver
                    || attr(e, "offer_asset") != s.off.name()
                    || attr(e, "ask_asset") != s.ask.name()
                {
                    out.push(("report:swap", format!("accounts or assets: {:?}, really {:?}", e, s)));
                }
                if o != s.a {
                    out.push(("report:swap", format!("offered {}, really {}", o, s.a)));
                }
                if clean && ret != s.net {
                    out.push(("report:swap", format!("returned {}, really {}", ret, s.net)));
                }
                let before_fee = ret.checked_add(com);
                if before_fee.and_then(|g| num::muldiv(g, 3, 1000)) != Some(com) {
                    out.push((
                        "report:commission",
                        format!("commission {} is not 0.3% of {}+{}", com, ret, com),
                    ));
                }
                // the reserves this swap met are known when all before it went as it should have
                let known = before_fee == Some(s.gross)
                    || (o == s.a && (clean || (i == 0 && m.provs.is_empty() && m.wds.is_empty())));
                let bounds = before_fee.and_then(|g| num::spread_of(s.x, s.y, s.a, g));
                if let (true, Some((lo, hi))) = (known, bounds) {
                    if spr < lo || spr > hi {
                        out.push(("report:spread", format!("spread {} outside {}..{}", spr, lo, hi)));
                    }
                }
            }
            for (e, s) in pv.iter().zip(&m.provs) {
                let want: BTreeSet<String> = s
                    .assets
                    .iter()
                    .map(|(i, a)| format!("{}{}", a, i.name()))
                    .collect();
                let got: BTreeSet<String> =
                    attr(e, "assets").split(", ").map(|x| x.to_string()).collect();
                if attr(e, "_contract_address") != s.pair
                    || attr(e, "sender") != s.sender
                    || attr(e, "receiver") != s.receiver
                    || want != got
                {
                    out.push(("report:deposit", format!("{:?}, really {:?}", e, s)));
                }
                if clean && num_attr(e, "share") != Some(s.share) {
                    out.push(("report:deposit", format!("share {}, really {}", attr(e, "share"), s.share)));
                }
            }
            for (e, s) in wd.iter().zip(&m.wds) {
                let want: BTreeSet<String> = s
                    .refunds
                    .iter()
                    .map(|(i, a)| format!("{}{}", a, i.name()))
                    .collect();
                let got: BTreeSet<String> =
                    attr(e, "refund_assets").split(", ").map(|x| x.to_string()).collect();
                if attr(e, "_contract_address") != s.pair
                    || attr(e, "sender") != s.who
                    || num_attr(e, "withdrawn_share") != Some(s.l)
                    || (clean && want != got)
                {
                    out.push(("report:withdrawal", format!("{:?}, really {:?}", e, s)));
                }
            }
        }
        // movements that the events imply, against the ledgers
        let pure = ops.iter().all(|o| {
            matches!(
                o,
                Op::Provide { funds: None, .. }
                    | Op::Cw {
                        msg: Cw::Send {
                            hook: Hook::Swap { .. } | Hook::Withdraw | Hook::Route { .. },
                            ..
                        } | Cw::SendFrom {
                            hook: Hook::Swap { .. } | Hook::Withdraw | Hook::Route { .. },
                            ..
                        },
                        ..
                    }
            )
        });
        if pure && !clean {
            if let Some(t) = self.flows(&sw, &pv, &wd, pre) {
                out.push(("report:movements", t));
            }
        }
        if !sw.is_empty() || !pv.is_empty() || !wd.is_empty() {
            let sg = m.swaps.iter().fold(
                mix(pv.len() as u64, wd.len() as u64),
                |h, s| mix(h, lg(s.a) << 32 | lg(s.x) << 16 | lg(s.y)),
            );
            let sg = m.provs.iter().fold(sg, |h, p| mix(h, lg(p.share)));
            let sg = m.wds.iter().fold(sg, |h, p| mix(h, lg(p.l)));
            self.hit("C20", sg);
        }
        for (c, t) in out {
            self.viol(&["C20"], c, t);
        }
    }

    fn flows(&self, sw: &[&&Event], pv: &[&&Event], wd: &[&&Event], pre: &Obs) -> Option<String> {
        use std::collections::BTreeMap as M;
        let mut d: M<(String, String), i128> = M::new();
        let big = |x: u128| -> Option<i128> { i128::try_from(x).ok() };
        let split = |s: &str| -> Option<(u128, String)> {
            let i = s.find(|c: char| !c.is_ascii_digit())?;
            Some((s[..i].parse().ok()?, s[i..].to_string()))
        };
        for e in sw {
            let p = attr(e, "_contract_address").to_string();
            *d.entry((p.clone(), attr(e, "offer_asset").into())).or_default() +=
                big(num_attr(e, "offer_amount")?)?;
            *d.entry((p, attr(e, "ask_asset").into())).or_default() -=
                big(num_attr(e, "return_amount")?)?;
            let rcv = attr(e, "receiver");
            if pre.pairs.contains_key(rcv) {
                *d.entry((rcv.into(), attr(e, "ask_asset").into())).or_default() +=
                    big(num_attr(e, "return_amount")?)?;
            }
        }
        for e in pv {
            let p = attr(e, "_contract_address").to_string();
            for x in attr(e, "assets").split(", ") {
                let (a, n) = split(x)?;
                *d.entry((p.clone(), n)).or_default() += big(a)?;
            }
            let lp = pre.pairs.get(&p)?.lp.clone();
            let sh = big(num_attr(e, "share")?)?;
            *d.entry((String::new(), lp.clone())).or_default() += sh;
            let rcv = attr(e, "receiver");
            if pre.pairs.contains_key(rcv) {
                *d.entry((rcv.into(), lp)).or_default() += sh;
            }
        }
        for e in wd {
            let p = attr(e, "_contract_address").to_string();
            for x in attr(e, "refund_assets").split(", ") {
                let (a, n) = split(x)?;
                *d.entry((p.clone(), n)).or_default() -= big(a)?;
            }
            let lp = pre.pairs.get(&p)?.lp.clone();
            *d.entry((String::new(), lp)).or_default() -= big(num_attr(e, "withdrawn_share")?)?;
        }
        for (addr, p) in &pre.pairs {
            if is_tainted(pre, &self.b, addr) {
                continue;
            }
            for a in &p.a {
                let real = big(self.o.bal(a, addr))? - big(pre.bal(a, addr))?;
                let rep = d
                    .get(&(addr.clone(), a.name().to_string()))
                    .copied()
                    .unwrap_or(0);
                if real != rep {
                    return Some(format!(
                        "{} of {}: reported movement {}, real {}",
                        self.b.who(a.name()),
                        self.b.who(addr),
                        rep,
                        real
                    ));
                }
            }
            let real = big(self.o.lp_supply(addr)?)? - big(pre.lp_supply(addr)?)?;
            let rep = d.get(&(String::new(), p.lp.clone())).copied().unwrap_or(0);
            if real != rep {
                return Some(format!(
                    "liquidity supply of {}: reported movement {}, real {}",
                    self.b.who(addr),
                    rep,
                    real
                ));
            }
        }
        None
    }

    // ------------------------------------------------------------------ public answers

    /// What the contracts answer, against what the ledgers hold (C26). After a transaction: for the
    /// pairs it touched; otherwise for all.
    fn answers(&mut self, pre: Option<&Obs>) {
        let post = self.o.clone();
        let mut out: Vec<(&'static str, String)> = vec![];
        for (slot, pb) in &self.b.pairs.clone() {
            let addr = &pb.addr;
            if is_tainted(&post, &self.b, addr) {
                continue;
            }
            let (p, res, supply) = match (post.pairs.get(addr), post.reserves(addr), post.lp_supply(addr)) {
                (Some(p), Some(r), Some(s)) => (p, r, s),
                _ => continue,
            };
            if let Some(q) = pre {
                if q.reserves(addr) == Some(res) && q.lp_supply(addr) == Some(supply) {
                    continue;
                }
            }
            let v: Result<serde_json::Value, String> = obs::ask(&self.c, addr, &json!({"pool":{}}));
            let sg = mix(lg(res.0) << 32 | lg(res.1) << 16 | lg(supply), (pre.is_some() as u64) << 8 | *slot as u64);
            self.hit("C26", sg);
            let w = self.b.who(addr);
            let v = match v {
                Ok(v) => v,
                Err(e) => {
                    out.push(("pool-unreadable", format!("the pool of {} cannot be read: {}", w, e)));
                    continue;
                }
            };
            let mut got: Vec<(AInfo, u128)> = vec![];
            for x in v.get("assets").and_then(|a| a.as_array()).cloned().unwrap_or_default() {
                if let (Some(i), Some(a)) = (x.get("info").and_then(AInfo::from_json), get_num(&x, "amount")) {
                    got.push((i.canon(), a));
                }
            }
            let mut want = vec![(p.a[0].canon(), res.0), (p.a[1].canon(), res.1)];
            got.sort();
            want.sort();
            if got != want || get_num(&v, "total_share") != Some(supply) {
                out.push((
                    "pool-answer",
                    format!("{} answers {}, but holds {:?} for {} shares", w, v, want, supply),
                ));
            }
        }
        // single balances, supplies and allowances against the full listings
        for (t, k) in &post.toks {
            if let Some(q) = pre.and_then(|q| q.toks.get(t)) {
                if Rc::ptr_eq(q, k) {
                    continue;
                }
                for (key, (v, e)) in &k.allow {
                    if q.allow.get(key) == Some(&(*v, *e)) {
                        continue;
                    }
                    let a: Result<serde_json::Value, String> =
                        obs::ask(&self.c, t, &json!({"allowance":{"owner":key.0,"spender":key.1}}));
                    self.hit("C26", mix(0xA1, lg(*v)));
                    if a.as_ref().ok().and_then(|a| get_num(a, "allowance")) != Some(*v) {
                        out.push((
                            "allowance-answer",
                            format!("{} lists an allowance of {} from {} to {}, asked for it answers {:?}", self.b.who(t), v, self.b.who(&key.0), self.b.who(&key.1), a),
                        ));
                    }
                }
                for key in q.allow.keys().filter(|x| !k.allow.contains_key(*x)) {
                    let a: Result<serde_json::Value, String> =
                        obs::ask(&self.c, t, &json!({"allowance":{"owner":key.0,"spender":key.1}}));
                    if a.as_ref().ok().and_then(|a| get_num(a, "allowance")) != Some(0) {
                        out.push(("allowance-answer", format!("{} no longer lists an allowance that it still answers: {:?}", self.b.who(t), a)));
                    }
                }
                for h in q.bal.keys().filter(|h| !k.bal.contains_key(*h)) {
                    let a: Result<serde_json::Value, String> =
                        obs::ask(&self.c, t, &json!({"balance":{"address":h}}));
                    if a.as_ref().ok().and_then(|a| get_num(a, "balance")) != Some(0) {
                        out.push(("balance-answer", format!("{} no longer lists {}, whose balance it answers as {:?}", self.b.who(t), self.b.who(h), a)));
                    }
                }
            }
        }
        for (c, t) in out {
            self.viol(&["C26"], c, t);
        }
    }

    // ------------------------------------------------------------------ quotes

    fn quote(&mut self, slot: u8, first: bool, amt: u128) {
        let p = match self.b.pairs.get(&slot) {
            Some(p) => p.addr.clone(),
            None => return,
        };
        if is_tainted(&self.o, &self.b, &p) {
            return;
        }
        self.answers(None);
        let po = self.o.pairs[&p].clone();
        let i = if first { 0 } else { 1 };
        // first and second as the pair was asked for
        let want = self.b.asset(&self.b.pairs[&slot].a[i]).map(|a| a.canon());
        let i = po.a.iter().position(|a| Some(a) == want.as_ref()).unwrap_or(i);
        let (off, ask) = (po.a[i].clone(), po.a[1 - i].clone());
        let (x, y) = (self.o.bal(&off, &p), self.o.bal(&ask, &p));
        if x == 0 || y == 0 || amt == 0 {
            return;
        }
        self.stat("quotes");
        // forward
        if let Some(s) = num::swap_out(x, y, amt) {
            if let (Some(lo), Some(hi)) = (s.spread_lo, s.spread_hi) {
                let sg = mix(lg(x) << 32 | lg(y) << 16 | lg(amt), i as u64);
                self.hit("C03", sg);
                match self.simulate(&p, &off, amt) {
                    Ok((ret, spr, com)) => {
                        self.note(ret);
                        self.note(spr);
                        self.note(com);
                        if (ret, com) != (s.net, s.comm) {
                            self.viol(
                                &["C03"],
                                "quote-wrong",
                                format!("quote for {} against {},{}: {}+{}, should be {}+{}", amt, x, y, ret, com, s.net, s.comm),
                            );
                        } else if spr < lo || spr > hi {
                            self.viol(
                                &["C03", "C20"],
                                "quote-spread",
                                format!("quoted spread for {} against {},{}: {}, should be {}..{}", amt, x, y, spr, lo, hi),
                            );
                        }
                    }
                    Err(e) => self.viol(
                        &["C03", "C21"],
                        "quote-fails",
                        format!("no quote for {} against {},{}: {}", amt, x, y, e),
                    ),
                }
            }
        }
        // backward
        if let Some(b) = reverse_ask(y, amt) {
            self.hit("C24", mix(lg(x) << 32 | lg(y) << 16 | lg(b), 77 + i as u64));
            self.check_reverse(&p, &off, &ask, x, y, b);
        }
    }

    fn check_reverse(&mut self, p: &str, off: &AInfo, ask: &AInfo, x: u128, y: u128, b: u128) {
        // the model's own bound on the offer needed; out of range answers are out of scope
        let gross = num::muldiv_ceil(b, 1000, 997).unwrap_or(u128::MAX);
        if gross >= y {
            return;
        }
        let need = match num::muldiv_ceil(x, y, y - gross) {
            Some(n) => n - x,
            None => return,
        };
        if need > (1u128 << 126) || num::swap_out(x, y, need.saturating_mul(2).max(2)).and_then(|s| s.spread_hi).is_none() {
            return;
        }
        let ans = match self.reverse(p, ask, b) {
            Ok((a, _, _)) => a,
            Err(e) => {
                self.viol(
                    &["C24"],
                    "reverse-fails",
                    format!("no reverse quote for {} against {},{}: {}", b, x, y, e),
                );
                return;
            }
        };
        self.stat("reverse quotes executed");
        self.note(ans);
        let slack = if b < 1_000_000_000_000_000 { 0 } else { b / 1_000_000_000_000_000 };
        match self.simulate(p, off, ans.saturating_add(1)) {
            Ok((r, _, _)) if r >= b - slack => {}
            o => self.viol(
                &["C24"],
                "reverse-short",
                format!("reserves {},{}: to get {} the pair asks {}, but offering {}+1 gives {:?}", x, y, b, ans, ans, o),
            ),
        }
        if ans >= 2 {
            match self.simulate(p, off, ans - 1) {
                Ok((r, _, _)) if r <= b => {}
                o => self.viol(
                    &["C24"],
                    "reverse-excessive",
                    format!("reserves {},{}: to get {} the pair asks {}, but offering {}-1 already gives {:?}", x, y, b, ans, ans, o),
                ),
            }
        }
    }

    fn route_quote(&mut self, hops: &[(Asset, Asset)], amt: u128) {
        if amt == 0 || hops.is_empty() {
            return;
        }
        let mut cur = amt;
        let bind = self.b.clone();
        let (h, t) = {
            let w = self.c.w.borrow();
            (w.height, w.time_ns)
        };
        let m = Model::new(&self.o, &bind, h, t);
        let mut chain: Vec<(String, AInfo, AInfo)> = vec![];
        for (x, y) in hops {
            let (x, y) = match (self.b.asset(x), self.b.asset(y)) {
                (Some(x), Some(y)) => (x, y),
                _ => return,
            };
            let p = match m.find_pair(&x, &y) {
                Some(p) if !is_tainted(&self.o, &self.b, &p) => p,
                _ => return,
            };
            if !self.o.pairs.get(&p).map(|q| q.a.contains(&x) && q.a.contains(&y)).unwrap_or(false) {
                return;
            }
            chain.push((p, x, y));
        }
        self.stat("route quotes");
        // forward: composition of the pairs' own answers
        let mut fwd = Ok(());
        for (p, x, _) in &chain {
            match self.simulate(p, x, cur) {
                Ok((r, _, _)) => cur = r,
                Err(e) => {
                    fwd = Err(e);
                    break;
                }
            }
        }
        let sg = hops.len() as u64 ^ lg(amt) << 8;
        self.note(if fwd.is_ok() { cur } else { 1 });
        if fwd.is_ok() {
            self.hit("C12", mix(sg, lg(cur)));
            match self.route_sim(hops, amt, false) {
                Ok(a) if a == cur => {}
                o => self.viol(
                    &["C12"],
                    "route-simulation",
                    format!("router simulates {:?} for {}; its hops give {}", o, amt, cur),
                ),
            }
        }
        // backward
        let mut cur = amt;
        let mut ok = true;
        for (p, _, y) in chain.iter().rev() {
            match self.reverse(p, y, cur) {
                Ok((a, _, _)) => cur = a,
                Err(_) => {
                    ok = false;
                    break;
                }
            }
        }
        if ok {
            self.hit("C24", mix(sg, lg(cur)));
            self.stat("reverse route quotes");
            match self.route_sim(hops, amt, true) {
                Ok(a) if a == cur => {}
                o => self.viol(
                    &["C24"],
                    "route-reverse-simulation",
                    format!("router answers {:?} for {}; its hops give {}", o, amt, cur),
                ),
            }
        }
    }

    // ------------------------------------------------------------------ round trips

    /// One operation on the copy; true if it took effect.
    fn try_ops(&mut self, sender: &str, ops: &[Op]) -> bool {
        let (height, time_ns) = {
            let w = self.c.w.borrow();
            (w.height, w.time_ns)
        };
        let mk = Mk {
            b: &self.b,
            height,
            time_ns,
        };
        match ops.iter().map(|o| mk.msg(o)).collect::<Option<Vec<Msg>>>() {
            Some(m) => self.c.run_tx(sender, &m, None, self.blk.len() as u32).ok(),
            None => false,
        }
    }

    /// A round trip (C27): on a copy of the present state an account trades, deposits and withdraws as
    /// it likes, alone with the pool, and gives back every share it got. The pool must not be the poorer.
    fn solo(&mut self, slot: u8, by: u8, seed: u64, n: u8) {
        let (pb, me) = match (self.b.pairs.get(&slot), self.b.users.get(by as usize)) {
            (Some(p), Some(u)) => (p.clone(), u.clone()),
            _ => return,
        };
        if is_tainted(&self.o, &self.b, &pb.addr) {
            return;
        }
        // a pool of another pool's shares: trading it does not change that other pool
        let a = match self.o.pairs.get(&pb.addr) {
            Some(p) => p.a.clone(),
            None => return,
        };
        let (x0, y0) = match self.o.reserves(&pb.addr) {
            Some(r) => r,
            None => return,
        };
        let s0 = self.o.lp_supply(&pb.addr).unwrap_or(0);
        if s0 == 0 || x0 == 0 || y0 == 0 {
            return;
        }
        let lp = AInfo::Tok(pb.lp.clone());
        let start = [
            live_balance(&self.c, &a[0], &me),
            live_balance(&self.c, &a[1], &me),
            live_balance(&self.c, &lp, &me),
        ];
        let mark = self.c.mark();
        let mut r = crate::rng::Rng::new(mix(seed, 0x5010));
        let mut did: Vec<String> = vec![];
        let mut kinds = 0u64;
        for _ in 0..n {
            let have = [
                live_balance(&self.c, &a[0], &me),
                live_balance(&self.c, &a[1], &me),
                live_balance(&self.c, &lp, &me),
            ];
            let res = [
                live_balance(&self.c, &a[0], &pb.addr),
                live_balance(&self.c, &a[1], &pb.addr),
            ];
            let pick = |r: &mut crate::rng::Rng, base: u128| -> u128 {
                match r.weighted(&[20, 15, 25, 20, 10, 10]) {
                    0 => r.range128(1, 4),
                    1 => r.range128(1, 2000),
                    2 => r.logu(base.max(1)),
                    3 => num::muldiv(base, r.range(1, 999) as u128, 1000).unwrap_or(1),
                    4 => base,
                    _ => base / 2 + r.range128(0, 2),
                }
                .max(1)
            };
            let (k, ops) = match r.weighted(&[50, 25, 20, 5]) {
                0 => {
                    let i = r.idx(2);
                    let i = if matches!(pb.a[i], Asset::N(_)) { 1 - i } else { i };
                    if matches!(pb.a[i], Asset::N(_)) || have[i] == 0 {
                        continue;
                    }
                    // often the least amount that still buys one unit more
                    let amt = if r.chance(300) && res[1 - i] > 0 {
                        let unit = num::muldiv_ceil(res[i], 1, res[1 - i]).unwrap_or(1).max(1);
                        unit.saturating_mul(r.range128(1, 5)).saturating_add(r.range128(0, 1))
                    } else {
                        let base = if r.chance(150) { have[i] } else { have[i].min(res[i].saturating_mul(2)) };
                        pick(&mut r, base)
                    };
                    (
                        1 + i as u64,
                        vec![Op::Cw {
                            tok: pb.a[i],
                            msg: Cw::Send {
                                to: Acct::P(slot),
                                amt: Amt(amt.min(have[i])),
                                hook: Hook::Swap {
                                    belief: None,
                                    max: None,
                                    to: None,
                                },
                            },
                        }],
                    )
                }
                1 => {
                    if have[0] == 0 || have[1] == 0 || res[0] == 0 || res[1] == 0 {
                        continue;
                    }
                    let all = r.chance(200);
                    // as much as its wealth allows, whatever the size of the pool
                    let most = num::muldiv(have[1], res[0], res[1]).unwrap_or(have[0]).min(have[0]);
                    let d0 = pick(&mut r, if all { most } else { have[0].min(res[0]) }).min(have[0]);
                    let d1 = num::muldiv(d0, res[1], res[0]).unwrap_or(1).max(1);
                    let d1 = match r.below(4) {
                        0 => d1,
                        1 => d1 + 1,
                        2 => d1.saturating_sub(1).max(1),
                        _ => pick(&mut r, have[1].min(res[1])),
                    }
                    .min(have[1]);
                    let mut v = vec![];
                    for (i, d) in [d0, d1].iter().enumerate() {
                        if !matches!(pb.a[i], Asset::N(_)) {
                            v.push(Op::Cw {
                                tok: pb.a[i],
                                msg: Cw::Inc {
                                    sp: Acct::P(slot),
                                    amt: Amt(*d),
                                    exp: None,
                                },
                            });
                        }
                    }
                    v.push(Op::Provide {
                        pair: slot,
                        a: [(pb.a[0], Amt(d0)), (pb.a[1], Amt(d1))],
                        funds: None,
                        tol: None,
                        recv: None,
                    });
                    (3, v)
                }
                2 => {
                    let got = have[2].saturating_sub(start[2]);
                    if got == 0 {
                        continue;
                    }
                    let l = match r.below(3) {
                        0 => got,
                        _ => pick(&mut r, got).min(got),
                    };
                    (
                        4,
                        vec![Op::Cw {
                            tok: Asset::L(slot),
                            msg: Cw::Send {
                                to: Acct::P(slot),
                                amt: Amt(l),
                                hook: Hook::Withdraw,
                            },
                        }],
                    )
                }
                _ => {
                    let i = r.idx(2);
                    if have[i] == 0 {
                        continue;
                    }
                    let amt = Amt(pick(&mut r, 100.min(have[i])).min(have[i]));
                    (
                        5,
                        vec![match pb.a[i] {
                            Asset::N(d) => Op::Send {
                                denom: d,
                                to: Acct::P(slot),
                                amt,
                            },
                            t => Op::Cw {
                                tok: t,
                                msg: Cw::Transfer { to: Acct::P(slot), amt },
                            },
                        }],
                    )
                }
            };
            if self.try_ops(&me, &ops) {
                kinds = mix(kinds, k);
                did.push(format!("{:?}", ops.last().unwrap()));
                self.stat("dealings inside round trips");
            }
        }
        // give back what it got
        let got = live_balance(&self.c, &lp, &me).saturating_sub(start[2]);
        if got > 0 {
            let back = vec![Op::Cw {
                tok: Asset::L(slot),
                msg: Cw::Send {
                    to: Acct::P(slot),
                    amt: Amt(got),
                    hook: Hook::Withdraw,
                },
            }];
            if self.try_ops(&me, &back) {
                did.push(format!("{:?}", back[0]));
            }
        }
        let end = [
            live_balance(&self.c, &a[0], &me),
            live_balance(&self.c, &a[1], &me),
            live_balance(&self.c, &lp, &me),
        ];
        let (x1, y1) = (
            live_balance(&self.c, &a[0], &pb.addr),
            live_balance(&self.c, &a[1], &pb.addr),
        );
        let s1 = obs::ask::<serde_json::Value>(&self.c, &pb.lp, &json!({"token_info":{}}))
            .ok()
            .and_then(|v| get_num(&v, "total_supply"));
        self.c.rollback(mark);
        self.c.w.borrow_mut().dirty.clear();
        if did.is_empty() {
            return;
        }
        self.stat("round trips");
        self.hit("C27", mix(mix(kinds, lg(x0) << 32 | lg(y0) << 16 | lg(s0)), lg(x0.abs_diff(x1)) << 8 | lg(y0.abs_diff(y1))));
        let profit = (0..3).all(|i| end[i] >= start[i]) && end != start && s1 == Some(s0);
        let poorer = s1 == Some(s0) && num::k_less(x1, y1, x0, y0);
        let thinner = match s1 {
            Some(s1) if s1 > 0 => num::backing_less(x1, y1, s1, x0, y0, s0),
            _ => false,
        };
        if profit || poorer || thinner {
            let t = format!(
                "{} alone with {} (reserves {},{} shares {}): it had {:?} and has {:?}; the pool is left with {},{} for {:?}; {}",
                self.b.who(&me),
                self.b.who(&pb.addr),
                x0,
                y0,
                s0,
                start,
                end,
                x1,
                y1,
                s1,
                did.join("; ")
            );
            self.viol(&["C27"], if profit { "round-trip-profit" } else { "round-trip-drain" }, t);
        }
    }

    // ------------------------------------------------------------------ paging

    fn page(&mut self, c: u8, limit: Option<u32>, swap: bool) {
        let all: BTreeSet<String> = self.o.fac.reg.keys().cloned().collect();
        let s = self.pagers.entry(c).or_insert_with(|| Scan {
            start: all.clone(),
            seen: vec![],
            last: None,
            done: false,
            created_between: false,
            pages: 0,
        });
        if s.done {
            return;
        }
        let after = s.last.clone().map(|[a, b]| if swap { [b, a] } else { [a, b] });
        let got = obs::page(&self.c, &self.b.factory, after, limit);
        let want = limit.unwrap_or(10).min(30) as usize;
        let got = match got {
            Ok(g) => g,
            Err(e) => {
                self.viol(&["C15"], "page-fails", e);
                return;
            }
        };
        let s = self.pagers.get_mut(&c).unwrap();
        s.pages += 1;
        let mut out: Vec<(&'static str, String)> = vec![];
        if got.len() > want {
            out.push(("page-size", format!("a page of {} entries, {} asked for", got.len(), want)));
        }
        for e in &got {
            if s.seen.contains(&e.addr) {
                out.push(("page-twice", format!("pair {} is listed twice", self.b.who(&e.addr))));
            }
            s.seen.push(e.addr.clone());
            let reg = self.o.fac.reg.get(&e.addr);
            match reg {
                Some([Ok(r), _]) if r == e => {}
                _ => out.push((
                    "page-entry",
                    format!("listed {:?}, but looking it up gives {:?}", e, reg),
                )),
            }
        }
        if let Some(l) = got.last() {
            s.last = Some(l.a.clone());
        }
        if got.len() < want {
            s.done = true;
            let missing: Vec<&String> = s.start.iter().filter(|p| !s.seen.contains(p)).collect();
            if !missing.is_empty() {
                out.push((
                    "page-missing",
                    format!(
                        "the list ended after {} entries without {} of the pairs that existed at the start",
                        s.seen.len(),
                        missing.len()
                    ),
                ));
            }
        }
        let sg = mix(
            mix(want as u64, s.seen.len() as u64),
            mix(s.pages as u64, (s.done as u64) << 2 | (s.created_between as u64) << 1 | swap as u64),
        );
        let (done, cb) = (s.done, s.created_between);
        if done {
            self.stat("registry scans completed");
            if cb {
                self.stat("registry scans with pairs created between pages");
            }
        }
        self.stat("pages fetched");
        self.hit("C15", sg);
        for (c, t) in out {
            self.viol(&["C15"], c, t);
        }
    }

    // ------------------------------------------------------------------ counting

    #[allow(clippy::too_many_arguments)]
    fn count_ok(&mut self, m: &Model, ops: &[Op], opsig: u64, fault: &Option<Fault>, fired: bool, pre: &Obs, by: u8) {
        if fired {
            self.stat("transactions that succeeded although a fault fired");
            self.hit("C10", mix(opsig, fault_sig(fault)));
        }
        let size = m.swaps.iter().fold(opsig, |h, s| mix(h, lg(s.a) << 32 | lg(s.x) << 16 | lg(s.y)));
        let size = m.provs.iter().fold(size, |h, p| mix(h, lg(p.supply) << 32 | lg(p.reserves[0]) << 16 | lg(p.share)));
        let size = m.wds.iter().fold(size, |h, p| mix(h, lg(p.supply) << 16 | lg(p.l)));
        if !m.swaps.is_empty() {
            self.stat_n("swaps executed", m.swaps.len() as u64);
            self.hit("C03", size);
            if m.guards > 0 {
                self.stat("guarded swaps executed");
                self.hit("C04", size);
            }
            if m.swaps.iter().any(|s| s.y > s.net && s.gross + 1 >= s.y) {
                self.stat("probe: swap takes all but one unit of a reserve");
            }
            if m.swaps.iter().any(|s| s.net == 0) {
                self.stat("probe: swap that returns nothing");
            }
            if m.swaps.iter().any(|s| lg(s.x) + lg(s.y) > 192) {
                self.stat("probe: reserve product above 2^192");
            }
        }
        if m.swaps.iter().any(|s| s.routed) {
            self.stat(&format!("routes executed with {} hops", m.swaps.len()));
            self.hit("C12", size);
            self.hit("C18", size);
            if m.mins > 0 {
                self.hit("C11", size);
                self.stat("routes executed with a minimum");
            }
            let mut seen = BTreeSet::new();
            if m.swaps.iter().any(|s| !seen.insert(s.pair.clone())) {
                self.stat("probe: route that repeats a pair");
            }
        }
        if !m.provs.is_empty() {
            self.stat_n("deposits executed", m.provs.len() as u64);
            self.hit("C05", size);
            self.hit("C09", size);
            if m.tols > 0 {
                self.stat("deposits executed within a tolerance");
                self.hit("C06", size);
            }
            if m.first_deposit {
                self.stat("first deposits executed");
                self.hit("C07", size);
                if m.provs.iter().any(|p| p.supply == 0 && p.reserves != [0, 0]) {
                    self.stat("probe: first deposit into a pool with stray donations");
                }
            }
            if m.whitelist_free {
                self.stat("later deposits by accounts outside the requirements");
                self.hit("C07", mix(size, 1));
            }
        }
        if !m.wds.is_empty() {
            self.stat_n("withdrawals executed", m.wds.len() as u64);
            self.hit("C08", size);
            self.hit("C09", size);
            if m.wds.iter().any(|w| w.l == w.supply) {
                self.stat("probe: withdrawal of the whole supply");
            }
        }
        if has_migrate(ops) {
            self.stat("migrations executed");
            let holders: u64 = pre.pairs.keys().filter(|p| pre.lp_supply(p).unwrap_or(0) > 0).count() as u64;
            self.hit("C22", mix(opsig, holders << 8 | by as u64));
        }
        let mut token_op = false;
        for o in ops {
            match o {
                Op::UpdateConfig { .. } => {
                    self.stat("configuration changes executed");
                    self.hit("C16", mix(opsig, by as u64));
                }
                Op::AddNative { dec, .. } => {
                    self.stat("decimals registrations executed");
                    self.hit("C17", mix(opsig, *dec as u64));
                    self.hit("C16", mix(opsig, by as u64));
                }
                Op::Cw { .. } => token_op = true,
                _ => {}
            }
        }
        if token_op || !m.provs.is_empty() {
            self.hit("C23", mix(size, by as u64));
        }
        self.hit("C13", mix(size, by as u64));
        self.hit("C21", size);
        self.hit("C19", mix(size, by as u64));
    }
}

/// An obtainable amount to ask for, scaled from the client's number: at most 99% of the reserve.
fn reverse_ask(y: u128, amt: u128) -> Option<u128> {
    if y < 3 {
        return None;
    }
    let top = num::muldiv(y, 99, 100)?;
    if top == 0 {
        return None;
    }
    Some(amt % top + 1).filter(|b| *b >= 1 && *b < y)
}

impl Sim {
    /// the transaction tried on a copy of the present state: (succeeded, host calls, messages, queries)
    pub fn dry(&mut self, by: u8, ops: &[Op]) -> Option<(bool, u64, u64, u64)> {
        if self.dead {
            return None;
        }
        let sender = self.b.users.get(by as usize)?.clone();
        let (height, time_ns) = {
            let w = self.c.w.borrow();
            (w.height, w.time_ns)
        };
        let mk = Mk {
            b: &self.b,
            height,
            time_ns,
        };
        let msgs: Vec<Msg> = ops.iter().map(|o| mk.msg(o)).collect::<Option<Vec<_>>>()?;
        let mark = self.c.mark();
        let r = self.c.run_tx(&sender, &msgs, None, self.blk.len() as u32);
        self.c.rollback(mark);
        self.c.w.borrow_mut().dirty.clear();
        Some((r.ok(), r.calls, r.msgs, r.queries))
    }
    pub fn client_route_quote(&self, hops: &[(Asset, Asset)], amt: u128) -> Option<u128> {
        self.route_sim(hops, amt, false).ok()
    }
    pub fn scanning(&self, c: u8) -> bool {
        self.pagers.get(&c).map(|s| !s.done).unwrap_or(false)
    }
}
