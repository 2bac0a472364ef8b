//! C18: the safety game. Validators sign links of two competing branches, a prover who may choose everything that is
//! not signed tries to get steps accepted. The judge keeps the books of who signed what, nothing else.
use beacon_types::EthSpec;
use core_model::ffg::{Cp, Lk, St};
use core_model::guest::*;
use core_model::scn::{accepted, attest, pk, run, Att, Scn};
use core_model::spec::FAR;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use support::{hex, Monitor, Outcome, Rng};
use z_core::{Config, Epoch, MainnetEthSpec, MinimalEthSpec};

/// who signed which link, whatever else is claimed
type Books = HashMap<Lk, BTreeSet<usize>>;

struct Game {
    cfg: Config,
    w: World,
    reg: Vec<core_model::scn::V>,
    books: Books,
}
impl Game {
    fn total(&self, e: u64) -> u128 {
        self.reg.iter().filter(|v| v.active(e)).map(|v| v.eff as u128).sum()
    }
    /// the stake that unproven exits may at most take out of the total, by the churn limits
    fn slack(&self, e: u64) -> u128 {
        let start = self.w.earliest_exit();
        if e < start {
            return 0;
        }
        let s = &self.w.spec;
        let total = self.total(self.w.st.f.e).max(s.effective_balance_increment as u128);
        let c = (s.min_per_epoch_churn_limit_electra as u128).max(total / s.churn_limit_quotient as u128);
        (c - c % s.effective_balance_increment as u128) * 2 * (1 + (e - start) as u128)
    }
    fn signed(&self, l: &Lk) -> u128 {
        self.books.get(l).map_or(0, |w| w.iter().filter(|i| self.reg[**i].active(l.t.e) && !self.reg[**i].slashed).map(|i| self.reg[*i].eff as u128).sum())
    }
    fn backed(&self, l: &Lk) -> bool {
        let left = self.total(l.t.e).saturating_sub(self.slack(l.t.e));
        self.signed(l) * self.cfg.justification_threshold_quotient as u128 >= left * self.cfg.justification_threshold_factor as u128
    }
    /// signers whose stake is just below (or just reaches) the threshold
    fn signers(&self, rng: &mut Rng, e: u64, enough: bool) -> BTreeSet<usize> {
        let mut who: BTreeSet<usize> = (0..self.reg.len()).filter(|i| self.reg[*i].active(e)).collect();
        let mut order: Vec<usize> = who.iter().copied().filter(|i| !self.reg[*i].slashed).collect();
        rng.shuffle(&mut order);
        match rng.below(8) {
            0 => order.sort_by_key(|i| std::cmp::Reverse(*i)),
            1 => order.sort_by_key(|i| self.w.reg[*i].exit),
            2 => order.sort_by_key(|i| std::cmp::Reverse(self.w.reg[*i].act)),
            3 => order.sort_by_key(|i| std::cmp::Reverse(self.w.reg[*i].eff)),
            4 => {
                order.sort();
                let k = rng.idx(order.len().max(1));
                order.rotate_left(k);
            }
            _ => {}
        }
        let (t, q, f) = (self.total(e), self.cfg.justification_threshold_quotient as u128, self.cfg.justification_threshold_factor as u128);
        let sum = |w: &BTreeSet<usize>| -> u128 { w.iter().filter(|i| !self.reg[**i].slashed).map(|i| self.reg[*i].eff as u128).sum() };
        // leave out one after the other
        for i in order {
            if sum(&who) * q < t * f {
                break;
            }
            who.remove(&i);
            if enough && sum(&who) * q < t * f {
                who.insert(i);
            }
        }
        if !enough && rng.chance(1, 3) {
            who = who.into_iter().filter(|_| rng.chance(8, 10)).collect();
        }
        if rng.chance(1, 4) {
            who.retain(|i| !self.reg[*i].slashed);
        }
        who
    }
}

fn groups(atts: &[Att]) -> Vec<Lk> {
    let mut v: Vec<Lk> = vec![];
    for a in atts {
        let l = Lk { s: a.data.source, t: a.data.target };
        if v.last() != Some(&l) {
            v.push(l);
        }
    }
    v
}

/// what the prover tries beyond what was signed
fn cheat<E: EthSpec>(rng: &mut Rng, g: &Game, w: &mut World, p: &mut Parts, other: &(Vec<Att>, BTreeMap<u64, Patch>), links: &[Lk]) -> &'static str {
    let n = g.reg.len();
    let l = *rng.pick(links);
    let te = l.t.e;
    let idle: Vec<usize> = (0..n).filter(|i| g.reg[*i].active(te) && !g.books.get(&l).is_some_and(|b| b.contains(i))).collect();
    let none = BTreeSet::new();
    match rng.below(21) {
        0 => {
            for _ in 0..rng.range(1, 40) {
                if !p.atts.is_empty() {
                    let i = rng.idx(p.atts.len());
                    let a = p.atts[i].clone();
                    p.atts.insert(i, a);
                }
            }
            "repeat"
        }
        1 => {
            let s = w.scenario::<E>(&g.cfg);
            let who = g.books.get(&l).cloned().unwrap_or_default();
            let more = attest(rng, &s, &l, &who, true);
            let at = p.atts.iter().position(|a| a.data.target == l.t).unwrap_or(p.atts.len());
            p.atts.splice(at..at, more);
            "aggregate-again"
        }
        2 => {
            for a in p.atts.iter_mut() {
                if rng.bool() && !a.bits.is_empty() {
                    for _ in 0..rng.range(1, 4) {
                        let i = rng.idx(a.bits.len());
                        a.bits[i] = true;
                    }
                }
            }
            "claim-bits"
        }
        3 => {
            let none = bls::AggregateSignature::infinity();
            let all = rng.bool();
            for a in p.atts.iter_mut() {
                if rng.bool() {
                    for b in a.bits.iter_mut() {
                        *b = all;
                    }
                    a.sig = none.clone();
                }
            }
            "empty-signature"
        }
        4 => {
            for a in p.atts.iter_mut() {
                if rng.bool() {
                    let i = rng.idx(a.committees.len());
                    a.committees[i] = true;
                    a.bits.extend(vec![rng.bool(); rng.urange(0, 4)]);
                }
            }
            "claim-committees"
        }
        5 | 6 => {
            // those who did not sign are said to have left
            let es: Vec<u64> = match rng.below(4) {
                0 => vec![te],
                1 => vec![w.st.f.e, te],
                2 => (w.st.f.e..=te).collect(),
                _ => links.iter().map(|l| l.t.e).collect(),
            };
            let x = *rng.pick(&[te, te.saturating_sub(1), w.st.f.e + 1, w.st.f.e, g.w.earliest_exit(), 0, te + 1]);
            let k = rng.urange(1, idle.len().max(1));
            let gone: Vec<usize> = idle.iter().copied().take(k).collect();
            for e in &es {
                for i in &gone {
                    let x = if rng.chance(1, 20) { FAR } else { x };
                    w.patches.entry(*e).or_default().exits.insert(*i, x);
                }
            }
            let s = w.scenario::<E>(&g.cfg);
            p.patches = w.patches.clone();
            p.atts = sign(rng, g, &s, links);
            "invent-exits"
        }
        7 => {
            for e in links.iter().map(|l| l.t.e) {
                if let Some(x) = w.patches.get_mut(&e) {
                    for m in x.mixes.values_mut() {
                        *m = rng.bytes32();
                    }
                }
            }
            p.patches = w.patches.clone();
            if rng.bool() {
                let s = w.scenario::<E>(&g.cfg);
                p.atts = sign(rng, g, &s, links);
            }
            "other-mix"
        }
        8 | 9 => {
            // another registry, consistent up to some level
            let mut x = w.clone();
            for i in 0..n {
                let signs = g.books.get(&l).is_some_and(|b| b.contains(&i));
                let v = &mut x.reg[i];
                match rng.below(4) {
                    0 => v.eff = if signs { v.eff * 2 } else { v.eff / 2 },
                    1 if signs => v.slashed = false,
                    2 if !signs => v.exit = v.exit.min(w.st.f.e + rng.below(2)),
                    2 if v.act > te => {
                        v.elig = 0;
                        v.act = 0;
                    }
                    3 if !signs => v.act = FAR,
                    _ => {}
                }
            }
            let k = x.reg.len() - rng.idx(3).min(x.reg.len() - 1);
            if rng.chance(1, 3) {
                x.reg.truncate(k);
                x.list_len = k as u64;
            }
            let level = rng.below(4);
            if level > 0 {
                x.seal();
            }
            let q = x.parts(&none);
            p.validators = q.validators;
            p.keys = q.keys;
            if level > 0 {
                p.state = q.state;
            }
            if level > 1 {
                p.block = q.block;
            }
            if rng.bool() {
                let mut y = x.clone();
                y.patches = w.patches.clone();
                let s = y.scenario::<E>(&g.cfg);
                p.atts = sign(rng, g, &s, links);
            }
            "other-registry"
        }
        10 => {
            // own keys in place of those of the idle
            let live: Vec<usize> = (0..n).filter(|i| !w.exited(*i)).collect();
            let mut s = w.scenario::<E>(&g.cfg);
            let mut who = g.books.get(&l).cloned().unwrap_or_default();
            for i in idle {
                if let Some(k) = live.iter().position(|x| *x == i).filter(|k| *k < p.keys.len()) {
                    p.keys[k] = pk(900_000 + i as u64);
                    s.vals[i].key = 900_000 + i as u64;
                    who.insert(i);
                }
            }
            let more = attest(rng, &s, &l, &who, false);
            p.atts.retain(|a| a.data.target != l.t);
            let at = if links[0] == l { 0 } else { p.atts.len() };
            p.atts.splice(at..at, more);
            "own-keys"
        }
        11 => {
            // the idle are left out of the proof
            let list = w.list_tree();
            let mut v = w.val_gindices(&none);
            // not at all, or by one field alone; perhaps only the last ones, and the length with them
            let keep = [val_g(0, 6), val_g(0, 5), val_g(0, 4), 0][rng.idx(4)];
            let mut idle = idle.clone();
            if rng.bool() {
                let end: Vec<usize> = (0..n).rev().take_while(|i| w.exited(*i) || idle.contains(i)).collect();
                idle.retain(|i| end.contains(i));
                if rng.bool() {
                    v.remove(&3);
                }
            } else if rng.bool() {
                idle.sort_by_key(|i| w.reg[*i].exit);
                let k = rng.urange(1, idle.len().max(1));
                idle.truncate(k);
            }
            for i in &idle {
                for k in World::val_fields(*i) {
                    if keep == 0 || k != keep + 8 * *i as u64 {
                        v.remove(&k);
                    }
                }
            }
            p.validators = list.proof(&v);
            p.keys = (0..n).filter(|i| !w.exited(*i) && !idle.contains(i)).map(|i| pk(w.reg[i].key)).collect();
            let mut s = w.scenario::<E>(&g.cfg);
            for i in &idle {
                s.vals[*i].act = FAR;
            }
            p.atts = sign(rng, g, &s, links);
            "omit-idle"
        }
        12 => {
            // what was signed for something else
            let mut more: Vec<Att> = other.0.clone();
            more.extend(p.atts.iter().filter(|a| a.data.target != l.t).cloned());
            for a in more.iter_mut() {
                a.data.source = l.s;
                a.data.target = l.t;
                if rng.bool() {
                    a.data.slot = l.t.e * w.slots_per_epoch + a.data.slot % w.slots_per_epoch;
                }
            }
            let at = p.atts.iter().position(|a| a.data.target == l.t).unwrap_or(p.atts.len());
            p.atts.splice(at..at, more);
            "relabel"
        }
        13 => {
            match rng.below(3) {
                0 => rng.shuffle(&mut p.atts),
                1 => {
                    let k = rng.idx(1 + p.atts.len() / 2);
                    p.atts.rotate_left(k)
                }
                _ => {
                    let x = p.atts.clone();
                    p.atts.extend(x);
                }
            }
            "regroup"
        }
        14 => {
            // another claim of where it starts from
            if rng.bool() {
                p.atts.retain(|a| a.data.target == l.t);
                p.st.j = l.s;
            } else if rng.bool() {
                p.st.j.r = rng.bytes32();
            } else {
                p.st.j.e = p.st.j.e.wrapping_add(rng.below(3)).wrapping_sub(1);
            }
            "claim-source"
        }
        15 => {
            // the end of the other branch on the beginning of this one
            if let Some(last) = other.0.last().map(|a| a.data.target) {
                p.atts.retain(|a| a.data.target != links.last().unwrap().t);
                p.atts.extend(other.0.iter().filter(|a| a.data.target == last).cloned());
                p.patches.insert(last.e, other.1[&last.e].clone());
            }
            "cross-branch"
        }
        16 | 17 => {
            // those that are not active are said to be, and sign
            let mut s = w.scenario::<E>(&g.cfg);
            let mut who = g.books.get(&l).cloned().unwrap_or_default();
            let idle: Vec<usize> = (0..n).filter(|i| !g.reg[*i].active(te) && !w.exited(*i)).collect();
            for i in idle {
                if rng.chance(3, 4) {
                    let x = if rng.chance(1, 3) { te + 1 + rng.below(9) } else { g.reg[i].exit };
                    w.patches.entry(te).or_default().exits.insert(i, x);
                    s.vals[i].act = 0;
                    s.vals[i].exit = FAR;
                    who.insert(i);
                }
            }
            p.patches = w.patches.clone();
            s.exits.clear();
            let more = attest(rng, &s, &l, &who, false);
            p.atts.retain(|a| a.data.target != l.t);
            let at = if links[0] == l { 0 } else { p.atts.len() };
            p.atts.splice(at..at, more);
            "claim-active"
        }
        18 => {
            // what all of them signed on another network, or for another fork
            let mut s = w.scenario::<E>(&g.cfg);
            match rng.below(3) {
                0 => s.gvr = rng.bytes32(),
                _ => {
                    // the forks are at other epochs there
                    let d = [l.s.e, te + 1][rng.idx(2)];
                    if s.spec.fulu_fork_epoch.is_some_and(|f| f.as_u64() <= te && f.as_u64() > 0) {
                        s.spec.fulu_fork_epoch = Some(Epoch::new(te + 1));
                    } else {
                        s.spec.fulu_fork_epoch = Some(Epoch::new(d));
                    }
                }
            }
            if s.domain(te) != w.scenario::<E>(&g.cfg).domain(te) {
                let who: BTreeSet<usize> = (0..n).collect();
                let more = attest(rng, &s, &l, &who, false);
                p.atts.retain(|a| a.data.target != l.t);
                let at = if links[0] == l { 0 } else { p.atts.len() };
                p.atts.splice(at..at, more);
            }
            "other-domain"
        }
        19 => {
            // the rest signed for the same target, but from elsewhere, or for another one from here
            let s = w.scenario::<E>(&g.cfg);
            let who: BTreeSet<usize> = idle.into_iter().collect();
            let mut o = l;
            match rng.below(4) {
                0 => o.s = g.w.st.f,
                1 => o.s.r = rng.bytes32(),
                2 => o.s.e = o.s.e.saturating_sub(1),
                _ => o.t.r = rng.bytes32(),
            }
            let more = attest(rng, &s, &o, &who, false);
            let at = p.atts.iter().rposition(|a| a.data.target == l.t).map_or(p.atts.len(), |k| k + rng.idx(2));
            p.atts.splice(at..at, more);
            "other-source"
        }
        _ => {
            // only what was signed for a link, presented as a link that finalizes
            let t = Cp::new(l.s.e + 1, l.t.r);
            for a in p.atts.iter_mut().filter(|a| a.data.target == l.t) {
                a.data.target = t;
            }
            "claim-target"
        }
    }
}

/// the attestations of everybody who signed
fn sign(rng: &mut Rng, g: &Game, s: &Scn, links: &[Lk]) -> Vec<Att> {
    let mut out = vec![];
    for l in links {
        let a = attest(rng, s, l, &g.books[l], false);
        out.extend(a);
    }
    out
}

fn story(g: &Game, p: &Parts, what: &[&str]) -> Value {
    json!({"prover": what, "threshold": [g.cfg.justification_threshold_factor, g.cfg.justification_threshold_quotient], "lookahead": g.cfg.epoch_lookahead_limit.as_u64(),
        "trusted": p.st, "state_slot": g.w.state_slot, "slots_per_epoch": g.w.slots_per_epoch,
        "links": groups(&p.atts).iter().map(|l| json!({"link": l, "signed": g.signed(l).to_string(), "total": g.total(l.t.e).to_string(), "slack": g.slack(l.t.e).to_string()})).collect::<Vec<_>>(),
        "exits": p.patches.iter().map(|(e, x)| (e.to_string(), json!(x.exits))).collect::<serde_json::Map<_, _>>(),
        "validators": g.w.reg.iter().map(|v| json!([v.eff, v.slashed, v.elig, v.act, v.exit])).collect::<Vec<_>>()})
}

fn game<E: EthSpec>(m: &mut Monitor, rng: &mut Rng) {
    let mut cfg = if rng.bool() { z_core::DEFAULT_CONFIG.clone() } else { z_core::SEPOLIA_CONFIG.clone() };
    if rng.chance(1, 5) {
        cfg.justification_threshold_factor = rng.range(67, 95);
    }
    if rng.chance(1, 4) {
        cfg.epoch_lookahead_limit = Epoch::new(rng.range(5, 9));
    }
    let o = WOpt { n: (24, 70), pending: 12, exited: 10, max_gap: 2, ..WOpt::default() };
    let mut w = random_world::<E>(rng, &o);
    if rng.chance(1, 3) {
        for v in w.reg.iter_mut() {
            v.eff = 2048_000_000_000;
        }
    }
    let back = rng.below(3);
    let jb = Block::random(rng, w.st.j.e * w.slots_per_epoch - back);
    w.st.j.r = jb.root();
    w.blocks = vec![jb];
    w.seal();
    let mut g = Game { cfg, reg: w.projected(), w, books: Books::new() };
    // two branches from the justified checkpoint
    let j = g.w.st.j;
    let mut done: Vec<(Vec<Lk>, St)> = vec![];
    let mut other = (vec![], BTreeMap::new());
    let mut done_gap = None;
    for branch in 0..2 {
        let mut w = g.w.clone();
        let mut links = vec![];
        let mut at = j;
        let room = g.w.st.f.e + g.cfg.epoch_lookahead_limit.as_u64();
        if j.e + 3 <= room && rng.chance(4, 5) {
            let e = match done_gap {
                Some(e) if rng.bool() => e,
                _ => j.e + rng.range(2, (room - 1 - j.e).min(4)),
            };
            done_gap = Some(e);
            let b = Block::random(rng, e * w.slots_per_epoch);
            let t = Cp::new(e, b.root());
            w.blocks.push(b);
            links.push(Lk { s: at, t });
            at = t;
        }
        let b = Block::random(rng, (at.e + 1) * w.slots_per_epoch);
        links.push(Lk { s: at, t: Cp::new(at.e + 1, b.root()) });
        w.blocks.push(b);
        let weak = rng.idx(links.len() + 1);
        for (k, l) in links.iter().enumerate() {
            let who = g.signers(rng, l.t.e, k != weak);
            g.books.insert(*l, who);
            let i = ((l.t.e + Scn::empty::<E>(w.spec.clone(), g.cfg.clone()).ephv - 2) % Scn::empty::<E>(w.spec.clone(), g.cfg.clone()).ephv) as u32;
            w.patches.entry(l.t.e).or_default().mixes.insert(i, rng.bytes32());
        }
        let s = w.scenario::<E>(&g.cfg);
        w.atts = sign(rng, &g, &s, &links);
        let honest = w.parts(&BTreeSet::new());
        for round in 0..8 {
            let mut x = w.clone();
            let mut p = honest.clone();
            let mut what = vec![];
            if round > 0 {
                for _ in 0..*rng.pick(&[1, 1, 1, 2, 3]) {
                    what.push(cheat::<E>(rng, &g, &mut x, &mut p, &other, &links));
                }
            }
            let out = p.read::<E, _>(&g.w.spec, |r| run(&g.cfg, r));
            let got = match &out {
                Outcome::Ret(Ok(v)) => accepted(v),
                _ => None,
            };
            let all = groups(&p.atts);
            let backed = all.iter().all(|l| g.backed(l));
            m.case(&(g.w.fill, branch, round), round > 0);
            for k in &what {
                m.event(&format!("tried:{k}"));
            }
            m.event(match (got.is_some(), backed) {
                (true, true) => "accepted_backed",
                (false, true) => "refused_backed",
                (false, false) => "refused_unbacked",
                (true, false) => "accepted_unbacked",
            });
            let Some((st, _)) = got else { continue };
            if !m.check(backed, &format!("unbacked-{}", what.first().unwrap_or(&"honest")), "a step is accepted although a link of it was not signed by the required stake", || story(&g, &p, &what)) {
                return;
            }
            // and it is the step of these links
            let want = all.iter().try_fold(p.st, |s, l| s.apply(l));
            if !m.check(want == Some(st), "not-the-links", "an accepted step does not follow from the links that were signed", || json!({"got": st, "expected": want, "game": story(&g, &p, &what)})) {
                return;
            }
            if p.st == g.w.st {
                done.push((all, st));
            }
        }
        other = (w.atts, w.patches);
    }
    // conflicts only if enough of the stake signed both
    for (a, sa) in &done {
        for (b, sb) in &done {
            let on = |x: &Cp, l: &[Lk]| *x == j || l.iter().any(|l| l.t == *x);
            if on(&sa.f, b) || on(&sb.f, a) {
                continue;
            }
            m.event("conflict");
            let (la, lb) = (a.last().unwrap(), b.last().unwrap());
            let both: u128 = g.books[la].intersection(&g.books[lb]).filter(|i| !g.reg[**i].slashed).map(|i| g.reg[*i].eff as u128).sum();
            let union: u128 = g.reg.iter().filter(|v| v.active(la.t.e) || v.active(lb.t.e)).map(|v| v.eff as u128).sum();
            let (q, f) = (g.cfg.justification_threshold_quotient as u128, g.cfg.justification_threshold_factor as u128);
            let need = (g.total(la.t.e).saturating_sub(g.slack(la.t.e)) + g.total(lb.t.e).saturating_sub(g.slack(lb.t.e))) * f;
            m.check((both + union) * q >= need, "conflict-without-fault", "conflicting checkpoints are finalized although too little stake signed both branches", || {
                json!({"first": a, "second": b, "signed both": both.to_string(), "gvr": hex(&g.w.gvr)})
            });
        }
    }
}

pub fn c18() -> i32 {
    let mut m = Monitor::new("C18", 14, 600, "distinct (registry, two branches with their signers, what the prover tries) beyond presenting what was signed");
    m.require("accepted_backed", 200);
    m.require("refused_unbacked", 500);
    m.require("conflict", 5);
    for k in ["repeat", "aggregate-again", "claim-bits", "empty-signature", "claim-committees", "invent-exits", "other-mix", "other-registry", "own-keys", "omit-idle", "relabel", "regroup", "claim-source", "claim-target", "cross-branch", "claim-active", "other-domain", "other-source"] {
        m.require(&format!("tried:{k}"), 40);
    }
    m.assume("the stake of validators is their effective balance in the trusted state; an unproven exit may take out what twice the churn limits allow");
    let mut rng = m.rng("game");
    let mut i = 0;
    while m.go(i, 20, u64::MAX, 1.0) {
        i += 1;
        if i % 4 == 3 {
            game::<MainnetEthSpec>(&mut m, &mut rng);
        } else {
            game::<MinimalEthSpec>(&mut m, &mut rng);
        }
    }
    m.finish()
}
