//! What following the chain from a checkpoint has to give.
use crate::*;
use z_core::Config;

/// what the property says about a start at this checkpoint
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Want {
    Go { start: St, links: Vec<Lk>, end: St },
    /// checkpoint never finalized, or skipped
    Invalid,
    /// the chain does not reach far enough
    Short,
    /// a step that is not a supported transition
    Step,
}

pub fn walk(sim: &Sim, cp: &Cp, head: u64) -> Want {
    let at = |e: u64| (e * SPE <= head).then(|| sim.cons(e)).flatten();
    let mut e = cp.e + 1;
    let start = loop {
        let Some(s) = at(e) else { return Want::Short };
        if s.f == *cp {
            break s;
        }
        if s.f.e >= cp.e {
            return Want::Invalid;
        }
        e += 1;
    };
    let mut links = vec![];
    let mut prev = start;
    loop {
        e += 1;
        let Some(cur) = at(e) else { return Want::Short };
        if cur != prev {
            let l = Lk { s: prev.j, t: cur.j };
            if prev.apply(&l) != Some(cur) {
                return Want::Step;
            }
            links.push(l);
        }
        if cur.f != start.f {
            return Want::Go { start, links, end: cur };
        }
        prev = cur;
    }
}

/// balance voting for the link according to the chain itself, and the total
pub fn support_of(sim: &Sim, l: &Lk, reg: &[V]) -> (u64, u64) {
    support_at(sim, l, reg, u64::MAX)
}
/// ... counting what blocks up to this slot include
pub fn support_at(sim: &Sim, l: &Lk, reg: &[V], head: u64) -> (u64, u64) {
    let e = l.t.e;
    let coms = sim.committees(e);
    let mut who = BTreeSet::new();
    for (_, a) in sim.included(l).into_iter().filter(|x| x.0 <= head) {
        let rows = &coms.by_slot[(a.data.slot % SPE) as usize];
        let mut off = 0;
        for (ci, row) in rows.iter().enumerate() {
            if !a.committee_bits[ci] {
                continue;
            }
            for (bi, v) in row.iter().enumerate() {
                if a.aggregation_bits[off + bi] {
                    who.insert(*v);
                }
            }
            off += row.len();
        }
    }
    let act: BTreeSet<usize> = sim.snaps[&(e * SPE)].active(e).into_iter().collect();
    let b = who.iter().filter(|i| act.contains(i) && !reg[**i].slashed).map(|i| reg[*i].eff).sum::<u64>();
    let t = act.iter().filter_map(|i| reg.get(*i)).map(|v| v.eff).sum::<u64>();
    (b.max(1_000_000_000), t.max(1_000_000_000))
}
pub fn enough(cfg: &Config, (b, t): (u64, u64)) -> bool {
    b as u128 * cfg.justification_threshold_quotient as u128 >= t as u128 * cfg.justification_threshold_factor as u128
}
/// would a verifier that knows the chain accept this walk?
pub fn deserved(sim: &Sim, cfg: &Config, cp: &Cp, links: &[Lk]) -> bool {
    deserved_at(sim, cfg, cp, links, u64::MAX)
}
/// ... one that knows it up to this slot
pub fn deserved_at(sim: &Sim, cfg: &Config, cp: &Cp, links: &[Lk], head: u64) -> bool {
    // with nobody active the balance floor would count as support
    links.iter().all(|l| {
        sim.included(l).iter().any(|x| x.0 <= head)
            && l.t.e - cp.e <= cfg.epoch_lookahead_limit.as_u64()
            && enough(cfg, support_at(sim, l, &sim.snaps[&(l.t.e * SPE)].reg, head))
    })
}
