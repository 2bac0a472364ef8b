//! C06: committees, seeds and the partition they form, against the specification's per-index shuffling.
//! The cache is compiled from the working tree's own file, so that arbitrary shuffling inputs reach it.
#![allow(unused_must_use, dead_code)]
extern crate alloc;
pub use z_core::{ensure, CommitteeIndex, Config, Epoch, InputReader, Slot, ValidatorIndex};
#[path = "/repo/core/src/committee_cache.rs"]
pub mod committee_cache;

use alloy_primitives::B256;
use beacon_types::EthSpec;
use committee_cache::{CommitteeCache, ShuffleData};
use core_model::ffg::{Cp, Lk, St};
use core_model::scn::{accepted, random_spec, run_scn, Att, Reader, Scn, V};
use core_model::spec::{self, Data, FAR};
use serde_json::json;
use std::collections::BTreeMap;
use support::{observe, Monitor, Outcome, Rng};
use z_core::{MainnetEthSpec, MinimalEthSpec};

fn cache<E: EthSpec>(m: &mut Monitor, rng: &mut Rng) {
    let sp = E::default_spec();
    let slots = E::slots_per_epoch();
    let n = match rng.below(6) {
        0 => rng.urange(1, 3),
        1 => rng.urange(1, 40),
        2 => rng.urange(250, 262),
        3 => rng.urange(500, 1500),
        _ => rng.urange(40, 300),
    };
    // sparse, sorted
    let mut indices: Vec<usize> = vec![];
    let mut at = 0usize;
    let gap = if rng.bool() { 0 } else { rng.range(1, 6) };
    for _ in 0..n {
        at += rng.below(gap + 1) as usize;
        indices.push(at);
        at += 1;
    }
    let per = match rng.below(4) {
        0 => 1,
        1 => rng.urange(1, 6),
        2 => rng.urange(1, 64),
        _ => spec::committees_per_slot(n, slots, sp.target_committee_size, sp.max_committees_per_slot),
    };
    let epoch = match rng.below(4) {
        0 => rng.below(3),
        1 => u64::MAX / slots - 1 - rng.below(3),
        _ => rng.below(500_000),
    };
    let seed = rng.bytes32();
    let want = spec::committees(&indices, &seed, sp.shuffle_round_count, slots, per);
    m.case(&(n, per, epoch, seed), n > 1);
    m.sample(|| json!({"validators": n, "committees_per_slot": per, "epoch": epoch}));
    let got = observe(|| {
        CommitteeCache::<E>::initialized(&sp, ShuffleData { seed: B256::from(seed), indices: indices.clone(), committees_per_slot: per }, Epoch::new(epoch))
    });
    let what = json!({"validators": indices.len(), "per_slot": per, "epoch": epoch, "seed": support::hex(&seed)});
    let c = match got {
        Outcome::Ret(Ok(c)) => c,
        o => {
            m.violate("cache/refused", "no committees for a valid validator set", json!({"input": what, "got": format!("{:?}", o.ret().map(|r| r.err()))}));
            return;
        }
    };
    let flat: Vec<usize> = want.by_slot.iter().flatten().flatten().copied().collect();
    m.check(c.shuffling() == flat, "cache/shuffling", "the shuffled list is not the specified one", || what.clone());
    m.check(
        c.active_validator_count() == n && c.get_committee_count_per_slot() == per && c.epoch_committee_count() == per * slots as usize,
        "cache/counts",
        "reported counts differ from the partition",
        || what.clone(),
    );
    m.check(c.is_initialized_at(Epoch::new(epoch)) && !c.is_initialized_at(Epoch::new(epoch.wrapping_add(1))), "cache/epoch", "the cache names another epoch", || what.clone());
    let mut seen = BTreeMap::new();
    for s in 0..slots {
        let slot = Slot::new(epoch * slots + s);
        let all = observe(|| c.get_beacon_committees_at_slot(slot).map(|v| v.iter().map(|x| x.to_vec()).collect::<Vec<_>>()));
        m.check(all == Outcome::Ret(Ok(want.by_slot[s as usize].clone())), "cache/slot", "the committees of a slot differ from the specified ones", || what.clone());
        for k in 0..per {
            let got = observe(|| c.get_beacon_committee(slot, k).map(|x| x.to_vec()));
            m.check(got == Outcome::Ret(Ok(want.by_slot[s as usize][k].clone())), "cache/committee", "a committee differs from the specified one", || {
                json!({"input": what, "slot": s, "committee": k, "got": format!("{got:?}")})
            });
            m.event(if want.by_slot[s as usize][k].is_empty() { "empty_committee" } else { "committee" });
            if let Outcome::Ret(Ok(v)) = got {
                for i in v {
                    *seen.entry(i).or_insert(0u32) += 1;
                }
            }
        }
        for k in [per, per + 1, per + rng.idx(1000), usize::MAX] {
            let got = observe(|| c.get_beacon_committee(slot, k).map(|x| x.to_vec()));
            m.check(!matches!(got, Outcome::Ret(Ok(_))), "cache/out-of-range", "a committee beyond the count was served", || json!({"input": what, "slot": s, "committee": k}));
            m.event("refused");
        }
    }
    m.check(seen.len() == n && seen.values().all(|k| *k == 1) && indices.iter().all(|i| seen.contains_key(i)), "cache/partition", "an active validator is not in exactly one committee", || what.clone());
    for i in 0..at + 3 {
        let want = flat.iter().position(|x| *x == i);
        m.check(c.shuffled_position(i) == want, "cache/position", "a reported position differs from the partition", || json!({"input": what, "validator": i}));
        m.event(if want.is_some() { "position" } else { "no_position" });
        if i > 400 {
            break;
        }
    }
    for d in [1u64, 2, rng.range(1, 1000)] {
        for e in [epoch.checked_sub(d), epoch.checked_add(d)].into_iter().flatten() {
            let Some(slot) = e.checked_mul(slots).map(|s| Slot::new(s | rng.below(slots))) else { continue };
            let got = observe(|| c.get_beacon_committee(slot, rng.idx(per)).map(|x| x.to_vec()));
            let all = observe(|| c.get_beacon_committees_at_slot(slot).map(|x| x.len()));
            m.check(!matches!(got, Outcome::Ret(Ok(_))) && !matches!(all, Outcome::Ret(Ok(_))), "cache/other-epoch", "committees served for another epoch", || json!({"input": what, "queried": e}));
            m.event("refused");
        }
    }
    if rng.chance(1, 8) {
        let none = observe(|| CommitteeCache::<E>::initialized(&sp, ShuffleData { seed: B256::from(seed), indices: vec![], committees_per_slot: per }, Epoch::new(epoch)).map(|_| ()));
        m.check(!matches!(none, Outcome::Ret(Ok(()))), "cache/empty", "committees for no validators", || what.clone());
        let zero = observe(|| CommitteeCache::<E>::initialized(&sp, ShuffleData { seed: B256::from(seed), indices, committees_per_slot: 0 }, Epoch::new(epoch)).map(|_| ()));
        m.check(!matches!(zero, Outcome::Ret(Ok(()))), "cache/zero", "zero committees per slot accepted", || what.clone());
        let d = CommitteeCache::<E>::default();
        let got = observe(|| d.get_beacon_committee(Slot::new(0), 0).map(|x| x.to_vec()));
        let all = observe(|| d.get_beacon_committees_at_slot(Slot::new(0)).map(|x| x.len()));
        m.check(!matches!(got, Outcome::Ret(Ok(_))) && !matches!(all, Outcome::Ret(Ok(_))), "cache/uninitialized", "an uninitialized cache served committees", || json!(null));
    }
}

/// seeds through the reader interface
fn seeds<E: EthSpec>(m: &mut Monitor, rng: &mut Rng) {
    let mut s = Scn::empty::<E>(E::default_spec(), z_core::DEFAULT_CONFIG.clone());
    let e = match rng.below(4) {
        0 => rng.below(4),
        1 => s.ephv * rng.range(1, 4) + rng.below(4),
        _ => rng.below(500_000),
    };
    // two epochs earlier, around the ring
    let idx = ((e as i128 - 2).rem_euclid(s.ephv as i128)) as u32;
    for k in 0..s.ephv.min(70) as u32 {
        for i in [k, (idx + k + s.ephv as u32 - 35) % s.ephv as u32] {
            s.mixes.insert((e, i), rng.bytes32());
        }
    }
    let mix = s.mixes[&(e, idx)];
    let dt: [u8; 4] = if rng.bool() { [1, 0, 0, 0] } else { rng.bytes(4).try_into().unwrap() };
    let want = spec::sha(&[&dt, &e.to_le_bytes(), &mix]);
    let r = Reader::<E>::new(&s);
    let got = observe(|| r.get_seed(Epoch::new(e), dt.into()).map(|x| x.0).map_err(|e| e.to_string()));
    m.case(&("seed", e, dt, mix), true);
    m.event("seed");
    m.check(got == Outcome::Ret(Ok(want)), "seed", "the seed is not that of the domain, the epoch and the mix of two epochs earlier", || json!({"epoch": e, "domain": dt, "got": format!("{got:?}")}));
}

/// Which validator does verification hold each bit of each committee to belong to? One validator outweighs all the
/// others; an attestation with a single bit set justifies exactly if that bit is its own.
fn verifier<E: EthSpec>(m: &mut Monitor, rng: &mut Rng, probes: usize, big: bool) {
    let f = match rng.below(3) {
        0 => 0,
        1 => rng.range(64, 70),
        _ => rng.range(1, 400_000),
    };
    let sp = random_spec(rng, E::default_spec(), f, false);
    let mut s = Scn::empty::<E>(sp, z_core::DEFAULT_CONFIG.clone());
    s.gvr = rng.bytes32();
    let n = match rng.below(if big { 1 } else { 3 }) {
        // up to the most committees there can be, and beyond
        0 if big => {
            s.spec.target_committee_size = 1;
            let most = s.slots_per_epoch as usize * s.max_committees;
            if s.max_committees > 4 { rng.urange(most / 4, most + 200) } else { rng.urange(most / 2, most * 4) }
        }
        0 => rng.urange(3, 30),
        _ => rng.urange(64, 260),
    };
    let e = f + 2;
    s.vals = (0..n)
        .map(|i| {
            let mut v = V { key: i as u64, eff: 32_000_000_000, slashed: false, elig: 0, act: 0, exit: FAR };
            match rng.below(10) {
                0 => v.act = e - 1 + rng.below(3),
                1 => v.exit = e - 1 + rng.below(3),
                2 => v.act = FAR,
                _ => {}
            }
            v
        })
        .collect();
    let j = Cp::new(f + 1, rng.bytes32());
    s.start = St { j, f: Cp::new(f, rng.bytes32()) };
    let link = Lk { s: j, t: Cp::new(e, rng.bytes32()) };
    s.slots.insert(j.r, j.e * s.slots_per_epoch);
    let i = s.mix_index(e);
    s.mixes.insert((e, i), rng.bytes32());
    let Some(c) = s.committees(e) else { return };
    let mut at = vec![];
    for (sl, cs) in c.by_slot.iter().enumerate() {
        for (k, ms) in cs.iter().enumerate() {
            for (b, v) in ms.iter().enumerate() {
                at.push((sl, k, b, ms.len(), *v));
            }
        }
    }
    rng.shuffle(&mut at);
    let active = s.active(e);
    m.event(if c.per_slot == s.max_committees { "most_committees" } else if c.per_slot > 4 { "many_committees" } else { "few_committees" });
    for (sl, k, b, len, v) in at.into_iter().take(probes) {
        let data = Data { slot: e * s.slots_per_epoch + sl as u64, index: 0, bbr: rng.bytes32(), source: link.s, target: link.t };
        let mut committees = vec![false; s.max_committees];
        committees[k] = true;
        let mut bits = vec![false; len];
        bits[b] = true;
        for who in [v, *rng.pick(&active)] {
            let mut t = s.clone();
            t.vals[who].eff = 1_000_000_000_000_000;
            let sig = t.sign(&data, [who]);
            t.atts = vec![Att { data, committees: committees.clone(), bits: bits.clone(), sig, base: false }];
            let got = run_scn::<E>(&t);
            m.case(&("verify", data.bbr, who), true);
            let ok = accepted(&got).is_some();
            let detail = || json!({"epoch": e, "slot": sl, "committee": k, "bit": b, "committee_size": len, "validator": who, "specified": v, "validators": n, "active": active.len(), "got": format!("{got:?}")});
            m.event(if who == v { "seat_confirmed" } else { "seat_denied" });
            m.check(ok == (who == v), if who == v { "verify/seat" } else { "verify/other" }, "verification seats another validator at this committee position", detail);
        }
    }
    // one committee more than there are in that slot
    let mut committees = vec![false; s.max_committees];
    if c.per_slot < s.max_committees {
        committees[c.per_slot] = true;
        for len in [0usize, 1, c.by_slot[0][0].len()] {
            let mut t = s.clone();
            let who = *rng.pick(&active);
            t.vals[who].eff = 1_000_000_000_000_000;
            let data = Data { slot: e * s.slots_per_epoch, index: 0, bbr: rng.bytes32(), source: link.s, target: link.t };
            t.atts = vec![Att { data, committees: committees.clone(), bits: vec![true; len], sig: t.sign(&data, [who]), base: false }];
            m.check(accepted(&run_scn::<E>(&t)).is_none(), "verify/out-of-range", "an attestation of a committee that does not exist counts", || json!({"epoch": e, "committee": c.per_slot}));
            m.event("refused");
        }
    }
}

fn c06() -> i32 {
    let mut m = Monitor::new("C06", 10, 600, "distinct shuffling inputs, seeds and committee seats probed through verification");
    m.require("committee", 1000);
    m.require("seat_confirmed", 300);
    m.require("seat_denied", 200);
    m.require("seed", 200);
    m.require("refused", 500);
    m.require("position", 1000);
    m.require("most_committees", 2);
    m.require("many_committees", 2);
    let mut rng = m.rng("cache");
    let mut i = 0;
    while m.go(i, 30, u64::MAX, 0.5) {
        i += 1;
        if i % 4 == 0 {
            cache::<MainnetEthSpec>(&mut m, &mut rng)
        } else {
            cache::<MinimalEthSpec>(&mut m, &mut rng)
        }
    }
    let mut rng = m.rng("seed");
    let mut i = 0;
    while m.go(i, 300, u64::MAX, 0.55) {
        i += 1;
        if i % 2 == 0 {
            seeds::<MainnetEthSpec>(&mut m, &mut rng)
        } else {
            seeds::<MinimalEthSpec>(&mut m, &mut rng)
        }
    }
    let mut rng = m.rng("verify");
    let mut i = 0;
    while m.go(i, 8, u64::MAX, 1.0) {
        i += 1;
        match i % 8 {
            0 => verifier::<MainnetEthSpec>(&mut m, &mut rng, 40, false),
            4 => verifier::<MainnetEthSpec>(&mut m, &mut rng, 12, true),
            5 => verifier::<MinimalEthSpec>(&mut m, &mut rng, 40, true),
            _ => verifier::<MinimalEthSpec>(&mut m, &mut rng, 60, false),
        }
    }
    m.finish()
}

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let code = match id.as_str() {
        "C06" => c06(),
        _ => 2,
    };
    std::process::exit(code);
}
