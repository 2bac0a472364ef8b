//! C09-C15: guest inputs over authentic chains, honest and altered, against what an honest node knows.
#![allow(unused_must_use)]
use alloy_primitives::B256;
use beacon_types::EthSpec;
use core_model::ffg::Cp;
use core_model::guest::*;
use core_model::scn::{accepted, pk, real_att, run, sk, Att, Scn};
use core_model::spec::{self, FAR};
use core_model::ssz::{Hash, Raw};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use support::{hex, observe, Monitor, Outcome, Rng};
use z_core::{Epoch, GuestInput, InputReader, MainnetEthSpec, MinimalEthSpec};

fn each(m: &mut Monitor, stream: &str, min: u64, share: f64, o: &WOpt, f: impl Fn(&mut Monitor, &mut Rng, World, bool)) {
    let mut rng = m.rng(stream);
    let mut i = 0;
    while m.go(i, min, u64::MAX, share) {
        i += 1;
        if i % 4 == 3 {
            let w = random_world::<MainnetEthSpec>(&mut rng, o);
            f(m, &mut rng, w, true);
        } else {
            let w = random_world::<MinimalEthSpec>(&mut rng, o);
            f(m, &mut rng, w, false);
        }
    }
}
fn epochs(w: &World) -> Vec<u64> {
    let mut e: Vec<u64> = (w.st.f.e..=w.st.j.e + 8).collect();
    e.extend(w.patches.keys());
    e.sort();
    e.dedup();
    e
}
fn wj(w: &World) -> Value {
    json!({"state": w.st, "state_slot": w.state_slot, "slots_per_epoch": w.slots_per_epoch, "state_finalized": w.state_final, "earliest_exit": w.ee, "earliest_consolidation": w.ec,
        "validators": w.reg.iter().map(|v| json!([v.eff, v.slashed, v.elig, v.act, v.exit])).collect::<Vec<_>>(),
        "patches": w.patches.iter().map(|(e, p)| json!({"epoch": e, "exits": p.exits, "mixes": p.mixes.keys().collect::<Vec<_>>()})).collect::<Vec<_>>()})
}
fn look_any(p: &Parts, w: &World, mn: bool, spec: &beacon_types::ChainSpec) -> Outcome<Result<Seen, String>> {
    let es = epochs(w);
    if mn {
        p.read::<MainnetEthSpec, _>(spec, |r| look(r, &es))
    } else {
        p.read::<MinimalEthSpec, _>(spec, |r| look(r, &es))
    }
}
#[derive(PartialEq, Clone, Copy, Debug)]
enum Want {
    Accept,
    Reject,
    /// either, but an accepted input must report the authentic values
    Either,
}
/// Runs the input and judges: acceptance as wanted, and an accepted input reports exactly the authentic values.
fn judge(m: &mut Monitor, p: &Parts, w: &World, mn: bool, spec: &beacon_types::ChainSpec, want: Want, label: &str, fp: u64) {
    let got = look_any(p, w, mn, spec);
    m.case(&(label, fp, w.fill), want != Want::Accept || !w.patches.is_empty());
    m.event(match &got {
        Outcome::Ret(Ok(_)) => "accepted",
        Outcome::Ret(Err(_)) => "rejected_by_error",
        Outcome::Panic(_) => "rejected_by_abort",
    });
    let detail = |g: &str| json!({"alteration": label, "world": wj(w), "got": g});
    match &got {
        Outcome::Ret(Ok(seen)) => {
            if want == Want::Reject {
                m.violate(&format!("{label}/accepted"), "an input that is not bound to the authentic data was accepted", detail("accepted"));
                return;
            }
            let v = view(w, &epochs(w));
            if *seen != v {
                let diff = v.1.iter().find(|(e, x)| seen.1.get(e) != Some(x)).map(|(e, x)| {
                    let s = &seen.1[e];
                    let a: Vec<_> = x.iter().filter(|y| !s.contains(y)).map(|y| (y.0, y.1.eff, y.1.slashed, y.1.elig, y.1.act, y.1.exit)).collect();
                    let b: Vec<_> = s.iter().filter(|y| !x.contains(y)).map(|y| (y.0, y.1.eff, y.1.slashed, y.1.elig, y.1.act, y.1.exit)).collect();
                    format!("epoch {e}: missing {a:?}, reported instead {b:?}")
                });
                m.violate(&format!("{label}/reported"), "an accepted input reports something else than the authentic state", detail(&format!("{diff:?} gvr {}", hex(&seen.0))));
            }
        }
        _ => {
            if want == Want::Accept {
                m.violate(&format!("{label}/refused"), "an honest input was refused", detail(&format!("{:?}", got.clone().ret().map(|r| r.err()))));
            }
        }
    }
}

/// alters one proof; says whether this must lead to rejection
fn alter(rng: &mut Rng, r: &mut Raw) -> (Want, &'static str) {
    match rng.below(9) {
        0..=2 => {
            let i = rng.idx(r.data.len());
            r.data[i] ^= 1 << rng.below(8);
            (Want::Reject, "bit-of-data")
        }
        3 => {
            let i = rng.idx(r.mask.len());
            r.mask[i] ^= true;
            (Want::Reject, "value-mark")
        }
        4 => {
            let i = rng.idx(r.desc.len());
            r.desc[i] ^= true;
            (Want::Either, "shape-bit")
        }
        5 => {
            let n = r.data.len() / 32;
            let (a, b) = (rng.idx(n), rng.idx(n));
            let x: Vec<u8> = r.data[32 * a..32 * a + 32].to_vec();
            let y: Vec<u8> = r.data[32 * b..32 * b + 32].to_vec();
            r.data[32 * a..32 * a + 32].copy_from_slice(&y);
            r.data[32 * b..32 * b + 32].copy_from_slice(&x);
            (if x == y { Want::Either } else { Want::Reject }, "nodes-swapped")
        }
        6 => {
            // whole value replaced
            let n = r.data.len() / 32;
            let a = rng.idx(n);
            let v = rng.bytes32();
            r.data[32 * a..32 * a + 32].copy_from_slice(&v);
            (Want::Reject, "node-replaced")
        }
        7 => {
            let n = r.data.len();
            r.data.truncate(n - 32);
            (Want::Reject, "node-dropped")
        }
        _ => {
            let a = rng.idx(r.mask.len());
            let b = rng.idx(r.mask.len());
            let w = if r.mask[a] == r.mask[b] { Want::Either } else { Want::Reject };
            r.mask.swap(a, b);
            (w, "marks-swapped")
        }
    }
}

pub fn c09() -> i32 {
    let mut m = Monitor::new("C09", 9, 600, "distinct inputs with one proof, key, root or link between proofs altered or exchanged");
    m.require("accepted", 50);
    m.require("rejected_by_error", 100);
    m.require("rejected_by_abort", 100);
    m.assume("a malformed proof may abort the guest instead of returning an error: nothing is published either way");
    each(&mut m, "input", 40, 1.0, &WOpt::default(), |m, rng, w, mn| {
        let none = BTreeSet::new();
        let p = w.parts(&none);
        judge(m, &p, &w, mn, &w.spec, Want::Accept, "honest", 0);
        m.sample(|| wj(&w));
        // a second authentic world that shares the trusted epochs
        let mut o = w.clone();
        o.fill ^= 1;
        let k = rng.idx(o.reg.len());
        o.reg[k].eff += 1_000_000_000;
        o.seal();
        let q = o.parts(&none);
        for (label, f) in [
            ("foreign-block", (|p: &mut Parts, q: &Parts| p.block = q.block.clone()) as fn(&mut Parts, &Parts)),
            ("foreign-state", |p, q| p.state = q.state.clone()),
            ("foreign-validators", |p, q| p.validators = q.validators.clone()),
            ("foreign-state-and-validators", |p, q| {
                p.state = q.state.clone();
                p.validators = q.validators.clone();
            }),
            ("foreign-all", |p, q| {
                p.block = q.block.clone();
                p.state = q.state.clone();
                p.validators = q.validators.clone();
            }),
            ("foreign-block-and-state", |p, q| {
                p.block = q.block.clone();
                p.state = q.state.clone();
            }),
            ("state-as-block", |p, _| p.block = p.state.clone()),
            ("validators-as-state", |p, _| p.state = p.validators.clone()),
        ] {
            let mut x = p.clone();
            f(&mut x, &q);
            judge(m, &x, &w, mn, &w.spec, Want::Reject, label, 0);
        }
        // the trusted root
        let mut x = p.clone();
        x.st.f.r[rng.idx(32)] ^= 1 << rng.below(8);
        judge(m, &x, &w, mn, &w.spec, Want::Reject, "trusted-root", 0);
        let mut x = p.clone();
        std::mem::swap(&mut x.st.f.r, &mut x.st.j.r);
        judge(m, &x, &w, mn, &w.spec, Want::Reject, "justified-root", 0);
        // altered proofs
        for _ in 0..10 {
            let mut x = p.clone();
            let (want, l) = match rng.below(3) {
                0 => alter(rng, &mut x.block),
                1 => alter(rng, &mut x.state),
                _ => alter(rng, &mut x.validators),
            };
            judge(m, &x, &w, mn, &w.spec, want, l, rng.u64());
        }
        // authentic proofs that open other positions
        for _ in 0..4 {
            let mut x = p.clone();
            let mut g: BTreeSet<u64> = STATE_G.into();
            let drop = *rng.pick(&STATE_G);
            let all: Vec<u64> = (64..102).chain([268, 269, 270, 271, 168, 169]).collect();
            let add = *rng.pick(&all);
            match rng.below(3) {
                0 => {
                    g.remove(&drop);
                }
                1 => {
                    g.insert(add);
                }
                _ => {
                    g.remove(&drop);
                    g.insert(add);
                }
            }
            // no position below another
            let clash = g.iter().any(|a| g.iter().any(|b| a < b && (b >> 1 == *a || b >> 2 == *a)));
            if clash || g == STATE_G.into() {
                continue;
            }
            x.state = w.state_tree(w.list_tree().hash()).proof(&g);
            judge(m, &x, &w, mn, &w.spec, Want::Reject, "other-state-positions", rng.u64());
        }
        for g in [8u64, 9, 10, 12, 5] {
            let mut x = p.clone();
            x.block = w.block.tree().proof(&BTreeSet::from([g]));
            judge(m, &x, &w, mn, &w.spec, Want::Reject, "other-block-position", g);
            x.block = w.block.tree().proof(&BTreeSet::from([g, 11]));
            if g != 5 {
                judge(m, &x, &w, mn, &w.spec, Want::Reject, "more-block-positions", g);
            }
        }
        // a state of another fork than its slot prescribes
        let mut x = w.clone();
        match rng.below(4) {
            0 => x.fork.0[rng.idx(4)] ^= 1 << rng.below(8),
            1 => x.fork.1[rng.idx(4)] ^= 1 << rng.below(8),
            2 => x.fork.2 ^= 1 << rng.below(64),
            _ => {
                let no = spec::fork_no(&x.spec, x.state_slot / x.slots_per_epoch);
                x.fork = (x.fork.1, spec::version_no(&x.spec, (no + 1).min(7)), x.fork.2);
            }
        }
        x.seal();
        let y = x.parts(&none);
        judge(m, &y, &x, mn, &x.spec, Want::Reject, "fork-mismatch", rng.u64());
        // the verifier's own schedule differs
        let mut sp = w.spec.clone();
        let no = spec::fork_no(&sp, w.state_slot / w.slots_per_epoch);
        if no == 5 {
            sp.electra_fork_version[rng.idx(4)] ^= 4;
        } else {
            sp.fulu_fork_version[rng.idx(4)] ^= 4;
        }
        judge(m, &p, &w, mn, &sp, Want::Reject, "other-network", 0);
        // public keys
        if !p.keys.is_empty() {
            for label in ["key-replaced", "key-negated", "key-dropped", "keys-swapped", "key-extra"] {
                let mut x = p.clone();
                let i = rng.idx(x.keys.len());
                let want = match label {
                    "key-replaced" => {
                        x.keys[i] = pk(5000 + rng.below(100));
                        Want::Reject
                    }
                    "key-negated" => {
                        x.keys[i] = x.keys[i].standin_negate();
                        Want::Reject
                    }
                    "key-dropped" => {
                        x.keys.remove(i);
                        Want::Reject
                    }
                    "keys-swapped" => {
                        let j = rng.idx(x.keys.len());
                        x.keys.swap(i, j);
                        if x.keys == p.keys {
                            Want::Accept
                        } else {
                            Want::Reject
                        }
                    }
                    _ => {
                        x.keys.push(pk(77));
                        Want::Either
                    }
                };
                judge(m, &x, &w, mn, &w.spec, want, label, i as u64);
            }
        }
    });
    m.finish()
}

pub fn c10() -> i32 {
    let mut m = Monitor::new("C10", 9, 600, "distinct registries or choices of what to prove of them that omit, cut, exchange or misstate validators");
    m.require("accepted", 100);
    m.require("exit_at_trusted_epoch", 20);
    m.require("exit_after_trusted_epoch", 20);
    m.require("omitted", 50);
    m.require("field_exchanged", 200);
    m.require("balance_exchanged", 10);
    let o = WOpt { exited: 45, n: (1, 20), ..WOpt::default() };
    each(&mut m, "registry", 40, 1.0, &o, |m, rng, mut w, mn| {
        // exits right at the border
        for v in w.reg.iter_mut() {
            if rng.chance(1, 4) && v.act <= w.st.f.e {
                v.exit = (w.st.f.e + rng.below(3)).saturating_sub(1).max(1);
            }
        }
        w.seal();
        let none = BTreeSet::new();
        let n = w.reg.len();
        let p = w.parts(&none);
        judge(m, &p, &w, mn, &w.spec, Want::Accept, "honest", 0);
        m.sample(|| wj(&w));
        if w.reg.iter().any(|v| v.exit == w.st.f.e) {
            m.event("exit_at_trusted_epoch");
        }
        if w.reg.iter().any(|v| v.exit == w.st.f.e + 1) {
            m.event("exit_after_trusted_epoch");
        }
        // exited validators may be described in full
        let full: BTreeSet<usize> = (0..n).filter(|i| w.exited(*i) && rng.bool()).collect();
        judge(m, &w.parts(&full), &w, mn, &w.spec, Want::Accept, "exited-in-full", full.len() as u64);
        let list = w.list_tree();
        let honest = w.val_gindices(&none);
        let keys_for = |skip: &dyn Fn(usize) -> bool| -> Vec<bls::PublicKey> { (0..n).filter(|i| !w.exited(*i) && !skip(*i)).map(|i| pk(w.reg[i].key)).collect() };
        let with = |g: &BTreeSet<u64>, keys: Vec<bls::PublicKey>| {
            let mut x = p.clone();
            x.validators = list.proof(g);
            x.keys = keys;
            x
        };
        // one validator left out altogether
        let i = rng.idx(n);
        let mut g = honest.clone();
        for k in World::val_fields(i) {
            g.remove(&k);
        }
        judge(m, &with(&g, keys_for(&|k| k == i)), &w, mn, &w.spec, Want::Reject, "omitted", i as u64);
        m.event("omitted");
        judge(m, &with(&g, keys_for(&|_| false)), &w, mn, &w.spec, Want::Reject, "omitted-key-kept", i as u64);
        // the end left out
        let i = rng.idx(n);
        let mut g = honest.clone();
        for k in i..n {
            for k in World::val_fields(k) {
                g.remove(&k);
            }
        }
        judge(m, &with(&g, keys_for(&|k| k >= i)), &w, mn, &w.spec, Want::Reject, "truncated", i as u64);
        // no length
        let mut g = honest.clone();
        g.remove(&3);
        judge(m, &with(&g, keys_for(&|_| false)), &w, mn, &w.spec, Want::Reject, "no-length", 0);
        // something beyond the length: the next position, or another field
        let mut g = honest.clone();
        let far = rng.idx(3) as u64;
        g.insert((1 << 41) + n as u64 + far);
        judge(m, &with(&g, keys_for(&|_| false)), &w, mn, &w.spec, Want::Reject, "position-beyond", far);
        // a live validator shown by its exit epoch only
        let live: Vec<usize> = (0..n).filter(|i| !w.exited(*i)).collect();
        for _ in 0..2 {
            if live.is_empty() {
                break;
            }
            let i = *live.iter().min_by_key(|i| (w.reg[**i].exit, rng.below(9))).unwrap();
            let i = if rng.bool() { i } else { *rng.pick(&live) };
            let mut g = honest.clone();
            for k in World::val_fields(i) {
                if k != val_g(i as u64, 6) {
                    g.remove(&k);
                }
            }
            judge(m, &with(&g, keys_for(&|k| k == i)), &w, mn, &w.spec, Want::Reject, "live-as-exited", i as u64);
            // by another of its fields
            let mut g2 = honest.clone();
            let keep = World::val_fields(i)[rng.idx(6)];
            for k in World::val_fields(i) {
                if k != keep {
                    g2.remove(&k);
                }
            }
            judge(m, &with(&g2, keys_for(&|k| k == i)), &w, mn, &w.spec, Want::Reject, "live-by-other-field", i as u64);
            // one field missing or one more
            let mut g = honest.clone();
            g.remove(&World::val_fields(i)[rng.idx(7)]);
            judge(m, &with(&g, keys_for(&|_| false)), &w, mn, &w.spec, Want::Reject, "field-missing", i as u64);
            let mut g = honest.clone();
            g.insert(val_g(i as u64, if rng.bool() { 1 } else { 7 }));
            judge(m, &with(&g, keys_for(&|_| false)), &w, mn, &w.spec, Want::Reject, "field-more", i as u64);
        }
        // one of a validator's positions exchanged for another one of the same validator, open or inner
        for i in [Some(rng.idx(n)), (!live.is_empty()).then(|| *rng.pick(&live))].into_iter().flatten() {
            let shown: Vec<u64> = World::val_fields(i).into_iter().filter(|g| honest.contains(g)).collect();
            let mut swaps: Vec<(u64, u64)> = vec![];
            for x in &shown {
                for y in (0..8).map(|k| val_g(i as u64, k)).chain([2 * val_g(i as u64, 0), 2 * val_g(i as u64, 0) + 1]).chain((0..4).map(|k| val_g(i as u64, 2 * k) / 2)) {
                    let rest = || shown.iter().filter(|s| *s != x);
                    let below = |a: u64, b: u64| (0..3).any(|k| a >> k == b);
                    if y != *x && rest().all(|r| !below(*r, y) && !below(y, *r)) {
                        swaps.push((*x, y));
                    }
                }
            }
            rng.shuffle(&mut swaps);
            swaps.truncate(8);
            for (x, y) in swaps {
                let mut g = honest.clone();
                g.remove(&x);
                g.insert(y);
                m.event("field_exchanged");
                if x == val_g(i as u64, 2) && y == val_g(i as u64, 1) {
                    m.event("balance_exchanged");
                }
                judge(m, &with(&g, keys_for(&|_| false)), &w, mn, &w.spec, Want::Reject, "field-exchanged", x ^ y);
            }
        }
        // an authentic list whose recorded length differs from its content
        for d in [1i64, -1, 2, 1 << 33] {
            let mut x = w.clone();
            x.list_len = (n as i64 + d) as u64;
            x.seal();
            judge(m, &x.parts(&none), &x, mn, &x.spec, Want::Reject, "length", d as u64);
        }
        // validators exchanged or repeated in the list: another root, which the trusted one does not commit to
        let mut x = w.clone();
        let (a, b) = (rng.idx(n), rng.idx(n));
        x.reg.swap(a, b);
        if a != b {
            let mut y = p.clone();
            y.validators = x.list_tree().proof(&x.val_gindices(&none));
            y.keys = x.parts(&none).keys;
            judge(m, &y, &w, mn, &w.spec, Want::Reject, "exchanged", a as u64);
        }
        let mut x = w.clone();
        x.reg[a] = x.reg[b].clone();
        if a != b {
            let mut y = p.clone();
            y.validators = x.list_tree().proof(&x.val_gindices(&none));
            y.keys = x.parts(&none).keys;
            judge(m, &y, &w, mn, &w.spec, Want::Reject, "repeated", a as u64);
        }
        // marks moved between validators
        let mut y = p.clone();
        let (want, l) = alter(rng, &mut y.validators);
        judge(m, &y, &w, mn, &w.spec, want, l, rng.u64());
    });
    m.finish()
}

pub fn c11() -> i32 {
    let mut m = Monitor::new("C11", 9, 600, "distinct chains with validators that become eligible or active after the trusted state");
    m.require("accepted", 200);
    m.require("becomes_eligible", 200);
    m.require("becomes_active", 100);
    m.require("skipped_boundary", 100);
    m.assume("the finality each epoch would have seen: the trusted state's own until the justified epoch, then the trusted checkpoint");
    let o = WOpt { pending: 70, exited: 8, n: (1, 30), max_gap: 6, ..WOpt::default() };
    each(&mut m, "registry", 100, 1.0, &o, |m, rng, mut w, mn| {
        // every mixture of eligibility around the finalized epochs
        for v in w.reg.iter_mut() {
            if v.act == FAR && rng.bool() {
                v.elig = *rng.pick(&[FAR, w.state_final, w.state_final + 1, w.st.f.e, w.st.f.e + 1, w.st.f.e.saturating_sub(1), w.state_slot / w.slots_per_epoch + 1]);
                v.eff = *rng.pick(&[31_999_999_999, 32_000_000_000, 32_000_000_001, 1_000_000_000, 64_000_000_000]);
            }
        }
        w.seal();
        let after = w.projected();
        if w.reg.iter().zip(&after).any(|(a, b)| a.elig != b.elig) {
            m.event("becomes_eligible");
        }
        if w.reg.iter().zip(&after).any(|(a, b)| a.act != b.act) {
            m.event("becomes_active");
        }
        if w.state_slot / w.slots_per_epoch != w.st.f.e {
            m.event("skipped_boundary");
        }
        m.sample(|| wj(&w));
        m.case(&w.fill, true);
        judge(m, &w.parts(&BTreeSet::new()), &w, mn, &w.spec, Want::Accept, "projection", 0);
    });
    m.finish()
}

fn random_patches(rng: &mut Rng, w: &mut World, wild: bool) {
    let f = w.st.f.e;
    let reg = w.projected();
    let live: Vec<usize> = (0..reg.len()).filter(|i| !w.exited(*i) && reg[*i].exit == FAR).collect();
    let base = w.earliest_exit();
    let mut e = f + rng.below(3);
    let mut known: BTreeMap<usize, u64> = BTreeMap::new();
    let mut next = base;
    for _ in 0..rng.urange(1, 4) {
        let mut p = Patch::default();
        for _ in 0..rng.below(3) {
            p.mixes.insert(rng.below(65536) as u32, rng.bytes32());
        }
        // what is known stays known
        for (i, x) in &known {
            if !wild || rng.chance(9, 10) {
                p.exits.insert(*i, *x);
            }
        }
        for (i, v) in reg.iter().enumerate() {
            // an exit recorded in the state is repeated by honest patches at times
            if v.exit != FAR && !w.exited(i) && rng.chance(1, 3) {
                p.exits.insert(i, v.exit);
            }
        }
        for _ in 0..rng.below(4) {
            if live.is_empty() {
                break;
            }
            let i = *rng.pick(&live);
            if known.contains_key(&i) {
                continue;
            }
            // exits and consolidations queue apart, so a later one may be due before an earlier one
            if rng.chance(1, 6) {
                next = base + rng.below(3);
            }
            next += rng.below(2);
            p.exits.insert(i, next);
            known.insert(i, next);
        }
        w.patches.insert(e, p);
        e += if rng.chance(1, 3) { 2 } else { 1 };
    }
    if wild {
        let ks: Vec<u64> = w.patches.keys().copied().collect();
        let k = *rng.pick(&ks);
        let any = rng.idx(reg.len());
        let p = w.patches.get_mut(&k).unwrap();
        match rng.below(9) {
            0 => {
                p.exits.insert(any, base.saturating_sub(rng.below(3)));
            }
            1 => {
                p.exits.insert(reg.len() + rng.idx(3), base + 1);
            }
            2 => {
                // an already exiting validator moved
                let i = *reg.iter().enumerate().filter(|x| x.1.exit != FAR).map(|x| x.0).collect::<Vec<_>>().first().unwrap_or(&any);
                p.exits.insert(i, base + rng.below(3));
            }
            3 => {
                if let Some(x) = p.exits.values_mut().next() {
                    *x += 1;
                }
            }
            4 => {
                if let Some(x) = p.exits.values_mut().last() {
                    *x = x.saturating_sub(1);
                }
            }
            5 => {
                p.exits.insert(any, FAR);
            }
            6 => {
                let p = p.clone();
                w.patches.insert(f - 1, p);
            }
            7 => {
                // everybody leaves at once
                let x = base + rng.below(3);
                for i in &live {
                    p.exits.entry(*i).or_insert(x);
                }
            }
            _ => {
                let q = p.clone();
                w.patches.insert(k + 1 + rng.below(3), q);
            }
        }
    }
}

pub fn c12() -> i32 {
    let mut m = Monitor::new("C12", 9, 600, "distinct sets of patched exits");
    m.require("accepted", 200);
    for e in ["exit-too-early", "exit-changed", "unknown-validator", "over-churn", "patched-epoch-before-trusted", "budget_met_exactly", "gap_between_patches", "later_patch_earlier_exit", "exit_from_skipped_boundary", "budget_over_two_patches"] {
        m.require(e, 30);
    }
    let o = WOpt { n: (2, 24), exited: 25, pending: 8, ..WOpt::default() };
    let none = BTreeSet::new();
    each(&mut m, "exits", 100, 0.75, &o, |m, rng, mut w, mn| {
        for v in w.reg.iter_mut() {
            if rng.chance(1, 4) {
                v.eff = rng.range(16, 120) * 1_000_000_000;
            }
        }
        w.seal();
        for _ in 0..6 {
            w.patches.clear();
            let wild = rng.chance(3, 4);
            random_patches(rng, &mut w, wild);
            let ks: Vec<u64> = w.patches.keys().copied().collect();
            if ks.windows(2).any(|k| k[1] > k[0] + 1) {
                m.event("gap_between_patches");
            }
            let want = match w.patches_ok(&none) {
                Ok(()) => Want::Accept,
                Err(e) => {
                    m.event(e);
                    Want::Reject
                }
            };
            if want == Want::Accept {
                let reg = w.projected();
                let mut high = 0;
                let mut done: BTreeSet<usize> = BTreeSet::new();
                for p in w.patches.values() {
                    let fresh: Vec<(usize, u64)> = p.exits.iter().filter(|(i, x)| **x != FAR && reg[**i].exit == FAR && !done.contains(i)).map(|(i, x)| (*i, *x)).collect();
                    if fresh.iter().any(|x| x.1 < high) {
                        m.event("later_patch_earlier_exit");
                    }
                    if w.state_slot / w.slots_per_epoch < w.st.f.e && fresh.iter().any(|x| x.1 < w.st.f.e + 1 + w.spec.max_seed_lookahead.as_u64()) {
                        m.event("exit_from_skipped_boundary");
                    }
                    for (i, x) in fresh {
                        high = high.max(x);
                        done.insert(i);
                    }
                }
            }
            m.sample(|| wj(&w));
            judge(m, &w.parts(&none), &w, mn, &w.spec, want, "exits", rng.u64());
        }
    });
    // the budget, filled exactly and passed by one unit
    each(&mut m, "budget", 60, 1.0, &WOpt { n: (14, 30), exited: 10, pending: 0, skipped: true, max_gap: 2, at: None, equal: false }, |m, rng, mut w, mn| {
        for v in w.reg.iter_mut() {
            v.eff = rng.range(16, 64) * 1_000_000_000;
        }
        w.seal();
        w.patches.clear();
        let reg = w.projected();
        let f = w.st.f.e;
        let base = w.earliest_exit();
        let mut live: Vec<usize> = (0..reg.len()).filter(|i| reg[*i].exit == FAR && reg[*i].active(f)).collect();
        rng.shuffle(&mut live);
        let total: u64 = (0..reg.len()).filter(|i| !w.exited(*i) && reg[*i].active(f)).map(|i| reg[i].eff).sum();
        let inc = w.spec.effective_balance_increment;
        let mut churn = w.spec.min_per_epoch_churn_limit_electra.max(total / w.spec.churn_limit_quotient);
        churn -= churn % inc;
        let ahead = rng.below(3);
        let budget = 2 * churn * (1 + ahead);
        // choose leavers below the budget, the last one fills it
        let mut sum = 0;
        let mut p = Patch::default();
        let mut last = None;
        for i in &live {
            let left = budget - sum;
            if reg[*i].eff >= left || left - reg[*i].eff < 1_000_000_000 {
                last = Some((*i, left));
                break;
            }
            sum += reg[*i].eff;
            p.exits.insert(*i, base + ahead);
        }
        let Some((i, left)) = last else { return };
        if left > 64_000_000_000 {
            return;
        }
        p.exits.insert(i, base + ahead);
        // (a tiny change of the total does not move the churn limit unless it is quotient-bound)
        for d in [0u64, 1] {
            let mut x = w.clone();
            x.reg[i].eff = left + d;
            x.patches.insert(f + rng.below(3), p.clone());
            x.seal();
            let want = match x.patches_ok(&none) {
                Ok(()) => Want::Accept,
                Err(e) => {
                    m.event(e);
                    Want::Reject
                }
            };
            if want == Want::Accept && d == 0 {
                m.event("budget_met_exactly");
            }
            judge(m, &x.parts(&none), &x, mn, &x.spec, want, "budget", d);
            // spread over two epochs it is one budget all the same
            let k = *x.patches.keys().next().unwrap();
            if p.exits.len() > 1 {
                let mut y = x.clone();
                let cut = rng.urange(1, p.exits.len() - 1);
                let mut q = Patch::default();
                q.exits = p.exits.iter().take(cut).map(|x| (*x.0, *x.1)).collect();
                y.patches.clear();
                y.patches.insert(k, q);
                y.patches.insert(k + rng.range(1, 2), p.clone());
                m.event("budget_over_two_patches");
                judge(m, &y.parts(&none), &y, mn, &y.spec, want, "budget-split", d);
            }
            // repeated in the next epoch it is not charged again
            let mut y = x.clone();
            let k = *y.patches.keys().next().unwrap();
            y.patches.insert(k + 1, p.clone());
            judge(m, &y.parts(&none), &y, mn, &y.spec, want, "budget-repeated", d);
            let mut y = x.clone();
            y.patches.insert(k + 2, p.clone());
            judge(m, &y.parts(&none), &y, mn, &y.spec, want, "budget-repeated-after-gap", d);
        }
    });
    m.finish()
}

pub fn c13() -> i32 {
    let mut m = Monitor::new("C13", 9, 600, "distinct patched inputs looked at epoch by epoch");
    m.require("accepted", 200);
    m.require("exit_effective", 100);
    m.require("mix_reads", 1000);
    let o = WOpt { n: (2, 20), exited: 20, pending: 30, ..WOpt::default() };
    let none = BTreeSet::new();
    each(&mut m, "patches", 60, 0.8, &o, |m, rng, mut w, mn| {
        w.ee = 0;
        w.seal();
        for _ in 0..4 {
            w.patches.clear();
            random_patches(rng, &mut w, false);
            // patches for later epochs, where the exits bite
            let tail: Vec<Patch> = w.patches.values().cloned().collect();
            let x = tail.iter().flat_map(|p| p.exits.values()).max().copied().unwrap_or(0);
            let mut far = tail.last().cloned().unwrap_or_default();
            if x > w.st.f.e && x < FAR {
                far.mixes = BTreeMap::from([(rng.below(9) as u32, rng.bytes32())]);
                for e in [x - 1, x, x + 1] {
                    w.patches.entry(e).or_insert(far.clone());
                }
            }
            if w.patches_ok(&none).is_err() {
                continue;
            }
            let es = epochs(&w);
            let reg = w.projected();
            if w.patches.iter().any(|(e, p)| p.exits.iter().any(|(i, x)| reg[*i].active(*e) && x <= e)) {
                m.event("exit_effective");
            }
            m.sample(|| wj(&w));
            let p = w.parts(&none);
            judge(m, &p, &w, mn, &w.spec, Want::Accept, "active-sets", rng.u64());
            // randao values: each patched one at its epoch and index, nothing else
            let mut probes: Vec<(u64, u32)> = vec![];
            for (e, q) in &w.patches {
                for i in q.mixes.keys() {
                    for d in 0..3 {
                        probes.push(((*e + d).saturating_sub(1), *i));
                        probes.push((*e, (*i + d as u32).saturating_sub(1)));
                    }
                }
            }
            for e in &es {
                probes.push((*e, rng.below(65536) as u32));
            }
            let read = |p: &Parts| {
                let f = |get: &dyn Fn(Epoch, u32) -> Option<B256>| probes.iter().map(|(e, i)| get(Epoch::new(*e), *i).map(|b| b.0)).collect::<Vec<Option<Hash>>>();
                if mn {
                    p.read::<MainnetEthSpec, _>(&w.spec, |r| f(&|e, i| r.randao_mix(e, i).unwrap()))
                } else {
                    p.read::<MinimalEthSpec, _>(&w.spec, |r| f(&|e, i| r.randao_mix(e, i).unwrap()))
                }
            };
            if let Outcome::Ret(Ok(got)) = read(&p) {
                for ((e, i), g) in probes.iter().zip(got) {
                    let want = w.patches.get(e).and_then(|q| q.mixes.get(i)).copied();
                    m.event("mix_reads");
                    m.check(g == want, "randao", "a RANDAO value was returned for another epoch or index than it was patched for", || {
                        json!({"epoch": e, "index": i, "got": g.map(|x| hex(&x)), "expected": want.map(|x| hex(&x)), "world": wj(&w)})
                    });
                }
            } else {
                m.violate("randao/refused", "an honest patched input was refused", wj(&w));
            }
        }
    });
    // the patch alone: exhaustive over small epochs
    for act in 0..4u64 {
        for exit in [0u64, 1, 2, 3, 4, FAR] {
            for px in [None, Some(0u64), Some(1), Some(2), Some(3), Some(5), Some(FAR)] {
                for e in 0..6u64 {
                    for own in [true, false] {
                        let v = core_model::scn::V { key: 1, eff: 1, slashed: false, elig: 0, act, exit };
                        let mut p = Patch::default();
                        if let Some(x) = px {
                            p.exits.insert(if own { 7 } else { 8 }, x);
                        }
                        let rp = real_patches(&BTreeMap::from([(e, p)])).into_values().next().unwrap();
                        let got = observe(|| rp.is_active_validator(&7, &v.info(), Epoch::new(e)));
                        let want = v.active(e) && (!own || px.is_none_or(|x| e < x));
                        m.case(&(act, exit, px, e, own), true);
                        m.check(got == Outcome::Ret(want), "patch", "a patch does not remove exactly its validator from its exit epoch on", || {
                            json!({"activation": act, "exit": exit, "patched": px, "epoch": e, "own": own, "got": format!("{got:?}")})
                        });
                    }
                }
            }
        }
    }
    m.finish()
}

fn verify_parts<E: EthSpec>(p: &Parts, s: &Scn) -> Outcome<Result<core_model::scn::Verdict, String>> {
    p.read::<E, _>(&s.spec, |r| run(&s.cfg, r))
}

fn c14_one<E: EthSpec>(m: &mut Monitor, rng: &mut Rng) {
    let cfg = z_core::Config { epoch_lookahead_limit: Epoch::new(9), ..z_core::DEFAULT_CONFIG.clone() };
    let (w, s) = finalizing::<E>(rng, &WOpt { n: (10, 40), pending: 5, exited: 5, ..WOpt::default() }, &cfg, 1000);
    let none = BTreeSet::new();
    let p = w.parts(&none);
    let Ok((st, slot)) = s.expect() else {
        m.event("not_finalizing");
        return;
    };
    m.sample(|| json!({"world": wj(&w), "slot": slot}));
    let fin = w.blocks.iter().position(|b| b.root() == st.f.r).unwrap();
    let try_it = |m: &mut Monitor, label: &str, p: Parts, must: Option<bool>| {
        let got = verify_parts::<E>(&p, &s);
        let acc = match &got {
            Outcome::Ret(Ok(v)) => accepted(v),
            _ => None,
        };
        m.case(&(label, w.fill), label != "honest");
        m.event(if acc.is_some() { "verified" } else { "refused" });
        m.event(label);
        let detail = || json!({"alteration": label, "world": wj(&w), "got": format!("{got:?}"), "expected_slot": slot});
        if let Some((g, sl)) = acc {
            m.check(sl == slot && g == st, &format!("{label}/slot"), "the reported slot is not that of the finalized block", detail);
            m.check(must != Some(false), &format!("{label}/accepted"), "verification succeeded without a proof of the finalized block's slot", detail);
        } else {
            m.check(must != Some(true), &format!("{label}/refused"), "verification failed although the slot was proven", detail);
        }
    };
    try_it(m, "honest", p.clone(), Some(true));
    let mut x = p.clone();
    x.slots.remove(fin);
    try_it(m, "missing", x.clone(), Some(false));
    x.slots.push(Block::random(rng, slot).tree().proof(&BTreeSet::from([8])));
    try_it(m, "foreign-block", x, Some(false));
    // another field of the right block
    for g in [9u64, 10, 11, 12, 4, 5] {
        let mut x = p.clone();
        x.slots[fin] = w.blocks[fin].tree().proof(&BTreeSet::from([g]));
        try_it(m, "other-field", x.clone(), Some(false));
        // in addition to an honest one
        x.slots.push(p.slots[fin].clone());
        try_it(m, "other-field-too", x, None);
    }
    // slot among other values
    let mut x = p.clone();
    x.slots[fin] = w.blocks[fin].tree().proof(&BTreeSet::from([8, 9 + rng.below(4)]));
    try_it(m, "more-fields", x, None);
    // altered
    for _ in 0..6 {
        let mut x = p.clone();
        let (_, _) = alter(rng, &mut x.slots[fin]);
        try_it(m, "altered", x.clone(), None);
        // with the honest proof before or after it
        if rng.bool() {
            x.slots.push(p.slots[fin].clone());
        } else {
            x.slots.insert(0, p.slots[fin].clone());
        }
        try_it(m, "altered-too", x, None);
    }
    // the slot value itself changed
    let mut x = p.clone();
    let k = x.slots[fin].mask.iter().position(|b| *b).unwrap();
    x.slots[fin].data[32 * k + rng.idx(8)] ^= 1 << rng.below(8);
    try_it(m, "slot-altered", x, Some(false));
    // more proofs, other order, repetitions
    let mut x = p.clone();
    for _ in 0..3 {
        let sl = rng.below(1 << 40);
        x.slots.push(Block::random(rng, sl).tree().proof(&BTreeSet::from([8])));
    }
    x.slots.push(p.slots[fin].clone());
    rng.shuffle(&mut x.slots);
    try_it(m, "among-others", x, Some(true));
}

pub fn c14(m: &mut Monitor) {
    m.require("honest", 50);
    m.require("slot-altered", 50);
    m.require("verified", 50);
    let mut rng = m.rng("slots");
    let mut i = 0;
    while m.go(i, 40, u64::MAX, 1.0) {
        i += 1;
        if i % 5 == 4 {
            c14_one::<MainnetEthSpec>(m, &mut rng);
        } else {
            c14_one::<MinimalEthSpec>(m, &mut rng);
        }
    }
}

fn arb_parts<E: EthSpec>(rng: &mut Rng) -> Parts {
    let mut w = random_world::<E>(rng, &WOpt { n: (1, 12), ..WOpt::default() });
    let wild = rng.bool();
    random_patches(rng, &mut w, wild);
    let mut p = w.parts(&BTreeSet::new());
    for _ in 0..rng.below(3) {
        p.slots.push(Block::random(rng, 9).tree().proof(&BTreeSet::from([8])));
    }
    if rng.chance(1, 5) {
        p.keys.clear();
    }
    if rng.chance(1, 5) {
        p.patches.clear();
    }
    if rng.chance(1, 4) {
        let q = p.patches.entry(u64::MAX).or_default();
        q.mixes.insert(u32::MAX, rng.bytes32());
        q.exits.insert(usize::MAX, u64::MAX);
        q.exits.insert(0, 0);
    }
    let s = w.scenario::<E>(&z_core::DEFAULT_CONFIG);
    for _ in 0..rng.below(5) {
        let data = spec::Data { slot: rng.u64() >> rng.below(64), index: rng.below(3), bbr: rng.bytes32(), source: p.st.j, target: Cp::new(rng.u64(), rng.bytes32()) };
        let mut committees = vec![false; s.max_committees];
        committees.iter_mut().for_each(|b| *b = rng.bool());
        let n = rng.idx(140);
        let sig = s.sign(&data, [rng.idx(s.vals.len())]);
        let sig = if rng.chance(1, 6) { bls::AggregateSignature::empty() } else { sig };
        let base = rng.chance(1, 4);
        p.atts.push(Att { data, committees, bits: (0..n).map(|_| rng.bool()).collect(), sig, base });
    }
    if rng.chance(1, 8) {
        p.st = core_model::ffg::St { j: Cp::new(0, [0; 32]), f: Cp::new(0, [0; 32]) };
    }
    p
}

fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    hay.windows(needle.len()).position(|w| w == needle)
}

fn c15_one<E: EthSpec>(m: &mut Monitor, rng: &mut Rng, all_cuts: bool) {
    let p = arb_parts::<E>(rng);
    let fp = rng.u64();
    m.case(&fp, !p.keys.is_empty() || !p.patches.is_empty() || !p.atts.is_empty());
    if !p.keys.is_empty() {
        m.event("with_keys");
    }
    if p.patches.values().any(|q| !q.exits.is_empty() && !q.mixes.is_empty()) {
        m.event("with_patches");
    }
    if p.atts.iter().any(|a| a.base) {
        m.event("with_legacy_attestation");
    }
    let detail = json!({"keys": p.keys.len(), "attestations": p.atts.len(), "patches": p.patches.len(), "slot_proofs": p.slots.len(), "state": p.st});
    m.sample(|| detail.clone());
    let r = observe(|| {
        p.with::<E, _>(|input| {
            let mut why = None;
            let mut bytes_b = vec![];
            for codec in ["bincode", "postcard"] {
                let enc = |i: &GuestInput<E>| -> Vec<u8> {
                    if codec == "bincode" {
                        bincode::serialize(i).unwrap()
                    } else {
                        postcard::to_stdvec(i).unwrap()
                    }
                };
                let bytes = enc(&input);
                let de: Result<GuestInput<E>, String> =
                    if codec == "bincode" { bincode::deserialize(&bytes).map_err(|e| e.to_string()) } else { postcard::from_bytes(&bytes).map_err(|e| e.to_string()) };
                match de {
                    Err(e) => why = Some(format!("{codec}: does not deserialize: {e}")),
                    Ok(d) => {
                        if d != input {
                            why = Some(format!("{codec}: deserialized input differs"));
                        }
                        // field by field, not only by the derived equality
                        if d.public_keys.iter().map(|k| k.serialize()).collect::<Vec<_>>() != p.keys.iter().map(|k| k.serialize()).collect::<Vec<_>>()
                            || d.patches != real_patches(&p.patches)
                            || core_model::ffg::St::of(&d.consensus_state) != p.st
                            || d.attestations != p.atts.iter().map(real_att::<E>).collect::<Vec<_>>()
                            || d.block_slot_proofs.len() != p.slots.len()
                        {
                            why = Some(format!("{codec}: a field changed"));
                        }
                        if enc(&d) != bytes {
                            why = Some(format!("{codec}: serializes to other bytes"));
                        }
                    }
                }
                if codec == "bincode" {
                    bytes_b = bytes;
                }
            }
            (why, bytes_b)
        })
    });
    let Outcome::Ret(Some((why, bytes))) = r else {
        m.violate("roundtrip", "serializing crashed", json!({"input": detail, "got": format!("{r:?}")}));
        return;
    };
    m.event("roundtrips");
    m.check(why.is_none(), "roundtrip", "an input does not survive serialization", || json!({"input": detail, "why": why}));
    let decodes = |b: &[u8]| observe(|| bincode::deserialize::<GuestInput<E>>(b).is_ok());
    // cut off
    let cuts: Vec<usize> = if all_cuts { (0..bytes.len()).collect() } else { (0..20).map(|_| rng.idx(bytes.len())).chain([bytes.len() - 1]).collect() };
    for c in cuts {
        let d = decodes(&bytes[..c]);
        m.event("truncated");
        m.check(d == Outcome::Ret(false), "truncated", "a truncated input was not refused with an error", || json!({"input": detail, "cut": c, "of": bytes.len(), "got": format!("{d:?}")}));
    }
    // keys that are no keys
    for k in &p.keys {
        let raw = k.serialize_uncompressed();
        if let Some(at) = find(&bytes, &raw) {
            let mut b = bytes.clone();
            match rng.below(4) {
                0 => b[at + rng.idx(96)] ^= 1 << rng.below(8),
                1 => b[at..at + 96].fill(0),
                2 => {
                    b[at..at + 96].fill(0);
                    b[at] = 0x40;
                }
                _ => {
                    let junk = rng.bytes(96);
                    b[at..at + 96].copy_from_slice(&junk);
                }
            }
            let d = decodes(&b);
            m.event("bad_key");
            m.check(d == Outcome::Ret(false), "bad-key", "an invalid public key was not refused", || json!({"input": detail, "bytes": hex(&b[at..at + 96]), "got": format!("{d:?}")}));
        }
    }
    for a in &p.atts {
        use ssz::Encode;
        let raw = beacon_types::attestation::AttestationRefOnDisk::<E>::from(real_att::<E>(a).to_ref()).as_ssz_bytes();
        if let Some(at) = find(&bytes, &raw) {
            let mut b = bytes.clone();
            match rng.below(3) {
                0 => b[at] = 2 + rng.below(200) as u8,
                1 => b[at + 1 + rng.idx(4)] ^= 0x80,
                _ => {
                    // the last byte of the aggregation bits loses its delimiter
                    *b.get_mut(at + raw.len() - 1).unwrap() = 0;
                }
            }
            let d = decodes(&b);
            m.event("bad_attestation");
            m.check(d == Outcome::Ret(false), "bad-attestation", "an invalid attestation was not refused", || json!({"input": detail, "got": format!("{d:?}")}));
        }
    }
}

pub fn c15() -> i32 {
    let mut m = Monitor::new("C15", 9, 600, "distinct inputs with keys, patches or attestations");
    for e in ["with_keys", "with_patches", "with_legacy_attestation", "roundtrips", "truncated", "bad_key", "bad_attestation"] {
        m.require(e, 20);
    }
    let mut rng = m.rng("inputs");
    let mut i = 0;
    while m.go(i, 60, u64::MAX, 1.0) {
        i += 1;
        let cuts = i <= 3;
        if i % 3 == 0 {
            c15_one::<MainnetEthSpec>(&mut m, &mut rng, cuts);
        } else {
            c15_one::<MinimalEthSpec>(&mut m, &mut rng, cuts);
        }
    }
    let _ = sk(0);
    m.finish()
}
