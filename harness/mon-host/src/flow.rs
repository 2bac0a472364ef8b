//! H01-H04: from a simulated chain through the host's reader, the recording preflight and the guest.
use alloy_primitives::B256;
use chain_sim::serve::{Ask, Node};
use chain_sim::walk::{deserved, enough, support_of, walk, Want};
use chain_sim::{Hash, Knobs, Sim, EPHV, SPE};
use core_model::spec::FAR;
use core_model::ffg::{Cp, Lk, St};
use core_model::scn::{accepted, run, V};
use host::{HostInputReader, HostReaderError, PreflightInputReader};
use serde_json::{json, Value};
use ssz::Encode;
use std::collections::{BTreeMap, BTreeSet};
use support::{fingerprint, hex, observe, Monitor, Outcome, Rng};
use z_core::{Checkpoint, Config, Epoch, GuestInput, InputReader, MainnetEthSpec as E, DEFAULT_CONFIG, SEPOLIA_CONFIG};

type Host<'a> = HostInputReader<E, Node<'a>, Node<'a>>;

pub fn open<'a>(sim: &'a Sim, node: &Node<'a>, cp: Cp) -> Outcome<Result<Host<'a>, HostReaderError>> {
    observe(|| futures::executor::block_on(HostInputReader::<E, _, _>::new(sim.k.spec.clone(), node.clone(), node.clone(), cp.real())))
}

fn story(sim: &Sim, cp: &Cp) -> Value {
    let k = &sim.k;
    json!({"base": k.base, "epochs": k.epochs, "validators": k.n, "checkpoint": [cp.e, hex(&cp.r)], "participation": k.part, "late": k.late, "hold": k.hold,
        "missing": [k.miss, k.miss_start, k.miss_run], "events": [k.exits, k.slashings, k.consolidations, k.deposits, k.balance],
        "states": (k.base..k.base + k.epochs).map(|e| sim.cons(e).map(|s| format!("{}: justified {} finalized {}", e, s.j.e, s.f.e))).collect::<Vec<_>>(),
        "blocks": (k.base..k.base + k.epochs).map(|e| sim.blocks.range(e * SPE..(e + 1) * SPE).count()).collect::<Vec<_>>(),
        "starts_missing": (k.base..k.base + k.epochs).filter(|e| !sim.blocks.contains_key(&(e * SPE))).collect::<Vec<_>>()})
}
fn show<T>(o: &Outcome<Result<T, HostReaderError>>) -> String {
    match o {
        Outcome::Ret(Ok(_)) => "ok".into(),
        Outcome::Ret(Err(e)) => format!("error: {e}"),
        Outcome::Panic(p) => format!("panic: {p}"),
    }
}

/// groups of equal consecutive links, with the encodings of their attestations
fn groups(r: &Host<'_>) -> Vec<(Lk, Vec<Vec<u8>>)> {
    let mut v: Vec<(Lk, Vec<Vec<u8>>)> = vec![];
    for a in r.attestations().unwrap() {
        let l = Lk { s: Cp::of(a.data().source.into()), t: Cp::of(a.data().target.into()) };
        let b = enc(a);
        match v.last_mut() {
            Some((k, g)) if *k == l => g.push(b),
            _ => v.push((l, vec![b])),
        }
    }
    v
}
fn wire_groups(sim: &Sim, links: &[Lk], head: u64) -> Vec<(Lk, Vec<Vec<u8>>)> {
    links
        .iter()
        .map(|l| (*l, sim.included(l).into_iter().filter(|x| x.0 <= head).map(|x| ssz_rs::serialize(x.1).unwrap()).collect::<Vec<_>>()))
        .filter(|x| !x.1.is_empty())
        .collect()
}

// ------------------------------------------------------------------------------------------------ H01
pub fn h01() -> i32 {
    let mut m = Monitor::new("H01", 14, 240, "distinct (chain history, checkpoint, fault) whose walk has at least one link or must be refused");
    m.assume("the simulated chain follows the consensus specification's justification and finalization rules on one canonical branch");
    m.assume("ethereum-consensus and the beacon client are stand-ins; the host library is compiled from the repository");
    for (e, n) in [("followed", 25), ("two_links", 5), ("refused_invalid", 20), ("refused_short", 10), ("refused_step", 3), ("fault_reported", 30), ("old_block_reported", 5), ("link_skipping_epochs", 5)] {
        m.require(e, n);
    }
    let mut rng = m.rng("chains");
    let mut i = 0;
    while m.go(i, 12, m.scale(400, 20_000), 1.0) {
        i += 1;
        let k = if rng.chance(1, 3) { Knobs::eventful(&mut rng) } else { Knobs::random(&mut rng) };
        let sim = Sim::new(&mut rng, k);
        let mut cps = sim.finalized();
        let fin: BTreeSet<Cp> = cps.iter().copied().collect();
        for e in sim.k.base..sim.k.base + sim.k.epochs + 1 {
            let c = sim.checkpoint(e);
            if !fin.contains(&c) && rng.chance(1, 2) {
                cps.push(c);
            }
            match rng.below(6) {
                0 => cps.push(Cp::new(e, rng.bytes32())),
                1 => cps.push(Cp::new(e + 1, c.r)),
                2 => cps.push(Cp::new(e.saturating_sub(1), c.r)),
                _ => {}
            }
        }
        for cp in cps {
            if cp.e < sim.k.base {
                continue;
            }
            let head = if rng.chance(1, 4) { sim.head() - rng.below(4 * SPE) } else { sim.head() };
            one_h01(&mut m, &mut rng, &sim, cp, head);
            if m.violated() {
                break;
            }
        }
    }
    m.finish()
}

fn one_h01(m: &mut Monitor, rng: &mut Rng, sim: &Sim, cp: Cp, head: u64) {
    let node = Node::new(sim);
    *node.log.head.borrow_mut() = Some(head);
    let want = walk(sim, &cp, head);
    let got = open(sim, &node, cp);
    m.case(&(fingerprint(&(sim.gvr, cp)), head), true);
    let detail = |got: &Outcome<Result<Host<'_>, HostReaderError>>| json!({"chain": story(sim, &cp), "head": head, "expected": format!("{want:?}"), "got": show(got)});
    match (&want, &got) {
        (_, Outcome::Panic(_)) => m.violate("host-panics", "building the reader panics instead of reporting an error", detail(&got)),
        (Want::Go { start, links, .. }, Outcome::Ret(Ok(r))) => {
            m.event("followed");
            if links.len() > 1 {
                m.event("two_links");
            }
            if links.iter().any(|l| l.t.e - l.s.e > 1) {
                m.event("link_skipping_epochs");
            }
            let s = St::of(&r.consensus_state().unwrap());
            m.check(s == *start, "wrong-start", "the start state is not the first one in which the checkpoint is finalized", || {
                json!({"chain": story(sim, &cp), "expected": format!("{start:?}"), "got": format!("{s:?}")})
            });
            let seq: Vec<Lk> = groups(r).iter().map(|g| g.0).collect();
            let exp: Vec<Lk> = links.iter().copied().filter(|l| !sim.included(l).is_empty()).collect();
            m.check(seq == exp, "wrong-links", "the collected attestations are not grouped by the chain's links, in order", || {
                json!({"chain": story(sim, &cp), "expected": format!("{exp:?}"), "got": format!("{seq:?}")})
            });
            if m.wants_sample() {
                m.sample(|| json!({"chain": story(sim, &cp), "links": links.iter().map(|l| [l.s.e, l.t.e]).collect::<Vec<_>>()}));
            }
        }
        (Want::Go { .. }, Outcome::Ret(Err(_))) => m.violate("refuses-good", "a supported history from a finalized checkpoint is refused", detail(&got)),
        (_, Outcome::Ret(Ok(_))) => m.violate("accepts-bad", "a start that has to be refused is accepted", detail(&got)),
        (Want::Invalid, _) => m.event("refused_invalid"),
        (Want::Short, _) => m.event("refused_short"),
        (Want::Step, _) => m.event("refused_step"),
    }
    let Want::Go { links, .. } = &want else { return };
    // every query that fails must fail the whole
    let asks: Vec<Ask> = node.log.asks.borrow().clone();
    for _ in 0..3 {
        let a = rng.pick(&asks).clone();
        let bad = Node::new(sim);
        *bad.log.head.borrow_mut() = Some(head);
        bad.log.fail.borrow_mut().insert(a.clone());
        let got = open(sim, &bad, cp);
        let asked = bad.log.asks.borrow().contains(&a);
        if asked {
            m.event("fault_reported");
            m.check(matches!(got, Outcome::Ret(Err(_))), "fault-lost", "a failing query is not reported", || {
                json!({"chain": story(sim, &cp), "failing": format!("{a:?}"), "got": show(&got)})
            });
        }
    }
    // a block of another version where attestations for the links may be
    let lo = links.iter().map(|l| l.t.e).min().unwrap() * SPE + 1;
    let hi = ((links.iter().map(|l| l.t.e).max().unwrap() + 2) * SPE - 1).min(head);
    let there: Vec<u64> = sim.blocks.range(lo..=hi).map(|x| *x.0).collect();
    if !there.is_empty() {
        let s = *rng.pick(&there);
        let bad = Node::new(sim);
        *bad.log.head.borrow_mut() = Some(head);
        bad.log.old.borrow_mut().insert(s);
        let got = open(sim, &bad, cp);
        m.event("old_block_reported");
        m.check(matches!(got, Outcome::Ret(Err(_))), "old-block", "a block of an unsupported version is not reported", || {
            json!({"chain": story(sim, &cp), "slot": s, "range": [lo, hi], "got": show(&got)})
        });
    }
}

// ------------------------------------------------------------------------------------------------ H02
pub fn h02() -> i32 {
    let mut m = Monitor::new("H02", 14, 240, "distinct (chain history, checkpoint) with at least one included attestation for a required link");
    m.assume("the simulated chain includes attestations up to the end of the epoch after their target, at most 8 per block");
    for (e, n) in [("collected", 30), ("attestations", 1500), ("late_inclusions", 60), ("after_next_epoch_start", 60), ("last_allowed_slot", 2), ("included_twice", 10), ("other_links_seen", 20), ("reached_threshold", 15)] {
        m.require(e, n);
    }
    let mut rng = m.rng("chains");
    let mut i = 0;
    while m.go(i, 12, m.scale(400, 20_000), 1.0) {
        i += 1;
        let mut k = if rng.chance(1, 3) { Knobs::eventful(&mut rng) } else { Knobs::random(&mut rng) };
        k.late = *rng.pick(&[0, 5, 20, 50, 80]);
        let sim = Sim::new(&mut rng, k);
        for cp in sim.finalized() {
            let Want::Go { links, .. } = walk(&sim, &cp, sim.head()) else { continue };
            let node = Node::new(&sim);
            let got = open(&sim, &node, cp);
            let Outcome::Ret(Ok(r)) = &got else {
                m.event("not_opened");
                continue;
            };
            let exp = wire_groups(&sim, &links, sim.head());
            let act = groups(r);
            m.case(&fingerprint(&(sim.gvr, cp)), exp.iter().any(|g| !g.1.is_empty()));
            m.event("collected");
            for l in &links {
                let inc = sim.included(l);
                m.events_n("attestations", inc.len() as u64);
                m.events_n("late_inclusions", inc.iter().filter(|x| x.0 > x.1.data.slot + 1).count() as u64);
                m.events_n("after_next_epoch_start", inc.iter().filter(|x| x.0 > (l.t.e + 1) * SPE).count() as u64);
                m.events_n("last_allowed_slot", inc.iter().filter(|x| x.0 == (l.t.e + 2) * SPE - 1).count() as u64);
                let set: BTreeSet<Vec<u8>> = inc.iter().map(|x| ssz_rs::serialize(x.1).unwrap()).collect();
                m.events_n("included_twice", (inc.len() - set.len()) as u64);
            }
            let all: BTreeSet<Lk2> = sim.blocks.values().flat_map(|b| b.links.iter()).map(|l| Lk2(l.s, l.t)).collect();
            m.events_n("other_links_seen", (all.len() - links.len().min(all.len())) as u64);
            let sorted = |v: &[(Lk, Vec<Vec<u8>>)]| -> BTreeMap<Lk2, Vec<Vec<u8>>> {
                let mut o: BTreeMap<Lk2, Vec<Vec<u8>>> = BTreeMap::new();
                for (l, g) in v {
                    o.entry(Lk2(l.s, l.t)).or_default().extend(g.iter().cloned());
                }
                o.values_mut().for_each(|g| g.sort());
                o
            };
            let (a, b) = (sorted(&exp), sorted(&act));
            let count = |x: &BTreeMap<Lk2, Vec<Vec<u8>>>| x.iter().map(|(l, g)| format!("{}->{}: {}", l.0.e, l.1.e, g.len())).collect::<Vec<_>>();
            let missing: Vec<Value> = links
                .iter()
                .flat_map(|l| sim.included(l).into_iter().map(move |x| (l, x)))
                .filter(|(l, x)| !b.get(&Lk2(l.s, l.t)).is_some_and(|g| g.contains(&ssz_rs::serialize(x.1).unwrap())))
                .take(5)
                .map(|(l, x)| json!({"link": [l.s.e, l.t.e], "attestation_slot": x.1.data.slot, "included_in": x.0}))
                .collect();
            m.check(a == b, "collection-differs", "the collected attestations are not those included for the links", || {
                json!({"chain": story(&sim, &cp), "expected": count(&a), "got": count(&b), "missing": missing})
            });
            // and with them verification is decided by the chain's own support
            for cfg in [&DEFAULT_CONFIG, &SEPOLIA_CONFIG] {
                if m.violated() {
                    break;
                }
                let v = run(cfg, r);
                if deserved(&sim, cfg, &cp, &links) {
                    m.event("reached_threshold");
                    m.check(accepted(&v).is_some(), "supported-link-fails", "a link whose included attestations reach the threshold does not verify", || {
                        json!({"chain": story(&sim, &cp), "verdict": format!("{v:?}"), "factor": cfg.justification_threshold_factor, "links": format!("{links:?}"), "collected": count(&b),
                            "support": links.iter().map(|l| support_of(&sim, l, &sim.snaps[&(l.t.e * SPE)].reg)).collect::<Vec<_>>()})
                    });
                } else {
                    m.event("below_threshold");
                    m.check(accepted(&v).is_none(), "unsupported-link-passes", "a walk the chain does not support verifies", || {
                        json!({"chain": story(&sim, &cp), "verdict": format!("{v:?}"), "factor": cfg.justification_threshold_factor})
                    });
                }
            }
            if m.wants_sample() {
                m.sample(|| json!({"chain": story(&sim, &cp), "collected": count(&b)}));
            }
            if m.violated() {
                break;
            }
        }
    }
    m.finish()
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Lk2(Cp, Cp);

// ------------------------------------------------------------------------------------------------ H03
pub fn h03() -> i32 {
    let mut m = Monitor::new("H03", 20, 400, "distinct (chain history, checkpoint, configuration) the host's preflight verified");
    m.assume("the simulated chain follows the consensus specification; BLS is an ideal group with the same algebra");
    m.assume("effective balances and slashings after the trusted state are unknown to the guest by design: where they decide the threshold, a guest refusal is not counted");
    for (e, n) in [("verified_alike", 25), ("two_links", 6), ("with_exits", 6), ("with_activations", 3), ("boundary_block_missing", 6), ("fulu", 3), ("newly_slashed", 1), ("several_committees", 3)] {
        m.require(e, n);
    }
    let mut rng = m.rng("chains");
    let mut i = 0;
    while m.go(i, 10, m.scale(400, 20_000), 1.0) {
        i += 1;
        let mut k = if rng.chance(5, 6) { Knobs::eventful(&mut rng) } else { Knobs::random(&mut rng) };
        if i <= 3 || rng.chance(1, 12) {
            // every boundary block missing, one epoch left out, validators waiting to be activated
            k = Knobs::eventful(&mut rng);
            k.part = vec![990; k.epochs as usize];
            let x = rng.urange(4, k.epochs as usize - 3);
            k.part[x] = rng.below(300);
            k.miss = 0;
            k.miss_run = 0;
            k.miss_start = 100;
            k.waiting = 25;
            k.deposits = 20;
            k.balance = 0;
            k.slashings = 0;
        }
        if rng.chance(1, 4) {
            k.n = rng.urange(100, 200);
            k.spec.target_committee_size = 1;
        }
        let sim = Sim::new(&mut rng, k);
        for cp in sim.finalized() {
            let Want::Go { links, end, .. } = walk(&sim, &cp, sim.head()) else { continue };
            let cfg = if rng.chance(1, 3) { &SEPOLIA_CONFIG } else { &DEFAULT_CONFIG };
            one_h03(&mut m, &sim, cp, cfg, &links, end);
            if m.violated() {
                break;
            }
        }
    }
    m.finish()
}

fn one_h03(m: &mut Monitor, sim: &Sim, cp: Cp, cfg: &Config, links: &[Lk], end: St) {
    let node = Node::new(sim);
    let got = open(sim, &node, cp);
    let Outcome::Ret(Ok(r)) = &got else {
        m.event("not_opened");
        return;
    };
    let pre = PreflightInputReader::new(r, node.clone(), cp.real());
    let v = run(cfg, &pre);
    let Some(res) = accepted(&v) else {
        m.event("preflight_refused");
        m.check(!deserved(sim, cfg, &cp, links), "preflight-refuses", "the chain supports every link but the host's preflight fails", || {
            json!({"chain": story(sim, &cp), "verdict": format!("{v:?}")})
        });
        return;
    };
    m.case(&fingerprint(&(sim.gvr, cp, cfg.justification_threshold_factor)), true);
    let slot = sim.by_root.get(&end.f.r).copied().unwrap_or(u64::MAX);
    m.check(res == (end, slot), "host-state-differs", "the host's result is not the state the chain reached", || {
        json!({"chain": story(sim, &cp), "expected": format!("{end:?} slot {slot}"), "got": format!("{res:?}")})
    });
    let input = observe(|| pre.to_input());
    let Outcome::Ret(Ok(input)) = input else {
        let what = match input {
            Outcome::Ret(r) => format!("{:?}", r.err()),
            Outcome::Panic(p) => p,
        };
        m.violate("no-input", "preflight succeeded but no input is produced", json!({"chain": story(sim, &cp), "got": what}));
        return;
    };
    let bytes = bincode::serialize(&input).unwrap();
    let back = observe(|| bincode::deserialize::<GuestInput<E>>(&bytes).map_err(|e| e.to_string()));
    let Outcome::Ret(Ok(g)) = back else {
        m.violate("input-unreadable", "the produced input does not deserialize", json!({"chain": story(sim, &cp)}));
        return;
    };
    let trusted_slot = sim.by_root[&cp.r];
    let trusted = &sim.snaps[&trusted_slot].reg;
    let guest = observe(|| g.into_reader(sim.k.spec.clone()).map_err(|e| e.to_string()));
    let verdict = match guest {
        Outcome::Ret(Ok(gr)) => match run(cfg, &gr) {
            Outcome::Ret(Ok(x)) => Ok(x),
            Outcome::Ret(Err(e)) => Err(format!("verify error: {e}")),
            Outcome::Panic(p) => Err(format!("verify panic: {p}")),
        },
        Outcome::Ret(Err(e)) => Err(format!("reader error: {e}")),
        Outcome::Panic(p) => Err(format!("reader panic: {p}")),
    };
    let events = |m: &mut Monitor| {
        if links.len() > 1 {
            m.event("two_links");
        }
        let fresh = |f: &dyn Fn(&V, &V) -> bool| links.iter().any(|l| trusted.iter().zip(sim.snaps[&(l.t.e * SPE)].reg.iter()).any(|(a, b)| f(a, b)));
        if fresh(&|a, b| a.exit != b.exit) {
            m.event("with_exits");
        }
        if links.iter().any(|l| trusted.iter().zip(sim.snaps[&(l.t.e * SPE)].reg.iter()).any(|(a, b)| a.act > cp.e && b.act <= l.t.e)) {
            m.event("with_activations");
        }
        if fresh(&|a, b| a.slashed != b.slashed) {
            m.event("newly_slashed");
        }
        if fresh(&|a, b| a.eff != b.eff) {
            m.event("balances_drifted");
        }
        if trusted_slot < cp.e * SPE {
            m.event("boundary_block_missing");
        }
        if trusted_slot / SPE < cp.e {
            m.event(&format!("trusted_state_{}_epochs_back", cp.e - trusted_slot / SPE));
        }
        if sim.snaps[&(links[0].t.e * SPE)].fork_no >= 6 {
            m.event("fulu");
        }
        if sim.committees(links[0].t.e).per_slot > 1 {
            m.event("several_committees");
        }
    };
    match verdict {
        Ok(x) if x == res => {
            m.event("verified_alike");
            events(m);
            if m.wants_sample() {
                m.sample(|| json!({"chain": story(sim, &cp), "links": links.iter().map(|l| [l.s.e, l.t.e]).collect::<Vec<_>>(), "input_bytes": bytes.len()}));
            }
        }
        Ok(x) => m.violate("guest-differs", "guest and host results differ", json!({"chain": story(sim, &cp), "host": format!("{res:?}"), "guest": format!("{x:?}")})),
        Err(why) => {
            // drift: with the balances and slashings of the trusted state, the threshold is not met
            let drift = links.iter().any(|l| !enough(cfg, support_of(sim, l, trusted)));
            if drift && why.contains("Attesting balance not met") {
                m.event("drift_decides");
                return;
            }
            let key = classify(sim, links, trusted_slot);
            m.violate(key, "the host verified but the guest refuses", json!({"chain": story(sim, &cp), "guest": why, "links": links.iter().map(|l| [l.s.e, l.t.e]).collect::<Vec<_>>(), "trusted_slot": trusted_slot,
                "exits": links.iter().map(|l| trusted.iter().zip(sim.snaps[&(l.t.e * SPE)].reg.iter()).enumerate().filter(|(_, (a, b))| a.exit != b.exit).map(|(i, (_, b))| [i as u64, b.exit]).collect::<Vec<_>>()).collect::<Vec<_>>(),
                "activations": links.iter().map(|l| trusted.iter().zip(sim.snaps[&(l.t.e * SPE)].reg.iter()).enumerate().filter(|(_, (a, b))| a.act != b.act || a.elig != b.elig).map(|(i, (a, b))| json!([i, a.elig, b.elig, a.act, b.act])).collect::<Vec<_>>()).collect::<Vec<_>>(),
                "queue": [sim.snaps[&trusted_slot].ee, sim.snaps[&trusted_slot].ec]}));
        }
    }
}

/// the exact history a listed finding is about, or the general key
fn classify(sim: &Sim, links: &[Lk], trusted_slot: u64) -> &'static str {
    let ts = &sim.snaps[&trusted_slot];
    let justified = links[0].s.e;
    // activated on the chain by an epoch transition between the trusted state and the justified epoch,
    // because of a finalization the trusted state does not know of yet
    let unseen = links.iter().any(|l| {
        let reg = &sim.snaps[&(l.t.e * SPE)].reg;
        ts.reg.iter().zip(reg.iter()).any(|(a, b)| a.act == FAR && a.elig != FAR && a.elig > ts.fin.e && b.act <= l.t.e && b.act < justified + 5)
    });
    if unseen {
        "activation-by-unseen-finality"
    } else {
        "guest-refuses"
    }
}

// ------------------------------------------------------------------------------------------------ H04
pub fn h04() -> i32 {
    let mut m = Monitor::new("H04", 16, 240, "distinct (chain history, checkpoint, read sequence) with at least one later epoch read");
    m.assume("the simulated chain follows the consensus specification");
    for (e, n) in [("inputs", 20), ("randao_reads", 40), ("registry_reads", 40), ("slot_reads", 30), ("exits_patched", 10), ("epochs_patched", 30), ("unread_epochs", 20)] {
        m.require(e, n);
    }
    let mut rng = m.rng("chains");
    let mut i = 0;
    while m.go(i, 10, m.scale(400, 20_000), 1.0) {
        i += 1;
        let mut k = Knobs::eventful(&mut rng);
        k.exits = *rng.pick(&[0, 20, 60]);
        let sim = Sim::new(&mut rng, k);
        for cp in sim.finalized() {
            let Want::Go { .. } = walk(&sim, &cp, sim.head()) else { continue };
            if rng.chance(1, 2) {
                continue;
            }
            one_h04(&mut m, &mut rng, &sim, cp);
            if m.violated() {
                break;
            }
        }
    }
    m.finish()
}

fn one_h04(m: &mut Monitor, rng: &mut Rng, sim: &Sim, cp: Cp) {
    let node = Node::new(sim);
    let got = open(sim, &node, cp);
    let Outcome::Ret(Ok(r)) = &got else { return };
    let pre = PreflightInputReader::new(r, node.clone(), cp.real());
    let last = sim.k.base + sim.k.epochs - 1;
    let mut read_mix: BTreeMap<u64, BTreeMap<u32, Hash>> = BTreeMap::new();
    let mut read_reg: BTreeSet<u64> = BTreeSet::new();
    let mut read_slot: BTreeMap<Hash, u64> = BTreeMap::new();
    let blocks: Vec<u64> = sim.blocks.keys().copied().collect();
    let mut log = vec![];
    for _ in 0..rng.below(10) {
        let e = rng.range(cp.e, last);
        let st = &sim.snaps[&(e * SPE)];
        match rng.below(6) {
            0 | 1 => {
                log.push(format!("active_validators({e})"));
                let got: Vec<(usize, z_core::ValidatorInfo)> = pre.active_validators(Epoch::new(e)).unwrap().map(|(i, v)| (i, v.clone())).collect();
                let exp: Vec<(usize, z_core::ValidatorInfo)> = st.active(e).into_iter().map(|i| (i, st.reg[i].info())).collect();
                m.event("registry_reads");
                m.check(got == exp, "registry-read", "the active validators read are not the chain's", || json!({"chain": story(sim, &cp), "epoch": e, "got": got.len(), "expected": exp.len()}));
                read_reg.insert(e);
            }
            2 | 3 => {
                let idx = match rng.below(3) {
                    0 => rng.below(EPHV),
                    1 => (e + EPHV - 2) % EPHV,
                    _ => e % EPHV,
                } as u32;
                log.push(format!("randao_mix({e},{idx})"));
                let got = pre.randao_mix(Epoch::new(e), idx).unwrap();
                let exp = sim.mix(st, idx);
                m.event("randao_reads");
                m.check(got == Some(B256::from(exp)), "randao-read", "the RANDAO value read is not the chain's", || json!({"chain": story(sim, &cp), "epoch": e, "idx": idx}));
                read_mix.entry(e).or_default().insert(idx, exp);
            }
            4 => {
                let s = *rng.pick(&blocks);
                let root = sim.blocks[&s].root;
                log.push(format!("slot_for_block({s})"));
                let got = pre.slot_for_block(&B256::from(root)).unwrap();
                m.event("slot_reads");
                m.check(got == s, "slot-read", "the slot read for a block is not its slot", || json!({"chain": story(sim, &cp), "slot": s, "got": got}));
                read_slot.insert(root, s);
            }
            _ => {
                log.push(format!("fork({e})"));
                let f = pre.fork(Epoch::new(e)).unwrap();
                m.check((f.previous_version, f.current_version, f.epoch.as_u64()) == st.fork, "fork-read", "the fork read is not the chain's", || json!({"chain": story(sim, &cp), "epoch": e}));
                let g = pre.genesis_validators_root().unwrap();
                m.check(g.0 == sim.gvr, "gvr-read", "the genesis root read is not the chain's", || json!({"chain": story(sim, &cp)}));
            }
        }
    }
    // a read that fails leaves no trace
    if rng.chance(1, 3) {
        let _ = observe(|| pre.slot_for_block(&B256::from(rng.bytes32())).is_ok());
        log.push("slot_for_block(unknown)".into());
    }
    let input = match observe(|| pre.to_input()) {
        Outcome::Ret(Ok(i)) => i,
        o => {
            m.violate("no-input", "no input is produced after successful reads", json!({"chain": story(sim, &cp), "reads": log, "got": format!("{:?}", o.ret().map(|r| r.err()))}));
            return;
        }
    };
    m.event("inputs");
    m.case(&fingerprint(&(sim.gvr, cp, &log)), read_reg.iter().chain(read_mix.keys()).any(|e| *e > cp.e));
    let trusted_slot = sim.by_root[&cp.r];
    let trusted = &sim.snaps[&trusted_slot].reg;
    // patches, as epoch -> (mixes, exits); empty ones are as good as absent
    let mut exp: BTreeMap<u64, (BTreeMap<u32, Hash>, BTreeMap<usize, u64>)> = BTreeMap::new();
    for (e, mx) in &read_mix {
        exp.entry(*e).or_default().0 = mx.clone();
    }
    for e in read_reg.iter().filter(|e| **e != cp.e) {
        let st = &sim.snaps[&(e * SPE)];
        exp.entry(*e).or_default().1 = trusted.iter().zip(st.reg.iter()).enumerate().filter(|(_, (a, b))| a.exit != b.exit).map(|(i, (_, b))| (i, b.exit)).collect();
    }
    exp.retain(|_, p| !p.0.is_empty() || !p.1.is_empty());
    let mut act: BTreeMap<u64, (BTreeMap<u32, Hash>, BTreeMap<usize, u64>)> = input
        .patches
        .iter()
        .map(|(e, p)| (e.as_u64(), (p.randao_mixes.iter().map(|(i, m)| (*i, m.0)).collect(), p.validator_exits.iter().map(|(i, e)| (*i, e.as_u64())).collect())))
        .collect();
    act.retain(|_, p| !p.0.is_empty() || !p.1.is_empty());
    m.events_n("epochs_patched", exp.len() as u64);
    m.events_n("unread_epochs", (last - cp.e + 1) - exp.len() as u64);
    m.events_n("exits_patched", exp.values().map(|p| p.1.len() as u64).sum());
    let brief = |x: &BTreeMap<u64, (BTreeMap<u32, Hash>, BTreeMap<usize, u64>)>| x.iter().map(|(e, p)| json!({"epoch": e, "mixes": p.0.iter().map(|(i, h)| json!([i, hex(&h[..4])])).collect::<Vec<_>>(), "exits": p.1})).collect::<Vec<_>>();
    m.check(exp == act, "patches-differ", "the patches are not exactly what was read", || json!({"chain": story(sim, &cp), "reads": log, "expected": brief(&exp), "got": brief(&act)}));
    // slot proofs
    let mut proved: Vec<(Hash, Option<u64>)> = input
        .block_slot_proofs
        .iter()
        .map(|p| {
            let root = p.calculate_root().map(|r| r.into()).unwrap_or([0; 32]);
            let slot = p.values().next().filter(|(g, _)| *g == 8).map(|(_, v)| u64::from_le_bytes(v[..8].try_into().unwrap()));
            (root, slot)
        })
        .collect();
    proved.sort();
    let want: Vec<(Hash, Option<u64>)> = read_slot.iter().map(|(r, s)| (*r, Some(*s))).collect();
    m.check(proved == want, "slot-proofs-differ", "the slot proofs are not for exactly the blocks read", || json!({"chain": story(sim, &cp), "reads": log, "expected": want.len(), "got": proved.len()}));
    // the rest is passed on
    m.check(St::of(&input.consensus_state) == St::of(&r.consensus_state().unwrap()), "state-differs", "the input's consensus state is not the reader's", || json!({"chain": story(sim, &cp)}));
    let same = input.attestations.iter().map(|a| enc(a)).eq(r.attestations().unwrap().map(|a| enc(a)));
    m.check(same, "attestations-differ", "the input's attestations are not the reader's", || json!({"chain": story(sim, &cp)}));
    let keys: Vec<Vec<u8>> = trusted.iter().filter(|v| cp.e < v.exit).map(Sim::public_key).collect();
    let got: Vec<Vec<u8>> = input.public_keys.iter().map(|k| k.serialize().to_vec()).collect();
    m.check(keys == got, "keys-differ", "the input's public keys are not those of the validators that have not exited", || json!({"chain": story(sim, &cp), "expected": keys.len(), "got": got.len()}));
    if m.wants_sample() {
        m.sample(|| json!({"chain": story(sim, &cp), "reads": log, "patches": brief(&act)}));
    }
    let _ = Checkpoint::default();
}

fn enc(a: &z_core::Attestation<E>) -> Vec<u8> {
    a.as_electra().expect("an Electra attestation").as_ssz_bytes()
}
