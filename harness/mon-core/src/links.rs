#![allow(unused_must_use)]
//! C03-C05, C07, C08, C14: the real verifier against the reference verdict on scenarios with targeted alterations.
use beacon_types::EthSpec;
use bls::AggregateSignature;
use core_model::ffg::{Cp, Lk};
use core_model::scn::*;
use core_model::spec;
use serde_json::json;
use std::collections::BTreeSet;
use support::{Monitor, Outcome, Rng};
use z_core::{Config, Epoch, MainnetEthSpec, MinimalEthSpec, VerifyError};

/// Runs the scenario and compares with the reference. Returns (expected, observed).
fn differ<E: EthSpec>(m: &mut Monitor, s: &Scn, label: &str, nontrivial: bool) -> (Result<(core_model::ffg::St, u64), Why>, Verdict) {
    let want = s.expect();
    let got = run_scn::<E>(s);
    judge(m, s, label, nontrivial, want, got)
}
fn judge(
    m: &mut Monitor,
    s: &Scn,
    label: &str,
    nontrivial: bool,
    want: Result<(core_model::ffg::St, u64), Why>,
    got: Verdict,
) -> (Result<(core_model::ffg::St, u64), Why>, Verdict) {
    m.case(&(label, s.start, s.atts.len(), format!("{:?}", s.atts.first().map(|a| a.data.bbr)), s.gvr), nontrivial);
    m.event(&match &want {
        Ok(_) => "accepted".to_string(),
        Err(w) => format!("rejected_{w:?}"),
    });
    let detail = || json!({"alteration": label, "scenario": s.json(), "expected": format!("{want:?}"), "got": format!("{got:?}")});
    match (&want, accepted(&got)) {
        (Ok(w), Some(g)) => {
            m.check(*w == g, &format!("{label}/result"), "verification returned another state or slot than the attestations justify", detail);
        }
        (Ok(_), None) => {
            m.violate(&format!("{label}/refused"), "verification refused what it must accept", detail());
        }
        (Err(_), Some(_)) => {
            m.violate(&format!("{label}/accepted"), "verification accepted what it must refuse", detail());
        }
        (Err(_), None) => {}
    }
    (want, got)
}

/// runs `f` on scenarios of both presets, mostly the small one
fn each(m: &mut Monitor, stream: &str, min: u64, share: f64, opt: &Opt, f: impl Fn(&mut Monitor, &mut Rng, Scn, bool)) {
    let mut rng = m.rng(stream);
    let mut i = 0;
    while m.go(i, min, u64::MAX, share) {
        i += 1;
        let mut o = opt.clone();
        if i % 7 == 3 {
            // 32 slots: needs more validators for a quorum of non-empty committees
            o.n = if i % 56 == 3 { (200, 400) } else { (40, 150) };
            let s = random_scn::<MainnetEthSpec>(&mut rng, &o);
            let (n, t) = (s.vals.len(), s.spec.target_committee_size);
            if n >= 64 * t {
                m.event("mainnet_slots_of_several_committees");
            }
            f(m, &mut rng, s, true);
        } else {
            let s = random_scn::<MinimalEthSpec>(&mut rng, &o);
            f(m, &mut rng, s, false);
        }
    }
}
fn d(m: &mut Monitor, s: &Scn, mainnet: bool, label: &str, nontrivial: bool) -> (Result<(core_model::ffg::St, u64), Why>, Verdict) {
    if mainnet {
        differ::<MainnetEthSpec>(m, s, label, nontrivial)
    } else {
        differ::<MinimalEthSpec>(m, s, label, nontrivial)
    }
}
/// everybody takes part, nobody is slashed: only the property's own dimension decides
fn full() -> Opt {
    Opt { part: 100, slashed_pct: 0, ..Opt::default() }
}
fn link_of(a: &Att) -> Lk {
    Lk { s: a.data.source, t: a.data.target }
}
/// the scenario with its attestations replaced by full participation in the given links
fn with_links(rng: &mut Rng, s: &Scn, links: &[Lk]) -> Scn {
    let mut t = s.clone();
    t.atts.clear();
    for l in links {
        let i = t.mix_index(l.t.e);
        let mix = rng.bytes32();
        t.mixes.entry((l.t.e, i)).or_insert(mix);
    }
    for l in links {
        let who: BTreeSet<usize> = t.active(l.t.e).into_iter().collect();
        let a = attest(rng, &t, l, &who, false);
        t.atts.extend(a);
    }
    for l in links {
        t.slots.entry(l.s.r).or_insert(l.s.e * t.slots_per_epoch);
    }
    t
}

pub fn c03() -> i32 {
    let mut m = Monitor::new("C03", 9, 600, "distinct batches of attestations other than plain honest ones");
    for e in ["accepted", "rejected_Continues", "rejected_Transition", "rejected_NotFinal"] {
        m.require(e, 30);
    }
    m.require("regrouped", 20);
    let opt = Opt { max_justify: 3, lookahead: Some(9), n: (8, 40), ..full() };
    each(&mut m, "chains", 60, 1.0, &opt, |m, rng, s, mn| {
        d(m, &s, mn, "honest", false);
        let links: Vec<Lk> = {
            let mut v: Vec<Lk> = vec![];
            for a in &s.atts {
                if v.last() != Some(&link_of(a)) {
                    v.push(link_of(a));
                }
            }
            v
        };
        if links.is_empty() {
            return;
        }
        let last = *links.last().unwrap();
        m.sample(|| s.json());
        // an empty batch
        let mut t = s.clone();
        t.atts.clear();
        d(m, &t, mn, "empty", true);
        // stop before finalizing
        let t = with_links(rng, &s, &links[..links.len() - 1]);
        d(m, &t, mn, "unfinished", true);
        // go on after the finalization: a justification, a finalization, a repetition
        let next = |rng: &mut Rng, gap: u64| Lk { s: last.t, t: Cp::new(last.t.e + gap, rng.bytes32()) };
        for (label, extra) in [("continue-finalizing", next(rng, 1)), ("continue-justifying", next(rng, 2)), ("repeat-last", last)] {
            let mut l = links.clone();
            l.push(extra);
            let mut t = with_links(rng, &s, &l);
            if label == "repeat-last" {
                // not adjacent to its first occurrence, else it is the same group
                let k = t.atts.len() - t.atts.iter().rev().take_while(|a| link_of(a) == last).count();
                let mid = links.len().min(1);
                let front: Vec<Att> = t.atts[k..].iter().take(mid).cloned().collect();
                t.atts.splice(0..0, front);
            }
            d(m, &t, mn, label, true);
        }
        // a random sequence of links around the justified ones
        for _ in 0..3 {
            let mut cps = vec![s.start.f, s.start.j, last.s, last.t];
            for _ in 0..2 {
                cps.push(Cp::new(s.start.f.e + rng.below(6), rng.bytes32()));
            }
            let mut l = links.clone();
            for _ in 0..rng.urange(1, 2) {
                match rng.below(6) {
                    0 => {
                        let i = rng.idx(l.len());
                        l.remove(i);
                    }
                    1 => {
                        let i = rng.idx(l.len());
                        let j = rng.idx(l.len());
                        l.swap(i, j);
                    }
                    2 => {
                        let i = rng.idx(l.len() + 1);
                        let a = *rng.pick(&cps);
                        let b = *rng.pick(&cps);
                        l.insert(i, Lk { s: a, t: b });
                    }
                    3 => {
                        // right epoch, wrong root
                        let i = rng.idx(l.len());
                        if rng.bool() {
                            l[i].s.r = rng.bytes32();
                        } else {
                            l[i].t.r = rng.bytes32();
                        }
                    }
                    4 => {
                        // shorter or longer jump
                        let i = rng.idx(l.len());
                        l[i].t.e = (l[i].t.e + rng.below(3)).saturating_sub(1);
                    }
                    _ => {
                        let i = rng.idx(l.len());
                        l[i].s = if rng.bool() { s.start.f } else { s.start.j };
                    }
                }
                if l.is_empty() {
                    break;
                }
            }
            let t = with_links(rng, &s, &l);
            let (w, _) = d(m, &t, mn, "resequenced", true);
            if w.is_ok() {
                m.event("resequenced_accepted");
            }
        }
        // another trusted state
        let mut t = s.clone();
        match rng.below(3) {
            0 => t.start.j.r = rng.bytes32(),
            1 => t.start.f.r = rng.bytes32(),
            _ => t.start.j.e += 1,
        }
        d(m, &t, mn, "other-start", true);
        // interleaved attestations of two links are not two groups
        if links.len() >= 2 {
            let mut t = s.clone();
            let i = rng.idx(t.atts.len());
            let j = rng.idx(t.atts.len());
            t.atts.swap(i, j);
            d(m, &t, mn, "interleaved", true);
            m.event("regrouped");
            let mut t = s.clone();
            let i = rng.idx(t.atts.len());
            let a = t.atts.remove(i);
            let j = rng.idx(t.atts.len() + 1);
            t.atts.insert(j, a);
            d(m, &t, mn, "moved", true);
        }
        // order within a group and repetitions do not matter
        let mut t = s.clone();
        let k = t.atts.iter().take_while(|a| link_of(a) == links[0]).count();
        rng.shuffle(&mut t.atts[..k]);
        let dup = t.atts[0].clone();
        t.atts.insert(0, dup);
        d(m, &t, mn, "reordered-group", true);
    });
    m.finish()
}

/// effective balances such that participants of the last group meet the threshold exactly
fn balance(s: &Scn, e: u64) -> (u128, u128, BTreeSet<usize>) {
    let c = s.committees(e).unwrap();
    let mut part = BTreeSet::new();
    for a in s.atts.iter().filter(|a| a.data.target.e == e) {
        part.extend(s.designated(a, &c).unwrap_or_default());
    }
    let b = part.iter().filter(|i| !s.vals[**i].slashed).map(|i| s.vals[*i].eff as u128).sum();
    let t = s.active(e).iter().map(|i| s.vals[*i].eff as u128).sum();
    (b, t, part)
}

pub fn c04() -> i32 {
    let mut m = Monitor::new("C04", 9, 600, "distinct scenarios near, at or below the threshold, or with repeated, slashed or inactive participants");
    for e in ["accepted", "rejected_Threshold", "exact", "one_below", "duplicates", "slashed_participants", "slashed_absent", "votes_elsewhere", "low_configured_threshold"] {
        m.require(e, 30);
    }
    let mut round = |m: &mut Monitor, stream: &str, share: f64, part: u64, slashed: u64| {
        let opt = Opt { max_justify: 1, n: (12, 90), part, slashed_pct: slashed, ..Opt::default() };
        each(m, stream, 25, share, &opt, |m, rng, s, mn| {
            d(m, &s, mn, "as-is", true);
            let Some(last) = s.atts.last() else { return };
            let e = last.data.target.e;
            let (b, t, who) = balance(&s, e);
            if b == 0 || b * 3 < t * 2 {
                return;
            }
            m.sample(|| json!({"participating": b.to_string(), "active": t.to_string()}));
            if who.iter().any(|i| s.vals[*i].slashed) {
                m.event("slashed_participants");
            }
            if s.active(e).iter().any(|i| s.vals[*i].slashed && !who.contains(i)) {
                m.event("slashed_absent");
            }
            // only the last group is pushed to its threshold: the others must stay above it, so use a single group
            if s.groups().len() == 1 {
                // threshold set to be met exactly: b * q == t * f
                let mut x = s.clone();
                x.cfg.justification_threshold_factor = b as u64;
                x.cfg.justification_threshold_quotient = t as u64;
                d(m, &x, mn, "exact", true);
                m.event("exact");
                let yes: Vec<usize> = who.iter().copied().filter(|i| !s.vals[*i].slashed).collect();
                let no: Vec<usize> = s.active(e).into_iter().filter(|i| !yes.contains(i)).collect();
                // one unit less among the participants
                let mut y = x.clone();
                let i = *rng.pick(&yes);
                y.vals[i].eff -= 1;
                d(m, &y, mn, "one-below", true);
                m.event("one_below");
                // one unit more among the others
                if !no.is_empty() {
                    let mut y = x.clone();
                    let i = *rng.pick(&no);
                    y.vals[i].eff += 1;
                    d(m, &y, mn, "one-more-absent", true);
                    m.event("one_below");
                    // a participant turns out slashed
                    let mut y = x.clone();
                    let i = *rng.pick(&yes);
                    y.vals[i].slashed = true;
                    d(m, &y, mn, "participant-slashed", true);
                }
                // a validator active only before or after does not count
                let mut y = x.clone();
                let i = rng.idx(y.vals.len());
                if !y.vals[i].active(e) {
                    y.vals[i].eff = 2_000_000_000_000;
                    d(m, &y, mn, "inactive-whale", true);
                    m.event("inactive_whale");
                }
                // a configuration below two thirds does not lower the bar further than that
                let mut y = s.clone();
                let q = rng.range(2, 200);
                y.cfg.justification_threshold_quotient = q;
                y.cfg.justification_threshold_factor = rng.range(0, q * 2 / 3);
                for (third, name) in [(0i128, "two-thirds-exact"), (-1, "two-thirds-one-below"), (rng.range(1, 1 << 40) as i128, "two-thirds-more")] {
                    let mut z = y.clone();
                    // one participant and one other carry nearly everything: 2u + third against u
                    let (a, Some(o)) = (*rng.pick(&yes), no.first().copied()) else { break };
                    let rest_b: u64 = yes.iter().filter(|i| **i != a).map(|i| z.vals[*i].eff).sum();
                    let rest_n: u64 = no.iter().filter(|i| **i != o).map(|i| z.vals[*i].eff).sum();
                    let u = rest_b + rest_n + rng.range(1 << 35, 1 << 45);
                    z.vals[a].eff = ((2 * u - rest_b) as i128 + third) as u64;
                    z.vals[o].eff = u - rest_n;
                    d(m, &z, mn, name, true);
                    m.event("low_configured_threshold");
                }
                // the network's own fraction, met exactly
                let (f, q) = (s.cfg.justification_threshold_factor as u128, s.cfg.justification_threshold_quotient as u128);
                let (yb, nb): (u128, u128) = (b, t - b);
                if nb > 0 {
                    // want (q - f) * B == f * N
                    let mut y = s.clone();
                    let g = gcd(q - f, f);
                    let (bu, nu) = (f / g, (q - f) / g);
                    let units = (nb / nu).max(1);
                    let (want_b, want_n) = (units * bu, units * nu);
                    let fit = |y: &mut Scn, who: &[usize], have: u128, want: u128| -> bool {
                        let mut diff = want as i128 - have as i128;
                        for i in who {
                            let v = &mut y.vals[*i].eff;
                            let step = diff.clamp(-(*v as i128) + 1, 1 << 50);
                            *v = (*v as i128 + step) as u64;
                            diff -= step;
                            if diff == 0 {
                                return true;
                            }
                        }
                        diff == 0
                    };
                    if fit(&mut y, &yes, yb, want_b) && fit(&mut y, &no, nb, want_n) {
                        d(m, &y, mn, "network-exact", true);
                        m.event("exact");
                        let mut z = y.clone();
                        let i = *yes.iter().max_by_key(|i| y.vals[**i].eff).unwrap();
                        z.vals[i].eff -= 1;
                        d(m, &z, mn, "network-one-below", true);
                        let mut z = y.clone();
                        z.vals[no[0]].eff += 1;
                        d(m, &z, mn, "network-one-more-absent", true);
                    }
                }
            }
            // repeating attestations adds nothing: drop enough to fall below, then repeat what is left
            let mut y = s.clone();
            let n = y.atts.len();
            let drop = rng.urange(1, (n / 3).max(1));
            let keep = n - drop;
            rng.shuffle(&mut y.atts);
            y.atts.truncate(keep);
            y.atts.sort_by_key(|a| (a.data.source, a.data.target));
            let (w, _) = d(m, &y, mn, "fewer", true);
            let mut z = vec![];
            for a in &y.atts {
                z.push(a.clone());
                z.push(a.clone());
                if rng.bool() {
                    z.push(a.clone());
                }
            }
            y.atts = z;
            let (w2, _) = d(m, &y, mn, "repeated", true);
            assert_eq!(w.is_ok(), w2.is_ok());
            m.event("duplicates");
            // votes for the same target from elsewhere, or for another target, do not complete it
            let a = &s.atts[rng.idx(n)];
            let l = Lk { s: a.data.source, t: a.data.target };
            let mut o = l;
            match rng.below(4) {
                0 => o.s = s.start.f,
                1 => o.s.r = rng.bytes32(),
                2 => o.s.e = o.s.e.saturating_sub(1),
                _ => o.t.r = rng.bytes32(),
            }
            let mut z = s.clone();
            z.atts.retain(|a| a.data.target != l.t);
            let at = s.atts.iter().position(|a| a.data.target == l.t).unwrap();
            let all: BTreeSet<usize> = s.active(l.t.e).into_iter().collect();
            let k = rng.range(1, 10);
            let some: BTreeSet<usize> = all.iter().copied().filter(|_| rng.chance(k, 10)).collect();
            let mut more = attest(rng, &z, &l, &some, false);
            let rest = all.difference(&some).copied().collect();
            let others = attest(rng, &z, &o, &rest, false);
            if rng.bool() {
                more.extend(others);
            } else {
                more.splice(0..0, others);
            }
            z.atts.splice(at..at, more);
            d(m, &z, mn, "votes-elsewhere", false);
            m.event("votes_elsewhere");
        });
    };
    round(&mut m, "high", 0.4, 97, 3);
    round(&mut m, "edge", 0.75, 86, 2);
    round(&mut m, "slashed", 1.0, 100, 12);
    m.finish()
}
fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

pub fn c05() -> i32 {
    let mut m = Monitor::new("C05", 9, 600, "distinct scenarios with one attestation re-signed, mis-signed or re-keyed");
    m.require("accepted", 30);
    m.require("rejected_Signature", 300);
    m.require("across_fork", 20);
    m.assume("signatures are checked by an ideal pairing-like group standing in for BLS12-381: which keys, message and domain are used is observed, not the curve arithmetic");
    let opt = Opt { max_justify: 1, n: (16, 60), ..full() };
    each(&mut m, "signatures", 40, 1.0, &opt, |m, rng, s, mn| {
        d(m, &s, mn, "honest", false);
        if s.atts.is_empty() {
            return;
        }
        m.sample(|| s.json());
        let e0 = s.start.f.e;
        if s.atts.iter().any(|a| spec::fork_no(&s.spec, a.data.target.e) != spec::fork_no(&s.spec, e0)) {
            m.event("across_fork");
        }
        for label in [
            "other-block", "other-slot-signed", "other-source", "other-target", "previous-fork", "next-fork", "other-version", "other-chain", "domain-type", "no-domain", "subset", "superset", "other-key",
            "negated-keys", "infinity", "empty-signature", "swapped", "bit-flipped", "registry-key", "other-gvr", "twice",
        ] {
            let mut t = s.clone();
            let k = rng.idx(t.atts.len());
            let a = t.atts[k].clone();
            let c = t.committees(a.data.target.e).unwrap();
            let who = t.designated(&a, &c).unwrap();
            let e = a.data.target.e;
            let no = spec::fork_no(&t.spec, e);
            let sign_data = |dd: &spec::Data| t.sign(dd, who.iter().copied());
            let sign_dom = |dom: &[u8; 32]| t.sign_root(&a.data.signing_root(dom), who.iter().copied());
            let mut dd = a.data;
            let sig: Option<AggregateSignature> = match label {
                "other-block" => {
                    dd.bbr[rng.idx(32)] ^= 1 << rng.below(8);
                    Some(sign_data(&dd))
                }
                "other-slot-signed" => {
                    dd.slot ^= 1;
                    Some(sign_data(&dd))
                }
                "other-source" => {
                    dd.source.r[rng.idx(32)] ^= 1;
                    Some(sign_data(&dd))
                }
                "other-target" => {
                    dd.target.r[rng.idx(32)] ^= 1;
                    Some(sign_data(&dd))
                }
                "previous-fork" => Some(sign_dom(&spec::domain([1, 0, 0, 0], spec::version_no(&t.spec, no - 1), &t.gvr))),
                "next-fork" => Some(sign_dom(&spec::domain([1, 0, 0, 0], spec::version_no(&t.spec, (no + 1).min(7)), &t.gvr))),
                "other-version" => {
                    let mut v = spec::version_no(&t.spec, no);
                    v[rng.idx(4)] ^= 1 << rng.below(8);
                    Some(sign_dom(&spec::domain([1, 0, 0, 0], v, &t.gvr)))
                }
                "other-chain" => {
                    let mut g = t.gvr;
                    g[rng.idx(32)] ^= 1 << rng.below(8);
                    Some(sign_dom(&spec::domain([1, 0, 0, 0], spec::version_no(&t.spec, no), &g)))
                }
                "domain-type" => Some(sign_dom(&spec::domain([*rng.pick(&[0u8, 2, 3, 4, 6]), 0, 0, 0], spec::version_no(&t.spec, no), &t.gvr))),
                "no-domain" => Some(t.sign_root(&a.data.root(), who.iter().copied())),
                "subset" => {
                    if who.len() < 2 {
                        continue;
                    }
                    let mut w = who.clone();
                    let i = rng.idx(w.len());
                    w.remove(i);
                    Some(t.sign(&a.data, w))
                }
                "superset" => {
                    let mut w = who.clone();
                    w.push(rng.idx(t.vals.len()));
                    Some(t.sign(&a.data, w))
                }
                "other-key" => {
                    let mut w = who.clone();
                    let i = rng.idx(w.len());
                    w[i] = rng.idx(t.vals.len());
                    Some(t.sign(&a.data, w))
                }
                "negated-keys" | "bit-flipped" => {
                    let mut b = a.sig.serialize();
                    b[0] ^= 0x20;
                    AggregateSignature::deserialize(&b).ok()
                }
                "infinity" => Some(AggregateSignature::infinity()),
                "empty-signature" => Some(AggregateSignature::empty()),
                "swapped" => {
                    let j = rng.idx(t.atts.len());
                    Some(t.atts[j].sig.clone())
                }
                "twice" => {
                    let mut x = a.sig.clone();
                    x.add_assign_aggregate(&a.sig);
                    Some(x)
                }
                "registry-key" => {
                    // the registry has another key for one signer
                    let i = *rng.pick(&who);
                    t.vals[i].key = 1_000_000 + rng.below(1000);
                    None
                }
                _ => {
                    t.gvr[rng.idx(32)] ^= 1 << rng.below(8);
                    None
                }
            };
            if let Some(sig) = sig {
                t.atts[k].sig = sig;
            } else if !matches!(label, "registry-key" | "other-gvr") {
                continue;
            }
            d(m, &t, mn, label, true);
        }
        // the fork schedule of the verifier moved over the target epoch
        let mut t = s.clone();
        let e = rng.pick(&s.atts).data.target.e;
        t.spec.fulu_fork_epoch = Some(Epoch::new((e + rng.below(3)).saturating_sub(1)));
        d(m, &t, mn, "other-schedule", true);
        let mut t = s.clone();
        t.spec.electra_fork_version[rng.idx(4)] ^= 1;
        d(m, &t, mn, "other-fork-version", true);
        // a single fork period cut into all attestations of a group signed under the previous fork
        let mut t = s.clone();
        let link = link_of(rng.pick(&s.atts));
        let no = spec::fork_no(&t.spec, link.t.e);
        let dom = spec::domain([1, 0, 0, 0], spec::version_no(&t.spec, no - 1), &t.gvr);
        let c = t.committees(link.t.e).unwrap();
        for k in 0..t.atts.len() {
            if link_of(&t.atts[k]) == link {
                let who = t.designated(&t.atts[k], &c).unwrap();
                t.atts[k].sig = t.sign_root(&t.atts[k].data.signing_root(&dom), who);
            }
        }
        d(m, &t, mn, "group-under-previous-fork", true);
    });
    m.finish()
}

pub fn c07() -> i32 {
    let mut m = Monitor::new("C07", 9, 600, "distinct scenarios with the bits, committees or slot of an attestation altered");
    m.require("accepted", 100);
    m.require("rejected_Structure", 300);
    m.require("multi_committee", 50);
    let opt = Opt { max_justify: 0, n: (24, 140), slashed_pct: 0, part: 96, ..Opt::default() };
    each(&mut m, "bits", 40, 1.0, &opt, |m, rng, s, mn| {
        d(m, &s, mn, "honest", false);
        if s.atts.is_empty() {
            return;
        }
        m.sample(|| s.json());
        if s.atts.iter().any(|a| a.committees.iter().filter(|c| **c).count() > 1) {
            m.event("multi_committee");
        }
        for label in [
            "longer-zero", "longer-one", "shorter", "shifted", "flip", "flip-resigned", "committee-added", "committee-beyond", "committee-removed", "committee-moved", "committee-silent", "slot-moved", "slot-outside",
            "slot-outside-resigned", "index", "index-resigned", "legacy", "no-bits", "nothing", "split", "reversed", "bits-for-all",
        ] {
            let mut t = s.clone();
            let k = rng.idx(t.atts.len());
            let e = t.atts[k].data.target.e;
            let c = t.committees(e).unwrap();
            let slot_coms = c.by_slot[(t.atts[k].data.slot % t.slots_per_epoch) as usize].clone();
            let before = t.designated(&t.atts[k], &c).unwrap();
            let mut a = t.atts[k].clone();
            let mut resign: Option<Vec<usize>> = None;
            match label {
                "longer-zero" => a.bits.extend(vec![false; rng.urange(1, 9)]),
                "longer-one" => a.bits.extend([rng.bool(), true]),
                "shorter" => {
                    a.bits.pop();
                }
                "shifted" => {
                    a.bits.insert(0, false);
                    a.bits.pop();
                }
                "flip" | "flip-resigned" => {
                    let i = rng.idx(a.bits.len());
                    a.bits[i] ^= true;
                    if label == "flip-resigned" {
                        resign = Some(t.designated(&a, &c).unwrap_or_default());
                    }
                }
                "committee-added" => {
                    // select one more existing committee, with its bits where they belong
                    let free: Vec<usize> = (0..c.per_slot).filter(|i| !a.committees[*i] && !slot_coms[*i].is_empty()).collect();
                    if free.is_empty() {
                        continue;
                    }
                    let x = *rng.pick(&free);
                    let pos: usize = (0..x).filter(|i| a.committees[*i]).map(|i| slot_coms[i].len()).sum();
                    let bits: Vec<bool> = slot_coms[x].iter().map(|_| true).collect();
                    a.committees[x] = true;
                    a.bits.splice(pos..pos, bits);
                    resign = Some(t.designated(&a, &c).unwrap_or_default());
                }
                "committee-beyond" => {
                    if c.per_slot >= a.committees.len() {
                        continue;
                    }
                    let x = rng.urange(c.per_slot, a.committees.len() - 1);
                    a.committees[x] = true;
                    if rng.bool() {
                        a.bits.push(true);
                    }
                }
                "committee-removed" => {
                    let x = a.committees.iter().position(|b| *b).unwrap();
                    a.committees[x] = false;
                    if rng.bool() {
                        resign = Some(t.designated(&a, &c).unwrap_or_default());
                    }
                }
                "committee-moved" => {
                    let x = a.committees.iter().position(|b| *b).unwrap();
                    let y = rng.idx(a.committees.len());
                    a.committees[x] = false;
                    a.committees[y] = true;
                }
                "committee-silent" => {
                    // one selected committee without any attester, correctly signed by the others
                    let free: Vec<usize> = (0..c.per_slot).filter(|i| !a.committees[*i]).collect();
                    if free.is_empty() {
                        continue;
                    }
                    let x = *rng.pick(&free);
                    let pos: usize = (0..x).filter(|i| a.committees[*i]).map(|i| slot_coms[i].len()).sum();
                    a.committees[x] = true;
                    a.bits.splice(pos..pos, slot_coms[x].iter().map(|_| false));
                    resign = Some(before.clone());
                }
                "slot-moved" => {
                    a.data.slot = e * t.slots_per_epoch + rng.below(t.slots_per_epoch);
                    resign = Some(before.clone());
                }
                "slot-outside" | "slot-outside-resigned" => {
                    // same position in another epoch: the committees would be those of that slot
                    let x = if rng.bool() { a.data.slot + t.slots_per_epoch } else { a.data.slot.saturating_sub(t.slots_per_epoch) };
                    if x == a.data.slot {
                        continue;
                    }
                    a.data.slot = x;
                    resign = (label == "slot-outside-resigned").then(|| before.clone());
                }
                "index" | "index-resigned" => {
                    a.data.index = if rng.bool() { 1 + rng.below(3) } else { 1 << rng.below(64) };
                    resign = (label == "index-resigned").then(|| before.clone());
                }
                "legacy" => a.base = true,
                "no-bits" => {
                    a.bits.iter_mut().for_each(|b| *b = false);
                    a.sig = AggregateSignature::infinity();
                }
                "nothing" => {
                    a.bits.clear();
                    a.committees.iter_mut().for_each(|b| *b = false);
                    a.sig = AggregateSignature::infinity();
                }
                "reversed" => {
                    a.bits.reverse();
                }
                "bits-for-all" => {
                    a.committees.iter_mut().enumerate().for_each(|(i, b)| *b = i < c.per_slot);
                    a.bits = slot_coms.iter().flatten().map(|_| true).collect();
                    resign = Some(slot_coms.iter().flatten().copied().collect());
                }
                _ => {
                    // the same attesters, as two attestations
                    let mut b = a.clone();
                    let ones: Vec<usize> = a.bits.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect();
                    for (n, i) in ones.iter().enumerate() {
                        if n % 2 == 0 {
                            a.bits[*i] = false
                        } else {
                            b.bits[*i] = false
                        }
                    }
                    b.sig = t.sign(&b.data, t.designated(&b, &c).unwrap_or_default());
                    resign = Some(t.designated(&a, &c).unwrap_or_default());
                    t.atts.push(b);
                }
            }
            if let Some(w) = resign {
                a.sig = t.sign(&a.data, w);
            }
            if a.bits.len() > 2000 {
                continue;
            }
            t.atts[k] = a;
            d(m, &t, mn, label, true);
        }
    });
    // the designation itself: single-bit attestations, one per member, each signed by exactly that member
    m.finish()
}

pub fn c08() -> i32 {
    let mut m = Monitor::new("C08", 9, 600, "distinct (fork schedule, configured range, lookahead, link) combinations");
    for e in ["accepted", "rejected_Fork", "rejected_Lookahead", "at_first_epoch", "at_last_epoch", "at_limit", "one_past_limit"] {
        m.require(e, 20);
    }
    let opt = Opt { max_justify: 1, n: (8, 16), lookahead: Some(9), forks: false, ..full() };
    each(&mut m, "bounds", 40, 1.0, &opt, |m, rng, mut s, mn| {
        m.sample(|| s.json());
        for i in 0..12 {
            let links: Vec<Lk> = s.groups().iter().map(|g| g.0).collect();
            if links.is_empty() {
                return;
            }
            let first = links[0].t.e;
            let last = links.last().unwrap().t.e;
            // forks placed around the targets
            let names = [beacon_types::ForkName::Deneb, beacon_types::ForkName::Electra, beacon_types::ForkName::Fulu, beacon_types::ForkName::Gloas];
            let mut at: Vec<u64> = (0..4).map(|_| rng.range(first.saturating_sub(2), last + 3)).collect();
            at.sort();
            if i % 3 == 0 {
                at = vec![0, 0, last + 50, last + 60];
            }
            s.spec.deneb_fork_epoch = Some(Epoch::new(at[0]));
            s.spec.electra_fork_epoch = Some(Epoch::new(at[1]));
            s.spec.fulu_fork_epoch = Some(Epoch::new(at[2]));
            s.spec.gloas_fork_epoch = if rng.bool() { Some(Epoch::new(at[3])) } else { None };
            let (lo, hi) = match rng.below(3) {
                0 => (1, 2),
                1 => (rng.idx(4), rng.idx(4)),
                _ => {
                    let x = rng.idx(4);
                    (x, x.max(rng.idx(4)))
                }
            };
            let look = if rng.bool() { last - s.start.f.e } else { rng.below(last - s.start.f.e + 2) };
            s.cfg = Config { min_version: names[lo], max_version: names[hi], epoch_lookahead_limit: Epoch::new(look), ..s.cfg.clone() };
            // sign again under the new schedule
            let t = with_links(rng, &s, &links);
            if links.iter().any(|l| at.contains(&l.t.e)) {
                m.event("at_first_epoch");
            }
            if links.iter().any(|l| at.contains(&(l.t.e + 1))) {
                m.event("at_last_epoch");
            }
            if look == last - s.start.f.e {
                m.event("at_limit");
            }
            if look + 1 == last - s.start.f.e {
                m.event("one_past_limit");
            }
            let (w, g) = d(m, &t, mn, "bounds", true);
            kind(m, &t, w, &g);
            // the limit is counted from the finalized, not the justified checkpoint
            let mut u = t.clone();
            u.start.f = Cp::new(u.start.f.e.saturating_sub(1 + rng.below(3)), rng.bytes32());
            let (w, g) = d(m, &u, mn, "older-finalized", true);
            kind(m, &u, w, &g);
        }
        // the networks' own configurations
        let links: Vec<Lk> = s.groups().iter().map(|g| g.0).collect();
        for cfg in [&z_core::DEFAULT_CONFIG, &z_core::SEPOLIA_CONFIG] {
            let mut t = s.clone();
            t.cfg = cfg.clone();
            let t = with_links(rng, &t, &links);
            let (w, g) = d(m, &t, mn, "network", true);
            kind(m, &t, w, &g);
        }
    });
    m.finish()
}
/// The error must name a bound that some link of the batch breaks, and must do so if that is what decides.
fn kind(m: &mut Monitor, s: &Scn, w: Result<(core_model::ffg::St, u64), Why>, g: &Verdict) {
    let links: Vec<Lk> = s.groups().iter().map(|x| x.0).collect();
    let out_fork = links.iter().any(|l| {
        let no = spec::fork_no(&s.spec, l.t.e);
        no < fork_rank(s.cfg.min_version) || no > fork_rank(s.cfg.max_version)
    });
    let out_look = links.iter().any(|l| l.t.e.saturating_sub(s.start.f.e) > s.cfg.epoch_lookahead_limit.as_u64());
    let is_fork = matches!(g, Outcome::Ret(Err(VerifyError::UnsupportedFork(_))));
    let is_look = matches!(g, Outcome::Ret(Err(VerifyError::LookaheadExceedsLimit(..))));
    let detail = || json!({"scenario": s.json(), "got": format!("{g:?}")});
    m.check((!is_fork || out_fork) && (!is_look || out_look), "wrong-reason", "a link within a bound was rejected because of it", detail);
    if matches!(w, Err(Why::Fork) | Err(Why::Lookahead)) {
        m.check(is_fork || is_look, "bound-error", "a link outside the supported forks or the lookahead was not reported as such", detail);
    }
}

pub fn c14() -> i32 {
    let mut m = Monitor::new("C14", 9, 600, "distinct inputs with altered, foreign, missing or repeated slot proofs");
    crate::guest::c14(&mut m);
    m.finish()
}
