use alloy_primitives::B256;
use core_model::ffg::{Cp, Lk, St};
use serde_json::json;
use support::{hex, observe, Monitor, Outcome, Rng};
use z_core::{ConsensusError, ConsensusState};

const ROOTS: [[u8; 32]; 3] = [[0x11; 32], [0x22; 32], [0; 32]];

fn epoch(rng: &mut Rng) -> u64 {
    match rng.below(8) {
        0 => u64::MAX - rng.below(4),
        1 => rng.u64(),
        2 => (1 << rng.below(64)) - rng.below(2),
        3 => 300_000 + rng.below(100_000),
        _ => rng.below(12),
    }
}
fn root(rng: &mut Rng) -> [u8; 32] {
    if rng.chance(3, 4) {
        *rng.pick(&ROOTS)
    } else {
        rng.bytes32()
    }
}
/// every state over few epochs and roots
fn small_states(max: u64) -> Vec<St> {
    let mut cps = vec![];
    for e in 0..=max {
        for r in &ROOTS {
            cps.push(Cp::new(e, *r));
        }
    }
    let mut v = vec![];
    for j in &cps {
        for f in &cps {
            let s = St { j: *j, f: *f };
            if s.valid() {
                v.push(s);
            }
        }
    }
    v
}
fn random_state(rng: &mut Rng) -> St {
    loop {
        let s = St { j: Cp::new(epoch(rng), root(rng)), f: Cp::new(epoch(rng), root(rng)) };
        if s.valid() {
            return s;
        }
        let s = St { j: s.f, f: s.j };
        if s.valid() {
            return s;
        }
    }
}

fn check_link(m: &mut Monitor, s: &St, l: &Lk) -> Option<St> {
    let real = s.real();
    let before = real.clone();
    let got = observe(|| real.state_transition(&l.real()));
    let want = s.apply(l);
    m.case(&(s, l), want.is_some() || l.s == s.j || l.t.e > l.s.e);
    let got_st = match &got {
        Outcome::Ret(Ok(x)) => Some(St::of(x)),
        _ => None,
    };
    let detail = || json!({"state": s, "link": l, "got": format!("{got:?}"), "expected": want});
    m.event(match (&want, &got) {
        (Some(w), _) if w.f != s.f => "finalizing",
        (Some(_), _) => "justifying",
        (None, Outcome::Ret(_)) => "refused",
        (None, Outcome::Panic(_)) => "refused_by_panic",
    });
    // an epoch that has no successor cannot be finalized by its successor, whatever is answered
    if s.j.e == u64::MAX {
        m.check(got_st.is_none(), "beyond-last-epoch", "a link beyond the last epoch was applied", detail);
        return None;
    }
    m.check(got_st == want, "transition", "a link was not applied as Casper FFG prescribes", detail);
    m.check(real == before, "mutated", "the original state changed", detail);
    if let (Outcome::Ret(Ok(x)), Some(g)) = (&got, got_st) {
        m.check(observe(|| x.is_valid()) == Outcome::Ret(true) && g.valid(), "invalid-result", "the resulting state is not valid", detail);
        m.check(g.j.e >= s.j.e && g.f.e >= s.f.e, "went-back", "an epoch decreased", detail);
    }
    got_st
}

pub fn c01() -> i32 {
    let mut m = Monitor::new("C01", 6, 300, "distinct (state, link) pairs whose source is the justified checkpoint or whose target lies after the source");
    m.assume("states are those the serialized form can carry; the property concerns valid ones");
    m.require("finalizing", 1000);
    m.require("justifying", 1000);
    m.require("refused", 1000);
    // every link over every small state
    let max = m.scale(4, 6);
    let states = small_states(max);
    let mut cps = vec![];
    for e in 0..=max + 2 {
        for r in &ROOTS {
            cps.push(Cp::new(e, *r));
        }
    }
    for s in &states {
        let sources: Vec<Cp> = cps.iter().copied().filter(|c| c.e + 1 >= s.j.e.min(s.f.e) && c.e <= s.j.e + 1).collect();
        for src in sources {
            for t in &cps {
                check_link(&mut m, s, &Lk { s: src, t: *t });
            }
        }
    }
    m.events_n("small_states", states.len() as u64);
    let mut rng = m.rng("random");
    let mut i = 0;
    while m.go(i, 20_000, u64::MAX, 0.6) {
        i += 1;
        let s = random_state(&mut rng);
        // validity as the code sees it
        let real = s.real();
        m.check(observe(|| real.is_valid()) == Outcome::Ret(true), "valid-refused", "a valid state is not recognised as valid", || json!({"state": s}));
        let bad = St { j: s.f, f: s.j };
        if !bad.valid() {
            m.check(observe(|| bad.real().is_valid()) != Outcome::Ret(true), "invalid-accepted", "an invalid state counts as valid", || json!({"state": bad}));
            m.check(observe(|| ConsensusState::new(bad.j.real(), bad.f.real())).is_panic(), "invalid-built", "an invalid state could be constructed", || json!({"state": bad}));
            m.event("invalid_states");
        }
        let src = match rng.below(5) {
            0 => s.f,
            1 => Cp::new(s.j.e, root(&mut rng)),
            _ => s.j,
        };
        let te = match rng.below(6) {
            0 => epoch(&mut rng),
            1 => s.j.e,
            2 => s.j.e.saturating_sub(1),
            3 => s.j.e.saturating_add(2 + rng.below(3)),
            _ => s.j.e.saturating_add(1),
        };
        check_link(&mut m, &s, &Lk { s: src, t: Cp::new(te, root(&mut rng)) });
    }
    // long histories: monotone and consistent all the way
    let mut i = 0;
    while m.go(i, 200, u64::MAX, 1.0) {
        i += 1;
        let mut s = random_state(&mut rng);
        s.j.e = s.j.e.min(1 << 40);
        s.f.e = s.f.e.min(s.j.e.saturating_sub(1));
        if !s.valid() {
            continue;
        }
        for _ in 0..rng.urange(2, 60) {
            let src = if rng.chance(4, 5) { s.j } else { s.f };
            let t = Cp::new((s.j.e + rng.below(4)).saturating_sub(rng.below(2)), rng.bytes32());
            if let Some(n) = check_link(&mut m, &s, &Lk { s: src, t }) {
                s = n;
                m.event("history_steps");
            }
        }
        m.event("histories");
    }
    m.sample(|| json!({"small_states": states.len(), "example": states[states.len() / 2]}));
    m.finish()
}

fn check_pair(m: &mut Monitor, a: &St, b: &St) {
    let got = observe(|| a.real().transition_link(&b.real()));
    let link = Lk { s: a.j, t: b.j };
    let connected = a.apply(&link) == Some(*b);
    m.case(&(a, b), connected || a == b || a.f != b.f);
    let detail = || json!({"from": a, "to": b, "got": format!("{got:?}")});
    if a == b {
        m.event("equal");
        m.check(matches!(got, Outcome::Ret(Ok(None))), "equal-states", "equal states must have no link between them", detail);
    } else if connected {
        m.event(if a.f == b.f { "justification_only" } else { "finalization" });
        let ok = matches!(&got, Outcome::Ret(Ok(Some(l))) if Lk::of(l) == link);
        m.check(ok, "link", "the link connecting two states was not recovered", detail);
        // and applying what was recovered leads there
        if let Outcome::Ret(Ok(Some(l))) = &got {
            let r = observe(|| a.real().state_transition(l));
            m.check(matches!(r, Outcome::Ret(Ok(x)) if St::of(&x) == *b), "apply", "the recovered link does not lead to the second state", detail);
        }
    } else {
        m.event("unconnected");
        m.check(!matches!(got, Outcome::Ret(Ok(_))), "unconnected", "a link (or equality) was reported for states no single link connects", detail);
        let monotone = (a.f.e < b.f.e || a.f == b.f) && a.j.e < b.j.e;
        if monotone && a.f != b.f && b.j.e - b.f.e == 2 {
            m.event("two_finality");
            m.check(
                matches!(got, Outcome::Ret(Err(ConsensusError::TwoFinality))),
                "two-finality",
                "a finalization from two epochs earlier was not reported as unsupported 2-finality",
                detail,
            );
        }
    }
}

pub fn c02() -> i32 {
    let mut m = Monitor::new("C02", 6, 300, "distinct state pairs that are equal, connected, or differ in finality");
    for e in ["equal", "justification_only", "finalization", "unconnected", "two_finality"] {
        m.require(e, 100);
    }
    m.assume("the all-zero genesis state is excluded, as the property does");
    let states: Vec<St> = small_states(m.scale(4, 6)).into_iter().filter(|s| s.j.e > 0).collect();
    for a in &states {
        for b in &states {
            check_pair(&mut m, a, b);
        }
    }
    m.events_n("small_states", states.len() as u64);
    let mut rng = m.rng("random");
    let mut i = 0;
    while m.go(i, 20_000, u64::MAX, 1.0) {
        i += 1;
        let a = random_state(&mut rng);
        if a.j.e == 0 {
            continue;
        }
        let b = match rng.below(6) {
            0 => a,
            1 => random_state(&mut rng),
            2 => {
                let g = 1 + rng.below(3);
                St { j: Cp::new(a.j.e.saturating_add(g), root(&mut rng)), f: if g == 1 || rng.chance(1, 4) { a.j } else { a.f } }
            }
            3 => St { j: Cp::new(a.j.e.saturating_add(1 + rng.below(3)), root(&mut rng)), f: Cp::new(a.j.e.saturating_sub(rng.below(2)).saturating_add(rng.below(2)), root(&mut rng)) },
            4 => St { j: a.j, f: Cp::new(a.f.e.saturating_add(rng.below(2)), root(&mut rng)) },
            _ => St { j: Cp::new(a.j.e, root(&mut rng)), f: a.f },
        };
        if b.valid() {
            check_pair(&mut m, &a, &b);
        } else {
            let got = observe(|| a.real().transition_link(&b.real()));
            m.event("invalid_target");
            m.check(!matches!(got, Outcome::Ret(Ok(_))), "invalid-target", "a link to an invalid state was reported", || json!({"from": a, "to": b}));
        }
    }
    m.sample(|| json!({"small_states": states.len()}));
    m.finish()
}

fn word(v: u64) -> [u8; 32] {
    let mut w = [0; 32];
    w[24..].copy_from_slice(&v.to_be_bytes());
    w
}
fn encode(s: &St) -> Vec<u8> {
    [word(s.j.e), s.j.r, word(s.f.e), s.f.r].concat()
}

pub fn c16() -> i32 {
    let mut m = Monitor::new("C16", 5, 200, "distinct states and journals encoded, and byte strings decoded");
    for e in ["journals", "states", "short", "invalid_state"] {
        m.require(e, 500);
    }
    m.assume("the Solidity ABI codec is a stand-in for alloy-sol-types with the documented layout");
    let mut rng = m.rng("abi");
    let mut i = 0;
    while m.go(i, 3000, u64::MAX, 1.0) {
        i += 1;
        let a = if rng.chance(1, 20) { St { j: Cp::new(0, [0; 32]), f: Cp::new(0, [0; 32]) } } else { random_state(&mut rng) };
        let b = random_state(&mut rng);
        let slot = epoch(&mut rng);
        m.case(&(a, b, slot), true);
        let j = observe(|| {
            let j = z_core::abi::Journal::new(&a.real(), &b.real(), slot);
            (j.encode(), j.encoded_size())
        });
        let want = [encode(&a), encode(&b), word(slot).to_vec()].concat();
        m.event("journals");
        let ok = matches!(&j, Outcome::Ret((e, n)) if *e == want && *n == want.len());
        m.check(ok, "journal-layout", "the journal is not the ABI encoding of pre-state, post-state and slot", || {
            json!({"pre": a, "post": b, "slot": slot, "got": format!("{:?}", j.clone().ret().map(|x| (hex(&x.0), x.1))), "expected": hex(&want)})
        });
        m.event("states");
        let enc = observe(|| a.real().abi_encode());
        m.check(enc == Outcome::Ret(encode(&a)), "state-layout", "a state is not encoded in the fixed layout", || json!({"state": a, "got": format!("{enc:?}")}));
        m.check(observe(ConsensusState::abi_encoded_size) == Outcome::Ret(128), "size", "the fixed encoded size is wrong", || json!({}));
        let dec = observe(|| ConsensusState::abi_decode(&encode(&a)).map(|s| St::of(&s)).map_err(|e| e.to_string()));
        m.check(dec == Outcome::Ret(Ok(a)), "decode", "decoding an encoded state does not give it back", || json!({"state": a, "got": format!("{dec:?}")}));
        // a state cut out of the journal decodes too
        if let Outcome::Ret((e, _)) = &j {
            if e.len() == 288 {
                let post = observe(|| ConsensusState::abi_decode(&e[128..256]).map(|s| St::of(&s)).map_err(|e| e.to_string()));
                m.check(post == Outcome::Ret(Ok(b)), "decode-journal", "the post-state in a journal does not decode", || json!({"state": b, "got": format!("{post:?}")}));
            }
        }
        // too short
        let cut = rng.idx(128);
        let dec = observe(|| ConsensusState::abi_decode(&encode(&a)[..cut]).is_err());
        m.event("short");
        m.check(dec == Outcome::Ret(true), "short", "a truncated state is not reported as an error", || json!({"len": cut, "got": format!("{dec:?}")}));
        // well formed words, but no valid state
        let bad = loop {
            let s = St { j: Cp::new(epoch(&mut rng), root(&mut rng)), f: Cp::new(epoch(&mut rng), root(&mut rng)) };
            let s = if rng.chance(1, 3) { St { j: Cp::new(s.f.e, s.j.r), f: s.f } } else { s };
            if !s.valid() {
                break s;
            }
        };
        let dec = observe(|| ConsensusState::abi_decode(&encode(&bad)).is_err());
        m.event("invalid_state");
        m.check(dec == Outcome::Ret(true), "invalid-state", "bytes that are no valid state must give an error, neither a state nor a crash", || {
            json!({"state": bad, "bytes": hex(&encode(&bad)), "got": format!("{dec:?}")})
        });
        // arbitrary bytes: an error, or exactly a valid state whose own encoding agrees up to the padding
        let n = if rng.bool() { 128 } else { rng.idx(300) };
        let mut junk = rng.bytes(n);
        if rng.bool() {
            for w in [0, 64] {
                for k in 0..24.min(n.saturating_sub(w)) {
                    junk[w + k] = 0;
                }
            }
        }
        let dec = observe(|| ConsensusState::abi_decode(&junk).map(|s| St::of(&s)).map_err(|e| e.to_string()));
        m.event("arbitrary");
        let ok = match &dec {
            Outcome::Panic(_) => false,
            Outcome::Ret(Err(_)) => true,
            Outcome::Ret(Ok(s)) => s.valid() && n >= 128 && (0..128).all(|k| (k % 64 < 24) || encode(s)[k] == junk[k]),
        };
        m.check(ok, "arbitrary", "arbitrary bytes decoded to something they do not encode, or crashed", || json!({"bytes": hex(&junk), "got": format!("{dec:?}")}));
        m.sample(|| json!({"pre": a, "post": b, "slot": slot, "journal": hex(&want)}));
        let _ = B256::ZERO;
    }
    m.finish()
}
