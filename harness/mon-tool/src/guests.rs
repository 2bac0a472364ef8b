//! G01, G02: the guest programs, as processes fed whole input streams.
use crate::nets::{self, Net};
use crate::proc::{frame, guest};
use beacon_types::{ChainSpec, ForkName};
use core_model::ffg::St;
use core_model::guest::{finalizing, Block, WOpt, World};
use core_model::scn::{attest, Why};
use core_model::spec;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use support::{fingerprint, hex, observe, Monitor, Rng};
use z_core::{Config, Epoch, GuestInput, InputReader, MainnetEthSpec as E};

/// the journal as published: nine words
pub fn words(pre: &St, post: &St, slot: u64) -> Vec<u8> {
    let num = |v: u64| {
        let mut w = [0u8; 32];
        w[24..].copy_from_slice(&v.to_be_bytes());
        w
    };
    [num(pre.j.e), pre.j.r, num(pre.f.e), pre.f.r, num(post.j.e), post.j.r, num(post.f.e), post.f.r, num(slot)].concat()
}

/// a program with its rules
#[derive(Clone)]
struct Prog {
    guest: &'static str,
    spec: ChainSpec,
    cfg: Config,
    /// what it reads before the input
    head: Vec<u8>,
}
impl Prog {
    fn net(n: &Net) -> Prog {
        Prog { guest: n.guest, spec: n.spec.clone(), cfg: n.cfg.clone(), head: vec![] }
    }
    fn other(spec: ChainSpec, cfg: Config) -> Prog {
        let mut head = frame(&serde_json::to_vec(&chain_config(&spec)).unwrap());
        head.extend(frame(&bincode::serialize(&cfg).unwrap()));
        Prog { guest: "guest_test_harness", spec, cfg, head }
    }
    fn run(&self, stream: &[u8]) -> Option<Vec<u8>> {
        guest(self.guest, &[&self.head, stream].concat())
    }
}
fn chain_config(s: &ChainSpec) -> Value {
    let v = |x: [u8; 4]| format!("0x{}", hex(&x));
    let e = |x: Option<Epoch>| x.map_or(u64::MAX, |e| e.as_u64()).to_string();
    json!({
        "PRESET_BASE": "mainnet", "CONFIG_NAME": s.config_name.clone().unwrap_or_default(),
        "MIN_GENESIS_ACTIVE_VALIDATOR_COUNT": s.min_genesis_active_validator_count.to_string(), "MIN_GENESIS_TIME": s.min_genesis_time.to_string(),
        "GENESIS_FORK_VERSION": v(s.genesis_fork_version), "GENESIS_DELAY": s.genesis_delay.to_string(),
        "ALTAIR_FORK_VERSION": v(s.altair_fork_version), "ALTAIR_FORK_EPOCH": e(s.altair_fork_epoch),
        "BELLATRIX_FORK_VERSION": v(s.bellatrix_fork_version), "BELLATRIX_FORK_EPOCH": e(s.bellatrix_fork_epoch),
        "CAPELLA_FORK_VERSION": v(s.capella_fork_version), "CAPELLA_FORK_EPOCH": e(s.capella_fork_epoch),
        "DENEB_FORK_VERSION": v(s.deneb_fork_version), "DENEB_FORK_EPOCH": e(s.deneb_fork_epoch),
        "ELECTRA_FORK_VERSION": v(s.electra_fork_version), "ELECTRA_FORK_EPOCH": e(s.electra_fork_epoch),
        "FULU_FORK_VERSION": v(s.fulu_fork_version), "FULU_FORK_EPOCH": e(s.fulu_fork_epoch),
        "SECONDS_PER_SLOT": "12", "MIN_VALIDATOR_WITHDRAWABILITY_DELAY": s.min_validator_withdrawability_delay.as_u64().to_string(),
        "SHARD_COMMITTEE_PERIOD": s.shard_committee_period.to_string(), "EJECTION_BALANCE": s.ejection_balance.to_string(),
        "MIN_PER_EPOCH_CHURN_LIMIT": s.min_per_epoch_churn_limit.to_string(), "CHURN_LIMIT_QUOTIENT": s.churn_limit_quotient.to_string(),
        "MAX_PER_EPOCH_ACTIVATION_CHURN_LIMIT": s.max_per_epoch_activation_churn_limit.to_string(),
        "MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA": s.min_per_epoch_churn_limit_electra.to_string(),
        "MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT": s.max_per_epoch_activation_exit_churn_limit.to_string(),
        "DEPOSIT_CHAIN_ID": s.deposit_chain_id.to_string(), "DEPOSIT_NETWORK_ID": s.deposit_network_id.to_string(),
        "DEPOSIT_CONTRACT_ADDRESS": format!("0x{}", hex(s.deposit_contract_address.as_slice())),
    })
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Verdict {
    Journal(Vec<u8>),
    Nothing,
    /// an absurd epoch may keep it busy for ever
    Endless,
}
/// what the library makes of these bytes under the network's published rules, asked in a process of its own: hostile
/// lengths may end it
fn library(p: &Prog, bytes: &[u8]) -> Verdict {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    let mut fds = [0i32; 2];
    // no other thread runs here, so the child may do whatever it likes
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let child = libc::fork();
        assert!(child >= 0, "fork");
        if child == 0 {
            libc::close(2);
            crate::proc::limits(2);
            let mut o = std::fs::File::from_raw_fd(fds[1]);
            if let Some(j) = library_here(p, bytes) {
                let _ = o.write_all(&j);
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut v = vec![];
        std::fs::File::from_raw_fd(fds[0]).read_to_end(&mut v).expect("a pipe");
        let mut st = 0;
        libc::waitpid(child, &mut st, 0);
        if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) != libc::SIGABRT {
            return Verdict::Endless;
        }
        if v.is_empty() { Verdict::Nothing } else { Verdict::Journal(v) }
    }
}
fn library_here(p: &Prog, bytes: &[u8]) -> Option<Vec<u8>> {
    observe(|| {
        let input: GuestInput<E> = bincode::deserialize(bytes).ok()?;
        let r = input.into_reader(p.spec.clone()).ok()?;
        let pre = r.consensus_state().ok()?;
        let (post, slot) = z_core::verify(&p.cfg, &r).ok()?;
        Some(words(&St::of(&pre), &St::of(&post), slot))
    })
    .ret()
    .flatten()
}
fn encode(w: &World) -> Vec<u8> {
    encode_parts(&w.parts(&BTreeSet::new()))
}
fn encode_parts(p: &core_model::guest::Parts) -> Vec<u8> {
    p.with::<E, _>(|i| bincode::serialize(&i).expect("an input")).expect("honest proofs")
}
/// what the rules say about the world's own input
fn deserved(w: &World, p: &Prog) -> Result<Vec<u8>, Why> {
    let mut w = w.clone();
    w.spec = p.spec.clone();
    if w.fork != spec::fork_at(&p.spec, w.state_slot / w.slots_per_epoch) {
        return Err(Why::Fork);
    }
    w.scenario::<E>(&p.cfg).expect().map(|(post, slot)| words(&w.st, &post, slot))
}
fn wj(w: &World) -> Value {
    json!({"trusted_epoch": w.st.f.e, "justified_epoch": w.st.j.e, "targets": w.atts.iter().map(|a| a.data.target.e).collect::<BTreeSet<_>>(), "validators": w.reg.len(),
        "state_slot": w.state_slot, "attestations": w.atts.len()})
}

/// runs and judges: the journal is published, or nothing
fn judge(m: &mut Monitor, p: &Prog, stream: &[u8], want: Option<&[u8]>, label: &str, w: &World) -> bool {
    let got = p.run(stream);
    m.case(&(p.guest, fingerprint(stream)), label != "honest");
    m.event(if got.is_some() { "published" } else { "aborted" });
    m.event(&format!("{}:{}", if want.is_some() { "due" } else { "undue" }, p.guest));
    let detail = || {
        json!({"program": p.guest, "input": label, "world": wj(w), "stream_bytes": stream.len(), "expected": want.map(hex), "published": got.as_ref().map(|g| hex(g)),
            "thresholds": [p.cfg.justification_threshold_factor, p.cfg.justification_threshold_quotient]})
    };
    match (&got, want) {
        (None, None) => true,
        (Some(g), Some(j)) => m.check(g == j, &format!("{label}/journal"), "the published journal is not the one this input leads to", detail),
        (Some(_), None) => m.check(false, &format!("{label}/published"), "a journal was published for an input that must not verify", detail),
        (None, Some(_)) => m.check(false, &format!("{label}/withheld"), "an input that verifies led to no journal", detail),
    }
}

fn by_library(m: &mut Monitor, p: &Prog, bytes: &[u8], label: &str, w: &World) {
    match library(p, bytes) {
        Verdict::Journal(j) => {
            m.event(&format!("yet_valid:{label}"));
            judge(m, p, &frame(bytes), Some(&j), label, w);
        }
        Verdict::Nothing => {
            judge(m, p, &frame(bytes), None, label, w);
        }
        Verdict::Endless => m.event("endless"),
    }
}

fn some_prog(rng: &mut Rng) -> (Prog, u64) {
    let nets = nets::both();
    let n = rng.pick(&nets);
    let base = match rng.below(4) {
        0 => n.fulu - rng.below(6),
        1 => n.fulu + rng.below(40_000),
        2 => n.electra + 4 + rng.below(4),
        _ => rng.range(n.electra + 4, n.fulu),
    };
    if rng.chance(1, 3) {
        // a chain of its own, with its own thresholds
        let f = rng.range(20, 90_000);
        let mut s = n.spec.clone();
        let z = |e: u64| Some(Epoch::new(e));
        s.config_name = Some("somewhere".into());
        (s.altair_fork_epoch, s.bellatrix_fork_epoch, s.capella_fork_epoch, s.deneb_fork_epoch) = (z(0), z(1), z(2), z(3));
        s.electra_fork_epoch = z(rng.range(4, f - 6));
        s.fulu_fork_epoch = if rng.bool() { z(f - 6 + rng.below(14)) } else { None };
        s.electra_fork_version = rng.bytes(4).try_into().unwrap();
        s.fulu_fork_version = rng.bytes(4).try_into().unwrap();
        let quotient: u64 = *rng.pick(&[100, 1000, 3, 7]);
        let cfg = Config {
            epoch_lookahead_limit: Epoch::new(rng.range(2, 9)),
            justification_threshold_factor: (quotient * 2).div_ceil(3) + rng.below(quotient / 3 + 1).min(quotient / 3),
            justification_threshold_quotient: quotient,
            max_version: if rng.chance(1, 4) { ForkName::Electra } else { ForkName::Fulu },
            ..n.cfg.clone()
        };
        return (Prog::other(s, cfg), f);
    }
    (Prog::net(n), base)
}

pub fn g01() -> i32 {
    let mut m = Monitor::new("G01", 14, 400, "distinct input streams other than honest ones");
    m.assume("the zkVM is a stand-in: a guest is a process, a panic discards its journal as in the zkVM");
    m.assume("whether an altered encoding verifies is asked of the library; whether an honest or a chosen input does, of the consensus rules");
    for (e, n) in [("published", 40), ("aborted", 150), ("due:guest_mainnet", 5), ("due:guest_sepolia", 5), ("due:guest_test_harness", 5), ("undue:guest_mainnet", 20), ("undue:guest_sepolia", 20), ("undue:guest_test_harness", 20)] {
        m.require(e, n);
    }
    let mut rng = m.rng("streams");
    let mut i = 0;
    let mut last: Option<(Vec<u8>, Prog)> = None;
    while m.go(i, 12, u64::MAX, 1.0) {
        i += 1;
        let (p, f) = some_prog(&mut rng);
        let part = match rng.below(4) {
            0 => rng.range(600, 1000),
            _ => 1000,
        };
        let o = WOpt { n: (8, 40), pending: 5, exited: 5, max_gap: 2, skipped: rng.bool(), at: Some((p.spec.clone(), f)), equal: false };
        let (w, _) = finalizing::<E>(&mut rng, &o, &p.cfg, part);
        let want = deserved(&w, &p);
        let j = want.as_ref().ok().map(|v| v.as_slice());
        let parts = w.parts(&BTreeSet::new());
        let bytes = encode_parts(&parts);
        let honest = frame(&bytes);
        if let Err(e) = &want {
            m.event(&format!("refusable:{e:?}"));
        }
        m.sample(|| json!({"program": p.guest, "world": wj(&w), "expected": format!("{:?}", want.as_ref().map(|v| hex(v)))}));
        judge(&mut m, &p, &honest, j, "honest", &w);
        if m.violated() {
            break;
        }
        // what follows the frame is not looked at
        let mut x = honest.clone();
        x.extend(rng.bytes(rng.clone().urange(1, 64)));
        judge(&mut m, &p, &x, j, "more-follows", &w);
        if let Some((b, _)) = last.as_ref().filter(|l| l.1.guest == p.guest && p.head == l.1.head) {
            judge(&mut m, &p, &[&honest[..], &frame(b)].concat(), j, "another-follows", &w);
            judge(&mut m, &p, &[frame(&bytes[..bytes.len() / 2]), honest.clone()].concat(), None, "half-comes-first", &w);
        }
        // streams that end early
        for _ in 0..3 {
            let n = match rng.below(4) {
                0 => rng.idx(5),
                1 => honest.len() - 1 - rng.idx(4),
                _ => rng.idx(honest.len()),
            };
            judge(&mut m, &p, &honest[..n], None, "cut", &w);
        }
        // wrong lengths
        let mut x = honest.clone();
        let far = if rng.bool() { 16 } else { 1 << 24 };
        let more = bytes.len() as u32 + 1 + rng.below(far) as u32;
        x[..4].copy_from_slice(&more.to_le_bytes());
        judge(&mut m, &p, &x, None, "length-beyond", &w);
        let n = rng.idx(bytes.len());
        by_library(&mut m, &p, &bytes[..n], "frame-shortened", &w);
        let turned = (bytes.len() as u32).swap_bytes() as usize;
        if turned > bytes.len() {
            let mut x = honest.clone();
            x[..4].copy_from_slice(&(turned as u32).to_le_bytes());
            judge(&mut m, &p, &x, None, "length-turned", &w);
        }
        judge(&mut m, &p, &frame(&[]), None, "empty", &w);
        let g = rng.bytes(rng.clone().urange(1, 400));
        judge(&mut m, &p, &frame(&g), None, "noise", &w);
        // altered encodings
        for _ in 0..6 {
            let mut b = bytes.clone();
            for _ in 0..rng.urange(1, 3) {
                let i = rng.idx(b.len());
                b[i] ^= 1 << rng.below(8);
            }
            by_library(&mut m, &p, &b, "bits", &w);
        }
        // inputs that are short of something
        let Ok(_) = &want else {
            last = Some((bytes, p));
            continue;
        };
        for k in 0..5 {
            let mut v = w.clone();
            let mut q = parts.clone();
            let label = match k {
                0 => {
                    // one attestation less may or may not matter
                    v.atts.remove(rng.idx(w.atts.len()));
                    q.atts = v.atts.clone();
                    "attestation-left-out"
                }
                1 => {
                    v.atts.clear();
                    q.atts.clear();
                    "no-attestations"
                }
                2 => {
                    v.blocks.clear();
                    q.slots.clear();
                    "no-slot"
                }
                3 => {
                    // keep only what justifies: the last link is missing
                    let t = w.atts.last().unwrap().data.target;
                    v.atts.retain(|a| a.data.target != t);
                    q.atts = v.atts.clone();
                    "not-finalizing"
                }
                _ => {
                    // one more link after finalization
                    let t = w.atts.last().unwrap().data.target;
                    let b = Block::random(&mut rng, (t.e + 1) * w.slots_per_epoch);
                    let l = core_model::ffg::Lk { s: t, t: core_model::ffg::Cp::new(t.e + 1, b.root()) };
                    let i = v.scenario::<E>(&p.cfg).mix_index(l.t.e);
                    v.patches.entry(l.t.e).or_default().mixes.insert(i, rng.bytes32());
                    let s = v.scenario::<E>(&p.cfg);
                    let who = s.active(l.t.e).into_iter().collect();
                    v.atts.extend(attest(&mut rng, &s, &l, &who, false));
                    v.blocks.push(b);
                    q = v.parts(&BTreeSet::new());
                    "goes-on"
                }
            };
            let want = deserved(&v, &p);
            m.event(&format!("short:{label}:{}", want.is_ok()));
            judge(&mut m, &p, &frame(&encode_parts(&q)), want.ok().as_deref(), label, &v);
        }
        // another starting point
        let mut q = parts.clone();
        match rng.below(3) {
            0 => q.st.f.r = rng.bytes32(),
            1 => q.st.j.r = rng.bytes32(),
            _ => q.st.f.e += 1,
        }
        if q.st.valid() {
            let b = encode_parts(&q);
            by_library(&mut m, &p, &b, "other-start", &w);
        }
        last = Some((bytes, p));
    }
    m.finish()
}

// ------------------------------------------------------------------------------------------------ G02
fn spec_lines(s: &ChainSpec) -> Vec<String> {
    format!("{s:#?}").lines().map(|l| l.to_string()).collect()
}

pub fn g02() -> i32 {
    let mut m = Monitor::new("G02", 14, 400, "distinct inputs at a threshold, at a fork or of another network");
    m.assume("the published network configurations are written down from the networks' own repositories");
    for n in ["mainnet", "sepolia"] {
        for (e, k) in [("at_threshold_verified", 3), ("below_threshold_refused", 3), ("beyond_lookahead_refused", 2), ("within_lookahead_verified", 2), ("before_electra_refused", 2), ("around_fulu_verified", 3), ("wrong_version_refused", 2), ("other_network_refused", 3), ("cli", 1)] {
            m.require(&format!("{n}:{e}"), k);
        }
    }
    for n in nets::both() {
        let got = if n.name == "mainnet" { chainspec::mainnet_spec() } else { chainspec::sepolia_spec() };
        let (a, b) = (spec_lines(&n.spec), spec_lines(&got));
        let diff: Vec<_> = a.iter().zip(&b).filter(|(x, y)| x != y).map(|(x, y)| json!([x.trim(), y.trim()])).collect();
        m.event("specification");
        m.events_n("specification_values", b.len() as u64);
        m.check(diff.is_empty() && a.len() == b.len(), &format!("{}/specification", n.name), "the chain specification is not the network's published one", || json!({"network": n.name, "published_and_here": diff}));
        let cfg = if n.name == "mainnet" { &z_core::DEFAULT_CONFIG } else { &z_core::SEPOLIA_CONFIG };
        m.check(*cfg == n.cfg, &format!("{}/rules", n.name), "the verification rules are not the network's", || json!({"network": n.name, "expected": format!("{:?}", n.cfg), "got": format!("{cfg:?}")}));
    }
    let mut rng = m.rng("networks");
    crate::tool::networks(&mut m, &mut rng);
    let mut i = 0;
    while m.go(i, 3, u64::MAX, 1.0) {
        i += 1;
        for n in nets::both() {
            if !m.violated() {
                one_g02(&mut m, &mut rng, &n);
            }
        }
    }
    m.finish()
}
fn one_g02(m: &mut Monitor, rng: &mut Rng, n: &Net) {
    let p = Prog::net(n);
    let ev = |m: &mut Monitor, s: &str| m.event(&format!("{}:{s}", n.name));
    let far = |rng: &mut Rng| rng.range(n.electra + 4, n.fulu + 30_000);
    let opt = |f: u64, gap: u64| WOpt { n: (100, 100), pending: 0, exited: 0, skipped: false, max_gap: gap, at: Some((n.spec.clone(), f)), equal: true };
    // participation
    for (k, ok) in [(n.percent, true), (n.percent - 1, false), (n.percent + 1, true), (99, true), (67, false)] {
        let f = far(rng);
        let (w, _) = finalizing::<E>(rng, &opt(f, 1), &p.cfg, k * 10);
        let want = deserved(&w, &p);
        if want.is_ok() != ok {
            m.event("generator_missed");
            continue;
        }
        ev(m, if ok { "at_threshold_verified" } else { "below_threshold_refused" });
        judge(m, &p, &frame(&encode(&w)), want.ok().as_deref(), &format!("{}-participation-{k}", n.name), &w);
    }
    // lookahead
    for _ in 0..2 {
        let f = far(rng);
        let mut o = opt(f, 6);
        o.n = (10, 20);
        let (w, _) = finalizing::<E>(rng, &o, &p.cfg, 1000);
        let want = deserved(&w, &p);
        match &want {
            Ok(_) => ev(m, "within_lookahead_verified"),
            Err(Why::Lookahead) => ev(m, "beyond_lookahead_refused"),
            Err(_) => m.event("generator_missed"),
        }
        judge(m, &p, &frame(&encode(&w)), want.ok().as_deref(), &format!("{}-lookahead", n.name), &w);
    }
    // forks
    for k in 0..3 {
        let f = if k == 0 { n.electra - 4 - rng.below(4) } else { n.fulu + 2 - rng.below(6) };
        let mut o = opt(f, 2);
        o.n = (10, 20);
        let (w, _) = finalizing::<E>(rng, &o, &p.cfg, 1000);
        let want = deserved(&w, &p);
        if k == 0 {
            if want != Err(Why::Fork) || w.atts.iter().any(|a| a.data.target.e >= n.electra) {
                // a trusted state of an older layout with newer targets: not built here
                m.event("generator_missed");
                continue;
            }
            ev(m, "before_electra_refused");
        } else if want.is_ok() {
            ev(m, "around_fulu_verified");
        }
        judge(m, &p, &frame(&encode(&w)), want.ok().as_deref(), &format!("{}-fork-{}", n.name, k.min(1)), &w);
    }
    // signed under another schedule
    let mut other = n.spec.clone();
    let f = if rng.bool() {
        other.fulu_fork_epoch = Some(Epoch::new(if rng.bool() { n.fulu + 30 } else { n.fulu - 30 }));
        n.fulu - 25 + rng.below(45)
    } else {
        let f = far(rng);
        let v: [u8; 4] = rng.bytes(4).try_into().unwrap();
        (other.electra_fork_version, other.fulu_fork_version) = (v, v);
        f
    };
    let mut o = opt(f, 1);
    o.n = (10, 20);
    o.at = Some((other, f));
    let (w, _) = finalizing::<E>(rng, &o, &p.cfg, 1000);
    let want = deserved(&w, &p);
    if want.is_err() {
        ev(m, "wrong_version_refused");
    }
    // a state laid out for the other schedule may not even be readable here
    let same_layout = spec::fork_no(&w.spec, w.state_slot / 32) == spec::fork_no(&n.spec, w.state_slot / 32);
    if same_layout || want.is_err() {
        judge(m, &p, &frame(&encode(&w)), want.ok().as_deref(), &format!("{}-other-schedule", n.name), &w);
    }
    // the other network's honest inputs
    let nets = nets::both();
    let b = nets.iter().find(|x| x.name != n.name).unwrap();
    let f = rng.range(n.fulu.max(b.fulu) + 2, n.fulu.max(b.fulu) + 50_000);
    let f = if rng.bool() { f } else { rng.range(n.electra.max(b.electra) + 4, n.fulu.max(b.fulu)) };
    let mut o = opt(f, 1);
    o.n = (10, 20);
    o.at = Some((b.spec.clone(), f));
    let (w, _) = finalizing::<E>(rng, &o, &b.cfg, 1000);
    let own = deserved(&w, &Prog::net(b));
    if own.is_ok() {
        ev(m, "other_network_refused");
        let bytes = frame(&encode(&w));
        judge(m, &p, &bytes, None, &format!("{}-given-{}", n.name, b.name), &w);
        judge(m, &Prog::net(b), &bytes, own.ok().as_deref(), &format!("{}-own", b.name), &w);
    }
}
