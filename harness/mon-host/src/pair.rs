//! H09: pairs of readers through the asserting reader.
use alloy_primitives::B256;
use beacon_types::{ChainSpec, Fork};
use core_model::ffg::{Cp, St};
use core_model::scn::{accepted, pk, random_registry, random_spec, real_att, run, sk, Att, ReadError};
use core_model::spec::Data;
use host::AssertInputReader;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use support::{fingerprint, observe, Monitor, Outcome, Rng};
use z_core::{Attestation, ConsensusState, Epoch, InputReader, MainnetEthSpec as E, RandaoMixIndex, Root, ValidatorIndex, ValidatorInfo};

/// a reader whose every answer is written down; what is missing is an error
#[derive(Clone)]
struct Book {
    spec: ChainSpec,
    gvr: Option<B256>,
    forks: BTreeMap<u64, Fork>,
    active: BTreeMap<u64, Vec<(usize, ValidatorInfo)>>,
    mixes: BTreeMap<(u64, u32), Option<B256>>,
    atts: Option<Vec<Attestation<E>>>,
    cons: Option<ConsensusState>,
    slots: BTreeMap<B256, u64>,
}
fn or<T: Clone>(x: Option<&T>) -> Result<T, ReadError> {
    x.cloned().ok_or(ReadError::Missing)
}
impl InputReader for Book {
    type Error = ReadError;
    type Spec = E;
    fn chain_spec(&self) -> &ChainSpec {
        &self.spec
    }
    fn genesis_validators_root(&self) -> Result<Root, ReadError> {
        or(self.gvr.as_ref())
    }
    fn fork(&self, epoch: Epoch) -> Result<Fork, ReadError> {
        or(self.forks.get(&epoch.as_u64()))
    }
    fn active_validators(&self, epoch: Epoch) -> Result<impl Iterator<Item = (ValidatorIndex, &ValidatorInfo)>, ReadError> {
        Ok(self.active.get(&epoch.as_u64()).ok_or(ReadError::Missing)?.iter().map(|(i, v)| (*i, v)))
    }
    fn randao_mix(&self, epoch: Epoch, idx: RandaoMixIndex) -> Result<Option<B256>, ReadError> {
        or(self.mixes.get(&(epoch.as_u64(), idx)))
    }
    fn attestations(&self) -> Result<impl Iterator<Item = &Attestation<E>>, ReadError> {
        Ok(self.atts.as_ref().ok_or(ReadError::Missing)?.iter())
    }
    fn consensus_state(&self) -> Result<ConsensusState, ReadError> {
        or(self.cons.as_ref())
    }
    fn slot_for_block(&self, root: &Root) -> Result<u64, ReadError> {
        or(self.slots.get(root))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Q {
    Spec,
    Gvr,
    Fork(u64),
    Active(u64),
    Mix(u64, u32),
    Atts,
    Cons,
    Slot(B256),
    /// the trait's own derived query
    MixOf(u64),
}
/// the answer in a form that can be compared
fn ask(r: &impl InputReader<Spec = E>, q: Q) -> Result<String, String> {
    fn t<T: std::fmt::Debug>(r: Result<T, impl std::error::Error>) -> Result<String, String> {
        r.map(|x| format!("{x:?}")).map_err(|e| e.to_string())
    }
    match q {
        Q::Spec => Ok(format!("{:?}", r.chain_spec())),
        Q::Gvr => t(r.genesis_validators_root()),
        Q::Fork(e) => t(r.fork(Epoch::new(e))),
        Q::Active(e) => t(r.active_validators(Epoch::new(e)).map(|i| i.map(|(i, v)| (i, v.clone())).collect::<Vec<_>>())),
        Q::Mix(e, i) => t(r.randao_mix(Epoch::new(e), i)),
        Q::Atts => t(r.attestations().map(|i| i.cloned().collect::<Vec<_>>())),
        Q::Cons => t(r.consensus_state()),
        Q::Slot(b) => t(r.slot_for_block(&b)),
        Q::MixOf(e) => t(r.get_randao_mix(Epoch::new(e), Epoch::new(e))),
    }
}

const E0: u64 = 40;
fn att(rng: &mut Rng) -> Att {
    let cp = |rng: &mut Rng| Cp::new(E0 + rng.below(3), rng.bytes32());
    let data = Data { slot: E0 * 32 + rng.below(64), index: 0, bbr: rng.bytes32(), source: cp(rng), target: cp(rng) };
    let n = rng.urange(1, 70);
    let mut sig = bls::AggregateSignature::infinity();
    for _ in 0..rng.below(4) {
        sig.add_assign(&sk(rng.below(20)).sign(B256::from(rng.bytes32())));
    }
    let base = rng.chance(1, 5);
    Att { data, committees: (0..64).map(|_| rng.chance(1, 10)).collect(), bits: (0..n).map(|_| rng.bool()).collect(), sig, base }
}
fn book(rng: &mut Rng) -> (Book, Vec<Q>) {
    let spec = random_spec(rng, ChainSpec::mainnet(), E0, true);
    let n = rng.urange(3, 14);
    let reg = random_registry(rng, n, E0 + 1, 10, 100);
    let (mut forks, mut active, mut mixes) = (BTreeMap::new(), BTreeMap::new(), BTreeMap::new());
    let mut qs = vec![Q::Spec, Q::Gvr, Q::Atts, Q::Cons];
    for e in E0..E0 + 3 {
        let (p, c, at) = core_model::spec::fork_at(&spec, e);
        forks.insert(e, Fork { previous_version: p, current_version: c, epoch: Epoch::new(at) });
        active.insert(e, reg.iter().enumerate().filter(|(_, v)| v.active(e)).map(|(i, v)| (i, v.info())).collect());
        for i in [e as u32, (e + 65534) as u32 % 65536, rng.below(65536) as u32] {
            mixes.insert((e, i), if i == e as u32 || rng.chance(4, 5) { Some(B256::from(rng.bytes32())) } else { None });
            qs.push(Q::Mix(e, i));
        }
        qs.extend([Q::Fork(e), Q::Active(e), Q::MixOf(e)]);
    }
    let slots: BTreeMap<B256, u64> = (0..3).map(|_| (B256::from(rng.bytes32()), rng.below(1 << 40))).collect();
    qs.extend(slots.keys().map(|k| Q::Slot(*k)));
    // what nobody knows
    qs.extend([Q::Fork(E0 + 9), Q::Active(E0 + 9), Q::Mix(E0 + 9, 1), Q::Slot(B256::from(rng.bytes32()))]);
    let st = St { j: Cp::new(E0 + 1, rng.bytes32()), f: Cp::new(E0, rng.bytes32()) };
    let atts = (0..rng.below(5)).map(|_| real_att(&att(rng))).collect();
    let mut b = Book { spec, gvr: Some(B256::from(rng.bytes32())), forks, active, mixes, atts: Some(atts), cons: Some(st.real()), slots };
    // the first reader may fail here and there
    if rng.chance(1, 5) {
        match rng.below(6) {
            0 => b.gvr = None,
            1 => drop(b.forks.remove(&(E0 + 1))),
            2 => drop(b.active.remove(&(E0 + 1))),
            3 => b.atts = None,
            4 => b.cons = None,
            _ => drop(b.slots.pop_first()),
        }
    }
    rng.shuffle(&mut qs);
    (b, qs)
}

/// one difference that must be noticed: its name and the queries it shows in
fn diverge(rng: &mut Rng, b: &mut Book) -> Option<(&'static str, Vec<Q>)> {
    let flip = |rng: &mut Rng, x: &mut B256| x.0[rng.idx(32)] ^= 1 << rng.below(8);
    let e = E0 + rng.below(3);
    Some(match rng.below(24) {
        0 => {
            let s = &mut b.spec;
            match rng.below(8) {
                0 => s.fulu_fork_epoch = Some(Epoch::new(s.fulu_fork_epoch.map_or(77, |e| e.as_u64() ^ 1))),
                1 => s.electra_fork_version[rng.idx(4)] ^= 1,
                2 => s.genesis_fork_version[rng.idx(4)] ^= 4,
                3 => s.shuffle_round_count ^= 1,
                4 => s.target_committee_size += 1,
                5 => s.ejection_balance -= 1,
                6 => s.min_seed_lookahead = Epoch::new(3),
                _ => s.domain_beacon_attester ^= 1,
            }
            ("spec", vec![Q::Spec])
        }
        1 => {
            flip(rng, b.gvr.as_mut()?);
            ("genesis root", vec![Q::Gvr])
        }
        2 => {
            let f = b.forks.get_mut(&e)?;
            match rng.below(3) {
                0 => f.previous_version[rng.idx(4)] ^= 1,
                1 => f.current_version[rng.idx(4)] ^= 16,
                _ => f.epoch = Epoch::new(f.epoch.as_u64() + 1),
            }
            ("fork", vec![Q::Fork(e)])
        }
        3 | 4 => {
            let (k, v) = {
                let n = b.mixes.len();
                b.mixes.iter_mut().nth(rng.idx(n))?
            };
            match v {
                Some(m) if rng.chance(3, 4) => flip(rng, m),
                Some(_) => *v = None,
                None => *v = Some(B256::from(rng.bytes32())),
            }
            ("mix", if k.1 as u64 == k.0 { vec![Q::Mix(k.0, k.1), Q::MixOf(k.0)] } else { vec![Q::Mix(k.0, k.1)] })
        }
        5 => {
            b.atts.as_mut()?.push(real_att(&att(rng)));
            ("one attestation more", vec![Q::Atts])
        }
        6 => {
            b.atts.as_mut()?.pop()?;
            ("one attestation less", vec![Q::Atts])
        }
        7 | 8 => {
            let l = b.atts.as_mut()?;
            if l.is_empty() {
                return None;
            }
            let i = rng.idx(l.len());
            let same = |x: &Attestation<E>, y: &Attestation<E>| x == y;
            let new = real_att(&att(rng));
            match rng.below(3) {
                0 => l[i] = new,
                1 => match &mut l[i] {
                    Attestation::Base(a) => a.data.beacon_block_root.0[3] ^= 1,
                    Attestation::Electra(a) => a.data.source.root.0[7] ^= 1,
                },
                _ => {
                    let j = rng.idx(l.len());
                    if same(&l[i], &l[j]) {
                        return None;
                    }
                    l.swap(i, j);
                }
            }
            ("attestation", vec![Q::Atts])
        }
        9 => {
            let c = St::of(b.cons.as_ref()?);
            let mut d = c;
            match rng.below(3) {
                0 => d.j.r[rng.idx(32)] ^= 1,
                1 => d.f.r[rng.idx(32)] ^= 1,
                _ => d.j.e += 1,
            }
            b.cons = Some(d.real());
            ("consensus state", vec![Q::Cons])
        }
        10 | 11 => {
            let n = b.slots.len();
            let (k, v) = b.slots.iter_mut().nth(rng.idx(n))?;
            *v = if rng.bool() { *v ^ 1 << rng.below(41) } else { *v + (1 << 32) };
            ("slot", vec![Q::Slot(*k)])
        }
        12..=20 => {
            let l = b.active.get_mut(&e)?;
            if l.is_empty() {
                return None;
            }
            let i = rng.idx(l.len());
            let next = l.get(i + 1).map_or(usize::MAX, |x| x.0);
            let name = match rng.below(9) {
                0 => {
                    l.remove(i);
                    "a validator less"
                }
                1 => {
                    let last = l.last().unwrap().clone();
                    l.push((last.0 + 1, last.1));
                    "a validator more"
                }
                2 => {
                    l.pop();
                    "the last validator less"
                }
                3 if l[i].0 + 1 < next => {
                    l[i].0 += 1;
                    "index"
                }
                4 => {
                    l[i].1.pubkey = pk(rng.below(50) + 1_000);
                    "key"
                }
                5 => {
                    l[i].1.slashed ^= true;
                    "slashed"
                }
                6 => {
                    l[i].1.activation_epoch = Epoch::new(l[i].1.activation_epoch.as_u64() ^ 1);
                    "activation"
                }
                7 => {
                    l[i].1.activation_eligibility_epoch = Epoch::new(l[i].1.activation_eligibility_epoch.as_u64() + 1);
                    "eligibility"
                }
                8 if l.len() > 1 => {
                    let j = (i + 1) % l.len();
                    l.swap(i, j);
                    "order"
                }
                _ => return None,
            };
            (name, vec![Q::Active(e)])
        }
        _ => match rng.below(6) {
            0 => {
                b.gvr.take()?;
                ("second fails", vec![Q::Gvr])
            }
            1 => {
                b.forks.remove(&e)?;
                ("second fails", vec![Q::Fork(e)])
            }
            2 => {
                b.active.remove(&e)?;
                ("second fails", vec![Q::Active(e)])
            }
            3 => {
                b.atts.take()?;
                ("second fails", vec![Q::Atts])
            }
            4 => {
                b.cons.take()?;
                ("second fails", vec![Q::Cons])
            }
            _ => {
                let (k, _) = b.slots.pop_first()?;
                ("second fails", vec![Q::Slot(k)])
            }
        },
    })
}
/// differences that are tolerated
fn drift(rng: &mut Rng, b: &mut Book) -> bool {
    let mut any = false;
    for l in b.active.values_mut() {
        for (_, v) in l {
            if rng.chance(1, 3) {
                any = true;
                v.effective_balance = v.effective_balance.wrapping_add(rng.u64() >> rng.below(64));
            }
            if rng.chance(1, 3) {
                any = true;
                v.exit_epoch = Epoch::new(E0 + 3 + rng.below(100));
            }
        }
    }
    any
}

pub fn h09() -> i32 {
    let mut m = Monitor::new("H09", 9, 150, "distinct (difference, query order) between two readers");
    m.assume("the readers are tables; both are asked the same queries");
    for (e, n) in [
        ("agreed", 2_000),
        ("drifted", 300),
        ("first_fails", 100),
        ("noticed:spec", 10),
        ("noticed:genesis root", 10),
        ("noticed:fork", 10),
        ("noticed:mix", 20),
        ("noticed:one attestation more", 10),
        ("noticed:one attestation less", 10),
        ("noticed:attestation", 20),
        ("noticed:consensus state", 10),
        ("noticed:slot", 20),
        ("noticed:a validator less", 5),
        ("noticed:a validator more", 5),
        ("noticed:the last validator less", 5),
        ("noticed:index", 5),
        ("noticed:key", 5),
        ("noticed:slashed", 5),
        ("noticed:activation", 5),
        ("noticed:eligibility", 5),
        ("noticed:order", 5),
        ("noticed:second fails", 10),
        ("several_differences", 50),
        ("verified_alike", 20),
        ("verification_stopped", 20),
    ] {
        m.require(e, n);
    }
    let mut rng = m.rng("tables");
    let mut i = 0;
    while m.go(i, 400, m.scale(1_000_000, 10_000_000), 0.6) {
        i += 1;
        let (a, qs) = book(&mut rng);
        let mut b = a.clone();
        let drifted = rng.chance(1, 3) && drift(&mut rng, &mut b);
        let mut seen: BTreeMap<Q, &'static str> = BTreeMap::new();
        if rng.chance(3, 4) {
            for _ in 0..if rng.chance(1, 4) { 3 } else { 1 } {
                let save = b.clone();
                match diverge(&mut rng, &mut b) {
                    // a second change of the same answer could take the first one back
                    Some((_, q)) if q.iter().any(|q| seen.contains_key(q)) => b = save,
                    Some((n, q)) => seen.extend(q.into_iter().map(|q| (q, n))),
                    None => b = save,
                }
            }
        }
        if seen.values().collect::<BTreeSet<_>>().len() > 1 {
            m.event("several_differences");
        }
        let both = AssertInputReader::new(&a, &b);
        m.case(&fingerprint(&(&seen, drifted, &qs)), !seen.is_empty() || drifted);
        for q in &qs {
            let want = ask(&a, *q);
            let got = observe(|| ask(&both, *q));
            let d = || json!({"query": format!("{q:?}"), "difference": seen.get(q), "drifted": drifted, "first": format!("{want:?}"), "second": format!("{:?}", ask(&b, *q)), "got": format!("{got:?}")});
            if let Some(n) = seen.get(q) {
                let key = n.replace(' ', "-");
                if !m.check(!matches!(&got, Outcome::Ret(Ok(_))), &format!("unnoticed-{key}"), "two readers differ and the asserting reader goes on", d) {
                    return m.finish();
                }
                m.event(&format!("noticed:{n}"));
                continue;
            }
            let ok = match &want {
                Ok(_) => got == Outcome::Ret(want.clone()),
                Err(_) => {
                    m.event("first_fails");
                    matches!(&got, Outcome::Ret(Err(_)))
                }
            };
            m.event(if drifted { "drifted" } else { "agreed" });
            if !m.check(ok, "unlike-first", "the readers agree, but the asserting reader does not behave like the first", d) {
                return m.finish();
            }
        }
    }
    verification(&mut m);
    m.finish()
}

/// whole verifications through a pair of readers
fn verification(m: &mut Monitor) {
    use core_model::scn::{random_scn, Opt, Reader};
    let mut rng = m.rng("verification");
    let mut i = 0;
    while m.go(i, 60, m.scale(1_000_000, 10_000_000), 1.0) {
        i += 1;
        let s = random_scn::<E>(&mut rng, &Opt { n: (33, 60), ..Opt::default() });
        let mut t = s.clone();
        let links = s.groups().iter().map(|g| g.0).collect::<Vec<_>>();
        let Some(link) = links.last().copied() else { continue };
        let mut touched = true;
        let name = match rng.below(10) {
            0 => {
                t.gvr[rng.idx(32)] ^= 1;
                "genesis root"
            }
            1 => {
                t.atts.pop();
                "attestations"
            }
            2 => {
                let k = rng.idx(t.atts.len());
                t.atts[k].data.bbr[0] ^= 1;
                "attestation"
            }
            3 => {
                t.start.f.r[5] ^= 1;
                "start"
            }
            4 => {
                let k = (link.t.e, t.mix_index(link.t.e));
                let Some(x) = t.mixes.get_mut(&k) else { continue };
                x[9] ^= 1;
                "mix"
            }
            5 => {
                let a = t.active(link.t.e);
                let v = *rng.pick(&a);
                t.vals[v].key += 5_000;
                "key"
            }
            6 => {
                let a = t.active(link.t.e);
                let v = *rng.pick(&a);
                t.vals[v].exit = link.t.e;
                "set"
            }
            7 => {
                let Some(x) = t.slots.get_mut(&link.s.r) else { continue };
                *x += 1;
                "slot"
            }
            8 => {
                for v in &mut t.vals {
                    v.eff += 1;
                }
                touched = false;
                "balances"
            }
            _ => {
                touched = false;
                "nothing"
            }
        };
        let (a, b) = (Reader::<E>::new(&s), Reader::<E>::new(&t));
        let alone = run(&s.cfg, &a);
        let both = run(&s.cfg, &AssertInputReader::new(&a, &b));
        m.case(&("verify", fingerprint(name), s.vals.len(), links.len()), touched);
        let d = || json!({"difference": name, "alone": format!("{alone:?}"), "together": format!("{both:?}"), "scenario": s.json()});
        if touched {
            // one that is refused may be refused before the difference shows
            m.event("verification_stopped");
            if !m.check(accepted(&both).is_none(), "verified-apart", "verification succeeds although the readers differ in what it reads", d) {
                return;
            }
        } else {
            m.event("verified_alike");
            if !m.check(accepted(&alone) == accepted(&both), "verified-unlike", "verification through agreeing readers differs from the first reader's", d) {
                return;
            }
        }
    }
}
