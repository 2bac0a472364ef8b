//! Verification scenarios: a registry, a trusted state, attestations; the real verifier run over them through a
//! recording reader, and the reference verdict computed from the specification.
use crate::ffg::{Cp, Lk, St};
use crate::spec::{self, Committees, Data, FAR};
use crate::ssz::Hash;
use alloy_primitives::B256;
use beacon_types::{AttestationBase, AttestationElectra, BitList, BitVector, ChainSpec, EthSpec, ForkName};
use bls::{AggregateSignature, PublicKey, SecretKey};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::marker::PhantomData;
use support::{observe, Outcome, Rng};
use z_core::{Attestation, Config, ConsensusState, Epoch, InputReader, RandaoMixIndex, Root, Slot, ValidatorIndex, ValidatorInfo, VerifyError};

thread_local! { static KEYS: RefCell<HashMap<u64, SecretKey>> = RefCell::new(HashMap::new()); }
pub fn sk(id: u64) -> SecretKey {
    KEYS.with(|k| {
        k.borrow_mut()
            .entry(id)
            .or_insert_with(|| {
                let mut b = [7u8; 32];
                b[24..].copy_from_slice(&id.to_be_bytes());
                SecretKey::deserialize(&b).unwrap()
            })
            .clone()
    })
}
pub fn pk(id: u64) -> PublicKey {
    sk(id).public_key()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct V {
    pub key: u64,
    pub eff: u64,
    pub slashed: bool,
    pub elig: u64,
    pub act: u64,
    pub exit: u64,
}
impl V {
    pub fn active(&self, e: u64) -> bool {
        self.act <= e && e < self.exit
    }
    pub fn info(&self) -> ValidatorInfo {
        ValidatorInfo {
            pubkey: pk(self.key),
            effective_balance: self.eff,
            slashed: self.slashed,
            activation_eligibility_epoch: Epoch::new(self.elig),
            activation_epoch: Epoch::new(self.act),
            exit_epoch: Epoch::new(self.exit),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Att {
    pub data: Data,
    pub committees: Vec<bool>,
    pub bits: Vec<bool>,
    pub sig: AggregateSignature,
    pub base: bool,
}

#[derive(Clone, Debug)]
pub struct Scn {
    pub cfg: Config,
    pub spec: ChainSpec,
    pub slots_per_epoch: u64,
    pub max_committees: usize,
    pub ephv: u64,
    pub gvr: Hash,
    pub vals: Vec<V>,
    /// exits known for one epoch only: (epoch, validator) -> exit epoch
    pub exits: BTreeMap<(u64, usize), u64>,
    pub start: St,
    pub atts: Vec<Att>,
    /// (epoch of the state, index) -> mix
    pub mixes: BTreeMap<(u64, u32), Hash>,
    pub slots: BTreeMap<Hash, u64>,
}

pub const MIN_SLOTS: u64 = 8;

impl Scn {
    pub fn empty<E: EthSpec>(spec: ChainSpec, cfg: Config) -> Scn {
        use beacon_types::Unsigned;
        Scn {
            cfg,
            spec,
            slots_per_epoch: E::slots_per_epoch(),
            max_committees: E::MaxCommitteesPerSlot::to_usize(),
            ephv: E::EpochsPerHistoricalVector::to_u64(),
            gvr: [0; 32],
            vals: vec![],
            exits: BTreeMap::new(),
            start: St { j: Cp { e: 0, r: [0; 32] }, f: Cp { e: 0, r: [0; 32] } },
            atts: vec![],
            mixes: BTreeMap::new(),
            slots: BTreeMap::new(),
        }
    }
    pub fn is_active(&self, i: usize, e: u64) -> bool {
        self.vals[i].active(e) && self.exits.get(&(e, i)).is_none_or(|x| e < *x)
    }
    pub fn active(&self, e: u64) -> Vec<usize> {
        (0..self.vals.len()).filter(|i| self.is_active(*i, e)).collect()
    }
    pub fn mix_index(&self, e: u64) -> u32 {
        ((e + self.ephv - self.spec.min_seed_lookahead.as_u64() - 1) % self.ephv) as u32
    }
    pub fn committees(&self, e: u64) -> Option<Committees> {
        let a = self.active(e);
        let mix = self.mixes.get(&(e, self.mix_index(e)))?;
        if a.is_empty() {
            return None;
        }
        let per = spec::committees_per_slot(a.len(), self.slots_per_epoch, self.spec.target_committee_size, self.spec.max_committees_per_slot);
        Some(spec::committees(&a, &spec::attester_seed(e, mix), self.spec.shuffle_round_count, self.slots_per_epoch, per))
    }
    pub fn domain(&self, e: u64) -> Hash {
        let (prev, cur, at) = spec::fork_at(&self.spec, e);
        spec::domain([1, 0, 0, 0], if e < at { prev } else { cur }, &self.gvr)
    }
    pub fn sign(&self, data: &Data, who: impl IntoIterator<Item = usize>) -> AggregateSignature {
        self.sign_root(&data.signing_root(&self.domain(data.target.e)), who)
    }
    pub fn sign_root(&self, root: &Hash, who: impl IntoIterator<Item = usize>) -> AggregateSignature {
        let mut s = AggregateSignature::infinity();
        for i in who {
            s.add_assign(&sk(self.vals[i].key).sign(B256::from(*root)));
        }
        s
    }
    /// the members an attestation designates, in order of the bits; `None` if it is malformed
    pub fn designated(&self, a: &Att, c: &Committees) -> Result<Vec<usize>, Why> {
        if a.base {
            return Err(Why::Structure);
        }
        if a.data.slot / self.slots_per_epoch != a.data.target.e || a.data.index != 0 {
            return Err(Why::Structure);
        }
        let coms = &c.by_slot[(a.data.slot % self.slots_per_epoch) as usize];
        let mut off = 0;
        let mut out = vec![];
        for (k, sel) in a.committees.iter().enumerate() {
            if !sel {
                continue;
            }
            let m = coms.get(k).ok_or(Why::Structure)?;
            let mut any = false;
            for (i, v) in m.iter().enumerate() {
                if *a.bits.get(off + i).ok_or(Why::Structure)? {
                    any = true;
                    out.push(*v);
                }
            }
            if !any {
                return Err(Why::Structure);
            }
            off += m.len();
        }
        if off != a.bits.len() {
            return Err(Why::Structure);
        }
        if out.is_empty() {
            return Err(Why::NoSigner);
        }
        Ok(out)
    }
    pub fn sig_ok(&self, a: &Att, who: &[usize]) -> bool {
        let keys: Vec<PublicKey> = who.iter().map(|i| pk(self.vals[*i].key)).collect();
        let root = a.data.signing_root(&self.domain(a.data.target.e));
        a.sig.fast_aggregate_verify(B256::from(root), &keys.iter().collect::<Vec<_>>())
    }
    fn total(&self, who: impl IntoIterator<Item = usize>) -> Option<u64> {
        let mut t = 0u64;
        for i in who {
            t = t.checked_add(self.vals[i].eff)?;
        }
        Some(t.max(self.spec.effective_balance_increment))
    }
    pub fn groups(&self) -> Vec<(Lk, Vec<&Att>)> {
        let mut v: Vec<(Lk, Vec<&Att>)> = vec![];
        for a in &self.atts {
            let l = Lk { s: a.data.source, t: a.data.target };
            match v.last_mut() {
                Some((k, g)) if *k == l => g.push(a),
                _ => v.push((l, vec![a])),
            }
        }
        v
    }
    /// The verdict the properties prescribe for this scenario.
    pub fn expect(&self) -> Result<(St, u64), Why> {
        let mut st = self.start;
        if !st.valid() {
            return Err(Why::BadStart);
        }
        for (link, atts) in self.groups() {
            if st.f != self.start.f {
                return Err(Why::Continues);
            }
            let e = link.t.e;
            let no = spec::fork_no(&self.spec, e);
            if no < fork_rank(self.cfg.min_version) || no > fork_rank(self.cfg.max_version) {
                return Err(Why::Fork);
            }
            if e.saturating_sub(self.start.f.e) > self.cfg.epoch_lookahead_limit.as_u64() {
                return Err(Why::Lookahead);
            }
            let c = self.committees(e).ok_or(Why::NoCommittees)?;
            let mut part = BTreeSet::new();
            for a in atts {
                let who = self.designated(a, &c)?;
                if !self.sig_ok(a, &who) {
                    return Err(Why::Signature);
                }
                part.extend(who);
            }
            let b = self.total(part.into_iter().filter(|i| !self.vals[*i].slashed)).ok_or(Why::Overflow)?;
            let t = self.total(self.active(e)).ok_or(Why::Overflow)?;
            if (b as u128) * (self.cfg.justification_threshold_quotient as u128) < (t as u128) * (self.cfg.justification_threshold_factor as u128) {
                return Err(Why::Threshold);
            }
            if (b as u128) * 3 < (t as u128) * 2 {
                return Err(Why::BelowTwoThirds);
            }
            if b.checked_mul(3).is_none() || t.checked_mul(2).is_none() {
                return Err(Why::Overflow);
            }
            st = st.apply(&link).ok_or(Why::Transition)?;
        }
        if st.f == self.start.f {
            return Err(Why::NotFinal);
        }
        let slot = *self.slots.get(&st.f.r).ok_or(Why::NoSlot)?;
        Ok((st, slot))
    }
    pub fn json(&self) -> serde_json::Value {
        serde_json::json!({"start": self.start, "validators": self.vals.len(), "links": self.groups().iter().map(|(l, a)| serde_json::json!({"link": l, "attestations": a.len(),
            "atts": a.iter().take(4).map(|a| serde_json::json!({"slot": a.data.slot, "index": a.data.index, "committees": ones(&a.committees), "bits": ones(&a.bits), "len": a.bits.len()})).collect::<Vec<_>>() })).collect::<Vec<_>>(),
            "lookahead": self.cfg.epoch_lookahead_limit.as_u64(), "factor": self.cfg.justification_threshold_factor, "quotient": self.cfg.justification_threshold_quotient,
            "forks": format!("{:?} {:?} {:?}", self.spec.electra_fork_epoch, self.spec.fulu_fork_epoch, self.spec.gloas_fork_epoch)})
    }
}
fn ones(b: &[bool]) -> Vec<usize> {
    b.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect()
}
pub fn fork_rank(f: ForkName) -> usize {
    match f {
        ForkName::Base => 0,
        ForkName::Altair => 1,
        ForkName::Bellatrix => 2,
        ForkName::Capella => 3,
        ForkName::Deneb => 4,
        ForkName::Electra => 5,
        ForkName::Fulu => 6,
        _ => 7,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Why {
    BadStart,
    Continues,
    Fork,
    Lookahead,
    NoCommittees,
    Structure,
    NoSigner,
    Signature,
    Threshold,
    BelowTwoThirds,
    Overflow,
    Transition,
    NotFinal,
    NoSlot,
}

pub fn real_att<E: EthSpec>(a: &Att) -> Attestation<E> {
    let data = z_core::AttestationData {
        slot: Slot::new(a.data.slot),
        index: a.data.index,
        beacon_block_root: B256::from(a.data.bbr),
        source: a.data.source.real().into(),
        target: a.data.target.real().into(),
    };
    if a.base {
        let mut bits = BitList::with_capacity(a.bits.len()).unwrap();
        for (i, b) in a.bits.iter().enumerate() {
            bits.set(i, *b).unwrap();
        }
        return Attestation::Base(AttestationBase { aggregation_bits: bits, data, signature: a.sig.clone() });
    }
    let mut bits = BitList::with_capacity(a.bits.len()).unwrap();
    for (i, b) in a.bits.iter().enumerate() {
        bits.set(i, *b).unwrap();
    }
    let mut cb = BitVector::new();
    for (i, b) in a.committees.iter().enumerate() {
        cb.set(i, *b).unwrap();
    }
    Attestation::Electra(AttestationElectra { aggregation_bits: bits, data, signature: a.sig.clone(), committee_bits: cb })
}

/// What the verifier asked its reader for.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Read {
    Active(u64),
    Randao(u64, u32),
    Fork(u64),
    Slot(Hash),
}

#[derive(Debug, thiserror::Error)]
pub enum ReadError {
    #[error("missing")]
    Missing,
    #[error("arith {0:?}")]
    Arith(safe_arith::ArithError),
}
impl From<safe_arith::ArithError> for ReadError {
    fn from(e: safe_arith::ArithError) -> Self {
        ReadError::Arith(e)
    }
}

/// Serves a scenario through the reader interface and records what is read.
pub struct Reader<'s, E: EthSpec> {
    pub scn: &'s Scn,
    infos: Vec<ValidatorInfo>,
    atts: Vec<Attestation<E>>,
    pub log: RefCell<Vec<Read>>,
    _e: PhantomData<E>,
}
impl<'s, E: EthSpec> Reader<'s, E> {
    pub fn new(scn: &'s Scn) -> Self {
        Reader {
            scn,
            infos: scn.vals.iter().map(|v| v.info()).collect(),
            atts: scn.atts.iter().map(real_att).collect(),
            log: RefCell::new(vec![]),
            _e: PhantomData,
        }
    }
}
impl<E: EthSpec> InputReader for Reader<'_, E> {
    type Error = ReadError;
    type Spec = E;
    fn chain_spec(&self) -> &ChainSpec {
        &self.scn.spec
    }
    fn genesis_validators_root(&self) -> Result<Root, ReadError> {
        Ok(B256::from(self.scn.gvr))
    }
    fn fork(&self, epoch: Epoch) -> Result<beacon_types::Fork, ReadError> {
        self.log.borrow_mut().push(Read::Fork(epoch.as_u64()));
        let (p, c, e) = spec::fork_at(&self.scn.spec, epoch.as_u64());
        Ok(beacon_types::Fork { previous_version: p, current_version: c, epoch: Epoch::new(e) })
    }
    fn active_validators(&self, epoch: Epoch) -> Result<impl Iterator<Item = (ValidatorIndex, &ValidatorInfo)>, ReadError> {
        let e = epoch.as_u64();
        self.log.borrow_mut().push(Read::Active(e));
        Ok(self.infos.iter().enumerate().filter(move |(i, _)| self.scn.is_active(*i, e)))
    }
    fn randao_mix(&self, epoch: Epoch, idx: RandaoMixIndex) -> Result<Option<B256>, ReadError> {
        self.log.borrow_mut().push(Read::Randao(epoch.as_u64(), idx));
        Ok(self.scn.mixes.get(&(epoch.as_u64(), idx)).map(|m| B256::from(*m)))
    }
    fn attestations(&self) -> Result<impl Iterator<Item = &Attestation<E>>, ReadError> {
        Ok(self.atts.iter())
    }
    fn consensus_state(&self) -> Result<ConsensusState, ReadError> {
        Ok(self.scn.start.real())
    }
    fn slot_for_block(&self, root: &Root) -> Result<u64, ReadError> {
        self.log.borrow_mut().push(Read::Slot(root.0));
        self.scn.slots.get(&root.0).copied().ok_or(ReadError::Missing)
    }
}

pub type Verdict = Outcome<Result<(St, u64), VerifyError>>;
pub fn run<R: InputReader>(cfg: &Config, r: &R) -> Verdict {
    observe(|| z_core::verify(cfg, r).map(|(s, slot)| (St::of(&s), slot)))
}
pub fn run_scn<E: EthSpec>(s: &Scn) -> Verdict {
    observe(|| Reader::<E>::new(s)).ret().map(|r| run(&s.cfg, &r)).unwrap_or(Outcome::Panic("reader".into()))
}
pub fn accepted(v: &Verdict) -> Option<(St, u64)> {
    match v {
        Outcome::Ret(Ok(x)) => Some(*x),
        _ => None,
    }
}

/// Choices of the generator.
#[derive(Clone, Debug)]
pub struct Opt {
    pub n: (usize, usize),
    pub max_justify: usize,
    /// percentage of active validators attesting (per validator)
    pub part: u64,
    pub slashed_pct: u64,
    pub lookahead: Option<u64>,
    pub forks: bool,
}
impl Default for Opt {
    fn default() -> Self {
        Opt { n: (8, 90), max_justify: 2, part: 96, slashed_pct: 3, lookahead: None, forks: true }
    }
}

pub fn random_registry(rng: &mut Rng, n: usize, around: u64, slashed_pct: u64, key0: u64) -> Vec<V> {
    let mut v: Vec<V> = (0..n)
        .map(|i| {
            let eff = match rng.below(5) {
                0 => 32_000_000_000 + 1_000_000_000 * rng.below(60),
                1 => 17_000_000_000 + 1_000_000_000 * rng.below(15),
                _ => 32_000_000_000,
            };
            let mut v = V { key: key0 + i as u64, eff, slashed: rng.chance(slashed_pct, 100), elig: 0, act: 0, exit: FAR };
            match rng.below(12) {
                0 => {
                    v.exit = around.saturating_sub(3) + rng.below(10);
                }
                1 => {
                    v.act = around.saturating_sub(3) + rng.below(10);
                    v.elig = v.act.saturating_sub(5);
                }
                2 if rng.chance(1, 2) => {
                    v.act = FAR;
                    v.elig = FAR;
                }
                _ => {
                    v.act = rng.below(around.max(1));
                    v.elig = v.act.saturating_sub(5);
                }
            }
            v
        })
        .collect();
    // some keys are shared: distinct validators with equal keys
    if n > 4 && rng.chance(1, 6) {
        let a = rng.idx(n);
        let b = rng.idx(n);
        v[a].key = v[b].key;
    }
    v
}

pub fn random_spec(rng: &mut Rng, base: ChainSpec, f: u64, forks: bool) -> ChainSpec {
    let mut s = base;
    let z = Some(Epoch::new(0));
    s.altair_fork_epoch = z;
    s.bellatrix_fork_epoch = z;
    s.capella_fork_epoch = z;
    s.deneb_fork_epoch = z;
    s.electra_fork_epoch = z;
    // smaller committees: with few validators, as many committees as large registries have
    if rng.chance(1, 4) {
        s.target_committee_size = rng.urange(1, 4);
    }
    if forks {
        let lo = f.saturating_sub(2);
        match rng.below(4) {
            0 => {
                s.electra_fork_epoch = Some(Epoch::new(rng.range(f.saturating_sub(9), f)));
                s.deneb_fork_epoch = Some(Epoch::new(f.saturating_sub(9)));
                s.fulu_fork_epoch = Some(Epoch::new(f + 1 + rng.below(8)));
            }
            1 => s.fulu_fork_epoch = Some(Epoch::new(rng.range(lo, f + 5))),
            2 => s.fulu_fork_epoch = Some(Epoch::new(f + 100)),
            _ => {}
        }
    }
    s
}

/// A start state and a supported chain of links from it: some justifications, then one finalization.
pub fn random_links(rng: &mut Rng, f: u64, lookahead: u64, max_justify: usize) -> (St, Vec<Lk>) {
    // F < J, J + 1 <= F + lookahead
    let fc = Cp::new(f, rng.bytes32());
    let j0 = f + 1 + rng.below(lookahead.saturating_sub(1).clamp(1, 3));
    let mut j = Cp::new(j0, rng.bytes32());
    let st = St { j, f: fc };
    let mut links = vec![];
    for _ in 0..rng.below(max_justify as u64 + 1) {
        let gap = 2 + rng.below(2);
        if j.e + gap + 1 > f + lookahead {
            break;
        }
        let t = Cp::new(j.e + gap, rng.bytes32());
        links.push(Lk { s: j, t });
        j = t;
    }
    links.push(Lk { s: j, t: Cp::new(j.e + 1, rng.bytes32()) });
    (st, links)
}

/// Attestations for a link by `who`, split into aggregates over random committee subsets, some overlapping.
pub fn attest(rng: &mut Rng, s: &Scn, link: &Lk, who: &BTreeSet<usize>, overlap: bool) -> Vec<Att> {
    let Some(c) = s.committees(link.t.e) else { return vec![] };
    let mut out = vec![];
    for slot in 0..s.slots_per_epoch {
        let coms = &c.by_slot[slot as usize];
        let mut order: Vec<usize> = (0..coms.len()).collect();
        rng.shuffle(&mut order);
        let mut k = 0;
        let rounds = if overlap && rng.chance(1, 3) { 2 } else { 1 };
        for round in 0..rounds {
            k = 0;
            while k < order.len() {
                let take = rng.urange(1, order.len() - k);
                let mut sel: Vec<usize> = order[k..k + take].to_vec();
                sel.sort();
                k += take;
                let mut bits = vec![];
                let mut signers = vec![];
                let mut committees = vec![false; s.max_committees];
                for ci in sel {
                    let m = &coms[ci];
                    let mut b: Vec<bool> = m.iter().map(|v| who.contains(v) && (round == 0 || rng.bool())).collect();
                    if b.iter().all(|x| !x) {
                        if round > 0 {
                            b = m.iter().map(|v| who.contains(v)).collect();
                        }
                        if b.iter().all(|x| !x) {
                            continue;
                        }
                    }
                    committees[ci] = true;
                    signers.extend(m.iter().zip(&b).filter(|x| *x.1).map(|x| *x.0));
                    bits.extend(b);
                }
                if signers.is_empty() {
                    continue;
                }
                let data = Data {
                    slot: link.t.e * s.slots_per_epoch + slot,
                    index: 0,
                    bbr: if rng.chance(1, 4) { rng.bytes32() } else { [slot as u8; 32] },
                    source: link.s,
                    target: link.t,
                };
                let sig = s.sign(&data, signers);
                out.push(Att { data, committees, bits, sig, base: false });
            }
        }
        let _ = k;
    }
    rng.shuffle(&mut out);
    out
}

pub fn random_scn<E: EthSpec>(rng: &mut Rng, opt: &Opt) -> Scn {
    let f = match rng.below(6) {
        0 => rng.below(4),
        1 => 65_530 + rng.below(20),
        2 => rng.range(364_000, 420_000),
        _ => rng.range(5, 200),
    };
    let spec = random_spec(rng, E::default_spec(), f, opt.forks);
    let mut cfg = z_core::DEFAULT_CONFIG.clone();
    let look = opt.lookahead.unwrap_or_else(|| if rng.chance(3, 4) { 4 } else { 2 + rng.below(7) });
    cfg.epoch_lookahead_limit = Epoch::new(look);
    if rng.chance(1, 3) {
        cfg = Config { epoch_lookahead_limit: Epoch::new(look), ..z_core::SEPOLIA_CONFIG.clone() };
    }
    let mut s = Scn::empty::<E>(spec, cfg);
    s.gvr = rng.bytes32();
    let n = rng.urange(opt.n.0, opt.n.1);
    let key0 = rng.below(50);
    s.vals = random_registry(rng, n, f + 1, opt.slashed_pct, key0);
    let (st, links) = random_links(rng, f, look, opt.max_justify);
    s.start = st;
    for l in &links {
        let i = s.mix_index(l.t.e);
        let m = rng.bytes32();
        s.mixes.insert((l.t.e, i), m);
    }
    for l in &links {
        let who: BTreeSet<usize> = s.active(l.t.e).into_iter().filter(|_| rng.chance(opt.part, 100)).collect();
        let a = attest(rng, &s, l, &who, true);
        s.atts.extend(a);
    }
    // a reader may know the slot of every block there is: that must not matter for what is finalized
    if rng.chance(3, 4) {
        for c in [s.start.f, s.start.j].into_iter().chain(links.iter().flat_map(|l| [l.s, l.t])) {
            s.slots.insert(c.r, c.e * s.slots_per_epoch);
        }
    }
    // slots of some blocks, among them the one to be finalized
    s.slots.insert(links.last().unwrap().s.r, links.last().unwrap().s.e * s.slots_per_epoch - rng.below(3).min(links.last().unwrap().s.e));
    for l in &links {
        if rng.bool() {
            s.slots.entry(l.t.r).or_insert(l.t.e * s.slots_per_epoch);
        }
    }
    s
}
