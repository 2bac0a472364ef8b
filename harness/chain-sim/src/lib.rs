//! A small Ethereum beacon chain (mainnet preset, Electra and Fulu), written from the consensus specification: slots,
//! blocks with attestations, justification and finalization, registry updates, exit and consolidation queues,
//! slashings, RANDAO. States are kept as light snapshots and turned into full `BeaconState`s on demand.
//! It is the honest world the host code runs against, and the source of what that code should find.
pub mod serve;
pub mod state;
pub mod walk;

use core_model::ffg::{Cp, Lk, St};
use core_model::scn::{pk, sk, V};
use core_model::spec::{self, Committees, Data, FAR};
pub type Hash = [u8; 32];
use alloy_primitives::B256;
use beacon_types::ChainSpec;
use bls::AggregateSignature;
use ethereum_consensus::electra::{self as ec, mainnet::Attestation as WireAtt};
use ethereum_consensus::types::mainnet::BeaconBlock;
use host::mainnet::BeaconState;
use ssz_rs::prelude::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use support::Rng;

pub const SPE: u64 = 32;
pub const EPHV: u64 = 65536;
const ETH: u64 = 1_000_000_000;

#[derive(Clone, Debug)]
pub struct Knobs {
    pub n: usize,
    pub base: u64,
    pub epochs: u64,
    pub spec: ChainSpec,
    /// share of members attesting, per mille, per epoch since `base` (the last entry repeats)
    pub part: Vec<u64>,
    /// per cent of aggregates that reach blocks late, anywhere up to the last allowed slot
    pub late: u64,
    /// per epoch since `base`: every attestation of it is included only from the given offset (in slots after the
    /// start of the next epoch) on
    pub hold: BTreeMap<u64, u64>,
    pub never: u64,
    pub twice: u64,
    pub split: u64,
    pub wrong: u64,
    /// per cent of slots without a block, and of epoch starts
    pub miss: u64,
    pub miss_start: u64,
    pub miss_run: u64,
    pub exits: u64,
    pub slashings: u64,
    pub consolidations: u64,
    pub deposits: u64,
    pub balance: u64,
    /// exit queues already filled up to this many epochs ahead
    pub queue: (u64, u64),
    pub waiting: u64,
}
impl Knobs {
    /// everything calm: full participation, no lifecycle events
    pub fn calm(rng: &mut Rng) -> Knobs {
        let mut spec = ChainSpec::mainnet();
        let z = Some(z_core::Epoch::new(0));
        spec.altair_fork_epoch = z;
        spec.bellatrix_fork_epoch = z;
        spec.capella_fork_epoch = z;
        spec.deneb_fork_epoch = z;
        spec.electra_fork_epoch = Some(z_core::Epoch::new(1));
        spec.fulu_fork_epoch = None;
        spec.shuffle_round_count = 10;
        Knobs {
            n: rng.urange(34, 120),
            base: rng.range(300, 100_000),
            epochs: 6,
            spec,
            part: vec![1000],
            late: 0,
            hold: BTreeMap::new(),
            never: 0,
            twice: 0,
            split: 0,
            wrong: 0,
            miss: 0,
            miss_start: 0,
            miss_run: 0,
            exits: 0,
            slashings: 0,
            consolidations: 0,
            deposits: 0,
            balance: 0,
            queue: (0, 0),
            waiting: 0,
        }
    }
    /// a bit of everything
    pub fn random(rng: &mut Rng) -> Knobs {
        let mut k = Knobs::calm(rng);
        k.epochs = rng.range(7, 10);
        let lively = rng.range(900, 1000);
        k.part = (0..k.epochs)
            .map(|_| match rng.below(12) {
                0 => 0,
                1 => rng.range(500, 660),
                2 => rng.range(660, 720),
                3 => rng.range(720, 870),
                _ => lively,
            })
            .collect();
        let some = |rng: &mut Rng, pct: u64, lo: u64, hi: u64| if rng.chance(pct, 100) { rng.range(lo, hi) } else { 0 };
        k.late = some(rng, 50, 1, 60);
        if rng.chance(1, 3) {
            let e = rng.range(2, 4);
            k.hold.insert(e, rng.below(32));
        }
        k.never = some(rng, 30, 1, 8);
        k.twice = some(rng, 40, 1, 30);
        k.split = some(rng, 50, 1, 60);
        k.wrong = some(rng, 30, 1, 10);
        k.miss = some(rng, 60, 1, 40);
        k.miss_start = some(rng, 60, 10, 100);
        k.miss_run = some(rng, 25, 1, 40);
        k.exits = some(rng, 50, 1, 20);
        k.slashings = some(rng, 40, 1, 6);
        k.consolidations = some(rng, 40, 1, 15);
        k.deposits = some(rng, 40, 1, 15);
        k.balance = some(rng, 40, 1, 60);
        k.waiting = some(rng, 60, 1, 25);
        k.queue = (some(rng, 30, 1, 12), some(rng, 30, 1, 12));
        if rng.chance(1, 2) {
            k.spec.target_committee_size = rng.urange(1, 3);
        }
        if rng.chance(1, 2) {
            k.spec.churn_limit_quotient = rng.range(4, 40);
        }
        if rng.chance(1, 3) {
            k.spec.shard_committee_period = rng.below(256);
        }
        match rng.below(5) {
            0 => k.spec.fulu_fork_epoch = Some(z_core::Epoch::new(k.base + rng.below(k.epochs))),
            1 => k.spec.fulu_fork_epoch = Some(z_core::Epoch::new(2)),
            2 => k.spec.fulu_fork_epoch = Some(z_core::Epoch::new(k.base + k.epochs + 3)),
            _ => {}
        }
        k
    }
    /// justifications reach every verification threshold, some epochs are left out, and the registry is busy
    pub fn eventful(rng: &mut Rng) -> Knobs {
        let mut k = Knobs::random(rng);
        k.n = rng.urange(34, 100);
        k.epochs = rng.range(7, 9);
        let lively = rng.range(970, 1000);
        k.part = vec![lively; k.epochs as usize];
        if rng.chance(2, 3) {
            let i = rng.urange(2, 5);
            k.part[i] = rng.below(550);
        }
        k.hold.clear();
        k.never = 0;
        k.wrong = rng.below(2);
        k.late = rng.below(12);
        k.miss = if rng.bool() { rng.below(12) } else { 0 };
        k.miss_start = *rng.pick(&[0, 30, 60, 100]);
        k.miss_run = *rng.pick(&[0, 0, 30]);
        k.exits = *rng.pick(&[0, 5, 20, 60]);
        k.slashings = *rng.pick(&[0, 0, 1]);
        k.consolidations = *rng.pick(&[0, 0, 15, 40]);
        k.deposits = *rng.pick(&[0, 5, 20]);
        k.balance = *rng.pick(&[0, 0, 10]);
        k.waiting = *rng.pick(&[0, 10, 25]);
        k
    }
    fn part_at(&self, e: u64) -> u64 {
        let i = (e - self.base) as usize;
        *self.part.get(i).or(self.part.last()).unwrap()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Hdr {
    pub slot: u64,
    pub proposer: u64,
    pub parent: Hash,
    pub state_root: Hash,
    pub body_root: Hash,
}
impl Hdr {
    pub fn real(&self) -> ec::BeaconBlockHeader {
        ec::BeaconBlockHeader {
            slot: self.slot,
            proposer_index: self.proposer as usize,
            parent_root: B256::from(self.parent),
            state_root: B256::from(self.state_root),
            body_root: B256::from(self.body_root),
        }
    }
    pub fn root(&self) -> Hash {
        let mut w = vec![core_model::tree::u64_chunk(self.slot), core_model::tree::u64_chunk(self.proposer), self.parent, self.state_root, self.body_root];
        w.resize(8, [0; 32]);
        while w.len() > 1 {
            w = w.chunks(2).map(|c| core_model::ssz::h2(&c[0], &c[1])).collect();
        }
        w[0]
    }
}

/// the state after a slot
#[derive(Clone, Debug)]
pub struct Snap {
    pub slot: u64,
    pub reg: Arc<Vec<V>>,
    pub mixes: Arc<BTreeMap<u32, Hash>>,
    pub pj: Cp,
    pub cj: Cp,
    pub fin: Cp,
    /// most recent epoch in bit 0
    pub bits: u8,
    pub hdr: Hdr,
    pub fork: ([u8; 4], [u8; 4], u64),
    pub fork_no: usize,
    pub ee: u64,
    pub ebc: u64,
    pub ec: u64,
    pub cbc: u64,
}
impl Snap {
    pub fn epoch(&self) -> u64 {
        self.slot / SPE
    }
    pub fn cons(&self) -> St {
        St { j: self.cj, f: self.fin }
    }
    pub fn active(&self, e: u64) -> Vec<usize> {
        (0..self.reg.len()).filter(|i| self.reg[*i].active(e)).collect()
    }
}

pub struct Block {
    pub hdr: Hdr,
    pub root: Hash,
    pub block: BeaconBlock,
    /// the links of its attestations
    pub links: Vec<Lk>,
    /// post-state root is that of the real state
    pub anchored: bool,
}

pub struct Sim {
    pub k: Knobs,
    pub gvr: Hash,
    pub seed: u64,
    pub snaps: BTreeMap<u64, Snap>,
    pub blocks: BTreeMap<u64, Block>,
    pub by_root: HashMap<Hash, u64>,
    states: RefCell<HashMap<u64, Arc<BeaconState>>>,
    base_mixes: Vec<Hash>,
}

#[derive(Clone)]
struct Pending {
    wire: WireAtt,
    data: Data,
    who: Vec<usize>,
    from: u64,
}

fn mix_of(seed: u64, i: u64) -> Hash {
    let mut r = Rng::new(seed ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    r.bytes32()
}

impl Sim {
    pub fn new(rng: &mut Rng, k: Knobs) -> Sim {
        let seed = rng.u64();
        let mut s = Sim {
            gvr: rng.bytes32(),
            seed,
            snaps: BTreeMap::new(),
            blocks: BTreeMap::new(),
            by_root: HashMap::new(),
            states: RefCell::default(),
            base_mixes: (0..EPHV).map(|i| mix_of(seed, i)).collect(),
            k,
        };
        s.run(rng);
        s
    }
    pub fn first_slot(&self) -> u64 {
        self.k.base * SPE
    }
    pub fn head(&self) -> u64 {
        (self.k.base + self.k.epochs) * SPE - 1
    }
    pub fn mix(&self, s: &Snap, idx: u32) -> Hash {
        s.mixes.get(&idx).copied().unwrap_or(self.base_mixes[idx as usize])
    }

    fn registry(&self, rng: &mut Rng) -> Vec<V> {
        let k = &self.k;
        let b = k.base;
        let key0 = rng.below(1000) * 100_000;
        (0..k.n)
            .map(|i| {
                let eff = match rng.below(6) {
                    0 => ETH * rng.range(32, 90),
                    1 => ETH * rng.range(17, 31),
                    _ => 32 * ETH,
                };
                let mut v = V { key: key0 + i as u64, eff, slashed: rng.chance(k.slashings.min(3), 100), elig: 0, act: 0, exit: FAR };
                v.act = rng.below(b - 5);
                v.elig = v.act.saturating_sub(6);
                if rng.chance(k.waiting, 100) {
                    match rng.below(4) {
                        // activated soon
                        0 => {
                            v.act = b + rng.below(5);
                            v.elig = v.act - rng.range(6, 8);
                        }
                        // in the queue: waits for finality of its eligibility
                        1 => {
                            v.act = FAR;
                            v.elig = b - rng.below(3);
                        }
                        // deposited just now
                        2 => {
                            v.act = FAR;
                            v.elig = FAR;
                        }
                        // too small to be queued
                        _ => {
                            v.act = FAR;
                            v.elig = FAR;
                            v.eff = ETH * rng.range(1, 31);
                        }
                    }
                } else if k.exits > 0 && rng.chance(k.exits, 60) {
                    v.exit = match rng.below(2) {
                        0 => v.act + 1 + rng.below(b - v.act),
                        _ => b + rng.range(1, 6),
                    };
                }
                v
            })
            .collect()
    }

    fn run(&mut self, rng: &mut Rng) {
        let k = self.k.clone();
        let base = k.base;
        let first = base * SPE;
        let head = self.head();
        // which slots have a block
        let mut has: BTreeSet<u64> = BTreeSet::new();
        let mut gap = 0u64;
        for s in first..=head {
            if gap > 0 {
                gap -= 1;
                continue;
            }
            if s > first && s % SPE == 0 && k.miss_run > 0 && rng.chance(k.miss_run, 100) {
                gap = rng.range(0, 40);
                continue;
            }
            let p = if s % SPE == 0 { k.miss_start } else { k.miss };
            if s == first || !rng.chance(p, 100) {
                has.insert(s);
            }
        }
        // blocks that are checkpoints of some epoch
        let anchors: BTreeSet<u64> = (base..base + k.epochs + 1).filter_map(|e| has.range(..=e * SPE).next_back().copied()).collect();

        let far_j = Cp::new(base - 1, rng.bytes32());
        let far_f = Cp::new(base - 2, rng.bytes32());
        let mut st = Snap {
            slot: first,
            reg: Arc::new(self.registry(rng)),
            mixes: Arc::new(BTreeMap::new()),
            pj: far_f,
            cj: far_j,
            fin: far_f,
            bits: 3,
            hdr: Hdr { slot: first.saturating_sub(1), proposer: 1, parent: rng.bytes32(), state_root: rng.bytes32(), body_root: rng.bytes32() },
            fork: spec::fork_at(&k.spec, base),
            fork_no: spec::fork_no(&k.spec, base),
            ee: if k.queue.0 > 0 { base + 5 + k.queue.0 } else { rng.below(base) },
            ebc: ETH * rng.below(128),
            ec: if k.queue.1 > 0 { base + 5 + k.queue.1 } else { rng.below(base) },
            cbc: ETH * rng.below(32),
        };
        let mut pool: Vec<Pending> = vec![];
        let mut prev_part: BTreeSet<usize> = BTreeSet::new();
        let mut cur_part: BTreeSet<usize> = BTreeSet::new();
        let mut coms: Option<(u64, Committees)> = None;
        let mut next_key = st.reg.iter().map(|v| v.key).max().unwrap() + 1;
        for slot in first..=head {
            let epoch = slot / SPE;
            if slot > first {
                if st.hdr.state_root == [0; 32] {
                    st.hdr.state_root = self.blocks[&st.hdr.slot].hdr.state_root;
                }
                if slot % SPE == 0 {
                    self.epoch_transition(rng, &mut st, epoch - 1, &prev_part, &cur_part, &mut next_key);
                    prev_part = std::mem::take(&mut cur_part);
                    st.fork = spec::fork_at(&k.spec, epoch);
                    st.fork_no = spec::fork_no(&k.spec, epoch);
                }
            }
            st.slot = slot;
            if has.contains(&slot) {
                let parent = st.hdr.root();
                // randao
                let idx = (epoch % EPHV) as u32;
                let reveal = rng.bytes(96);
                let mut m = self.mix(&st, idx);
                let h = spec::sha(&[&reveal]);
                m.iter_mut().zip(h).for_each(|(a, b)| *a ^= b);
                Arc::make_mut(&mut st.mixes).insert(idx, m);
                self.operations(rng, &mut st, epoch);
                // attestations
                let mut chosen = vec![];
                let mut rest = vec![];
                for p in pool.drain(..) {
                    let te = p.data.target.e;
                    if te + 1 < epoch {
                        continue;
                    }
                    let src = if te == epoch { st.cj } else { st.pj };
                    if p.from <= slot && chosen.len() < 8 && p.data.source == src && p.data.slot < slot {
                        chosen.push(p);
                    } else {
                        rest.push(p);
                    }
                }
                pool = rest;
                for p in &chosen {
                    let te = p.data.target.e;
                    if p.data.target.r == self.checkpoint_root(te) {
                        (if te == epoch { &mut cur_part } else { &mut prev_part }).extend(p.who.iter().copied());
                    }
                }
                let mut body = ec::BeaconBlockBody::default();
                body.randao_reveal = byte_vector(&reveal);
                body.graffiti = byte_vector(&rng.bytes32());
                body.attestations = chosen.iter().map(|p| p.wire.clone()).collect::<Vec<_>>().try_into().unwrap();
                let proposer = rng.below(st.reg.len() as u64);
                let body_root = body.hash_tree_root().unwrap().0;
                st.hdr = Hdr { slot, proposer, parent, state_root: [0; 32], body_root };
                self.snaps.insert(slot, st.clone());
                let anchored = anchors.contains(&slot);
                let state_root = if anchored { self.state(slot).unwrap().hash_tree_root().unwrap().0 } else { rng.bytes32() };
                let hdr = Hdr { state_root, ..st.hdr };
                let root = hdr.root();
                let block = BeaconBlock::Electra(ec::BeaconBlock {
                    slot,
                    proposer_index: proposer as usize,
                    parent_root: B256::from(parent),
                    state_root: B256::from(state_root),
                    body,
                });
                let links = chosen.iter().map(|p| Lk { s: p.data.source, t: p.data.target }).collect();
                self.by_root.insert(root, slot);
                self.blocks.insert(slot, Block { hdr, root, block, links, anchored });
            }
            self.snaps.insert(slot, st.clone());
            // votes of this slot
            if coms.as_ref().is_none_or(|c| c.0 != epoch) {
                let a = st.active(epoch);
                let per = spec::committees_per_slot(a.len(), SPE, k.spec.target_committee_size, k.spec.max_committees_per_slot);
                let mix = self.mix(&st, ((epoch + EPHV - 2) % EPHV) as u32);
                coms = Some((epoch, spec::committees(&a, &spec::attester_seed(epoch, &mix), k.spec.shuffle_round_count, SPE, per)));
            }
            self.vote(rng, &st, slot, &coms.as_ref().unwrap().1, &mut pool);
        }
    }

    /// root of the last block at or before the start of the epoch
    pub fn checkpoint_root(&self, e: u64) -> Hash {
        self.blocks.range(..=e * SPE).next_back().map(|(_, b)| b.root).unwrap_or([0; 32])
    }
    pub fn checkpoint(&self, e: u64) -> Cp {
        Cp::new(e, self.checkpoint_root(e))
    }

    fn vote(&self, rng: &mut Rng, st: &Snap, slot: u64, c: &Committees, pool: &mut Vec<Pending>) {
        let k = &self.k;
        let e = slot / SPE;
        let rows = &c.by_slot[(slot % SPE) as usize];
        let part = k.part_at(e);
        let good = self.checkpoint(e);
        let head = self.blocks.range(..=slot).next_back().unwrap().1.root;
        let bad = Cp::new(e, self.blocks.values().rev().nth(1).map(|b| b.root).unwrap_or([9; 32]));
        // who votes, and for what
        let mut yes = vec![];
        let mut no = vec![];
        for (ci, m) in rows.iter().enumerate() {
            for (bi, v) in m.iter().enumerate() {
                if rng.below(1000) >= part {
                    continue;
                }
                if rng.chance(k.wrong, 100) {
                    no.push((ci, bi, *v));
                } else {
                    yes.push((ci, bi, *v));
                }
            }
        }
        let mut lots: Vec<(Cp, Vec<(usize, usize, usize)>)> = vec![];
        if rng.chance(k.split, 100) && yes.len() > 1 {
            let mut a = yes.clone();
            rng.shuffle(&mut a);
            let cut = rng.urange(1, a.len() - 1);
            let overlap = rng.idx(2);
            lots.push((good, a[..cut].to_vec()));
            lots.push((good, a[cut - overlap..].to_vec()));
        } else {
            lots.push((good, yes));
        }
        if !no.is_empty() {
            lots.push((bad, no));
        }
        let last = (e + 2) * SPE - 1;
        for (target, mut m) in lots {
            if m.is_empty() {
                continue;
            }
            m.sort();
            let data = Data { slot, index: 0, bbr: head, source: st.cj, target };
            let domain = spec::domain([1, 0, 0, 0], if e < st.fork.2 { st.fork.0 } else { st.fork.1 }, &self.gvr);
            let root = data.signing_root(&domain);
            let mut sig = AggregateSignature::infinity();
            let mut sel = vec![false; 64];
            let mut bits = vec![];
            for (ci, row) in rows.iter().enumerate() {
                if !m.iter().any(|x| x.0 == ci) {
                    continue;
                }
                sel[ci] = true;
                for bi in 0..row.len() {
                    bits.push(m.iter().any(|x| x.0 == ci && x.1 == bi));
                }
            }
            for (_, _, v) in &m {
                sig.add_assign(&sk(st.reg[*v].key).sign(B256::from(root)));
            }
            let wire = WireAtt {
                aggregation_bits: Bitlist::from_bits(bits),
                data: ec::AttestationData {
                    slot,
                    index: 0,
                    beacon_block_root: B256::from(head),
                    source: checkpoint_real(&data.source),
                    target: checkpoint_real(&data.target),
                },
                signature: byte_vector(&sig.serialize()),
                committee_bits: Bitvector::from_bits(sel),
            };
            if rng.chance(k.never, 100) {
                continue;
            }
            let mut from = slot + 1;
            if let Some(h) = k.hold.get(&(e - k.base)) {
                from = from.max((e + 1) * SPE + h);
            }
            if rng.chance(k.late, 100) {
                from = match rng.below(3) {
                    0 => rng.range(from.min(last), last),
                    1 => from + rng.below(6),
                    _ => last - rng.below(3),
                };
            }
            let p = Pending { wire, data, who: m.iter().map(|x| x.2).collect(), from };
            if rng.chance(k.twice, 100) {
                let mut q = p.clone();
                q.from = rng.range(from.min(last), last);
                pool.push(q);
            }
            pool.push(p);
        }
    }

    fn total(&self, st: &Snap, who: impl IntoIterator<Item = usize>) -> u64 {
        who.into_iter().map(|i| st.reg[i].eff).sum::<u64>().max(ETH)
    }
    fn balance_churn(&self, st: &Snap, epoch: u64) -> u64 {
        let t = self.total(st, st.active(epoch));
        let c = (t / self.k.spec.churn_limit_quotient).max(self.k.spec.min_per_epoch_churn_limit_electra);
        c - c % ETH
    }
    fn exit(&self, st: &mut Snap, i: usize, epoch: u64) {
        if st.reg[i].exit != FAR {
            return;
        }
        let churn = self.balance_churn(st, epoch).min(256 * ETH);
        let bal = st.reg[i].eff;
        let mut e = st.ee.max(epoch + 5);
        let mut left = if st.ee < e { churn } else { st.ebc };
        if bal > left {
            let more = (bal - left - 1) / churn + 1;
            e += more;
            left += more * churn;
        }
        st.ebc = left - bal;
        st.ee = e;
        Arc::make_mut(&mut st.reg)[i].exit = e;
    }
    fn consolidate(&self, st: &mut Snap, i: usize, epoch: u64) {
        let all = self.balance_churn(st, epoch);
        let churn = all - all.min(256 * ETH);
        if churn <= 32 * ETH || st.reg[i].exit != FAR {
            return;
        }
        let bal = st.reg[i].eff;
        let mut e = st.ec.max(epoch + 5);
        let mut left = if st.ec < e { churn } else { st.cbc };
        if bal > left {
            let more = (bal - left - 1) / churn + 1;
            e += more;
            left += more * churn;
        }
        st.cbc = left - bal;
        st.ec = e;
        Arc::make_mut(&mut st.reg)[i].exit = e;
    }
    fn operations(&self, rng: &mut Rng, st: &mut Snap, epoch: u64) {
        let k = &self.k;
        let n = st.reg.len();
        let old = |v: &V| v.active(epoch) && v.exit == FAR && v.act + k.spec.shard_committee_period <= epoch;
        if rng.chance(k.exits, 100) {
            let i = rng.idx(n);
            if old(&st.reg[i]) {
                self.exit(st, i, epoch);
            }
        }
        if rng.chance(k.consolidations, 100) {
            let i = rng.idx(n);
            if old(&st.reg[i]) {
                self.consolidate(st, i, epoch);
            }
        }
        if rng.chance(k.slashings, 100) {
            let i = rng.idx(n);
            if st.reg[i].active(epoch) && !st.reg[i].slashed {
                self.exit(st, i, epoch);
                Arc::make_mut(&mut st.reg)[i].slashed = true;
            }
        }
    }

    fn epoch_transition(&self, rng: &mut Rng, st: &mut Snap, cur: u64, prev_part: &BTreeSet<usize>, cur_part: &BTreeSet<usize>, next_key: &mut u64) {
        let k = &self.k;
        // justification and finalization
        let weigh = |p: &BTreeSet<usize>, e: u64| self.total(st, p.iter().copied().filter(|i| st.reg[*i].active(e) && !st.reg[*i].slashed));
        let (total, prev_w, cur_w) = (self.total(st, st.active(cur)), weigh(prev_part, cur - 1), weigh(cur_part, cur));
        let (old_pj, old_cj) = (st.pj, st.cj);
        st.pj = st.cj;
        st.bits = (st.bits << 1) & 15;
        if prev_w * 3 >= total * 2 && cur > k.base {
            st.cj = self.checkpoint(cur - 1);
            st.bits |= 2;
        }
        if cur_w * 3 >= total * 2 {
            st.cj = self.checkpoint(cur);
            st.bits |= 1;
        }
        let b = st.bits;
        if b & 0b1110 == 0b1110 && old_pj.e + 3 == cur {
            st.fin = old_pj;
        }
        if b & 0b0110 == 0b0110 && old_pj.e + 2 == cur {
            st.fin = old_pj;
        }
        if b & 0b0111 == 0b0111 && old_cj.e + 2 == cur {
            st.fin = old_cj;
        }
        if b & 0b0011 == 0b0011 && old_cj.e + 1 == cur {
            st.fin = old_cj;
        }
        // registry
        for i in 0..st.reg.len() {
            let v = st.reg[i].clone();
            if v.elig == FAR && v.eff >= 32 * ETH {
                Arc::make_mut(&mut st.reg)[i].elig = cur + 1;
            } else if v.active(cur) && v.eff <= k.spec.ejection_balance {
                self.exit(st, i, cur);
            } else if v.elig <= st.fin.e && v.act == FAR {
                Arc::make_mut(&mut st.reg)[i].act = cur + 5;
            }
        }
        // deposits
        while rng.chance(k.deposits, 40) {
            let eff = if rng.chance(4, 5) { 32 * ETH } else { ETH * rng.range(1, 200) };
            Arc::make_mut(&mut st.reg).push(V { key: *next_key, eff, slashed: false, elig: FAR, act: FAR, exit: FAR });
            *next_key += 1;
        }
        // effective balances
        for i in 0..st.reg.len() {
            if k.balance > 0 && rng.chance(k.balance, 600) {
                let v = &mut Arc::make_mut(&mut st.reg)[i];
                v.eff = match rng.below(4) {
                    0 => (v.eff + ETH * rng.range(1, 40)).min(2048 * ETH),
                    1 => k.spec.ejection_balance,
                    _ => v.eff.saturating_sub(ETH).max(15 * ETH),
                };
            }
        }
        // randao
        let m = self.mix(st, (cur % EPHV) as u32);
        Arc::make_mut(&mut st.mixes).insert(((cur + 1) % EPHV) as u32, m);
    }

    // ------------------------------------------------------------ what there is to find
    pub fn snap(&self, slot: u64) -> Option<&Snap> {
        self.snaps.get(&slot)
    }
    pub fn snaps_has(&self, slot: u64) -> bool {
        self.snaps.contains_key(&slot)
    }
    pub fn cons(&self, epoch: u64) -> Option<St> {
        self.snap(epoch * SPE).map(|s| s.cons())
    }
    /// checkpoints that became finalized within the simulated range, with real states
    pub fn finalized(&self) -> Vec<Cp> {
        let mut v: Vec<Cp> = vec![];
        for e in self.k.base..self.k.base + self.k.epochs {
            let f = self.cons(e).unwrap().f;
            if f.e >= self.k.base && v.last() != Some(&f) {
                v.push(f);
            }
        }
        v
    }
    /// committees of an epoch as the chain has them
    pub fn committees(&self, e: u64) -> Committees {
        let st = &self.snaps[&(e * SPE)];
        let a = st.active(e);
        let per = spec::committees_per_slot(a.len(), SPE, self.k.spec.target_committee_size, self.k.spec.max_committees_per_slot);
        let mix = self.mix(st, ((e + EPHV - 2) % EPHV) as u32);
        spec::committees(&a, &spec::attester_seed(e, &mix), self.k.spec.shuffle_round_count, SPE, per)
    }
    /// every inclusion of an attestation for the link: (slot of the block, the attestation)
    pub fn included(&self, l: &Lk) -> Vec<(u64, &WireAtt)> {
        let mut out = vec![];
        for (slot, b) in &self.blocks {
            let BeaconBlock::Electra(x) = &b.block else { continue };
            for (a, k) in x.body.attestations.iter().zip(&b.links) {
                if k == l {
                    out.push((*slot, a));
                }
            }
        }
        out
    }
    pub fn public_key(v: &V) -> Vec<u8> {
        pk(v.key).serialize().to_vec()
    }
    pub fn state(&self, slot: u64) -> Option<Arc<BeaconState>> {
        if let Some(s) = self.states.borrow().get(&slot) {
            return Some(s.clone());
        }
        let s = Arc::new(self.materialize(self.snap(slot)?));
        self.states.borrow_mut().insert(slot, s.clone());
        Some(s)
    }
    pub fn forget_states(&self) {
        self.states.borrow_mut().clear();
    }
}

pub fn checkpoint_real(c: &Cp) -> ec::Checkpoint {
    ec::Checkpoint { epoch: c.e, root: B256::from(c.r) }
}
pub fn byte_vector<const N: usize>(b: &[u8]) -> ethereum_consensus::ssz::prelude::ByteVector<N> {
    ethereum_consensus::ssz::prelude::ByteVector::try_from(b).unwrap()
}
