//! Authentic beacon blocks, states and registries as Merkle trees, guest inputs over them (honest or altered), and
//! what an honest node would know: the reference for what an accepted input may report.
use crate::ffg::{Cp, St};
use crate::scn::{pk, real_att, Att, Scn, V};
use crate::spec::{self, FAR};
use crate::ssz::{Codec, Hash, Raw};
use crate::tree::{u64_chunk, T};
use alloy_primitives::B256;
use beacon_types::{ChainSpec, EthSpec};
use bls::PublicKey;
use ssz_multiproofs::Multiproof;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use support::{observe, Outcome, Rng};
use z_core::{Epoch, GuestInput, GuestInputReader, InputReader, StatePatch};

#[derive(Clone, Debug)]
pub struct Block {
    pub slot: u64,
    pub fields: [Hash; 4], // proposer, parent root, state root, body root
}
impl Block {
    pub fn random(rng: &mut Rng, slot: u64) -> Block {
        Block { slot, fields: [u64_chunk(rng.below(1000)), rng.bytes32(), rng.bytes32(), rng.bytes32()] }
    }
    pub fn tree(&self) -> Rc<T> {
        let [a, b, c, d] = self.fields;
        T::leaves(&[u64_chunk(self.slot), a, b, c, d], 3)
    }
    pub fn root(&self) -> Hash {
        self.tree().hash()
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Patch {
    pub mixes: BTreeMap<u32, Hash>,
    pub exits: BTreeMap<usize, u64>,
}

#[derive(Clone, Debug)]
pub struct World {
    pub spec: ChainSpec,
    pub slots_per_epoch: u64,
    pub gvr: Hash,
    pub reg: Vec<V>,
    pub list_len: u64,
    pub state_slot: u64,
    pub state_final: u64,
    pub fork: ([u8; 4], [u8; 4], u64),
    pub ee: u64,
    pub ec: u64,
    pub fill: u64,
    pub block: Block,
    pub st: St,
    pub patches: BTreeMap<u64, Patch>,
    pub atts: Vec<Att>,
    pub blocks: Vec<Block>,
}

/// generalized index of field `k` (of 8) of validator `i` within the validators list
pub fn val_g(i: u64, k: u64) -> u64 {
    ((1u64 << 41) + i) * 8 + k
}
pub const STATE_G: [u64; 9] = [65, 66, 268, 269, 270, 75, 168, 95, 97];

impl World {
    pub fn list_tree(&self) -> Rc<T> {
        let items: Vec<Rc<T>> = self
            .reg
            .iter()
            .enumerate()
            .map(|(i, v)| {
                let k = pk(v.key).serialize();
                let mut k1 = [0u8; 32];
                k1[..16].copy_from_slice(&k[32..]);
                let mut wc = crate::spec::sha(&[&self.fill.to_le_bytes(), &(i as u64).to_le_bytes()]);
                // a withdrawal address, of either kind
                wc[..12].fill(0);
                wc[0] = 1 + (i % 2) as u8;
                let mut sl = [0u8; 32];
                sl[0] = v.slashed as u8;
                let leaves = [wc, u64_chunk(v.eff), sl, u64_chunk(v.elig), u64_chunk(v.act), u64_chunk(v.exit), u64_chunk(v.exit.saturating_add(256))];
                let mut f = vec![T::node(T::leaf(k[..32].try_into().unwrap()), T::leaf(k1))];
                f.extend(leaves.iter().map(|h| T::leaf(*h)));
                T::of(&f, 3, 0)
            })
            .collect();
        T::node(T::of(&items, 40, 0), T::leaf(u64_chunk(self.list_len)))
    }
    pub fn state_tree(&self, list_root: Hash) -> Rc<T> {
        let ver = |v: [u8; 4]| {
            let mut b = [0u8; 32];
            b[..4].copy_from_slice(&v);
            b
        };
        let n = if spec::fork_no(&self.spec, self.state_slot / self.slots_per_epoch) >= 6 { 38 } else { 37 };
        let mut f: Vec<Rc<T>> = (0..n as u64).map(|i| T::leaf(spec::sha(&[&self.fill.to_le_bytes(), b"state", &i.to_le_bytes()]))).collect();
        f[1] = T::leaf(self.gvr);
        f[2] = T::leaf(u64_chunk(self.state_slot));
        f[3] = T::leaves(&[ver(self.fork.0), ver(self.fork.1), u64_chunk(self.fork.2)], 2);
        f[11] = T::leaf(list_root);
        f[20] = T::leaves(&[u64_chunk(self.state_final), spec::sha(&[b"fin"])], 1);
        f[31] = T::leaf(u64_chunk(self.ee));
        f[33] = T::leaf(u64_chunk(self.ec));
        T::of(&f, 6, 0)
    }
    pub fn exited(&self, i: usize) -> bool {
        self.reg[i].exit <= self.st.f.e
    }
    pub fn val_fields(i: usize) -> [u64; 7] {
        let i = i as u64;
        [val_g(i, 0) * 2, val_g(i, 0) * 2 + 1, val_g(i, 2), val_g(i, 3), val_g(i, 4), val_g(i, 5), val_g(i, 6)]
    }
    pub fn val_gindices(&self, full: &BTreeSet<usize>) -> BTreeSet<u64> {
        let mut g = BTreeSet::from([3]);
        for i in 0..self.reg.len() {
            if self.exited(i) && !full.contains(&i) {
                g.insert(val_g(i as u64, 6));
            } else {
                g.extend(Self::val_fields(i));
            }
        }
        g
    }
    /// fills in the roots from the leaves up
    pub fn seal(&mut self) {
        let list = self.list_tree().hash();
        self.block.fields[2] = self.state_tree(list).hash();
        self.st.f.r = self.block.root();
    }
    pub fn parts(&self, full: &BTreeSet<usize>) -> Parts {
        let list = self.list_tree();
        Parts {
            block: self.block.tree().proof(&BTreeSet::from([11])),
            state: self.state_tree(list.hash()).proof(&BTreeSet::from(STATE_G)),
            validators: list.proof(&self.val_gindices(full)),
            keys: (0..self.reg.len()).filter(|i| !self.exited(*i) || full.contains(i)).map(|i| pk(self.reg[i].key)).collect(),
            patches: self.patches.clone(),
            st: self.st,
            atts: self.atts.clone(),
            slots: self.blocks.iter().map(|b| b.tree().proof(&BTreeSet::from([8]))).collect(),
        }
    }
    /// The registry as of the justified checkpoint: the specification's registry updates, epoch by epoch.
    pub fn projected(&self) -> Vec<V> {
        let mut reg = self.reg.clone();
        let se = self.state_slot / self.slots_per_epoch;
        let mut e = se;
        while e <= self.st.j.e {
            let fin = if e == self.st.j.e { self.st.f.e } else { self.state_final };
            for v in reg.iter_mut() {
                if v.elig == FAR && v.eff >= self.spec.min_activation_balance {
                    v.elig = e + 1;
                } else if v.elig <= fin && v.act == FAR {
                    v.act = e + 1 + self.spec.max_seed_lookahead.as_u64();
                }
            }
            e += 1;
        }
        reg
    }
    /// the first epoch for which an exit initiated after the trusted state can be scheduled
    pub fn earliest_exit(&self) -> u64 {
        self.ee.min(self.ec).max(self.state_slot / self.slots_per_epoch + 1 + self.spec.max_seed_lookahead.as_u64())
    }
    /// are the patches acceptable?
    pub fn patches_ok(&self, full: &BTreeSet<usize>) -> Result<(), &'static str> {
        let reg = self.projected();
        let f = self.st.f.e;
        let known = |i: usize| i < reg.len() && (!self.exited(i) || full.contains(&i));
        let total: u64 = (0..reg.len()).filter(|i| known(*i) && reg[*i].active(f)).map(|i| reg[i].eff).sum::<u64>().max(self.spec.effective_balance_increment);
        let churn = self.spec.min_per_epoch_churn_limit_electra.max(total / self.spec.churn_limit_quotient);
        let churn = (churn - churn % self.spec.effective_balance_increment) as u128 * 2;
        let start = self.earliest_exit();
        let mut exits: BTreeMap<usize, u64> = BTreeMap::new();
        let mut fresh: Vec<(u64, u64)> = vec![];
        for (pe, p) in &self.patches {
            if *pe < f {
                return Err("patched-epoch-before-trusted");
            }
            for (i, x) in &p.exits {
                if !known(*i) {
                    return Err("unknown-validator");
                }
                let prev = *exits.get(i).unwrap_or(&reg[*i].exit);
                if prev == *x {
                    continue;
                }
                if prev != FAR {
                    return Err("exit-changed");
                }
                if *x < start {
                    return Err("exit-too-early");
                }
                fresh.push((*x, reg[*i].eff));
            }
            for (i, x) in &p.exits {
                exits.insert(*i, *x);
            }
        }
        // up to any exit epoch, the balance leaving must fit the limits of the epochs passed
        for (x, _) in &fresh {
            let sum: u128 = fresh.iter().filter(|(y, _)| y <= x).map(|(_, b)| *b as u128).sum();
            if sum > churn * (1 + (*x - start) as u128) {
                return Err("over-churn");
            }
        }
        Ok(())
    }
    pub fn active_view(&self, e: u64) -> Vec<(usize, V)> {
        let reg = self.projected();
        let none = Patch::default();
        let p = self.patches.get(&e).unwrap_or(&none);
        reg.into_iter().enumerate().filter(|(i, v)| v.active(e) && p.exits.get(i).is_none_or(|x| e < *x)).collect()
    }
    /// the scenario that verification of this input amounts to
    pub fn scenario<E: EthSpec>(&self, cfg: &z_core::Config) -> Scn {
        let mut s = Scn::empty::<E>(self.spec.clone(), cfg.clone());
        s.gvr = self.gvr;
        s.vals = self.projected();
        s.start = self.st;
        s.atts = self.atts.clone();
        for (e, p) in &self.patches {
            for (i, m) in &p.mixes {
                s.mixes.insert((*e, *i), *m);
            }
            for (i, x) in &p.exits {
                s.exits.insert((*e, *i), *x);
            }
        }
        s.slots = self.blocks.iter().map(|b| (b.root(), b.slot)).collect();
        s
    }
}

#[derive(Clone, Debug)]
pub struct Parts {
    pub block: Raw,
    pub state: Raw,
    pub validators: Raw,
    pub keys: Vec<PublicKey>,
    pub patches: BTreeMap<u64, Patch>,
    pub st: St,
    pub atts: Vec<Att>,
    pub slots: Vec<Raw>,
}

pub fn real_patches(p: &BTreeMap<u64, Patch>) -> BTreeMap<Epoch, StatePatch> {
    p.iter()
        .map(|(e, p)| {
            let mut s = StatePatch::new();
            s.randao_mixes = p.mixes.iter().map(|(i, m)| (*i, B256::from(*m))).collect();
            s.validator_exits = p.exits.iter().map(|(i, x)| (*i, Epoch::new(*x))).collect();
            (Epoch::new(*e), s)
        })
        .collect()
}

impl Parts {
    /// builds the real input; `None` if a proof does not even deserialize
    pub fn with<E: EthSpec, R>(&self, f: impl for<'a> FnOnce(GuestInput<'a, E>) -> R) -> Option<R> {
        let enc: Vec<Vec<u8>> = [&self.block, &self.state, &self.validators].into_iter().chain(&self.slots).map(|r| r.encode(Codec::Bincode)).collect();
        let dec = observe(|| enc.iter().map(|b| bincode::deserialize::<Multiproof>(b).ok()).collect::<Option<Vec<_>>>()).ret()??;
        let mut it = dec.into_iter();
        let input = GuestInput::<E> {
            beacon_block: it.next()?,
            beacon_state: it.next()?,
            active_validators: it.next()?,
            public_keys: self.keys.clone(),
            patches: real_patches(&self.patches),
            consensus_state: self.st.real(),
            attestations: self.atts.iter().map(real_att).collect(),
            block_slot_proofs: it.collect(),
        };
        Some(f(input))
    }
    /// authenticates the input and, if accepted, lets `f` look through the reader
    pub fn read<E: EthSpec, R>(&self, spec: &ChainSpec, f: impl FnOnce(&GuestInputReader<E>) -> R) -> Outcome<Result<R, String>> {
        observe(|| match self.with::<E, _>(|i| i.into_reader(spec.clone()).map_err(|e| e.to_string())) {
            None => Err("undecodable".to_string()),
            Some(Err(e)) => Err(e),
            Some(Ok(r)) => Ok(f(&r)),
        })
    }
}

pub type Seen = (Hash, BTreeMap<u64, Vec<(usize, V0)>>);
/// what a reader reports about a validator
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct V0 {
    pub key: Vec<u8>,
    pub eff: u64,
    pub slashed: bool,
    pub elig: u64,
    pub act: u64,
    pub exit: u64,
}
pub fn v0(v: &V) -> V0 {
    V0 { key: pk(v.key).serialize_uncompressed().to_vec(), eff: v.eff, slashed: v.slashed, elig: v.elig, act: v.act, exit: v.exit }
}
pub fn look<E: EthSpec>(r: &GuestInputReader<E>, epochs: &[u64]) -> Seen {
    let gvr = r.genesis_validators_root().unwrap().0;
    let mut out = BTreeMap::new();
    for e in epochs {
        let v = r
            .active_validators(Epoch::new(*e))
            .unwrap()
            .map(|(i, v)| {
                let w = V0 {
                    key: v.pubkey.serialize_uncompressed().to_vec(),
                    eff: v.effective_balance,
                    slashed: v.slashed,
                    elig: v.activation_eligibility_epoch.as_u64(),
                    act: v.activation_epoch.as_u64(),
                    exit: v.exit_epoch.as_u64(),
                };
                (i, w)
            })
            .collect();
        out.insert(*e, v);
    }
    (gvr, out)
}
pub fn view(w: &World, epochs: &[u64]) -> Seen {
    (w.gvr, epochs.iter().map(|e| (*e, w.active_view(*e).iter().map(|(i, v)| (*i, v0(v))).collect())).collect())
}

#[derive(Clone, Debug)]
pub struct WOpt {
    pub n: (usize, usize),
    /// share of pending or recently registered validators, in percent
    pub pending: u64,
    pub exited: u64,
    pub skipped: bool,
    pub max_gap: u64,
    /// a given chain specification and trusted epoch
    pub at: Option<(ChainSpec, u64)>,
    /// everybody active, with the same balance
    pub equal: bool,
}
impl Default for WOpt {
    fn default() -> Self {
        WOpt { n: (1, 24), pending: 15, exited: 15, skipped: true, max_gap: 3, at: None, equal: false }
    }
}
pub fn random_world<E: EthSpec>(rng: &mut Rng, o: &WOpt) -> World {
    let f = match rng.below(5) {
        0 => rng.range(2, 8),
        1 => rng.range(364_000, 420_000),
        _ => rng.range(8, 300),
    };
    let f = o.at.as_ref().map_or(f, |a| a.1);
    let spe = E::slots_per_epoch();
    // the boundary block may be older than the epoch it is the checkpoint of
    let state_slot = if o.skipped && rng.chance(1, 3) { (f * spe).saturating_sub(rng.below(spe * 3)) } else { f * spe };
    let se = state_slot / spe;
    let spec = crate::scn::random_spec(rng, E::default_spec(), se, true);
    let spec = o.at.as_ref().map_or(spec, |a| a.0.clone());
    let state_final = se.saturating_sub(2 + rng.below(3));
    let n = rng.urange(o.n.0, o.n.1);
    let key0 = rng.below(60);
    let reg: Vec<V> = (0..n)
        .map(|i| {
            let mut v = V { key: key0 + i as u64, eff: 32_000_000_000, slashed: rng.chance(1, 12), elig: 0, act: 0, exit: FAR };
            match rng.below(6) {
                0 => v.eff = rng.range(1, 64) * 1_000_000_000,
                1 => v.eff = rng.range(31_000_000_000, 2_048_000_000_000),
                _ => {}
            }
            v.act = rng.below(se + 1);
            v.elig = v.act.saturating_sub(rng.range(1, 8));
            if rng.chance(o.exited, 100) {
                v.exit = if rng.bool() { f + rng.below(9) - rng.below(3).min(f) } else { rng.below(f + 1) };
            }
            if rng.chance(o.pending, 100) {
                v.exit = FAR;
                match rng.below(4) {
                    0 => {
                        v.elig = FAR;
                        v.act = FAR;
                    }
                    1 => {
                        // in the queue
                        v.elig = (se + 1).saturating_sub(rng.below(7));
                        v.act = FAR;
                    }
                    2 => {
                        v.act = se + 1 + rng.below(5);
                        v.elig = v.act.saturating_sub(5 + rng.below(3));
                    }
                    _ => {
                        v.elig = state_final + rng.below(3);
                        v.act = FAR;
                    }
                }
                if rng.chance(1, 3) {
                    v.eff = 32_000_000_000 - rng.below(3);
                }
            }
            if o.equal {
                v = V { key: v.key, eff: 32_000_000_000, slashed: false, elig: 0, act: 0, exit: FAR };
            }
            v
        })
        .collect();
    let fork = spec::fork_at(&spec, se);
    let jroot = rng.bytes32();
    let mut w = World {
        slots_per_epoch: spe,
        gvr: rng.bytes32(),
        list_len: n as u64,
        reg,
        state_slot,
        state_final,
        fork,
        ee: f + rng.below(12),
        ec: f + rng.below(12),
        fill: rng.u64(),
        block: Block::random(rng, state_slot),
        st: St { j: Cp::new(f + 1 + rng.below(o.max_gap), jroot), f: Cp::new(f, [0; 32]) },
        patches: BTreeMap::new(),
        atts: vec![],
        blocks: vec![],
        spec,
    };
    if rng.chance(1, 8) {
        w.ee = 0;
    }
    w.seal();
    w
}

/// a world with this share (per mille) of validators attesting along supported links
pub fn finalizing<E: EthSpec>(rng: &mut Rng, o: &WOpt, cfg: &z_core::Config, part: u64) -> (World, Scn) {
    let mut w = random_world::<E>(rng, o);
    for v in w.reg.iter_mut() {
        v.slashed = false;
    }
    let back = rng.below(4);
    let jb = Block::random(rng, w.st.j.e * w.slots_per_epoch - back);
    w.st.j.r = jb.root();
    w.blocks = vec![jb];
    let mut links = vec![];
    let mut j = w.st.j;
    if rng.chance(1, 3) && j.e + 3 <= w.st.f.e + 6 {
        let b = Block::random(rng, (j.e + 2) * w.slots_per_epoch);
        let t = Cp::new(j.e + 2, b.root());
        w.blocks.push(b);
        links.push(crate::ffg::Lk { s: j, t });
        j = t;
    }
    let b = Block::random(rng, (j.e + 1) * w.slots_per_epoch);
    links.push(crate::ffg::Lk { s: j, t: Cp::new(j.e + 1, b.root()) });
    w.blocks.push(b);
    w.seal();
    let ephv = Scn::empty::<E>(w.spec.clone(), cfg.clone()).ephv;
    for l in &links {
        let i = ((l.t.e + ephv - 2) % ephv) as u32;
        w.patches.entry(l.t.e).or_default().mixes.insert(i, rng.bytes32());
    }
    let s = w.scenario::<E>(cfg);
    for l in &links {
        let mut who = s.active(l.t.e);
        rng.shuffle(&mut who);
        who.truncate((who.len() as u64 * part / 1000) as usize);
        let who = who.into_iter().collect();
        let a = crate::scn::attest(rng, &s, l, &who, false);
        w.atts.extend(a);
    }
    let s = w.scenario::<E>(cfg);
    (w, s)
}
