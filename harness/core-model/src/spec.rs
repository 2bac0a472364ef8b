//! The consensus specification's committee assignment, seeds, domains and signing roots, written from the
//! specification (per-index shuffling, not the list shuffling the code uses).
use crate::ffg::Cp;
use crate::ssz::{h2, Hash};
use crate::tree::u64_chunk;
use beacon_types::ChainSpec;
use sha2::{Digest, Sha256};

pub const FAR: u64 = u64::MAX;

pub fn sha(parts: &[&[u8]]) -> Hash {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

/// compute_shuffled_index for every index, sharing the per-round digests
pub fn shuffled_indices(n: usize, seed: &Hash, rounds: u8) -> Vec<usize> {
    let mut idx: Vec<usize> = (0..n).collect();
    if n == 0 {
        return idx;
    }
    for round in 0..rounds {
        let d = sha(&[seed, &[round]]);
        let pivot = (u64::from_le_bytes(d[..8].try_into().unwrap()) % n as u64) as usize;
        let src: Vec<Hash> = (0..n.div_ceil(256)).map(|b| sha(&[seed, &[round], &(b as u32).to_le_bytes()])).collect();
        for i in idx.iter_mut() {
            let flip = (pivot + n - *i) % n;
            let pos = (*i).max(flip);
            let bit = src[pos / 256][(pos % 256) / 8] >> (pos % 8) & 1;
            if bit == 1 {
                *i = flip;
            }
        }
    }
    idx
}

#[derive(Clone, Debug)]
pub struct Committees {
    /// [slot in epoch][committee] -> members
    pub by_slot: Vec<Vec<Vec<usize>>>,
    pub per_slot: usize,
}

pub fn committees_per_slot(active: usize, slots: u64, target: usize, max: usize) -> usize {
    (active / slots as usize / target).min(max).max(1)
}

/// get_beacon_committee for every slot and index of an epoch; `active` in index order
pub fn committees(active: &[usize], seed: &Hash, rounds: u8, slots: u64, per_slot: usize) -> Committees {
    let n = active.len();
    let sh = shuffled_indices(n, seed, rounds);
    let count = per_slot * slots as usize;
    let mut by_slot = vec![];
    for s in 0..slots as usize {
        let mut v = vec![];
        for c in 0..per_slot {
            let k = s * per_slot + c;
            let (a, b) = (n * k / count, n * (k + 1) / count);
            v.push((a..b).map(|i| active[sh[i]]).collect());
        }
        by_slot.push(v);
    }
    Committees { by_slot, per_slot }
}

pub fn attester_seed(epoch: u64, mix: &Hash) -> Hash {
    sha(&[&[1, 0, 0, 0], &epoch.to_le_bytes(), mix])
}

/// number of the fork in force: 0 base, 1 altair, ... 5 electra, 6 fulu, 7 gloas
pub fn fork_no(s: &ChainSpec, epoch: u64) -> usize {
    let e = [
        s.altair_fork_epoch,
        s.bellatrix_fork_epoch,
        s.capella_fork_epoch,
        s.deneb_fork_epoch,
        s.electra_fork_epoch,
        s.fulu_fork_epoch,
        s.gloas_fork_epoch,
    ];
    e.iter().enumerate().filter(|(_, x)| x.is_some_and(|x| x.as_u64() <= epoch)).map(|(i, _)| i + 1).max().unwrap_or(0)
}
pub fn version_no(s: &ChainSpec, no: usize) -> [u8; 4] {
    [
        s.genesis_fork_version,
        s.altair_fork_version,
        s.bellatrix_fork_version,
        s.capella_fork_version,
        s.deneb_fork_version,
        s.electra_fork_version,
        s.fulu_fork_version,
        s.gloas_fork_version,
    ][no]
}
pub fn fork_epoch_no(s: &ChainSpec, no: usize) -> Option<u64> {
    let e = [
        s.altair_fork_epoch,
        s.bellatrix_fork_epoch,
        s.capella_fork_epoch,
        s.deneb_fork_epoch,
        s.electra_fork_epoch,
        s.fulu_fork_epoch,
        s.gloas_fork_epoch,
    ];
    if no == 0 {
        Some(0)
    } else {
        e[no - 1].map(|e| e.as_u64())
    }
}
/// (previous, current, epoch) as state.fork records it
pub fn fork_at(s: &ChainSpec, epoch: u64) -> ([u8; 4], [u8; 4], u64) {
    let no = fork_no(s, epoch);
    let e = fork_epoch_no(s, no).unwrap_or(0);
    // a chain starting in a fork records it as its own predecessor
    let prev = if e == 0 { no } else { no - 1 };
    (version_no(s, prev), version_no(s, no), e)
}

pub fn domain(domain_type: [u8; 4], version: [u8; 4], gvr: &Hash) -> Hash {
    let mut ver = [0u8; 32];
    ver[..4].copy_from_slice(&version);
    let root = h2(&ver, gvr);
    let mut d = [0u8; 32];
    d[..4].copy_from_slice(&domain_type);
    d[4..].copy_from_slice(&root[..28]);
    d
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize)]
pub struct Data {
    pub slot: u64,
    pub index: u64,
    pub bbr: Hash,
    pub source: Cp,
    pub target: Cp,
}
impl Data {
    pub fn root(&self) -> Hash {
        let cp = |c: &Cp| h2(&u64_chunk(c.e), &c.r);
        let z = crate::tree::zero(0);
        let a = h2(&u64_chunk(self.slot), &u64_chunk(self.index));
        let b = h2(&self.bbr, &cp(&self.source));
        let c = h2(&cp(&self.target), &z);
        let d = h2(&z, &z);
        h2(&h2(&a, &b), &h2(&c, &d))
    }
    pub fn signing_root(&self, domain: &Hash) -> Hash {
        h2(&self.root(), domain)
    }
}
