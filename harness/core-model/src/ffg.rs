//! Reference Casper FFG, as the property states it (own types, no code under test).
use alloy_primitives::B256;
use z_core::{Checkpoint, ConsensusState, Epoch, Link};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord, serde::Serialize)]
pub struct Cp {
    pub e: u64,
    pub r: [u8; 32],
}
impl Cp {
    pub fn new(e: u64, r: [u8; 32]) -> Cp {
        Cp { e, r }
    }
    pub fn real(&self) -> Checkpoint {
        Checkpoint::new(Epoch::new(self.e), B256::from(self.r))
    }
    pub fn of(c: Checkpoint) -> Cp {
        Cp { e: c.epoch().as_u64(), r: c.root().0 }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, serde::Serialize)]
pub struct St {
    pub j: Cp,
    pub f: Cp,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, serde::Serialize)]
pub struct Lk {
    pub s: Cp,
    pub t: Cp,
}
impl Lk {
    pub fn real(&self) -> Link {
        Link { source: self.s.real(), target: self.t.real() }
    }
    pub fn of(l: &Link) -> Lk {
        Lk { s: Cp::of(l.source), t: Cp::of(l.target) }
    }
}
impl St {
    pub fn valid(&self) -> bool {
        let zero = Cp { e: 0, r: [0; 32] };
        self.f.e < self.j.e || (self.j == zero && self.f == zero)
    }
    /// through serde, so that states the constructor refuses can be made too
    pub fn real(&self) -> ConsensusState {
        let mut b = vec![];
        for c in [self.j, self.f] {
            b.extend_from_slice(&bincode::serialize(&c.real()).unwrap());
        }
        bincode::deserialize(&b).unwrap()
    }
    pub fn of(s: &ConsensusState) -> St {
        St { j: Cp::of(s.current_justified_checkpoint()), f: Cp::of(s.finalized_checkpoint()) }
    }
    /// the state after the link, or nothing if it must be refused
    pub fn apply(&self, l: &Lk) -> Option<St> {
        if l.s != self.j || l.t.e <= l.s.e {
            return None;
        }
        let f = if l.t.e - l.s.e == 1 { l.s } else { self.f };
        Some(St { j: l.t, f })
    }
}
