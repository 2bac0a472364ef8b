//! Stand-in for lighthouse's `types` crate: the part of its interface that Signal uses and the code around it
//! may come to use, implemented from the consensus specification.
mod attestation_types;
mod bitfield;
mod chain_spec;
mod eth_spec;
mod slot_epoch;

pub use attestation_types::*;
pub use bitfield::*;
pub use chain_spec::*;
pub use eth_spec::*;
pub use slot_epoch::*;

pub use bls::{
    AggregateSignature, Keypair, PublicKey, PublicKeyBytes, SecretKey, Signature,
};
pub use typenum::{self, Unsigned};

pub type Hash256 = alloy_primitives::B256;
pub type Uint256 = alloy_primitives::U256;
pub type Hash64 = alloy_primitives::B64;
pub type Address = alloy_primitives::Address;
pub type ExecutionBlockHash = alloy_primitives::B256;

pub trait FixedBytesExtended {
    fn from_low_u64_be(value: u64) -> Self;
    fn from_low_u64_le(value: u64) -> Self;
    fn zero() -> Self;
}
impl FixedBytesExtended for Hash256 {
    fn from_low_u64_be(value: u64) -> Self {
        let mut b = [0; 32];
        b[24..].copy_from_slice(&value.to_be_bytes());
        b.into()
    }
    fn from_low_u64_le(value: u64) -> Self {
        let mut b = [0; 32];
        b[24..].copy_from_slice(&value.to_le_bytes());
        b.into()
    }
    fn zero() -> Self {
        Hash256::ZERO
    }
}

/// `BeaconStateError` of lighthouse, as far as it can occur here.
#[derive(Debug, PartialEq, Clone)]
pub enum Error {
    ArithError(safe_arith::ArithError),
    SszError(ssz::DecodeError),
    InsufficientValidators,
    ZeroSlotsPerEpoch,
    NoCommittee { slot: Slot, index: u64 },
    UnknownValidator(usize),
    IncorrectStateVariant,
}
pub type BeaconStateError = Error;
impl From<safe_arith::ArithError> for Error {
    fn from(e: safe_arith::ArithError) -> Self {
        Error::ArithError(e)
    }
}

pub fn compute_committee_index_in_epoch(
    slot: Slot,
    slots_per_epoch: usize,
    committees_per_slot: usize,
    committee_index: usize,
) -> usize {
    (slot.as_usize() % slots_per_epoch) * committees_per_slot + committee_index
}

pub fn compute_committee_range_in_epoch(
    epoch_committee_count: usize,
    index_in_epoch: usize,
    shuffling_len: usize,
) -> Option<std::ops::Range<usize>> {
    if epoch_committee_count == 0 || index_in_epoch >= epoch_committee_count {
        return None;
    }
    let start = (shuffling_len * index_in_epoch) / epoch_committee_count;
    let end = (shuffling_len * (index_in_epoch + 1)) / epoch_committee_count;
    Some(start..end)
}

pub fn epoch_committee_count(committees_per_slot: usize, slots_per_epoch: usize) -> usize {
    committees_per_slot * slots_per_epoch
}

pub trait SignedRoot: tree_hash::TreeHash {
    fn signing_root(&self, domain: Hash256) -> Hash256 {
        SigningData { object_root: self.tree_hash_root(), domain }.tree_hash_root_()
    }
}
#[derive(Debug, PartialEq, Clone)]
pub struct SigningData {
    pub object_root: Hash256,
    pub domain: Hash256,
}
impl SigningData {
    fn tree_hash_root_(&self) -> Hash256 {
        tree_hash::container_root(&[self.object_root, self.domain])
    }
}
tree_hash::tree_hash_container!([] SigningData { object_root, domain });

/// As much of lighthouse's beacon state as the host's test helpers mention; nothing creates one.
#[derive(Debug, Clone, serde::Serialize)]
pub struct BeaconState<E> {
    justified: Checkpoint,
    finalized: Checkpoint,
    fork: ForkName,
    #[serde(skip)]
    _p: std::marker::PhantomData<E>,
}
impl<E: EthSpec> BeaconState<E> {
    pub fn current_justified_checkpoint(&self) -> Checkpoint {
        self.justified
    }
    pub fn finalized_checkpoint(&self) -> Checkpoint {
        self.finalized
    }
    pub fn fork_name_unchecked(&self) -> ForkName {
        self.fork
    }
}
