use crate::{BitList, BitVector, Epoch, EthSpec, Hash256, SignedRoot, Slot};
use bls::AggregateSignature;
use serde::{Deserialize, Serialize};
use ssz::{ssz_container, Decode, DecodeError, Encode};
use tree_hash::tree_hash_container;

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Checkpoint {
    pub epoch: Epoch,
    pub root: Hash256,
}
impl std::fmt::Display for Checkpoint {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}:{}", self.epoch, self.root)
    }
}
ssz_container!([] Checkpoint { epoch: Epoch, root: Hash256 });
tree_hash_container!([] Checkpoint { epoch, root });

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct AttestationData {
    pub slot: Slot,
    #[serde(with = "crate::chain_spec::quoted_u64")]
    pub index: u64,
    pub beacon_block_root: Hash256,
    pub source: Checkpoint,
    pub target: Checkpoint,
}
ssz_container!([] AttestationData { slot: Slot, index: u64, beacon_block_root: Hash256, source: Checkpoint, target: Checkpoint });
tree_hash_container!([] AttestationData { slot, index, beacon_block_root, source, target });
impl SignedRoot for AttestationData {}

#[derive(Debug, Clone, PartialEq)]
pub struct AttestationBase<E: EthSpec> {
    pub aggregation_bits: BitList<E::MaxValidatorsPerCommittee>,
    pub data: AttestationData,
    pub signature: AggregateSignature,
}
ssz_container!([E: EthSpec] AttestationBase<E> {
    aggregation_bits: BitList<E::MaxValidatorsPerCommittee>, data: AttestationData, signature: AggregateSignature });
tree_hash_container!([E: EthSpec] AttestationBase<E> { aggregation_bits, data, signature });

#[derive(Debug, Clone, PartialEq)]
pub struct AttestationElectra<E: EthSpec> {
    pub aggregation_bits: BitList<E::MaxValidatorsPerSlot>,
    pub data: AttestationData,
    pub signature: AggregateSignature,
    pub committee_bits: BitVector<E::MaxCommitteesPerSlot>,
}
ssz_container!([E: EthSpec] AttestationElectra<E> {
    aggregation_bits: BitList<E::MaxValidatorsPerSlot>, data: AttestationData, signature: AggregateSignature,
    committee_bits: BitVector<E::MaxCommitteesPerSlot> });
tree_hash_container!([E: EthSpec] AttestationElectra<E> { aggregation_bits, data, signature, committee_bits });

impl<E: EthSpec> AttestationElectra<E> {
    pub fn get_committee_indices(&self) -> Vec<u64> {
        self.committee_bits
            .iter()
            .enumerate()
            .filter_map(|(i, b)| b.then_some(i as u64))
            .collect()
    }
    pub fn get_aggregation_bits(&self) -> Vec<u64> {
        self.aggregation_bits.iter().enumerate().filter_map(|(i, b)| b.then_some(i as u64)).collect()
    }
    pub fn committee_index(&self) -> Option<u64> {
        self.get_committee_indices().first().cloned()
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Attestation<E: EthSpec> {
    Base(AttestationBase<E>),
    Electra(AttestationElectra<E>),
}
#[derive(Debug, Clone, PartialEq)]
pub enum AttestationRef<'a, E: EthSpec> {
    Base(&'a AttestationBase<E>),
    Electra(&'a AttestationElectra<E>),
}

impl<E: EthSpec> Attestation<E> {
    pub fn to_ref(&self) -> AttestationRef<'_, E> {
        match self {
            Attestation::Base(a) => AttestationRef::Base(a),
            Attestation::Electra(a) => AttestationRef::Electra(a),
        }
    }
    pub fn data(&self) -> &AttestationData {
        match self {
            Attestation::Base(a) => &a.data,
            Attestation::Electra(a) => &a.data,
        }
    }
    pub fn data_mut(&mut self) -> &mut AttestationData {
        match self {
            Attestation::Base(a) => &mut a.data,
            Attestation::Electra(a) => &mut a.data,
        }
    }
    pub fn signature(&self) -> &AggregateSignature {
        match self {
            Attestation::Base(a) => &a.signature,
            Attestation::Electra(a) => &a.signature,
        }
    }
    pub fn as_electra(&self) -> Result<&AttestationElectra<E>, crate::Error> {
        match self {
            Attestation::Electra(a) => Ok(a),
            _ => Err(crate::Error::IncorrectStateVariant),
        }
    }
    pub fn as_electra_mut(&mut self) -> Result<&mut AttestationElectra<E>, crate::Error> {
        match self {
            Attestation::Electra(a) => Ok(a),
            _ => Err(crate::Error::IncorrectStateVariant),
        }
    }
    pub fn as_base(&self) -> Result<&AttestationBase<E>, crate::Error> {
        match self {
            Attestation::Base(a) => Ok(a),
            _ => Err(crate::Error::IncorrectStateVariant),
        }
    }
    pub fn committee_index(&self) -> Option<u64> {
        match self {
            Attestation::Base(a) => Some(a.data.index),
            Attestation::Electra(a) => a.committee_index(),
        }
    }
    pub fn num_set_aggregation_bits(&self) -> usize {
        match self {
            Attestation::Base(a) => a.aggregation_bits.num_set_bits(),
            Attestation::Electra(a) => a.aggregation_bits.num_set_bits(),
        }
    }
    pub fn is_aggregation_bits_zero(&self) -> bool {
        self.num_set_aggregation_bits() == 0
    }
}
impl<'a, E: EthSpec> AttestationRef<'a, E> {
    pub fn data(&self) -> &'a AttestationData {
        match self {
            AttestationRef::Base(a) => &a.data,
            AttestationRef::Electra(a) => &a.data,
        }
    }
    pub fn signature(&self) -> &'a AggregateSignature {
        match self {
            AttestationRef::Base(a) => &a.signature,
            AttestationRef::Electra(a) => &a.signature,
        }
    }
    pub fn as_electra(&self) -> Result<&'a AttestationElectra<E>, crate::Error> {
        match self {
            AttestationRef::Electra(a) => Ok(a),
            _ => Err(crate::Error::IncorrectStateVariant),
        }
    }
    pub fn committee_index(&self) -> Option<u64> {
        match self {
            AttestationRef::Base(a) => Some(a.data.index),
            AttestationRef::Electra(a) => a.committee_index(),
        }
    }
    pub fn num_set_aggregation_bits(&self) -> usize {
        match self {
            AttestationRef::Base(a) => a.aggregation_bits.num_set_bits(),
            AttestationRef::Electra(a) => a.aggregation_bits.num_set_bits(),
        }
    }
    pub fn is_aggregation_bits_zero(&self) -> bool {
        self.num_set_aggregation_bits() == 0
    }
    pub fn clone_as_attestation(self) -> Attestation<E> {
        match self {
            AttestationRef::Base(a) => Attestation::Base(a.clone()),
            AttestationRef::Electra(a) => Attestation::Electra(a.clone()),
        }
    }
}

/// The "on disk" form: a union whose selector byte is the variant.
pub mod attestation {
    use super::*;
    #[derive(Debug, Clone, PartialEq)]
    pub enum AttestationOnDisk<E: EthSpec> {
        Base(AttestationBase<E>),
        Electra(AttestationElectra<E>),
    }
    #[derive(Debug, Clone)]
    pub enum AttestationRefOnDisk<'a, E: EthSpec> {
        Base(&'a AttestationBase<E>),
        Electra(&'a AttestationElectra<E>),
    }
    impl<E: EthSpec> AttestationOnDisk<E> {
        pub fn to_ref(&self) -> AttestationRefOnDisk<'_, E> {
            match self {
                AttestationOnDisk::Base(a) => AttestationRefOnDisk::Base(a),
                AttestationOnDisk::Electra(a) => AttestationRefOnDisk::Electra(a),
            }
        }
    }
    impl<E: EthSpec> Encode for AttestationRefOnDisk<'_, E> {
        fn is_ssz_fixed_len() -> bool {
            false
        }
        fn ssz_bytes_len(&self) -> usize {
            1 + match self {
                AttestationRefOnDisk::Base(a) => a.ssz_bytes_len(),
                AttestationRefOnDisk::Electra(a) => a.ssz_bytes_len(),
            }
        }
        fn ssz_append(&self, b: &mut Vec<u8>) {
            match self {
                AttestationRefOnDisk::Base(a) => {
                    b.push(0);
                    a.ssz_append(b)
                }
                AttestationRefOnDisk::Electra(a) => {
                    b.push(1);
                    a.ssz_append(b)
                }
            }
        }
    }
    impl<E: EthSpec> Encode for AttestationOnDisk<E> {
        fn is_ssz_fixed_len() -> bool {
            false
        }
        fn ssz_bytes_len(&self) -> usize {
            self.to_ref().ssz_bytes_len()
        }
        fn ssz_append(&self, b: &mut Vec<u8>) {
            self.to_ref().ssz_append(b)
        }
    }
    impl<E: EthSpec> Decode for AttestationOnDisk<E> {
        fn is_ssz_fixed_len() -> bool {
            false
        }
        fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
            match b.split_first() {
                None => Err(DecodeError::OutOfBoundsByte { i: 0 }),
                Some((0, r)) => AttestationBase::from_ssz_bytes(r).map(AttestationOnDisk::Base),
                Some((1, r)) => AttestationElectra::from_ssz_bytes(r).map(AttestationOnDisk::Electra),
                Some((s, _)) => Err(DecodeError::UnionSelectorInvalid(*s)),
            }
        }
    }
    impl<E: EthSpec> From<Attestation<E>> for AttestationOnDisk<E> {
        fn from(a: Attestation<E>) -> Self {
            match a {
                Attestation::Base(a) => AttestationOnDisk::Base(a),
                Attestation::Electra(a) => AttestationOnDisk::Electra(a),
            }
        }
    }
    impl<E: EthSpec> From<AttestationOnDisk<E>> for Attestation<E> {
        fn from(a: AttestationOnDisk<E>) -> Self {
            match a {
                AttestationOnDisk::Base(a) => Attestation::Base(a),
                AttestationOnDisk::Electra(a) => Attestation::Electra(a),
            }
        }
    }
    impl<'a, E: EthSpec> From<AttestationRef<'a, E>> for AttestationRefOnDisk<'a, E> {
        fn from(a: AttestationRef<'a, E>) -> Self {
            match a {
                AttestationRef::Base(a) => AttestationRefOnDisk::Base(a),
                AttestationRef::Electra(a) => AttestationRefOnDisk::Electra(a),
            }
        }
    }
    impl<'a, E: EthSpec> From<AttestationRefOnDisk<'a, E>> for AttestationRef<'a, E> {
        fn from(a: AttestationRefOnDisk<'a, E>) -> Self {
            match a {
                AttestationRefOnDisk::Base(a) => AttestationRef::Base(a),
                AttestationRefOnDisk::Electra(a) => AttestationRef::Electra(a),
            }
        }
    }
}
