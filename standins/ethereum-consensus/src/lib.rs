//! Stand-in for `ethereum-consensus`, which is not in the cargo cache: the containers the code under test uses,
//! written from the consensus specification. Block bodies are reduced to a few fields.
use ::serde::{Deserialize, Serialize};
use std::fmt;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
#[serde(rename_all = "lowercase")]
pub enum Fork {
    Phase0,
    Altair,
    Bellatrix,
    Capella,
    Deneb,
    Electra,
    Fulu,
}
impl fmt::Display for Fork {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            Self::Phase0 => "phase0",
            Self::Altair => "altair",
            Self::Bellatrix => "bellatrix",
            Self::Capella => "capella",
            Self::Deneb => "deneb",
            Self::Electra => "electra",
            Self::Fulu => "fulu",
        })
    }
}

pub mod ssz {
    pub use crate::bytes::{ByteList, ByteVector};
    pub mod prelude {
        pub use crate::bytes::{ByteList, ByteVector};
        pub use ssz_rs::prelude::*;
    }
}

mod bytes {
    use ssz_rs::prelude::*;
    use ssz_rs::Tree;
    use std::fmt;
    use std::ops::{Deref, DerefMut};

    fn hexed(b: &[u8]) -> String {
        format!("0x{}", hex::encode(b))
    }
    fn unhexed(s: &str) -> Result<Vec<u8>, String> {
        let s = s.strip_prefix("0x").ok_or("missing 0x")?;
        hex::decode(s).map_err(|e| e.to_string())
    }

    #[derive(Clone, PartialEq, Eq, Hash)]
    pub struct ByteVector<const N: usize>([u8; N]);
    #[derive(Clone, PartialEq, Eq, Hash, Default)]
    pub struct ByteList<const N: usize>(Vec<u8>);

    impl<const N: usize> ByteVector<N> {
        pub fn as_slice(&self) -> &[u8] {
            &self.0
        }
        fn list(&self) -> Vector<u8, N> {
            self.0.to_vec().try_into().unwrap()
        }
    }
    impl<const N: usize> ByteList<N> {
        fn list(&self) -> List<u8, N> {
            self.0.clone().try_into().unwrap()
        }
    }
    impl<const N: usize> Default for ByteVector<N> {
        fn default() -> Self {
            Self([0; N])
        }
    }
    impl<const N: usize> From<[u8; N]> for ByteVector<N> {
        fn from(b: [u8; N]) -> Self {
            Self(b)
        }
    }
    impl<const N: usize> TryFrom<&[u8]> for ByteVector<N> {
        type Error = String;
        fn try_from(b: &[u8]) -> Result<Self, String> {
            Ok(Self(b.try_into().map_err(|_| "wrong length".to_string())?))
        }
    }
    impl<const N: usize> TryFrom<&[u8]> for ByteList<N> {
        type Error = String;
        fn try_from(b: &[u8]) -> Result<Self, String> {
            if b.len() > N {
                return Err("too long".into());
            }
            Ok(Self(b.to_vec()))
        }
    }
    impl<const N: usize> HashTreeRoot for ByteVector<N> {
        fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
            if N == 32 {
                return Ok(Node::from_slice(&self.0));
            }
            self.list().hash_tree_root()
        }
    }
    impl<const N: usize> HashTreeRoot for ByteList<N> {
        fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
            self.list().hash_tree_root()
        }
    }
    impl<const N: usize> Serializable for ByteVector<N> {
        fn is_variable_size() -> bool {
            false
        }
        fn size_hint() -> usize {
            N
        }
    }
    impl<const N: usize> Serializable for ByteList<N> {
        fn is_variable_size() -> bool {
            true
        }
        fn size_hint() -> usize {
            0
        }
    }
    macro_rules! common {
        ($s:ident, $inner:ident) => {
            impl<const N: usize> Deref for $s<N> {
                type Target = [u8];
                fn deref(&self) -> &[u8] {
                    &self.0
                }
            }
            impl<const N: usize> DerefMut for $s<N> {
                fn deref_mut(&mut self) -> &mut [u8] {
                    &mut self.0
                }
            }
            impl<const N: usize> AsRef<[u8]> for $s<N> {
                fn as_ref(&self) -> &[u8] {
                    &self.0
                }
            }
            impl<const N: usize> fmt::Debug for $s<N> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    f.write_str(&hexed(&self.0))
                }
            }
            impl<const N: usize> serde::Serialize for $s<N> {
                fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                    s.serialize_str(&hexed(&self.0))
                }
            }
            impl<'de, const N: usize> serde::Deserialize<'de> for $s<N> {
                fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                    let s = <String as serde::Deserialize>::deserialize(d)?;
                    let b = unhexed(&s).map_err(serde::de::Error::custom)?;
                    Self::try_from(b.as_slice()).map_err(serde::de::Error::custom)
                }
            }
            impl<const N: usize> Serialize for $s<N> {
                fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
                    b.extend_from_slice(&self.0);
                    Ok(self.0.len())
                }
            }
            impl<const N: usize> Deserialize for $s<N> {
                fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
                    Self::try_from(e).map_err(|_| DeserializeError::InvalidBounds)
                }
            }
            impl<const N: usize> GeneralizedIndexable for $s<N> {
                fn chunk_count() -> usize {
                    $inner::<u8, N>::chunk_count()
                }
                fn compute_generalized_index(parent: usize, path: Path) -> Result<usize, MerkleizationError> {
                    $inner::<u8, N>::compute_generalized_index(parent, path)
                }
            }
            impl<const N: usize> Prove for $s<N> {
                fn compute_tree(&self) -> Result<Tree, MerkleizationError> {
                    self.list().compute_tree()
                }
            }
            impl<const N: usize> SimpleSerialize for $s<N> {}
        };
    }
    common!(ByteVector, Vector);
    common!(ByteList, List);
}

pub mod primitives {
    use crate::bytes::ByteVector;
    pub type Root = ssz_rs::Node;
    pub type Bytes32 = ByteVector<32>;
    pub type Hash32 = Bytes32;
    pub type Slot = u64;
    pub type Epoch = u64;
    pub type Gwei = u64;
    pub type CommitteeIndex = usize;
    pub type ValidatorIndex = usize;
    pub type WithdrawalIndex = usize;
    pub type ParticipationFlags = u8;
    pub type Version = [u8; 4];
    pub type BlsPublicKey = ByteVector<48>;
    pub type BlsSignature = ByteVector<96>;
    pub type ExecutionAddress = ByteVector<20>;
    pub use ssz_rs::U256;
    pub const FAR_FUTURE_EPOCH: Epoch = u64::MAX;
}

pub mod serde {
    pub mod as_str {
        use serde::de::Deserialize;
        pub fn serialize<S: serde::Serializer, T: ToString>(x: &T, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_str(&x.to_string())
        }
        pub fn deserialize<'de, D: serde::Deserializer<'de>, T: std::str::FromStr>(d: D) -> Result<T, D::Error>
        where
            T::Err: std::fmt::Display,
        {
            <std::borrow::Cow<'de, str>>::deserialize(d)?.parse().map_err(serde::de::Error::custom)
        }
    }
    pub mod seq_of_str {
        use serde::de::Deserialize;
        pub trait Sequence: Sized {
            type Item: std::str::FromStr + ToString;
            fn items(&self) -> &[Self::Item];
            fn of(v: Vec<Self::Item>) -> Option<Self>;
        }
        impl<T: std::str::FromStr + ToString, const N: usize> Sequence for ssz_rs::List<T, N> {
            type Item = T;
            fn items(&self) -> &[T] {
                self
            }
            fn of(v: Vec<T>) -> Option<Self> {
                v.try_into().ok()
            }
        }
        impl<T: std::str::FromStr + ToString, const N: usize> Sequence for ssz_rs::Vector<T, N> {
            type Item = T;
            fn items(&self) -> &[T] {
                self
            }
            fn of(v: Vec<T>) -> Option<Self> {
                v.try_into().ok()
            }
        }
        pub fn serialize<S: serde::Serializer, T: Sequence>(x: &T, s: S) -> Result<S::Ok, S::Error> {
            s.collect_seq(x.items().iter().map(|i| i.to_string()))
        }
        pub fn deserialize<'de, D: serde::Deserializer<'de>, T: Sequence>(d: D) -> Result<T, D::Error> {
            let v = Vec::<String>::deserialize(d)?;
            let v = v
                .iter()
                .map(|s| s.parse().map_err(|_| serde::de::Error::custom("invalid number")))
                .collect::<Result<Vec<_>, _>>()?;
            T::of(v).ok_or_else(|| serde::de::Error::custom("wrong number of elements"))
        }
    }
    pub mod hex4 {
        use serde::de::Deserialize;
        pub fn serialize<S: serde::Serializer>(x: &[u8; 4], s: S) -> Result<S::Ok, S::Error> {
            s.serialize_str(&format!("0x{}", hex::encode(x)))
        }
        pub fn deserialize<'de, D: serde::Deserializer<'de>>(d: D) -> Result<[u8; 4], D::Error> {
            let s = String::deserialize(d)?;
            let v = hex::decode(s.strip_prefix("0x").unwrap_or(&s)).map_err(serde::de::Error::custom)?;
            v.try_into().map_err(|_| serde::de::Error::custom("wrong length"))
        }
    }
}

macro_rules! container {
    ($($(#[$m:meta])* pub struct $n:ident $(<$(const $c:ident: usize),*>)? { $($(#[$fm:meta])* pub $f:ident: $t:ty,)* })*) => {$(
        #[derive(Default, Debug, Clone, PartialEq, Eq, SimpleSerialize, ::serde::Serialize, ::serde::Deserialize)]
        $(#[$m])*
        pub struct $n $(<$(const $c: usize),*>)? { $($(#[$fm])* pub $f: $t,)* }
    )*};
}

pub mod phase0 {
    use crate::primitives::*;
    use crate::serde::{as_str, hex4, seq_of_str};
    use ssz_rs::prelude::*;
    pub const JUSTIFICATION_BITS_LENGTH: usize = 4;
    pub const DEPOSIT_PROOF_LENGTH: usize = 33;

    container! {
        pub struct Fork {
            #[serde(with = "hex4")]
            pub previous_version: Version,
            #[serde(with = "hex4")]
            pub current_version: Version,
            #[serde(with = "as_str")]
            pub epoch: Epoch,
        }
        pub struct Checkpoint {
            #[serde(with = "as_str")]
            pub epoch: Epoch,
            pub root: Root,
        }
        pub struct Validator {
            #[serde(rename = "pubkey")]
            pub public_key: BlsPublicKey,
            pub withdrawal_credentials: Bytes32,
            #[serde(with = "as_str")]
            pub effective_balance: Gwei,
            pub slashed: bool,
            #[serde(with = "as_str")]
            pub activation_eligibility_epoch: Epoch,
            #[serde(with = "as_str")]
            pub activation_epoch: Epoch,
            #[serde(with = "as_str")]
            pub exit_epoch: Epoch,
            #[serde(with = "as_str")]
            pub withdrawable_epoch: Epoch,
        }
        pub struct Eth1Data {
            pub deposit_root: Root,
            #[serde(with = "as_str")]
            pub deposit_count: u64,
            pub block_hash: Hash32,
        }
        pub struct BeaconBlockHeader {
            #[serde(with = "as_str")]
            pub slot: Slot,
            #[serde(with = "as_str")]
            pub proposer_index: ValidatorIndex,
            pub parent_root: Root,
            pub state_root: Root,
            pub body_root: Root,
        }
        pub struct SignedBeaconBlockHeader {
            pub message: BeaconBlockHeader,
            pub signature: BlsSignature,
        }
        pub struct AttestationData {
            #[serde(with = "as_str")]
            pub slot: Slot,
            #[serde(with = "as_str")]
            pub index: CommitteeIndex,
            pub beacon_block_root: Root,
            pub source: Checkpoint,
            pub target: Checkpoint,
        }
        pub struct Attestation<const MAX_VALIDATORS_PER_COMMITTEE: usize> {
            pub aggregation_bits: Bitlist<MAX_VALIDATORS_PER_COMMITTEE>,
            pub data: AttestationData,
            pub signature: BlsSignature,
        }
        pub struct PendingAttestation<const MAX_VALIDATORS_PER_COMMITTEE: usize> {
            pub aggregation_bits: Bitlist<MAX_VALIDATORS_PER_COMMITTEE>,
            pub data: AttestationData,
            #[serde(with = "as_str")]
            pub inclusion_delay: Slot,
            #[serde(with = "as_str")]
            pub proposer_index: ValidatorIndex,
        }
        pub struct BeaconState<
            const SLOTS_PER_HISTORICAL_ROOT: usize,
            const HISTORICAL_ROOTS_LIMIT: usize,
            const ETH1_DATA_VOTES_BOUND: usize,
            const VALIDATOR_REGISTRY_LIMIT: usize,
            const EPOCHS_PER_HISTORICAL_VECTOR: usize,
            const EPOCHS_PER_SLASHINGS_VECTOR: usize,
            const MAX_VALIDATORS_PER_COMMITTEE: usize,
            const PENDING_ATTESTATIONS_BOUND: usize
        > {
            #[serde(with = "as_str")]
            pub genesis_time: u64,
            pub genesis_validators_root: Root,
            #[serde(with = "as_str")]
            pub slot: Slot,
            pub fork: Fork,
            pub latest_block_header: BeaconBlockHeader,
            pub block_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>,
            pub state_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>,
            pub historical_roots: List<Root, HISTORICAL_ROOTS_LIMIT>,
            pub eth1_data: Eth1Data,
            pub eth1_data_votes: List<Eth1Data, ETH1_DATA_VOTES_BOUND>,
            #[serde(with = "as_str")]
            pub eth1_deposit_index: u64,
            pub validators: List<Validator, VALIDATOR_REGISTRY_LIMIT>,
            #[serde(with = "seq_of_str")]
            pub balances: List<Gwei, VALIDATOR_REGISTRY_LIMIT>,
            pub randao_mixes: Vector<Bytes32, EPOCHS_PER_HISTORICAL_VECTOR>,
            #[serde(with = "seq_of_str")]
            pub slashings: Vector<Gwei, EPOCHS_PER_SLASHINGS_VECTOR>,
            pub previous_epoch_attestations: List<PendingAttestation<MAX_VALIDATORS_PER_COMMITTEE>, PENDING_ATTESTATIONS_BOUND>,
            pub current_epoch_attestations: List<PendingAttestation<MAX_VALIDATORS_PER_COMMITTEE>, PENDING_ATTESTATIONS_BOUND>,
            pub justification_bits: Bitvector<JUSTIFICATION_BITS_LENGTH>,
            pub previous_justified_checkpoint: Checkpoint,
            pub current_justified_checkpoint: Checkpoint,
            pub finalized_checkpoint: Checkpoint,
        }
    }
    pub mod mainnet {
        use crate::primitives::Epoch;
        pub const SLOTS_PER_EPOCH: u64 = 32;
        pub const MIN_SEED_LOOKAHEAD: Epoch = 1;
        pub const MAX_VALIDATORS_PER_COMMITTEE: usize = 2048;
        pub const MAX_COMMITTEES_PER_SLOT: usize = 64;
        pub const SLOTS_PER_HISTORICAL_ROOT: usize = 8192;
        pub const EPOCHS_PER_HISTORICAL_VECTOR: usize = 65536;
        pub const EPOCHS_PER_SLASHINGS_VECTOR: usize = 8192;
        pub const HISTORICAL_ROOTS_LIMIT: usize = 16777216;
        pub const VALIDATOR_REGISTRY_LIMIT: usize = 1099511627776;
        pub const ETH1_DATA_VOTES_BOUND: usize = 64 * 32;
        pub const PENDING_ATTESTATIONS_BOUND: usize = 128 * 32;
        pub type BeaconState = super::BeaconState<
            SLOTS_PER_HISTORICAL_ROOT,
            HISTORICAL_ROOTS_LIMIT,
            ETH1_DATA_VOTES_BOUND,
            VALIDATOR_REGISTRY_LIMIT,
            EPOCHS_PER_HISTORICAL_VECTOR,
            EPOCHS_PER_SLASHINGS_VECTOR,
            MAX_VALIDATORS_PER_COMMITTEE,
            PENDING_ATTESTATIONS_BOUND,
        >;
        pub use super::{BeaconBlockHeader, SignedBeaconBlockHeader};
    }
    pub mod presets {
        pub use super::mainnet;
    }
}

/// the states of altair to deneb differ in a few fields at the end
macro_rules! state {
    ([$($gen:ident),*] { $($(#[$fm:meta])* pub $f:ident: $t:ty,)* }) => {
        #[derive(Default, Debug, Clone, PartialEq, Eq, SimpleSerialize, ::serde::Serialize, ::serde::Deserialize)]
        pub struct BeaconState<
            const SLOTS_PER_HISTORICAL_ROOT: usize,
            const HISTORICAL_ROOTS_LIMIT: usize,
            const ETH1_DATA_VOTES_BOUND: usize,
            const VALIDATOR_REGISTRY_LIMIT: usize,
            const EPOCHS_PER_HISTORICAL_VECTOR: usize,
            const EPOCHS_PER_SLASHINGS_VECTOR: usize,
            const MAX_VALIDATORS_PER_COMMITTEE: usize,
            const SYNC_COMMITTEE_SIZE: usize,
            $(const $gen: usize),*
        > {
            #[serde(with = "as_str")]
            pub genesis_time: u64,
            pub genesis_validators_root: Root,
            #[serde(with = "as_str")]
            pub slot: Slot,
            pub fork: Fork,
            pub latest_block_header: BeaconBlockHeader,
            pub block_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>,
            pub state_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>,
            pub historical_roots: List<Root, HISTORICAL_ROOTS_LIMIT>,
            pub eth1_data: Eth1Data,
            pub eth1_data_votes: List<Eth1Data, ETH1_DATA_VOTES_BOUND>,
            #[serde(with = "as_str")]
            pub eth1_deposit_index: u64,
            pub validators: List<Validator, VALIDATOR_REGISTRY_LIMIT>,
            #[serde(with = "seq_of_str")]
            pub balances: List<Gwei, VALIDATOR_REGISTRY_LIMIT>,
            pub randao_mixes: Vector<Bytes32, EPOCHS_PER_HISTORICAL_VECTOR>,
            #[serde(with = "seq_of_str")]
            pub slashings: Vector<Gwei, EPOCHS_PER_SLASHINGS_VECTOR>,
            #[serde(with = "seq_of_str")]
            pub previous_epoch_participation: List<ParticipationFlags, VALIDATOR_REGISTRY_LIMIT>,
            #[serde(with = "seq_of_str")]
            pub current_epoch_participation: List<ParticipationFlags, VALIDATOR_REGISTRY_LIMIT>,
            pub justification_bits: Bitvector<JUSTIFICATION_BITS_LENGTH>,
            pub previous_justified_checkpoint: Checkpoint,
            pub current_justified_checkpoint: Checkpoint,
            pub finalized_checkpoint: Checkpoint,
            #[serde(with = "seq_of_str")]
            pub inactivity_scores: List<u64, VALIDATOR_REGISTRY_LIMIT>,
            pub current_sync_committee: SyncCommittee<SYNC_COMMITTEE_SIZE>,
            pub next_sync_committee: SyncCommittee<SYNC_COMMITTEE_SIZE>,
            $($(#[$fm])* pub $f: $t,)*
        }
    };
}
macro_rules! state_uses {
    () => {
        #[allow(unused_imports)]
        use crate::{
            phase0::{BeaconBlockHeader, Eth1Data, Validator, JUSTIFICATION_BITS_LENGTH},
            primitives::*,
            serde::{as_str, seq_of_str},
        };
        use ssz_rs::prelude::*;
    };
}

pub mod altair {
    state_uses!();
    use crate::phase0::{Checkpoint, Fork};
    container! {
        pub struct SyncCommittee<const SYNC_COMMITTEE_SIZE: usize> {
            #[serde(rename = "pubkeys")]
            pub public_keys: Vector<BlsPublicKey, SYNC_COMMITTEE_SIZE>,
            #[serde(rename = "aggregate_pubkey")]
            pub aggregate_public_key: BlsPublicKey,
        }
    }
    state!([] {});
}
pub mod bellatrix {
    state_uses!();
    use crate::altair::SyncCommittee;
    use crate::bytes::{ByteList, ByteVector};
    use crate::phase0::{Checkpoint, Fork};
    container! {
        pub struct ExecutionPayloadHeader<const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize> {
            pub parent_hash: Hash32,
            pub fee_recipient: ExecutionAddress,
            pub state_root: Bytes32,
            pub receipts_root: Bytes32,
            pub logs_bloom: ByteVector<BYTES_PER_LOGS_BLOOM>,
            pub prev_randao: Bytes32,
            #[serde(with = "as_str")]
            pub block_number: u64,
            #[serde(with = "as_str")]
            pub gas_limit: u64,
            #[serde(with = "as_str")]
            pub gas_used: u64,
            #[serde(with = "as_str")]
            pub timestamp: u64,
            pub extra_data: ByteList<MAX_EXTRA_DATA_BYTES>,
            #[serde(with = "as_str")]
            pub base_fee_per_gas: U256,
            pub block_hash: Hash32,
            pub transactions_root: Root,
        }
    }
    state!([BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES] {
        pub latest_execution_payload_header: ExecutionPayloadHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
    });
}
pub mod capella {
    state_uses!();
    use crate::altair::SyncCommittee;
    use crate::bytes::{ByteList, ByteVector};
    use crate::phase0::{Checkpoint, Fork};
    container! {
        pub struct HistoricalSummary {
            pub block_summary_root: Root,
            pub state_summary_root: Root,
        }
        pub struct ExecutionPayloadHeader<const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize> {
            pub parent_hash: Hash32,
            pub fee_recipient: ExecutionAddress,
            pub state_root: Bytes32,
            pub receipts_root: Bytes32,
            pub logs_bloom: ByteVector<BYTES_PER_LOGS_BLOOM>,
            pub prev_randao: Bytes32,
            #[serde(with = "as_str")]
            pub block_number: u64,
            #[serde(with = "as_str")]
            pub gas_limit: u64,
            #[serde(with = "as_str")]
            pub gas_used: u64,
            #[serde(with = "as_str")]
            pub timestamp: u64,
            pub extra_data: ByteList<MAX_EXTRA_DATA_BYTES>,
            #[serde(with = "as_str")]
            pub base_fee_per_gas: U256,
            pub block_hash: Hash32,
            pub transactions_root: Root,
            pub withdrawals_root: Root,
        }
    }
    state!([BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES] {
        pub latest_execution_payload_header: ExecutionPayloadHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
        #[serde(with = "as_str")]
        pub next_withdrawal_index: WithdrawalIndex,
        #[serde(with = "as_str")]
        pub next_withdrawal_validator_index: ValidatorIndex,
        pub historical_summaries: List<HistoricalSummary, HISTORICAL_ROOTS_LIMIT>,
    });
}
pub mod deneb {
    state_uses!();
    use crate::altair::SyncCommittee;
    use crate::bytes::{ByteList, ByteVector};
    use crate::capella::HistoricalSummary;
    pub use crate::phase0::{Attestation, Checkpoint, Fork, PendingAttestation};
    pub use crate::primitives::ParticipationFlags;
    container! {
        pub struct ExecutionPayloadHeader<const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize> {
            pub parent_hash: Hash32,
            pub fee_recipient: ExecutionAddress,
            pub state_root: Bytes32,
            pub receipts_root: Bytes32,
            pub logs_bloom: ByteVector<BYTES_PER_LOGS_BLOOM>,
            pub prev_randao: Bytes32,
            #[serde(with = "as_str")]
            pub block_number: u64,
            #[serde(with = "as_str")]
            pub gas_limit: u64,
            #[serde(with = "as_str")]
            pub gas_used: u64,
            #[serde(with = "as_str")]
            pub timestamp: u64,
            pub extra_data: ByteList<MAX_EXTRA_DATA_BYTES>,
            #[serde(with = "as_str")]
            pub base_fee_per_gas: U256,
            pub block_hash: Hash32,
            pub transactions_root: Root,
            pub withdrawals_root: Root,
            #[serde(with = "as_str")]
            pub blob_gas_used: u64,
            #[serde(with = "as_str")]
            pub excess_blob_gas: u64,
        }
        pub struct BeaconBlockBody {
            pub randao_reveal: BlsSignature,
            pub eth1_data: Eth1Data,
            pub graffiti: Bytes32,
            pub attestations: List<Attestation<2048>, 128>,
        }
        pub struct BeaconBlock {
            #[serde(with = "as_str")]
            pub slot: Slot,
            #[serde(with = "as_str")]
            pub proposer_index: ValidatorIndex,
            pub parent_root: Root,
            pub state_root: Root,
            pub body: BeaconBlockBody,
        }
    }
    state!([BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES] {
        pub latest_execution_payload_header: ExecutionPayloadHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
        #[serde(with = "as_str")]
        pub next_withdrawal_index: WithdrawalIndex,
        #[serde(with = "as_str")]
        pub next_withdrawal_validator_index: ValidatorIndex,
        pub historical_summaries: List<HistoricalSummary, HISTORICAL_ROOTS_LIMIT>,
    });
}
pub mod electra {
    use crate::primitives::*;
    use crate::serde::as_str;
    use ssz_rs::prelude::*;
    pub use crate::deneb::ExecutionPayloadHeader;
    pub use crate::phase0::{AttestationData, BeaconBlockHeader, Checkpoint, Eth1Data, Validator};
    container! {
        pub struct PendingConsolidation {
            #[serde(with = "as_str")]
            pub source_index: ValidatorIndex,
            #[serde(with = "as_str")]
            pub target_index: ValidatorIndex,
        }
        pub struct Attestation<const MAX_VALIDATORS_PER_SLOT: usize, const MAX_COMMITTEES_PER_SLOT: usize> {
            pub aggregation_bits: Bitlist<MAX_VALIDATORS_PER_SLOT>,
            pub data: AttestationData,
            pub signature: BlsSignature,
            pub committee_bits: Bitvector<MAX_COMMITTEES_PER_SLOT>,
        }
        pub struct ExecutionRequests {
            pub withdrawals: List<Root, 16>,
        }
        pub struct BeaconBlockBody {
            pub randao_reveal: BlsSignature,
            pub eth1_data: Eth1Data,
            pub graffiti: Bytes32,
            pub attestations: List<Attestation<131072, 64>, 8>,
            pub execution_requests: ExecutionRequests,
        }
        pub struct BeaconBlock {
            #[serde(with = "as_str")]
            pub slot: Slot,
            #[serde(with = "as_str")]
            pub proposer_index: ValidatorIndex,
            pub parent_root: Root,
            pub state_root: Root,
            pub body: BeaconBlockBody,
        }
    }
    pub mod mainnet {
        pub use crate::phase0::mainnet::*;
        pub const SYNC_COMMITTEE_SIZE: usize = 512;
        pub const BYTES_PER_LOGS_BLOOM: usize = 256;
        pub const MAX_EXTRA_DATA_BYTES: usize = 32;
        pub const PENDING_DEPOSITS_LIMIT: usize = 134217728;
        pub const PENDING_PARTIAL_WITHDRAWALS_LIMIT: usize = 134217728;
        pub const PENDING_CONSOLIDATIONS_LIMIT: usize = 262144;
        pub const MAX_VALIDATORS_PER_SLOT: usize = 131072;
        pub const MAX_ATTESTATIONS_ELECTRA: usize = 8;
        pub type Attestation = super::Attestation<MAX_VALIDATORS_PER_SLOT, MAX_COMMITTEES_PER_SLOT>;
    }
}

pub mod types {
    use crate::primitives::*;
    use ssz_rs::prelude::*;

    #[derive(Debug, Clone, PartialEq, Eq, HashTreeRoot, GeneralizedIndexable, Prove, Serializable, ::serde::Serialize)]
    #[ssz(transparent)]
    #[serde(untagged)]
    pub enum BeaconBlock {
        Deneb(crate::deneb::BeaconBlock),
        Electra(crate::electra::BeaconBlock),
    }
    impl<'de> ::serde::Deserialize<'de> for BeaconBlock {
        fn deserialize<D: ::serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            #[derive(::serde::Deserialize)]
            #[serde(untagged)]
            enum Any {
                Electra(crate::electra::BeaconBlock),
                Deneb(crate::deneb::BeaconBlock),
            }
            Ok(match <Any as ::serde::Deserialize>::deserialize(d)? {
                Any::Electra(b) => Self::Electra(b),
                Any::Deneb(b) => Self::Deneb(b),
            })
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum BeaconBlockBodyRef<'a> {
        Deneb(&'a crate::deneb::BeaconBlockBody),
        Electra(&'a crate::electra::BeaconBlockBody),
    }
    impl BeaconBlock {
        pub fn slot(&self) -> Slot {
            match self {
                Self::Deneb(b) => b.slot,
                Self::Electra(b) => b.slot,
            }
        }
        pub fn proposer_index(&self) -> ValidatorIndex {
            match self {
                Self::Deneb(b) => b.proposer_index,
                Self::Electra(b) => b.proposer_index,
            }
        }
        pub fn parent_root(&self) -> Root {
            match self {
                Self::Deneb(b) => b.parent_root,
                Self::Electra(b) => b.parent_root,
            }
        }
        pub fn state_root(&self) -> Root {
            match self {
                Self::Deneb(b) => b.state_root,
                Self::Electra(b) => b.state_root,
            }
        }
        pub fn body(&self) -> BeaconBlockBodyRef<'_> {
            match self {
                Self::Deneb(b) => BeaconBlockBodyRef::Deneb(&b.body),
                Self::Electra(b) => BeaconBlockBodyRef::Electra(&b.body),
            }
        }
    }
    pub mod mainnet {
        pub type BeaconBlock = super::BeaconBlock;
    }
}
