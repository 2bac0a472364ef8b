use crate::{ChainSpec, Epoch, Error};
use safe_arith::SafeArith;
use serde::{Deserialize, Serialize};
use std::fmt::{self, Debug};
use std::str::FromStr;
use typenum::{bit::B0, UInt, Unsigned, U1024, U1099511627776, U131072, U16777216, U2, U2048, U32, U4, U512, U64, U65536, U8, U8192};

type U8192_ = U8192;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum EthSpecId {
    Mainnet,
    Minimal,
    Gnosis,
}
impl FromStr for EthSpecId {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        match s {
            "mainnet" => Ok(EthSpecId::Mainnet),
            "minimal" => Ok(EthSpecId::Minimal),
            "gnosis" => Ok(EthSpecId::Gnosis),
            _ => Err(format!("Unknown eth spec: {s}")),
        }
    }
}
impl fmt::Display for EthSpecId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            EthSpecId::Mainnet => "mainnet",
            EthSpecId::Minimal => "minimal",
            EthSpecId::Gnosis => "gnosis",
        })
    }
}

pub trait EthSpec: 'static + Default + Sync + Send + Clone + Debug + PartialEq + Eq {
    type SlotsPerEpoch: Unsigned + Clone + Sync + Send + Debug + PartialEq;
    type EpochsPerHistoricalVector: Unsigned + Clone + Sync + Send + Debug + PartialEq + Unpin;
    type EpochsPerSlashingsVector: Unsigned + Clone + Sync + Send + Debug + PartialEq + Unpin;
    type SlotsPerHistoricalRoot: Unsigned + Clone + Sync + Send + Debug + PartialEq;
    type HistoricalRootsLimit: Unsigned + Clone + Sync + Send + Debug + PartialEq;
    type ValidatorRegistryLimit: Unsigned + Clone + Sync + Send + Debug + PartialEq + Unpin;
    type MaxValidatorsPerCommittee: Unsigned + Clone + Sync + Send + Debug + PartialEq + Eq;
    type MaxCommitteesPerSlot: Unsigned + Clone + Sync + Send + Debug + PartialEq + Eq + Unpin;
    type MaxValidatorsPerSlot: Unsigned + Clone + Sync + Send + Debug + PartialEq + Eq;
    type SyncCommitteeSize: Unsigned + Clone + Sync + Send + Debug + PartialEq;

    fn default_spec() -> ChainSpec;
    fn spec_name() -> EthSpecId;

    fn genesis_epoch() -> Epoch {
        Epoch::new(0)
    }
    fn get_committee_count_per_slot(active_validator_count: usize, spec: &ChainSpec) -> Result<usize, Error> {
        Self::get_committee_count_per_slot_with(
            active_validator_count,
            spec.max_committees_per_slot,
            spec.target_committee_size,
        )
    }
    fn get_committee_count_per_slot_with(
        active_validator_count: usize,
        max_committees_per_slot: usize,
        target_committee_size: usize,
    ) -> Result<usize, Error> {
        let slots_per_epoch = Self::SlotsPerEpoch::to_usize();
        Ok(std::cmp::max(
            1,
            std::cmp::min(
                max_committees_per_slot,
                active_validator_count.safe_div(slots_per_epoch)?.safe_div(target_committee_size)?,
            ),
        ))
    }
    fn get_epoch_committee_count(active_validator_count: usize, spec: &ChainSpec) -> Result<usize, Error> {
        Ok(Self::get_committee_count_per_slot(active_validator_count, spec)? * Self::SlotsPerEpoch::to_usize())
    }
    fn minimum_validator_count() -> usize {
        Self::SlotsPerEpoch::to_usize()
    }
    fn slots_per_epoch() -> u64 {
        Self::SlotsPerEpoch::to_u64()
    }
    fn slots_per_historical_root() -> usize {
        Self::SlotsPerHistoricalRoot::to_usize()
    }
    fn epochs_per_historical_vector() -> usize {
        Self::EpochsPerHistoricalVector::to_usize()
    }
    fn max_committees_per_slot() -> usize {
        Self::MaxCommitteesPerSlot::to_usize()
    }
    fn max_validators_per_slot() -> usize {
        Self::MaxValidatorsPerSlot::to_usize()
    }
    fn max_validators_per_committee() -> usize {
        Self::MaxValidatorsPerCommittee::to_usize()
    }
    fn validator_registry_limit() -> usize {
        Self::ValidatorRegistryLimit::to_usize()
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Default, Serialize, Deserialize)]
pub struct MainnetEthSpec;
impl EthSpec for MainnetEthSpec {
    type SlotsPerEpoch = U32;
    type EpochsPerHistoricalVector = U65536;
    type EpochsPerSlashingsVector = U8192_;
    type SlotsPerHistoricalRoot = U8192_;
    type HistoricalRootsLimit = U16777216;
    type ValidatorRegistryLimit = U1099511627776;
    type MaxValidatorsPerCommittee = U2048;
    type MaxCommitteesPerSlot = U64;
    type MaxValidatorsPerSlot = U131072;
    type SyncCommitteeSize = U512;
    fn default_spec() -> ChainSpec {
        ChainSpec::mainnet()
    }
    fn spec_name() -> EthSpecId {
        EthSpecId::Mainnet
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Default, Serialize, Deserialize)]
pub struct MinimalEthSpec;
impl EthSpec for MinimalEthSpec {
    type SlotsPerEpoch = U8;
    type EpochsPerHistoricalVector = U64;
    type EpochsPerSlashingsVector = U64;
    type SlotsPerHistoricalRoot = U64;
    type HistoricalRootsLimit = U16777216;
    type ValidatorRegistryLimit = U1099511627776;
    type MaxValidatorsPerCommittee = U2048;
    type MaxCommitteesPerSlot = U4;
    type MaxValidatorsPerSlot = U8192_;
    type SyncCommitteeSize = U32;
    fn default_spec() -> ChainSpec {
        ChainSpec::minimal()
    }
    fn spec_name() -> EthSpecId {
        EthSpecId::Minimal
    }
}
#[allow(dead_code)]
type Unused = (UInt<U2, B0>, U1024);
