use crate::{Epoch, EthSpec, EthSpecId, Hash256, Slot};
use safe_arith::{ArithError, SafeArith};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
use std::str::FromStr;
use tree_hash::TreeHash;

/// Decimal numbers, quoted or not.
pub mod quoted_u64 {
    use super::*;
    pub fn serialize<S: Serializer>(v: &u64, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(v)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<u64, D::Error> {
        struct V;
        impl serde::de::Visitor<'_> for V {
            type Value = u64;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a quoted or unquoted integer")
            }
            fn visit_str<E: serde::de::Error>(self, s: &str) -> Result<u64, E> {
                s.parse().map_err(E::custom)
            }
            fn visit_u64<E: serde::de::Error>(self, v: u64) -> Result<u64, E> {
                Ok(v)
            }
        }
        d.deserialize_str(V)
    }
}
mod bytes_4_hex {
    use super::*;
    pub fn serialize<S: Serializer>(v: &[u8; 4], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("0x{}", hex::encode(v)))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<[u8; 4], D::Error> {
        let s = String::deserialize(d)?;
        let b = hex::decode(s.strip_prefix("0x").ok_or_else(|| serde::de::Error::custom("missing 0x prefix"))?)
            .map_err(serde::de::Error::custom)?;
        b.try_into().map_err(|_| serde::de::Error::custom("expected 4 bytes"))
    }
}

macro_rules! forks {
    ($($v:ident $s:literal $epoch:ident $version:ident),*) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
        #[serde(try_from = "String")]
        #[serde(into = "String")]
        pub enum ForkName { $($v),* }
        impl ForkName {
            pub fn list_all() -> Vec<ForkName> {
                vec![$(ForkName::$v),*]
            }
        }
        impl FromStr for ForkName {
            type Err = String;
            fn from_str(s: &str) -> Result<Self, String> {
                match s.to_lowercase().as_ref() {
                    $($s => Ok(ForkName::$v),)*
                    "phase0" => Ok(ForkName::Base),
                    "merge" => Ok(ForkName::Bellatrix),
                    _ => Err(format!("unknown fork name: {s}")),
                }
            }
        }
        impl fmt::Display for ForkName {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                match self { $(ForkName::$v => $s.fmt(f)),* }
            }
        }
    };
}
forks!(Base "base" a b, Altair "altair" a b, Bellatrix "bellatrix" a b, Capella "capella" a b, Deneb "deneb" a b,
    Electra "electra" a b, Fulu "fulu" a b, Gloas "gloas" a b);

impl From<ForkName> for String {
    fn from(f: ForkName) -> String {
        f.to_string()
    }
}
impl TryFrom<String> for ForkName {
    type Error = String;
    fn try_from(s: String) -> Result<Self, String> {
        s.parse()
    }
}
impl ForkName {
    pub fn latest() -> ForkName {
        *ForkName::list_all().last().unwrap()
    }
    pub fn latest_stable() -> ForkName {
        ForkName::Electra
    }
    pub fn previous_fork(self) -> Option<ForkName> {
        let l = ForkName::list_all();
        let i = l.iter().position(|f| *f == self).unwrap();
        i.checked_sub(1).map(|i| l[i])
    }
    pub fn next_fork(self) -> Option<ForkName> {
        let l = ForkName::list_all();
        let i = l.iter().position(|f| *f == self).unwrap();
        l.get(i + 1).copied()
    }
    pub fn altair_enabled(self) -> bool {
        self >= ForkName::Altair
    }
    pub fn bellatrix_enabled(self) -> bool {
        self >= ForkName::Bellatrix
    }
    pub fn capella_enabled(self) -> bool {
        self >= ForkName::Capella
    }
    pub fn deneb_enabled(self) -> bool {
        self >= ForkName::Deneb
    }
    pub fn electra_enabled(self) -> bool {
        self >= ForkName::Electra
    }
    pub fn fulu_enabled(self) -> bool {
        self >= ForkName::Fulu
    }
    pub fn gloas_enabled(self) -> bool {
        self >= ForkName::Gloas
    }
}

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Fork {
    #[serde(with = "bytes_4_hex")]
    pub previous_version: [u8; 4],
    #[serde(with = "bytes_4_hex")]
    pub current_version: [u8; 4],
    pub epoch: Epoch,
}
impl Fork {
    pub fn get_fork_version(&self, epoch: Epoch) -> [u8; 4] {
        if epoch < self.epoch {
            return self.previous_version;
        }
        self.current_version
    }
}
ssz::ssz_container!([] Fork { previous_version: [u8; 4], current_version: [u8; 4], epoch: Epoch });
tree_hash::tree_hash_container!([] Fork { previous_version, current_version, epoch });

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq)]
pub struct ForkData {
    pub current_version: [u8; 4],
    pub genesis_validators_root: Hash256,
}
tree_hash::tree_hash_container!([] ForkData { current_version, genesis_validators_root });

#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub enum Domain {
    BlsToExecutionChange,
    BeaconProposer,
    BeaconAttester,
    BlobSidecar,
    Randao,
    Deposit,
    VoluntaryExit,
    SelectionProof,
    AggregateAndProof,
    SyncCommittee,
    ContributionAndProof,
    SyncCommitteeSelectionProof,
    ApplicationMask(ApplicationDomain),
}
#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub enum ApplicationDomain {
    Builder,
}

#[derive(PartialEq, Debug, Clone)]
pub struct ChainSpec {
    pub config_name: Option<String>,
    // constants
    pub genesis_slot: Slot,
    pub far_future_epoch: Epoch,
    pub base_rewards_per_epoch: u64,
    pub deposit_contract_tree_depth: u64,
    // misc
    pub max_committees_per_slot: usize,
    pub target_committee_size: usize,
    pub min_per_epoch_churn_limit: u64,
    pub max_per_epoch_activation_churn_limit: u64,
    pub churn_limit_quotient: u64,
    pub shuffle_round_count: u8,
    pub min_genesis_active_validator_count: u64,
    pub min_genesis_time: u64,
    pub hysteresis_quotient: u64,
    pub hysteresis_downward_multiplier: u64,
    pub hysteresis_upward_multiplier: u64,
    // gwei values
    pub min_deposit_amount: u64,
    pub max_effective_balance: u64,
    pub ejection_balance: u64,
    pub effective_balance_increment: u64,
    // initial values
    pub genesis_fork_version: [u8; 4],
    // time
    pub genesis_delay: u64,
    pub seconds_per_slot: u64,
    pub min_attestation_inclusion_delay: u64,
    pub min_seed_lookahead: Epoch,
    pub max_seed_lookahead: Epoch,
    pub min_epochs_to_inactivity_penalty: u64,
    pub min_validator_withdrawability_delay: Epoch,
    pub shard_committee_period: u64,
    // domains
    pub domain_beacon_proposer: u32,
    pub domain_beacon_attester: u32,
    pub domain_randao: u32,
    pub domain_deposit: u32,
    pub domain_voluntary_exit: u32,
    pub domain_selection_proof: u32,
    pub domain_aggregate_and_proof: u32,
    // forks
    pub altair_fork_version: [u8; 4],
    pub altair_fork_epoch: Option<Epoch>,
    pub bellatrix_fork_version: [u8; 4],
    pub bellatrix_fork_epoch: Option<Epoch>,
    pub capella_fork_version: [u8; 4],
    pub capella_fork_epoch: Option<Epoch>,
    pub deneb_fork_version: [u8; 4],
    pub deneb_fork_epoch: Option<Epoch>,
    pub electra_fork_version: [u8; 4],
    pub electra_fork_epoch: Option<Epoch>,
    pub fulu_fork_version: [u8; 4],
    pub fulu_fork_epoch: Option<Epoch>,
    pub gloas_fork_version: [u8; 4],
    pub gloas_fork_epoch: Option<Epoch>,
    pub epochs_per_sync_committee_period: Epoch,
    // electra
    pub unset_deposit_requests_start_index: u64,
    pub full_exit_request_amount: u64,
    pub min_activation_balance: u64,
    pub max_effective_balance_electra: u64,
    pub min_per_epoch_churn_limit_electra: u64,
    pub max_per_epoch_activation_exit_churn_limit: u64,
    // deposits
    pub deposit_chain_id: u64,
    pub deposit_network_id: u64,
    pub deposit_contract_address: [u8; 20],
}

impl ChainSpec {
    pub fn mainnet() -> Self {
        ChainSpec {
            config_name: Some("mainnet".into()),
            genesis_slot: Slot::new(0),
            far_future_epoch: Epoch::new(u64::MAX),
            base_rewards_per_epoch: 4,
            deposit_contract_tree_depth: 32,
            max_committees_per_slot: 64,
            target_committee_size: 128,
            min_per_epoch_churn_limit: 4,
            max_per_epoch_activation_churn_limit: 8,
            churn_limit_quotient: 65_536,
            shuffle_round_count: 90,
            min_genesis_active_validator_count: 16_384,
            min_genesis_time: 1606824000,
            hysteresis_quotient: 4,
            hysteresis_downward_multiplier: 1,
            hysteresis_upward_multiplier: 5,
            min_deposit_amount: 1_000_000_000,
            max_effective_balance: 32_000_000_000,
            ejection_balance: 16_000_000_000,
            effective_balance_increment: 1_000_000_000,
            genesis_fork_version: [0; 4],
            genesis_delay: 604800,
            seconds_per_slot: 12,
            min_attestation_inclusion_delay: 1,
            min_seed_lookahead: Epoch::new(1),
            max_seed_lookahead: Epoch::new(4),
            min_epochs_to_inactivity_penalty: 4,
            min_validator_withdrawability_delay: Epoch::new(256),
            shard_committee_period: 256,
            domain_beacon_proposer: 0,
            domain_beacon_attester: 1,
            domain_randao: 2,
            domain_deposit: 3,
            domain_voluntary_exit: 4,
            domain_selection_proof: 5,
            domain_aggregate_and_proof: 6,
            altair_fork_version: [1, 0, 0, 0],
            altair_fork_epoch: Some(Epoch::new(74240)),
            bellatrix_fork_version: [2, 0, 0, 0],
            bellatrix_fork_epoch: Some(Epoch::new(144896)),
            capella_fork_version: [3, 0, 0, 0],
            capella_fork_epoch: Some(Epoch::new(194048)),
            deneb_fork_version: [4, 0, 0, 0],
            deneb_fork_epoch: Some(Epoch::new(269568)),
            electra_fork_version: [5, 0, 0, 0],
            electra_fork_epoch: Some(Epoch::new(364032)),
            fulu_fork_version: [6, 0, 0, 0],
            fulu_fork_epoch: None,
            gloas_fork_version: [7, 0, 0, 0],
            gloas_fork_epoch: None,
            epochs_per_sync_committee_period: Epoch::new(256),
            unset_deposit_requests_start_index: u64::MAX,
            full_exit_request_amount: 0,
            min_activation_balance: 32_000_000_000,
            max_effective_balance_electra: 2_048_000_000_000,
            min_per_epoch_churn_limit_electra: 128_000_000_000,
            max_per_epoch_activation_exit_churn_limit: 256_000_000_000,
            deposit_chain_id: 1,
            deposit_network_id: 1,
            deposit_contract_address: hex_array("00000000219ab540356cbb839cbe05303d7705fa"),
        }
    }
    pub fn minimal() -> Self {
        ChainSpec {
            config_name: None,
            max_committees_per_slot: 4,
            target_committee_size: 4,
            min_per_epoch_churn_limit: 2,
            max_per_epoch_activation_churn_limit: 4,
            churn_limit_quotient: 32,
            shuffle_round_count: 10,
            min_genesis_active_validator_count: 64,
            min_genesis_time: 1578009600,
            genesis_fork_version: [0, 0, 0, 1],
            shard_committee_period: 64,
            genesis_delay: 300,
            seconds_per_slot: 6,
            altair_fork_version: [1, 0, 0, 1],
            altair_fork_epoch: None,
            bellatrix_fork_version: [2, 0, 0, 1],
            bellatrix_fork_epoch: None,
            capella_fork_version: [3, 0, 0, 1],
            capella_fork_epoch: None,
            deneb_fork_version: [4, 0, 0, 1],
            deneb_fork_epoch: None,
            electra_fork_version: [5, 0, 0, 1],
            electra_fork_epoch: None,
            fulu_fork_version: [6, 0, 0, 1],
            fulu_fork_epoch: None,
            gloas_fork_version: [7, 0, 0, 1],
            epochs_per_sync_committee_period: Epoch::new(8),
            min_per_epoch_churn_limit_electra: 64_000_000_000,
            max_per_epoch_activation_exit_churn_limit: 128_000_000_000,
            ..Self::mainnet()
        }
    }
    pub fn from_config<E: EthSpec>(config: &Config) -> Option<Self> {
        config.apply_to_chain_spec::<E>(&E::default_spec())
    }

    pub fn fork_epoch(&self, fork: ForkName) -> Option<Epoch> {
        match fork {
            ForkName::Base => Some(Epoch::new(0)),
            ForkName::Altair => self.altair_fork_epoch,
            ForkName::Bellatrix => self.bellatrix_fork_epoch,
            ForkName::Capella => self.capella_fork_epoch,
            ForkName::Deneb => self.deneb_fork_epoch,
            ForkName::Electra => self.electra_fork_epoch,
            ForkName::Fulu => self.fulu_fork_epoch,
            ForkName::Gloas => self.gloas_fork_epoch,
        }
    }
    pub fn fork_version_for_name(&self, fork: ForkName) -> [u8; 4] {
        match fork {
            ForkName::Base => self.genesis_fork_version,
            ForkName::Altair => self.altair_fork_version,
            ForkName::Bellatrix => self.bellatrix_fork_version,
            ForkName::Capella => self.capella_fork_version,
            ForkName::Deneb => self.deneb_fork_version,
            ForkName::Electra => self.electra_fork_version,
            ForkName::Fulu => self.fulu_fork_version,
            ForkName::Gloas => self.gloas_fork_version,
        }
    }
    pub fn fork_name_at_slot<E: EthSpec>(&self, slot: Slot) -> ForkName {
        self.fork_name_at_epoch(slot.epoch(E::slots_per_epoch()))
    }
    pub fn fork_name_at_epoch(&self, epoch: Epoch) -> ForkName {
        ForkName::list_all()
            .into_iter()
            .rev()
            .find(|f| self.fork_epoch(*f).is_some_and(|e| epoch >= e))
            .unwrap_or(ForkName::Base)
    }
    pub fn fork_at_epoch(&self, epoch: Epoch) -> Fork {
        let current = self.fork_name_at_epoch(epoch);
        let fork_epoch = self.fork_epoch(current).unwrap_or(Epoch::new(0));
        let previous = if fork_epoch == 0 { current } else { current.previous_fork().unwrap_or(ForkName::Base) };
        Fork {
            previous_version: self.fork_version_for_name(previous),
            current_version: self.fork_version_for_name(current),
            epoch: fork_epoch,
        }
    }
    pub fn get_domain_constant(&self, domain: Domain) -> u32 {
        match domain {
            Domain::BeaconProposer => self.domain_beacon_proposer,
            Domain::BeaconAttester => self.domain_beacon_attester,
            Domain::Randao => self.domain_randao,
            Domain::Deposit => self.domain_deposit,
            Domain::VoluntaryExit => self.domain_voluntary_exit,
            Domain::SelectionProof => self.domain_selection_proof,
            Domain::AggregateAndProof => self.domain_aggregate_and_proof,
            Domain::SyncCommittee => 7,
            Domain::SyncCommitteeSelectionProof => 8,
            Domain::ContributionAndProof => 9,
            Domain::BlsToExecutionChange => 10,
            Domain::BlobSidecar => 11,
            Domain::ApplicationMask(ApplicationDomain::Builder) => 16777216,
        }
    }
    pub fn get_domain(&self, epoch: Epoch, domain: Domain, fork: &Fork, genesis_validators_root: Hash256) -> Hash256 {
        let fork_version = fork.get_fork_version(epoch);
        self.compute_domain(domain, fork_version, genesis_validators_root)
    }
    pub fn get_deposit_domain(&self) -> Hash256 {
        self.compute_domain(Domain::Deposit, self.genesis_fork_version, Hash256::ZERO)
    }
    pub fn compute_fork_data_root(current_version: [u8; 4], genesis_validators_root: Hash256) -> Hash256 {
        ForkData { current_version, genesis_validators_root }.tree_hash_root()
    }
    pub fn compute_fork_digest(current_version: [u8; 4], genesis_validators_root: Hash256) -> [u8; 4] {
        Self::compute_fork_data_root(current_version, genesis_validators_root)[..4].try_into().unwrap()
    }
    pub fn compute_domain(&self, domain: Domain, fork_version: [u8; 4], genesis_validators_root: Hash256) -> Hash256 {
        let mut d = [0; 32];
        d[..4].copy_from_slice(&self.get_domain_constant(domain).to_le_bytes());
        d[4..].copy_from_slice(&Self::compute_fork_data_root(fork_version, genesis_validators_root)[..28]);
        Hash256::from(d)
    }
    pub fn compute_activation_exit_epoch(&self, epoch: Epoch) -> Result<Epoch, ArithError> {
        epoch.safe_add(1u64)?.safe_add(self.max_seed_lookahead)
    }
    pub fn maximum_gossip_clock_disparity(&self) -> std::time::Duration {
        std::time::Duration::from_millis(500)
    }
}
fn hex_array<const N: usize>(s: &str) -> [u8; N] {
    hex::decode(s).unwrap().try_into().unwrap()
}

mod fork_epoch {
    use super::*;
    pub fn serialize<S: Serializer>(v: &Option<Epoch>, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&v.map_or(u64::MAX, |e| e.as_u64()))
    }
    /// FAR_FUTURE_EPOCH means that the fork is not scheduled.
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Option<Epoch>, D::Error> {
        let e = quoted_u64::deserialize(d)?;
        Ok((e != u64::MAX).then(|| Epoch::new(e)))
    }
}
fn gloas_version() -> [u8; 4] {
    [0xff; 4]
}
fn fulu_version() -> [u8; 4] {
    [0xff; 4]
}
fn churn_electra() -> u64 {
    128_000_000_000
}
fn exit_churn() -> u64 {
    256_000_000_000
}

/// Exact implementation of the *config* object from the Ethereum spec (YAML/JSON), as far as it matters here.
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(rename_all = "UPPERCASE")]
pub struct Config {
    pub preset_base: String,
    #[serde(default)]
    pub config_name: Option<String>,
    #[serde(with = "quoted_u64")]
    pub min_genesis_active_validator_count: u64,
    #[serde(with = "quoted_u64")]
    pub min_genesis_time: u64,
    #[serde(with = "bytes_4_hex")]
    pub genesis_fork_version: [u8; 4],
    #[serde(with = "quoted_u64")]
    pub genesis_delay: u64,
    #[serde(with = "bytes_4_hex")]
    pub altair_fork_version: [u8; 4],
    #[serde(with = "fork_epoch")]
    pub altair_fork_epoch: Option<Epoch>,
    #[serde(with = "bytes_4_hex")]
    pub bellatrix_fork_version: [u8; 4],
    #[serde(with = "fork_epoch")]
    pub bellatrix_fork_epoch: Option<Epoch>,
    #[serde(with = "bytes_4_hex")]
    pub capella_fork_version: [u8; 4],
    #[serde(with = "fork_epoch")]
    pub capella_fork_epoch: Option<Epoch>,
    #[serde(with = "bytes_4_hex")]
    pub deneb_fork_version: [u8; 4],
    #[serde(with = "fork_epoch")]
    pub deneb_fork_epoch: Option<Epoch>,
    #[serde(with = "bytes_4_hex")]
    pub electra_fork_version: [u8; 4],
    #[serde(with = "fork_epoch")]
    pub electra_fork_epoch: Option<Epoch>,
    #[serde(default = "fulu_version", with = "bytes_4_hex")]
    pub fulu_fork_version: [u8; 4],
    #[serde(default, with = "fork_epoch")]
    pub fulu_fork_epoch: Option<Epoch>,
    #[serde(default = "gloas_version", with = "bytes_4_hex")]
    pub gloas_fork_version: [u8; 4],
    #[serde(default, with = "fork_epoch")]
    pub gloas_fork_epoch: Option<Epoch>,
    #[serde(with = "quoted_u64")]
    pub seconds_per_slot: u64,
    pub min_validator_withdrawability_delay: Epoch,
    #[serde(with = "quoted_u64")]
    pub shard_committee_period: u64,
    #[serde(with = "quoted_u64")]
    pub ejection_balance: u64,
    #[serde(with = "quoted_u64")]
    pub min_per_epoch_churn_limit: u64,
    #[serde(with = "quoted_u64")]
    pub churn_limit_quotient: u64,
    #[serde(with = "quoted_u64")]
    pub max_per_epoch_activation_churn_limit: u64,
    #[serde(default = "churn_electra", with = "quoted_u64")]
    pub min_per_epoch_churn_limit_electra: u64,
    #[serde(default = "exit_churn", with = "quoted_u64")]
    pub max_per_epoch_activation_exit_churn_limit: u64,
    #[serde(with = "quoted_u64")]
    pub deposit_chain_id: u64,
    #[serde(with = "quoted_u64")]
    pub deposit_network_id: u64,
    pub deposit_contract_address: String,
    
}

impl Config {
    pub fn eth_spec_id(&self) -> Option<EthSpecId> {
        self.preset_base.parse().ok()
    }
    pub fn apply_to_chain_spec<E: EthSpec>(&self, spec: &ChainSpec) -> Option<ChainSpec> {
        if self.preset_base != E::spec_name().to_string() {
            return None;
        }
        Some(ChainSpec {
            config_name: self.config_name.clone(),
            min_genesis_active_validator_count: self.min_genesis_active_validator_count,
            min_genesis_time: self.min_genesis_time,
            genesis_fork_version: self.genesis_fork_version,
            genesis_delay: self.genesis_delay,
            altair_fork_version: self.altair_fork_version,
            altair_fork_epoch: self.altair_fork_epoch,
            bellatrix_fork_version: self.bellatrix_fork_version,
            bellatrix_fork_epoch: self.bellatrix_fork_epoch,
            capella_fork_version: self.capella_fork_version,
            capella_fork_epoch: self.capella_fork_epoch,
            deneb_fork_version: self.deneb_fork_version,
            deneb_fork_epoch: self.deneb_fork_epoch,
            electra_fork_version: self.electra_fork_version,
            electra_fork_epoch: self.electra_fork_epoch,
            fulu_fork_version: self.fulu_fork_version,
            fulu_fork_epoch: self.fulu_fork_epoch,
            gloas_fork_version: self.gloas_fork_version,
            gloas_fork_epoch: self.gloas_fork_epoch,
            seconds_per_slot: self.seconds_per_slot,
            min_validator_withdrawability_delay: self.min_validator_withdrawability_delay,
            shard_committee_period: self.shard_committee_period,
            ejection_balance: self.ejection_balance,
            min_per_epoch_churn_limit: self.min_per_epoch_churn_limit,
            churn_limit_quotient: self.churn_limit_quotient,
            max_per_epoch_activation_churn_limit: self.max_per_epoch_activation_churn_limit,
            min_per_epoch_churn_limit_electra: self.min_per_epoch_churn_limit_electra,
            max_per_epoch_activation_exit_churn_limit: self.max_per_epoch_activation_exit_churn_limit,
            deposit_chain_id: self.deposit_chain_id,
            deposit_network_id: self.deposit_network_id,
            deposit_contract_address: hex_array(
                self.deposit_contract_address.trim_start_matches("0x"),
            ),
            ..spec.clone()
        })
    }
}
