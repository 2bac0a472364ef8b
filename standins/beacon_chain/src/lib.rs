//! Stand-in for lighthouse's `beacon_chain`: only what makes the host's test harness reader compile. Nothing of it
//! can be executed; the monitors have their own chain.
use std::marker::PhantomData;
use types::{BeaconState, EthSpec, Hash256, MainnetEthSpec, Slot};

#[derive(Debug, Clone, Default)]
pub struct ChainConfig {
    pub reconstruct_historic_states: bool,
}
pub trait BeaconChainTypes: Send + Sync + 'static {
    type EthSpec: EthSpec;
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum StateSkipConfig {
    WithStateRoots,
    WithoutStateRoots,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum WhenSlotSkipped {
    None,
    Prev,
}
#[derive(Debug)]
pub struct BeaconChainError;

#[derive(Debug, Clone)]
pub struct Json;
pub struct Block;
impl Block {
    pub fn signed_block_header(&self) -> u64 {
        unimplemented!()
    }
    pub fn deconstruct(self) -> (Block, ()) {
        unimplemented!()
    }
    pub fn as_electra(&self) -> Result<u64, ()> {
        unimplemented!()
    }
}
pub struct Head;
impl Head {
    pub fn head_slot(&self) -> Slot {
        unimplemented!()
    }
}
pub struct BeaconChain<T: BeaconChainTypes> {
    pub genesis_validators_root: Hash256,
    _p: PhantomData<T>,
}
impl<T: BeaconChainTypes> BeaconChain<T> {
    pub fn state_at_slot(&self, _: Slot, _: StateSkipConfig) -> Result<BeaconState<T::EthSpec>, BeaconChainError> {
        unimplemented!()
    }
    pub fn block_at_slot(&self, _: Slot, _: WhenSlotSkipped) -> Result<Option<Block>, BeaconChainError> {
        unimplemented!()
    }
    pub fn get_blinded_block(&self, _: &Hash256) -> Result<Option<Block>, BeaconChainError> {
        unimplemented!()
    }
    pub fn block_root_at_slot(&self, _: Slot, _: WhenSlotSkipped) -> Result<Option<Hash256>, BeaconChainError> {
        unimplemented!()
    }
    pub async fn get_block(&self, _: &Hash256) -> Result<Option<Block>, BeaconChainError> {
        unimplemented!()
    }
    pub fn head(&self) -> Head {
        unimplemented!()
    }
    pub fn get_state(&self, _: &Hash256, _: Option<Slot>, _: bool) -> Result<Option<BeaconState<T::EthSpec>>, BeaconChainError> {
        unimplemented!()
    }
}

pub mod test_utils {
    use super::*;
    use std::sync::Arc;
    use types::{ChainSpec, Keypair};
    pub struct EphemeralHarnessType<E>(PhantomData<E>);
    impl<E: EthSpec> BeaconChainTypes for EphemeralHarnessType<E> {
        type EthSpec = E;
    }
    pub struct Builder<T>(PhantomData<T>);
    pub struct BeaconChainHarness<T: BeaconChainTypes> {
        pub chain: Arc<BeaconChain<T>>,
    }
    pub struct ExecutionBlockGenerator;
    impl ExecutionBlockGenerator {
        pub fn move_to_terminal_block(&mut self) -> Result<(), String> {
            unimplemented!()
        }
    }
    impl BeaconChainHarness<EphemeralHarnessType<MainnetEthSpec>> {
        pub fn builder(_: MainnetEthSpec) -> Builder<EphemeralHarnessType<MainnetEthSpec>> {
            unimplemented!()
        }
    }
    impl<T: BeaconChainTypes> Builder<T> {
        pub fn spec(self, _: Arc<ChainSpec>) -> Self {
            self
        }
        pub fn chain_config(self, _: ChainConfig) -> Self {
            self
        }
        pub fn keypairs(self, _: Vec<Keypair>) -> Self {
            self
        }
        pub fn fresh_ephemeral_store(self) -> Self {
            self
        }
        pub fn mock_execution_layer(self) -> Self {
            self
        }
        pub fn build(self) -> BeaconChainHarness<T> {
            unimplemented!()
        }
    }
    impl<T: BeaconChainTypes> BeaconChainHarness<T> {
        pub fn slots_per_epoch(&self) -> u64 {
            T::EthSpec::slots_per_epoch()
        }
        pub async fn extend_to_slot(&self, _: Slot) -> Hash256 {
            unimplemented!()
        }
        pub fn execution_block_generator(&self) -> ExecutionBlockGenerator {
            unimplemented!()
        }
        pub fn advance_slot(&self) {
            unimplemented!()
        }
        pub fn get_current_slot(&self) -> Slot {
            unimplemented!()
        }
        pub fn get_current_state(&self) -> BeaconState<T::EthSpec> {
            unimplemented!()
        }
        pub async fn add_attested_blocks_at_slots(&self, _: BeaconState<T::EthSpec>, _: Hash256, _: &[Slot], _: &[usize]) {
            unimplemented!()
        }
    }
}
