//! The simulated chain behind the interfaces the host code reads from.
use crate::*;
use ethereum_consensus::electra::mainnet::SignedBeaconBlockHeader;
use host::{ChainReader, StateProvider, StateProviderError};
use std::fmt::Display;
use std::rc::Rc;
use z_core::{ConsensusState, MainnetEthSpec, Slot};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ask {
    Header(String),
    Block(String),
    Cons(String),
    State(u64),
}

#[derive(Default)]
pub struct Log {
    pub asks: RefCell<Vec<Ask>>,
    /// queries that fail
    pub fail: RefCell<BTreeSet<Ask>>,
    /// blocks served in an old version instead
    pub old: RefCell<BTreeSet<u64>>,
    /// the last visible slot, if not all of them
    pub head: RefCell<Option<u64>>,
}

/// a handle on the chain, as chain reader and as state provider
#[derive(Clone)]
pub struct Node<'a> {
    pub sim: &'a Sim,
    pub log: Rc<Log>,
}
impl<'a> Node<'a> {
    pub fn new(sim: &'a Sim) -> Self {
        Node { sim, log: Rc::new(Log::default()) }
    }
    fn ask(&self, a: Ask) -> Result<(), anyhow::Error> {
        let bad = self.log.fail.borrow().contains(&a);
        self.log.asks.borrow_mut().push(a.clone());
        anyhow::ensure!(!bad, "injected failure of {a:?}");
        Ok(())
    }
    fn head(&self) -> u64 {
        self.log.head.borrow().unwrap_or(self.sim.head())
    }
    fn slot_of(&self, id: &str) -> Option<u64> {
        let s = if let Some(h) = id.strip_prefix("0x") {
            let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect::<Option<Vec<u8>>>()?;
            *self.sim.by_root.get(<&[u8; 32]>::try_from(&b[..]).ok()?)?
        } else {
            id.parse().ok()?
        };
        (s <= self.head()).then_some(s)
    }
}
impl ChainReader for Node<'_> {
    async fn get_block_header(&self, block_id: impl Display) -> Result<Option<SignedBeaconBlockHeader>, anyhow::Error> {
        let id = block_id.to_string();
        self.ask(Ask::Header(id.clone()))?;
        Ok(self.slot_of(&id).and_then(|s| self.sim.blocks.get(&s)).map(|b| SignedBeaconBlockHeader { message: b.hdr.real(), signature: Default::default() }))
    }
    async fn get_block(&self, block_id: impl Display) -> Result<Option<BeaconBlock>, anyhow::Error> {
        let id = block_id.to_string();
        self.ask(Ask::Block(id.clone()))?;
        let Some(s) = self.slot_of(&id) else { return Ok(None) };
        let b = self.sim.blocks.get(&s).map(|b| b.block.clone());
        if self.log.old.borrow().contains(&s) {
            return Ok(b.map(|_| BeaconBlock::Deneb(Default::default())));
        }
        Ok(b)
    }
    async fn get_consensus_state(&self, state_id: impl Display) -> Result<ConsensusState, anyhow::Error> {
        let id = state_id.to_string();
        self.ask(Ask::Cons(id.clone()))?;
        let s = self.slot_of(&id).and_then(|s| self.sim.snap(s)).ok_or_else(|| anyhow::anyhow!("state {id} not found"))?;
        Ok(s.cons().real())
    }
}
impl StateProvider for Node<'_> {
    type Spec = MainnetEthSpec;
    fn state_at_slot(&self, slot: Slot) -> Result<Arc<BeaconState>, StateProviderError> {
        let s = slot.as_u64();
        self.ask(Ask::State(s))?;
        if s == 0 {
            let mut x = host::mainnet::ElectraBeaconState::default();
            x.genesis_validators_root = B256::from(self.sim.gvr);
            return Ok(Arc::new(BeaconState::Electra(x)));
        }
        if s > self.head() {
            return Err(StateProviderError::NotFound(slot));
        }
        self.sim.state(s).ok_or(StateProviderError::NotFound(slot))
    }
}
