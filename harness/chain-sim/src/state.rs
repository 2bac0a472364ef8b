//! Full beacon states out of snapshots.
use crate::*;
use ethereum_consensus::phase0::{Fork, Validator};
use host::mainnet::{ElectraBeaconState, FuluBeaconState};

impl Sim {
    pub fn materialize(&self, s: &Snap) -> BeaconState {
        let validators: Vec<Validator> = s
            .reg
            .iter()
            .map(|v| Validator {
                public_key: byte_vector(&Sim::public_key(v)),
                withdrawal_credentials: byte_vector(&[1; 32]),
                effective_balance: v.eff,
                slashed: v.slashed,
                activation_eligibility_epoch: v.elig,
                activation_epoch: v.act,
                exit_epoch: v.exit,
                withdrawable_epoch: if v.exit == FAR { FAR } else { v.exit + 256 },
            })
            .collect();
        let n = validators.len();
        let mut mixes = self.base_mixes.clone();
        for (i, m) in s.mixes.iter() {
            mixes[*i as usize] = *m;
        }
        let bits: Vec<bool> = (0..4).map(|i| s.bits >> i & 1 == 1).collect();
        let fork = Fork { previous_version: s.fork.0, current_version: s.fork.1, epoch: s.fork.2 };
        let tag = mix_of(self.seed, u64::MAX - s.slot);
        macro_rules! fill {
            ($t:ty) => {{
                let mut x = <$t>::default();
                x.genesis_time = 1_600_000_000;
                x.genesis_validators_root = B256::from(self.gvr);
                x.slot = s.slot;
                x.fork = fork;
                x.latest_block_header = s.hdr.real();
                x.block_roots[(s.slot % 8192) as usize] = B256::from(s.hdr.parent);
                x.state_roots[(s.slot % 8192) as usize] = B256::from(tag);
                x.eth1_deposit_index = n as u64;
                x.validators = validators.try_into().unwrap();
                x.balances = s.reg.iter().map(|v| v.eff).collect::<Vec<_>>().try_into().unwrap();
                x.randao_mixes = mixes.iter().map(|m| byte_vector(m)).collect::<Vec<_>>().try_into().unwrap();
                x.previous_epoch_participation = vec![7u8; n].try_into().unwrap();
                x.current_epoch_participation = vec![3u8; n].try_into().unwrap();
                x.justification_bits = Bitvector::from_bits(bits);
                x.previous_justified_checkpoint = checkpoint_real(&s.pj);
                x.current_justified_checkpoint = checkpoint_real(&s.cj);
                x.finalized_checkpoint = checkpoint_real(&s.fin);
                x.inactivity_scores = vec![0u64; n].try_into().unwrap();
                x.next_withdrawal_index = 12345;
                x.exit_balance_to_consume = s.ebc;
                x.earliest_exit_epoch = s.ee;
                x.consolidation_balance_to_consume = s.cbc;
                x.earliest_consolidation_epoch = s.ec;
                x
            }};
        }
        if s.fork_no >= 6 {
            BeaconState::Fulu(fill!(FuluBeaconState))
        } else {
            BeaconState::Electra(fill!(ElectraBeaconState))
        }
    }
}
