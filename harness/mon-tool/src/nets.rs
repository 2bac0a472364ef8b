//! The two networks as published (https://github.com/eth-clients/mainnet, https://github.com/eth-clients/sepolia),
//! written down independently of the repository's files.
use beacon_types::{ChainSpec, ForkName};
use z_core::{Config, Epoch};

pub struct Net {
    pub name: &'static str,
    pub guest: &'static str,
    pub spec: ChainSpec,
    pub cfg: Config,
    pub percent: u64,
    pub electra: u64,
    pub fulu: u64,
}
pub fn mainnet() -> Net {
    let mut s = ChainSpec::mainnet();
    forks(&mut s, [[0, 0, 0, 0], [1, 0, 0, 0], [2, 0, 0, 0], [3, 0, 0, 0], [4, 0, 0, 0], [5, 0, 0, 0], [6, 0, 0, 0]], [74240, 144896, 194048, 269568, 364032, 411392]);
    Net { name: "mainnet", guest: "guest_mainnet", spec: s, cfg: config(85), percent: 85, electra: 364032, fulu: 411392 }
}
pub fn sepolia() -> Net {
    let mut s = ChainSpec::mainnet();
    s.config_name = Some("sepolia".into());
    let v = |b: u8| [0x90, 0, 0, b];
    forks(&mut s, [v(0x69), v(0x70), v(0x71), v(0x72), v(0x73), v(0x74), v(0x75)], [50, 100, 56832, 132608, 222464, 272640]);
    s.min_genesis_active_validator_count = 1300;
    s.min_genesis_time = 1655647200;
    s.genesis_delay = 86400;
    s.deposit_chain_id = 11155111;
    s.deposit_network_id = 11155111;
    s.deposit_contract_address = hex::decode("7f02C3E3c98b133055B8B348B2Ac625669Ed295D").unwrap().try_into().unwrap();
    Net { name: "sepolia", guest: "guest_sepolia", spec: s, cfg: config(70), percent: 70, electra: 222464, fulu: 272640 }
}
pub fn both() -> [Net; 2] {
    [mainnet(), sepolia()]
}
fn config(percent: u64) -> Config {
    Config {
        min_version: ForkName::Electra,
        max_version: ForkName::Fulu,
        epoch_lookahead_limit: Epoch::new(4),
        justification_threshold_factor: percent,
        justification_threshold_quotient: 100,
    }
}
fn forks(s: &mut ChainSpec, v: [[u8; 4]; 7], e: [u64; 6]) {
    let at = |i: usize| Some(Epoch::new(e[i]));
    s.genesis_fork_version = v[0];
    (s.altair_fork_version, s.altair_fork_epoch) = (v[1], at(0));
    (s.bellatrix_fork_version, s.bellatrix_fork_epoch) = (v[2], at(1));
    (s.capella_fork_version, s.capella_fork_epoch) = (v[3], at(2));
    (s.deneb_fork_version, s.deneb_fork_epoch) = (v[4], at(3));
    (s.electra_fork_version, s.electra_fork_epoch) = (v[5], at(4));
    (s.fulu_fork_version, s.fulu_fork_epoch) = (v[6], at(5));
    (s.gloas_fork_version, s.gloas_fork_epoch) = ([0xff; 4], None);
}
