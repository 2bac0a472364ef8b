"""planted changes to the programs: guests, command line tool, generator, network configurations, beacon states"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import kit, make
Z = "host/src/bin/zkasper_cli.rs"
G = "core/src/guest_gindices.rs"
L = "methods/guest/src/lib.rs"
T = "host/src/beacon_state.rs"
X = "core/src/config.rs"

USE = ("harness/chain-sim", "harness/mon-host/src/web.rs", "harness/mon-host/src/ssz_model.rs", "harness/mon-tool/src/proc.rs", "harness/mon-tool/src/nets.rs", "harness/mon-tool/src/tool.rs")
PRE = r'''// demonstration program: exits 0 when the stated behaviour holds
#![allow(unused)]
#[path = "../../mon-host/src/web.rs"]
mod web;
#[path = "../../mon-tool/src/nets.rs"]
mod nets;
#[path = "../../mon-tool/src/proc.rs"]
mod proc;
#[path = "../../mon-tool/src/tool.rs"]
mod tool;
mod guests {
    use core_model::ffg::St;
    /// the journal as published: nine words
    pub fn words(pre: &St, post: &St, slot: u64) -> Vec<u8> {
        let num = |v: u64| { let mut w = [0u8; 32]; w[24..].copy_from_slice(&v.to_be_bytes()); w };
        [num(pre.j.e), pre.j.r, num(pre.f.e), pre.f.r, num(post.j.e), post.j.r, num(post.f.e), post.f.r, num(slot)].concat()
    }
}
use chain_sim::walk::{deserved, walk, Want};
use chain_sim::{Knobs, Sim, SPE};
use core_model::guest::{finalizing, WOpt, World};
use guests::words;
use nets::Net;
use proc::{frame, guest, Scratch};
use std::collections::BTreeSet;
use std::time::Duration;
use support::Rng;
use tool::{Served, Tool};
use z_core::{Epoch, GuestInput, InputReader, MainnetEthSpec as E};
fn fail(s: &str) -> ! {
    println!("{s}");
    std::process::exit(1)
}
fn encode(w: &World) -> Vec<u8> {
    w.parts(&BTreeSet::new()).with::<E, _>(|i| bincode::serialize(&i).unwrap()).unwrap()
}
/// an input of the network in which this share (per mille) takes part
fn world(rng: &mut Rng, n: &Net, part: u64, gap: u64) -> World {
    let o = WOpt { n: (100, 100), pending: 0, exited: 0, skipped: false, max_gap: gap, at: Some((n.spec.clone(), n.fulu + 100)), equal: true };
    finalizing::<E>(rng, &o, &n.cfg, part).0
}
/// a chain of the network, calm but for what is asked
fn chain(rng: &mut Rng, n: &Net, f: impl Fn(&mut Knobs)) -> Sim {
    let mut k = Knobs { n: 40, epochs: 8, ..Knobs::calm(rng) };
    k.spec = n.spec.clone();
    k.base = n.fulu + 100;
    f(&mut k);
    Sim::new(rng, k)
}
fn build(node: &Served, n: &Net, dir: &std::path::Path, e: u64) -> Option<bool> {
    Tool::start(node, n.name, dir, &["build-input", "--finalized-epoch", &e.to_string(), "--retry-interval", "1"]).end(Duration::from_secs(60))
}
fn read(dir: &std::path::Path, n: &Net, e: u64) -> (Vec<u8>, Vec<u8>) {
    let d = dir.join(n.name);
    (std::fs::read(d.join("inputs").join(format!("{e}_stdin.bin"))).unwrap_or_default(), std::fs::read(d.join("journals").join(format!("{e}_journal.bin"))).unwrap_or_default())
}
/// the epochs a step can start from, with the step's journal and the epoch finalized by it
fn steps(sim: &Sim, n: &Net) -> Vec<(u64, Vec<u8>, u64)> {
    let head = sim.head();
    (sim.k.base..sim.snap(head).unwrap().fin.e)
        .filter_map(|e| {
            let cp = sim.checkpoint(e);
            let Want::Go { start, links, end } = walk(sim, &cp, head) else { return None };
            deserved(sim, &n.cfg, &cp, &links).then(|| (e, words(&start, &end, sim.by_root[&end.f.r]), end.f.e))
        })
        .collect()
}
'''
D = lambda main: kit(PRE + main, "mon-tool", USE)

make("gindex-index-width", "C17", "a validator index of 2^32 or more, which the registry can hold",
     "the position of the exit epoch is computed from the lower 32 bits of the validator's index",
     [(G, "pub(crate) const fn exit_epoch_gindex(i: crate::ValidatorIndex) -> u64 {\n    const CHUNK_OFFSET: u64 = 14u64 / 8u64;\n    const WITHIN_CHUNK: u64 = 14u64 % 8u64;\n    (2199023255552u64 + (i as u64))",
       "pub(crate) const fn exit_epoch_gindex(i: crate::ValidatorIndex) -> u64 {\n    const CHUNK_OFFSET: u64 = 14u64 / 8u64;\n    const WITHIN_CHUNK: u64 = 14u64 % 8u64;\n    (2199023255552u64 + (i as u32 as u64))")],
     D(r'''#[allow(dead_code)]
mod g {
    pub type ValidatorIndex = usize;
    include!("/repo/core/src/guest_gindices.rs");
}
use g::ValidatorIndex;
fn main() {
    for i in [0usize, 1, 1000, (1 << 32) - 1, 1 << 32, (1 << 40) - 1] {
        let want = (((1u64 << 41) + i as u64) << 3) + 6;
        if g::exit_epoch_gindex(i) != want { fail(&format!("index {i}")) }
    }
}
'''))

make("guest-quiet-refusal", "G01", "an authentic input in which the votes do not suffice",
     "a guest whose verification fails ends normally without a journal instead of aborting",
     [(L, "    let (post_state, finalized_slot) = verify(config, &state_reader).unwrap();\n", "    let (post_state, finalized_slot) = match verify(config, &state_reader) {\n        Ok(result) => result,\n        Err(err) => {\n            env::log(&format!(\"Verification failed: {err}\"));\n            return;\n        }\n    };\n")],
     D(r'''fn main() {
    let mut rng = Rng::new(7);
    for n in nets::both() {
        let w = world(&mut rng, &n, 1000, 1);
        if guest(n.guest, &frame(&encode(&w))).map(|j| j.len()) != Some(288) { fail("no journal") }
        let w = world(&mut rng, &n, 500, 1);
        if guest(n.guest, &frame(&encode(&w))).is_some() { fail("ends normally") }
    }
}
'''))

make("guest-state-of-spec", "G01", "an input whose consensus state starts further on than the finalized checkpoint the proofs are for: its justified checkpoint is ahead by more than one epoch",
     "the journal's starting state is normalised: its justified checkpoint is given as the finalized one's successor",
     [(L, "    let pre_state = state_reader.consensus_state().unwrap();\n", "    let pre_state = state_reader.consensus_state().unwrap();\n    // the justified checkpoint can only be ahead of the finalized one\n    let pre_state = if pre_state.current_justified_checkpoint().epoch()\n        > pre_state.finalized_checkpoint().epoch() + 1\n    {\n        z_core::ConsensusState::try_new(\n            pre_state.finalized_checkpoint(),\n            pre_state.finalized_checkpoint(),\n        )\n        .unwrap()\n    } else {\n        pre_state\n    };\n")],
     D(r'''fn main() {
    let mut rng = Rng::new(9);
    let mut far = 0;
    for n in nets::both() {
        for _ in 0..30 {
            let w = world(&mut rng, &n, 1000, 3);
            let s = w.scenario::<E>(&n.cfg);
            let Ok((post, slot)) = s.expect() else { continue };
            far += (w.st.j.e > w.st.f.e + 1) as u32;
            if guest(n.guest, &frame(&encode(&w))) != Some(words(&w.st, &post, slot)) { fail("another journal") }
        }
    }
    assert!(far > 0);
}
'''))

make("sepolia-guest-strict", "G02", "a sepolia step with participation between the two networks' thresholds",
     "the sepolia guest uses the default configuration: it refuses what the host accepts",
     [("methods/guest/src/bin/sepolia.rs", "use z_core::{MainnetEthSpec, SEPOLIA_CONFIG};", "use z_core::{DEFAULT_CONFIG, MainnetEthSpec};"),
      ("methods/guest/src/bin/sepolia.rs", "&SEPOLIA_CONFIG", "&DEFAULT_CONFIG")],
     D(r'''fn main() {
    let mut rng = Rng::new(11);
    for (part, m, s) in [(780, false, true), (900, true, true), (650, false, false)] {
        let [a, b] = nets::both();
        for (n, want) in [(a, m), (b, s)] {
            let w = world(&mut rng, &n, part, 1);
            if guest(n.guest, &frame(&encode(&w))).is_some() != want { fail(&format!("{} at {part}", n.name)) }
        }
    }
}
'''))

make("sepolia-lookahead", "G02", "a sepolia step whose target lies five epochs after the finalized checkpoint",
     "sepolia allows one more epoch of lookahead than the agreed four",
     [(X, "pub static SEPOLIA_CONFIG: Config = Config {\n    min_version: ForkName::Electra,\n    max_version: ForkName::Fulu,\n    epoch_lookahead_limit: Epoch::new(4),", "pub static SEPOLIA_CONFIG: Config = Config {\n    min_version: ForkName::Electra,\n    max_version: ForkName::Fulu,\n    epoch_lookahead_limit: Epoch::new(5),")],
     D(r'''fn main() {
    let mut rng = Rng::new(12);
    let mut n = 0;
    for net in nets::both() {
        for _ in 0..40 {
            let w = world(&mut rng, &net, 1000, 6);
            let far = w.atts.iter().map(|a| a.data.target.e).max().unwrap() - w.st.f.e;
            if far != 5 { continue }
            n += 1;
            if guest(net.guest, &frame(&encode(&w))).is_some() { fail(&format!("{}: five epochs ahead", net.name)) }
        }
    }
    assert!(n > 0);
}
'''))

make("sepolia-fork-early", "G02", "a sepolia chain around its Fulu fork",
     "the tool runs sepolia with Fulu scheduled as on mainnet: the fork's epoch is taken from the wrong configuration",
     [("chainspec/src/lib.rs", "    let config_bytes = include_bytes!(\"../configs/sepolia.yaml\");\n    let config: Config =\n        serde_yaml::from_slice(config_bytes).expect(\"Failed to deserialize config\");\n    ChainSpec::from_config::<MainnetEthSpec>(&config).expect(\"Failed to create chainspec\")",
       "    let config_bytes = include_bytes!(\"../configs/sepolia.yaml\");\n    let config: Config =\n        serde_yaml::from_slice(config_bytes).expect(\"Failed to deserialize config\");\n    let mut spec =\n        ChainSpec::from_config::<MainnetEthSpec>(&config).expect(\"Failed to create chainspec\");\n    // forks not scheduled yet are far in the future\n    spec.fulu_fork_epoch = spec\n        .fulu_fork_epoch\n        .filter(|epoch| epoch.as_u64() > 272_640);\n    spec")],
     D(r'''fn main() {
    for n in nets::both() {
        let s = if n.name == "mainnet" { chainspec::mainnet_spec() } else { chainspec::sepolia_spec() };
        if s.fulu_fork_epoch != n.spec.fulu_fork_epoch || s.electra_fork_epoch != n.spec.electra_fork_epoch { fail(n.name) }
    }
}
'''))

make("tool-no-truncate", "G03", "an input file of the epoch that is already there and longer than the new one",
     "files are opened without truncating them, so the rest of an older, longer input stays behind the frame",
     [(Z, "                File::create(inputs_dir.join(format!(\"{finalized_epoch}_stdin.bin\")))\n", "                fs::OpenOptions::new()\n                    .write(true)\n                    .create(true)\n                    .open(inputs_dir.join(format!(\"{finalized_epoch}_stdin.bin\")))\n")],
     D(r'''fn main() {
    let mut rng = Rng::new(21);
    let [_, n] = nets::both();
    let sim = chain(&mut rng, &n, |_| {});
    let (e, j, _) = steps(&sim, &n)[0].clone();
    let node = Served::new(sim);
    let dir = Scratch::new();
    let d = dir.path().join(n.name).join("inputs");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join(format!("{e}_stdin.bin")), vec![7; 5_000_000]).unwrap();
    assert_eq!(build(&node, &n, dir.path(), e), Some(true));
    let (i, got) = read(dir.path(), &n, e);
    let one = u32::from_le_bytes(i[..4].try_into().unwrap()) as usize + 4 == i.len();
    drop(dir);
    if !one || got != j { fail("not one frame") }
}
'''))

make("tool-slot-of-epoch", "G03", "a finalized checkpoint whose epoch starts with an empty slot",
     "the journal's finalized slot is the start of the epoch instead of the slot of the finalized block",
     [(Z, "            let journal = abi::Journal::new(&pre_state, &post_state, finalized_slot);\n", "            let finalized_slot = finalized_slot.max(\n                post_state\n                    .finalized_checkpoint()\n                    .epoch()\n                    .start_slot(Spec::slots_per_epoch())\n                    .as_u64(),\n            );\n            let journal = abi::Journal::new(&pre_state, &post_state, finalized_slot);\n")],
     D(r'''fn main() {
    let mut rng = Rng::new(22);
    let mut n_ = 0;
    for n in nets::both() {
        let sim = chain(&mut rng, &n, |k| k.miss_start = 60);
        let all = steps(&sim, &n);
        let node = Served::new(sim);
        let dir = Scratch::new();
        for (e, j, next) in all {
            n_ += !node.sim.lock().unwrap().blocks.contains_key(&(next * SPE)) as u32;
            assert_eq!(build(&node, &n, dir.path(), e), Some(true));
            if read(dir.path(), &n, e).1 != j { drop(dir); fail("another journal") }
        }
    }
    assert!(n_ > 0);
}
'''))

make("tool-waits-at-tip", "G03", "starting from an epoch the chain has not finalized yet",
     "the tool waits only when the requested epoch is exactly the one finalized last; further ahead it fails",
     [(Z, "            if chain_finalized_epoch < finalized_epoch.as_u64() + 1 {", "            if chain_finalized_epoch == finalized_epoch.as_u64() {")],
     D(r'''fn main() {
    let mut rng = Rng::new(23);
    let [_, n] = nets::both();
    let sim = chain(&mut rng, &n, |_| {});
    let (e, j, _) = steps(&sim, &n).last().unwrap().clone();
    let head = sim.head();
    let node = Served::new(sim);
    // the chain is an epoch short of the request
    *node.head.lock().unwrap() = e * SPE + 5;
    let dir = Scratch::new();
    let mut t = Tool::start(&node, n.name, dir.path(), &["build-input", "--finalized-epoch", &e.to_string(), "--retry-interval", "1"]);
    if t.end(Duration::from_secs(3)).is_some() { drop(dir); fail("does not wait") }
    *node.head.lock().unwrap() = head;
    let end = t.end(Duration::from_secs(60));
    let got = read(dir.path(), &n, e).1;
    drop(dir);
    if end != Some(true) || got != j { fail("does not go on") }
}
'''))

make("tool-continues-justified", "G03", "a continuous run over a chain that justifies without finalizing in between",
     "the next continuous run starts one epoch after the previous start instead of from what was finalized",
     [(Z, "            finalized_epoch = post_state.finalized_checkpoint().epoch();\n", "            finalized_epoch = finalized_epoch + 1;\n")],
     D(r'''fn main() {
    let mut rng = Rng::new(24);
    let [_, n] = nets::both();
    let sim = chain(&mut rng, &n, |k| { k.epochs = 9; k.part = vec![1000, 1000, 1000, 1000, 100, 1000, 1000, 1000, 1000]; });
    let all = steps(&sim, &n);
    let mut want = vec![all[0].clone()];
    while let Some(x) = all.iter().find(|x| x.0 == want.last().unwrap().2) { want.push(x.clone()); }
    assert!(want.iter().any(|x| x.2 > x.0 + 1), "{:?}", want.iter().map(|x| (x.0, x.2)).collect::<Vec<_>>());
    let node = Served::new(sim);
    let dir = Scratch::new();
    let mut t = Tool::start(&node, n.name, dir.path(), &["build-input", "--finalized-epoch", &want[0].0.to_string(), "--continuous", "--retry-interval", "1"]);
    for _ in 0..600 {
        if want.iter().all(|x| read(dir.path(), &n, x.0).1 == x.1) || !t.running() { break }
        std::thread::sleep(Duration::from_millis(50));
    }
    std::thread::sleep(Duration::from_secs(2));
    let runs = t.running();
    let good = want.iter().all(|x| read(dir.path(), &n, x.0).1 == x.1);
    let more = std::fs::read_dir(dir.path().join(n.name).join("journals")).map(|d| d.count()).unwrap_or(0) != want.len();
    drop(t);
    drop(dir);
    if !good || more || !runs { fail("the journals do not chain") }
}
'''))

make("fulu-field-order", "H10", "a Fulu state",
     "two neighbouring fields of the same type are swapped in Fulu's layout: it decodes, but with another content and root",
     [(T, "        pub consolidation_balance_to_consume: Gwei,\n        #[serde(with = \"as_str\")]\n        pub earliest_consolidation_epoch: Epoch,\n        pub pending_deposits: List<DepositReceipt, PENDING_DEPOSITS_LIMIT>,\n        pub pending_partial_withdrawals:\n            List<PendingPartialWithdrawal, PENDING_PARTIAL_WITHDRAWALS_LIMIT>,\n        pub pending_consolidations: List<PendingConsolidation, PENDING_CONSOLIDATIONS_LIMIT>,\n        #[serde(with = \"seq_of_str\")]\n        pub proposer_lookahead",
          "        pub earliest_consolidation_epoch: Epoch,\n        #[serde(with = \"as_str\")]\n        pub consolidation_balance_to_consume: Gwei,\n        pub pending_deposits: List<DepositReceipt, PENDING_DEPOSITS_LIMIT>,\n        pub pending_partial_withdrawals:\n            List<PendingPartialWithdrawal, PENDING_PARTIAL_WITHDRAWALS_LIMIT>,\n        pub pending_consolidations: List<PendingConsolidation, PENDING_CONSOLIDATIONS_LIMIT>,\n        #[serde(with = \"seq_of_str\")]\n        pub proposer_lookahead")],
     D(r'''fn main() {
    use ssz_rs::prelude::*;
    use ssz_rs::{GeneralizedIndexable, Path};
    let mut f = host::mainnet::FuluBeaconState::default();
    f.earliest_consolidation_epoch = 77;
    let root = f.hash_tree_root().unwrap();
    let p = ssz_multiproofs::MultiproofBuilder::new().with_gindex(97).build(&f).unwrap();
    assert!(p.verify(&root).is_ok());
    if p.values().next().unwrap().1[0] != 77 { fail("another layout") }
}
'''))

make("json-electra-first", "H10", "a Fulu state decoded from JSON",
     "JSON states are tried as Electra before Fulu, which ignores the additional field: a Fulu state comes back as an Electra one",
     [(T, "            return Ok(Self::Fulu(inner));\n        }\n        if let Ok(inner) = <_ as serde::Deserialize>::deserialize(&value) {\n            return Ok(Self::Electra(inner));", "            return Ok(Self::Electra(inner));\n        }\n        if let Ok(inner) = <_ as serde::Deserialize>::deserialize(&value) {\n            return Ok(Self::Fulu(inner));")],
     D(r'''fn main() {
    use host::mainnet::{BeaconState, FuluBeaconState};
    let s = BeaconState::Fulu(FuluBeaconState::default());
    let t: BeaconState = serde_json::from_str(&serde_json::to_string(&s).unwrap()).unwrap();
    if t != s { fail("another state") }
}
'''))

make("accessor-justified", "H10", "a Fulu state whose previous and current justified checkpoints differ",
     "an accessor returns the current justified checkpoint for the previous one, for Fulu only",
     [(T, "            Self::Fulu(inner) => &inner.previous_justified_checkpoint,", "            Self::Fulu(inner) => &inner.current_justified_checkpoint,")],
     D(r'''fn main() {
    use host::mainnet::{BeaconState, FuluBeaconState};
    let mut s = FuluBeaconState::default();
    s.previous_justified_checkpoint.epoch = 5;
    s.current_justified_checkpoint.epoch = 6;
    let s = BeaconState::Fulu(s);
    if s.previous_justified_checkpoint().epoch != 5 || s.current_justified_checkpoint().epoch != 6 { fail("another checkpoint") }
}
'''))

V = r'''/// runs the tool; None: it did not end
fn tool(node: &Served, n: &Net, dir: &std::path::Path, args: &[&str], guest: &str) -> Option<bool> {
    let env: Vec<(&str, &str)> = if guest.is_empty() { vec![] } else { vec![("STANDIN_GUEST", guest)] };
    Tool::start_with(node, n.name, dir, args, &env).end(Duration::from_secs(90))
}
'''
make("verify-finalized-only", "G04", "a guest that publishes the right finalized checkpoints, but another justified one",
     "the guest's journal is compared with the host's result by finalized checkpoint only",
     [(Z, "        ensure!(guest_post_state == post_state);\n        ensure!(guest_pre_state == pre_state);\n", "        for (guest_state, state) in [\n            (&guest_pre_state, &pre_state),\n            (&guest_post_state, &post_state),\n        ] {\n            ensure!(guest_state.finalized_checkpoint() == state.finalized_checkpoint());\n        }\n")],
     D(V + r'''fn main() {
    let mut rng = Rng::new(31);
    let [_, n] = nets::both();
    let sim = chain(&mut rng, &n, |_| {});
    let e = steps(&sim, &n)[0].0.to_string();
    let node = Served::new(sim);
    let dir = Scratch::new();
    let args = ["verify", "--mode", "r0vm", "--trusted-epoch", &e];
    let right = tool(&node, &n, dir.path(), &args, "");
    // roots of the justified checkpoints, and of the finalized ones
    let wrong: Vec<_> = [32, 96, 160, 224].iter().map(|b| tool(&node, &n, dir.path(), &args, &format!("0,flip,{}", b * 8))).collect();
    drop(dir);
    if right != Some(true) || wrong.contains(&Some(true)) { fail(&format!("{right:?} {wrong:?}")) }
}
'''))

make("verify-guest-warns", "G04", "a guest whose run fails",
     "when the guest cannot be executed, the host's own verification is taken instead, with a warning",
     [(Z, "        let journal =\n            execute_guest_program(network, input_bytes).context(\"guest verification failed\")?;\n", "        let journal = execute_guest_program(network, input_bytes).unwrap_or_else(|err| {\n            tracing::warn!(\"Guest verification failed: {err:#}\");\n            abi::Journal::new(&pre_state, &post_state, _finalized_slot).encode()\n        });\n")],
     D(V + r'''fn main() {
    let mut rng = Rng::new(32);
    let [n, _] = nets::both();
    let sim = chain(&mut rng, &n, |_| {});
    let e = steps(&sim, &n)[0].0.to_string();
    let node = Served::new(sim);
    let dir = Scratch::new();
    let args = ["verify", "--mode", "r0vm", "--trusted-epoch", &e];
    let right = tool(&node, &n, dir.path(), &args, "");
    let wrong = tool(&node, &n, dir.path(), &args, "0,panic,0");
    drop(dir);
    if right != Some(true) || wrong == Some(true) { fail(&format!("{right:?} {wrong:?}")) }
}
'''))

make("sync-remembers-guest", "G04", "following the chain with a guest that goes wrong after the first step",
     "only the first step of a run over the chain is executed in the guest; later ones rely on the host",
     [(Z, "    let mut consensus_state = beacon_client.get_consensus_state(start_slot).await?;\n", "    let mut mode = mode;\n    let mut consensus_state = beacon_client.get_consensus_state(start_slot).await?;\n"),
      (Z, "        let msg = match run_verify::<E>(\n            spec.clone(),\n            pre_state,\n            input_bytes,\n            network,\n            mode,\n            config_for(network),\n        ) {\n            Ok(state) => {\n", "        let msg = match run_verify::<E>(\n            spec.clone(),\n            pre_state,\n            input_bytes,\n            network,\n            mode,\n            config_for(network),\n        ) {\n            Ok(state) => {\n                // the guest program has been seen to work\n                if mode == ExecMode::R0vm {\n                    mode = ExecMode::Native;\n                }\n")],
     D(V + r'''fn main() {
    let mut rng = Rng::new(33);
    let [_, n] = nets::both();
    let sim = chain(&mut rng, &n, |_| {});
    let all = steps(&sim, &n);
    let slot = (sim.k.base * SPE..).find(|s| sim.snap(*s).is_some_and(|x| x.fin.e == all[0].0)).unwrap();
    let node = Served::new(sim);
    let dir = Scratch::new();
    let log = dir.path().join("sync.log");
    let slot = slot.to_string();
    let args = ["sync", "--mode", "r0vm", "--start-slot", &slot, "--log-path", log.to_str().unwrap()];
    let read = || std::fs::read_to_string(&log).unwrap_or_default().lines().map(|l| l.ends_with("Ok")).collect::<Vec<_>>();
    tool(&node, &n, dir.path(), &args, "");
    let good = read();
    tool(&node, &n, dir.path(), &args, "1,stay,0");
    let bad = read();
    drop(dir);
    assert!(all.len() > 2);
    if good.len() < 2 || good.contains(&false) || bad.is_empty() || !bad[0] || bad[1..].contains(&true) { fail(&format!("{good:?} {bad:?}")) }
}
'''))

make("sync-follows-guest", "G04", "following the chain from a slot whose epoch's finalized checkpoint is not the state's own",
     "the run over the chain starts from the start slot's justified checkpoint",
     [(Z, "            consensus_state.finalized_checkpoint().epoch(),\n            state_provider.clone(),\n            beacon_client,\n            config_for(network),\n        )\n        .await?;\n\n        let msg", "            first\n                .take()\n                .unwrap_or(consensus_state.finalized_checkpoint().epoch()),\n            state_provider.clone(),\n            beacon_client,\n            config_for(network),\n        )\n        .await?;\n\n        let msg"),
      (Z, "    info!(\"Initial Consensus State: {:#?}\", consensus_state);\n", "    info!(\"Initial Consensus State: {:#?}\", consensus_state);\n    let mut first = Some(\n        consensus_state\n            .current_justified_checkpoint()\n            .epoch()\n            .saturating_sub(1),\n    );\n")],
     D(V + r'''fn main() {
    let mut rng = Rng::new(34);
    let [_, n] = nets::both();
    let sim = chain(&mut rng, &n, |k| { k.epochs = 9; k.part = vec![1000, 1000, 1000, 1000, 100, 1000, 1000, 1000, 1000]; });
    let all = steps(&sim, &n);
    // justified further ahead of the finalized
    let slot = (sim.k.base * SPE..=sim.head()).find(|s| sim.snap(*s).is_some_and(|x| x.cj.e > x.fin.e + 1 && all.iter().any(|a| a.0 == x.fin.e))).unwrap();
    let x = sim.snap(slot).unwrap().clone();
    let first = all.iter().find(|a| a.0 == x.fin.e).unwrap().1.clone();
    let node = Served::new(sim);
    let dir = Scratch::new();
    let log = dir.path().join("sync.log");
    let slot = slot.to_string();
    tool(&node, &n, dir.path(), &["sync", "--mode", "native", "--start-slot", &slot, "--log-path", log.to_str().unwrap()], "");
    let text = std::fs::read_to_string(&log).unwrap_or_default();
    drop(dir);
    let root: String = first[224..256].iter().map(|b| format!("{b:02x}")).collect();
    let line = text.lines().next().unwrap_or("").to_string();
    if !line.ends_with("Ok") || !line.contains(&root) { fail(&line) }
}
'''))

# ---------------------------------------------------------------------------------------------- G05
make("tool-shared-states", "G05", "runs for both networks with one data directory, on chains that are at the same slots",
     "the states of all networks are stored in one place",
     [(Z, "    let state_dir = args.data_dir.join(args.network.to_string()).join(\"states\");", "    let state_dir = args.data_dir.join(\"states\");")],
     D(r"""fn main() {
    let mut rng = Rng::new(41);
    let both = nets::both();
    let dir = Scratch::new();
    for n in &both {
        let sim = chain(&mut rng, n, |k| k.base = both[0].fulu + 100);
        let (e, j, _) = steps(&sim, n)[0].clone();
        let node = Served::new(sim);
        let end = build(&node, n, dir.path(), e);
        if end != Some(true) || read(dir.path(), n, e).1 != j { drop(dir); fail("disturbed by the other network's run") }
    }
}
"""))
make("tool-limit-per-client", "G05", "a request limit that the fetching of states and that of everything else use up together",
     "the provider of states has a client of its own, so the limit counts twice",
     [(Z, "    let provider = PersistentApiStateProvider::<Spec>::new(&state_dir, beacon_client.clone())?;", "    let provider = PersistentApiStateProvider::<Spec>::new(&state_dir, state_client)?;"),
      (Z, "    let beacon_client = BeaconClient::builder(args.beacon_api)\n", "    let state_client = BeaconClient::builder(args.beacon_api.clone())\n        .with_rate_limit(args.rps)\n        .build();\n    let beacon_client = BeaconClient::builder(args.beacon_api)\n")],
     D(r"""fn main() {
    let mut rng = Rng::new(42);
    let [_, n] = nets::both();
    let sim = chain(&mut rng, &n, |_| {});
    let (e, _, _) = steps(&sim, &n)[0].clone();
    let node = Served::new(sim);
    let dir = Scratch::new();
    let t0 = std::time::Instant::now();
    let times = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
    // one a second: the first two requests are a second apart
    let mut t = Tool::start(&node, n.name, dir.path(), &["--rps", "1", "build-input", "--finalized-epoch", &e.to_string()]);
    let mut n = 0;
    while t0.elapsed().as_secs_f64() < 4.0 {
        let k = node.web.asked.lock().unwrap().len();
        let at = t0.elapsed().as_secs_f64();
        if k > n { n = k; times.lock().unwrap().push((k, at)); }
        std::thread::sleep(Duration::from_millis(2));
    }
    drop(t);
    drop(dir);
    let over = times.lock().unwrap().iter().find(|(k, at)| *k as f64 > 1.0 + at).cloned();
    if let Some(x) = over { fail(&format!("{x:?}")) }
}
"""))
make("tool-journal-unflushed", "G05", "a disk without room for the journal",
     "the journal is written through a buffer whose last write's failure goes unnoticed",
     [(Z, "            let mut journal_file =\n                File::create(journals_dir.join(format!(\"{finalized_epoch}_journal.bin\")))\n                    .context(\"failed to create journal file\")?;\n", "            let mut journal_file = io::BufWriter::new(\n                File::create(journals_dir.join(format!(\"{finalized_epoch}_journal.bin\")))\n                    .context(\"failed to create journal file\")?,\n            );\n"),
      (Z, "    io::Write,\n", "    io::{self, Write},\n")],
     D(r"""fn main() {
    let mut rng = Rng::new(43);
    let [_, n] = nets::both();
    let sim = chain(&mut rng, &n, |_| {});
    let (e, _, _) = steps(&sim, &n)[0].clone();
    let node = Served::new(sim);
    let dir = Scratch::new();
    let d = dir.path().join(n.name).join("journals");
    std::fs::create_dir_all(&d).unwrap();
    let f = d.join(format!("{e}_journal.bin"));
    std::os::unix::fs::symlink("/dev/full", &f).unwrap();
    let end = build(&node, &n, dir.path(), e);
    let link = std::fs::symlink_metadata(&f).is_ok_and(|x| x.file_type().is_symlink());
    drop(dir);
    if link && end == Some(true) { fail("ends well without a journal") }
}
"""))
