"""planted changes to the host library"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import kit, make
H = "host/src/input_reader/host_input_reader.rs"
P = "host/src/input_reader/preflight_input_reader.rs"
A = "host/src/input_reader/assert_input_reader.rs"
B = "host/src/state_patch_builder.rs"
S = "host/src/state_provider.rs"
F = "host/src/state_provider/file_provider.rs"
R = "host/src/state_provider/persistant_api_provider.rs"
C = "host/src/state_provider/cache_provider.rs"
N = "host/src/beacon_client.rs"
T = "host/src/beacon_state.rs"

PRE = r'''// demonstration program: exits 0 when the stated behaviour holds
#![allow(unused)]
use alloy_primitives::B256;
use chain_sim::serve::{Ask, Node};
use chain_sim::walk::{deserved, walk, Want};
use chain_sim::{Knobs, Sim, SPE};
use core_model::ffg::{Cp, Lk, St};
use core_model::scn::{accepted, run};
use host::mainnet::BeaconState;
use host::*;
use ssz_rs::prelude::HashTreeRoot;
use std::sync::Arc;
use support::{observe, Outcome, Rng};
use z_core::{Checkpoint, Epoch, GuestInput, InputReader, MainnetEthSpec as E, Slot, DEFAULT_CONFIG};
type Host<'a> = HostInputReader<E, Node<'a>, Node<'a>>;
fn open<'a>(sim: &'a Sim, node: &Node<'a>, cp: Cp) -> Option<Host<'a>> {
    match observe(|| futures::executor::block_on(HostInputReader::<E, _, _>::new(sim.k.spec.clone(), node.clone(), node.clone(), cp.real()))) {
        Outcome::Ret(Ok(r)) => Some(r),
        _ => None,
    }
}
fn fail(s: &str) -> ! {
    println!("{s}");
    std::process::exit(1)
}
/// chains from these settings, with each checkpoint that can be followed
fn chains(n: u64, f: impl Fn(&mut Rng) -> Knobs, mut g: impl FnMut(&mut Rng, &Sim, Cp, St, Vec<Lk>, St)) {
    for seed in 0..n {
        let mut rng = Rng::new(0xD300 + seed);
        let k = f(&mut rng);
        let sim = Sim::new(&mut rng, k);
        for cp in sim.finalized() {
            if let Want::Go { start, links, end } = walk(&sim, &cp, sim.head()) {
                g(&mut rng, &sim, cp, start, links, end);
            }
        }
    }
}
fn calm(rng: &mut Rng) -> Knobs {
    Knobs { epochs: 8, n: 40, ..Knobs::calm(rng) }
}
'''
D = lambda main: kit(PRE + main, "mon-host", ("harness/chain-sim",))
W = lambda main: kit(PRE + "#[path = \"../../mon-host/src/web.rs\"]\nmod web;\nuse web::{Reply, Web};\n" + main, "mon-host", ("harness/chain-sim", "harness/mon-host/src/web.rs"))

make("host-skips-old-blocks", "H01", "a block of another version among those that may carry the attestations",
     "blocks of versions without Electra bodies are passed over instead of being reported",
     [(H, "            _ => return Err(HostReaderError::UnsupportedBlockVersion),", "            _ => continue,")],
     D(r'''fn main() {
    chains(3, calm, |rng, sim, cp, _, links, _| {
        let s = *sim.blocks.range(links[0].t.e * SPE + 1..).next().unwrap().0;
        let node = Node::new(sim);
        node.log.old.borrow_mut().insert(s);
        if open(sim, &node, cp).is_some() { fail("accepted") }
        if open(sim, &Node::new(sim), cp).is_none() { fail("refused") }
    });
}
'''))

make("host-ignores-odd-step", "H01", "a chain that takes a step between epochs that is no supported transition (two checkpoints justified at once) before it finalizes",
     "unsupported steps are left out instead of being reported: the links collected do not lead to the next finalization",
     [(H, "        if let Some(link) = prev_state.transition_link(&current_state)? {", "        if let Ok(Some(link)) = prev_state.transition_link(&current_state) {")],
     D(r'''fn main() {
    let mut n = 0;
    for seed in 0..400 {
        let mut rng = Rng::new(seed);
        let k = Knobs::random(&mut rng);
        let k = Knobs { n: 40, ..k };
        let sim = Sim::new(&mut rng, k);
        for cp in sim.finalized() {
            if walk(&sim, &cp, sim.head()) == Want::Step {
                n += 1;
                if open(&sim, &Node::new(&sim), cp).is_some() { fail("an unsupported step is accepted") }
            }
        }
        if n > 8 { break }
    }
    assert!(n > 0);
}
'''))

make("host-until-first-target", "H02", "a start with two links, attestations for the second one in later epochs",
     "blocks are searched only up to the end of the epoch after the first link's target",
     [(H, "    let max_epoch = links.iter().map(|l| l.target.epoch()).max().unwrap();", "    let max_epoch = links.first().unwrap().target.epoch();")],
     D(r'''fn gap(rng: &mut Rng) -> Knobs {
    let mut k = calm(rng);
    k.part = vec![1000, 1000, 1000, 1000, 100, 1000, 1000, 1000];
    k
}
fn main() {
    let mut n = 0;
    chains(3, gap, |rng, sim, cp, _, links, _| {
        let Some(r) = open(sim, &Node::new(sim), cp) else { fail("refused") };
        let want: usize = links.iter().map(|l| sim.included(l).len()).sum();
        n += (links.len() > 1) as u32;
        if r.attestations().unwrap().count() != want { fail("attestations lost") }
    });
    assert!(n > 0);
}
'''))

make("host-by-target", "H02", "included attestations whose target has the epoch of a required link's but another root",
     "attestations are grouped by the epochs of their link, so votes for other links are handed to verification",
     [(H, "            attestations_by_link\n                .entry(link)", "            // a chain has one checkpoint per epoch\n            let key = links.iter().find(|l| l.source == link.source && l.target.epoch() == link.target.epoch()).cloned();\n            attestations_by_link\n                .entry(key.unwrap_or(link))")],
     D(r'''fn wrong(rng: &mut Rng) -> Knobs {
    let mut k = calm(rng);
    k.part = vec![1000, 1000, 1000, 600, 600, 1000, 1000, 1000];
    k.hold.insert(3, 20);
    k.wrong = 6;
    k
}
fn main() {
    chains(8, wrong, |rng, sim, cp, _, links, _| {
        let Some(r) = open(sim, &Node::new(sim), cp) else { fail("refused") };
        for a in r.attestations().unwrap() {
            let l = Lk { s: Cp::of(a.data().source.into()), t: Cp::of(a.data().target.into()) };
            if !links.contains(&l) { fail("an attestation for another link") }
        }
        let want: usize = links.iter().map(|l| sim.included(l).len()).sum();
        if r.attestations().unwrap().count() != want { fail("attestations differ") }
    });
}
'''))

GUEST = r'''
fn exits(rng: &mut Rng) -> Knobs {
    let mut k = calm(rng);
    k.n = 60;
    k.exits = 60;
    k.spec.churn_limit_quotient = 16;
    k.queue = (0, 0);
    k.spec.shard_committee_period = 0;
    k
}
fn same(sim: &Sim, cp: Cp) {
    let node = Node::new(sim);
    let Some(r) = open(sim, &node, cp) else { fail("refused") };
    let pre = PreflightInputReader::new(&r, node.clone(), cp.real());
    let Some(res) = accepted(&run(&DEFAULT_CONFIG, &pre)) else { return };
    let Outcome::Ret(Ok(input)) = observe(|| pre.to_input()) else { fail("no input") };
    let bytes = bincode::serialize(&input).unwrap();
    let g: GuestInput<E> = bincode::deserialize(&bytes).unwrap();
    let Outcome::Ret(Ok(gr)) = observe(|| g.into_reader(sim.k.spec.clone()).map_err(|e| e.to_string())) else { fail("the guest refuses the input") };
    if accepted(&run(&DEFAULT_CONFIG, &gr)) != Some(res) { fail("the guest's result differs") }
}
'''

make("preflight-exit-boundary", "H03", "a validator whose exit epoch is the one right after the trusted checkpoint's",
     "a validator that is active for the last time in the trusted epoch is treated as exited, its fields are not included and the guest refuses the input",
     [(P, "            if trusted_epoch.as_u64() >= validator.exit_epoch {", "            if trusted_epoch.as_u64() + 1 >= validator.exit_epoch {")],
     D(GUEST + r'''fn main() {
    let mut n = 0;
    // validators leave in every epoch: queues filled a few epochs before the chain starts
    chains(12, |rng| Knobs { epochs: 11, ..exits(rng) }, |rng, sim, cp, _, links, _| {
        n += sim.snaps[&sim.by_root[&cp.r]].reg.iter().filter(|v| v.exit == cp.e + 1).count();
        same(sim, cp);
    });
    assert!(n > 0);
}
'''))

make("host-active-slashed", "H03", "a slashed validator that has not left the registry yet at a target",
     "the host leaves slashed validators out of the active set, which the guest does not: committees differ and the guest refuses what the host verified",
     [(H, "    validator.activation_epoch <= epoch && epoch < validator.exit_epoch\n", "    !validator.slashed && validator.activation_epoch <= epoch && epoch < validator.exit_epoch\n")],
     D(GUEST + r'''fn main() {
    let mut n = 0;
    chains(8, |rng| Knobs { slashings: 2, ..calm(rng) }, |rng, sim, cp, _, links, _| {
        let node = Node::new(sim);
        let Some(r) = open(sim, &node, cp) else { fail("refused") };
        for e in cp.e..=links.last().unwrap().t.e {
            let snap = &sim.snaps[&(e * SPE)];
            let got: Vec<usize> = r.active_validators(Epoch::new(e)).unwrap().map(|x| x.0).collect();
            n += got.iter().filter(|i| snap.reg[**i].slashed).count();
            if got != snap.active(e) { fail("active validators differ") }
        }
        if accepted(&run(&DEFAULT_CONFIG, &r)).is_none() && deserved(sim, &DEFAULT_CONFIG, &cp, &links) { fail("not verified") }
    });
    assert!(n > 0);
}
'''))

make("preflight-one-mix", "H04", "two different RANDAO values of the same epoch read through the recorder",
     "only the first RANDAO position read per epoch gets into the input",
     [(P, "            .entry(epoch)\n            .or_default()\n            .insert(idx);", "            .entry(epoch)\n            .or_insert_with(|| BTreeSet::from([idx]));")],
     D(r'''fn main() {
    chains(2, calm, |rng, sim, cp, _, links, _| {
        let node = Node::new(sim);
        let Some(r) = open(sim, &node, cp) else { fail("refused") };
        let pre = PreflightInputReader::new(&r, node.clone(), cp.real());
        let e = Epoch::new(cp.e + 1);
        for i in [9, 5, 9, 70] { pre.randao_mix(e, i).unwrap(); }
        let input = pre.to_input().unwrap();
        if !input.patches[&e].randao_mixes.keys().copied().eq([5, 9, 70]) { fail("values missing") }
    });
}
'''))

make("patch-omits-slashed", "H04", "a validator slashed after the trusted state, whose exit has been initiated with it",
     "exits of slashed validators are not included in the patches",
     [(B, "            if a.exit_epoch != b.exit_epoch {", "            // the balance of slashed validators does not count anyway\n            if a.exit_epoch != b.exit_epoch && !a.slashed {")],
     D(r'''fn main() {
    let mut n = 0;
    chains(10, |rng| Knobs { slashings: 3, exits: 20, ..calm(rng) }, |rng, sim, cp, _, links, _| {
        let node = Node::new(sim);
        let Some(r) = open(sim, &node, cp) else { fail("refused") };
        let pre = PreflightInputReader::new(&r, node.clone(), cp.real());
        let e = links[0].t.e;
        let _ = pre.active_validators(Epoch::new(e)).unwrap().count();
        let old = &sim.snaps[&sim.by_root[&cp.r]].reg;
        let new = &sim.snaps[&(e * SPE)].reg;
        let want: Vec<usize> = (0..old.len()).filter(|i| old[*i].exit != new[*i].exit).collect();
        n += want.iter().filter(|i| new[**i].slashed).count();
        let input = pre.to_input().unwrap();
        if !input.patches[&Epoch::new(e)].validator_exits.keys().copied().eq(want) { fail("exits missing") }
    });
    assert!(n > 0);
}
'''))

make("preflight-failed-read", "H04", "a block whose slot cannot be read, asked for before the input is built",
     "a block is recorded before its slot was read, so a failed read spoils the input",
     [(P, "        let slot = self.inner.slot_for_block(block_root)?;\n        self.beacon_block_reads.borrow_mut().insert(*block_root);\n", "        self.beacon_block_reads.borrow_mut().insert(*block_root);\n        let slot = self.inner.slot_for_block(block_root)?;\n")],
     D(r'''fn main() {
    chains(2, calm, |rng, sim, cp, _, links, _| {
        let node = Node::new(sim);
        let Some(r) = open(sim, &node, cp) else { fail("refused") };
        let pre = PreflightInputReader::new(&r, node.clone(), cp.real());
        assert!(pre.slot_for_block(&B256::from([7; 32])).is_err());
        pre.slot_for_block(&B256::from(cp.r)).unwrap();
        match pre.to_input() {
            Ok(i) if i.block_slot_proofs.len() == 1 => {}
            _ => fail("not exactly the block that was read"),
        }
    });
}
'''))

DIR = r'''
fn dir() -> std::path::PathBuf {
    let p = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).unwrap();
    p
}
fn sample(slot: u64) -> BeaconState {
    let mut x = host::mainnet::ElectraBeaconState::default();
    x.slot = slot;
    x.eth1_deposit_index = 17;
    BeaconState::Electra(x)
}
fn served(s: &BeaconState) -> Arc<Vec<u8>> {
    Arc::new(format!("{{\"version\":\"electra\",\"execution_optimistic\":false,\"finalized\":true,\"data\":{}}}", serde_json::to_string(s).unwrap()).into_bytes())
}
'''

make("persist-boundaries-only", "H05", "a state in the middle of an epoch asked for twice from the persisting provider",
     "states of slots inside an epoch are not stored, so the beacon node is asked again each time",
     [(R, "        self.file_provider.save_state(&state)?;\n", "        if state.slot() % E::slots_per_epoch() == 0 {\n            self.file_provider.save_state(&state)?;\n        }\n")],
     W(DIR + r'''fn main() {
    let d = dir();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
    let web = Web::new();
    let p = PersistentApiStateProvider::<E>::new(&d, BeaconClient::builder(web.url.clone()).build()).unwrap();
    let mut bad = None;
    for slot in [64u64, 65, 95] {
        let b = served(&sample(slot));
        web.script(move |_| Reply::Full(200, b.clone()));
        web.taken();
        for _ in 0..2 {
            let s = rt.block_on(async { p.state_at_slot(slot.into()) }).expect("a state");
            assert_eq!(s.slot(), slot);
        }
        let n = web.taken().len();
        if n != 1 { bad = Some((slot, n)); }
    }
    let _ = std::fs::remove_dir_all(&d);
    if let Some((s, n)) = bad { fail(&format!("slot {s} asked for {n} times")) }
}
'''))

make("cache-keeps-first", "H05", "a caching provider asked for a slot after its state had been missing once",
     "the cache stores which slots are missing, and keeps reporting them as such",
     [(C, "    cache: FrozenMap<Slot, Arc<BeaconState>>,\n}", "    cache: FrozenMap<Slot, Arc<BeaconState>>,\n    missing: std::cell::RefCell<std::collections::BTreeSet<Slot>>,\n}"),
      (C, "            cache: FrozenMap::new(),\n", "            cache: FrozenMap::new(),\n            missing: Default::default(),\n"),
      (C, "                let state = self.inner.state_at_slot(slot)?;\n", "                if self.missing.borrow().contains(&slot) {\n                    return Err(StateProviderError::NotFound(slot));\n                }\n                let state = self.inner.state_at_slot(slot).inspect_err(|err| {\n                    if let StateProviderError::NotFound(slot) = err {\n                        self.missing.borrow_mut().insert(*slot);\n                    }\n                })?;\n")],
     D(DIR + r'''fn main() {
    let d = dir();
    let files = FileProvider::<E>::new(&d).unwrap();
    let cache = CacheStateProvider::new(files.clone());
    let before = cache.state_at_slot(70u64.into()).is_ok();
    files.save_state(&sample(70)).unwrap();
    let after = cache.state_at_slot(70u64.into()).is_ok();
    let _ = std::fs::remove_dir_all(&d);
    assert!(!before);
    if !after { fail("the failure was cached") }
}
'''))

make("clear-one-more", "H05", "clearing before an epoch while the state of that epoch's first slot is stored",
     "clearing also removes the state at the start of the epoch",
     [(F, "                    if file_slot < slot {", "                    if file_slot <= slot {")],
     D(DIR + r'''fn main() {
    let d = dir();
    let files = FileProvider::<E>::new(&d).unwrap();
    for s in [31u64, 32, 63, 64, 65] { files.save_state(&sample(s)).unwrap(); }
    files.clear_states_before(Epoch::new(2)).unwrap();
    let there: Vec<bool> = [31u64, 32, 63, 64, 65].iter().map(|s| files.state_at_slot((*s).into()).is_ok()).collect();
    let _ = std::fs::remove_dir_all(&d);
    if there != [false, false, false, true, true] { fail(&format!("{there:?}")) }
}
'''))

make("recover-partial", "H06", "a save cut off in the middle, then a lookup of that slot",
     "a lookup falls back to what an interrupted save left behind, so a partial file makes the slot unreadable",
     [(F, "        let file = self.directory.join(format!(\"{slot}_beacon_state.ssz\"));\n        if !file.exists() {\n",
          "        let mut file = self.directory.join(format!(\"{slot}_beacon_state.ssz\"));\n        if !file.exists() {\n            // a save may have been interrupted just before the file got its name\n            let prefix = format!(\".{slot}_beacon_state.ssz.\");\n            let entries = fs::read_dir(&self.directory).context(\"failed to read directory\")?;\n            if let Some(entry) = entries\n                .flatten()\n                .find(|entry| entry.file_name().to_string_lossy().starts_with(&prefix))\n            {\n                file = entry.path();\n            }\n        }\n        if !file.exists() {\n")],
     D(DIR + r'''fn main() {
    let d = dir();
    // a process that is stopped while it writes
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe {
            libc::signal(libc::SIGXFSZ, libc::SIG_DFL);
            libc::setrlimit(libc::RLIMIT_FSIZE, &libc::rlimit { rlim_cur: 100_000, rlim_max: 100_000 });
        }
        let _ = FileProvider::<E>::new(&d).unwrap().save_state(&sample(64));
        unsafe { libc::_exit(0) }
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    let files = FileProvider::<E>::new(&d).unwrap();
    let first = matches!(files.state_at_slot(64u64.into()), Err(StateProviderError::NotFound(_)));
    let saved = files.save_state(&sample(64)).is_ok();
    let then = files.state_at_slot(64u64.into()).is_ok();
    let _ = std::fs::remove_dir_all(&d);
    if !(first && saved && then) { fail("the slot is broken") }
}
'''))

make("boundary-one-back", "H07", "a checkpoint whose epoch starts with two or more empty slots",
     "the boundary block is looked for only in the slot before the epoch's start",
     [(S, "        self.state_at_slot(epoch_boundary_slot.into())\n", "        self.state_at_slot((state.slot() - 1).into())\n")],
     D(r'''fn main() {
    let mut n = 0;
    for seed in 0..12 {
        let mut rng = Rng::new(seed);
        let k = Knobs { miss_run: 40, miss_start: 60, ..calm(&mut rng) };
        let sim = Sim::new(&mut rng, k);
        let node = Node::new(&sim);
        for e in sim.k.base + 1..sim.k.base + sim.k.epochs {
            let cp = sim.checkpoint(e);
            let slot = sim.by_root[&cp.r];
            n += (slot + 1 < e * SPE) as u32;
            match node.state_at_checkpoint(cp.real()) {
                Ok(s) if s.slot() == slot => {}
                Err(_) if !sim.snaps_has(slot) => {}
                _ => fail(&format!("epoch {e}, boundary slot {slot}")),
            }
        }
    }
    assert!(n > 0);
}
'''))

make("checkpoint-keeps-root", "H07", "a provider that returns for the boundary slot a later state with the same latest block (its header already has a state root)",
     "the recorded state root is kept when there is one, so a state that is not the block's passes as the checkpoint's",
     [(S, "        epoch_boundary_block.state_root = state.hash_tree_root().unwrap();\n", "        if epoch_boundary_block.state_root.is_zero() {\n            epoch_boundary_block.state_root = state.hash_tree_root().unwrap();\n        }\n")],
     D(r'''struct Off<'a>(Node<'a>, u64, u64);
impl StateProvider for Off<'_> {
    type Spec = E;
    fn state_at_slot(&self, slot: Slot) -> std::result::Result<Arc<BeaconState>, StateProviderError> {
        if slot.as_u64() == self.1 {
            // a state after the boundary block that claims to be of its slot
            let mut s = (*self.0.state_at_slot(self.2.into())?).clone();
            match &mut s {
                BeaconState::Electra(x) => x.slot = self.1,
                BeaconState::Fulu(x) => x.slot = self.1,
                _ => {}
            }
            return Ok(Arc::new(s));
        }
        self.0.state_at_slot(slot)
    }
}
fn main() {
    let mut n = 0;
    for seed in 0..6 {
        let mut rng = Rng::new(seed);
        let k = Knobs { miss_run: 30, miss_start: 60, ..calm(&mut rng) };
        let sim = Sim::new(&mut rng, k);
        for e in sim.k.base + 1..sim.k.base + sim.k.epochs {
            let cp = sim.checkpoint(e);
            let slot = sim.by_root[&cp.r];
            if slot == e * SPE || !sim.snaps_has(slot) || !sim.snaps_has(slot + 1) { continue }
            n += 1;
            let off = Off(Node::new(&sim), slot, slot + 1);
            if off.state_at_checkpoint(cp.real()).is_ok() { fail("another state is accepted") }
            if Node::new(&sim).state_at_checkpoint(cp.real()).is_err() { fail("the state is refused") }
        }
    }
    assert!(n > 0);
}
'''))

make("client-gone-block", "H08", "a block query answered with a client error other than 404, such as 429",
     "any client error on a block query is taken for a missing block",
     [(N, "            Ok(resp) => Ok(Some(resp.data.message)),\n            Err(Error::Http(err)) => match err.status() {\n                Some(StatusCode::NOT_FOUND) => Ok(None),", "            Ok(resp) => Ok(Some(resp.data.message)),\n            Err(Error::Http(err)) => match err.status() {\n                Some(status) if status.is_client_error() => Ok(None),")],
     W(r'''fn main() {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
    let web = Web::new();
    let c = BeaconClient::builder(web.url.clone()).build();
    for st in [400u16, 404, 410, 429, 500, 503] {
        web.script(move |_| Reply::Full(st, Arc::new(b"{}".to_vec())));
        let b = rt.block_on(c.get_block(7));
        let h = rt.block_on(c.get_block_header(7));
        let good = |absent: bool, err: bool| if st == 404 { absent } else { err };
        if !good(matches!(b, Ok(None)), b.is_err()) || !good(matches!(h, Ok(None)), h.is_err()) { fail(&format!("status {st}")) }
    }
}
'''))

make("client-newer-version", "H08", "a state declared to be of a newer version than the one its data has",
     "the version check compares one way only",
     [(N, "        if result.version.to_string() != result.inner.data.version().to_string() {", "        if result.version.to_string() < result.inner.data.version().to_string() {")],
     W(DIR + r'''fn main() {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
    let web = Web::new();
    let c = BeaconClient::builder(web.url.clone()).build();
    let good = String::from_utf8(served(&sample(64)).to_vec()).unwrap();
    for v in ["deneb", "electra", "fulu"] {
        let b = Arc::new(good.replacen("\"electra\"", &format!("\"{v}\""), 1).into_bytes());
        web.script(move |_| Reply::Full(200, b.clone()));
        let s = rt.block_on(c.get_beacon_state(64));
        if s.is_ok() != (v == "electra") { fail(&format!("declared {v}: {}", s.is_ok())) }
    }
}
'''))

make("assert-longer-second", "H09", "a second reader that has all active validators of the first one and more after them",
     "the comparison ends with the first reader, further active validators of the second one go unnoticed",
     [(A, "            match (iter_a.next(), iter_b.next()) {\n                (None, None) => None,\n                (Some(a), Some(b)) => {\n                    assert_eq!(a.0, b.0);", "            match (iter_a.next(), iter_b.next()) {\n                (None, _) => None,\n                (Some(a), Some(b)) => {\n                    assert_eq!(a.0, b.0);")],
     D(r'''fn main() {
    chains(1, calm, |rng, sim, cp, _, links, _| {
        let node = Node::new(sim);
        let Some(r) = open(sim, &node, cp) else { fail("refused") };
        // the same chain, with another validator that has just become active
        let e = Epoch::new(links[0].t.e);
        let mut more = (*node.state_at_slot(Slot::from(e.as_u64() * SPE)).unwrap()).clone();
        if let BeaconState::Electra(x) = &mut more {
            let mut v = x.validators[0].clone();
            v.activation_epoch = e.as_u64();
            x.validators.push(v);
        }
        struct One<'a>(Node<'a>, Arc<BeaconState>);
        impl StateProvider for One<'_> {
            type Spec = E;
            fn state_at_slot(&self, slot: Slot) -> std::result::Result<Arc<BeaconState>, StateProviderError> {
                if slot.as_u64() == self.1.slot() { Ok(self.1.clone()) } else { self.0.state_at_slot(slot) }
            }
        }
        let o: HostInputReader<E, One, Node> = futures::executor::block_on(HostInputReader::new(sim.k.spec.clone(), One(node.clone(), Arc::new(more)), node.clone(), cp.real())).unwrap();
        let n = |a: &dyn Fn() -> usize| observe(|| a());
        let good = AssertInputReader::new(&r, &r);
        assert!(!n(&|| good.active_validators(e).unwrap().count()).is_panic());
        let ab = AssertInputReader::new(&r, &o);
        let ba = AssertInputReader::new(&o, &r);
        if !n(&|| ab.active_validators(e).unwrap().count()).is_panic() || !n(&|| ba.active_validators(e).unwrap().count()).is_panic() { fail("not noticed") }
    });
}
'''))

make("assert-current-fork", "H09", "two readers whose forks have the same current version but another previous version or epoch",
     "only the current version of the forks is compared",
     [(A, "        let b = self.reader_b.fork(epoch).unwrap();\n        assert_eq!(a, b);", "        let b = self.reader_b.fork(epoch).unwrap();\n        assert_eq!(a.current_version, b.current_version);")],
     D(r'''struct F<'a, R>(&'a R, u8);
impl<R: InputReader> InputReader for F<'_, R> {
    type Error = R::Error;
    type Spec = R::Spec;
    fn chain_spec(&self) -> &z_core::ChainSpec { self.0.chain_spec() }
    fn genesis_validators_root(&self) -> std::result::Result<z_core::Root, R::Error> { self.0.genesis_validators_root() }
    fn fork(&self, e: Epoch) -> std::result::Result<beacon_types::Fork, R::Error> {
        let mut f = self.0.fork(e)?;
        match self.1 { 1 => f.previous_version[0] ^= 1, 2 => f.current_version[0] ^= 1, 3 => f.epoch = Epoch::new(f.epoch.as_u64() + 1), _ => {} }
        Ok(f)
    }
    fn active_validators(&self, e: Epoch) -> std::result::Result<impl Iterator<Item = (usize, &z_core::ValidatorInfo)>, R::Error> { self.0.active_validators(e) }
    fn randao_mix(&self, e: Epoch, i: u32) -> std::result::Result<Option<B256>, R::Error> { self.0.randao_mix(e, i) }
    fn attestations(&self) -> std::result::Result<impl Iterator<Item = &z_core::Attestation<R::Spec>>, R::Error> { self.0.attestations() }
    fn consensus_state(&self) -> std::result::Result<z_core::ConsensusState, R::Error> { self.0.consensus_state() }
    fn slot_for_block(&self, b: &z_core::Root) -> std::result::Result<u64, R::Error> { self.0.slot_for_block(b) }
}
fn main() {
    chains(1, calm, |rng, sim, cp, _, links, _| {
        let Some(r) = open(sim, &Node::new(sim), cp) else { fail("refused") };
        for k in 0..4 {
            let o = F(&r, k);
            let a = AssertInputReader::new(&r, &o);
            if observe(|| a.fork(Epoch::new(links[0].t.e)).is_ok()).is_panic() != (k > 0) { fail(&format!("variant {k}")) }
        }
    });
}
'''))

# --- H11: rate limit and cache

LIM = r'''
fn count(web: &Web) -> usize { web.taken().len() }
fn header(n: u64) -> Arc<Vec<u8>> {
    let r = format!("\"0x{}\"", "07".repeat(32));
    Arc::new(format!("{{\"data\": {{\"root\": {r}, \"canonical\": true, \"header\": {{\"message\": {{\"slot\": \"{n}\", \"proposer_index\": \"3\", \"parent_root\": {r}, \"state_root\": {r}, \"body_root\": {r}}}, \"signature\": \"0x{}\"}}}}}}", "01".repeat(96)).into_bytes())
}
'''

make("limit-check-once", "H11", "more calls under way at once than the limit lets through",
     "a call that must wait does so once for the rest of the interval and then goes ahead without asking the limiter again, so calls that waited together go out together",
     [(N, "            self.limiter.until_ready().await;", "            if self.limiter.check().is_err() {\n                // the quota is replenished every second\n                tokio::time::sleep(std::time::Duration::from_secs(1)).await;\n            }")],
     W(DIR + LIM + r'''fn main() {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let web = Web::new();
    web.script(|_| Reply::Full(200, header(3)));
    let c = BeaconClient::builder(web.url.clone()).with_rate_limit(10).build();
    let t = std::time::Instant::now();
    rt.block_on(futures::future::join_all((0..40).map(|i| { let c = c.clone(); async move { c.get_block_header(i).await.unwrap(); } })));
    // ten at once, then ten per second
    let s = t.elapsed().as_secs_f64();
    let n = count(&web);
    if n != 40 || s < 2.9 { fail(&format!("{n} requests in {s} seconds")) }
}
'''))

make("limit-retry", "H11", "a node that answers 429 or 503",
     "requests that the node turns away are repeated at once, past the limiter",
     [(N, "            // Proceed with the request\n            next.run(req, extensions).await", "            // Proceed with the request\n            if let Some(again) = req.try_clone() {\n                let resp = next.clone().run(req, extensions).await?;\n                if !matches!(resp.status().as_u16(), 429 | 503) {\n                    return Ok(resp);\n                }\n                return next.run(again, extensions).await;\n            }\n            next.run(req, extensions).await")],
     W(DIR + LIM + r'''fn main() {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let web = Web::new();
    let c = BeaconClient::builder(web.url.clone()).with_rate_limit(20).build();
    for st in [429, 503] {
        web.script(move |_| Reply::Full(st, Arc::new(vec![])));
        for i in 0..5 { if rt.block_on(c.get_block_header(i)).is_ok() { fail("a failure is no answer") } }
        let n = count(&web);
        if n != 5 { fail(&format!("{n} requests for 5 calls answered with {st}")) }
    }
}
'''))

make("limit-before-cache", "H11", "a client with both a cache and a limit, and more answers from the cache than the limit allows requests",
     "the limiter comes before the cache, so kept answers wait and use up the budget",
     [(N, """        if let Some(cache_mw) = self.cache_mw {
            self.inner = self.inner.with(cache_mw);
        }
        if let Some(rate_limit_mw) = self.rate_limit_mw {
            self.inner = self.inner.with(rate_limit_mw);
        }
""", """        if let Some(rate_limit_mw) = self.rate_limit_mw {
            self.inner = self.inner.with(rate_limit_mw);
        }
        if let Some(cache_mw) = self.cache_mw {
            self.inner = self.inner.with(cache_mw);
        }
""")],
     W(DIR + LIM + r'''fn main() {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let web = Web::new();
    web.script(|_| Reply::Full(200, header(3)));
    let d = dir();
    let c = BeaconClient::builder(web.url.clone()).with_cache(&d).with_rate_limit(2).build();
    let t = std::time::Instant::now();
    for _ in 0..60 { if rt.block_on(c.get_block_header(7)).is_err() { fail("refused") } }
    let s = t.elapsed().as_secs_f64();
    if count(&web) != 1 { fail("asked again") }
    let _ = std::fs::remove_dir_all(&d);
    if s > 15.0 { fail(&format!("kept answers took {s} seconds")) }
}
'''))

# ---------------------------------------------------------------------------------------------- many lookups at once
CR = r"""
struct Dir(std::path::PathBuf);
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
impl Dir {
    fn new(i: u64) -> Dir {
        let p = std::env::temp_dir().join(format!("demo-crowd-{}-{i}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Dir(p)
    }
}
fn state(slot: u64) -> BeaconState {
    let mut x = host::mainnet::ElectraBeaconState::default();
    x.slot = slot;
    x.genesis_validators_root = B256::repeat_byte(slot as u8).into();
    BeaconState::Electra(x)
}
/// a node that answers each query at its own pace
fn node(pace: fn(u64) -> u64) -> url::Url {
    use std::io::{Read, Write};
    let l = std::net::TcpListener::bind(("127.0.0.1", 0)).unwrap();
    let u = url::Url::parse(&format!("http://127.0.0.1:{}/", l.local_addr().unwrap().port())).unwrap();
    std::thread::spawn(move || {
        for c in l.incoming().flatten() {
            let mut c = c;
            std::thread::spawn(move || {
                let mut b = vec![];
                let mut k = [0; 4096];
                while !b.windows(4).any(|w| w == b"\r\n\r\n") {
                    match c.read(&mut k) { Ok(n) if n > 0 => b.extend(&k[..n]), _ => return }
                }
                let line = String::from_utf8_lossy(&b).lines().next().unwrap_or("").to_string();
                let slot: u64 = line.split(' ').nth(1).and_then(|p| p.rsplit('/').next()?.parse().ok()).unwrap_or(0);
                std::thread::sleep(std::time::Duration::from_millis(pace(slot)));
                let d = format!("{{\"version\":\"electra\",\"execution_optimistic\":false,\"finalized\":true,\"data\":{}}}", serde_json::to_string(&state(slot)).unwrap());
                let _ = c.write_all(format!("HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{d}", d.len()).as_bytes());
            });
        }
    });
    u
}
fn right(r: &std::result::Result<StateRef, StateProviderError>, slot: u64) -> bool {
    matches!(r, Ok(s) if s.slot() == slot && s.genesis_validators_root() == z_core::Root::from(B256::repeat_byte(slot as u8)))
}
fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap()
}
"""
make("clear-sweeps-leftovers", "H12", "old states being cleared at the moment another lookup stores its state",
     "clearing old states also removes the temporary files of saves that are under way, whose lookups then fail",
     [(F, "            let entry = entry?;\n", "            let entry: fs::DirEntry = entry?;\n            // what interrupted saves have left behind\n            if entry.path().extension().is_some_and(|e| e == \"tmp\") {\n                fs::remove_file(entry.path())?;\n                continue;\n            }\n")],
     W(CR + r"""fn main() {
    let rt = runtime();
    let url = node(|_| 0);
    let done = std::sync::atomic::AtomicBool::new(false);
    let mut bad = 0;
    for round in 0..10 {
        let d = Dir::new(round);
        let p = PersistentApiStateProvider::<E>::new(&d.0, BeaconClient::builder(url.clone()).build()).unwrap();
        done.store(false, std::sync::atomic::Ordering::SeqCst);
        std::thread::scope(|t| {
            let q = p.clone();
            let done = &done;
            t.spawn(move || while !done.load(std::sync::atomic::Ordering::SeqCst) { let _ = q.clear_states_before(Epoch::from(1)); });
            for slot in 100..106 {
                if !right(&rt.block_on(async { p.state_at_slot(Slot::from(slot)) }), slot) { bad += 1; }
            }
            done.store(true, std::sync::atomic::Ordering::SeqCst);
        });
    }
    if bad > 0 { fail(&format!("{bad} lookups failed while old states were cleared")) }
}
"""))
make("persist-last-fetched", "H12", "two clones of a provider that fetch different slots at the same time",
     "clones share the state fetched last, and a lookup returns whatever is in that place after saving",
     [(R, "    file_provider: FileProvider<E>,\n    client: BeaconClient,\n}", "    file_provider: FileProvider<E>,\n    client: BeaconClient,\n    /// the state that was fetched last, which is often needed again\n    latest: Arc<Mutex<Option<StateRef>>>,\n}"),
      (R, "            file_provider,\n            client,\n", "            file_provider,\n            client,\n            latest: Arc::default(),\n"),
      (R, "use std::path::PathBuf;\n", "use std::path::PathBuf;\nuse std::sync::{Arc, Mutex};\n"),
      (R, "        // First try to get", "        if let Some(state) = &*self.latest.lock().unwrap() {\n            if slot == state.slot() {\n                return Ok(state.clone());\n            }\n        }\n        // First try to get"),
      (R, "            .file_provider\n                .state_at_slot(slot)\n                .map_err(|_| err.into());\n        }\n\n        Ok(state.into())\n", "            .file_provider\n                .state_at_slot(slot)\n                .map_err(|_| err.into());\n        }\n        let latest = self.latest.lock().unwrap().clone();\n        Ok(latest.unwrap_or_else(|| state.into()))\n"),
      (R, "        // Save the state to the file provider for future use\n", "        // Save the state to the file provider for future use\n        let state: StateRef = state.into();\n        *self.latest.lock().unwrap() = Some(state.clone());\n"),
      (R, "Ok(latest.unwrap_or_else(|| state.into()))", "Ok(latest.unwrap_or(state))")],
     W(CR + r"""fn main() {
    let rt = runtime();
    let url = node(|s| s % 7);
    let mut bad = 0;
    for round in 0..6 {
        let d = Dir::new(round);
        let p = PersistentApiStateProvider::<E>::new(&d.0, BeaconClient::builder(url.clone()).build()).unwrap();
        let wrong = std::sync::atomic::AtomicU64::new(0);
        std::thread::scope(|t| {
            for k in 0..6u64 {
                let (p, rt, wrong) = (p.clone(), &rt, &wrong);
                t.spawn(move || {
                    for i in 0..4 {
                        let slot = 100 + k * 4 + i;
                        let r = rt.block_on(async { p.state_at_slot(Slot::from(slot)) });
                        if !right(&r, slot) { wrong.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
                    }
                });
            }
        });
        bad += wrong.into_inner();
    }
    if bad > 0 { fail(&format!("{bad} lookups gave the state of another")) }
}
"""))
make("persist-waits-for-first", "H12", "a second lookup of a slot while a slow node still answers the first",
     "a lookup leaves fetching to another one that is under way for the slot, but gives up after a while",
     [(R, "    file_provider: FileProvider<E>,\n    client: BeaconClient,\n}", "    file_provider: FileProvider<E>,\n    client: BeaconClient,\n    /// slots that are being fetched\n    pending: Arc<Mutex<HashSet<Slot>>>,\n}"),
      (R, "            file_provider,\n            client,\n", "            file_provider,\n            client,\n            pending: Arc::default(),\n"),
      (R, "use std::path::PathBuf;\n", "use std::collections::HashSet;\nuse std::path::PathBuf;\nuse std::sync::{Arc, Mutex};\nuse std::time::Duration;\n"),
      (R, "        let state = tokio::task::block_in_place(|| {\n            Handle::current().block_on(self.client.get_beacon_state(slot))\n        })\n        .context(\"failed to get state from API\")?;\n",
          "        // somebody else may be fetching it already\n        if !self.pending.lock().unwrap().insert(slot) {\n            for _ in 0..5 {\n                std::thread::sleep(Duration::from_millis(3));\n                if let Ok(state) = self.file_provider.state_at_slot(slot) {\n                    return Ok(state);\n                }\n            }\n            return Err(StateProviderError::NotFound(slot));\n        }\n        let state = tokio::task::block_in_place(|| {\n            Handle::current().block_on(self.client.get_beacon_state(slot))\n        });\n        self.pending.lock().unwrap().remove(&slot);\n        let state = state.context(\"failed to get state from API\")?;\n")],
     W(CR + r"""fn main() {
    let rt = runtime();
    let url = node(|_| 300);
    let d = Dir::new(0);
    let p = PersistentApiStateProvider::<E>::new(&d.0, BeaconClient::builder(url).build()).unwrap();
    let bad = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|t| {
        for _ in 0..3 {
            let (p, rt, bad) = (p.clone(), &rt, &bad);
            t.spawn(move || {
                let r = rt.block_on(async { p.state_at_slot(Slot::from(100)) });
                if !right(&r, 100) { bad.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
            });
        }
    });
    if bad.into_inner() > 0 { fail("a lookup failed because another one was under way") }
}
"""))
