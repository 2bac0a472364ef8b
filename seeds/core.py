"""planted changes to the FFG core, the guest reader and their neighbours"""
from kit import make, kit
V, CS, A, CC, GR, SP = ("core/src/" + x for x in ("verify.rs", "consensus_state.rs", "attestation.rs", "committee_cache.rs", "input_reader/guest_input_reader.rs", "state_patch.rs"))

USE = r'''#![allow(unused)]
// demonstration program: exits 0 when the stated behaviour holds
use beacon_types::{ChainSpec, EthSpec, MinimalEthSpec as Min};
use core_model::{ffg::{Cp, Lk, St}, guest::*, scn::*, spec::{self, Data, FAR}};
use std::collections::{BTreeMap, BTreeSet};
use support::{observe, Outcome, Rng};
use z_core::{Checkpoint, Config, ConsensusState, Epoch, InputReader, Link, Root};
fn want(ok: bool, what: &str) { if !ok { println!("BROKEN: {what}"); std::process::exit(1) } }
fn all(s: &Scn, e: u64) -> BTreeSet<usize> { s.active(e).into_iter().collect() }
/// n validators of 32 ETH, trusted epoch f, justified j; everybody attests along the given links
fn scene(n: usize, f: u64, j: u64, targets: &[u64]) -> Scn {
    let mut sp = Min::default_spec();
    for e in [&mut sp.altair_fork_epoch, &mut sp.bellatrix_fork_epoch, &mut sp.capella_fork_epoch, &mut sp.deneb_fork_epoch, &mut sp.electra_fork_epoch] { *e = Some(Epoch::new(0)) }
    let mut s = Scn::empty::<Min>(sp, z_core::DEFAULT_CONFIG.clone());
    s.vals = (0..n).map(|i| V { key: i as u64, eff: 32_000_000_000, slashed: false, elig: 0, act: 0, exit: FAR }).collect();
    s.start = St { j: Cp::new(j, [j as u8; 32]), f: Cp::new(f, [f as u8; 32]) };
    for e in f..f + 12 { let i = s.mix_index(e); s.mixes.insert((e, i), [e as u8 ^ 0x55; 32]); s.slots.insert([e as u8; 32], e * 8); }
    fill(&mut s, targets);
    s
}
fn links(s: &Scn, targets: &[u64]) -> Vec<Lk> {
    let mut c = s.start.j; let mut v = vec![];
    for t in targets { let n = Cp::new(*t, [*t as u8; 32]); v.push(Lk { s: c, t: n }); c = n }
    v
}
fn fill(s: &mut Scn, targets: &[u64]) {
    let mut rng = Rng::new(5);
    s.atts = links(s, targets).iter().flat_map(|l| attest(&mut rng, s, l, &all(s, l.t.e), false)).collect();
}
fn ok(s: &Scn) -> bool { accepted(&run_scn::<Min>(s)).is_some() }
fn world(seed: u64, o: &WOpt) -> World { random_world::<Min>(&mut Rng::new(seed), o) }
fn reads(p: &Parts, w: &World, e: u64) -> Option<Vec<usize>> {
    p.read::<Min, _>(&w.spec, |r| r.active_validators(Epoch::new(e)).unwrap().map(|x| x.0).collect::<Vec<_>>()).ret()?.ok()
}
/// a calm world: everybody active since long ago, checkpoint at its boundary slot
fn calm(n: usize) -> World {
    let mut w = world(11, &WOpt { n: (n, n), pending: 0, exited: 0, skipped: false, max_gap: 1, at: None, equal: false });
    for v in w.reg.iter_mut() { *v = V { key: v.key, eff: 32_000_000_000, slashed: false, elig: 0, act: 0, exit: FAR } }
    w.seal(); w
}
'''


def m(id, prop, needs, breaks, edits, body):
    make(id, prop, needs, breaks, edits, kit(USE + "fn main() {\n" + body + '\n    println!("ok");\n}\n'))


m("ffg-source-epoch", "C01", "a justification-only link from a conflicting checkpoint of the current justified epoch",
  "the source of a skipping link is compared by epoch only, so a link from a conflicting checkpoint justifies its target",
  [(CS, """        if self.current_justified_checkpoint == source
            && target.epoch() > self""", """        if self.current_justified_checkpoint.epoch() == source.epoch()
            && target.epoch() > self""")],
  r'''
    let st = St { j: Cp::new(7, [1; 32]), f: Cp::new(6, [2; 32]) }.real();
    let c = |e: u64, r: u8| Checkpoint::new(Epoch::new(e), Root::repeat_byte(r));
    want(st.state_transition(&Link { source: c(7, 1), target: c(9, 3) }).is_ok(), "honest link");
    want(st.state_transition(&Link { source: c(7, 9), target: c(9, 3) }).is_err(), "link from a conflicting source applied");''')

m("ffg-recover-fork", "C02", "two states whose finalized checkpoint conflicts with the justified one of the earlier state at the same epoch",
  "the recovered link is returned although it does not lead from the first state to the second",
  [(CS, """            if other.finalized_checkpoint == self.current_justified_checkpoint
                && target""", """            if other.finalized_checkpoint.epoch() == self.current_justified_checkpoint.epoch()
                && target""")],
  r'''
    let a = St { j: Cp::new(7, [1; 32]), f: Cp::new(5, [2; 32]) }.real();
    let b = St { j: Cp::new(8, [3; 32]), f: Cp::new(7, [1; 32]) }.real();
    want(a.transition_link(&b).is_ok(), "honest pair");
    // justified is newer in b, but what b finalized is not what a had justified
    let b = St { j: Cp::new(8, [3; 32]), f: Cp::new(7, [4; 32]) }.real();
    want(a.transition_link(&b).is_err(), "a link was recovered between unconnected states");''')

m("verify-second-finality", "C03", "a trusted state with adjacent checkpoints and a further link after the finalizing one",
  "verification goes on after a finalization if the trusted and justified checkpoints are adjacent, so that one proof finalizes twice",
  [(V, """            consensus_state.finalized_checkpoint() == trusted_checkpoint,
            VerifyError::InvalidFinalization(consensus_state.finalized_checkpoint())
        );

        let link""", """            consensus_state.finalized_checkpoint().epoch() <= trusted_checkpoint.epoch() + 1,
            VerifyError::InvalidFinalization(consensus_state.finalized_checkpoint())
        );

        let link""")],
  r'''
    want(ok(&scene(20, 10, 11, &[12])), "honest");
    want(!ok(&scene(20, 10, 11, &[12, 13])), "two finalizations in one verification");
    want(!ok(&scene(20, 10, 12, &[13, 14])), "two finalizations in one verification");''')

m("verify-slashed-total", "C04", "slashed validators that are still active, and participation just short of the threshold",
  "slashed validators no longer count in the total active balance, which lowers the threshold",
  [(V, "get_total_balance(spec, active_validators.values())?;", "get_total_balance(\n            spec,\n            active_validators.values().filter(|v| !v.slashed),\n        )?;")],
  r'''
    let mut s = scene(40, 10, 11, &[12]);
    for i in 0..7 { s.vals[i].slashed = true }
    want(!ok(&s), "33 of 40 unslashed validators pass for 85 %");
    s.vals[6].slashed = false;
    want(ok(&s), "34 of 40 are 85 %");''')

m("verify-count-twice", "C04", "aggregates of one link that overlap, and a quorum that only counts twice",
  "validators in overlapping aggregates are counted once per aggregate",
  [(V, "let mut participating_indices = BTreeSet::new();", "let mut participating_indices = Vec::new();")],
  r'''
    let mut s = scene(40, 10, 11, &[]);
    let l = links(&s, &[12])[0];
    let who: BTreeSet<usize> = all(&s, 12).into_iter().filter(|i| i % 2 == 0).collect();
    let one = attest(&mut Rng::new(3), &s, &l, &who, false);
    s.atts = one.iter().cloned().chain(one.iter().cloned()).collect();
    want(!ok(&s), "half of the validators counted twice make a quorum");''')

m("verify-domain-source", "C05", "a link whose source lies before a fork and whose target at or after it",
  "the signature domain takes the fork in force at the source epoch",
  [(V, ".fork(data.target.epoch)", ".fork(data.source.epoch)")],
  r'''
    let mut s = scene(30, 10, 11, &[]);
    s.spec.fulu_fork_epoch = Some(Epoch::new(12));
    fill(&mut s, &[12]);
    want(ok(&s), "signatures of the fork in force at the target are refused");''')

m("committees-by-highest-index", "C06", "inactive validators such that the highest index suggests more committees than the active validators make",
  "the number of committees follows the highest validator index instead of the number of active validators",
  [(V, "S::Spec::get_committee_count_per_slot(indices.len(), spec)", "S::Spec::get_committee_count_per_slot(\n        indices.last().map_or(0, |i| i + 1),\n        spec,\n    )")],
  r'''
    let mut s = scene(64, 10, 11, &[12]);
    want(ok(&s), "all active");
    for i in 0..10 { s.vals[i].exit = 12 }
    fill(&mut s, &[12]);
    want(ok(&s), "54 active validators make one committee per slot");''')

m("attestation-trailing-bits", "C07", "an aggregate with more bits than its committees have members",
  "surplus aggregation bits are ignored instead of rejected",
  [(A, "assert_eq!(attn.aggregation_bits.len(), committee_offset);", "assert!(attn.aggregation_bits.len() >= committee_offset);")],
  r'''
    let mut s = scene(30, 10, 11, &[12]);
    want(ok(&s), "honest");
    s.atts[0].bits.push(false);
    want(!ok(&s), "an aggregate with a surplus bit counts");
    *s.atts[0].bits.last_mut().unwrap() = true;
    want(!ok(&s), "an aggregate with a surplus bit counts");''')

m("lookahead-from-justified", "C08", "several links whose last target lies beyond the window of the trusted checkpoint but not of the justified one",
  "the lookahead window is measured from the current justified checkpoint",
  [(V, "validate_link(cfg, spec, trusted_checkpoint, &link)?;", "validate_link(\n            cfg,\n            spec,\n            consensus_state.current_justified_checkpoint(),\n            &link,\n        )?;")],
  r'''
    want(ok(&scene(20, 10, 12, &[14])) == false, "unfinished");
    want(ok(&scene(20, 10, 13, &[14])), "inside the window");
    want(!ok(&scene(20, 10, 14, &[15])), "a target five epochs ahead is accepted");''')

m("fork-of-source", "C08", "a link that crosses into an unsupported fork",
  "the supported range is checked for the fork of the link's source",
  [(V, "spec.fork_name_at_epoch(target_epoch);", "spec.fork_name_at_epoch(link.source.epoch());")],
  r'''
    let mut s = scene(20, 10, 11, &[]);
    s.spec.fulu_fork_epoch = Some(Epoch::new(5));
    s.spec.gloas_fork_epoch = Some(Epoch::new(12));
    fill(&mut s, &[12]);
    want(!ok(&s), "a target in an unsupported fork is accepted");''')

m("key-sign-bit", "C09", "a supplied public key that is the negation of the registered one",
  "the flag byte of the compressed key is not compared, so the negated key is taken for a validator's",
  [("core/src/bls.rs", "    &public_key_bytes[0..32] == chunk1\n", "    public_key_bytes[1..32] == chunk1[1..32]\n")],
  r'''
    let w = calm(6);
    let none = BTreeSet::new();
    want(reads(&w.parts(&none), &w, w.st.f.e).is_some(), "honest");
    let mut p = w.parts(&none);
    p.keys[2] = p.keys[2].standin_negate();
    want(reads(&p, &w, w.st.f.e).is_none(), "a negated key is accepted");''')

m("omit-exiting-next", "C10", "a validator whose exit epoch is the one after the trusted epoch",
  "validators exiting in the next epoch can be left out although they are active at the trusted epoch",
  [(GR, "assert!(exit_epoch <= current_epoch.into());", "assert!(exit_epoch <= current_epoch.as_u64() + 1);")],
  r'''
    let mut w = calm(6);
    w.reg[3].exit = w.st.f.e + 1;
    w.seal();
    let none = BTreeSet::new();
    let mut p = w.parts(&none);
    let mut g = w.val_gindices(&none);
    for k in World::val_fields(3) { g.remove(&k); }
    g.insert(val_g(3, 6));
    p.validators = w.list_tree().proof(&g);
    p.keys.remove(3);
    want(reads(&p, &w, w.st.f.e).is_none(), "an active validator was left out");''')

m("balance-any-leaf", "C10", "a registry proof that opens a validator's withdrawal credentials in place of the effective balance",
  "the leaf read as a validator's effective balance may be the withdrawal credentials, so the stake that has to vote is understated",
  [(GR, "            let (gindex, effective_balance) =\n                values.next().ok_or(ssz_multiproofs::Error::MissingValue)?;\n            assert_eq!(gindex, effective_balance_gindex(validator_index));\n", "            let (gindex, effective_balance) =\n                values.next().ok_or(ssz_multiproofs::Error::MissingValue)?;\n            assert!(gindex < slashed_gindex(validator_index));\n")],
  r"""
    let w = calm(6);
    let none = BTreeSet::new();
    let honest = w.parts(&none);
    want(reads(&honest, &w, w.st.f.e).is_some(), "honest input refused");
    for i in 0..6 {
        let mut p = honest.clone();
        let mut g = w.val_gindices(&none);
        g.remove(&val_g(i, 2));
        g.insert(val_g(i, 1));
        p.validators = w.list_tree().proof(&g);
        want(reads(&p, &w, w.st.f.e).is_none(), "withdrawal credentials were read as a balance");
    }""")

m("registry-cut", "C10", "a registry proof that stops before the last validators",
  "the number of described validators may be smaller than the registry's length",
  [(GR, "assert_eq!(validator_index as u64, length);", "assert!(validator_index as u64 <= length);")],
  r'''
    let w = calm(6);
    let none = BTreeSet::new();
    let mut p = w.parts(&none);
    let mut g = w.val_gindices(&none);
    for i in 4..6 { for k in World::val_fields(i) { g.remove(&k); } }
    p.validators = w.list_tree().proof(&g);
    p.keys.truncate(4);
    want(reads(&p, &w, w.st.f.e).is_none(), "the last validators were left out");''')

m("projection-start", "C11", "a checkpoint whose boundary slots were skipped and a validator not yet in the queue at its block",
  "the registry updates between the block's epoch and the trusted epoch are left out",
  [(GR, "for epoch in state_epoch.as_u64()..=current_justified_epoch.as_u64()", "for epoch in trusted_checkpoint.epoch().as_u64()..=current_justified_epoch.as_u64()")],
  r'''
    let mut w = calm(6);
    let f = w.st.f.e;
    // the checkpoint block is three epochs old and records an old finalization
    w.state_slot = (f - 3) * 8 + 1;
    w.state_final = f - 5;
    w.block = Block { slot: w.state_slot, ..w.block.clone() };
    w.spec.electra_fork_epoch = Some(Epoch::new(0));
    w.spec.fulu_fork_epoch = None;
    w.fork = spec::fork_at(&w.spec, f - 3);
    w.reg[2].elig = f - 6; w.reg[2].act = FAR;
    w.st.j.e = f + 1;
    w.seal();
    let p = w.parts(&BTreeSet::new());
    // activated by the transition of epoch f-3, five epochs later
    want(reads(&p, &w, f + 2) == Some((0..6).collect()), "a queued validator was not activated in time");''')

m("exit-rewritten", "C12", "a patch that changes the exit epoch of a validator that already has one",
  "an exit epoch that is already set is not compared with the patched one",
  [(GR, """                if prev_exit_epoch == exit_epoch {
                    continue;""", """                if prev_exit_epoch != spec.far_future_epoch {
                    continue;""")],
  r'''
    let mut w = calm(6);
    let f = w.st.f.e;
    w.reg[1].exit = f + 20;
    w.seal();
    let p = |x: u64| { let mut p = w.parts(&BTreeSet::new()); p.patches.insert(f + 1, Patch { exits: BTreeMap::from([(1, x)]), ..Patch::default() }); p };
    want(reads(&p(f + 20), &w, f + 1).is_some(), "the same exit");
    want(reads(&p(f + 1), &w, f + 1).is_none(), "a proven exit epoch was moved forward");''')

m("patch-activates", "C13", "a patched exit of a validator that is not active in the patched epoch",
  "a validator with a patched exit counts as active whatever its own activation says",
  [(SP, "Some(exit_epoch) => epoch < *exit_epoch && validator.is_active_at(epoch),", "Some(exit_epoch) => epoch < *exit_epoch,")],
  r'''
    let mut w = calm(6);
    let f = w.st.f.e;
    w.reg[1].act = f + 3; w.reg[1].elig = 0;
    w.seal();
    let mut p = w.parts(&BTreeSet::new());
    p.patches.insert(f + 1, Patch { exits: BTreeMap::from([(1, FAR)]), ..Patch::default() });
    want(reads(&p, &w, f + 1) == Some(vec![0, 2, 3, 4, 5]), "a patch made a validator active before its activation");''')

m("patch-lingers", "C13", "a query for an epoch without a patch after one that has a patch",
  "the latest earlier patch is applied to epochs that have none of their own",
  [(GR, """        let patch = self.patches.get(&epoch).unwrap_or(&EMPTY_STATE_PATCH);

        Ok(self""", """        let patch = self
            .patches
            .range(..=epoch)
            .next_back()
            .map_or(&EMPTY_STATE_PATCH, |(_, patch)| patch);

        Ok(self""")],
  r'''
    let mut w = calm(6);
    let f = w.st.f.e;
    w.ee = 0; w.ec = 0;
    w.seal();
    let mut p = w.parts(&BTreeSet::new());
    p.patches.insert(f + 1, Patch { exits: BTreeMap::from([(1, f + 5)]), ..Patch::default() });
    want(reads(&p, &w, f + 6) == Some((0..6).collect()), "a patch was applied to an epoch it does not name");''')

m("slot-any-field", "C14", "a slot proof that opens another field of the block",
  "the first value of a slot proof is taken for the slot whatever its position",
  [(GR, """                .next_assert_gindex(block_slot_gindex())
                .context("Failed to extract beacon block slot")?;""", """                .next()
                .map(|(_, slot)| slot)
                .ok_or(ssz_multiproofs::Error::MissingValue)
                .context("Failed to extract beacon block slot")?;""")],
  r'''
    let w = calm(4);
    let mut rng = Rng::new(2);
    let b = Block::random(&mut rng, 4711);
    let get = |g: u64| { let mut p = w.parts(&BTreeSet::new()); p.slots = vec![b.tree().proof(&BTreeSet::from([g]))];
        p.read::<Min, _>(&w.spec, |r| r.slot_for_block(&Root::from(b.root())).ok()).ret().and_then(|x| x.ok()).flatten() };
    want(get(8) == Some(4711), "honest");
    want(get(9).is_none(), "the proposer index is reported as the slot");''')

m("patch-skip-empty", "C15", "an input with a patch that contains no exits",
  "empty exit maps are left out when the input is written, which the binary format cannot express",
  [(SP, """    #[serde_as(as = "BTreeMap<_, serde_utils::U64>")]
    pub validator_exits""", """    #[serde_as(as = "BTreeMap<_, serde_utils::U64>")]
    #[serde(default, skip_serializing_if = "BTreeMap::is_empty")]
    pub validator_exits""")],
  r'''
    let w = calm(4);
    for exits in [BTreeMap::from([(1usize, 99u64)]), BTreeMap::new()] {
        let mut p = w.parts(&BTreeSet::new());
        p.patches.insert(w.st.f.e + 1, Patch { exits, mixes: BTreeMap::from([(3, [7; 32])]) });
        let ok = p.with::<Min, _>(|i| { let b = bincode::serialize(&i).unwrap(); let r = bincode::deserialize::<z_core::GuestInput<Min>>(&b).map(|x| x == i); r.unwrap_or(false) });
        want(ok == Some(true), "an input does not survive serialization");
    }''')

m("journal-slot-narrow", "C16", "a finalized slot beyond 32 bits",
  "the finalized slot is published as a 32-bit number",
  [("core/src/abi.rs", "        uint64 finalized_slot;", "        uint32 finalized_slot;"),
   ("core/src/abi.rs", "            finalized_slot,\n        }", "            finalized_slot: finalized_slot as u32,\n        }")],
  r'''
    let st = St { j: Cp::new(7, [1; 32]), f: Cp::new(6, [2; 32]) }.real();
    for slot in [5u64, 0x1_0000_0007] {
        let b = z_core::abi::Journal::new(&st, &st, slot).encode();
        want(b.len() == 288 && b[280..288] == slot.to_be_bytes()[..], "the published slot differs");
    }''')

# --- C18: no two accepted steps conflict unless enough stake equivocated

m("verify-once-per-data", "C18", "aggregates that say the same, of which a later one claims signers who did not sign",
  "the signature is checked only for the first aggregate of every attested content, so later ones can claim any signers",
  [(V, """        let mut participating_indices = BTreeSet::new();
        for attestation in attestations {
            let attesting_indices =
                process_attestation(input_reader, &active_validators, &committees, attestation)?;
""", """        let mut participating_indices = BTreeSet::new();
        let mut verified = BTreeSet::new();
        for attestation in attestations {
            let attesting_indices = process_attestation(
                input_reader,
                &active_validators,
                &committees,
                attestation,
                &mut verified,
            )?;
"""),
   (V, """    attestation: &Attestation<E>,
) -> Result<BTreeSet<ValidatorIndex>, VerifyError> {
""", """    attestation: &Attestation<E>,
    verified: &mut BTreeSet<Root>,
) -> Result<BTreeSet<ValidatorIndex>, VerifyError> {
"""),
   (V, """    ensure!(
        is_valid_indexed_attestation(
            state,
            &attesting_validators,
            &attestation.data,
            &attestation.signature,
        )?,
        VerifyError::InvalidAttestation("Invalid signature")
    );
""", """    if verified.insert(attestation.data.signing_root(Root::ZERO)) {
        ensure!(
            is_valid_indexed_attestation(
                state,
                &attesting_validators,
                &attestation.data,
                &attestation.signature,
            )?,
            VerifyError::InvalidAttestation("Invalid signature")
        );
    }
""")],
  r'''
    let mut s = scene(40, 10, 11, &[]);
    let l = links(&s, &[12])[0];
    let few: BTreeSet<usize> = all(&s, 12).into_iter().filter(|i| i % 2 == 0).collect();
    let honest = attest(&mut Rng::new(3), &s, &l, &few, false);
    s.atts = honest.clone();
    want(!ok(&s), "half of the stake makes no link");
    // the same aggregates again, claiming that everybody signed
    s.atts = honest.iter().flat_map(|a| { let mut b = a.clone(); b.bits.iter_mut().for_each(|x| *x = true); [a.clone(), b] }).collect();
    want(!ok(&s), "aggregates that repeat a checked content are believed about their signers");''')

m("verify-by-target", "C18", "votes for one target from different sources, none of which alone has a quorum",
  "attestations are grouped by their target alone, so votes from another source count for the link of the first one",
  [(V, ".chunk_by(|a| (a.data().source, a.data().target))", ".chunk_by(|a| a.data().target)"),
   (V, """        let link = Link {
            source: (link.0).into(),
            target: (link.1).into(),
        };""", """        let mut attestations = attestations.peekable();
        let link = Link {
            source: (attestations.peek().unwrap().data().source).into(),
            target: link.into(),
        };""")],
  r'''
    let mut s = scene(40, 10, 11, &[12]);
    want(ok(&s), "honest");
    let l = links(&s, &[12])[0];
    let other = Lk { s: Cp::new(9, [9; 32]), t: l.t };
    let part = |k: usize| -> BTreeSet<usize> { all(&s, 12).into_iter().filter(|i| i % 2 == k).collect() };
    let mut mixed = attest(&mut Rng::new(3), &s, &l, &part(0), false);
    mixed.extend(attest(&mut Rng::new(4), &s, &other, &part(1), false));
    s.atts = mixed;
    want(!ok(&s), "votes from another source complete the quorum of a link");''')

m("churn-carries-over", "C18", "several claimed exits at later epochs, each within what the time since the first possible exit allows",
  "the epoch up to which the exit budget was granted is not advanced, so the same waiting time is granted for every claimed exit and too much stake can be taken out of the total",
  [(GR, """            earliest_exit_epoch = exit_epoch;

""", "")],
  r'''
    let mut w = calm(40);
    let f = w.st.f.e;
    w.seal();
    let try_ = |k: usize, x: u64| { let mut p = w.parts(&BTreeSet::new()); p.patches.insert(f + 1, Patch { exits: (0..k).map(|i| (i, x)).collect(), ..Patch::default() }); reads(&p, &w, f + 1).is_some() };
    // the most that may leave at one epoch is independent of how the exits are told apart
    let x = f + 12;
    let most = (0..40).take_while(|k| try_(*k, x)).last().unwrap();
    want(most >= 1 && most < 39, "the number of exits is bounded");''')

m("verify-any-progress", "C03", "a batch that justifies but finalizes nothing, and a reader that knows the slot of the trusted block",
  "verification is content with any progress, so a batch that finalizes nothing is accepted as if it had finalized the trusted checkpoint again",
  [(V, """        consensus_state.finalized_checkpoint() != trusted_checkpoint,
        VerifyError::Inv""", """        consensus_state.current_justified_checkpoint() != trusted_checkpoint,
        VerifyError::Inv""")],
  r'''
    want(ok(&scene(20, 10, 11, &[12])), "honest");
    want(!ok(&scene(20, 10, 11, &[13])), "nothing finalized");''')

m("verify-floor-debug", "C04", "a configuration whose threshold is below two thirds",
  "the floor of two thirds is checked in debug builds only, so a misconfigured guest accepts less",
  [(V, "        assert!(target_balance.safe_mul(3)? >=", "        debug_assert!(target_balance.safe_mul(3)? >=")],
  r'''
    let mut s = scene(40, 10, 11, &[]);
    s.cfg.justification_threshold_factor = 1;
    s.cfg.justification_threshold_quotient = 2;
    let l = links(&s, &[12])[0];
    let mut pass = |n: usize| { let who: BTreeSet<usize> = all(&s, 12).into_iter().take(n).collect(); s.atts = attest(&mut Rng::new(3), &s, &l, &who, false); ok(&s) };
    want(pass(27), "27 of 40 are two thirds");
    want(!pass(26), "26 of 40 are less than two thirds");''')
