#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

NOTEST = "No test that builds here exercises it; the repository's own tests sample a handful of fixed cases"

# ---------------------------------------------------------------- multiproofs
p("S01", "Values of a verified multiproof really are the tree nodes at their gindex",
  "Whenever a multiproof verifies against a root, every (generalized index, value) pair it exposes through iteration or lookup is the node that the tree with that root has at exactly that generalized index. This holds for every proof an adversary can serialize, whatever its depth and shape: no value may be presented under the index of a different position of the tree.",
  "inputs", "every byte string that deserializes to a multiproof, including proofs deeper than 63 levels, truncated, over-long and malformed ones, against every root",
  "One unit test checks one 11-bit shape; soundness quantifies over all hostile shapes, including ones deeper than the index type is wide",
  "ssz-multiproofs/src/multiproof.rs",
  [("root recomputation over the shape", "ssz-multiproofs/src/multiproof.rs calculate_compact_multi_merkle_root"), ("index reconstruction from the shape", "ssz-multiproofs/src/multiproof.rs GIndexIterator")],
  [("descriptor", "shape of the proof tree in depth-first order", "Multiproof"), ("value_mask", "which nodes are exposed as values", "Multiproof")],
  ["Multiproof::verify", "Multiproof::values", "Multiproof::nodes", "Multiproof::get"])
p("S02", "A multiproof is accepted only for the root its nodes and shape hash to",
  "Verification succeeds exactly when the shape is one complete binary tree with at least one inner node, enough node data is present, and hashing the nodes pairwise with SHA-256 along that shape gives the supplied root. Any well-formed proof whose root differs is rejected with an error (not a crash), and flipping any bit of used node data, of the shape or of the root makes verification fail.",
  "inputs", "all proofs (honest, mutated, random) and all roots",
  "The stable test never hashes anything; acceptance must agree with an independent recomputation for every shape and every single-bit mutation",
  "ssz-multiproofs/src/multiproof.rs ssz-multiproofs/src/error.rs",
  [("stack-based reduction", "ssz-multiproofs/src/multiproof.rs calculate_compact_multi_merkle_root")],
  [], ["Multiproof::verify", "Multiproof::calculate_root"])
p("S03", "Multiproof accessors yield exactly the marked values in depth-first order",
  "Iterating the values of a well-formed proof yields each node marked as a value exactly once, with its generalized index, in depth-first left-to-right order, and iterating all nodes yields every node likewise. Lookup by index returns the value iteration would yield for it and nothing for indices that are absent or are only supporting nodes; the checked-next accessor consumes one value and returns it only if its index equals the requested one, otherwise it reports both indices, and reports a missing value at the end.",
  "inputs histories", "all well-formed proofs, masks and sequences of accessor calls",
  "The one unit test covers six indices of one shape and never touches masks, lookup or the checked accessor",
  "ssz-multiproofs/src/multiproof.rs",
  [("zip of indices, nodes and mask", "ssz-multiproofs/src/multiproof.rs nodes/values/get/next_assert_gindex")],
  [], ["Multiproof::nodes", "Multiproof::values", "Multiproof::get", "ValueIterator::next_assert_gindex"])
p("S04", "Multiproof serialization round-trips and deserializes without copying",
  "Serializing a multiproof and deserializing it (postcard or bincode) gives an equal proof with the same root and the same values, byte-identical when serialized again, and the deserialized node data is borrowed from the input buffer rather than copied. A truncated encoding is reported as a deserialization error, and the preallocation hint carried in the proof never changes any verification outcome.",
  "inputs", "all proofs, both wire formats, every truncation point, all hints that fit in memory",
  "Two postcard round trips exist, in tests that need unavailable crates; borrowing, truncation and hints are never tested",
  "ssz-multiproofs/src/multiproof.rs",
  [("derived serde with borrowed bytes", "ssz-multiproofs/src/multiproof.rs Multiproof"), ("capacity hint", "ssz-multiproofs/src/multiproof.rs calculate_compact_multi_merkle_root")],
  [("max_stack_depth", "preallocation hint, untrusted", "Multiproof")], ["serde round trip", "Multiproof::calculate_root"])
p("S05", "Built multiproofs verify and prove exactly the requested nodes",
  "For any SSZ container and any non-empty set of generalized indices or paths that exist in it, none an ancestor of another, the built proof verifies against the container's hash tree root and its values are exactly the requested indices paired with the container's Merkle nodes there, in depth-first order. Nothing else is marked as a value, and every sibling needed is included once.",
  "inputs configurations", "all containers (fixed, variable, empty lists, nested), all admissible index sets up to the whole tree",
  "Three fixed single-index cases exist, in a module that cannot even be built here",
  "ssz-multiproofs/src/builder.rs",
  [("helper/path index sets", "ssz-multiproofs/src/builder.rs compute_proof_indices_and_value_mask"), ("ordering and shape", "ssz-multiproofs/src/builder.rs cmp_binary_lexicographically, compute_proof_descriptor")],
  [], ["MultiproofBuilder::build", "Multiproof::verify", "Multiproof::values"])
p("S06", "Proof building is deterministic",
  "Building a proof for the same container and the same set of requested positions yields byte-identical serialized proofs, regardless of registration order, duplicates, whether positions were given as paths or indices, the number of worker threads, and repetition.",
  "inputs schedules configurations", "registration orders, duplicates, path/index forms and thread-pool sizes from 1 to 8",
  "No test compares two builds; the implementation collects into randomly seeded hash sets and computes in parallel",
  "ssz-multiproofs/src/builder.rs",
  [("ordered set + sort after parallel union", "ssz-multiproofs/src/builder.rs")],
  [], ["MultiproofBuilder::build"])
p("S07", "Requests that cannot be proven are refused with an error",
  "Building with no requested position, with index zero, with an index that does not exist in the container, or with a set that no single proof of this format can represent (a position together with one of its ancestors, or the root itself) returns an error. It never panics and never returns a proof that fails to verify or that exposes wrong values.",
  "inputs", "all containers and all requested index sets outside the admissible ones",
  "Only success paths are tested",
  "ssz-multiproofs/src/builder.rs ssz-multiproofs/src/error.rs",
  [("error variants for empty and invalid requests", "ssz-multiproofs/src/error.rs")],
  [], ["MultiproofBuilder::build"])

# ---------------------------------------------------------------- consensus core
p("C01", "Finality transitions follow Casper FFG and never go back",
  "From a valid consensus state, a supermajority link is applied if and only if its source is the current justified checkpoint and its target epoch is later; the target becomes justified, and the source becomes finalized exactly when the target is in the very next epoch. The resulting state is always valid, and neither the justified nor the finalized epoch ever decreases; every other link is refused and leaves nothing changed.",
  "inputs histories", "all valid states, all links including extreme epochs, all sequences of links",
  "Ten hand-picked cases with single-digit epochs in a test that cannot be built here",
  "core/src/consensus_state.rs core/src/lib.rs",
  [("transition rules", "core/src/consensus_state.rs state_transition")],
  [("current justified / finalized checkpoint", "the FFG state", "core/src/consensus_state.rs")],
  ["ConsensusState::state_transition"])
p("C02", "The link recovered between two states is exactly the one that connects them",
  "For non-genesis states, the link computed between two consensus states, when applied to the first, produces the second; it is absent exactly when both states are equal. Pairs that no single supported link connects are refused, and a change of finality where the newly justified epoch is two after the newly finalized one is reported as unsupported 2-finality.",
  "inputs", "all pairs of valid states, connected or not",
  "Checked only on the handful of successful table cases",
  "core/src/consensus_state.rs",
  [("inverse of the transition", "core/src/consensus_state.rs transition_link")],
  [], ["ConsensusState::transition_link"])
p("C03", "Verification accepts only a chain of links ending in exactly one finalization",
  "Verification of a batch of attestations succeeds only if its consecutive groups by (source, target) form a chain of valid transitions from the trusted starting state, in which the last group and no earlier one advances finality; the returned state is precisely the result of applying those links in order. An empty batch, a batch that finalizes nothing, or one that continues after a finalization is rejected.",
  "inputs histories", "all sequences of fully attested links, in any order, with repetition and regrouping",
  "Integration tests need a proving harness and a full client; they replay a few happy chains",
  "core/src/verify.rs core/src/consensus_state.rs",
  [("group-by-link fold with finality guard", "core/src/verify.rs verify")],
  [], ["verify"])
p("C04", "A link counts only with the configured supermajority of unslashed active stake",
  "A link is accepted only if the combined effective balance of the distinct, unslashed validators active at the target epoch whose attestations for that link are included, reaches the configured fraction of the total balance active at that epoch. A validator counts once however many attestations carry it, slashed or inactive validators never count towards the numerator, slashed active ones do count towards the total, and meeting the threshold exactly suffices while one unit of balance less does not. No configuration lets less than two thirds of the total suffice.",
  "inputs configurations", "all validator sets, balances, slashing/activity patterns, overlapping aggregates and threshold settings",
  "No unit test measures a balance; boundary equality, overlap and slashed participants are never sampled",
  "core/src/verify.rs core/src/input_reader.rs core/src/config.rs",
  [("set union then balance comparison in 128 bits", "core/src/verify.rs verify"), ("balance sum", "core/src/input_reader.rs get_total_balance")],
  [], ["verify"])
p("C05", "Only correctly signed attestations with the right domain are counted",
  "Verification succeeds only if every included attestation carries an aggregate signature valid for exactly the validators its bits designate, over that attestation's data, under the attester domain of the fork in force at its target epoch and the chain's genesis validators root. A signature for other data, another fork, another chain, another domain type, a subset or superset of signers, or by other keys makes verification fail, and so does an attestation with no signer.",
  "inputs configurations", "all attestations and tamperings of data, signature, bits, keys, fork schedule and genesis root",
  "Real-signature tests need a full client harness; no negative signature test exists",
  "core/src/verify.rs",
  [("domain and signing-root check", "core/src/verify.rs is_valid_indexed_attestation")],
  [], ["verify"])
p("C06", "Committees are the ones the beacon-chain specification assigns",
  "For each epoch the committees used are the swap-or-not shuffling of the validators active at that epoch in index order, seeded by domain, epoch and the RANDAO mix of two epochs earlier, cut into the specified number of equal slices per slot. Every active validator is in exactly one committee of the epoch, positions and counts reported agree with that partition, and queries for another epoch or an out-of-range committee are refused.",
  "inputs", "all validator sets, seeds, epochs (including the first ones), slots and committee indices, for both network presets",
  "No committee test exists in the repository",
  "core/src/committee_cache.rs core/src/verify.rs core/src/input_reader.rs",
  [("shuffle and slicing", "core/src/committee_cache.rs"), ("seed derivation", "core/src/input_reader.rs get_seed"), ("assembly", "core/src/verify.rs compute_committees")],
  [], ["CommitteeCache queries", "InputReader::get_seed", "verify"])
p("C07", "Attestation bits map to committee members exactly, malformed ones are rejected",
  "An attestation designates exactly those members of its selected committees (concatenated in ascending committee order) whose aggregation bit is set. An attestation whose bit count differs from the combined committee size, that selects a committee which does not exist or contributes no attester, whose slot is not in its target epoch, or whose legacy committee index is not zero is rejected.",
  "inputs", "all committee selections, bit patterns, lengths, slots and indices",
  "No unit test covers bit mapping; only well-formed client-made attestations are ever used",
  "core/src/attestation.rs core/src/verify.rs",
  [("committee concatenation with offset", "core/src/attestation.rs get_attesting_indices"), ("slot and index checks", "core/src/verify.rs process_attestation")],
  [], ["get_attesting_indices", "verify"])
p("C08", "Only links inside the supported fork range and lookahead window are accepted",
  "A link whose target epoch falls in a fork before the configured minimum or after the configured maximum is rejected with an unsupported-fork error, and one whose target lies more epochs past the trusted finalized checkpoint than the configured limit is rejected with a lookahead error. Links exactly at either bound are not rejected for that reason.",
  "inputs configurations", "all fork schedules, configurations and target epochs around every boundary",
  "No test varies fork schedule or lookahead limits",
  "core/src/verify.rs core/src/config.rs",
  [("link validation", "core/src/verify.rs validate_link")],
  [], ["verify", "Config::is_supported_version"])
p("C09", "Guest input is bound to the trusted finalized checkpoint",
  "A guest input is accepted only if its block, state and validator data are proven, link by link, against the root of the trusted finalized checkpoint, its fork matches the chain specification, and its public keys are the decompressed forms of the proven keys. Replacing or altering any proven value, key, root, proof node, or the trusted root itself makes acceptance fail, and what an accepted input reports equals the values in the authentic state.",
  "inputs", "all tamperings of honest inputs and all substitutions of proofs from other blocks, states and registries",
  "Existing tests only feed honest inputs; one serialization test never opens a proof",
  "core/src/input_reader/guest_input_reader.rs core/src/bls.rs core/src/guest_gindices.rs",
  [("block -> state -> registry proof chain", "core/src/input_reader/guest_input_reader.rs into_reader"), ("key check", "core/src/bls.rs has_compressed_chunks")],
  [], ["GuestInput::into_reader", "InputReader accessors of the result"])
p("C10", "The proven registry is complete: no live validator can be omitted or misplaced",
  "An accepted input covers every registry position from zero to the proven list length exactly once, in order; positions are either fully described or shown to have exited no later than the trusted epoch. Omitting, duplicating, reordering or truncating validators, or presenting a validator that has not yet exited as exited, makes acceptance fail.",
  "inputs", "all registries and all choices of which fields a prover reveals for which validator",
  "Honest proofs only are ever produced by the tests",
  "core/src/input_reader/guest_input_reader.rs",
  [("sequential index check and list-length check", "core/src/input_reader/guest_input_reader.rs extract_validators_multiproof")],
  [], ["GuestInput::into_reader", "InputReader::active_validators"])
p("C11", "Activations after the trusted state are projected as the spec prescribes",
  "Between the trusted state and the justified checkpoint, validators become eligible and activated exactly as the registry updates of the consensus specification prescribe for each epoch transition from the trusted state's epoch to the justified epoch inclusive, with the trusted state's own finalized epoch as the finalized epoch of all but the last of them and the trusted epoch as that of the last. The active sets reported from the trusted epoch on are those of the registry so updated, apart from exits supplied as patches.",
  "inputs histories", "all registries, eligibility/activation epochs, skipped boundary slots and gaps between finalized and justified epochs",
  "Depends on rare combinations of activation queue and missed epochs that the sampled chains hardly contain",
  "core/src/input_reader/guest_input_reader.rs core/src/lib.rs",
  [("epoch loop", "core/src/input_reader/guest_input_reader.rs into_reader, process_registry_updates"), ("eligibility predicates", "core/src/lib.rs ValidatorInfo")],
  [], ["InputReader::active_validators"])
p("C12", "Unproven exits cannot exceed what the churn limits allow",
  "Exits supplied as unproven patches are accepted only for known validators without an exit epoch, never earlier than the earliest permitted exit epoch (the earlier of the state's exit and consolidation queues, but not before an exit initiated in the trusted state's epoch can take effect) nor for epochs before the trusted one. Over all patches together, the balance newly exiting up to any exit epoch stays within twice the per-epoch balance churn limit for each epoch from the earliest permitted one up to it. A validator's exit epoch never changes once set, an exit already proven or patched for an earlier epoch is not charged again, and anything beyond the budget makes acceptance fail.",
  "inputs", "all registries, patch maps, exit orders and balances around each boundary",
  "Honest patches are small; no test probes the limits",
  "core/src/input_reader/guest_input_reader.rs core/src/state_patch.rs",
  [("patch plausibility check", "core/src/input_reader/guest_input_reader.rs validate_state_patches")],
  [], ["GuestInput::into_reader"])
p("C13", "Patches take effect for exactly the epoch and fields they name",
  "A patched exit removes a validator from the active set of the patched epoch from its exit epoch on and changes nothing for other validators or other epochs; a patched RANDAO value is returned only for its epoch and index and unpatched ones are absent. Patches can only deactivate, never activate, a validator.",
  "inputs", "all patch maps, registries and epochs",
  "No test queries a patched reader directly",
  "core/src/state_patch.rs core/src/input_reader/guest_input_reader.rs",
  [("activity with patched exit", "core/src/state_patch.rs is_active_validator")],
  [], ["InputReader::active_validators", "InputReader::randao_mix"])
p("C14", "The reported finalized slot is the proven slot of the finalized block",
  "The slot returned by verification is the slot field of the very block whose root is the new finalized checkpoint, as proven by an inclusion proof against that root. If no such proof is supplied, verification fails; proofs of other fields, other blocks or altered slots never determine the result.",
  "inputs", "all sets of slot proofs, honest, missing, mixed up or tampered",
  "No negative test for slot proofs exists",
  "core/src/input_reader/guest_input_reader.rs core/src/verify.rs",
  [("root -> slot map from proofs", "core/src/input_reader/guest_input_reader.rs into_reader"), ("lookup by finalized root", "core/src/verify.rs verify")],
  [], ["verify", "InputReader::slot_for_block"])
p("C15", "Guest input survives serialization unchanged",
  "Serializing a guest input and deserializing it yields an equal input for every combination of proofs, keys, patches, consensus state and attestations, and serializing again yields the same bytes. Truncated encodings and encodings with an invalid public key or attestation are refused with an error.",
  "inputs", "all inputs, every truncation point, invalid key and attestation encodings",
  "One round trip with empty proofs and no attestations",
  "core/src/serde_utils.rs core/src/input_reader/guest_input_reader.rs core/src/lib.rs core/src/state_patch.rs core/src/config.rs",
  [("custom field codecs", "core/src/serde_utils.rs")],
  [], ["bincode round trip of GuestInput"])
p("C16", "The public journal has the fixed ABI layout and decodes back exactly",
  "The journal is the ABI encoding of pre-state, post-state and finalized slot, each state being justified epoch, justified root, finalized epoch, finalized root in 32-byte words, so that a contract can read each field at its fixed offset. Decoding an encoded state returns the same state and consumes its fixed size, and decoding bytes that do not form a valid state yields an error instead of a state or a crash.",
  "inputs", "all states, slots and arbitrary byte strings",
  "No test checks the layout against an independent encoder, nor invalid input",
  "core/src/abi.rs core/src/consensus_state.rs",
  [("ABI struct definitions and conversions", "core/src/abi.rs"), ("state codec", "core/src/consensus_state.rs abi_encode/abi_decode")],
  [], ["Journal::encode", "ConsensusState::abi_encode", "ConsensusState::abi_decode"])
p("C17", "Proof positions used by the guest are those of the real SSZ containers",
  "Each generalized index the guest relies on for block, state and validator fields equals the position of that field in the SSZ layout of every supported fork's containers, for every validator index the registry can hold. Regenerating them yields the committed ones.",
  "inputs configurations", "all fields, both supported state layouts, all validator indices up to the registry limit",
  "They are generated constants no test compares with a layout",
  "core/src/guest_gindices.rs host/src/bin/gen_gindices.rs host/src/beacon_state.rs",
  [("generated constants", "core/src/guest_gindices.rs"), ("generator", "host/src/bin/gen_gindices.rs")],
  [], ["honest proofs at spec positions accepted by the guest", "generator output"])
p("C18", "No two accepted steps conflict unless enough stake equivocated",
  "Whatever a prover supplies, a guest input is accepted only if each link it applies was really signed by unslashed validators, active at the link's target according to the trusted state, that hold the configured share of the active stake (less at most what twice the churn limits let unproven exits remove). Two steps accepted from the same trusted state therefore finalize conflicting checkpoints only if stake of at least the overlap of the two thresholds signed both branches.",
  "inputs histories configurations", "all sets of signed votes over competing branches and everything a prover can choose besides: claimed links, aggregates, bits, patches, proofs, keys, starting point",
  "The documentation argues it on paper; tests present only honest inputs of one branch",
  "core/src/verify.rs core/src/input_reader/guest_input_reader.rs core/src/consensus_state.rs core/src/attestation.rs docs/src/01_consensus_algorithm.md docs/src/02_balance_drift.md",
  [("authentication of the input", "core/src/input_reader/guest_input_reader.rs into_reader, validate_state_patches"), ("counting and links", "core/src/verify.rs verify")],
  [], ["GuestInput::into_reader", "verify"])

# ---------------------------------------------------------------- host
p("H01", "The host finds the state confirming the checkpoint and the right links",
  "Given a checkpoint the chain finalized, the host selects the first consensus state in which it is finalized as start state and the attestations it collects are grouped by exactly the justification links leading from there to the next finalization, in order. A checkpoint that the chain skipped or never finalized, an unsupported 2-finality step, or a block of an unsupported version is reported as an error.",
  "inputs histories fault_sequences", "all chain histories of justifications and finalizations, missed blocks and failing queries",
  "Integration tests need a full client and cover a few justification patterns",
  "host/src/input_reader/host_input_reader.rs",
  [("search for confirming state", "host/src/input_reader/host_input_reader.rs find_finalization_epoch"), ("link walk", "get_justifications_until_new_finality")],
  [], ["HostInputReader::new", "InputReader::attestations", "InputReader::consensus_state"])
p("H02", "No eligible attestation on the canonical chain is lost by collection",
  "Every attestation for one of the required links that is included in any canonical block allowed to carry it, up to the end of the epoch after its target, is handed to verification exactly as often as it was included and unaltered; none for other links is. Hence a link whose included attestations reach the threshold never fails for lack of collected ones.",
  "inputs histories", "all placements of attestations over blocks, missed slots and late inclusions",
  "Simulated chains include attestations promptly; late inclusion is never sampled",
  "host/src/input_reader/host_input_reader.rs host/src/conversions.rs",
  [("block range and grouping", "host/src/input_reader/host_input_reader.rs collect_attestations_for_links")],
  [], ["InputReader::attestations"])
p("H03", "Whatever the host verifies on an honest chain, the guest verifies identically",
  "For any honest chain history whose finalization is supported, the input produced by a successful host preflight deserializes, authenticates and verifies in the guest, and guest and host return the same consensus state and finalized slot. That state is the one the chain itself reached. (Effective balances and slashings after the trusted state are unknown to the guest; where they alone decide a threshold, it may refuse.)",
  "inputs histories configurations", "all honest histories: validator lifecycles, skipped slots and epochs, exits, activations, slashings, both state versions",
  "Each integration test is one scripted chain and needs unavailable dependencies",
  "host/src/input_reader/preflight_input_reader.rs host/src/state_patch_builder.rs core/src/input_reader/guest_input_reader.rs core/src/verify.rs",
  [("recording preflight", "host/src/input_reader/preflight_input_reader.rs"), ("patch diff", "host/src/state_patch_builder.rs")],
  [], ["verify over host, preflight and guest readers"])
p("H04", "Preflight is transparent and its patches are exactly the differences",
  "Reading through the preflight recorder returns what the underlying reader returns, and the input it produces contains, for each epoch read, precisely the RANDAO values read and, for each epoch after the trusted one whose validators were read, precisely the validators whose exit epoch differs from the trusted state, with their values at that epoch, and slot proofs for precisely the blocks whose slot was read.",
  "inputs histories", "all read sequences over all chain states",
  "No test inspects the recorded patches",
  "host/src/input_reader/preflight_input_reader.rs host/src/state_patch_builder.rs",
  [("read recording", "host/src/input_reader/preflight_input_reader.rs"), ("diff", "host/src/state_patch_builder.rs")],
  [], ["PreflightInputReader::to_input"])
p("H05", "State providers return the state of the requested slot, unaltered",
  "A provider returns for a slot the state of that slot or an error, and a caching or persisting provider returns the same state as its source, asks the source at most once per slot, and never caches failures. A stored state is never overwritten, and clearing before an epoch removes exactly the stored states of earlier slots and nothing else in the directory.",
  "inputs histories", "all interleavings of lookups, saves and clears, with failing sources and foreign files present",
  "No provider test exists",
  "host/src/state_provider/cache_provider.rs host/src/state_provider/file_provider.rs host/src/state_provider/persistant_api_provider.rs",
  [("cache", "host/src/state_provider/cache_provider.rs"), ("files", "host/src/state_provider/file_provider.rs")],
  [], ["StateProvider::state_at_slot", "FileProvider::save_state", "FileProvider::clear_states_before"])
p("H06", "An interrupted save never leaves a broken state behind",
  "If saving a state to disk fails or is cut off at any point, later lookups of that slot either find no stored state or the complete one, so the state can be fetched and stored again. A partial file never makes the slot permanently unreadable or yields a different state.",
  "crash_points fault_sequences", "every byte offset at which a write can stop, for failure and for process death",
  "No fault is ever injected",
  "host/src/state_provider/file_provider.rs host/src/state_provider/persistant_api_provider.rs",
  [("state file write", "host/src/state_provider/file_provider.rs save_state")],
  [], ["FileProvider::save_state", "StateProvider::state_at_slot"])
p("H07", "A checkpoint resolves only to the state its block root commits to",
  "Resolving a checkpoint returns the state of its epoch-boundary block, also when the first slots of the epoch were empty, and only if the block whose header the state records, completed with the state's root, hashes to the checkpoint root; otherwise it is reported as an invalid checkpoint.",
  "inputs histories", "all patterns of skipped slots at epoch boundaries and all wrong roots",
  "No provider test exists",
  "host/src/state_provider.rs",
  [("boundary search and root check", "host/src/state_provider.rs state_at_epoch_boundary, state_at_checkpoint")],
  [], ["StateProvider::state_at_checkpoint", "StateProvider::state_at_epoch_boundary"])
p("H08", "Beacon API answers are interpreted faithfully",
  "A missing block or header is reported as absent, any other failing status or malformed answer as an error and never as absence or data, and finality checkpoints, headers and blocks are returned with exactly the served values. A state whose declared version does not match the version of its data is refused.",
  "inputs fault_sequences", "all status codes, bodies, versions and identifiers",
  "No client test exists",
  "host/src/beacon_client.rs",
  [("status mapping", "host/src/beacon_client.rs get_block_header, get_block"), ("version check", "host/src/beacon_client.rs get_beacon_state")],
  [], ["BeaconClient and its ChainReader view"])
p("H09", "Cross-checking readers notices every divergence it is meant to notice",
  "The asserting reader behaves like its first reader as long as both agree, and stops with a failure as soon as the two differ in chain spec, genesis root, fork, randao value, attestations, consensus state, block slot, or in the set, order or identity of active validators. Differences only in effective balance or exit epoch are tolerated.",
  "inputs", "all pairs of readers differing in one or several answers",
  "It is only ever used with agreeing readers",
  "host/src/input_reader/assert_input_reader.rs",
  [("pairwise comparison", "host/src/input_reader/assert_input_reader.rs")],
  [], ["AssertInputReader"])
p("H10", "Beacon states keep their fork, content and root through decoding",
  "Decoding an SSZ- or JSON-encoded beacon state of any supported fork yields a state of that fork with the same content and hash tree root, encoding it again gives the same bytes, and field accessors return the fields of the wrapped state. Undecodable bytes are an error.",
  "inputs", "states of all forks with arbitrary field content, and corrupted encodings",
  "No codec test exists",
  "host/src/beacon_state.rs",
  [("transparent enum over forks", "host/src/beacon_state.rs")],
  [], ["ssz_rs serialize/deserialize of BeaconState", "serde_json round trip"])

p("H11", "The client keeps to its request rate and asks once for what it keeps",
  "A client built with a limit of r > 0 requests per second sends, together with all its clones and however many of their calls are under way at once, at most r*T + r requests in any period of T seconds, whatever the node answers; every call sends exactly one request, none waits much longer than the limit requires, and the last limit set counts, zero meaning none. A client built with a cache directory sends no request for a resource whose successful answer it has received before, also when built anew on the same directory: it gives that answer again, unchanged, and without waiting for the limit or using it up. Other answers are not kept: the next call asks again.",
  "schedules histories", "all limits, numbers of clones and concurrent calls, arrival patterns, answers, orders of resources and reopened clients",
  "No test runs a client, let alone measures its requests",
  "host/src/beacon_client.rs host/src/bin/zkasper_cli.rs",
  [("rate limit middleware", "host/src/beacon_client.rs RateLimitMiddleware"), ("forced cache", "host/src/beacon_client.rs with_cache")],
  [], ["BeaconClientBuilder", "requests as the node sees them"])
p("H12", "Lookups of one state store at the same time do not disturb each other",
  "Any number of lookups may be under way at once on one state directory, through clones of a provider, providers of their own or other processes, for the same slots or for different ones, while older states are being cleared. Each of them gives the state of its slot, unless the node failed to answer a request of its own. Afterwards the directory holds each state that was found exactly once and whole, and nothing else, and no later lookup asks the node for any of them.",
  "schedules", "all numbers of participants and interleavings of lookups, saves and clearing, answers of the node, earlier contents of the directory",
  "No test looks up a state, let alone two at a time",
  "host/src/state_provider/persistant_api_provider.rs host/src/state_provider/file_provider.rs host/src/state_provider/cache_provider.rs",
  [("fetch and save", "host/src/state_provider/persistant_api_provider.rs state_at_slot"), ("save_state, clear_states_before", "host/src/state_provider/file_provider.rs")],
  [], ["StateProvider::state_at_slot results", "files in the state directory", "requests as the node sees them"])

# ---------------------------------------------------------------- whole program
p("G01", "The guest publishes a journal exactly when verification succeeded",
  "Running the guest program on an input frame publishes exactly one journal if and only if the input authenticates and verifies, and that journal encodes the input's starting state, the verified resulting state and the finalized slot. On any invalid, truncated or tampered frame nothing is published and execution aborts.",
  "inputs", "all input frames, honest and hostile, for every network configuration",
  "Guest execution needs the zkVM; no test feeds it a bad frame",
  "methods/guest/src/lib.rs methods/guest/src/bin/mainnet.rs methods/guest/src/bin/sepolia.rs core/src/abi.rs",
  [("guest entry", "methods/guest/src/lib.rs entry")],
  [], ["guest environment: frames read, bytes committed"])
p("G02", "Each network runs with its own chain specification and thresholds",
  "The mainnet and sepolia programs use their own network's fork schedule, genesis fork version and preset, agreeing with the published network configuration file, and require 85% (mainnet) and 70% (sepolia) participation, forks from Electra to Fulu and at most four epochs of lookahead, on host and guest alike. Mixing up networks never verifies.",
  "configurations", "both networks, host and guest side, all configuration values used in verification",
  "Two smoke tests check only the configuration name",
  "chainspec/src/lib.rs chainspec/configs/mainnet.yaml chainspec/configs/sepolia.yaml core/src/config.rs methods/guest/src/bin/mainnet.rs methods/guest/src/bin/sepolia.rs host/src/bin/zkasper_cli.rs",
  [("embedded configs", "chainspec/src/lib.rs"), ("verification configs", "core/src/config.rs"), ("network dispatch", "host/src/bin/zkasper_cli.rs config_for")],
  [], ["chain specs", "guest binaries", "command line tool"])
p("G03", "The command line tool writes matching inputs and journals that chain up",
  "For each finalized epoch the tool handles, it writes an input file that is one length-prefixed frame and a journal file such that running the network's guest on the input publishes exactly that journal. In continuous mode each next run starts from the checkpoint finalized by the previous one, so consecutive journals chain without gap, and it waits rather than fails while the chain has not progressed.",
  "histories inputs", "all chain histories, starting epochs and polling situations",
  "The tool has no tests",
  "host/src/bin/zkasper_cli.rs",
  [("input building loop", "host/src/bin/zkasper_cli.rs main, prepare_input, encode_input_stdin")],
  [], ["files written by build-input", "guest journal"])
p("G04", "The tool reports a step as verified only if host and guest both verified it",
  "`verify` from a trusted epoch ends successfully exactly when the step from that checkpoint verifies under the network's rules in the chosen mode: natively, after serialization, or in the guest. In the guest mode this includes that the guest program ran to its end and published the very starting and resulting consensus states the host found; a guest that fails, or publishes any other state, makes it fail. `sync` starts from the state the node reports for the start slot and goes through the chain's finalizations one after another, each step starting at the state in which the one before it ended, and logs one line per step that names both states and says Ok only for a step that was verified.",
  "histories inputs", "all chain histories, starting points, modes and guest outcomes",
  "The tool has no tests, and in tests the guest always does what the host expects",
  "host/src/bin/zkasper_cli.rs",
  [("verify and sync", "host/src/bin/zkasper_cli.rs run_verify, run_sync"), ("journal comparison", "host/src/lib.rs / host/src/bin/zkasper_cli.rs")],
  [], ["exit status of verify", "log written by sync", "published journal"])
p("G05", "Runs of the tool share a data directory, a limit and a disk properly",
  "Several runs of the command line tool, for both networks, for the same epochs or others, at the same time or one after another, may use one data directory: each succeeds and writes what it would have written alone. Everything is stored below the network's own directory: each state asked for once and whole, inputs and journals under their epoch; a run over states that are stored asks the node for none of them. With --rps r > 0, all requests of a run together keep to r per second after a first burst of r. A run that cannot write its files fails, and the same run succeeds once it can.",
  "schedules configurations faults", "all combinations and interleavings of runs, networks, starting epochs, limits, earlier contents of the directory, failing writes",
  "The tool has no tests",
  "host/src/bin/zkasper_cli.rs host/src/state_provider/persistant_api_provider.rs host/src/beacon_client.rs",
  [("directories, client and provider", "host/src/bin/zkasper_cli.rs main"), ("stored states", "host/src/state_provider/file_provider.rs")],
  [], ["exit status and files of concurrent runs", "requests as the node sees them"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
            f.write(json.dumps(q, ensure_ascii=False) + "\n")
    print(len(P), "properties")
