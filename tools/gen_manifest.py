#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the table of claimed checks below"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "runtime monitoring: "
CLAIMED = {
    "S01": (T + "offline oracle (fully known Merkle trees) over every claim exposed by accepted hostile proofs",
            "Held on the proofs generated: honest, mutated, deeper than the index type, arbitrary. Trusts SHA-256 collision resistance and the monitor's tree model; built without overflow checks as the guest is."),
    "S02": (T + "independent root recomputation as oracle over exhaustively enumerated small shapes, bit flips and random large shapes",
            "All shapes up to 12 bits (quick) exhaustively, larger ones sampled; crashing on malformed shapes counts as rejection, as in the guest."),
    "S03": (T + "trace oracle: iteration, lookup and checked-read sequences against a reference enumeration",
            "Sampled proofs of depth up to 63 and random read sequences."),
    "S04": (T + "round-trip, borrow-address and truncation monitors over two wire formats",
            "Sampled proofs; every truncation point of small encodings."),
    "S05": (T + "reference proof (which nodes, in which order, with which content) computed from fully known trees against every built proof",
            "Sampled containers and position sets, one large set per run that is collected in parallel. The container library ssz_rs is a stand-in."),
    "S06": (T + "byte comparison of repeated builds over registration orders, forms, thread-pool sizes and concurrent builds",
            "Sampled; schedules are those the thread pool produces on 1 to 8 threads."),
    "S07": (T + "outcome monitor (error, never a panic or a proof) over requests outside the admissible ones",
            "Sampled; that a missing position is an error is decided by the stand-in of ssz_rs and the builder together."),
    "C01": (T + "reference finality machine over every state and link of small universes and random large ones",
            "Exhaustive over all valid states and links on few epochs and roots, sampled beyond."),
    "C02": (T + "round-trip monitor over the same universes",
            "The all-zero genesis checkpoint, whose inverse is ambiguous, is excluded."),
    "C03": (T + "reference chain-of-links verdict against real verification of generated link sequences (reordered, broken, continued, unfinished)",
            "Sampled chains and alterations; signatures are ideal (a group stand-in)."),
    "C04": (T + "specification's stake accounting as oracle for verification, participation pushed to either side of each threshold",
            "Thresholds probed to the last increment; sampled registries."),
    "C05": (T + "reference verdict over signatures by other keys, messages, domains, forks and networks",
            "Ideal signatures (a group stand-in in which forging is impossible by construction)."),
    "C06": (T + "specification's per-index shuffling as oracle for the committee cache, seeds, and seats probed through verification",
            "The cache is compiled from the tree's own file; validator sets up to 1500, all seats of sampled epochs."),
    "C07": (T + "independent bit-to-member mapping as oracle over malformed, shifted, overlapping and foreign aggregates",
            "Sampled committees and alterations of both presets."),
    "C08": (T + "reference verdict over fork schedules, version windows and lookahead limits around each boundary",
            "Sampled schedules."),
    "C09": (T + "fully known block, state and registry trees: honest and altered inputs against what an honest node knows",
            "Sampled alterations of proofs, keys, roots and links between them. SHA-256 collision resistance is trusted."),
    "C10": (T + "fully known registry trees: omitted, duplicated, cut or mislabelled validators",
            "Sampled registries and alterations."),
    "C11": (T + "registry updates recomputed epoch by epoch from the specification against the reader's active sets",
            "Sampled registries, skipped boundary slots and gaps."),
    "C12": (T + "independent accounting of patched exits (u128, per exit epoch) against acceptance",
            "Sampled patch maps, many at the exact boundary of each rule."),
    "C13": (T + "reference active sets and mixes against the patched reader, every validator, epoch and index queried",
            "Sampled patch maps."),
    "C14": (T + "reference block trees against reported slots, altered and foreign proofs", "Sampled proofs."),
    "C15": (T + "round-trip, truncation and substitution monitors over guest inputs", "Sampled inputs; all truncations of small ones."),
    "C16": (T + "independent ABI words and error classes against encode and decode", "Sampled and boundary words."),
    "H01": (T + "walk recomputed from a simulated chain (every finalized, skipped, unknown checkpoint) against the reader; failing queries injected",
            "Simulated chains of up to ten epochs with gaps, late and missing votes; the beacon node and ethereum-consensus are stand-ins."),
    "H02": (T + "conservation oracle: attestations included by the simulated chain against those collected, and verdict of verification against the chain's own support",
            "Simulated chains; inclusions spread up to the last permitted slot."),
    "H03": (T + "differential monitor: chain, host preflight and guest verdicts over simulated eventful chains",
            "Simulated chains with exits, consolidations, slashings, deposits, activations, skipped slots and epochs; one recorded finding (two links from a skipped boundary)."),
    "H04": (T + "recorded reads compared with the chain's states, and the produced patches and slot proofs with the recorded reads",
            "Sampled read sequences over simulated chains."),
    "H05": (T + "model of each store compared with every answer and with the directory's content after random lookups, saves, clears, failing sources and foreign files",
            "Sampled operation sequences; the HTTP client is a stand-in that talks to a scripted server over the loopback network."),
    "H06": (T + "fault injection: the file operations of the process are intercepted and saves fail or die at every operation and sampled byte offsets, also with power loss",
            "Sampled offsets (all boundaries); a crash is modelled as the directory's content at that moment, and as loss of what was not synchronized."),
    "H07": (T + "states with known boundary blocks, skipped first slots, and wrong roots against the resolved state",
            "Sampled patterns of empty slots, roots and forks, all providers."),
    "H08": (T + "scripted beacon node: every status class, spoiled, cut and foreign answers, mislabelled states, concurrent and cached requests against the served values",
            "Sampled answers over the loopback network; HTTP client, its middleware and the containers are stand-ins."),
    "H09": (T + "pairs of table readers with known differences, every query through the asserting reader, and whole verifications",
            "Sampled tables, differences and query orders."),
    "H10": (T + "independent SSZ, JSON and tree-root model of all seven forks' states against decoding, encoding, root and accessors; corrupted encodings",
            "Sampled contents; the container library is a stand-in, the fork dispatch is the repository's."),
    "H11": (T + "timed log of the requests a scripted node receives from limited, unlimited and caching clients, their clones and concurrent calls",
            "Sampled limits, bursts, silences and answers in real time; limiter, cache and HTTP client are stand-ins with the real ones' interfaces and semantics."),
    "H12": (T + "many lookups at once through clones, own providers and clearing on one directory against a slow, at times failing node; results, files and requests against the calls' log",
            "Sampled rounds of two to eight participants with random delays; interleavings are those the machine produces; the HTTP client is a stand-in."),
    "C17": (T + "every committed and regenerated index function evaluated against the positions of independently written container layouts; authentic states of both forks read through proofs at the constants",
            "All fields; validator indices sampled and at the edges of the registry limit; the generator runs on stand-ins for its SSZ libraries."),
    "C18": (T + "an adversarial game: the monitor keeps the books of who signed which link on two branches, a prover tries everything else, and each accepted step is held against the books",
            "Sampled registries, votes just below or at the threshold, and twenty-one kinds of cheating, alone and combined; signatures are ideal (a group stand-in)."),
    "G01": (T + "guest programs as processes fed honest, cut, mis-framed, altered and incomplete input streams; published bytes against the consensus rules and an independent ABI encoding",
            "Sampled inputs; the zkVM is a process whose panic discards its journal; an altered encoding's validity is asked of the library."),
    "G02": (T + "every value of both chain specifications and rules; guest programs at participation and lookahead limits and around the forks, on other schedules and the other network's inputs; the tool on either network's chain",
            "The published configurations are written down by hand; thresholds at one validator in a hundred."),
    "G03": (T + "the command line tool as a process on simulated chains over HTTP: single, repeated, continuous, interrupted and failing runs; files against the chain's walk and the guest's journal",
            "Sampled chains of 7 to 9 epochs and up to 60 validators; the zkVM is a stand-in."),
    "G04": (T + "verify and sync as processes on simulated chains over HTTP in every mode, with guests that fail or publish other states; exit status and log against the chain's walk",
            "Sampled chains, starts and ways in which the guest goes wrong; the zkVM is a stand-in through which the journal is spoiled."),
    "G05": (T + "several processes of the tool at once on one data directory for both networks, limited runs with timed requests, runs onto a full disk; files, exit status and requests against the chains' walks",
            "Sampled sets of four to seven runs on two chains; interleavings are those the machine produces."),
}
PENDING = "machinery for this property is still being built"


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CLAIMED:
            t, n = CLAIMED[i]
            checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                           "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
        else:
            na.append({"property": i, "reason": NA.get(i, PENDING)})
    m = {"version": 1, "setup_cmd": "python3 tools/run.py --setup", "checks": checks, "not_applicable": na,
         "notes": "VERIF_TIER selects the depth, VERIF_SEED all random choices; see DESIGN.md"}
    if not na:
        m.pop("not_applicable")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


NA = {}
if __name__ == "__main__":
    main()
