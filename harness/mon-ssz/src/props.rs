use crate::model::*;
use serde_json::json;
use ssz_multiproofs::{Error, Multiproof};
use std::collections::HashMap;
use support::{observe, Monitor, Outcome, Rng};

fn flip(raw: &mut Raw, rng: &mut Rng) {
    match rng.below(9) {
        0 if !raw.data.is_empty() => {
            let i = rng.idx(raw.data.len());
            raw.data[i] ^= 1 << rng.below(8);
        }
        1 if !raw.desc.is_empty() => {
            let i = rng.idx(raw.desc.len());
            raw.desc[i] = !raw.desc[i];
        }
        2 => {
            let i = rng.idx(raw.desc.len() + 1);
            raw.desc.insert(i, rng.bool());
        }
        3 if !raw.desc.is_empty() => {
            let i = rng.idx(raw.desc.len());
            raw.desc.remove(i);
        }
        4 if !raw.mask.is_empty() => {
            let i = rng.idx(raw.mask.len());
            raw.mask[i] = !raw.mask[i];
        }
        5 => {
            let n = rng.urange(0, raw.mask.len() + 3);
            raw.mask.resize(n, true);
        }
        6 => {
            let n = rng.urange(0, raw.data.len() + 40);
            raw.data.resize(n, 0xCC);
        }
        7 if raw.desc.len() > 1 => {
            let (i, j) = (rng.idx(raw.desc.len()), rng.idx(raw.desc.len()));
            raw.desc.swap(i, j);
        }
        8 if raw.data.len() >= 64 => {
            let n = raw.data.len() / 32;
            let (i, j) = (rng.idx(n), rng.idx(n));
            for k in 0..32 {
                raw.data.swap(32 * i + k, 32 * j + k);
            }
        }
        _ => raw.hint = rng.idx(2000),
    }
}

fn junk(rng: &mut Rng, max_bits: usize) -> Raw {
    let n = rng.urange(0, max_bits);
    let p = *rng.pick(&[20u64, 40, 50, 55, 70]);
    let desc: Vec<bool> = (0..n).map(|_| rng.chance(p, 100)).collect();
    let ones = desc.iter().filter(|b| **b).count();
    let k = if rng.chance(4, 5) { ones * 32 } else { rng.urange(0, ones * 32 + 64) };
    Raw {
        data: rng.bytes(k),
        mask: (0..rng.urange(0, ones + 3)).map(|_| rng.chance(3, 4)).collect(),
        desc,
        hint: rng.idx(500),
        desc_head: if rng.chance(1, 3) { rng.below(32) as u8 } else { 0 },
        mask_head: if rng.chance(1, 3) { rng.below(32) as u8 } else { 0 },
    }
}

/// A random complete shape with `inner` inner nodes.
fn complete_shape(rng: &mut Rng, inner: usize, lean: u64) -> Vec<bool> {
    let mut desc = vec![];
    let mut pending = 1usize;
    let mut left = inner;
    while pending > 0 {
        if left > 0 && (pending == 1 || rng.chance(lean, 100)) {
            desc.push(false);
            left -= 1;
            pending += 1;
        } else {
            desc.push(true);
            pending -= 1;
        }
    }
    desc
}

/// A well-formed proof with a number of leaves in the given range.
fn wide(rng: &mut Rng, lo: usize, hi: usize) -> Raw {
    let n = rng.urange(lo, hi);
    let desc = bounded_shape(rng, n, 63, 0);
    Raw { data: rng.bytes(32 * n), mask: (0..n).map(|_| rng.bool()).collect(), hint: 65, desc, ..Default::default() }
}

fn dirs_for(rng: &mut Rng, depth: usize) -> Vec<bool> {
    match rng.below(4) {
        0 => vec![false; depth],
        1 => vec![true; depth],
        2 => {
            // the last 64 turns spell a small index the consumer might ask for
            let want = *rng.pick(&[1u64, 2, 3, 8, 11, 65, 66, 75, 95, 168, 269, 1 << 20, (1u64 << 41) * 16 + 3]);
            let mut d: Vec<bool> = (0..depth).map(|_| rng.bool()).collect();
            for i in 0..64.min(depth) {
                d[depth - 1 - i] = (want >> i) & 1 == 1;
            }
            d
        }
        _ => (0..depth).map(|_| rng.bool()).collect(),
    }
}

fn codec(rng: &mut Rng) -> Codec {
    if rng.bool() { Codec::Bincode } else { Codec::Postcard }
}

/// Decode and hand to `f`; a proof that cannot be decoded was rejected.
fn with<T>(raw: &Raw, c: Codec, f: impl FnOnce(&Multiproof) -> T) -> Option<T> {
    let bytes = raw.encode(c);
    match decode(&bytes, c) {
        Outcome::Ret(Ok(m)) => Some(f(&m)),
        _ => None,
    }
}

// ------------------------------------------------------------------------------------------- S01
fn s01_one(mon: &mut Monitor, kind: &str, raw: &Raw, root: Option<Hash>, truth: &dyn Fn(u64) -> Option<Hash>, probes: &[u64], c: Codec) {
    let r = with(raw, c, |m| {
        let root = match root {
            Some(r) => r,
            // whatever root the implementation assigns to this proof
            None => match observe(|| m.calculate_root()) {
                Outcome::Ret(Ok(r)) => r,
                _ => return None,
            },
        };
        if see(m, &root).verify != Outcome::Ret(Ok(())) {
            return None;
        }
        let (vals, panicked) = exposed(m);
        let mut seen: Vec<(&str, u64, Hash)> = vals.iter().map(|(g, v)| ("values", *g, *v)).collect();
        for g in probes.iter().copied().chain(vals.iter().map(|v| v.0).take(8)) {
            if let Outcome::Ret(Some(v)) = observe(|| m.get(g).copied()) {
                seen.push(("get", g, v));
            }
            // the accessor the guest uses: first value, by requested index
            if let Outcome::Ret(Some(v)) = observe(|| m.values().next_assert_gindex(g).ok().copied()) {
                seen.push(("next_assert_gindex", g, v));
            }
        }
        for (g, v) in exposed_nodes(m).0 {
            seen.push(("nodes", g, v));
        }
        Some((root, seen, panicked))
    });
    mon.event(&format!("proofs_{kind}"));
    match r {
        Some(Some((root, seen, panicked))) => {
            mon.event(&format!("accepted_{kind}"));
            if panicked {
                mon.event("accepted_but_values_refused");
            }
            mon.case(raw, seen.len() > 1);
            mon.events_n("claims_checked", seen.len() as u64);
            for (how, g, v) in &seen {
                let t = truth(*g);
                if t != Some(*v) {
                    mon.violate(
                        &format!("false-claim-{kind}"),
                        &format!("a proof accepted for root {} exposes through {how} a value at index {g} that is not the tree's node there", support::hex(&root)),
                        json!({"proof": raw.json(), "codec": format!("{c:?}"), "root": support::hex(&root), "gindex": g, "claimed": support::hex(v), "actual": t.map(|t| support::hex(&t))}),
                    );
                    return;
                }
            }
        }
        _ => {
            mon.event(&format!("rejected_{kind}"));
            mon.case(raw, false);
        }
    }
}

fn parse_truth(raw: &Raw) -> HashMap<u64, Hash> {
    let mut m = HashMap::new();
    if let Some(p) = parse(raw) {
        m.insert(1, p.root);
        for (path, h) in &p.leaves {
            if let Some(g) = gindex(path) {
                m.insert(g, *h);
            }
        }
    }
    m
}

pub fn s01() -> i32 {
    let mut mon = Monitor::new(
        "S01", 25, 600,
        "proofs (honest frontiers of random trees, paths deeper than the index type, mutated and random ones) decoded through both wire formats; non-trivial: accepted and exposing at least two claims. Every exposed (index, value) is compared with the full tree the monitor knows",
    );
    mon.assume("SHA-256 is collision resistant: a node the monitor does not know is not in the tree");
    let mut rng = mon.rng("s01");
    let probes = [0u64, 1, 2, 3, 8, 11, 65, 66, 75, 95, 97, 168, 268, u64::MAX, 1 << 63];

    // honest and mutated proofs of fully known trees
    let mut i = 0;
    while mon.go(i, 1500, 60_000, 0.35) {
        i += 1;
        let depth = rng.urange(1, 9);
        let t = Tree::random(&mut rng, depth, 1, 8);
        let cut = rng.below(60);
        let mut raw = t.random_proof(&mut rng, cut, 60);
        let c = codec(&mut rng);
        s01_one(&mut mon, "honest", &raw, Some(t.hash()), &|g| t.at(g), &probes, c);
        if mon.wants_sample() && raw.desc.len() > 3 && raw.desc.len() < 30 {
            mon.sample(|| json!({"kind": "honest", "proof": raw.json()}));
        }
        for _ in 0..rng.urange(1, 3) {
            flip(&mut raw, &mut rng);
        }
        s01_one(&mut mon, "mutated", &raw, Some(t.hash()), &|g| t.at(g), &probes, c);
        let truth = parse_truth(&raw);
        s01_one(&mut mon, "mutated_own_root", &raw, None, &|g| truth.get(&g).copied(), &probes, c);
    }

    // deep paths: an attacker controls the content below some 32-byte leaf and opens it
    let mut i = 0;
    while mon.go(i, 1200, 60_000, 0.75) {
        i += 1;
        let depth = match rng.below(4) {
            0 => rng.urange(55, 64),
            1 => rng.urange(62, 68),
            2 => rng.urange(64, 140),
            _ => rng.urange(100, 300),
        };
        let dirs = dirs_for(&mut rng, depth);
        let end = if rng.chance(1, 4) { Tree::random(&mut rng, 3, 1, 4) } else { Tree::Leaf(rng.bytes32()) };
        let t = Tree::spine(&mut rng, &dirs, end);
        let raw = if rng.bool() {
            t.path_proof(&dirs)
        } else {
            let pct = *rng.pick(&[5u64, 50, 100]);
            t.random_proof(&mut rng, 0, pct)
        };
        let c = codec(&mut rng);
        let kind = if depth <= 63 { "deep_le63" } else { "deep_gt63" };
        s01_one(&mut mon, kind, &raw, Some(t.hash()), &|g| t.at(g), &probes, c);
        // grafted below a leaf of an ordinary tree, as in user-controlled block content
        if rng.chance(1, 3) {
            let mut base = Tree::random(&mut rng, 5, 0, 1);
            let at: Vec<bool> = (0..5).map(|_| rng.bool()).collect();
            base = base.replace(&at, t.clone());
            let full: Vec<bool> = at.iter().chain(dirs.iter()).copied().collect();
            let raw = base.path_proof(&full);
            s01_one(&mut mon, "grafted", &raw, Some(base.hash()), &|g| base.at(g), &probes, c);
        }
    }

    // arbitrary shapes, roots as the implementation itself assigns them
    let mut i = 0;
    while mon.go(i, 3000, 400_000, 1.0) {
        i += 1;
        let raw = if rng.bool() {
            junk(&mut rng, 60)
        } else {
            let n = rng.urange(0, 40);
            let lean = rng.range(20, 95);
            let mut r = junk(&mut rng, 4);
            r.desc = complete_shape(&mut rng, n, lean);
            let l = n + 1;
            r.data = rng.bytes(32 * l);
            r.mask = (0..l).map(|_| rng.bool()).collect();
            if rng.chance(1, 3) {
                let k = rng.urange(1, 3);
                let extra = rng.bool();
                r.desc.extend(std::iter::repeat_n(extra, k));
                r.data.extend(rng.bytes(32 * k));
            }
            r
        };
        let truth = parse_truth(&raw);
        let c = codec(&mut rng);
        s01_one(&mut mon, "arbitrary", &raw, None, &|g| truth.get(&g).copied(), &probes, c);
    }
    // wide and large proofs, up to beyond 2^16 nodes
    let mut i = 0;
    while mon.go(i, 6, 400, 1.0) {
        i += 1;
        let max = [70_000, 90_000, 700, 300, 140_000, 66_000][i as usize % 6];
        let raw = if max > 65_536 && i % 2 == 1 { wide(&mut rng, 65_530, max) } else { wellformed(&mut rng, max) };
        let truth = parse_truth(&raw);
        let some: Vec<u64> = truth.keys().copied().take(3).chain([1, 2, 3]).collect();
        let c = codec(&mut rng);
        s01_one(&mut mon, "large", &raw, None, &|g| truth.get(&g).copied(), &some, c);
    }
    // small proofs with repeated contents, exhaustively probed
    let mut i = 0;
    while mon.go(i, 500, 60_000, 1.0) {
        i += 1;
        let raw = wellformed(&mut rng, 24);
        let truth = parse_truth(&raw);
        let all: Vec<u64> = truth.keys().flat_map(|g| [*g, g / 2, g ^ 1]).collect();
        let c = codec(&mut rng);
        s01_one(&mut mon, "palette", &raw, None, &|g| truth.get(&g).copied(), &all, c);
    }
    mon.require("accepted_large", 5);
    mon.require("accepted_palette", 400);
    mon.require("accepted_honest", 1000);
    mon.require("accepted_deep_le63", 100);
    mon.require("proofs_deep_gt63", 500);
    mon.require("accepted_arbitrary", 500);
    mon.finish()
}

// ------------------------------------------------------------------------------------------- S02
fn s02_one(mon: &mut Monitor, kind: &str, raw: &Raw, root: &Hash, c: Codec) {
    let parsed = parse(raw);
    let want_root = parsed.as_ref().filter(|p| p.leaves.len() > 1).map(|p| p.root);
    let seen = with(raw, c, |m| see(m, root));
    mon.case(&(raw, root), parsed.is_some());
    mon.event(kind);
    let detail = |seen: &Seen| json!({"proof": raw.json(), "codec": format!("{c:?}"), "against_root": support::hex(root), "expected_root": want_root.map(|r| support::hex(&r)), "verify": format!("{:?}", seen.verify), "calculate_root": format!("{:?}", seen.root)});
    let Some(seen) = seen else {
        mon.event("undecodable");
        if want_root.is_some() && raw.desc_head == 0 && raw.mask_head == 0 {
            mon.violate("wellformed-undecodable", "a well-formed proof could not be decoded", json!({"proof": raw.json()}));
        }
        return;
    };
    let accepted = seen.verify == Outcome::Ret(Ok(()));
    match want_root {
        Some(w) => {
            mon.check(seen.root == Outcome::Ret(Ok(w)), "root", "the calculated root differs from the independent recomputation", || detail(&seen));
            if w == *root {
                mon.event("accepted");
                mon.check(accepted, "honest-rejected", "a well-formed proof of this root was not accepted", || detail(&seen));
            } else {
                mon.event("wellformed_mismatch");
                mon.check(matches!(seen.verify, Outcome::Ret(Err(_))), "mismatch", "a well-formed proof with a different root was not rejected with an error", || detail(&seen));
            }
        }
        None => {
            mon.event("malformed");
            if seen.verify.is_panic() {
                mon.event("malformed_panicked");
            }
            mon.check(!accepted, "malformed-accepted", "a proof whose shape is not one complete tree was accepted", || detail(&seen));
            mon.check(!matches!(seen.root, Outcome::Ret(Ok(_))), "malformed-root", "a root was calculated for a proof whose shape is not one complete tree", || detail(&seen));
        }
    }
}

pub fn s02() -> i32 {
    let mut mon = Monitor::new(
        "S02", 25, 600,
        "every bit string up to a length bound as a shape, random complete shapes of up to thousands of nodes, honest proofs with every single-bit flip of data, shape and root; non-trivial: the shape is a complete tree with data. Outcome compared with an independent recomputation",
    );
    let mut rng = mon.rng("s02");
    // all shapes up to a bound
    let bound = mon.scale(12, 16) as u32;
    for len in 0..=bound {
        for bits in 0..(1u64 << len) {
            if mon.violated() {
                break;
            }
            let desc: Vec<bool> = (0..len).map(|i| (bits >> i) & 1 == 1).collect();
            let ones = desc.iter().filter(|b| **b).count();
            let raw = Raw { data: rng.bytes(32 * ones), mask: vec![true; ones], hint: rng.idx(20), desc, ..Default::default() };
            let p = parse(&raw);
            let root = p.as_ref().map(|p| p.root).unwrap_or_default();
            s02_one(&mut mon, "exhaustive_shapes", &raw, &root, Codec::Bincode);
            if p.is_none() {
                // try to have it accepted for whatever root comes out, and for its first leaf
                let claimed = with(&raw, Codec::Bincode, |m| see(m, &[0; 32]).root);
                if let Some(Outcome::Ret(Ok(r))) = claimed {
                    s02_one(&mut mon, "exhaustive_shapes", &raw, &r, Codec::Bincode);
                }
            }
            if ones > 0 && !mon.violated() && bits % 7 == 0 {
                let first: Hash = raw.data[..32].try_into().unwrap();
                s02_one(&mut mon, "leaf_as_root", &raw, &first, Codec::Bincode);
            }
        }
    }
    // single-bit flips of honest proofs
    let mut i = 0;
    while mon.go(i, 12, 4000, 0.6) {
        i += 1;
        let t = Tree::random(&mut rng, 5, 1, 6);
        let cut = rng.below(50);
        let raw = t.random_proof(&mut rng, cut, 50);
        if raw.desc.len() < 3 {
            continue;
        }
        let c = codec(&mut rng);
        let root = t.hash();
        s02_one(&mut mon, "honest", &raw, &root, c);
        mon.sample(|| json!({"proof": raw.json(), "root": support::hex(&root)}));
        let step = if i < 4 || mon.thorough() { 1 } else { 17 };
        for b in (0..raw.data.len() * 8).step_by(step) {
            let mut r = raw.clone();
            r.data[b / 8] ^= 1 << (b % 8);
            s02_one(&mut mon, "flip_data", &r, &root, c);
        }
        for b in 0..raw.desc.len() {
            let mut r = raw.clone();
            r.desc[b] = !r.desc[b];
            s02_one(&mut mon, "flip_shape", &r, &root, c);
        }
        for b in (0..256).step_by(step) {
            let mut w = root;
            w[b / 8] ^= 1 << (b % 8);
            s02_one(&mut mon, "flip_root", &raw, &w, c);
        }
        // swapped children, swapped leaves, dropped or duplicated leaf data
        for _ in 0..20 {
            let mut r = raw.clone();
            flip(&mut r, &mut rng);
            s02_one(&mut mon, "mutated", &r, &root, c);
        }
    }
    // large and deep shapes, non-zero bit offsets, odd data lengths
    let mut i = 0;
    while mon.go(i, 200, 100_000, 1.0) {
        i += 1;
        let n = match rng.below(5) {
            0 => rng.urange(500, 3000),
            _ => rng.urange(0, 120),
        };
        let lean = rng.range(5, 99);
        let desc = complete_shape(&mut rng, n, lean);
        let mut data = rng.bytes(32 * (n + 1));
        if rng.chance(1, 4) {
            let k = rng.urange(0, 70);
            data.extend(rng.bytes(k));
        } else if rng.chance(1, 6) {
            let k = rng.urange(1, data.len());
            data.truncate(k);
        }
        let raw = Raw { data, mask: vec![], hint: rng.idx(300), desc, desc_head: if rng.chance(1, 3) { rng.below(32) as u8 } else { 0 }, mask_head: 0 };
        let root = parse(&raw).map(|p| p.root).unwrap_or_default();
        let c = codec(&mut rng);
        s02_one(&mut mon, "random_complete", &raw, &root, c);
        s02_one(&mut mon, "random_complete", &raw, &rng.bytes32(), c);
        let j = junk(&mut rng, 80);
        s02_one(&mut mon, "junk", &j, &root, c);
    }
    // repeated contents: equal siblings, zero subtrees, leaves that equal inner nodes
    let mut i = 0;
    while mon.go(i, 1500, 100_000, 1.0) {
        i += 1;
        let mut raw = wellformed(&mut rng, 40);
        let n = raw.mask.len();
        raw.data = palette_data(&mut rng, n);
        let root = parse(&raw).map(|p| p.root).unwrap_or_default();
        let c = codec(&mut rng);
        s02_one(&mut mon, "palette", &raw, &root, c);
        // one leaf exchanged for another of the same palette, against the old root
        let mut r = raw.clone();
        let (a, b) = (rng.idx(n), rng.idx(n));
        r.data.copy_within(32 * a..32 * a + 32, 32 * b);
        s02_one(&mut mon, "palette_swapped", &r, &root, c);
        flip(&mut r, &mut rng);
        s02_one(&mut mon, "palette_mutated", &r, &root, c);
    }
    // more than 2^16 nodes, with bit flips all over
    for k in 0..mon.scale(3, 60) {
        if mon.violated() {
            break;
        }
        let mut raw = wide(&mut rng, 65_530, [66_000, 140_000, 200_000][k as usize % 3]);
        let n = raw.mask.len();
        let root = parse(&raw).unwrap().root;
        s02_one(&mut mon, "large", &raw, &root, Codec::Bincode);
        for at in [0, n - 1, n / 2, 65_535.min(n - 1), 65_536.min(n - 1), rng.idx(n)] {
            let b = rng.idx(256);
            raw.data[32 * at + b / 8] ^= 1 << (b % 8);
            s02_one(&mut mon, "large_flipped", &raw, &root, Codec::Bincode);
            raw.data[32 * at + b / 8] ^= 1 << (b % 8);
        }
        let cut = 32 * n - rng.urange(1, 33);
        raw.data.truncate(cut);
        s02_one(&mut mon, "large_cut", &raw, &root, Codec::Bincode);
    }
    // verification has no memory: the same proof against several roots, other proofs in the same buffer, other threads
    let mut i = 0;
    while mon.go(i, 150, 20_000, 1.0) {
        i += 1;
        let a = wellformed(&mut rng, 30);
        let mut b = a.clone();
        let at = rng.idx(b.data.len());
        b.data[at] ^= 1 << rng.below(8);
        let (ra, rb) = (parse(&a).unwrap().root, parse(&b).unwrap().root);
        let (ea, eb) = (a.encode(Codec::Bincode), b.encode(Codec::Bincode));
        let mut buf = ea.clone();
        let mut trace = vec![];
        for _ in 0..8 {
            let (which, root) = (rng.bool(), *rng.pick(&[ra, rb, [0; 32]]));
            buf.copy_from_slice(if which { &ea } else { &eb });
            let truth = if which { ra } else { rb };
            let Outcome::Ret(Ok(m)) = decode(&buf, Codec::Bincode) else { break };
            for root in [root, truth, root] {
                let got = see(&m, &root).verify;
                trace.push(json!({"first_proof": which, "against": support::hex(&root), "verify": format!("{got:?}")}));
                mon.event("sequenced_verifications");
                if !mon.check(matches!(got, Outcome::Ret(Ok(()))) == (root == truth), "history", "the outcome of a verification depends on earlier ones", || json!({"a": a.json(), "b": b.json(), "trace": trace})) {
                    break;
                }
            }
        }
        if i % 8 == 0 {
            let (Outcome::Ret(Ok(ma)), Outcome::Ret(Ok(mb))) = (decode(&ea, Codec::Bincode), decode(&eb, Codec::Bincode)) else { continue };
            let bad: usize = std::thread::scope(|s| {
                let hs: Vec<_> = (0..4)
                    .map(|k| {
                        let (ma, mb) = (&ma, &mb);
                        s.spawn(move || {
                            (0..25).filter(|j| {
                                let (m, own, other) = if (j + k) % 2 == 0 { (ma, ra, rb) } else { (mb, rb, ra) };
                                see(m, &own).verify != Outcome::Ret(Ok(())) || see(m, &other).verify == Outcome::Ret(Ok(()))
                            }).count()
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or(1)).sum()
            });
            mon.events_n("threaded_verifications", 200);
            mon.check(bad == 0, "threads", "verification in several threads at once gives a wrong outcome", || json!({"a": a.json(), "b": b.json(), "wrong": bad}));
        }
    }
    // deep complete spines
    for _ in 0..mon.scale(60, 2000) {
        let d = rng.urange(30, 220);
        let dirs = dirs_for(&mut rng, d);
        let end = Tree::Leaf(rng.bytes32());
        let t = Tree::spine(&mut rng, &dirs, end);
        let raw = t.path_proof(&dirs);
        s02_one(&mut mon, "deep", &raw, &t.hash(), Codec::Bincode);
    }
    mon.require("accepted", 300);
    mon.require("large_flipped", 10);
    mon.require("sequenced_verifications", 1000);
    mon.require("threaded_verifications", 1000);
    mon.require("wellformed_mismatch", 1000);
    mon.require("malformed", 2000);
    mon.finish()
}

// ------------------------------------------------------------------------------------------- S03
pub fn s03() -> i32 {
    let mut mon = Monitor::new(
        "S03", 20, 400,
        "well-formed proofs of depth <= 63 with random masks; node and value iteration, lookups and random sequences of checked reads compared with a reference enumeration; non-trivial: at least one value and one helper node",
    );
    let mut rng = mon.rng("s03");
    let mut i = 0;
    while mon.go(i, 800, 60_000, 1.0) {
        i += 1;
        let mut raw = match rng.below(6) {
            _ if i <= 3 => wide(&mut rng, 65_530, 80_000),
            4 => wellformed(&mut rng, 400),
            5 => {
                let mut r = wellformed(&mut rng, 24);
                let n = r.mask.len();
                r.data = palette_data(&mut rng, n);
                r
            }
            0 => {
                let d = *rng.pick(&[20, 31, 32, 33, 47, 62, 63, 63]);
                let dirs = dirs_for(&mut rng, d);
                let end = Tree::Leaf(rng.bytes32());
                let t = Tree::spine(&mut rng, &dirs, end);
                t.random_proof(&mut rng, 0, 50)
            }
            1 => {
                let n = rng.urange(1, 60);
                let lean = rng.range(5, 80);
                let desc = complete_shape(&mut rng, n, lean);
                let pct = *rng.pick(&[0u64, 10, 50, 100]);
                Raw { data: rng.bytes(32 * (n + 1)), mask: (0..n + 1).map(|_| rng.chance(pct, 100)).collect(), hint: 70, desc, ..Default::default() }
            }
            _ => {
                let d = rng.urange(1, 9);
                let t = Tree::random(&mut rng, d, 1, 7);
                let cut = rng.below(50);
                let pct = *rng.pick(&[0u64, 10, 50, 90, 100]);
                t.random_proof(&mut rng, cut, pct)
            }
        };
        // marks beyond the last node mark nothing, missing marks neither
        if rng.chance(1, 6) {
            let n = if rng.bool() { raw.mask.len() + rng.urange(1, 70) } else { rng.urange(0, raw.mask.len()) };
            raw.mask.resize(n, true);
            mon.event("other_mask_length");
        }
        let raw = raw;
        let Some(p) = parse(&raw) else { continue };
        if p.max_depth() > 63 || p.leaves.len() < 2 {
            continue;
        }
        let large = p.leaves.len() > 5000;
        let nodes: Vec<(u64, Hash)> = p.leaves.iter().map(|(q, h)| (gindex(q).unwrap(), *h)).collect();
        let values: Vec<(u64, Hash)> = nodes.iter().zip(&raw.mask).filter(|(_, m)| **m).map(|(n, _)| *n).collect();
        mon.case(&raw, !values.is_empty() && values.len() < nodes.len());
        mon.events_n("values_expected", values.len() as u64);
        mon.sample(|| json!({"proof": raw.json(), "indices": values.iter().map(|v| v.0).collect::<Vec<_>>()}));
        let c = codec(&mut rng);
        let bytes = raw.encode(c);
        let m = match decode(&bytes, c) {
            Outcome::Ret(Ok(m)) => m,
            o => {
                mon.violate("undecodable", "a well-formed proof could not be decoded", json!({"proof": raw.json(), "outcome": format!("{o:?}")}));
                break;
            }
        };
        let d = |what: String| json!({"proof": raw.json(), "codec": format!("{c:?}"), "what": what});
        for copy in [m.clone(), m] {
            let m = &copy;
            mon.check(exposed_nodes(m) == (nodes.clone(), false), "nodes", "node iteration differs from the shape", || d(format!("got {:?}", exposed_nodes(m))));
            mon.check(exposed(m) == (values.clone(), false), "values", "value iteration differs from the marked nodes", || d(format!("got {:?}", exposed(m))));
            mon.event("iterations_compared");
            // repeating an iteration gives the same again
            mon.check(exposed(m) == exposed(m), "unstable", "two iterations differ", || d(String::new()));
            // lookups
            let mut probes: Vec<u64> = nodes.iter().map(|n| n.0).collect();
            if large {
                rng.shuffle(&mut probes);
                probes.truncate(12);
                probes.extend([nodes[nodes.len() - 1].0, values.last().map(|v| v.0).unwrap_or(7), nodes[65_535.min(nodes.len() - 1)].0, nodes[65_536.min(nodes.len() - 1)].0]);
            }
            probes.extend([0, 1, 2, 3, u64::MAX]);
            for _ in 0..6 {
                let g = rng.pick(&nodes).0;
                probes.extend([g / 2, g.wrapping_mul(2), g ^ 1, g.wrapping_add(1), rng.u64() >> rng.below(64)]);
            }
            for g in probes {
                let want = values.iter().find(|v| v.0 == g).map(|v| v.1);
                let got = observe(|| m.get(g).copied());
                mon.event(if want.is_some() { "lookup_hit" } else { "lookup_miss" });
                if !mon.check(got == Outcome::Ret(want), "get", "lookup differs from the marked nodes", || d(format!("get({g}) = {got:?}, expected {want:?}"))) {
                    break;
                }
            }
            // the iterators behave as iterators, however they are driven
            for _ in 0..if large { 1 } else { 4 } {
                let k = rng.idx(values.len() + 2);
                let got = observe(|| {
                    let mut it = m.values();
                    let (lo, hi) = it.size_hint();
                    let bounds = lo <= values.len() && hi.is_none_or(|h| h >= values.len());
                    let nth = it.nth(k).map(|(g, v)| (g, *v));
                    let then = it.next().map(|(g, v)| (g, *v));
                    let (lo, hi) = it.size_hint();
                    let rest: Vec<(u64, Hash)> = it.by_ref().map(|(g, v)| (g, *v)).collect();
                    let bounds = bounds && lo <= rest.len() && hi.is_none_or(|h| h >= rest.len());
                    let over = it.next().is_none() && it.next().is_none();
                    (bounds, nth, then, rest, over)
                });
                let want = (true, values.get(k).copied(), values.get(k + 1).copied(), values.get(k + 2..).unwrap_or(&[]).to_vec(), true);
                mon.check(got == Outcome::Ret(want.clone()), "nth", "skipping values and reading the rest differs from iterating", || d(format!("nth({k}) got {got:?}, expected {want:?}")));
                let got = observe(|| (m.values().count(), m.values().last().map(|(g, v)| (g, *v)), m.nodes().count(), m.nodes().nth(k).map(|(g, v)| (g, *v)), m.nodes().last().map(|(g, v)| (g, *v))));
                let want = (values.len(), values.last().copied(), nodes.len(), nodes.get(k).copied(), nodes.last().copied());
                mon.check(got == Outcome::Ret(want), "adaptors", "counting or taking the last value differs from iterating", || d(format!("got {got:?}, expected {want:?}")));
                let got = observe(|| m.values().skip(k).step_by(2).map(|(g, v)| (g, *v)).collect::<Vec<_>>());
                let want: Vec<_> = values.iter().skip(k).step_by(2).copied().collect();
                mon.check(got == Outcome::Ret(want), "adaptors", "stepping through the values differs from iterating", || d(format!("skip {k}, every second: {got:?}")));
                let got = observe(|| m.values().fold((0usize, 0u64), |a, (g, _)| (a.0 + 1, a.1.wrapping_mul(31).wrapping_add(g))));
                let want = values.iter().fold((0usize, 0u64), |a, (g, _)| (a.0 + 1, a.1.wrapping_mul(31).wrapping_add(*g)));
                mon.check(got == Outcome::Ret(want), "adaptors", "folding over the values differs from iterating", || d(format!("{got:?}, expected {want:?}")));
                // two iterators over the same proof are independent
                let got = observe(|| {
                    let (mut a, mut b) = (m.values(), m.values());
                    let mut same = true;
                    for (j, v) in values.iter().take(50).enumerate() {
                        same &= a.next().map(|(g, v)| (g, *v)) == Some(*v);
                        if j % 2 == 1 {
                            let w = values[j / 2];
                            same &= b.next_assert_gindex(w.0).ok() == Some(&w.1);
                        }
                    }
                    same
                });
                mon.check(got == Outcome::Ret(true), "interleaved", "two iterations at once disturb each other", || d(String::new()));
                mon.event("adaptor_rounds");
            }
            // checked reads, with wrong requests interspersed, mixed with plain reads
            for _ in 0..if large { 1 } else { 3 } {
                let mut it = m.values();
                let mut pos = 0;
                let mut trace = vec![];
                for _ in 0..values.len() + 3 {
                    if large && pos > 200 && pos + 50 < values.len() {
                        // on towards the end
                        let n = values.len() - pos - 20;
                        let _ = observe(|| it.nth(n - 1).map(|_| ()));
                        pos += n;
                    }
                    if pos > values.len() + 3 {
                        break;
                    }
                    let plain = rng.chance(1, 6);
                    let want = values.get(pos).copied();
                    let ask = match want {
                        Some((g, _)) if rng.chance(3, 4) => g,
                        _ => *rng.pick(&[0, 1, 3, 8, nodes[0].0, nodes[nodes.len() - 1].0, u64::MAX]),
                    };
                    let got = observe(|| if plain { format!("{:?}", it.next().map(|(g, v)| (g, *v))) } else { describe(it.next_assert_gindex(ask)) });
                    let exp = match (plain, want) {
                        (true, w) => format!("{w:?}"),
                        (false, None) => "missing".into(),
                        (false, Some((g, v))) if g == ask => format!("value {}", support::hex(&v)),
                        (false, Some((g, _))) => format!("mismatch expected={ask} actual={g}"),
                    };
                    trace.push(json!({"plain": plain, "ask": ask, "got": format!("{got:?}"), "expected": exp}));
                    mon.event(match (plain, want) {
                        (true, _) => "plain_reads",
                        (_, None) => "reads_past_end",
                        (_, Some((g, _))) if g == ask => "checked_reads_ok",
                        _ => "checked_reads_mismatch",
                    });
                    if !mon.check(got == Outcome::Ret(exp), "checked-read", "a checked read answered wrongly", || json!({"proof": raw.json(), "trace": trace})) {
                        break;
                    }
                    pos += 1;
                }
            }
        }
    }
    mon.require("iterations_compared", 500);
    mon.require("adaptor_rounds", 1000);
    mon.require("other_mask_length", 50);
    mon.require("checked_reads_mismatch", 100);
    mon.require("reads_past_end", 100);
    mon.require("lookup_hit", 500);
    mon.finish()
}

fn describe(r: Result<&Hash, Error>) -> String {
    match r {
        Ok(v) => format!("value {}", support::hex(v)),
        Err(Error::MissingValue) => "missing".into(),
        Err(Error::GIndexMismatch { expected, actual }) => format!("mismatch expected={expected} actual={actual}"),
        Err(e) => format!("other error {e}"),
    }
}

// ------------------------------------------------------------------------------------------- S04
fn reencode(m: &Multiproof, c: Codec) -> Vec<u8> {
    match c {
        Codec::Bincode => bincode::serialize(m).unwrap(),
        Codec::Postcard => postcard::to_stdvec(m).unwrap(),
    }
}

pub fn s04() -> i32 {
    let mut mon = Monitor::new(
        "S04", 20, 400,
        "random proofs (honest, mutated, arbitrary; normalised bit offsets) encoded, decoded and re-encoded in both formats, every truncation point, several preallocation hints; non-trivial: at least 2 nodes",
    );
    let mut rng = mon.rng("s04");
    let mut i = 0;
    while mon.go(i, 300, 30_000, 1.0) {
        i += 1;
        let mut raw = if rng.chance(1, 4) {
            let mut r = junk(&mut rng, 50);
            r.desc_head = 0;
            r.mask_head = 0;
            r
        } else if i <= 2 {
            wide(&mut rng, 65_530, 70_000)
        } else if rng.chance(1, 3) {
            wellformed(&mut rng, 120)
        } else {
            let dd = rng.urange(1, 7);
            let t = Tree::random(&mut rng, dd, 1, 7);
            t.random_proof(&mut rng, 20, 50)
        };
        if rng.chance(1, 4) {
            flip(&mut raw, &mut rng);
        }
        if rng.chance(1, 5) {
            raw.hint = rng.u64() as usize;
        }
        mon.case(&raw, raw.data.len() >= 64);
        mon.sample(|| raw.json());
        for c in [Codec::Bincode, Codec::Postcard] {
            let bytes = raw.encode(c);
            let d = |what: String| json!({"proof": raw.json(), "codec": format!("{c:?}"), "bytes": support::hex(&bytes[..bytes.len().min(4096)]), "what": what});
            let m = match decode(&bytes, c) {
                Outcome::Ret(Ok(m)) => m,
                o => {
                    mon.violate("undecodable", "an encoded proof could not be decoded", d(format!("{o:?}")));
                    break;
                }
            };
            let again = reencode(&m, c);
            mon.event("round_trips");
            mon.check(again == bytes, "bytes", "re-encoding a decoded proof gives different bytes", || d(support::hex(&again[..again.len().min(4096)])));
            // across formats
            let other = if c == Codec::Bincode { Codec::Postcard } else { Codec::Bincode };
            let ob = reencode(&m, other);
            match decode(&ob, other) {
                Outcome::Ret(Ok(n)) => {
                    mon.check(n == m, "unequal", "a decoded proof differs from the encoded one", || d(format!("{n:?} vs {m:?}")));
                    mon.check(exposed(&n) == exposed(&m) && exposed_nodes(&n) == exposed_nodes(&m), "values-differ", "values change across a round trip", || d(String::new()));
                    if raw.hint < 1 << 20 {
                        let (a, b) = (see(&n, &[0; 32]).root, see(&m, &[0; 32]).root);
                        mon.check(a == b, "root-differs", "the root changes across a round trip", || d(format!("{a:?} {b:?}")));
                    }
                }
                o => mon.violate("undecodable", "an encoded proof could not be decoded", d(format!("{o:?}"))),
            }
            // the node data is borrowed from the buffer
            let range = bytes.as_ptr_range();
            let mut nodes = 0u64;
            let mut outside = 0u64;
            let _ = observe(|| {
                for (_, v) in m.nodes() {
                    nodes += 1;
                    let r = v.as_ptr_range();
                    if r.start < range.start || r.end > range.end {
                        outside += 1;
                    }
                }
            });
            mon.events_n("borrowed_nodes", nodes - outside);
            mon.check(outside == 0, "copied", "decoded node data is not borrowed from the input buffer", || d(format!("{outside} of {nodes} nodes lie outside")));
            // truncation
            let step = match bytes.len() {
                0..=600 => 1,
                601..=20_000 => rng.urange(1, 23),
                n => n / rng.urange(20, 40),
            };
            for n in (0..bytes.len()).step_by(step) {
                let cut = bytes[..n].to_vec();
                let o = decode(&cut, c);
                mon.event("truncations");
                if !mon.check(matches!(o, Outcome::Ret(Err(_))), "truncated", "a truncated encoding was not refused with an error", || d(format!("first {n} bytes: {o:?}"))) {
                    break;
                }
            }
        }
        // hints
        if let Some(p) = parse(&raw).filter(|p| p.leaves.len() > 1) {
            let mut hints = vec![0, 1, 2, p.max_depth(), p.leaves.len(), 1000, 65_536];
            hints.push(rng.idx(200));
            // larger than any memory
            hints.extend([usize::MAX, usize::MAX / 2, 1 << 60, u32::MAX as usize * 4_000_000]);
            for h in hints {
                let r = Raw { hint: h, ..raw.clone() };
                let right = with(&r, Codec::Bincode, |m| see(m, &p.root)).unwrap();
                let wrong = with(&r, Codec::Bincode, |m| see(m, &rng.bytes32())).unwrap();
                mon.event("hints_tried");
                if !mon.check(
                    right.verify == Outcome::Ret(Ok(())) && right.root == Outcome::Ret(Ok(p.root)) && matches!(wrong.verify, Outcome::Ret(Err(_))),
                    "hint", "the preallocation hint changes the outcome of verification",
                    || json!({"proof": r.json(), "verify": format!("{:?}", right.verify), "verify_wrong_root": format!("{:?}", wrong.verify)}),
                ) {
                    break;
                }
            }
        } else if raw.hint < 1 << 20 {
            for h in [0usize, 1, 5, 4096] {
                let r = Raw { hint: h, ..raw.clone() };
                if let Some(Outcome::Ret(Ok(_))) = with(&r, Codec::Bincode, |m| see(m, &[0; 32]).root) {
                    mon.violate("hint-malformed", "a malformed proof gets a root under some hint", r.json());
                }
                mon.event("hints_tried_malformed");
            }
        }
    }
    mon.require("round_trips", 400);
    mon.require("truncations", 5000);
    mon.require("hints_tried", 500);
    mon.require("borrowed_nodes", 1000);
    mon.finish()
}
