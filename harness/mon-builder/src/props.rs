use crate::containers::{self, Raw};
use crate::model::{exposed, exposed_nodes, Hash, Tree as MTree};
use serde_json::{json, Value};
use ssz_multiproofs::{Error, Multiproof, MultiproofBuilder};
use ssz_rs::prelude::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use support::{hex, observe, Monitor, Outcome, Rng};

/// A container and what is known of it without the builder.
pub enum Subject {
    Raw(Raw),
    Fixed(Box<containers::Fixed>),
    Variable(Box<containers::Variable>),
    Single(Box<containers::Single>),
}
struct Known {
    tree: ssz_rs::Tree,
    model: Option<MTree>,
    root: Hash,
}

impl Subject {
    fn kind(&self) -> &'static str {
        match self {
            Self::Raw(_) => "raw",
            Self::Fixed(_) => "fixed",
            Self::Variable(_) => "variable",
            Self::Single(_) => "single",
        }
    }
    fn known(&self) -> Known {
        match self {
            Self::Raw(r) => Known { tree: r.compute_tree().unwrap(), root: r.model.hash(), model: Some(r.model.clone()) },
            Self::Fixed(x) => Known { tree: x.compute_tree().unwrap(), root: x.hash_tree_root().unwrap().0, model: None },
            Self::Variable(x) => Known { tree: x.compute_tree().unwrap(), root: x.hash_tree_root().unwrap().0, model: None },
            Self::Single(x) => Known { tree: x.compute_tree().unwrap(), root: x.hash_tree_root().unwrap().0, model: None },
        }
    }
    fn build(&self, b: MultiproofBuilder) -> Outcome<Result<Multiproof<'static>, Error>> {
        observe(|| match self {
            Self::Raw(x) => b.build(x),
            Self::Fixed(x) => b.build(&**x),
            Self::Variable(x) => b.build(&**x),
            Self::Single(x) => b.build(&**x),
        })
    }
}
impl Known {
    fn at(&self, g: u64) -> Option<Hash> {
        match &self.model {
            Some(m) => m.at(g),
            None => self.tree.node(g as usize).map(|t| t.root().0),
        }
    }
    fn split(&self, g: u64) -> bool {
        g < 1 << 63 && self.at(2 * g).is_some()
    }
}

fn subject(rng: &mut Rng) -> Subject {
    match rng.below(10) {
        0..=3 => {
            let d = rng.urange(1, 12);
            let den = rng.range(4, 40);
            let mut t = MTree::random(rng, d, 1, den);
            if matches!(t, MTree::Leaf(_)) {
                t = MTree::node(t.clone(), t);
            }
            Subject::Raw(Raw { model: t })
        }
        4 => {
            // as deep as a position can be
            let n = if rng.bool() { rng.urange(60, 63) } else { rng.urange(20, 60) };
            let dirs: Vec<bool> = (0..n).map(|_| rng.bool()).collect();
            let end = MTree::Leaf(rng.bytes32());
            Subject::Raw(Raw { model: MTree::spine(rng, &dirs, end) })
        }
        5 => Subject::Fixed(Box::new(containers::fixed(rng))),
        6 => Subject::Single(Box::new(containers::Single { only: containers::variable(rng) })),
        _ => Subject::Variable(Box::new(containers::variable(rng))),
    }
}

/// positions reached by random descents, never one above another
fn antichain(k: &Known, rng: &mut Rng, want: usize, stop: u64) -> BTreeSet<u64> {
    let mut out = BTreeSet::new();
    for _ in 0..want * 3 {
        if out.len() >= want {
            break;
        }
        let mut g = 1u64;
        while k.split(g) && (g == 1 || !rng.chance(stop, 100)) {
            g = 2 * g + rng.below(2);
        }
        if g != 1 && !out.iter().any(|o| above(*o, g) || above(g, *o) || *o == g) {
            out.insert(g);
        }
    }
    // siblings too
    if rng.chance(1, 3) {
        for g in out.clone() {
            let s = g ^ 1;
            if !out.iter().any(|o| above(s, *o)) {
                out.insert(s);
            }
        }
    }
    out
}
fn above(a: u64, b: u64) -> bool {
    let (la, lb) = (a.leading_zeros(), b.leading_zeros());
    la > lb && b >> (la - lb) == a
}
fn everything(k: &Known, limit: usize) -> BTreeSet<u64> {
    let mut out = BTreeSet::new();
    let mut todo = vec![1u64];
    while let Some(g) = todo.pop() {
        if k.split(g) && out.len() + todo.len() < limit {
            todo.push(2 * g);
            todo.push(2 * g + 1);
        } else if g != 1 {
            out.insert(g);
        }
    }
    out
}

/// The nodes a proof of `req` consists of, depth first: position, node, requested.
fn expected(k: &Known, req: &BTreeSet<u64>) -> Vec<(u64, Hash, bool)> {
    let mut inner: HashSet<u64> = HashSet::new();
    for g in req {
        let mut p = *g / 2;
        while p >= 1 && inner.insert(p) {
            p /= 2;
        }
    }
    let mut out = vec![];
    let mut todo = vec![1u64];
    while let Some(g) = todo.pop() {
        if inner.contains(&g) {
            todo.push(2 * g + 1);
            todo.push(2 * g);
        } else {
            out.push((g, k.at(g).expect("position in the tree"), req.contains(&g)));
        }
    }
    out
}

fn indices(req: &BTreeSet<u64>) -> Vec<usize> {
    req.iter().map(|g| *g as usize).collect()
}
fn show(req: &BTreeSet<u64>) -> Value {
    json!(req.iter().take(40).collect::<Vec<_>>())
}

/// compares a built proof with the proof expected
fn judge(mon: &mut Monitor, s: &Subject, k: &Known, req: &BTreeSet<u64>, out: Outcome<Result<Multiproof<'static>, Error>>) {
    let d = |what: String| json!({"container": s.kind(), "root": hex(&k.root), "positions": show(req), "count": req.len(), "what": what});
    let m = match out {
        Outcome::Ret(Ok(m)) => m,
        o => {
            let what = match o {
                Outcome::Ret(Err(e)) => format!("error: {e}"),
                _ => "panic".to_string(),
            };
            mon.violate("refused", "a proof of existing positions could not be built", d(what));
            return;
        }
    };
    mon.event("proofs_built");
    mon.events_n("positions_proven", req.len() as u64);
    let want = expected(k, req);
    match observe(|| m.verify(&k.root).map_err(|e| e.to_string())) {
        Outcome::Ret(Ok(())) => {}
        o => mon.violate("unverifiable", "a built proof does not verify against the container's root", d(format!("{o:?}"))),
    }
    let mut other = k.root;
    other[7] ^= 4;
    mon.check(!matches!(observe(|| m.verify(&other).is_ok()), Outcome::Ret(true)), "any-root", "a built proof verifies against another root", || d(String::new()));
    let (values, p) = exposed(&m);
    let vals: Vec<_> = want.iter().filter(|w| w.2).map(|w| (w.0, w.1)).collect();
    mon.check(!p && values == vals, "values", "the values of a built proof are not exactly the requested nodes", || {
        d(format!("expected {} values, got {} (panic {p}); first difference {:?}", vals.len(), values.len(), vals.iter().zip(&values).find(|(a, b)| a != b)))
    });
    let (nodes, p) = exposed_nodes(&m);
    let all: Vec<_> = want.iter().map(|w| (w.0, w.1)).collect();
    mon.check(!p && nodes == all, "nodes", "the nodes of a built proof are not the requested nodes and the siblings needed, once each", || {
        d(format!("expected {} nodes, got {} (panic {p})", all.len(), nodes.len()))
    });
    mon.events_n("siblings_checked", (all.len() - vals.len()) as u64);
    // what travels is the same proof
    if let Ok(bytes) = bincode::serialize(&m) {
        match observe(|| bincode::deserialize::<Multiproof>(&bytes).map(|n| (n.verify(&k.root).is_ok(), exposed(&n).0)).ok()) {
            Outcome::Ret(Some((true, v))) if v == vals => {
                mon.event("proofs_transported");
            }
            _ => mon.violate("transport", "a built proof does not survive its encoding", d(String::new())),
        }
    }
}

fn dense(rng: &mut Rng, depth: usize) -> Subject {
    fn go(rng: &mut Rng, d: usize) -> MTree {
        if d == 0 {
            return MTree::Leaf(rng.bytes32());
        }
        let (l, r) = (go(rng, d - 1), go(rng, d - 1));
        MTree::node(l, r)
    }
    Subject::Raw(Raw { model: go(rng, depth) })
}

pub fn s05() -> i32 {
    let mut mon = Monitor::new(
        "S05", 12, 400,
        "random trees up to depth 63, fixed, variable and nested containers; antichains of positions from one to the whole tree, by index and by path; non-trivial: at least two positions",
    );
    mon.assume("SSZ containers, their trees and their paths come from a stand-in of ssz_rs written from the specification");
    let mut rng = mon.rng("s05");
    let mut i = 0;
    // parallel collection only starts at 20000 positions
    for n in 0..mon.scale(1, 6) {
        let s = dense(&mut rng, 16);
        let k = s.known();
        let all: Vec<u64> = (1 << 16..1 << 17).collect();
        let req: BTreeSet<u64> = match n % 3 {
            0 => all.iter().copied().filter(|_| rng.chance(7, 10)).collect(),
            1 => all.into_iter().collect(),
            _ => (1u64 << 15..1 << 16).filter(|_| rng.chance(9, 10)).collect(),
        };
        mon.case(&(k.root, req.len()), true);
        mon.event("large_sets");
        let out = s.build(MultiproofBuilder::new().with_gindices(indices(&req)));
        judge(&mut mon, &s, &k, &req, out);
    }
    while mon.go(i, 300, 100_000, 0.85) {
        i += 1;
        let s = subject(&mut rng);
        let k = s.known();
        let req = match rng.below(8) {
            0 => antichain(&k, &mut rng, 1, 10),
            1 | 3 | 4 => everything(&k, 4000),
            2 => antichain(&k, &mut rng, 200, 2),
            5 => antichain(&k, &mut rng, 20, 40),
            _ => {
                let n = rng.urange(2, 30);
                antichain(&k, &mut rng, n, 5)
            }
        };
        if req.is_empty() {
            continue;
        }
        mon.case(&(k.root, &req), req.len() >= 2);
        mon.event(&format!("container_{}", s.kind()));
        if req.iter().any(|g| *g >= 1 << 60) {
            mon.event("deepest_positions");
        }
        mon.sample(|| json!({"container": s.kind(), "positions": show(&req)}));
        let b = if rng.bool() {
            MultiproofBuilder::new().with_gindices(indices(&req))
        } else {
            req.iter().fold(MultiproofBuilder::default(), |b, g| b.with_gindex(*g as usize))
        };
        let out = s.build(b);
        judge(&mut mon, &s, &k, &req, out);
    }
    // by path: what is proven is the field itself
    while mon.go(i, 500, 200_000, 1.0) {
        i += 1;
        let v = containers::variable(&mut rng);
        let mut b = MultiproofBuilder::new();
        let mut want: BTreeMap<u64, Hash> = BTreeMap::new();
        for _ in 0..rng.urange(1, 12) {
            let (p, h) = containers::variable_path(&v, &mut rng);
            want.insert(containers::Variable::generalized_index(&p).unwrap() as u64, h);
            b = b.with_path::<containers::Variable>(&p);
        }
        let s = Subject::Variable(Box::new(v));
        let k = s.known();
        let req: BTreeSet<u64> = want.keys().copied().collect();
        mon.case(&(k.root, &req), req.len() >= 2);
        mon.event("by_path");
        let out = s.build(b);
        if let Outcome::Ret(Ok(m)) = &out {
            let got: BTreeMap<u64, Hash> = exposed(m).0.into_iter().collect();
            mon.check(got == want, "field", "a value proven by path is not the field at that path", || json!({"root": hex(&k.root), "positions": show(&req)}));
        }
        judge(&mut mon, &s, &k, &req, out);
    }
    for (e, n) in [("proofs_built", 400), ("container_raw", 60), ("container_fixed", 10), ("container_variable", 40), ("container_single", 10), ("by_path", 100), ("deepest_positions", 20), ("large_sets", 1)] {
        mon.require(e, n);
    }
    mon.finish()
}

pub fn s06() -> i32 {
    let mut mon = Monitor::new(
        "S06", 12, 400,
        "each container and set of positions is built repeatedly: shuffled registration, duplicates, index, iterator and path forms, pools of 1 to 8 threads, concurrent builds; non-trivial: at least two positions",
    );
    mon.assume("SSZ containers come from a stand-in of ssz_rs");
    let mut rng = mon.rng("s06");
    let pools: Vec<rayon::ThreadPool> = (1..=8).map(|n| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()).collect();
    let mut i = 0;
    while mon.go(i, 80, 40_000, 1.0) {
        let large = i % 400 == 0;
        i += 1;
        let mut paths: Vec<(Vec<PathElement>, u64)> = vec![];
        let (s, req): (Subject, BTreeSet<u64>) = if large {
            let s = dense(&mut rng, 16);
            let req = (1u64 << 16..1 << 17).filter(|_| rng.chance(8, 10)).collect();
            (s, req)
        } else if rng.chance(1, 2) {
            let v = containers::variable(&mut rng);
            for _ in 0..rng.urange(1, 15) {
                let (p, _) = containers::variable_path(&v, &mut rng);
                let g = containers::Variable::generalized_index(&p).unwrap() as u64;
                paths.push((p, g));
            }
            let req = paths.iter().map(|p| p.1).collect();
            (Subject::Variable(Box::new(v)), req)
        } else {
            let s = subject(&mut rng);
            let k = s.known();
            let n = rng.urange(1, 300);
            let req = antichain(&k, &mut rng, n, 3);
            (s, req)
        };
        if req.is_empty() {
            continue;
        }
        mon.case(&(s.kind(), &req), req.len() >= 2);
        let mut first: Option<Vec<u8>> = None;
        let rounds = if large { 3 } else { 7 };
        let d = |how: &str, a: &[u8], b: &[u8]| {
            let at = a.iter().zip(b).position(|(x, y)| x != y);
            json!({"container": s.kind(), "positions": show(&req), "how": how, "lengths": [a.len(), b.len()], "first_difference": at})
        };
        for round in 0..rounds {
            let mut order: Vec<u64> = req.iter().copied().collect();
            let mut how = vec![];
            if round > 0 {
                rng.shuffle(&mut order);
                if rng.bool() {
                    how.push("duplicates");
                    for _ in 0..rng.urange(1, 1 + order.len()) {
                        let g = *rng.pick(&order);
                        order.push(g);
                    }
                }
            }
            let mut b = MultiproofBuilder::new();
            if !paths.is_empty() && rng.bool() {
                how.push("paths");
                mon.event("by_path");
                let mut ps = paths.clone();
                rng.shuffle(&mut ps);
                for (p, _) in &ps {
                    b = b.with_path::<containers::Variable>(p);
                }
                if rng.bool() {
                    b = b.with_gindices(order.iter().map(|g| *g as usize));
                }
            } else if rng.bool() {
                how.push("single");
                for g in &order {
                    b = b.with_gindex(*g as usize);
                }
            } else {
                how.push("iterator");
                let cut = rng.idx(order.len());
                b = b.with_gindices(order[cut..].iter().map(|g| *g as usize));
                b = b.with_gindices(order[..cut].iter().map(|g| *g as usize));
            }
            let threads = rng.urange(0, 7);
            let out = pools[threads].install(|| s.build(b));
            mon.event(&format!("threads_{}", threads + 1));
            let Outcome::Ret(Ok(m)) = out else {
                mon.violate("outcome", "building existing positions fails in one form", d(&how.join("+"), &[], &[]));
                continue;
            };
            let bytes = bincode::serialize(&m).unwrap();
            mon.event("builds");
            match &first {
                None => first = Some(bytes),
                Some(f) => {
                    mon.event("comparisons");
                    mon.check(*f == bytes, "bytes", "two builds of the same positions give different proofs", || d(&format!("{} on {} threads", how.join("+"), threads + 1), f, &bytes));
                }
            }
        }
        // several builds at once on one pool
        if i % 4 == 0 && !large {
            let f = first.clone().unwrap_or_default();
            let outs: Vec<Option<Vec<u8>>> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..4)
                    .map(|_| {
                        let (s, req, p) = (&s, &req, &pools[7]);
                        sc.spawn(move || {
                            let b = MultiproofBuilder::new().with_gindices(indices(req));
                            match p.install(|| s.build(b)) {
                                Outcome::Ret(Ok(m)) => bincode::serialize(&m).ok(),
                                _ => None,
                            }
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().ok().flatten()).collect()
            });
            mon.event("concurrent_groups");
            mon.check(outs.iter().all(|o| o.as_ref() == Some(&f)), "concurrent", "concurrent builds of the same positions give different proofs", || d("concurrent", &[], &[]));
        }
    }
    for (e, n) in [("builds", 400), ("comparisons", 300), ("by_path", 40), ("threads_1", 20), ("threads_8", 20), ("concurrent_groups", 10)] {
        mon.require(e, n);
    }
    mon.finish()
}

pub fn s07() -> i32 {
    let mut mon = Monitor::new(
        "S07", 8, 300,
        "empty requests, zero, the root, positions below the leaves of every kind of container, positions with an ancestor at every distance, alone and among admissible ones; non-trivial: mixed with admissible positions",
    );
    mon.assume("SSZ containers come from a stand-in of ssz_rs");
    let mut rng = mon.rng("s07");
    let mut i = 0;
    while mon.go(i, 400, 200_000, 1.0) {
        i += 1;
        let s = subject(&mut rng);
        let k = s.known();
        let n = rng.urange(1, 12);
        let base = antichain(&k, &mut rng, n, 10);
        let alone = rng.chance(1, 3);
        let mut req = if alone { BTreeSet::new() } else { base.clone() };
        let pick: u64 = *base.iter().nth(rng.idx(base.len().max(1))).unwrap_or(&2);
        let kind = match rng.below(6) {
            0 => {
                req.clear();
                "empty"
            }
            1 => {
                req.insert(0);
                "zero"
            }
            2 => {
                req.insert(1);
                if req.len() == 1 { "root" } else { "root_and_others" }
            }
            3 | 4 => {
                // below a leaf, at any distance; also far outside
                let mut g = pick;
                while k.split(g) {
                    g = 2 * g + rng.below(2);
                }
                if g >= 1 << 63 {
                    continue;
                }
                let room = g.leading_zeros() as u64;
                let cap = room.min(if rng.bool() { 2 } else { 40 });
                for _ in 0..rng.range(1, cap) {
                    g = 2 * g + rng.below(2);
                }
                // the leaf itself must not be requested: that is the case below
                req.retain(|o| !above(*o, g));
                req.insert(g);
                "missing"
            }
            _ => {
                // an ancestor or a descendant of a requested position
                let mut down = pick;
                while k.split(down) && rng.chance(3, 4) {
                    down = 2 * down + rng.below(2);
                }
                let len = 63 - down.leading_zeros() as u64;
                if len < 2 {
                    continue;
                }
                let up = down >> rng.range(1, len - 1);
                req.insert(down);
                req.insert(up);
                mon.event(if down >> 1 == up { "parent_pairs" } else { "ancestor_pairs" });
                "nested"
            }
        };
        mon.case(&(k.root, &req), !alone);
        mon.event(&format!("refusal_{kind}"));
        mon.sample(|| json!({"container": s.kind(), "kind": kind, "positions": show(&req)}));
        let d = |what: String| json!({"container": s.kind(), "root": hex(&k.root), "kind": kind, "positions": show(&req), "what": what});
        match s.build(MultiproofBuilder::new().with_gindices(indices(&req))) {
            Outcome::Ret(Err(_)) => mon.event("errors"),
            Outcome::Ret(Ok(m)) => {
                let v = observe(|| m.verify(&k.root).is_ok());
                mon.violate(&format!("accepted-{kind}"), "a request that cannot be proven yields a proof", d(format!("verifies: {v:?}, values {:?}", exposed(&m).0.len())));
            }
            Outcome::Panic(p) => mon.violate(&format!("panic-{kind}"), "a request that cannot be proven panics", d(format!("{p:?}"))),
        }
        // and an admissible request on the same container still works
        if !base.is_empty() && i % 8 == 0 {
            let ok = matches!(s.build(MultiproofBuilder::new().with_gindices(indices(&base))), Outcome::Ret(Ok(m)) if m.verify(&k.root).is_ok());
            mon.check(ok, "control", "an admissible request is refused", || json!({"root": hex(&k.root), "positions": show(&base)}));
            mon.event("admissible_controls");
        }
    }
    for (e, n) in [("errors", 200), ("refusal_empty", 20), ("refusal_zero", 20), ("refusal_root", 5), ("refusal_missing", 40), ("refusal_nested", 20), ("parent_pairs", 5), ("ancestor_pairs", 5), ("admissible_controls", 20)] {
        mon.require(e, n);
    }
    mon.finish()
}
