//! C17: the constants the guest reads proofs at, against the layouts of the containers.
use crate::proc::{bin, Scratch};
use crate::ssz_model::{self as sm, Ty, Val};
use core_model::guest::{look, random_world, view, WOpt};
use host::mainnet::BeaconState;
use serde_json::json;
use ssz_multiproofs::MultiproofBuilder;
use ssz_rs::prelude::HashTreeRoot;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::Command;
use support::{hex, Monitor, Outcome, Rng};
use z_core::MainnetEthSpec;

/// position below a container; `[i]` goes to an element, `/k` to a chunk of a byte vector
fn position(ty: &Ty, path: &[&str]) -> Option<u64> {
    let Some((head, rest)) = path.split_first() else { return Some(1) };
    let (g, t) = match ty {
        Ty::Cont(f) => {
            let i = f.iter().position(|x| x.0 == *head)?;
            (f.len().next_power_of_two() as u64 + i as u64, &f[i].1)
        }
        Ty::Bytes(n) => return Some(n.div_ceil(32).next_power_of_two() as u64 + head.strip_prefix('/')?.parse::<u64>().ok()?),
        _ => return None,
    };
    let sub = position(t, rest)?;
    let top = 63 - sub.leading_zeros();
    Some((g << top) | (sub - (1 << top)))
}
const FIELDS: [(&str, &[&str]); 9] = [
    ("slot", &["slot"]),
    ("finalized_checkpoint_epoch", &["finalized_checkpoint", "epoch"]),
    ("genesis_validators_root", &["genesis_validators_root"]),
    ("fork_previous_version", &["fork", "previous_version"]),
    ("fork_current_version", &["fork", "current_version"]),
    ("fork_epoch", &["fork", "epoch"]),
    ("validators", &["validators"]),
    ("earliest_exit_epoch", &["earliest_exit_epoch"]),
    ("earliest_consolidation_epoch", &["earliest_consolidation_epoch"]),
];
const HEADER: [(&str, &[&str]); 2] = [("state_root", &["state_root"]), ("block_slot", &["slot"])];
const VALIDATOR: [(&str, &[&str]); 7] = [
    ("public_key_0", &["pubkey", "/0"]),
    ("public_key_1", &["pubkey", "/1"]),
    ("effective_balance", &["effective_balance"]),
    ("slashed", &["slashed"]),
    ("activation_eligibility_epoch", &["activation_eligibility_epoch"]),
    ("activation_epoch", &["activation_epoch"]),
    ("exit_epoch", &["exit_epoch"]),
];
/// the position of a validator's field below the root of the list (which mixes in the length)
fn in_registry(i: u64, path: &[&str]) -> u64 {
    let sub = position(&sm::validator(), path).unwrap();
    let top = 63 - sub.leading_zeros();
    ((((1u64 << 41) + i) << top) | (sub - (1 << top))) as u64
}
/// what a function of this name has to give; for validators, at these indices
fn expected(is: &[u64]) -> BTreeMap<String, Vec<u64>> {
    let mut m = BTreeMap::new();
    let two = [sm::state(5), sm::state(6)];
    for (n, p) in FIELDS {
        let a: Vec<u64> = two.iter().map(|t| position(t, p).unwrap()).collect();
        assert_eq!(a[0], a[1], "the forks agree on {n}");
        m.insert(n.to_string(), vec![a[0]]);
    }
    for (n, p) in HEADER {
        m.insert(n.to_string(), vec![position(&sm::header(), p).unwrap()]);
    }
    for (n, p) in VALIDATOR {
        m.insert(n.to_string(), is.iter().map(|i| in_registry(*i, p)).collect());
    }
    m
}

/// the functions `<name>_gindex` of a source file: name, takes a validator index?
fn functions(src: &str) -> Vec<(String, bool)> {
    let mut v = vec![];
    for part in src.split("fn ").skip(1) {
        let Some((name, rest)) = part.split_once('(') else { continue };
        let Some((args, _)) = rest.split_once(')') else { continue };
        if let Some(n) = name.trim().strip_suffix("_gindex") {
            if n.chars().all(|c| c.is_alphanumeric() || c == '_') {
                v.push((n.to_string(), !args.trim().is_empty()));
            }
        }
    }
    v
}
/// compiles the file on its own and evaluates its functions
fn evaluate(dir: &Path, file: &Path, is: &[u64]) -> Result<BTreeMap<String, Vec<u64>>, String> {
    let src = std::fs::read_to_string(file).map_err(|e| e.to_string())?;
    let fs = functions(&src);
    if fs.is_empty() {
        return Err("no functions".into());
    }
    let mut p = format!("#![allow(warnings)]\npub type ValidatorIndex = usize;\n#[path = {:?}]\nmod it;\nfn main() {{\nlet is: &[u64] = &{is:?};\n", file.display().to_string());
    for (n, per) in &fs {
        if *per {
            p += &format!("print!(\"{n}\"); for i in is {{ print!(\" {{}}\", it::{n}_gindex(*i as usize) as u64); }} println!();\n");
        } else {
            p += &format!("println!(\"{n} {{}}\", it::{n}_gindex() as u64);\n");
        }
    }
    p += "}\n";
    let (rs, exe) = (dir.join("eval.rs"), dir.join("eval"));
    std::fs::write(&rs, p).map_err(|e| e.to_string())?;
    let o = Command::new("rustc").args(["--edition", "2024", "-O", "-o"]).arg(&exe).arg(&rs).output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(String::from_utf8_lossy(&o.stderr).chars().take(2000).collect());
    }
    let o = Command::new(&exe).output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err("evaluation fails".into());
    }
    Ok(String::from_utf8_lossy(&o.stdout)
        .lines()
        .filter_map(|l| {
            let mut it = l.split(' ');
            Some((it.next()?.to_string(), it.map(|x| x.parse().unwrap()).collect()))
        })
        .collect())
}
fn committed() -> Option<PathBuf> {
    let usual = PathBuf::from("/repo/core/src/guest_gindices.rs");
    if usual.exists() {
        return Some(usual);
    }
    // wherever it has moved to
    let mut todo = vec![PathBuf::from("/repo/core/src")];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(d).ok()?.flatten() {
            let p = e.path();
            if p.is_dir() {
                todo.push(p);
            } else if p.extension().is_some_and(|x| x == "rs") && std::fs::read_to_string(&p).is_ok_and(|s| functions(&s).len() > 3) {
                return Some(p);
            }
        }
    }
    None
}

pub fn c17() -> i32 {
    let mut m = Monitor::new("C17", 9, 200, "distinct (field, layout or validator index) compared, and states read through proofs at the constants");
    m.assume("the layouts are written down from the consensus specification, as are the positions computed from them");
    m.assume("the generator runs on stand-ins for ssz-rs and ethereum-consensus that implement generalized indices as specified");
    for (e, n) in [("regenerated", 1), ("states_proven", 6), ("electra", 2), ("fulu", 2), ("inputs_read", 40)] {
        m.require(e, n);
    }
    let mut rng = m.rng("indices");
    let mut is: Vec<u64> = vec![0, 1, 2, 3, (1 << 40) - 1, (1 << 40) - 2];
    for k in 2..40 {
        is.extend([(1 << k) - 1, 1 << k, (1 << k) + rng.below(1 << k)]);
    }
    for _ in 0..m.scale(200, 5000) {
        is.push(rng.below(1 << 40));
    }
    let want = expected(&is);
    let dir = Scratch::new();

    // the committed constants
    let values = committed().ok_or("absent".to_string()).and_then(|f| evaluate(dir.path(), &f, &is));
    let mut known: BTreeMap<String, Vec<u64>> = BTreeMap::new();
    match &values {
        Ok(v) => {
            compare(&mut m, "committed", v, &want, &is);
            m.sample(|| json!({"committed": v.iter().map(|(n, x)| (n.clone(), x.iter().take(4).collect::<Vec<_>>())).collect::<BTreeMap<_, _>>()}));
            known = v.clone();
        }
        Err(e) => {
            m.event("committed_not_evaluable");
            m.sample(|| json!({"committed_not_evaluable": e}));
        }
    }

    // regenerated
    std::fs::create_dir_all(dir.path().join("core/src")).unwrap();
    let o = Command::new(bin("gen_gindices")).current_dir(dir.path()).output().expect("the generator");
    let out = dir.path().join("core/src/guest_gindices.rs");
    m.event("regenerated");
    if !o.status.success() || !out.exists() {
        m.violate("generator-fails", "the generator does not produce the file", json!({"stderr": String::from_utf8_lossy(&o.stderr)}));
    } else {
        match evaluate(dir.path(), &out, &is) {
            Err(e) => m.violate("generated-unreadable", "what the generator writes cannot be compiled", json!({"error": e})),
            Ok(v) => {
                compare(&mut m, "generated", &v, &want, &is);
                let differs: Vec<&String> = known.iter().filter(|(n, x)| v.get(*n) != Some(x)).map(|x| x.0).chain(v.keys().filter(|n| !known.is_empty() && !known.contains_key(*n))).collect();
                m.check(differs.is_empty(), "regenerated-differs", "regenerating does not give the committed constants", || json!({"functions": differs}));
            }
        }
        // the same again, over the old file
        let first = std::fs::read(&out).unwrap();
        let mut longer = first.clone();
        longer.extend(b"\n// left over\n");
        std::fs::write(&out, longer).unwrap();
        let _ = Command::new(bin("gen_gindices")).current_dir(dir.path()).output();
        m.check(std::fs::read(&out).unwrap() == first, "regenerated-again", "regenerating over an existing file gives another one", || json!({}));
    }

    // honest proofs at the specified positions are read as what they prove
    let mut wr = m.rng("worlds");
    let mut i = 0;
    while m.go(i, 40, m.scale(400, 20_000), 0.45) {
        i += 1;
        let w = random_world::<MainnetEthSpec>(&mut wr, &WOpt::default());
        let fulu = core_model::spec::fork_no(&w.spec, w.state_slot / w.slots_per_epoch) >= 6;
        let epochs: Vec<u64> = (w.st.f.e..w.st.f.e + 4).collect();
        let p = w.parts(&BTreeSet::new());
        let got = p.read::<MainnetEthSpec, _>(&w.spec, |r| look(r, &epochs));
        m.case(&("input", w.fill, fulu), true);
        m.event("inputs_read");
        let exp = view(&w, &epochs);
        match got {
            Outcome::Ret(Ok(s)) => {
                m.check(s == exp, "read-differs", "values proven at the specified positions are read as something else", || json!({"fulu": fulu, "validators": w.reg.len()}));
            }
            o => m.violate("honest-refused", "honest proofs at the specified positions are refused", json!({"fulu": fulu, "validators": w.reg.len(), "got": format!("{:?}", o.ret().map(|r| r.err()))})),
        }
    }
    // real states of both forks, proven at the constants
    let mut sr = m.rng("states");
    let mut i = 0;
    while m.go(i, 4, m.scale(60, 3000), 1.0) {
        i += 1;
        state(&mut m, &mut sr, 5 + (i % 2) as usize, if known.is_empty() { &want } else { &known }, &is);
    }
    m.finish()
}

fn compare(m: &mut Monitor, who: &str, got: &BTreeMap<String, Vec<u64>>, want: &BTreeMap<String, Vec<u64>>, is: &[u64]) {
    for (n, w) in want {
        let Some(g) = got.get(n) else {
            m.event(&format!("{who}_lacks_{n}"));
            continue;
        };
        for (k, x) in w.iter().enumerate() {
            m.case(&(n, k), true);
            m.event(if w.len() == 1 { "fixed_positions" } else { "validator_positions" });
            m.check(g.get(k) == Some(x), &format!("{who}-position"), "a constant is not the position of its field", || {
                json!({"function": format!("{n}_gindex"), "validator": (w.len() > 1).then(|| is[k]), "is": g.get(k), "position": x})
            });
        }
    }
}

fn state(m: &mut Monitor, rng: &mut Rng, fork: usize, at: &BTreeMap<String, Vec<u64>>, is: &[u64]) {
    let ty = sm::state(fork);
    let mut val = ty.gen(rng);
    let n = rng.urange(4, 40);
    let reg = Ty::List(Box::new(sm::validator()), 1 << 40);
    let vals: Vec<Val> = (0..n).map(|_| sm::validator().gen(rng)).collect();
    ty.set(&mut val, "validators", Val::L(vals.clone()));
    let root = ty.root(&val);
    let s: BeaconState = match ssz_rs::deserialize(&ty.ssz(&val)) {
        Ok(s) => s,
        Err(e) => {
            m.violate("undecodable", "a well-formed state is not decoded", json!({"fork": sm::FORKS[fork], "error": e.to_string()}));
            return;
        }
    };
    m.event("states_proven");
    m.event(sm::FORKS[fork]);
    m.check(s.hash_tree_root().is_ok_and(|r| r.0 == root), "state-root", "the root of a state is not that of its layout", || json!({"fork": sm::FORKS[fork]}));
    let g: Vec<(&str, &[&str], u64)> = FIELDS.iter().filter_map(|(n, p)| Some((*n, *p, *at.get(*n)?.first()?))).collect();
    let proof = match MultiproofBuilder::new().with_gindices(g.iter().map(|x| x.2 as usize)).build(&s) {
        Ok(p) => p,
        Err(e) => {
            m.violate("unprovable", "no proof at the constants", json!({"fork": sm::FORKS[fork], "error": e.to_string()}));
            return;
        }
    };
    m.check(proof.verify(&root).is_ok(), "proof-root", "a proof at the constants does not belong to the state", || json!({"fork": sm::FORKS[fork]}));
    for (n, p, i) in &g {
        let (mut t, mut v) = (&ty, &val);
        for f in *p {
            v = t.field(v, f).unwrap();
            t = t.ty(f).unwrap();
        }
        let want = t.root(v);
        m.case(&(*n, fork, want), true);
        m.check(proof.get(*i) == Some(&want), "field-value", "the proof at a constant does not hold the field", || json!({"field": n, "fork": sm::FORKS[fork], "gindex": i, "want": hex(&want)}));
    }
    // and of the registry
    let small: Vec<usize> = (0..is.len()).filter(|k| (is[*k] as usize) < n).collect();
    let mut req = vec![];
    for (name, p) in VALIDATOR {
        if let Some(v) = at.get(name) {
            req.extend(small.iter().map(|k| (name, p, is[*k] as usize, v[*k])));
        }
    }
    let proof = match MultiproofBuilder::new().with_gindices(req.iter().map(|x| x.3 as usize)).build(s.validators()) {
        Ok(p) => p,
        Err(e) => {
            m.violate("unprovable", "no proof at the constants", json!({"container": "validators", "error": e.to_string()}));
            return;
        }
    };
    let lroot = reg.root(&Val::L(vals.clone()));
    m.check(proof.verify(&lroot).is_ok(), "proof-root", "a proof at the constants does not belong to the registry", || json!({}));
    for (name, p, i, g) in req {
        let vt = sm::validator();
        let f = vt.field(&vals[i], p[0]).unwrap();
        let want = match p.get(1) {
            None => vt.ty(p[0]).unwrap().root(f),
            Some(k) => {
                let b = vt.ty(p[0]).unwrap().ssz(f);
                let mut c = [0u8; 32];
                let part = if *k == "/0" { &b[..32] } else { &b[32..] };
                c[..part.len()].copy_from_slice(part);
                c
            }
        };
        m.case(&(name, i, want), true);
        m.check(proof.get(g) == Some(&want), "field-value", "the proof at a constant does not hold the validator's field", || json!({"field": name, "validator": i, "gindex": g, "want": hex(&want)}));
    }
}
