"""planted changes to ssz-multiproofs/src/builder.rs"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import kit, make
F = "ssz-multiproofs/src/builder.rs"

PRE = r'''// demonstration program: exits 0 when the stated behaviour holds
#![allow(unused)]
use ssz_multiproofs::{Multiproof, MultiproofBuilder};
use ssz_rs::prelude::*;
use ssz_rs::Tree;
struct Full(u32);
impl GeneralizedIndexable for Full {}
impl Prove for Full {
    fn compute_tree(&self) -> Result<Tree, MerkleizationError> {
        fn go(d: u32, at: u64) -> Tree {
            if d == 0 {
                let mut h = [0u8; 32];
                h[..8].copy_from_slice(&at.to_le_bytes());
                return Tree::leaf(Node::from(h));
            }
            Tree::pair(go(d - 1, 2 * at), go(d - 1, 2 * at + 1))
        }
        Ok(go(self.0, 1))
    }
}
'''
D = lambda main: kit(PRE + main, "mon-builder")

make("builder-many-positions", "S05", "more than 20000 positions on several levels of the tree, so that the collection is split between workers and one half's helpers lie on the other half's paths",
     "the paths of the second half are forgotten when halves are merged, so nodes on them are included as siblings: the proof does not verify",
     [(F, "                p1.extend(p2);\n", "                if p2.len() > p1.len() {\n                    p1 = p2;\n                }\n")],
     D(r'''fn main() {
    let c = Full(16);
    let root = c.compute_tree().unwrap().root();
    for keep in [3usize, 7, 1000] {
        let req: Vec<usize> = (1usize << 16..1 << 17).filter(|i| i % keep != 0).collect();
        let m = MultiproofBuilder::new().with_gindices(req.clone()).build(&c).expect("built");
        if m.verify(&root).is_err() || !m.values().map(|v| v.0 as usize).eq(req.iter().copied()) { println!("wrong proof"); std::process::exit(1) }
    }
}
'''))

make("builder-repeated-position", "S06", "the same position registered twice with another one in between",
     "the builder keeps a list and drops only adjacent repetitions: a position registered twice is included twice",
     [(F, "    gindices: BTreeSet<GeneralizedIndex>,\n}", "    gindices: Vec<GeneralizedIndex>,\n}"),
      (F, "            gindices: BTreeSet::new(),", "            gindices: Vec::new(),"),
      (F, "        self.gindices\n            .insert(T::generalized_index(path).expect(\"Path is not valid for this type\"));",
       "        self.gindices\n            .push(T::generalized_index(path).expect(\"Path is not valid for this type\"));"),
      (F, "        self.gindices.insert(gindex);", "        self.gindices.push(gindex);"),
      (F, "        let gindices = self.gindices.into_iter().collect::<Vec<_>>();", "        let mut gindices = self.gindices;\n        gindices.dedup();"),
      (F, "use std::collections::BTreeSet;\n", "")],
     D(r'''fn main() {
    let c = Full(5);
    let b = |v: &[usize]| bincode::serialize(&v.iter().fold(MultiproofBuilder::new(), |b, g| b.with_gindex(*g)).build(&c).unwrap()).unwrap();
    let a = b(&[33, 40, 52]);
    for v in [&[52, 40, 33][..], &[33, 33, 40, 52], &[33, 40, 33, 52, 40]] {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b(v))) {
            Ok(x) if x == a => {}
            _ => { println!("differs for {v:?}"); std::process::exit(1) }
        }
    }
}
'''))

make("builder-missing-as-zero", "S07", "a requested position below a leaf of the container",
     "nodes that the container does not have are included as zero instead of being reported",
     [(F, "                prover.compute_proof_cached_tree(container, &tree)?;\n                let proof = prover.into_proof();\n                Ok(proof.leaf)",
       "                // elements past the end of a list are zero\n                let leaf = match prover.compute_proof_cached_tree(container, &tree) {\n                    Ok(()) => prover.into_proof().leaf,\n                    Err(_) => Default::default(),\n                };\n                Ok(leaf)")],
     D(r'''fn main() {
    let c = Full(5);
    assert!(MultiproofBuilder::new().with_gindex(33).build(&c).is_ok());
    for g in [64usize, 100, 33 << 7, usize::MAX / 3] {
        if MultiproofBuilder::new().with_gindices([40, g]).build(&c).is_ok() { println!("built for {g}"); std::process::exit(1) }
    }
}
'''))
