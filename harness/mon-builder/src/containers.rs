//! Things to build proofs over: arbitrary binary trees and SSZ containers of every kind of field.
use crate::model::{self, Hash};
use ssz_rs::prelude::*;
use ssz_rs::Tree;
use support::Rng;

/// an arbitrary binary Merkle tree, presented as an SSZ container
pub struct Raw {
    pub model: model::Tree,
}
fn convert(t: &model::Tree) -> Tree {
    match t {
        model::Tree::Leaf(h) => Tree::leaf(Node::from(*h)),
        model::Tree::Node(l, r, _) => Tree::pair(convert(l), convert(r)),
    }
}
impl GeneralizedIndexable for Raw {}
impl Prove for Raw {
    fn compute_tree(&self) -> Result<Tree, MerkleizationError> {
        Ok(convert(&self.model))
    }
}

#[derive(SimpleSerialize, Default, Clone, Debug)]
pub struct Leafy {
    pub a: u64,
    pub flag: bool,
    pub root: Node,
    pub key: Vector<u8, 48>,
    pub x: u64,
    pub y: u64,
    pub z: u8,
    pub w: u32,
}
#[derive(SimpleSerialize, Default, Clone, Debug)]
pub struct Fixed {
    pub one: u64,
    pub inner: Leafy,
    pub nums: Vector<u64, 13>,
    pub roots: Vector<Node, 9>,
}
#[derive(SimpleSerialize, Default, Clone, Debug)]
pub struct Variable {
    pub slot: u64,
    pub bytes: List<u8, 1000>,
    pub big: List<Leafy, 1099511627776>,
    pub nums: List<u64, 1099511627776>,
    pub fixed: Fixed,
    pub bits: Bitlist<2048>,
    pub flags: Bitvector<300>,
    pub nested: List<List<u64, 64>, 16>,
    pub none: List<Node, 4>,
    pub tail: u64,
}
#[derive(SimpleSerialize, Default, Clone, Debug)]
pub struct Single {
    pub only: Variable,
}

fn leafy(r: &mut Rng) -> Leafy {
    Leafy {
        a: r.u64(),
        flag: r.bool(),
        root: Node::from(r.bytes32()),
        key: r.bytes(48).try_into().unwrap(),
        x: r.u64(),
        y: r.u64(),
        z: r.u64() as u8,
        w: r.u64() as u32,
    }
}
pub fn fixed(r: &mut Rng) -> Fixed {
    Fixed {
        one: r.u64(),
        inner: leafy(r),
        nums: (0..13).map(|_| r.u64()).collect::<Vec<_>>().try_into().unwrap(),
        roots: (0..9).map(|_| Node::from(r.bytes32())).collect::<Vec<_>>().try_into().unwrap(),
    }
}
pub fn variable(r: &mut Rng) -> Variable {
    let n = r.urange(0, 70);
    let m = r.urange(0, 24);
    let k = r.urange(0, 40);
    let bits = r.urange(0, 600);
    Variable {
        slot: r.u64(),
        bytes: { let b = r.urange(0, 300); r.bytes(b) }.try_into().unwrap(),
        big: (0..m).map(|_| leafy(r)).collect::<Vec<_>>().try_into().unwrap(),
        nums: (0..n).map(|_| r.u64()).collect::<Vec<_>>().try_into().unwrap(),
        fixed: fixed(r),
        bits: Bitlist::from_bits((0..bits).map(|_| r.bool()).collect()),
        flags: Bitvector::from_bits((0..300).map(|_| r.bool()).collect()),
        nested: (0..k.min(16))
            .map(|i| (0..i).map(|_| r.u64()).collect::<Vec<_>>().try_into().unwrap())
            .collect::<Vec<List<u64, 64>>>()
            .try_into()
            .unwrap(),
        none: Default::default(),
        tail: r.u64(),
    }
}

/// a path into `Variable` and the chunk it must lead to, computed from the field itself
pub fn variable_path(v: &Variable, r: &mut Rng) -> (Vec<PathElement>, Hash) {
    let num = |x: u64| {
        let mut h = [0; 32];
        h[..8].copy_from_slice(&x.to_le_bytes());
        h
    };
    let four = |x: &[u64], i: usize| {
        let mut h = [0; 32];
        for k in 0..4 {
            let y = x.get(i / 4 * 4 + k).copied().unwrap_or(0);
            h[8 * k..8 * k + 8].copy_from_slice(&y.to_le_bytes());
        }
        h
    };
    loop {
        return match r.below(12) {
            0 => (vec!["slot".into()], num(v.slot)),
            1 => (vec!["bytes".into(), PathElement::Length], num(v.bytes.len() as u64)),
            2 if !v.bytes.is_empty() => {
                let i = r.idx(v.bytes.len());
                let mut h = [0; 32];
                for (k, b) in v.bytes[i / 32 * 32..].iter().take(32).enumerate() {
                    h[k] = *b;
                }
                (vec!["bytes".into(), i.into()], h)
            }
            3 if !v.big.is_empty() => {
                let i = r.idx(v.big.len());
                let l = &v.big[i];
                let p = |f: &str| vec!["big".into(), i.into(), f.into()];
                match r.below(6) {
                    0 => (p("a"), num(l.a)),
                    1 => (p("flag"), num(l.flag as u64)),
                    2 => (p("root"), l.root.0),
                    3 => (p("w"), num(l.w as u64)),
                    4 => {
                        let mut q = p("key");
                        q.push(47.into());
                        let mut h = [0; 32];
                        h[..16].copy_from_slice(&l.key[32..]);
                        (q, h)
                    }
                    _ => {
                        let mut q = p("key");
                        q.push(0.into());
                        (q, l.key[..32].try_into().unwrap())
                    }
                }
            }
            4 if !v.nums.is_empty() => {
                let i = r.idx(v.nums.len());
                (vec!["nums".into(), i.into()], four(&v.nums, i))
            }
            5 => {
                let i = r.idx(13);
                (vec!["fixed".into(), "nums".into(), i.into()], four(&v.fixed.nums, i))
            }
            6 => {
                let i = r.idx(9);
                (vec!["fixed".into(), "roots".into(), i.into()], v.fixed.roots[i].0)
            }
            7 => (vec!["bits".into(), PathElement::Length], num(v.bits.len() as u64)),
            8 if !v.nested.is_empty() => {
                let i = r.idx(v.nested.len());
                (vec!["nested".into(), i.into(), PathElement::Length], num(v.nested[i].len() as u64))
            }
            9 => (vec!["none".into(), PathElement::Length], num(0)),
            10 => {
                let i = r.idx(4);
                (vec!["none".into(), i.into()], [0; 32])
            }
            11 => (vec!["tail".into()], num(v.tail)),
            _ => continue,
        };
    }
}
