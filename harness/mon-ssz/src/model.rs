//! Independent model of compact multiproofs: an adversary-known tree, a wire encoder that can
//! produce any proof (honest or hostile), and a reference parser.
use serde::Serialize;
use sha2::{Digest, Sha256};
use ssz_multiproofs::Multiproof;
use std::sync::OnceLock;
use support::{observe, Outcome, Rng};

pub type Hash = [u8; 32];

pub fn h2(a: &Hash, b: &Hash) -> Hash {
    let mut h = Sha256::new();
    h.update(a);
    h.update(b);
    h.finalize().into()
}

/// A binary Merkle tree known in full.
#[derive(Clone, Debug)]
pub enum Tree {
    Leaf(Hash),
    Node(Box<Tree>, Box<Tree>, Hash),
}

impl Tree {
    pub fn hash(&self) -> Hash {
        match self {
            Tree::Leaf(h) | Tree::Node(_, _, h) => *h,
        }
    }
    pub fn node(l: Tree, r: Tree) -> Tree {
        let h = h2(&l.hash(), &r.hash());
        Tree::Node(Box::new(l), Box::new(r), h)
    }
    pub fn random(rng: &mut Rng, depth: usize, leaf_num: u64, leaf_den: u64) -> Tree {
        if depth == 0 || rng.chance(leaf_num, leaf_den) {
            return Tree::Leaf(random_leaf(rng));
        }
        let l = Tree::random(rng, depth - 1, leaf_num, leaf_den);
        let r = Tree::random(rng, depth - 1, leaf_num, leaf_den);
        Tree::node(l, r)
    }
    /// A path of `dirs` from the root, with random siblings, ending in `end`.
    pub fn spine(rng: &mut Rng, dirs: &[bool], end: Tree) -> Tree {
        let mut t = end;
        for &right in dirs.iter().rev() {
            let s = Tree::Leaf(random_leaf(rng));
            t = if right { Tree::node(s, t) } else { Tree::node(t, s) };
        }
        t
    }
    /// The node at a generalized index, if the tree extends that far.
    pub fn at(&self, gindex: u64) -> Option<Hash> {
        if gindex == 0 {
            return None;
        }
        let len = 63 - gindex.leading_zeros();
        let mut t = self;
        for i in (0..len).rev() {
            match t {
                Tree::Leaf(_) => return None,
                Tree::Node(l, r, _) => t = if (gindex >> i) & 1 == 1 { r } else { l },
            }
        }
        Some(t.hash())
    }
    pub fn replace(&self, path: &[bool], new: Tree) -> Tree {
        match (path.split_first(), self) {
            (None, _) => new,
            (Some((d, rest)), Tree::Node(l, r, _)) => {
                if *d {
                    Tree::node((**l).clone(), r.replace(rest, new))
                } else {
                    Tree::node(l.replace(rest, new), (**r).clone())
                }
            }
            (Some(_), Tree::Leaf(_)) => self.clone(),
        }
    }
    /// A proof cutting the tree at a random frontier; `p_cut`% chance to stop at an inner node.
    pub fn random_proof(&self, rng: &mut Rng, p_cut: u64, mask_pct: u64) -> Raw {
        let mut raw = Raw::default();
        self.emit(rng, p_cut, mask_pct, 0, &mut raw);
        raw
    }
    fn emit(&self, rng: &mut Rng, p_cut: u64, mask_pct: u64, depth: usize, raw: &mut Raw) {
        raw.hint = raw.hint.max(depth + 1);
        match self {
            Tree::Node(l, r, _) if depth == 0 || !rng.chance(p_cut, 100) => {
                raw.desc.push(false);
                l.emit(rng, p_cut, mask_pct, depth + 1, raw);
                r.emit(rng, p_cut, mask_pct, depth + 1, raw);
            }
            t => {
                raw.desc.push(true);
                raw.data.extend_from_slice(&t.hash());
                raw.mask.push(rng.chance(mask_pct, 100));
            }
        }
    }
    /// A proof opening exactly the given path (all siblings as helpers), its end marked as value.
    pub fn path_proof(&self, path: &[bool]) -> Raw {
        let mut raw = Raw::default();
        self.emit_path(path, 0, &mut raw);
        raw
    }
    fn emit_path(&self, path: &[bool], depth: usize, raw: &mut Raw) {
        raw.hint = raw.hint.max(depth + 1);
        let leaf = |t: &Tree, v: bool, raw: &mut Raw| {
            raw.desc.push(true);
            raw.data.extend_from_slice(&t.hash());
            raw.mask.push(v);
        };
        match (path.split_first(), self) {
            (Some((d, rest)), Tree::Node(l, r, _)) => {
                raw.desc.push(false);
                if *d {
                    leaf(l, false, raw);
                    r.emit_path(rest, depth + 1, raw);
                } else {
                    l.emit_path(rest, depth + 1, raw);
                    leaf(r, false, raw);
                }
            }
            _ => leaf(self, true, raw),
        }
    }
}

pub fn random_leaf(rng: &mut Rng) -> Hash {
    match rng.below(6) {
        0 => [0; 32],
        1 => {
            let mut b = [0; 32];
            b[..8].copy_from_slice(&rng.below(1000).to_le_bytes());
            b
        }
        _ => rng.bytes32(),
    }
}

/// A complete shape with exactly `leaves` leaves, no deeper than `depth`; `skew`% of the splits are lopsided.
pub fn bounded_shape(rng: &mut Rng, leaves: usize, depth: u32, skew: u64) -> Vec<bool> {
    let mut desc = Vec::with_capacity(2 * leaves);
    let mut todo = vec![(leaves, depth)];
    while let Some((n, d)) = todo.pop() {
        if n == 1 {
            desc.push(true);
            continue;
        }
        let cap = 1usize.checked_shl(d - 1).filter(|c| *c > 0).unwrap_or(usize::MAX).min(n - 1);
        let (lo, hi) = ((n - cap.min(n - 1)).max(1), cap);
        let l = if rng.chance(skew, 100) { if rng.bool() { lo } else { hi } } else { rng.urange(lo, hi) };
        desc.push(false);
        todo.push((n - l, d - 1));
        todo.push((l, d - 1));
    }
    desc
}

/// Leaf contents drawn from a few values that also occur as hashes of one another, so that equal
/// leaves, all-zero subtrees and leaves equal to inner nodes are common.
pub fn palette_data(rng: &mut Rng, leaves: usize) -> Vec<u8> {
    let z1 = h2(&[0; 32], &[0; 32]);
    let z2 = h2(&z1, &z1);
    let r = rng.bytes32();
    let all = [[0; 32], z1, z2, r, h2(&r, &r), h2(&[0; 32], &r), [0xff; 32]];
    let n = rng.urange(1, all.len());
    let mut data = Vec::with_capacity(32 * leaves);
    for _ in 0..leaves {
        data.extend_from_slice(&all[rng.idx(n)]);
    }
    data
}

/// A well-formed proof of up to `max` nodes and depth at most 63.
pub fn wellformed(rng: &mut Rng, max: usize) -> Raw {
    let leaves = rng.urange(2, max.max(2));
    let skew = *rng.pick(&[0u64, 10, 60, 100]);
    let need = usize::BITS - (leaves - 1).leading_zeros();
    let depth = (*rng.pick(&[need, need + 1, 40, 63])).clamp(need, 63);
    let desc = bounded_shape(rng, leaves, depth, skew);
    let pct = *rng.pick(&[0u64, 1, 30, 50, 97, 100]);
    let data = if rng.bool() { rng.bytes(32 * leaves) } else { palette_data(rng, leaves) };
    let mut mask: Vec<bool> = (0..leaves).map(|_| rng.chance(pct, 100)).collect();
    if rng.chance(1, 3) {
        // a run of marked nodes, the rest unmarked
        let (a, b) = (rng.idx(leaves), rng.idx(leaves));
        mask = (0..leaves).map(|i| i >= a.min(b) && i <= a.max(b)).collect();
    }
    Raw { data, mask, hint: depth as usize + 2, desc, ..Default::default() }
}

/// All the content of a serialized multiproof, freely choosable.
#[derive(Clone, Debug, Default, PartialEq, Hash, Serialize)]
pub struct Raw {
    pub data: Vec<u8>,
    pub mask: Vec<bool>,
    pub desc: Vec<bool>,
    pub hint: usize,
    pub desc_head: u8,
    pub mask_head: u8,
}

#[derive(Serialize)]
struct BitIdx {
    width: u8,
    index: u8,
}
#[derive(Serialize)]
struct BitSeq {
    order: &'static str,
    head: BitIdx,
    bits: u64,
    data: Vec<u32>,
}

fn bitseq(bits: &[bool], head: u8) -> BitSeq {
    let n = bits.len() + head as usize;
    let mut data = vec![0u32; n.div_ceil(32)];
    for (i, b) in bits.iter().enumerate() {
        let k = i + head as usize;
        if *b {
            data[k / 32] |= 1 << (k % 32);
        }
    }
    // bits before the head are arbitrary
    if let Some(w) = data.first_mut() {
        *w |= 0xA5A5_A5A5 & ((1u64 << head) - 1) as u32;
    }
    BitSeq { order: "bitvec::order::Lsb0", head: BitIdx { width: 32, index: head }, bits: bits.len() as u64, data }
}

/// Order in which the four parts are laid out; found by probing so that it is not assumed.
const PERMS: [[u8; 4]; 24] = {
    let mut out = [[0u8; 4]; 24];
    let mut n = 0;
    let mut a = 0;
    while a < 4 {
        let mut b = 0;
        while b < 4 {
            let mut c = 0;
            while c < 4 {
                if a != b && b != c && a != c {
                    out[n] = [a, b, c, 6 - a - b - c];
                    n += 1;
                }
                c += 1;
            }
            b += 1;
        }
        a += 1;
    }
    out
};

struct Wire<'a>(&'a Raw, [u8; 4]);
impl Serialize for Wire<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeTuple;
        let mut t = s.serialize_tuple(4)?;
        for k in self.1 {
            match k {
                0 => t.serialize_element(&self.0.data)?,
                1 => t.serialize_element(&bitseq(&self.0.mask, self.0.mask_head))?,
                2 => t.serialize_element(&bitseq(&self.0.desc, self.0.desc_head))?,
                _ => t.serialize_element(&self.0.hint)?,
            }
        }
        t.end()
    }
}

fn layout() -> [u8; 4] {
    static L: OnceLock<[u8; 4]> = OnceLock::new();
    *L.get_or_init(|| {
        let t = Tree::node(Tree::node(Tree::Leaf([1; 32]), Tree::Leaf([2; 32])), Tree::Leaf([3; 32]));
        let mut raw = t.path_proof(&[false, true]);
        raw.hint = 3;
        for p in PERMS {
            let bytes = bincode::serialize(&Wire(&raw, p)).unwrap();
            let ok = observe(|| {
                bincode::deserialize::<Multiproof>(&bytes)
                    .map(|m| m.verify(&t.hash()).is_ok() && m.values().eq([(5u64, &[2u8; 32])]))
                    .unwrap_or(false)
            });
            if ok == Outcome::Ret(true) {
                return p;
            }
        }
        PERMS[0]
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Codec {
    Bincode,
    Postcard,
}

impl Raw {
    pub fn encode(&self, c: Codec) -> Vec<u8> {
        let w = Wire(self, layout());
        match c {
            Codec::Bincode => bincode::serialize(&w).unwrap(),
            Codec::Postcard => postcard::to_stdvec(&w).unwrap(),
        }
    }
    pub fn json(&self) -> serde_json::Value {
        let bits = |v: &[bool]| v.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>();
        serde_json::json!({"data": support::hex(&self.data[..self.data.len().min(8192)]), "data_len": self.data.len(), "mask": bits(&self.mask), "descriptor": bits(&self.desc),
            "hint": self.hint, "descriptor_head": self.desc_head, "mask_head": self.mask_head})
    }
}

pub fn decode(bytes: &[u8], c: Codec) -> Outcome<Result<Multiproof<'_>, String>> {
    observe(|| match c {
        Codec::Bincode => bincode::deserialize(bytes).map_err(|e| e.to_string()),
        Codec::Postcard => postcard::from_bytes(bytes).map_err(|e| e.to_string()),
    })
}

/// What the shape and data mean, computed without looking at the implementation.
#[derive(Debug, Clone)]
pub struct Parsed {
    /// leaves in depth-first order: path from the root and content
    pub leaves: Vec<(Vec<bool>, Hash)>,
    pub root: Hash,
}

impl Parsed {
    pub fn max_depth(&self) -> usize {
        self.leaves.iter().map(|l| l.0.len()).max().unwrap_or(0)
    }
}

pub fn gindex(path: &[bool]) -> Option<u64> {
    (path.len() <= 63).then(|| path.iter().fold(1u64, |g, b| (g << 1) | *b as u64))
}

/// `None` unless the shape is exactly one complete binary tree and all its leaves have data.
pub fn parse(raw: &Raw) -> Option<Parsed> {
    // Kraft-style count: the tree is complete when no node is pending, exactly at the end
    let mut pending = 1u64;
    for (i, b) in raw.desc.iter().enumerate() {
        if *b {
            pending -= 1;
            if pending == 0 && i + 1 != raw.desc.len() {
                return None;
            }
        } else {
            pending += 1;
        }
    }
    if raw.desc.is_empty() || pending != 0 {
        return None;
    }
    let n = raw.desc.iter().filter(|b| **b).count();
    if raw.data.len() < n * 32 {
        return None;
    }
    // leaf depths and paths: after a leaf, the next one continues right of the deepest left turn
    let mut leaves = Vec::with_capacity(n);
    let mut path: Vec<bool> = vec![];
    let mut k = 0;
    for b in &raw.desc {
        if !*b {
            path.push(false);
        } else {
            leaves.push((path.clone(), raw.data[32 * k..32 * k + 32].try_into().unwrap()));
            k += 1;
            while path.last() == Some(&true) {
                path.pop();
            }
            if let Some(l) = path.last_mut() {
                *l = true;
            }
        }
    }
    // root: merge equal-depth neighbours
    let mut acc: Vec<(usize, Hash)> = vec![];
    for (p, h) in &leaves {
        acc.push((p.len(), *h));
        while acc.len() >= 2 && acc[acc.len() - 1].0 == acc[acc.len() - 2].0 {
            let (d, r) = acc.pop().unwrap();
            let (_, l) = acc.pop().unwrap();
            acc.push((d - 1, h2(&l, &r)));
        }
    }
    assert!(acc.len() == 1 && acc[0].0 == 0);
    Some(Parsed { root: acc[0].1, leaves })
}

/// Everything a consumer can see of a proof.
pub struct Seen {
    pub verify: Outcome<Result<(), String>>,
    pub root: Outcome<Result<Hash, String>>,
}

pub fn see(m: &Multiproof, root: &Hash) -> Seen {
    Seen {
        verify: observe(|| m.verify(root).map_err(|e| e.to_string())),
        root: observe(|| m.calculate_root().map_err(|e| e.to_string())),
    }
}

/// Values exposed by iteration, up to a panic if there is one.
pub fn exposed(m: &Multiproof) -> (Vec<(u64, Hash)>, bool) {
    let mut out = vec![];
    let p = observe(|| {
        for (g, v) in m.values() {
            out.push((g, *v))
        }
    });
    (out, p.is_panic())
}
pub fn exposed_nodes(m: &Multiproof) -> (Vec<(u64, Hash)>, bool) {
    let mut out = vec![];
    let p = observe(|| {
        for (g, v) in m.nodes() {
            out.push((g, *v))
        }
    });
    (out, p.is_panic())
}
