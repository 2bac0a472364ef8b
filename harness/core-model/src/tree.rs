//! Sparse Merkle trees with generalized indices up to 63 bits, and proofs opening a chosen set of them.
use crate::ssz::{h2, Hash, Raw};
use std::collections::BTreeSet;
use std::rc::Rc;
use std::sync::OnceLock;

#[derive(Clone, Debug)]
pub enum T {
    Leaf(Hash),
    Node(Rc<T>, Rc<T>, Hash),
}
pub fn zero(depth: usize) -> Hash {
    static Z: OnceLock<Vec<Hash>> = OnceLock::new();
    Z.get_or_init(|| {
        let mut v = vec![[0u8; 32]];
        for i in 0..63 {
            v.push(h2(&v[i], &v[i]));
        }
        v
    })[depth]
}
impl T {
    pub fn hash(&self) -> Hash {
        match self {
            T::Leaf(h) | T::Node(_, _, h) => *h,
        }
    }
    pub fn node(l: Rc<T>, r: Rc<T>) -> Rc<T> {
        let h = h2(&l.hash(), &r.hash());
        Rc::new(T::Node(l, r, h))
    }
    pub fn leaf(h: Hash) -> Rc<T> {
        Rc::new(T::Leaf(h))
    }
    /// the given subtrees at depth `depth`, zero subtrees of height `under` behind them
    pub fn of(items: &[Rc<T>], depth: usize, under: usize) -> Rc<T> {
        if items.is_empty() {
            return T::leaf(zero(depth + under));
        }
        if depth == 0 {
            return items[0].clone();
        }
        let half = 1usize << (depth - 1).min(60);
        let (l, r) = items.split_at(items.len().min(half));
        T::node(T::of(l, depth - 1, under), T::of(r, depth - 1, under))
    }
    pub fn leaves(items: &[Hash], depth: usize) -> Rc<T> {
        T::of(&items.iter().map(|h| T::leaf(*h)).collect::<Vec<_>>(), depth, 0)
    }
    pub fn at(&self, g: u64) -> Option<Hash> {
        let mut t = self;
        for i in (0..63 - g.leading_zeros()).rev() {
            match t {
                T::Leaf(_) => return None,
                T::Node(l, r, _) => t = if g >> i & 1 == 1 { r } else { l },
            }
        }
        Some(t.hash())
    }
    /// an honest proof whose values are exactly the nodes at `want` (none an ancestor of another)
    pub fn proof(&self, want: &BTreeSet<u64>) -> Raw {
        let mut raw = Raw::default();
        self.emit(1, want, 0, &mut raw);
        raw
    }
    fn emit(&self, g: u64, want: &BTreeSet<u64>, depth: usize, raw: &mut Raw) {
        raw.hint = raw.hint.max(depth + 1);
        let inside = !want.contains(&g) && below(g, want);
        match self {
            T::Node(l, r, _) if inside => {
                raw.desc.push(false);
                l.emit(2 * g, want, depth + 1, raw);
                r.emit(2 * g + 1, want, depth + 1, raw);
            }
            T::Leaf(h) if inside && (1..63).any(|d| zero(d) == *h) => {
                let d = (1..63).find(|d| zero(*d) == *h).unwrap();
                let half = T::leaf(zero(d - 1));
                raw.desc.push(false);
                half.emit(2 * g, want, depth + 1, raw);
                half.emit(2 * g + 1, want, depth + 1, raw);
            }
            _ => {
                raw.desc.push(true);
                raw.data.extend_from_slice(&self.hash());
                raw.mask.push(want.contains(&g));
            }
        }
    }
}
/// is a wanted index strictly below `g`?
fn below(g: u64, want: &BTreeSet<u64>) -> bool {
    let d = 63 - g.leading_zeros();
    // per deeper level, the descendants of g form one range
    (1..=(62 - d.min(62))).any(|k| {
        let lo = g << k;
        want.range(lo..lo + (1u64 << k)).next().is_some()
    })
}
pub fn u64_chunk(v: u64) -> Hash {
    let mut b = [0; 32];
    b[..8].copy_from_slice(&v.to_le_bytes());
    b
}
