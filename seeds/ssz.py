"""planted changes to ssz-multiproofs/src/multiproof.rs"""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mkseed import make, ROOT
F = "ssz-multiproofs/src/multiproof.rs"

CARGO = open(os.path.join(ROOT, "shadow/ssz-multiproofs/Cargo.toml")).read()


def demo(main):
    def w(d):
        open(os.path.join(d, "ssz.toml"), "w").write(CARGO.replace("/repo/", "@REPO@/"))
        open(os.path.join(d, "demo.toml"), "w").write("""[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[profile.release]
overflow-checks = false
[dependencies]
ssz-multiproofs = { path = "../ssz-multiproofs" }
serde = { version = "1.0", features = ["derive"] }
bincode = "1.3"
sha2 = "0.10.9"
""")
        open(os.path.join(d, "main.rs"), "w").write(PRE + main)
        shutil.copy(os.path.join(ROOT, "harness/mon-ssz/Cargo.lock"), os.path.join(d, "lock"))
        open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
# builds a small program against the multiproof reader of the tree in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/ssz-multiproofs" "$t/demo/src" || exit 9
sed "s|@REPO@|$repo|" "$here/ssz.toml" > "$t/ssz-multiproofs/Cargo.toml"
cp "$here/demo.toml" "$t/demo/Cargo.toml"; cp "$here/lock" "$t/demo/Cargo.lock"; cp "$here/main.rs" "$t/demo/src/main.rs"
cd "$t/demo" || exit 9
export RUSTUP_TOOLCHAIN=1.88 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
cargo build -q --offline --release || exit 8
"$t/target/release/demo"
""")
    return w


PRE = r'''// demonstration program: exits 0 when the stated behaviour holds
use serde::Serialize;
use sha2::{Digest, Sha256};
use ssz_multiproofs::Multiproof;
#[derive(Serialize)]
struct Idx { width: u8, index: u8 }
#[derive(Serialize)]
struct Bits { order: &'static str, head: Idx, bits: u64, data: Vec<u32> }
fn bits(s: &str) -> Bits {
    let mut data = vec![0u32; s.len().div_ceil(32)];
    for (i, c) in s.bytes().enumerate() { if c == b'1' { data[i / 32] |= 1 << (i % 32) } }
    Bits { order: "bitvec::order::Lsb0", head: Idx { width: 32, index: 0 }, bits: s.len() as u64, data }
}
/// serialized proof with the given shape, value marks and leaves
fn wire(shape: &str, mask: &str, leaves: &[[u8; 32]], hint: usize) -> Vec<u8> {
    bincode::serialize(&(leaves.concat(), bits(mask), bits(shape), hint)).unwrap()
}
fn h(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] { let mut s = Sha256::new(); s.update(a); s.update(b); s.finalize().into() }
fn l(i: u8) -> [u8; 32] { [i; 32] }
'''

make("ssz-get-sorted", "S03", "a proof whose depth-first order is not increasing by index (leaves of different depth), looked up at an index after a larger one",
     "lookup by index stops at the first larger index although values come in depth-first order, so present values are reported absent",
     [(F, """            .find(|(g, _)| *g == gindex)
            .map(|(_, node)| node)""", """            .take_while(|(g, _)| *g <= gindex)
            .find(|(g, _)| *g == gindex)
            .map(|(_, node)| node)""")],
     demo('''fn main() {
    // leaves 4, 10, 11, 3 in depth-first order
    let w = wire("0010111", "1111", &[l(1), l(2), l(3), l(4)], 8);
    let m: Multiproof = bincode::deserialize(&w).unwrap();
    m.verify(&h(&h(&l(1), &h(&l(2), &l(3))), &l(4))).unwrap();
    for (g, i) in [(4, 1), (10, 2), (11, 3), (3, 4)] { assert_eq!(m.get(g), Some(&l(i)), "value at {g}"); }
    assert_eq!(m.get(5), None);
}
'''))

make("ssz-root-incomplete", "S02", "a serialized proof whose shape leaves inner nodes open before the last complete subtree",
     "the final stack check is gone, so a shape that is not one complete tree is accepted for the root of its last complete subtree and its values appear at indices below their real ones",
     [(F, """    assert_eq!(stack.len(), 1);
    Ok(match stack.pop().unwrap() {""", """    Ok(match stack.pop().ok_or(Error::InvalidProof)? {""")],
     demo('''fn main() {
    let w = wire("0011", "11", &[l(1), l(2)], 8);
    let m: Multiproof = bincode::deserialize(&w).unwrap();
    let root = h(&l(1), &l(2));
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| m.verify(&root).is_ok());
    if matches!(r, Ok(true)) { println!("incomplete shape accepted"); std::process::exit(1) }
}
'''))

make("ssz-hint-limit", "S04", "a valid proof whose preallocation hint is smaller than the stack its shape needs",
     "the hint, chosen by whoever made the proof, becomes a limit, so the outcome of verification depends on it",
     [(F, """        } else {
            stack.push(TreeNode::Internal);
        }
    }
    assert_eq!(stack.len(), 1);
    Ok(""", """        } else {
            if stack.len() == stack_depth_hint && stack_depth_hint > 0 {
                return Err(Error::InvalidProof);
            }
            stack.push(TreeNode::Internal);
        }
    }
    assert_eq!(stack.len(), 1);
    Ok(""")],
     demo('''fn main() {
    let root = h(&h(&l(1), &h(&l(2), &l(3))), &l(4));
    for hint in [0usize, 1, 2, 3, 4, 100] {
        let w = wire("0010111", "1111", &[l(1), l(2), l(3), l(4)], hint);
        let m: Multiproof = bincode::deserialize(&w).unwrap();
        assert!(m.verify(&root).is_ok(), "hint {hint}");
        assert!(m.verify(&l(9)).is_err());
    }
}
'''))

make("ssz-next-skips", "S03", "a checked read that asks for an index other than the next one",
     "the checked read searches forward instead of insisting on the next value, silently dropping the values in between",
     [(F, """        let (g, node) = self.inner.next().ok_or(Error::MissingValue)?;
        if g == gindex {""", """        let mut inner = self.inner.by_ref().skip_while(|(g, _)| *g < gindex);
        let (g, node) = inner.next().ok_or(Error::MissingValue)?;
        if g == gindex {""")],
     demo('''fn main() {
    let w = wire("0011011", "1111", &[l(1), l(2), l(3), l(4)], 8);
    let m: Multiproof = bincode::deserialize(&w).unwrap();
    let mut v = m.values();
    assert_eq!(v.next_assert_gindex(4).unwrap(), &l(1));
    let e = format!("{:?}", v.next_assert_gindex(6));
    assert!(e.contains("GIndexMismatch") && e.contains("6") && e.contains("5"), "{e}");
    assert_eq!(v.next_assert_gindex(6).unwrap(), &l(3));
}
'''))

make("ssz-u32-stack", "S01", "values in right subtrees deeper than 32 levels",
     "ancestors of pending right children are kept as 32-bit numbers, so values below depth 32 are presented under the index of a shallow position",
     [(F, "    stack: Vec<u64>, // Stack", "    stack: Vec<u32>, // Stack"),
      (F, "self.stack.push(self.current_gindex);", "self.stack.push(self.current_gindex as u32);"),
      (F, "self.current_gindex = self.stack.pop()? * 2 + 1;", "self.current_gindex = u64::from(self.stack.pop()?) * 2 + 1;")],
     demo('''fn main() {
    // a left spine of depth 40; the sibling of the deepest leaf is the value
    let shape = format!("{}{}", "0".repeat(40), "1".repeat(41));
    let mask = format!("01{}", "0".repeat(39));
    let leaves: Vec<[u8; 32]> = (0..41).map(l).collect();
    let mut root = l(0);
    for x in &leaves[1..] { root = h(&root, x) }
    let w = wire(&shape, &mask, &leaves, 50);
    let m: Multiproof = bincode::deserialize(&w).unwrap();
    m.verify(&root).unwrap();
    assert_eq!(m.values().map(|v| v.0).collect::<Vec<_>>(), vec![(1u64 << 40) + 1]);
}
'''))

make("ssz-leaf-counter", "S02", "a proof with more than 65,536 nodes",
     "nodes are counted in 16 bits, so beyond 65,536 of them the first ones are hashed again: the root is wrong, and changes to the data behind go unnoticed",
     [(F, "    let mut node_index = 0;\n    let mut hasher", "    let mut node_index = 0u16;\n    let mut hasher"),
      (F, "&data[node_index * CHUNK_SIZE..(node_index + 1) * CHUNK_SIZE],", "&data[node_index as usize * CHUNK_SIZE..][..CHUNK_SIZE],"),
      (F, "            node_index += 1;\n", "            node_index = node_index.wrapping_add(1);\n")],
     demo('''fn main() {
    // a balanced tree of 2^17 leaves
    fn shape(d: u32, s: &mut String) { if d == 0 { s.push('1') } else { s.push('0'); shape(d - 1, s); shape(d - 1, s) } }
    let mut s = String::new();
    shape(17, &mut s);
    let leaves: Vec<[u8; 32]> = (0..1u32 << 17).map(|i| { let mut x = [0; 32]; x[..4].copy_from_slice(&i.to_le_bytes()); x }).collect();
    let mut level = leaves.clone();
    while level.len() > 1 { level = level.chunks(2).map(|c| h(&c[0], &c[1])).collect() }
    let w = wire(&s, &"1".repeat(leaves.len()), &leaves, 20);
    let m: Multiproof = bincode::deserialize(&w).unwrap();
    assert!(m.verify(&level[0]).is_ok());
    let mut other = leaves.clone();
    other[100_000][9] ^= 1;
    let w = wire(&s, &"1".repeat(leaves.len()), &other, 20);
    let m: Multiproof = bincode::deserialize(&w).unwrap();
    assert!(m.verify(&level[0]).is_err());
}
'''))

make("ssz-values-skip", "S03", "values skipped with nth, skip or step_by in a proof that also has supporting nodes",
     "the shortcut for skipping values skips nodes of the proof instead, so later values are misread",
     [(F, """    fn next(&mut self) -> Option<Self::Item> {
        self.inner.next()
    }
}""", """    fn next(&mut self) -> Option<Self::Item> {
        self.inner.next()
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        // skip in one go instead of item by item
        self.inner.by_ref().step_by(n + 1).next()
    }
}""")],
     demo('''fn main() {
    let w = wire("0011011", "1011", &[l(1), l(2), l(3), l(4)], 8);
    let m: Multiproof = bincode::deserialize(&w).unwrap();
    m.verify(&h(&h(&l(1), &l(2)), &h(&l(3), &l(4)))).unwrap();
    let all: Vec<_> = m.values().map(|(g, v)| (g, *v)).collect();
    assert_eq!(all, vec![(4, l(1)), (6, l(3)), (7, l(4))]);
    for k in 0..4 {
        assert_eq!(m.values().nth(k).map(|(g, v)| (g, *v)), all.get(k).copied(), "nth {k}");
    }
    assert_eq!(m.values().skip(1).map(|(g, v)| (g, *v)).collect::<Vec<_>>(), all[1..]);
}
'''))

make("ssz-equal-siblings", "S02", "a proof in which two sibling nodes are equal, such as the hashes of empty lists",
     "the hash of a pair of equal nodes is remembered from the first such pair, whatever its content, so a different pair gets the wrong hash",
     [(F, "    let mut hasher = Sha256::new();\n    for bit", "    let mut hasher = Sha256::new();\n    // pairs of default nodes are frequent: hash them once\n    let mut twin: Option<[u8; CHUNK_SIZE]> = None;\n    for bit"),
      (F, "                match left {\n", "                if let (TreeNode::Leaf(l), TreeNode::Leaf(r)) = (&left, &right)\n                    && l == r\n                {\n                    let node = *twin.get_or_insert_with(|| {\n                        hasher.update(l);\n                        hasher.update(r);\n                        hasher.finalize_fixed_reset().into()\n                    });\n                    stack.push(TreeNode::Computed(node));\n                    continue;\n                }\n                match left {\n")],
     demo('''fn main() {
    let t = |a: &[u8; 32]| h(a, a);
    let w = wire("0011011", "1111", &[l(1), l(1), l(2), l(2)], 8);
    let m: Multiproof = bincode::deserialize(&w).unwrap();
    assert!(m.verify(&h(&t(&l(1)), &t(&l(2)))).is_ok());
    assert!(m.verify(&h(&t(&l(1)), &t(&l(1)))).is_err());
}
'''))

make("ssz-small-owned", "S04", "a proof whose node data is short",
     "short node data is copied out of the input buffer while deserializing instead of being borrowed from it",
     [(F, "    #[serde(borrow)]\n    pub(crate) data", "    #[serde(borrow, deserialize_with = \"node_data\")]\n    pub(crate) data"),
      (F, "impl Multiproof<'_> {\n    /// Verify", """/// Reads node data; a few nodes are kept inline with the proof so that they stay in cache.
fn node_data<'de: 'a, 'a, D: serde::Deserializer<'de>>(
    deserializer: D,
) -> std::result::Result<Cow<'a, [u8]>, D::Error> {
    let data: &'a [u8] = serde::Deserialize::deserialize(deserializer)?;
    Ok(if data.len() <= 4 * CHUNK_SIZE {
        Cow::Owned(data.to_vec())
    } else {
        Cow::Borrowed(data)
    })
}

impl Multiproof<'_> {
    /// Verify""")],
     demo('''fn main() {
    let w = wire("0010111", "1111", &[l(1), l(2), l(3), l(4)], 8);
    let m: Multiproof = bincode::deserialize(&w).unwrap();
    let range = w.as_ptr_range();
    for (_, v) in m.nodes() { assert!(range.contains(&v.as_ptr()), "node data was copied"); }
}
'''))

make("ssz-check-before-read", "S03", "a checked read that asks for the wrong index, followed by more reads",
     "a checked read that fails leaves the value in place instead of consuming it, so every later read is one value behind",
     [(F, "    I: Iterator<Item = (u64, &'a [u8; CHUNK_SIZE])>,\n{\n    inner: I,\n}", "    I: Iterator<Item = (u64, &'a [u8; CHUNK_SIZE])>,\n{\n    inner: std::iter::Peekable<I>,\n}"),
      (F, "        ValueIterator { inner }", "        ValueIterator {\n            inner: inner.peekable(),\n        }"),
      (F, """        let (g, node) = self.inner.next().ok_or(Error::MissingValue)?;
        if g == gindex {
            Ok(node)
        } else {""", """        let (g, node) = *self.inner.peek().ok_or(Error::MissingValue)?;
        if g == gindex {
            self.inner.next();
            Ok(node)
        } else {""")],
     demo('''fn main() {
    let w = wire("0011011", "1111", &[l(1), l(2), l(3), l(4)], 8);
    let m: Multiproof = bincode::deserialize(&w).unwrap();
    let mut v = m.values();
    assert!(v.next_assert_gindex(6).is_err());
    assert_eq!(v.next_assert_gindex(5).unwrap(), &l(2));
}
'''))

make("ssz-raw-words", "S01", "a serialized proof whose shape bits do not start at the first bit of their storage",
     "indices are read from the raw storage words while the root is computed from the bits proper, so a proof can verify and yet present its values under other indices",
     [(F, "            let bit = self.descriptor[self.descriptor_index];", "            let words = self.descriptor.as_raw_slice();\n            let bit = words[self.descriptor_index / 32] >> (self.descriptor_index % 32) & 1 == 1;")],
     demo('''fn main() {
    // the shape 0 0 1 1 1 stored behind one further bit
    let shape = Bits { order: "bitvec::order::Lsb0", head: Idx { width: 32, index: 1 }, bits: 5, data: vec![0b111000] };
    let mut raw = shape;
    for first in [0u32, 1] {
        raw.data[0] = 0b111000 | first;
        let w = bincode::serialize(&([l(1), l(2), l(3)].concat(), bits("111"), &raw, 5usize)).unwrap();
        let Ok(m) = bincode::deserialize::<Multiproof>(&w) else { continue };
        if m.verify(&h(&h(&l(1), &l(2)), &l(3))).is_err() { continue }
        let got: Vec<_> = m.values().map(|(g, v)| (g, *v)).collect();
        assert_eq!(got, vec![(4, l(1)), (5, l(2)), (3, l(3))]);
    }
}
'''))
