//! Stand-in for `ssz_rs`, which is not in the cargo cache: SSZ values, their encoding, Merkleization, generalized
//! indices and proofs, written from the consensus specification (`simple-serialize.md`, `merkle-proofs.md`).
extern crate self as ssz_rs;

use sha2::{Digest, Sha256};
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::{Arc, OnceLock};

pub use alloy_primitives::{B256, U256};
pub use ssz_rs_derive::{GeneralizedIndexable, HashTreeRoot, Prove, Serializable, SimpleSerialize};

pub type Node = B256;
pub type GeneralizedIndex = usize;
pub type Path<'a> = &'a [PathElement];

pub mod prelude {
    pub use crate::{
        deserialize, proofs, serialize, Bitlist, Bitvector, Deserialize, DeserializeError, GeneralizedIndex,
        GeneralizedIndexable, HashTreeRoot, List, MerkleizationError, Node, Path, PathElement, Prove, Serializable,
        Serialize, SerializeError, SimpleSerialize, Vector, U256,
    };
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PathElement {
    Field(String),
    Index(usize),
    Length,
    Selector,
}
impl From<&str> for PathElement {
    fn from(s: &str) -> Self {
        Self::Field(s.into())
    }
}
impl From<usize> for PathElement {
    fn from(s: usize) -> Self {
        Self::Index(s)
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum MerkleizationError {
    InvalidGeneralizedIndex,
    InvalidPathElement(PathElement),
    InvalidPath(Vec<PathElement>),
    NoInnerElement,
    InvalidInnerIndex,
    SerializationError,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum DeserializeError {
    ExpectedFurtherInput { provided: usize, expected: usize },
    AdditionalInput { provided: usize, expected: usize },
    InvalidOffset,
    InvalidBounds,
    InvalidInput,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SerializeError;
macro_rules! err {
    ($($t:ty),*) => {$(
        impl fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") }
        }
        impl std::error::Error for $t {}
    )*};
}
err!(MerkleizationError, DeserializeError, SerializeError);

pub trait Serialize {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError>;
}
pub trait Deserialize: Sized {
    fn deserialize(encoding: &[u8]) -> Result<Self, DeserializeError>;
}
pub trait Serializable: Serialize + Deserialize {
    fn is_variable_size() -> bool;
    fn size_hint() -> usize;
    #[doc(hidden)]
    fn basic_size() -> Option<usize> {
        None
    }
}
pub trait HashTreeRoot {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError>;
}
pub trait GeneralizedIndexable {
    fn chunk_count() -> usize {
        1
    }
    fn generalized_index(path: Path) -> Result<GeneralizedIndex, MerkleizationError> {
        Self::compute_generalized_index(1, path)
    }
    fn compute_generalized_index(parent: GeneralizedIndex, path: Path) -> Result<GeneralizedIndex, MerkleizationError> {
        match path.first() {
            None => Ok(parent),
            Some(p) => Err(MerkleizationError::InvalidPathElement(p.clone())),
        }
    }
}
pub trait Prove: GeneralizedIndexable {
    fn compute_tree(&self) -> Result<Tree, MerkleizationError>;
}
pub trait SimpleSerialize: Serializable + HashTreeRoot + Prove + GeneralizedIndexable {}

pub fn serialize<T: Serialize>(value: &T) -> Result<Vec<u8>, SerializeError> {
    let mut v = vec![];
    value.serialize(&mut v)?;
    Ok(v)
}
pub fn deserialize<T: Deserialize>(encoding: &[u8]) -> Result<T, DeserializeError> {
    T::deserialize(encoding)
}

// ---------------------------------------------------------------- hashing

fn hash2(a: &Node, b: &Node) -> Node {
    let mut h = Sha256::new();
    h.update(a);
    h.update(b);
    Node::from_slice(&h.finalize())
}

struct Zeros {
    hashes: Vec<Node>,
    trees: Vec<Tree>,
}
fn zeros() -> &'static Zeros {
    static Z: OnceLock<Zeros> = OnceLock::new();
    Z.get_or_init(|| {
        let mut hashes = vec![Node::ZERO];
        let mut trees = vec![Tree::leaf(Node::ZERO)];
        for i in 0..64 {
            hashes.push(hash2(&hashes[i], &hashes[i]));
            let t = trees[i].clone();
            trees.push(Tree(Arc::new(Inner { hash: hashes[i + 1], kids: Some((t.clone(), t)) })));
        }
        Zeros { hashes, trees }
    })
}

/// A Merkle tree that keeps its inner nodes.
#[derive(Clone)]
pub struct Tree(Arc<Inner>);
struct Inner {
    hash: Node,
    kids: Option<(Tree, Tree)>,
}
impl Tree {
    pub fn leaf(hash: Node) -> Self {
        Self(Arc::new(Inner { hash, kids: None }))
    }
    pub fn pair(a: Tree, b: Tree) -> Self {
        Self(Arc::new(Inner { hash: hash2(&a.0.hash, &b.0.hash), kids: Some((a, b)) }))
    }
    pub fn root(&self) -> Node {
        self.0.hash
    }
    /// the node at a generalized index, if the tree has one there
    pub fn node(&self, index: GeneralizedIndex) -> Option<&Tree> {
        if index == 0 {
            return None;
        }
        let mut t = self;
        for bit in (0..index.ilog2()).rev() {
            let (l, r) = t.0.kids.as_ref()?;
            t = if index >> bit & 1 == 0 { l } else { r };
        }
        Some(t)
    }
}
impl fmt::Debug for Tree {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Tree({})", self.0.hash)
    }
}

fn depth_of(chunks: usize) -> usize {
    chunks.max(1).next_power_of_two().trailing_zeros() as usize
}

fn merkle_root(mut layer: Vec<Node>, depth: usize) -> Node {
    let z = zeros();
    if layer.is_empty() {
        return z.hashes[depth];
    }
    for level in 0..depth {
        let n = layer.len().div_ceil(2);
        let mut last: Option<(Node, Node, Node)> = None;
        for i in 0..n {
            let a = layer[2 * i];
            let b = if 2 * i + 1 < layer.len() { layer[2 * i + 1] } else { z.hashes[level] };
            let h = match &last {
                Some((x, y, h)) if *x == a && *y == b => *h,
                _ => hash2(&a, &b),
            };
            last = Some((a, b, h));
            layer[i] = h;
        }
        layer.truncate(n);
    }
    layer[0]
}

fn merkle_tree(mut layer: Vec<Tree>, depth: usize) -> Tree {
    let z = zeros();
    if layer.is_empty() {
        return z.trees[depth].clone();
    }
    for level in 0..depth {
        let mut next: Vec<Tree> = Vec::with_capacity(layer.len().div_ceil(2));
        let mut last: Option<(Tree, Tree, Tree)> = None;
        for p in layer.chunks(2) {
            let a = p[0].clone();
            let b = if p.len() > 1 { p[1].clone() } else { z.trees[level].clone() };
            let t = match &last {
                Some((x, y, t)) if x.root() == a.root() && y.root() == b.root() => t.clone(),
                _ => Tree::pair(a.clone(), b.clone()),
            };
            last = Some((a, b, t.clone()));
            next.push(t);
        }
        layer = next;
    }
    layer.swap_remove(0)
}

fn pack(bytes: &[u8]) -> Vec<Node> {
    bytes
        .chunks(32)
        .map(|c| {
            let mut n = [0u8; 32];
            n[..c.len()].copy_from_slice(c);
            Node::from(n)
        })
        .collect()
}

fn length_chunk(n: usize) -> Node {
    let mut c = [0u8; 32];
    c[..8].copy_from_slice(&(n as u64).to_le_bytes());
    Node::from(c)
}

fn leaves(nodes: Vec<Node>) -> Vec<Tree> {
    let mut out: Vec<Tree> = Vec::with_capacity(nodes.len());
    for n in nodes {
        match out.last() {
            Some(t) if t.root() == n => out.push(out[out.len() - 1].clone()),
            _ => out.push(Tree::leaf(n)),
        }
    }
    out
}

#[doc(hidden)]
pub mod __internal {
    use super::*;

    pub fn container_root(fields: &[Node]) -> Result<Node, MerkleizationError> {
        Ok(merkle_root(fields.to_vec(), depth_of(fields.len())))
    }
    pub fn container_tree(fields: Vec<Tree>) -> Result<Tree, MerkleizationError> {
        let d = depth_of(fields.len());
        Ok(merkle_tree(fields, d))
    }

    #[derive(Default)]
    pub struct Writer {
        parts: Vec<(Vec<u8>, bool)>,
    }
    impl Writer {
        pub fn field<T: Serializable>(&mut self, x: &T) -> Result<(), SerializeError> {
            let mut v = vec![];
            x.serialize(&mut v)?;
            self.parts.push((v, T::is_variable_size()));
            Ok(())
        }
        pub fn finish(self, out: &mut Vec<u8>) -> usize {
            let start = out.len();
            let mut at: usize = self.parts.iter().map(|(v, var)| if *var { 4 } else { v.len() }).sum();
            for (v, var) in &self.parts {
                if *var {
                    out.extend((at as u32).to_le_bytes());
                    at += v.len();
                } else {
                    out.extend(v);
                }
            }
            for (v, var) in &self.parts {
                if *var {
                    out.extend(v);
                }
            }
            out.len() - start
        }
    }

    pub struct Reader<'a> {
        bytes: &'a [u8],
        at: usize,
        spans: Vec<(usize, usize)>,
        variable: Vec<usize>,
        next: usize,
    }
    impl<'a> Reader<'a> {
        pub fn new(bytes: &'a [u8]) -> Self {
            Self { bytes, at: 0, spans: vec![], variable: vec![], next: 0 }
        }
        pub fn register<T: Serializable>(&mut self) -> Result<(), DeserializeError> {
            let size = if T::is_variable_size() { 4 } else { T::size_hint() };
            let end = self.at + size;
            if end > self.bytes.len() {
                return Err(DeserializeError::ExpectedFurtherInput { provided: self.bytes.len(), expected: end });
            }
            if T::is_variable_size() {
                let o = u32::from_le_bytes(self.bytes[self.at..end].try_into().unwrap()) as usize;
                self.variable.push(self.spans.len());
                self.spans.push((o, 0));
            } else {
                self.spans.push((self.at, end));
            }
            self.at = end;
            Ok(())
        }
        pub fn seal(&mut self) -> Result<(), DeserializeError> {
            let Some(first) = self.variable.first() else {
                if self.at != self.bytes.len() {
                    return Err(DeserializeError::AdditionalInput { provided: self.bytes.len(), expected: self.at });
                }
                return Ok(());
            };
            if self.spans[*first].0 != self.at {
                return Err(DeserializeError::InvalidOffset);
            }
            for k in 0..self.variable.len() {
                let start = self.spans[self.variable[k]].0;
                let end = match self.variable.get(k + 1) {
                    Some(n) => self.spans[*n].0,
                    None => self.bytes.len(),
                };
                if end < start || end > self.bytes.len() {
                    return Err(DeserializeError::InvalidOffset);
                }
                self.spans[self.variable[k]].1 = end;
            }
            Ok(())
        }
        pub fn take<T: Deserialize>(&mut self) -> Result<T, DeserializeError> {
            let (a, b) = self.spans[self.next];
            self.next += 1;
            T::deserialize(&self.bytes[a..b])
        }
    }
}
use __internal::Writer;

// ---------------------------------------------------------------- basic types

macro_rules! basic {
    ($($t:ty),*) => {$(
        impl Serialize for $t {
            fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
                let b = self.to_le_bytes();
                buffer.extend(b);
                Ok(b.len())
            }
        }
        impl Deserialize for $t {
            fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
                const N: usize = std::mem::size_of::<$t>();
                fixed(e, N)?;
                Ok(<$t>::from_le_bytes(e.try_into().unwrap()))
            }
        }
        impl Serializable for $t {
            fn is_variable_size() -> bool { false }
            fn size_hint() -> usize { std::mem::size_of::<$t>() }
            fn basic_size() -> Option<usize> { Some(std::mem::size_of::<$t>()) }
        }
        basic_merkle!($t);
    )*};
}
macro_rules! basic_merkle {
    ($t:ty) => {
        impl HashTreeRoot for $t {
            fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
                let v = serialize(self).map_err(|_| MerkleizationError::SerializationError)?;
                Ok(pack(&v)[0])
            }
        }
        impl GeneralizedIndexable for $t {}
        impl Prove for $t {
            fn compute_tree(&self) -> Result<Tree, MerkleizationError> {
                Ok(Tree::leaf(self.hash_tree_root()?))
            }
        }
        impl SimpleSerialize for $t {}
    };
}
fn fixed(e: &[u8], n: usize) -> Result<(), DeserializeError> {
    if e.len() < n {
        Err(DeserializeError::ExpectedFurtherInput { provided: e.len(), expected: n })
    } else if e.len() > n {
        Err(DeserializeError::AdditionalInput { provided: e.len(), expected: n })
    } else {
        Ok(())
    }
}
basic!(u8, u16, u32, u64);

impl Serialize for bool {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        buffer.push(*self as u8);
        Ok(1)
    }
}
impl Deserialize for bool {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        fixed(e, 1)?;
        match e[0] {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(DeserializeError::InvalidInput),
        }
    }
}
impl Serializable for bool {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        1
    }
    fn basic_size() -> Option<usize> {
        Some(1)
    }
}
basic_merkle!(bool);

impl Serialize for U256 {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        buffer.extend(self.to_le_bytes::<32>());
        Ok(32)
    }
}
impl Deserialize for U256 {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        fixed(e, 32)?;
        Ok(U256::from_le_slice(e))
    }
}
impl Serializable for U256 {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        32
    }
    fn basic_size() -> Option<usize> {
        Some(32)
    }
}
basic_merkle!(U256);

impl Serialize for B256 {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        buffer.extend(self.as_slice());
        Ok(32)
    }
}
impl Deserialize for B256 {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        fixed(e, 32)?;
        Ok(B256::from_slice(e))
    }
}
impl Serializable for B256 {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        32
    }
}
basic_merkle!(B256);

impl<const N: usize> Serialize for [u8; N] {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        buffer.extend(self);
        Ok(N)
    }
}
impl<const N: usize> Deserialize for [u8; N] {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        fixed(e, N)?;
        Ok(e.try_into().unwrap())
    }
}
impl<const N: usize> Serializable for [u8; N] {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        N
    }
}
impl<const N: usize> HashTreeRoot for [u8; N] {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        Ok(merkle_root(pack(self), depth_of(N.div_ceil(32))))
    }
}
impl<const N: usize> GeneralizedIndexable for [u8; N] {
    fn chunk_count() -> usize {
        N.div_ceil(32)
    }
    fn compute_generalized_index(parent: usize, path: Path) -> Result<usize, MerkleizationError> {
        Vector::<u8, N>::compute_generalized_index(parent, path)
    }
}
impl<const N: usize> Prove for [u8; N] {
    fn compute_tree(&self) -> Result<Tree, MerkleizationError> {
        Ok(merkle_tree(leaves(pack(self)), depth_of(N.div_ceil(32))))
    }
}
impl<const N: usize> SimpleSerialize for [u8; N] {}
impl Serialize for usize {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        (*self as u64).serialize(buffer)
    }
}
impl Deserialize for usize {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        Ok(u64::deserialize(e)? as usize)
    }
}
impl Serializable for usize {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        8
    }
    fn basic_size() -> Option<usize> {
        Some(8)
    }
}
basic_merkle!(usize);

// ---------------------------------------------------------------- sequences

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Vector<T, const N: usize>(Vec<T>);
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct List<T, const N: usize>(Vec<T>);

impl<T: Default + Clone, const N: usize> Default for Vector<T, N> {
    fn default() -> Self {
        Self(vec![T::default(); N])
    }
}
impl<T, const N: usize> Default for List<T, N> {
    fn default() -> Self {
        Self(vec![])
    }
}
impl<T, const N: usize> Deref for Vector<T, N> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        &self.0
    }
}
impl<T, const N: usize> DerefMut for Vector<T, N> {
    fn deref_mut(&mut self) -> &mut [T] {
        &mut self.0
    }
}
impl<T, const N: usize> Deref for List<T, N> {
    type Target = Vec<T>;
    fn deref(&self) -> &Vec<T> {
        &self.0
    }
}
impl<T, const N: usize> DerefMut for List<T, N> {
    fn deref_mut(&mut self) -> &mut Vec<T> {
        &mut self.0
    }
}
macro_rules! seq {
    ($s:ident, $ok:expr) => {
        impl<T, const N: usize> TryFrom<Vec<T>> for $s<T, N> {
            type Error = (Vec<T>, DeserializeError);
            fn try_from(v: Vec<T>) -> Result<Self, Self::Error> {
                let ok: fn(usize, usize) -> bool = $ok;
                if ok(v.len(), N) {
                    Ok(Self(v))
                } else {
                    Err((v, DeserializeError::InvalidBounds))
                }
            }
        }
        impl<T, const N: usize> AsRef<[T]> for $s<T, N> {
            fn as_ref(&self) -> &[T] {
                &self.0
            }
        }
        impl<T, const N: usize> IntoIterator for $s<T, N> {
            type Item = T;
            type IntoIter = std::vec::IntoIter<T>;
            fn into_iter(self) -> Self::IntoIter {
                self.0.into_iter()
            }
        }
        impl<'a, T, const N: usize> IntoIterator for &'a $s<T, N> {
            type Item = &'a T;
            type IntoIter = std::slice::Iter<'a, T>;
            fn into_iter(self) -> Self::IntoIter {
                self.0.iter()
            }
        }
        impl<T: Serializable, const N: usize> Serialize for $s<T, N> {
            fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
                if T::is_variable_size() {
                    let mut w = Writer::default();
                    for x in &self.0 {
                        w.field(x)?;
                    }
                    Ok(w.finish(buffer))
                } else {
                    let start = buffer.len();
                    buffer.reserve(self.0.len() * T::size_hint());
                    for x in &self.0 {
                        x.serialize(buffer)?;
                    }
                    Ok(buffer.len() - start)
                }
            }
        }
        impl<T: Serializable, const N: usize> Deserialize for $s<T, N> {
            fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
                elements(e).and_then(|v| Self::try_from(v).map_err(|e| e.1))
            }
        }
        impl<T: SimpleSerialize, const N: usize> SimpleSerialize for $s<T, N> {}
        #[cfg(feature = "serde")]
        impl<T: serde::Serialize, const N: usize> serde::Serialize for $s<T, N> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                serde::Serialize::serialize(&self.0, s)
            }
        }
        #[cfg(feature = "serde")]
        impl<'de, T: serde::Deserialize<'de>, const N: usize> serde::Deserialize<'de> for $s<T, N> {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let v = <Vec<T> as serde::Deserialize>::deserialize(d)?;
                Self::try_from(v).map_err(|e| serde::de::Error::custom(e.1))
            }
        }
    };
}
seq!(Vector, |n, bound| n == bound);
seq!(List, |n, bound| n <= bound);

fn elements<T: Serializable>(e: &[u8]) -> Result<Vec<T>, DeserializeError> {
    if !T::is_variable_size() {
        let k = T::size_hint();
        if e.len() % k != 0 {
            return Err(DeserializeError::AdditionalInput { provided: e.len(), expected: e.len() / k * k });
        }
        return e.chunks(k).map(T::deserialize).collect();
    }
    if e.is_empty() {
        return Ok(vec![]);
    }
    let off = |i: usize| -> Result<usize, DeserializeError> {
        let b = e.get(4 * i..4 * i + 4).ok_or(DeserializeError::InvalidOffset)?;
        Ok(u32::from_le_bytes(b.try_into().unwrap()) as usize)
    };
    let first = off(0)?;
    if first == 0 || first % 4 != 0 || first > e.len() {
        return Err(DeserializeError::InvalidOffset);
    }
    let n = first / 4;
    let mut out = Vec::with_capacity(n);
    for i in 0..n {
        let a = off(i)?;
        let b = if i + 1 < n { off(i + 1)? } else { e.len() };
        if b < a || b > e.len() {
            return Err(DeserializeError::InvalidOffset);
        }
        out.push(T::deserialize(&e[a..b])?);
    }
    Ok(out)
}

impl<T: Serializable, const N: usize> Serializable for Vector<T, N> {
    fn is_variable_size() -> bool {
        T::is_variable_size()
    }
    fn size_hint() -> usize {
        if T::is_variable_size() {
            0
        } else {
            T::size_hint() * N
        }
    }
}
impl<T: Serializable, const N: usize> Serializable for List<T, N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}

fn chunks_for<T: Serializable>(n: usize) -> usize {
    match T::basic_size() {
        Some(k) => (n as u128 * k as u128).div_ceil(32) as usize,
        None => n,
    }
}
fn item_nodes<T: Serializable + HashTreeRoot>(v: &[T]) -> Result<Vec<Node>, MerkleizationError> {
    if T::basic_size().is_some() {
        let mut b = vec![];
        for x in v {
            x.serialize(&mut b).map_err(|_| MerkleizationError::SerializationError)?;
        }
        Ok(pack(&b))
    } else {
        v.iter().map(|x| x.hash_tree_root()).collect()
    }
}
fn item_trees<T: Serializable + HashTreeRoot + Prove>(v: &[T]) -> Result<Vec<Tree>, MerkleizationError> {
    if T::basic_size().is_some() {
        Ok(leaves(item_nodes(v)?))
    } else {
        v.iter().map(|x| x.compute_tree()).collect()
    }
}
fn element_index<T: Serializable + GeneralizedIndexable>(
    parent: usize,
    chunks: usize,
    bound: usize,
    path: Path,
) -> Result<usize, MerkleizationError> {
    match &path[0] {
        PathElement::Index(i) if *i < bound => {
            let pos = match T::basic_size() {
                Some(k) => i * k / 32,
                None => *i,
            };
            T::compute_generalized_index(parent * chunks.max(1).next_power_of_two() + pos, &path[1..])
        }
        p => Err(MerkleizationError::InvalidPathElement(p.clone())),
    }
}

impl<T: Serializable + HashTreeRoot, const N: usize> HashTreeRoot for Vector<T, N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        Ok(merkle_root(item_nodes(&self.0)?, depth_of(chunks_for::<T>(N))))
    }
}
impl<T: Serializable + HashTreeRoot, const N: usize> HashTreeRoot for List<T, N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        Ok(hash2(&merkle_root(item_nodes(&self.0)?, depth_of(chunks_for::<T>(N))), &length_chunk(self.0.len())))
    }
}
impl<T: Serializable + GeneralizedIndexable, const N: usize> GeneralizedIndexable for Vector<T, N> {
    fn chunk_count() -> usize {
        chunks_for::<T>(N)
    }
    fn compute_generalized_index(parent: usize, path: Path) -> Result<usize, MerkleizationError> {
        if path.is_empty() {
            return Ok(parent);
        }
        element_index::<T>(parent, chunks_for::<T>(N), N, path)
    }
}
impl<T: Serializable + GeneralizedIndexable, const N: usize> GeneralizedIndexable for List<T, N> {
    fn chunk_count() -> usize {
        chunks_for::<T>(N)
    }
    fn compute_generalized_index(parent: usize, path: Path) -> Result<usize, MerkleizationError> {
        match path {
            [] => Ok(parent),
            [PathElement::Length] => Ok(parent * 2 + 1),
            _ => element_index::<T>(parent * 2, chunks_for::<T>(N), N, path),
        }
    }
}
impl<T: Serializable + HashTreeRoot + Prove, const N: usize> Prove for Vector<T, N> {
    fn compute_tree(&self) -> Result<Tree, MerkleizationError> {
        Ok(merkle_tree(item_trees(&self.0)?, depth_of(chunks_for::<T>(N))))
    }
}
impl<T: Serializable + HashTreeRoot + Prove, const N: usize> Prove for List<T, N> {
    fn compute_tree(&self) -> Result<Tree, MerkleizationError> {
        let c = merkle_tree(item_trees(&self.0)?, depth_of(chunks_for::<T>(N)));
        Ok(Tree::pair(c, Tree::leaf(length_chunk(self.0.len()))))
    }
}

// ---------------------------------------------------------------- bit sequences

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Bitvector<const N: usize>(Vec<bool>);
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Bitlist<const N: usize>(Vec<bool>);

impl<const N: usize> Default for Bitvector<N> {
    fn default() -> Self {
        Self(vec![false; N])
    }
}
fn bits_to_bytes(bits: &[bool], n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            v[i / 8] |= 1 << (i % 8);
        }
    }
    v
}
impl<const N: usize> Bitvector<N> {
    pub fn from_bits(v: Vec<bool>) -> Self {
        assert_eq!(v.len(), N);
        Self(v)
    }
}
impl<const N: usize> Bitlist<N> {
    pub fn from_bits(v: Vec<bool>) -> Self {
        assert!(v.len() <= N);
        Self(v)
    }
}
impl<const N: usize> Serialize for Bitvector<N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        b.extend(bits_to_bytes(&self.0, N.div_ceil(8)));
        Ok(N.div_ceil(8))
    }
}
impl<const N: usize> Deserialize for Bitvector<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        fixed(e, N.div_ceil(8))?;
        let bit = |i: usize| e[i / 8] >> (i % 8) & 1 == 1;
        if (N..e.len() * 8).any(bit) {
            return Err(DeserializeError::InvalidInput);
        }
        Ok(Self((0..N).map(bit).collect()))
    }
}
impl<const N: usize> Serializable for Bitvector<N> {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        N.div_ceil(8)
    }
}
impl<const N: usize> Serialize for Bitlist<N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        let mut v = self.0.clone();
        v.push(true);
        let n = v.len().div_ceil(8);
        b.extend(bits_to_bytes(&v, n));
        Ok(n)
    }
}
impl<const N: usize> Deserialize for Bitlist<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        let last = *e.last().ok_or(DeserializeError::InvalidInput)?;
        if last == 0 {
            return Err(DeserializeError::InvalidInput);
        }
        let n = (e.len() - 1) * 8 + last.ilog2() as usize;
        if n > N {
            return Err(DeserializeError::InvalidBounds);
        }
        Ok(Self((0..n).map(|i| e[i / 8] >> (i % 8) & 1 == 1).collect()))
    }
}
impl<const N: usize> Serializable for Bitlist<N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}
impl<const N: usize> Bitvector<N> {
    fn nodes(&self) -> Vec<Node> {
        pack(&bits_to_bytes(&self.0, N.div_ceil(8)))
    }
}
impl<const N: usize> HashTreeRoot for Bitvector<N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        Ok(merkle_root(self.nodes(), depth_of(N.div_ceil(256))))
    }
}
impl<const N: usize> Prove for Bitvector<N> {
    fn compute_tree(&self) -> Result<Tree, MerkleizationError> {
        Ok(merkle_tree(leaves(self.nodes()), depth_of(N.div_ceil(256))))
    }
}
impl<const N: usize> Bitlist<N> {
    fn nodes(&self) -> Vec<Node> {
        pack(&bits_to_bytes(&self.0, self.0.len().div_ceil(8)))
    }
}
impl<const N: usize> HashTreeRoot for Bitlist<N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        Ok(hash2(&merkle_root(self.nodes(), depth_of(N.div_ceil(256))), &length_chunk(self.0.len())))
    }
}
impl<const N: usize> Prove for Bitlist<N> {
    fn compute_tree(&self) -> Result<Tree, MerkleizationError> {
        let c = merkle_tree(leaves(self.nodes()), depth_of(N.div_ceil(256)));
        Ok(Tree::pair(c, Tree::leaf(length_chunk(self.0.len()))))
    }
}
macro_rules! bits {
    ($s:ident, $list:expr) => {
        impl<const N: usize> Deref for $s<N> {
            type Target = [bool];
            fn deref(&self) -> &[bool] {
                &self.0
            }
        }
        impl<const N: usize> DerefMut for $s<N> {
            fn deref_mut(&mut self) -> &mut [bool] {
                &mut self.0
            }
        }
        impl<const N: usize> fmt::Debug for $s<N> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, concat!(stringify!($s), "({} of {})"), self.0.iter().filter(|b| **b).count(), self.0.len())
            }
        }
        impl<const N: usize> GeneralizedIndexable for $s<N> {
            fn chunk_count() -> usize {
                N.div_ceil(256)
            }
            fn compute_generalized_index(parent: usize, path: Path) -> Result<usize, MerkleizationError> {
                match path {
                    [] => Ok(parent),
                    [PathElement::Length] if $list => Ok(parent * 2 + 1),
                    [PathElement::Index(i)] if *i < N => {
                        let base = if $list { parent * 2 } else { parent };
                        Ok(base * N.div_ceil(256).max(1).next_power_of_two() + i / 256)
                    }
                    _ => Err(MerkleizationError::InvalidPathElement(path[0].clone())),
                }
            }
        }
        impl<const N: usize> SimpleSerialize for $s<N> {}
        #[cfg(feature = "serde")]
        impl<const N: usize> serde::Serialize for $s<N> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                let v = crate::serialize(self).map_err(serde::ser::Error::custom)?;
                s.serialize_str(&format!("0x{}", hex::encode(v)))
            }
        }
        #[cfg(feature = "serde")]
        impl<'de, const N: usize> serde::Deserialize<'de> for $s<N> {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let s = <String as serde::Deserialize>::deserialize(d)?;
                let v = hex::decode(s.strip_prefix("0x").unwrap_or(&s)).map_err(serde::de::Error::custom)?;
                crate::deserialize(&v).map_err(serde::de::Error::custom)
            }
        }
    };
}
bits!(Bitvector, false);
bits!(Bitlist, true);

// ---------------------------------------------------------------- proofs

pub mod proofs {
    use super::*;

    #[derive(Debug, Clone, Default, PartialEq, Eq)]
    pub struct Proof {
        pub leaf: Node,
        pub branch: Vec<Node>,
        pub index: GeneralizedIndex,
    }
    pub struct Prover {
        proof: Proof,
    }
    impl From<GeneralizedIndex> for Prover {
        fn from(index: GeneralizedIndex) -> Self {
            Self { proof: Proof { index, ..Default::default() } }
        }
    }
    impl Prover {
        pub fn compute_proof<T: Prove + ?Sized>(&mut self, data: &T) -> Result<(), MerkleizationError> {
            let tree = data.compute_tree()?;
            self.compute_proof_cached_tree(data, &tree)
        }
        pub fn compute_proof_cached_tree<T: Prove + ?Sized>(
            &mut self,
            _data: &T,
            tree: &Tree,
        ) -> Result<(), MerkleizationError> {
            let mut i = self.proof.index;
            self.proof.leaf = tree.node(i).ok_or(MerkleizationError::InvalidGeneralizedIndex)?.root();
            self.proof.branch.clear();
            while i > 1 {
                self.proof.branch.push(tree.node(i ^ 1).ok_or(MerkleizationError::InvalidGeneralizedIndex)?.root());
                i /= 2;
            }
            Ok(())
        }
        pub fn into_proof(self) -> Proof {
            self.proof
        }
    }
}
