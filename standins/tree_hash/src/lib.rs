//! Stand-in for the `tree_hash` crate: SSZ hash tree roots of the types used here.
use alloy_primitives::{FixedBytes, B256, U256};
use sha2::{Digest, Sha256};

pub const BYTES_PER_CHUNK: usize = 32;
pub const HASHSIZE: usize = 32;
pub type Hash256 = B256;
pub type PackedEncoding = smallvec::SmallVec<[u8; 32]>;

#[derive(Debug, PartialEq, Clone)]
pub enum TreeHashType {
    Basic,
    Vector,
    List,
    Container,
}

pub trait TreeHash {
    fn tree_hash_type() -> TreeHashType;
    fn tree_hash_packed_encoding(&self) -> PackedEncoding;
    fn tree_hash_packing_factor() -> usize;
    fn tree_hash_root(&self) -> Hash256;
}

impl<T: TreeHash> TreeHash for &T {
    fn tree_hash_type() -> TreeHashType {
        T::tree_hash_type()
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        T::tree_hash_packed_encoding(*self)
    }
    fn tree_hash_packing_factor() -> usize {
        T::tree_hash_packing_factor()
    }
    fn tree_hash_root(&self) -> Hash256 {
        T::tree_hash_root(*self)
    }
}

pub fn hash32_concat(a: &[u8], b: &[u8]) -> [u8; 32] {
    let mut h = Sha256::new();
    h.update(a);
    h.update(b);
    h.finalize().into()
}

/// Root of `bytes` cut into 32-byte chunks, padded with zero chunks to at least `minimum_leaf_count` leaves.
pub fn merkle_root(bytes: &[u8], minimum_leaf_count: usize) -> Hash256 {
    let mut layer: Vec<[u8; 32]> = bytes
        .chunks(32)
        .map(|c| {
            let mut x = [0u8; 32];
            x[..c.len()].copy_from_slice(c);
            x
        })
        .collect();
    let leaves = layer.len().max(minimum_leaf_count).max(1).next_power_of_two();
    let depth = leaves.trailing_zeros();
    let mut zero = [0u8; 32];
    for _ in 0..depth {
        let mut next = Vec::with_capacity(layer.len().div_ceil(2));
        for p in layer.chunks(2) {
            next.push(hash32_concat(&p[0], p.get(1).unwrap_or(&zero)));
        }
        layer = next;
        zero = hash32_concat(&zero, &zero);
    }
    Hash256::from(layer.first().copied().unwrap_or(zero))
}

pub fn mix_in_length(root: &Hash256, length: usize) -> Hash256 {
    let mut l = [0u8; 32];
    l[..8].copy_from_slice(&(length as u64).to_le_bytes());
    Hash256::from(hash32_concat(root.as_slice(), &l))
}

pub fn container_root(fields: &[Hash256]) -> Hash256 {
    let mut b = Vec::with_capacity(fields.len() * 32);
    for f in fields {
        b.extend_from_slice(f.as_slice());
    }
    merkle_root(&b, 0)
}

macro_rules! basic {
    ($($t:ty),*) => {$(
        impl TreeHash for $t {
            fn tree_hash_type() -> TreeHashType { TreeHashType::Basic }
            fn tree_hash_packed_encoding(&self) -> PackedEncoding { PackedEncoding::from_slice(&self.to_le_bytes()) }
            fn tree_hash_packing_factor() -> usize { 32 / std::mem::size_of::<$t>() }
            fn tree_hash_root(&self) -> Hash256 { merkle_root(&self.to_le_bytes(), 0) }
        }
    )*};
}
basic!(u8, u16, u32, u64, u128, usize);
impl TreeHash for bool {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Basic
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        (*self as u8).tree_hash_packed_encoding()
    }
    fn tree_hash_packing_factor() -> usize {
        32
    }
    fn tree_hash_root(&self) -> Hash256 {
        (*self as u8).tree_hash_root()
    }
}
impl TreeHash for U256 {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Basic
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        PackedEncoding::from_slice(&self.to_le_bytes::<32>())
    }
    fn tree_hash_packing_factor() -> usize {
        1
    }
    fn tree_hash_root(&self) -> Hash256 {
        Hash256::from(self.to_le_bytes::<32>())
    }
}
impl<const N: usize> TreeHash for [u8; N] {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        unreachable!("bytesN should never be packed.")
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!("bytesN should never be packed.")
    }
    fn tree_hash_root(&self) -> Hash256 {
        merkle_root(self, 0)
    }
}
impl<const N: usize> TreeHash for FixedBytes<N> {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        PackedEncoding::from_slice(&self.0)
    }
    fn tree_hash_packing_factor() -> usize {
        1
    }
    fn tree_hash_root(&self) -> Hash256 {
        merkle_root(&self.0, 0)
    }
}

/// `tree_hash_container!([generics] Type { fields })`
#[macro_export]
macro_rules! tree_hash_container {
    ([$($g:tt)*] $t:ty { $($f:ident),* $(,)? }) => {
        impl<$($g)*> $crate::TreeHash for $t {
            fn tree_hash_type() -> $crate::TreeHashType {
                $crate::TreeHashType::Container
            }
            fn tree_hash_packed_encoding(&self) -> $crate::PackedEncoding {
                unreachable!("Struct should never be packed.")
            }
            fn tree_hash_packing_factor() -> usize {
                unreachable!("Struct should never be packed.")
            }
            fn tree_hash_root(&self) -> $crate::Hash256 {
                $crate::container_root(&[$($crate::TreeHash::tree_hash_root(&self.$f)),*])
            }
        }
    };
}
