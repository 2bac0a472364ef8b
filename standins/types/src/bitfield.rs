use ssz::{Decode, DecodeError, Encode};
use std::fmt;
use std::marker::PhantomData;
use tree_hash::{Hash256, PackedEncoding, TreeHash, TreeHashType};
use typenum::Unsigned;

#[derive(Debug, PartialEq, Clone)]
pub enum BitfieldError {
    OutOfBounds { i: usize, len: usize },
    MissingLengthInformation,
    ExcessBits,
    InvalidByteCount { given: usize, expected: usize },
}

macro_rules! bits {
    ($t:ident) => {
        #[derive(Clone, PartialEq, Eq, Hash)]
        pub struct $t<N> {
            bits: Vec<bool>,
            _n: PhantomData<N>,
        }
        impl<N: Unsigned> $t<N> {
            pub fn len(&self) -> usize {
                self.bits.len()
            }
            pub fn is_empty(&self) -> bool {
                self.bits.is_empty()
            }
            pub fn get(&self, i: usize) -> Result<bool, BitfieldError> {
                self.bits.get(i).copied().ok_or(BitfieldError::OutOfBounds { i, len: self.bits.len() })
            }
            pub fn set(&mut self, i: usize, v: bool) -> Result<(), BitfieldError> {
                let len = self.bits.len();
                *self.bits.get_mut(i).ok_or(BitfieldError::OutOfBounds { i, len })? = v;
                Ok(())
            }
            pub fn num_set_bits(&self) -> usize {
                self.bits.iter().filter(|b| **b).count()
            }
            pub fn is_zero(&self) -> bool {
                !self.bits.iter().any(|b| *b)
            }
            pub fn highest_set_bit(&self) -> Option<usize> {
                self.bits.iter().rposition(|b| *b)
            }
            pub fn iter(&self) -> impl Iterator<Item = bool> + '_ {
                self.bits.iter().copied()
            }
            pub fn max_len() -> usize {
                N::to_usize()
            }
            fn pack(&self) -> Vec<u8> {
                let mut v = vec![0u8; self.bits.len().div_ceil(8)];
                for (i, b) in self.bits.iter().enumerate() {
                    v[i / 8] |= (*b as u8) << (i % 8);
                }
                v
            }
            fn zip(&self, o: &Self, f: fn(bool, bool) -> bool) -> Self {
                let n = self.len().max(o.len());
                let g = |x: &Self, i| x.bits.get(i).copied().unwrap_or(false);
                $t { bits: (0..n).map(|i| f(g(self, i), g(o, i))).collect(), _n: PhantomData }
            }
            pub fn intersection(&self, o: &Self) -> Self {
                self.zip(o, |a, b| a & b)
            }
            pub fn union(&self, o: &Self) -> Self {
                self.zip(o, |a, b| a | b)
            }
            pub fn difference(&self, o: &Self) -> Self {
                self.zip(o, |a, b| a & !b)
            }
            pub fn is_subset(&self, o: &Self) -> bool {
                self.difference(o).is_zero()
            }
        }
        impl<N: Unsigned> fmt::Debug for $t<N> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                for b in &self.bits {
                    f.write_str(if *b { "1" } else { "0" })?;
                }
                Ok(())
            }
        }
    };
}
bits!(BitList);
bits!(BitVector);

impl<N: Unsigned> BitList<N> {
    pub fn with_capacity(n: usize) -> Result<Self, BitfieldError> {
        if n > N::to_usize() {
            return Err(BitfieldError::OutOfBounds { i: n, len: N::to_usize() });
        }
        Ok(BitList { bits: vec![false; n], _n: PhantomData })
    }
    pub fn into_bytes(self) -> Vec<u8> {
        let mut v = self.pack();
        let n = self.bits.len();
        if n % 8 == 0 {
            v.push(0);
        }
        v[n / 8] |= 1 << (n % 8);
        v
    }
    pub fn from_bytes(b: &[u8]) -> Result<Self, BitfieldError> {
        let last = *b.last().ok_or(BitfieldError::MissingLengthInformation)?;
        if last == 0 {
            return Err(BitfieldError::MissingLengthInformation);
        }
        let n = (b.len() - 1) * 8 + (7 - last.leading_zeros() as usize);
        if n > N::to_usize() {
            return Err(BitfieldError::OutOfBounds { i: n, len: N::to_usize() });
        }
        Ok(BitList { bits: (0..n).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect(), _n: PhantomData })
    }
}
impl<N: Unsigned> Default for BitList<N> {
    fn default() -> Self {
        BitList { bits: vec![], _n: PhantomData }
    }
}
impl<N: Unsigned> BitVector<N> {
    pub fn new() -> Self {
        BitVector { bits: vec![false; N::to_usize()], _n: PhantomData }
    }
    pub fn into_bytes(self) -> Vec<u8> {
        self.pack()
    }
    pub fn from_bytes(b: &[u8]) -> Result<Self, BitfieldError> {
        let n = N::to_usize();
        if b.len() != n.div_ceil(8).max(1) {
            return Err(BitfieldError::InvalidByteCount { given: b.len(), expected: n.div_ceil(8) });
        }
        if n % 8 != 0 && b[n / 8] >> (n % 8) != 0 {
            return Err(BitfieldError::ExcessBits);
        }
        Ok(BitVector { bits: (0..n).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect(), _n: PhantomData })
    }
}
impl<N: Unsigned> Default for BitVector<N> {
    fn default() -> Self {
        Self::new()
    }
}

impl<N: Unsigned> Encode for BitList<N> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_bytes_len(&self) -> usize {
        self.bits.len() / 8 + 1
    }
    fn ssz_append(&self, b: &mut Vec<u8>) {
        b.extend(self.clone_bits().into_bytes())
    }
}
impl<N: Unsigned> BitList<N> {
    fn clone_bits(&self) -> Self {
        BitList { bits: self.bits.clone(), _n: PhantomData }
    }
}
impl<N: Unsigned> Decode for BitList<N> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        Self::from_bytes(b).map_err(|e| DecodeError::BytesInvalid(format!("BitList failed to decode: {e:?}")))
    }
}
impl<N: Unsigned> Encode for BitVector<N> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        N::to_usize().div_ceil(8).max(1)
    }
    fn ssz_bytes_len(&self) -> usize {
        <Self as Encode>::ssz_fixed_len()
    }
    fn ssz_append(&self, b: &mut Vec<u8>) {
        b.extend(self.pack())
    }
}
impl<N: Unsigned> Decode for BitVector<N> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        N::to_usize().div_ceil(8).max(1)
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        Self::from_bytes(b).map_err(|e| DecodeError::BytesInvalid(format!("BitVector failed to decode: {e:?}")))
    }
}
impl<N: Unsigned> TreeHash for BitList<N> {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::List
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        unreachable!()
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!()
    }
    fn tree_hash_root(&self) -> Hash256 {
        tree_hash::mix_in_length(&tree_hash::merkle_root(&self.pack(), N::to_usize().div_ceil(256)), self.len())
    }
}
impl<N: Unsigned> TreeHash for BitVector<N> {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        unreachable!()
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!()
    }
    fn tree_hash_root(&self) -> Hash256 {
        tree_hash::merkle_root(&self.pack(), N::to_usize().div_ceil(256))
    }
}
