//! Stand-in for lighthouse's `bls`: the same interface over an ideal, pairing-like group.
//!
//! Keys and signatures are elements of the additive group of integers modulo a 127-bit prime, where the
//! "pairing" is the product. Signing, aggregation and verification obey the algebra of BLS: a signature is
//! valid for a message and a set of keys exactly if it is the message point times the sum of their secrets.
//! There is no secrecy: it is enough for monitors that know every key.
use alloy_primitives::B256;
use sha2::{Digest, Sha256};
use std::fmt;
use tree_hash::{Hash256, PackedEncoding, TreeHash, TreeHashType};

pub const PUBLIC_KEY_BYTES_LEN: usize = 48;
pub const PUBLIC_KEY_UNCOMPRESSED_BYTES_LEN: usize = 96;
pub const SECRET_KEY_BYTES_LEN: usize = 32;
pub const SIGNATURE_BYTES_LEN: usize = 96;
pub const SIGNATURE_UNCOMPRESSED_BYTES_LEN: usize = 192;
pub const INFINITY_PUBLIC_KEY: [u8; PUBLIC_KEY_BYTES_LEN] = {
    let mut b = [0; PUBLIC_KEY_BYTES_LEN];
    b[0] = 0xc0;
    b
};
pub const INFINITY_SIGNATURE: [u8; SIGNATURE_BYTES_LEN] = {
    let mut b = [0; SIGNATURE_BYTES_LEN];
    b[0] = 0xc0;
    b
};

#[derive(Clone, Debug, PartialEq)]
pub enum Error {
    InvalidByteLength { got: usize, expected: usize },
    InvalidSecretKeyLength { got: usize, expected: usize },
    InvalidInfinityPublicKey,
    InvalidZeroSecretKey,
    BadEncoding,
    PointNotOnCurve,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

mod field {
    pub const P: u128 = (1 << 127) - 1;
    pub fn add(a: u128, b: u128) -> u128 {
        (a + b) % P
    }
    pub fn neg(a: u128) -> u128 {
        (P - a % P) % P
    }
    fn fold(x: u128) -> u128 {
        let y = (x & P) + (x >> 127);
        if y >= P {
            y - P
        } else {
            y
        }
    }
    /// a * b mod 2^127 - 1
    pub fn mul(a: u128, b: u128) -> u128 {
        let m = (1u128 << 64) - 1;
        let (a0, a1, b0, b1) = (a & m, a >> 64, b & m, b >> 64);
        let lo = a0 * b0;
        let mid1 = a0 * b1;
        let mid2 = a1 * b0;
        let hi = a1 * b1;
        // (hi:lo) += (mid1 + mid2) << 64
        let (mid, c) = mid1.overflowing_add(mid2);
        let (lo, c2) = lo.overflowing_add(mid << 64);
        let hi = hi + (mid >> 64) + ((c as u128) << 64) + c2 as u128;
        // value = hi * 2^128 + lo, with 2^127 = 1
        let r = fold(lo);
        let h = fold(fold(hi) << 1);
        add(r, h)
    }
}
use field::P;

fn expand(tag: &str, parts: &[&[u8]], n: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0u32;
    while out.len() < n {
        let mut h = Sha256::new();
        h.update(tag.as_bytes());
        h.update(i.to_le_bytes());
        for p in parts {
            h.update(p);
        }
        out.extend_from_slice(&h.finalize());
        i += 1;
    }
    out.truncate(n);
    out
}
fn scalar(tag: &str, parts: &[&[u8]]) -> u128 {
    let b = expand(tag, parts, 32);
    (u128::from_be_bytes(b[..16].try_into().unwrap()) % (P - 1)) + 1
}

/// x coordinate (`n` bytes) of the element pair {v, -v}: 3 free flag bits, then digest and the smaller element.
fn x_coord(tag: &str, v: u128, n: usize) -> Vec<u8> {
    let c = v.min(field::neg(v));
    let mut x = expand(tag, &[&c.to_be_bytes()], n - 16);
    x[0] &= 0x1f;
    x.extend_from_slice(&c.to_be_bytes());
    x
}
fn y_coord(tag: &str, v: u128, n: usize) -> Vec<u8> {
    expand(tag, &[b"y", &v.to_be_bytes()], n)
}
fn compress(tag: &str, v: u128, n: usize) -> Vec<u8> {
    let mut x = x_coord(tag, v, n);
    x[0] |= 0x80;
    if v > field::neg(v) {
        x[0] |= 0x20;
    }
    x
}
fn decompress(tag: &str, b: &[u8]) -> Result<u128, Error> {
    if b[0] & 0x80 == 0 || b[0] & 0x40 != 0 {
        return Err(Error::BadEncoding);
    }
    let n = b.len();
    let c = u128::from_be_bytes(b[n - 16..].try_into().unwrap());
    if c == 0 || c >= P {
        return Err(Error::PointNotOnCurve);
    }
    let v = if b[0] & 0x20 != 0 { field::neg(c) } else { c };
    if compress(tag, v, n) != b {
        return Err(Error::PointNotOnCurve);
    }
    Ok(v)
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct PublicKey {
    v: u128,
}
pub type PublicKeyBytesArray = [u8; PUBLIC_KEY_BYTES_LEN];

impl PublicKey {
    pub fn compress(&self) -> PublicKeyBytes {
        PublicKeyBytes { bytes: self.serialize() }
    }
    pub fn serialize(&self) -> [u8; PUBLIC_KEY_BYTES_LEN] {
        compress("g1", self.v, PUBLIC_KEY_BYTES_LEN).try_into().unwrap()
    }
    pub fn serialize_uncompressed(&self) -> [u8; PUBLIC_KEY_UNCOMPRESSED_BYTES_LEN] {
        let mut x = x_coord("g1", self.v, 48);
        x.extend(y_coord("g1", self.v, 48));
        x.try_into().unwrap()
    }
    pub fn deserialize(bytes: &[u8]) -> Result<Self, Error> {
        if bytes.len() != PUBLIC_KEY_BYTES_LEN {
            return Err(Error::InvalidByteLength { got: bytes.len(), expected: PUBLIC_KEY_BYTES_LEN });
        }
        if bytes == INFINITY_PUBLIC_KEY {
            return Err(Error::InvalidInfinityPublicKey);
        }
        Ok(PublicKey { v: decompress("g1", bytes)? })
    }
    pub fn deserialize_uncompressed(bytes: &[u8]) -> Result<Self, Error> {
        if bytes.len() != PUBLIC_KEY_UNCOMPRESSED_BYTES_LEN {
            return Err(Error::InvalidByteLength { got: bytes.len(), expected: PUBLIC_KEY_UNCOMPRESSED_BYTES_LEN });
        }
        if bytes[0] & 0xe0 != 0 {
            return Err(Error::BadEncoding);
        }
        let c = u128::from_be_bytes(bytes[32..48].try_into().unwrap());
        if c == 0 || c >= P {
            return Err(Error::PointNotOnCurve);
        }
        [c, field::neg(c)]
            .into_iter()
            .map(|v| PublicKey { v })
            .find(|k| k.serialize_uncompressed() == bytes)
            .ok_or(Error::PointNotOnCurve)
    }
    pub fn as_hex_string(&self) -> String {
        format!("0x{}", hex::encode(self.serialize()))
    }
    /// The key whose point is the negative of this one (same x coordinate).
    pub fn standin_negate(&self) -> Self {
        PublicKey { v: field::neg(self.v) }
    }
    pub fn standin_element(&self) -> u128 {
        self.v
    }
    pub fn standin_from_element(v: u128) -> Self {
        PublicKey { v: v % P }
    }
}
impl fmt::Debug for PublicKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.as_hex_string())
    }
}
impl fmt::Display for PublicKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.as_hex_string())
    }
}
impl serde::Serialize for PublicKey {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.as_hex_string())
    }
}
impl<'de> serde::Deserialize<'de> for PublicKey {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let b = hex::decode(s.trim_start_matches("0x")).map_err(serde::de::Error::custom)?;
        PublicKey::deserialize(&b).map_err(serde::de::Error::custom)
    }
}
impl ssz::Encode for PublicKey {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        PUBLIC_KEY_BYTES_LEN
    }
    fn ssz_bytes_len(&self) -> usize {
        PUBLIC_KEY_BYTES_LEN
    }
    fn ssz_append(&self, b: &mut Vec<u8>) {
        b.extend_from_slice(&self.serialize())
    }
}
impl ssz::Decode for PublicKey {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        PUBLIC_KEY_BYTES_LEN
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, ssz::DecodeError> {
        PublicKey::deserialize(b).map_err(|e| ssz::DecodeError::BytesInvalid(format!("{e:?}")))
    }
}
impl TreeHash for PublicKey {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        unreachable!("Vector should never be packed.")
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!("Vector should never be packed.")
    }
    fn tree_hash_root(&self) -> Hash256 {
        tree_hash::merkle_root(&self.serialize(), 0)
    }
}

/// A public key that has not been decompressed.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct PublicKeyBytes {
    bytes: [u8; PUBLIC_KEY_BYTES_LEN],
}
impl PublicKeyBytes {
    pub fn empty() -> Self {
        PublicKeyBytes { bytes: [0; PUBLIC_KEY_BYTES_LEN] }
    }
    pub fn deserialize(bytes: &[u8]) -> Result<Self, Error> {
        Ok(PublicKeyBytes {
            bytes: bytes
                .try_into()
                .map_err(|_| Error::InvalidByteLength { got: bytes.len(), expected: PUBLIC_KEY_BYTES_LEN })?,
        })
    }
    pub fn serialize(&self) -> [u8; PUBLIC_KEY_BYTES_LEN] {
        self.bytes
    }
    pub fn as_serialized(&self) -> &[u8] {
        &self.bytes
    }
    pub fn decompress(&self) -> Result<PublicKey, Error> {
        PublicKey::deserialize(&self.bytes)
    }
}
impl fmt::Debug for PublicKeyBytes {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", hex::encode(self.bytes))
    }
}
impl From<PublicKey> for PublicKeyBytes {
    fn from(p: PublicKey) -> Self {
        p.compress()
    }
}
impl From<&PublicKey> for PublicKeyBytes {
    fn from(p: &PublicKey) -> Self {
        p.compress()
    }
}

#[derive(Clone)]
pub struct SecretKey {
    v: u128,
}
impl SecretKey {
    pub fn random() -> Self {
        SecretKey { v: (rand::random::<u128>() % (P - 1)) + 1 }
    }
    pub fn public_key(&self) -> PublicKey {
        PublicKey { v: self.v }
    }
    pub fn sign(&self, msg: B256) -> Signature {
        Signature { v: Some(field::mul(self.v, scalar("msg", &[msg.as_slice()]))) }
    }
    pub fn serialize(&self) -> [u8; SECRET_KEY_BYTES_LEN] {
        let mut b = [0; 32];
        b[16..].copy_from_slice(&self.v.to_be_bytes());
        b
    }
    pub fn deserialize(bytes: &[u8]) -> Result<Self, Error> {
        if bytes.len() != SECRET_KEY_BYTES_LEN {
            return Err(Error::InvalidSecretKeyLength { got: bytes.len(), expected: SECRET_KEY_BYTES_LEN });
        }
        let v = scalar("sk", &[bytes]);
        Ok(SecretKey { v })
    }
}
impl fmt::Debug for SecretKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SecretKey")
    }
}

#[derive(Clone, Debug)]
pub struct Keypair {
    pub sk: SecretKey,
    pub pk: PublicKey,
}
impl Keypair {
    pub fn random() -> Self {
        let sk = SecretKey::random();
        Keypair { pk: sk.public_key(), sk }
    }
}

/// A point, or nothing for the all-zero encoding.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Signature {
    v: Option<u128>,
}
impl Signature {
    pub fn empty() -> Self {
        Signature { v: None }
    }
    pub fn infinity() -> Result<Self, Error> {
        Ok(Signature { v: Some(0) })
    }
    pub fn is_infinity(&self) -> bool {
        self.v == Some(0)
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_none()
    }
    pub fn serialize(&self) -> [u8; SIGNATURE_BYTES_LEN] {
        ser_sig(self.v)
    }
    pub fn deserialize(bytes: &[u8]) -> Result<Self, Error> {
        Ok(Signature { v: de_sig(bytes)? })
    }
    pub fn verify(&self, pk: &PublicKey, msg: B256) -> bool {
        self.v == Some(field::mul(pk.v, scalar("msg", &[msg.as_slice()])))
    }
}
fn ser_sig(v: Option<u128>) -> [u8; SIGNATURE_BYTES_LEN] {
    match v {
        None => [0; SIGNATURE_BYTES_LEN],
        Some(0) => INFINITY_SIGNATURE,
        Some(v) => compress("g2", v, SIGNATURE_BYTES_LEN).try_into().unwrap(),
    }
}
fn de_sig(bytes: &[u8]) -> Result<Option<u128>, Error> {
    if bytes.len() != SIGNATURE_BYTES_LEN {
        return Err(Error::InvalidByteLength { got: bytes.len(), expected: SIGNATURE_BYTES_LEN });
    }
    if bytes.iter().all(|b| *b == 0) {
        return Ok(None);
    }
    if bytes == INFINITY_SIGNATURE {
        return Ok(Some(0));
    }
    decompress("g2", bytes).map(Some)
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct AggregateSignature {
    v: Option<u128>,
}
impl AggregateSignature {
    pub fn empty() -> Self {
        AggregateSignature { v: None }
    }
    pub fn infinity() -> Self {
        AggregateSignature { v: Some(0) }
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_none()
    }
    pub fn is_infinity(&self) -> bool {
        self.v == Some(0)
    }
    pub fn add_assign(&mut self, other: &Signature) {
        if let Some(o) = other.v {
            self.v = Some(field::add(self.v.unwrap_or(0), o));
        }
    }
    pub fn add_assign_aggregate(&mut self, other: &Self) {
        if let Some(o) = other.v {
            self.v = Some(field::add(self.v.unwrap_or(0), o));
        }
    }
    pub fn serialize(&self) -> [u8; SIGNATURE_BYTES_LEN] {
        ser_sig(self.v)
    }
    pub fn deserialize(bytes: &[u8]) -> Result<Self, Error> {
        Ok(AggregateSignature { v: de_sig(bytes)? })
    }
    /// `FastAggregateVerify`: same message, all keys.
    pub fn fast_aggregate_verify(&self, msg: B256, pubkeys: &[&PublicKey]) -> bool {
        if pubkeys.is_empty() {
            return false;
        }
        let agg = pubkeys.iter().fold(0, |a, k| field::add(a, k.v));
        match self.v {
            // the aggregate key or signature at infinity is never valid
            Some(s) if s != 0 && agg != 0 => s == field::mul(agg, scalar("msg", &[msg.as_slice()])),
            _ => false,
        }
    }
    /// As above, with the Ethereum exception for no keys and the signature at infinity.
    pub fn eth_fast_aggregate_verify(&self, msg: B256, pubkeys: &[&PublicKey]) -> bool {
        if pubkeys.is_empty() && self.is_infinity() {
            true
        } else {
            self.fast_aggregate_verify(msg, pubkeys)
        }
    }
    pub fn aggregate_verify(&self, msgs: &[B256], pubkeys: &[&PublicKey]) -> bool {
        if msgs.is_empty() || msgs.len() != pubkeys.len() {
            return false;
        }
        let sum = msgs
            .iter()
            .zip(pubkeys)
            .fold(0, |a, (m, k)| field::add(a, field::mul(k.v, scalar("msg", &[m.as_slice()]))));
        matches!(self.v, Some(s) if s == sum)
    }
}
impl From<&Signature> for AggregateSignature {
    fn from(s: &Signature) -> Self {
        AggregateSignature { v: s.v }
    }
}

macro_rules! sig_impls {
    ($t:ident) => {
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "0x{}", hex::encode(self.serialize()))
            }
        }
        impl ssz::Encode for $t {
            fn is_ssz_fixed_len() -> bool {
                true
            }
            fn ssz_fixed_len() -> usize {
                SIGNATURE_BYTES_LEN
            }
            fn ssz_bytes_len(&self) -> usize {
                SIGNATURE_BYTES_LEN
            }
            fn ssz_append(&self, b: &mut Vec<u8>) {
                b.extend_from_slice(&self.serialize())
            }
        }
        impl ssz::Decode for $t {
            fn is_ssz_fixed_len() -> bool {
                true
            }
            fn ssz_fixed_len() -> usize {
                SIGNATURE_BYTES_LEN
            }
            fn from_ssz_bytes(b: &[u8]) -> Result<Self, ssz::DecodeError> {
                $t::deserialize(b).map_err(|e| ssz::DecodeError::BytesInvalid(format!("{e:?}")))
            }
        }
        impl TreeHash for $t {
            fn tree_hash_type() -> TreeHashType {
                TreeHashType::Vector
            }
            fn tree_hash_packed_encoding(&self) -> PackedEncoding {
                unreachable!("Vector should never be packed.")
            }
            fn tree_hash_packing_factor() -> usize {
                unreachable!("Vector should never be packed.")
            }
            fn tree_hash_root(&self) -> Hash256 {
                tree_hash::merkle_root(&self.serialize(), 0)
            }
        }
    };
}
sig_impls!(Signature);
sig_impls!(AggregateSignature);

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn algebra() {
        for i in 0..200 {
            let ks: Vec<_> = (0..1 + i % 7).map(|_| SecretKey::random()).collect();
            let pk: Vec<_> = ks.iter().map(|k| k.public_key()).collect();
            let m = B256::random();
            let mut a = AggregateSignature::infinity();
            for k in &ks {
                a.add_assign(&k.sign(m));
            }
            assert!(a.fast_aggregate_verify(m, &pk.iter().collect::<Vec<_>>()));
            assert!(!a.fast_aggregate_verify(B256::random(), &pk.iter().collect::<Vec<_>>()));
            assert!(!a.fast_aggregate_verify(m, &pk.iter().skip(1).collect::<Vec<_>>()));
            assert_eq!(AggregateSignature::deserialize(&a.serialize()).unwrap(), a);
            for p in &pk {
                assert_eq!(&PublicKey::deserialize(&p.serialize()).unwrap(), p);
                assert_eq!(&PublicKey::deserialize_uncompressed(&p.serialize_uncompressed()).unwrap(), p);
                let n = p.standin_negate();
                assert_ne!(n.serialize(), p.serialize());
                assert_eq!(&PublicKey::deserialize_uncompressed(&n.serialize_uncompressed()).unwrap(), &n);
            }
        }
    }
}
