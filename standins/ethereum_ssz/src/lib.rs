//! Stand-in for the `ethereum_ssz` crate: the encode/decode traits, basic types and the container codecs.
use alloy_primitives::{FixedBytes, U256};

pub const BYTES_PER_LENGTH_OFFSET: usize = 4;

#[derive(Debug, PartialEq, Clone)]
pub enum DecodeError {
    InvalidByteLength { len: usize, expected: usize },
    InvalidLengthPrefix { len: usize, expected: usize },
    OutOfBoundsByte { i: usize },
    OffsetIntoFixedPortion(usize),
    OffsetSkipsVariableBytes(usize),
    OffsetsAreDecreasing(usize),
    OffsetOutOfBounds(usize),
    InvalidListFixedBytesLen(usize),
    ZeroLengthItem,
    BytesInvalid(String),
    UnionSelectorInvalid(u8),
    NoMatchingVariant,
}

impl std::fmt::Display for DecodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for DecodeError {}

pub trait Encode {
    fn is_ssz_fixed_len() -> bool;
    fn ssz_append(&self, buf: &mut Vec<u8>);
    fn ssz_fixed_len() -> usize {
        BYTES_PER_LENGTH_OFFSET
    }
    fn ssz_bytes_len(&self) -> usize;
    fn as_ssz_bytes(&self) -> Vec<u8> {
        let mut b = vec![];
        self.ssz_append(&mut b);
        b
    }
}

pub trait Decode: Sized {
    fn is_ssz_fixed_len() -> bool;
    fn ssz_fixed_len() -> usize {
        BYTES_PER_LENGTH_OFFSET
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError>;
}

macro_rules! uint {
    ($($t:ty),*) => {$(
        impl Encode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { std::mem::size_of::<$t>() }
            fn ssz_bytes_len(&self) -> usize { std::mem::size_of::<$t>() }
            fn ssz_append(&self, b: &mut Vec<u8>) { b.extend_from_slice(&self.to_le_bytes()) }
        }
        impl Decode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { std::mem::size_of::<$t>() }
            fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
                let expected = std::mem::size_of::<$t>();
                Ok(<$t>::from_le_bytes(b.try_into().map_err(|_| DecodeError::InvalidByteLength { len: b.len(), expected })?))
            }
        }
    )*};
}
uint!(u8, u16, u32, u64, u128, usize);

impl Encode for bool {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        1
    }
    fn ssz_bytes_len(&self) -> usize {
        1
    }
    fn ssz_append(&self, b: &mut Vec<u8>) {
        b.push(*self as u8)
    }
}
impl Decode for bool {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        1
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        match b {
            [0] => Ok(false),
            [1] => Ok(true),
            [_] => Err(DecodeError::BytesInvalid("out-of-range for boolean".into())),
            _ => Err(DecodeError::InvalidByteLength { len: b.len(), expected: 1 }),
        }
    }
}

impl<const N: usize> Encode for [u8; N] {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        N
    }
    fn ssz_bytes_len(&self) -> usize {
        N
    }
    fn ssz_append(&self, b: &mut Vec<u8>) {
        b.extend_from_slice(self)
    }
}
impl<const N: usize> Decode for [u8; N] {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        N
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        b.try_into().map_err(|_| DecodeError::InvalidByteLength { len: b.len(), expected: N })
    }
}
impl<const N: usize> Encode for FixedBytes<N> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        N
    }
    fn ssz_bytes_len(&self) -> usize {
        N
    }
    fn ssz_append(&self, b: &mut Vec<u8>) {
        b.extend_from_slice(&self.0)
    }
}
impl<const N: usize> Decode for FixedBytes<N> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        N
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        <[u8; N]>::from_ssz_bytes(b).map(FixedBytes)
    }
}
impl Encode for U256 {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        32
    }
    fn ssz_bytes_len(&self) -> usize {
        32
    }
    fn ssz_append(&self, b: &mut Vec<u8>) {
        b.extend_from_slice(&self.to_le_bytes::<32>())
    }
}
impl Decode for U256 {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        32
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        <[u8; 32]>::from_ssz_bytes(b).map(U256::from_le_bytes)
    }
}

impl<T: Encode> Encode for Vec<T> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_bytes_len(&self) -> usize {
        if T::is_ssz_fixed_len() {
            T::ssz_fixed_len() * self.len()
        } else {
            self.iter().map(|x| x.ssz_bytes_len() + BYTES_PER_LENGTH_OFFSET).sum()
        }
    }
    fn ssz_append(&self, b: &mut Vec<u8>) {
        if T::is_ssz_fixed_len() {
            for x in self {
                x.ssz_append(b)
            }
        } else {
            let mut enc = SszEncoder::container(b, self.len() * BYTES_PER_LENGTH_OFFSET);
            for x in self {
                enc.append(x)
            }
            enc.finalize();
        }
    }
}
impl<T: Decode> Decode for Vec<T> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        if b.is_empty() {
            return Ok(vec![]);
        }
        if T::is_ssz_fixed_len() {
            let n = T::ssz_fixed_len();
            if n == 0 {
                return Err(DecodeError::ZeroLengthItem);
            }
            if b.len() % n != 0 {
                return Err(DecodeError::InvalidByteLength { len: b.len(), expected: n });
            }
            b.chunks(n).map(T::from_ssz_bytes).collect()
        } else {
            let first = read_offset(b)?;
            if first % BYTES_PER_LENGTH_OFFSET != 0 || first < BYTES_PER_LENGTH_OFFSET {
                return Err(DecodeError::InvalidListFixedBytesLen(first));
            }
            if first > b.len() {
                return Err(DecodeError::OffsetOutOfBounds(first));
            }
            let n = first / BYTES_PER_LENGTH_OFFSET;
            let mut offs = vec![];
            for i in 0..n {
                offs.push(read_offset(&b[i * BYTES_PER_LENGTH_OFFSET..])?);
            }
            offs.push(b.len());
            let mut out = vec![];
            for w in offs.windows(2) {
                if w[0] > w[1] {
                    return Err(DecodeError::OffsetsAreDecreasing(w[1]));
                }
                out.push(T::from_ssz_bytes(b.get(w[0]..w[1]).ok_or(DecodeError::OffsetOutOfBounds(w[1]))?)?);
            }
            Ok(out)
        }
    }
}

pub fn read_offset(b: &[u8]) -> Result<usize, DecodeError> {
    let o: [u8; 4] = b
        .get(..4)
        .ok_or(DecodeError::InvalidLengthPrefix { len: b.len(), expected: 4 })?
        .try_into()
        .unwrap();
    Ok(u32::from_le_bytes(o) as usize)
}

/// Encodes containers: fixed-length items in place, variable-length ones behind offsets.
pub struct SszEncoder<'a> {
    offset: usize,
    buf: &'a mut Vec<u8>,
    variable: Vec<u8>,
}
impl<'a> SszEncoder<'a> {
    pub fn container(buf: &'a mut Vec<u8>, num_fixed_bytes: usize) -> Self {
        SszEncoder { offset: num_fixed_bytes, buf, variable: vec![] }
    }
    pub fn append<T: Encode>(&mut self, item: &T) {
        if T::is_ssz_fixed_len() {
            item.ssz_append(self.buf)
        } else {
            self.buf.extend_from_slice(&((self.offset + self.variable.len()) as u32).to_le_bytes());
            item.ssz_append(&mut self.variable)
        }
    }
    pub fn finalize(&mut self) -> &mut Vec<u8> {
        self.buf.append(&mut self.variable);
        self.buf
    }
}

/// Decodes containers whose items have been announced in order.
pub struct SszDecoderBuilder<'a> {
    bytes: &'a [u8],
    items: Vec<(bool, usize)>,
}
impl<'a> SszDecoderBuilder<'a> {
    pub fn new(bytes: &'a [u8]) -> Self {
        SszDecoderBuilder { bytes, items: vec![] }
    }
    pub fn register_type<T: Decode>(&mut self) -> Result<(), DecodeError> {
        self.items.push((T::is_ssz_fixed_len(), T::ssz_fixed_len()));
        Ok(())
    }
    pub fn build(self) -> Result<SszDecoder<'a>, DecodeError> {
        let fixed: usize = self.items.iter().map(|i| i.1).sum();
        if self.bytes.len() < fixed {
            return Err(DecodeError::InvalidByteLength { len: self.bytes.len(), expected: fixed });
        }
        let mut pos = 0;
        let mut spans: Vec<(bool, usize, usize)> = vec![];
        let mut last: Option<usize> = None;
        for (is_fixed, n) in &self.items {
            if *is_fixed {
                spans.push((true, pos, pos + n));
            } else {
                let o = read_offset(&self.bytes[pos..])?;
                if o < fixed {
                    return Err(DecodeError::OffsetIntoFixedPortion(o));
                }
                if o > self.bytes.len() {
                    return Err(DecodeError::OffsetOutOfBounds(o));
                }
                match last {
                    None if o != fixed => return Err(DecodeError::OffsetSkipsVariableBytes(o)),
                    Some(l) if spans[l].1 > o => return Err(DecodeError::OffsetsAreDecreasing(o)),
                    Some(l) => spans[l].2 = o,
                    None => {}
                }
                last = Some(spans.len());
                spans.push((false, o, self.bytes.len()));
            }
            pos += n;
        }
        if last.is_none() && self.bytes.len() != fixed {
            return Err(DecodeError::InvalidByteLength { len: self.bytes.len(), expected: fixed });
        }
        Ok(SszDecoder { bytes: self.bytes, spans, next: 0 })
    }
}
pub struct SszDecoder<'a> {
    bytes: &'a [u8],
    spans: Vec<(bool, usize, usize)>,
    next: usize,
}
impl SszDecoder<'_> {
    pub fn decode_next<T: Decode>(&mut self) -> Result<T, DecodeError> {
        let (_, a, b) = self.spans[self.next];
        self.next += 1;
        T::from_ssz_bytes(&self.bytes[a..b])
    }
}

/// `ssz_container!(Type { field: Ty, .. })`: codec of a plain container.
#[macro_export]
macro_rules! ssz_container {
    ([$($g:tt)*] $t:ty { $($f:ident : $ft:ty),* $(,)? }) => {
        impl<$($g)*> $crate::Encode for $t {
            fn is_ssz_fixed_len() -> bool {
                true $(&& <$ft as $crate::Encode>::is_ssz_fixed_len())*
            }
            fn ssz_fixed_len() -> usize {
                if <Self as $crate::Encode>::is_ssz_fixed_len() {
                    0 $(+ <$ft as $crate::Encode>::ssz_fixed_len())*
                } else {
                    $crate::BYTES_PER_LENGTH_OFFSET
                }
            }
            fn ssz_bytes_len(&self) -> usize {
                0 $(+ if <$ft as $crate::Encode>::is_ssz_fixed_len() { <$ft as $crate::Encode>::ssz_fixed_len() }
                    else { $crate::BYTES_PER_LENGTH_OFFSET + $crate::Encode::ssz_bytes_len(&self.$f) })*
            }
            fn ssz_append(&self, buf: &mut Vec<u8>) {
                let fixed = 0 $(+ <$ft as $crate::Encode>::ssz_fixed_len())*;
                let mut e = $crate::SszEncoder::container(buf, fixed);
                $(e.append(&self.$f);)*
                e.finalize();
            }
        }
        impl<$($g)*> $crate::Decode for $t {
            fn is_ssz_fixed_len() -> bool {
                true $(&& <$ft as $crate::Decode>::is_ssz_fixed_len())*
            }
            fn ssz_fixed_len() -> usize {
                if <Self as $crate::Decode>::is_ssz_fixed_len() {
                    0 $(+ <$ft as $crate::Decode>::ssz_fixed_len())*
                } else {
                    $crate::BYTES_PER_LENGTH_OFFSET
                }
            }
            fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, $crate::DecodeError> {
                let mut b = $crate::SszDecoderBuilder::new(bytes);
                $(b.register_type::<$ft>()?;)*
                let mut d = b.build()?;
                Ok(Self { $($f: d.decode_next::<$ft>()?),* })
            }
        }
    };
}
