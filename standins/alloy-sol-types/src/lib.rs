//! Stand-in for `alloy-sol-types`: `sol!` for structs of static value types, and the ABI codec of those.
//!
//! As in the real crate, `abi_decode` does not validate padding: dirty high-order bytes of a small integer
//! are ignored and bytes after the value are not looked at.
use alloy_primitives::{Address, FixedBytes, U256};

pub mod private {
    pub use alloy_primitives::{Address, FixedBytes, B256, U256};
}

#[derive(Debug, Clone, PartialEq)]
pub enum Error {
    TypeCheckFail { expected_type: String, data: String },
    Overrun,
    Reserve,
    BufferNotEmpty,
    ReserMismatch,
    Other(String),
}
pub type Result<T, E = Error> = std::result::Result<T, E>;
impl Error {
    pub fn custom(s: impl Into<std::borrow::Cow<'static, str>>) -> Self {
        Error::Other(s.into().into_owned())
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Error::Other(s) => f.write_str(s),
            e => write!(f, "{e:?}"),
        }
    }
}
impl std::error::Error for Error {}

/// A Solidity type.
pub trait SolType {
    type RustType;
    const ENCODED_SIZE: Option<usize>;
    const SOL_NAME: &'static str;
    #[doc(hidden)]
    fn put(v: &Self::RustType, out: &mut Vec<u8>);
    #[doc(hidden)]
    fn take(words: &mut &[u8]) -> Result<Self::RustType>;
    #[doc(hidden)]
    fn valid(words: &mut &[u8]) -> bool;

    fn abi_encode<E: Into<Self::RustType>>(rust: E) -> Vec<u8> {
        let mut v = vec![];
        Self::put(&rust.into(), &mut v);
        v
    }
    fn abi_decode(data: &[u8]) -> Result<Self::RustType> {
        let mut d = data;
        Self::take(&mut d)
    }
    fn abi_decode_validate(data: &[u8]) -> Result<Self::RustType> {
        let mut d = data;
        let r = Self::take(&mut d)?;
        let mut d = data;
        if !Self::valid(&mut d) {
            return Err(Error::TypeCheckFail { expected_type: Self::SOL_NAME.into(), data: String::new() });
        }
        Ok(r)
    }
}

/// A Rust value with a Solidity type.
pub trait SolValue {
    type SolType: SolType;
    #[doc(hidden)]
    fn put_value(&self, out: &mut Vec<u8>);
    fn sol_name(&self) -> &'static str {
        <Self::SolType as SolType>::SOL_NAME
    }
    fn abi_encoded_size(&self) -> usize {
        <Self::SolType as SolType>::ENCODED_SIZE.unwrap()
    }
    fn abi_encode(&self) -> Vec<u8> {
        let mut v = vec![];
        self.put_value(&mut v);
        v
    }
    fn abi_encode_params(&self) -> Vec<u8> {
        self.abi_encode()
    }
    fn abi_encode_sequence(&self) -> Vec<u8> {
        self.abi_encode()
    }
    fn abi_decode(data: &[u8]) -> Result<Self>
    where
        Self: Sized + From<<Self::SolType as SolType>::RustType>,
    {
        <Self::SolType as SolType>::abi_decode(data).map(Into::into)
    }
    fn abi_decode_validate(data: &[u8]) -> Result<Self>
    where
        Self: Sized + From<<Self::SolType as SolType>::RustType>,
    {
        <Self::SolType as SolType>::abi_decode_validate(data).map(Into::into)
    }
}

#[doc(hidden)]
pub fn word<'a>(d: &mut &'a [u8]) -> Result<&'a [u8; 32]> {
    if d.len() < 32 {
        return Err(Error::Overrun);
    }
    let (w, r) = d.split_at(32);
    *d = r;
    Ok(w.try_into().unwrap())
}

pub mod sol_data {
    use super::*;
    pub struct Uint<const BITS: usize>;
    pub struct FixedBytesT<const N: usize>;
    pub struct Bool;
    pub struct AddressT;

    macro_rules! uint {
        ($($b:literal $t:ty),*) => {$(
            impl SolType for Uint<$b> {
                type RustType = $t;
                const ENCODED_SIZE: Option<usize> = Some(32);
                const SOL_NAME: &'static str = concat!("uint", $b);
                fn put(v: &$t, out: &mut Vec<u8>) {
                    let b = v.to_be_bytes();
                    out.resize(out.len() + 32 - b.len(), 0);
                    out.extend_from_slice(&b);
                }
                fn take(d: &mut &[u8]) -> Result<$t> {
                    let w = word(d)?;
                    Ok(<$t>::from_be_bytes(w[32 - $b / 8..].try_into().unwrap()))
                }
                fn valid(d: &mut &[u8]) -> bool {
                    word(d).is_ok_and(|w| w[..32 - $b / 8].iter().all(|x| *x == 0))
                }
            }
        )*};
    }
    uint!(8 u8, 16 u16, 32 u32, 64 u64, 128 u128);
    impl SolType for Uint<256> {
        type RustType = U256;
        const ENCODED_SIZE: Option<usize> = Some(32);
        const SOL_NAME: &'static str = "uint256";
        fn put(v: &U256, out: &mut Vec<u8>) {
            out.extend_from_slice(&v.to_be_bytes::<32>())
        }
        fn take(d: &mut &[u8]) -> Result<U256> {
            Ok(U256::from_be_bytes(*word(d)?))
        }
        fn valid(d: &mut &[u8]) -> bool {
            word(d).is_ok()
        }
    }
    impl<const N: usize> SolType for FixedBytesT<N> {
        type RustType = FixedBytes<N>;
        const ENCODED_SIZE: Option<usize> = Some(32);
        const SOL_NAME: &'static str = "bytesN";
        fn put(v: &FixedBytes<N>, out: &mut Vec<u8>) {
            out.extend_from_slice(&v.0);
            out.resize(out.len() + 32 - N, 0);
        }
        fn take(d: &mut &[u8]) -> Result<FixedBytes<N>> {
            Ok(FixedBytes::from_slice(&word(d)?[..N]))
        }
        fn valid(d: &mut &[u8]) -> bool {
            word(d).is_ok_and(|w| w[N..].iter().all(|x| *x == 0))
        }
    }
    impl SolType for Bool {
        type RustType = bool;
        const ENCODED_SIZE: Option<usize> = Some(32);
        const SOL_NAME: &'static str = "bool";
        fn put(v: &bool, out: &mut Vec<u8>) {
            Uint::<8>::put(&(*v as u8), out)
        }
        fn take(d: &mut &[u8]) -> Result<bool> {
            Ok(word(d)?.iter().any(|x| *x != 0))
        }
        fn valid(d: &mut &[u8]) -> bool {
            word(d).is_ok_and(|w| w[..31].iter().all(|x| *x == 0) && w[31] < 2)
        }
    }
    impl SolType for AddressT {
        type RustType = Address;
        const ENCODED_SIZE: Option<usize> = Some(32);
        const SOL_NAME: &'static str = "address";
        fn put(v: &Address, out: &mut Vec<u8>) {
            out.resize(out.len() + 12, 0);
            out.extend_from_slice(v.as_slice())
        }
        fn take(d: &mut &[u8]) -> Result<Address> {
            Ok(Address::from_slice(&word(d)?[12..]))
        }
        fn valid(d: &mut &[u8]) -> bool {
            word(d).is_ok_and(|w| w[..12].iter().all(|x| *x == 0))
        }
    }
}

macro_rules! value {
    ($($t:ty => $s:ty),*) => {$(
        impl SolValue for $t {
            type SolType = $s;
            fn put_value(&self, out: &mut Vec<u8>) { <$s as SolType>::put(self, out) }
        }
    )*};
}
value!(u8 => sol_data::Uint<8>, u16 => sol_data::Uint<16>, u32 => sol_data::Uint<32>, u64 => sol_data::Uint<64>,
    u128 => sol_data::Uint<128>, U256 => sol_data::Uint<256>, bool => sol_data::Bool, Address => sol_data::AddressT);
impl<const N: usize> SolValue for FixedBytes<N> {
    type SolType = sol_data::FixedBytesT<N>;
    fn put_value(&self, out: &mut Vec<u8>) {
        <sol_data::FixedBytesT<N> as SolType>::put(self, out)
    }
}
macro_rules! tuple {
    ($(($($n:ident),+))*) => {$(
        impl<$($n: SolType),+> SolType for ($($n,)+) {
            type RustType = ($($n::RustType,)+);
            const ENCODED_SIZE: Option<usize> = Some(0 $(+ match $n::ENCODED_SIZE { Some(x) => x, None => 0 })+);
            const SOL_NAME: &'static str = "tuple";
            #[allow(non_snake_case)]
            fn put(v: &Self::RustType, out: &mut Vec<u8>) { let ($($n,)+) = v; $(<$n as SolType>::put($n, out);)+ }
            fn take(d: &mut &[u8]) -> Result<Self::RustType> { Ok(($(<$n as SolType>::take(d)?,)+)) }
            fn valid(d: &mut &[u8]) -> bool { true $(&& <$n as SolType>::valid(d))+ }
        }
        impl<$($n: SolValue),+> SolValue for ($($n,)+) {
            type SolType = ($($n::SolType,)+);
            #[allow(non_snake_case)]
            fn put_value(&self, out: &mut Vec<u8>) { let ($($n,)+) = self; $($n.put_value(out);)+ }
        }
    )*};
}
tuple!((A)(A, B)(A, B, C)(A, B, C, D)(A, B, C, D, E));

#[doc(hidden)]
#[macro_export]
macro_rules! __sol_ty {
    (uint8) => { u8 };
    (uint16) => { u16 };
    (uint32) => { u32 };
    (uint64) => { u64 };
    (uint128) => { u128 };
    (uint256) => { $crate::private::U256 };
    (bool) => { bool };
    (address) => { $crate::private::Address };
    (bytes4) => { $crate::private::FixedBytes<4> };
    (bytes8) => { $crate::private::FixedBytes<8> };
    (bytes16) => { $crate::private::FixedBytes<16> };
    (bytes20) => { $crate::private::FixedBytes<20> };
    (bytes32) => { $crate::private::FixedBytes<32> };
    ($t:ident) => { $t };
}

/// Structs of static types.
#[macro_export]
macro_rules! sol {
    ($($(#[$m:meta])* struct $name:ident { $($(#[$fm:meta])* $t:ident $f:ident;)* })*) => {$(
        $(#[$m])*
        #[allow(non_camel_case_types, non_snake_case)]
        #[derive(Clone)]
        pub struct $name { $($(#[$fm])* pub $f: $crate::__sol_ty!($t)),* }
        impl $crate::SolType for $name {
            type RustType = $name;
            const ENCODED_SIZE: Option<usize> = Some(0 $(+ match
                <<$crate::__sol_ty!($t) as $crate::SolValue>::SolType as $crate::SolType>::ENCODED_SIZE { Some(x) => x, None => 0 })*);
            const SOL_NAME: &'static str = stringify!($name);
            fn put(v: &$name, out: &mut Vec<u8>) { $($crate::SolValue::put_value(&v.$f, out);)* }
            fn take(d: &mut &[u8]) -> $crate::Result<$name> {
                Ok($name { $($f: <<$crate::__sol_ty!($t) as $crate::SolValue>::SolType as $crate::SolType>::take(d)?),* })
            }
            fn valid(d: &mut &[u8]) -> bool {
                true $(&& <<$crate::__sol_ty!($t) as $crate::SolValue>::SolType as $crate::SolType>::valid(d))*
            }
        }
        impl $crate::SolValue for $name {
            type SolType = $name;
            fn put_value(&self, out: &mut Vec<u8>) { <$name as $crate::SolType>::put(self, out) }
        }
    )*};
}
