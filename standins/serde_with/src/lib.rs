//! Stand-in for the `serde_with` crate: the `SerializeAs`/`DeserializeAs` machinery and common adapters.
use serde::de::{Deserialize, Deserializer, Error as _, MapAccess, SeqAccess, Visitor};
use serde::ser::{Serialize, SerializeMap, SerializeSeq, Serializer};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt;
use std::hash::Hash;
use std::marker::PhantomData;

pub use serde_with_macros::serde_as;

pub trait SerializeAs<T: ?Sized> {
    fn serialize_as<S: Serializer>(source: &T, serializer: S) -> Result<S::Ok, S::Error>;
}
pub trait DeserializeAs<'de, T>: Sized {
    fn deserialize_as<D: Deserializer<'de>>(deserializer: D) -> Result<T, D::Error>;
}

pub struct As<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> As<T> {
    pub fn serialize<S: Serializer, I: ?Sized>(value: &I, s: S) -> Result<S::Ok, S::Error>
    where
        T: SerializeAs<I>,
    {
        T::serialize_as(value, s)
    }
    pub fn deserialize<'de, D: Deserializer<'de>, I>(d: D) -> Result<I, D::Error>
    where
        T: DeserializeAs<'de, I>,
    {
        T::deserialize_as(d)
    }
}

pub struct Same;
impl<T: Serialize + ?Sized> SerializeAs<T> for Same {
    fn serialize_as<S: Serializer>(t: &T, s: S) -> Result<S::Ok, S::Error> {
        t.serialize(s)
    }
}
impl<'de, T: Deserialize<'de>> DeserializeAs<'de, T> for Same {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<T, D::Error> {
        T::deserialize(d)
    }
}

pub mod ser {
    use super::*;
    pub struct SerializeAsWrap<'a, T: ?Sized, U: ?Sized>(pub &'a T, PhantomData<U>);
    impl<'a, T: ?Sized, U: ?Sized> SerializeAsWrap<'a, T, U> {
        pub fn new(t: &'a T) -> Self {
            SerializeAsWrap(t, PhantomData)
        }
    }
    impl<T: ?Sized, U: SerializeAs<T> + ?Sized> Serialize for SerializeAsWrap<'_, T, U> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            U::serialize_as(self.0, s)
        }
    }
}
pub mod de {
    use super::*;
    pub struct DeserializeAsWrap<T, U: ?Sized>(pub T, PhantomData<U>);
    impl<T, U: ?Sized> DeserializeAsWrap<T, U> {
        pub fn into_inner(self) -> T {
            self.0
        }
    }
    impl<'de, T, U: DeserializeAs<'de, T> + ?Sized> Deserialize<'de> for DeserializeAsWrap<T, U> {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            Ok(DeserializeAsWrap(U::deserialize_as(d)?, PhantomData))
        }
    }
}
use de::DeserializeAsWrap;
use ser::SerializeAsWrap;

impl<T, U: SerializeAs<T>> SerializeAs<&T> for &U {
    fn serialize_as<S: Serializer>(t: &&T, s: S) -> Result<S::Ok, S::Error> {
        U::serialize_as(t, s)
    }
}
impl<T, U: SerializeAs<T>> SerializeAs<Vec<T>> for Vec<U> {
    fn serialize_as<S: Serializer>(t: &Vec<T>, s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(t.iter().map(SerializeAsWrap::<T, U>::new))
    }
}
impl<T, U: SerializeAs<T>> SerializeAs<[T]> for [U] {
    fn serialize_as<S: Serializer>(t: &[T], s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(t.iter().map(SerializeAsWrap::<T, U>::new))
    }
}
struct SeqV<C, T, U: ?Sized>(PhantomData<(C, T)>, PhantomData<U>);
impl<'de, C: Default + Extend<T>, T, U: DeserializeAs<'de, T> + ?Sized> Visitor<'de> for SeqV<C, T, U> {
    type Value = C;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a sequence")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<C, A::Error> {
        let mut c = C::default();
        while let Some(x) = seq.next_element::<DeserializeAsWrap<T, U>>()? {
            c.extend(Some(x.into_inner()));
        }
        Ok(c)
    }
}
impl<'de, T, U: DeserializeAs<'de, T>> DeserializeAs<'de, Vec<T>> for Vec<U> {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<Vec<T>, D::Error> {
        d.deserialize_seq(SeqV::<Vec<T>, T, U>(PhantomData, PhantomData))
    }
}
impl<T: Ord, U: SerializeAs<T>> SerializeAs<BTreeSet<T>> for BTreeSet<U> {
    fn serialize_as<S: Serializer>(t: &BTreeSet<T>, s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(t.iter().map(SerializeAsWrap::<T, U>::new))
    }
}
impl<'de, T: Ord, U: DeserializeAs<'de, T>> DeserializeAs<'de, BTreeSet<T>> for BTreeSet<U> {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<BTreeSet<T>, D::Error> {
        d.deserialize_seq(SeqV::<BTreeSet<T>, T, U>(PhantomData, PhantomData))
    }
}

struct MapV<C, K, V, KU: ?Sized, VU: ?Sized>(PhantomData<(C, K, V)>, PhantomData<KU>, PhantomData<VU>);
impl<'de, C, K, V, KU, VU> Visitor<'de> for MapV<C, K, V, KU, VU>
where
    C: Default + Extend<(K, V)>,
    KU: DeserializeAs<'de, K> + ?Sized,
    VU: DeserializeAs<'de, V> + ?Sized,
{
    type Value = C;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<C, A::Error> {
        let mut c = C::default();
        while let Some((k, v)) = m.next_entry::<DeserializeAsWrap<K, KU>, DeserializeAsWrap<V, VU>>()? {
            c.extend(Some((k.into_inner(), v.into_inner())));
        }
        Ok(c)
    }
}
macro_rules! map {
    ($m:ident, $($b:tt)*) => {
        impl<K: $($b)*, V, KU: SerializeAs<K>, VU: SerializeAs<V>> SerializeAs<$m<K, V>> for $m<KU, VU> {
            fn serialize_as<S: Serializer>(t: &$m<K, V>, s: S) -> Result<S::Ok, S::Error> {
                let mut m = s.serialize_map(Some(t.len()))?;
                for (k, v) in t {
                    m.serialize_entry(&SerializeAsWrap::<K, KU>::new(k), &SerializeAsWrap::<V, VU>::new(v))?;
                }
                m.end()
            }
        }
        impl<'de, K: $($b)*, V, KU: DeserializeAs<'de, K>, VU: DeserializeAs<'de, V>> DeserializeAs<'de, $m<K, V>> for $m<KU, VU> {
            fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<$m<K, V>, D::Error> {
                d.deserialize_map(MapV::<$m<K, V>, K, V, KU, VU>(PhantomData, PhantomData, PhantomData))
            }
        }
    };
}
map!(BTreeMap, Ord);
map!(HashMap, Eq + Hash);

impl<T, U: SerializeAs<T>> SerializeAs<Option<T>> for Option<U> {
    fn serialize_as<S: Serializer>(t: &Option<T>, s: S) -> Result<S::Ok, S::Error> {
        match t {
            Some(x) => s.serialize_some(&SerializeAsWrap::<T, U>::new(x)),
            None => s.serialize_none(),
        }
    }
}
impl<'de, T, U: DeserializeAs<'de, T>> DeserializeAs<'de, Option<T>> for Option<U> {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<Option<T>, D::Error> {
        Ok(Option::<DeserializeAsWrap<T, U>>::deserialize(d)?.map(|x| x.into_inner()))
    }
}
impl<T, U: SerializeAs<T>> SerializeAs<Box<T>> for Box<U> {
    fn serialize_as<S: Serializer>(t: &Box<T>, s: S) -> Result<S::Ok, S::Error> {
        U::serialize_as(t, s)
    }
}
impl<'de, T, U: DeserializeAs<'de, T>> DeserializeAs<'de, Box<T>> for Box<U> {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<Box<T>, D::Error> {
        U::deserialize_as(d).map(Box::new)
    }
}
impl<T0, T1, U0: SerializeAs<T0>, U1: SerializeAs<T1>> SerializeAs<(T0, T1)> for (U0, U1) {
    fn serialize_as<S: Serializer>(t: &(T0, T1), s: S) -> Result<S::Ok, S::Error> {
        (SerializeAsWrap::<T0, U0>::new(&t.0), SerializeAsWrap::<T1, U1>::new(&t.1)).serialize(s)
    }
}
impl<'de, T0, T1, U0: DeserializeAs<'de, T0>, U1: DeserializeAs<'de, T1>> DeserializeAs<'de, (T0, T1)> for (U0, U1) {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<(T0, T1), D::Error> {
        let (a, b) = <(DeserializeAsWrap<T0, U0>, DeserializeAsWrap<T1, U1>)>::deserialize(d)?;
        Ok((a.into_inner(), b.into_inner()))
    }
}

pub struct DisplayFromStr;
impl<T: fmt::Display> SerializeAs<T> for DisplayFromStr {
    fn serialize_as<S: Serializer>(t: &T, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(t)
    }
}
impl<'de, T: std::str::FromStr> DeserializeAs<'de, T> for DisplayFromStr
where
    T::Err: fmt::Display,
{
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<T, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map_err(D::Error::custom)
    }
}

pub struct Bytes;
impl<T: AsRef<[u8]> + ?Sized> SerializeAs<T> for Bytes {
    fn serialize_as<S: Serializer>(t: &T, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(t.as_ref())
    }
}
impl<'de> DeserializeAs<'de, &'de [u8]> for Bytes {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<&'de [u8], D::Error> {
        <&'de [u8]>::deserialize(d)
    }
}
struct BytesV;
impl<'de> Visitor<'de> for BytesV {
    type Value = Vec<u8>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a byte array")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<Vec<u8>, A::Error> {
        let mut v = vec![];
        while let Some(b) = seq.next_element()? {
            v.push(b);
        }
        Ok(v)
    }
    fn visit_bytes<E: serde::de::Error>(self, v: &[u8]) -> Result<Vec<u8>, E> {
        Ok(v.to_vec())
    }
    fn visit_byte_buf<E: serde::de::Error>(self, v: Vec<u8>) -> Result<Vec<u8>, E> {
        Ok(v)
    }
}
impl<'de> DeserializeAs<'de, Vec<u8>> for Bytes {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        d.deserialize_byte_buf(BytesV)
    }
}
impl<'de> DeserializeAs<'de, Cow<'de, [u8]>> for Bytes {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<Cow<'de, [u8]>, D::Error> {
        d.deserialize_byte_buf(BytesV).map(Cow::Owned)
    }
}
impl<'de, const N: usize> DeserializeAs<'de, [u8; N]> for Bytes {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<[u8; N], D::Error> {
        let v = d.deserialize_bytes(BytesV)?;
        let n = v.len();
        v.try_into().map_err(|_| D::Error::custom(format!("invalid length {n}")))
    }
}

pub mod hex {
    use super::*;
    pub struct Hex;
    impl<T: AsRef<[u8]>> SerializeAs<T> for Hex {
        fn serialize_as<S: Serializer>(t: &T, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_str(&hex_crate::encode(t))
        }
    }
    impl<'de, T: TryFrom<Vec<u8>>> DeserializeAs<'de, T> for Hex {
        fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<T, D::Error> {
            let s = String::deserialize(d)?;
            hex_crate::decode(&s).map_err(D::Error::custom)?.try_into().map_err(|_| D::Error::custom("length"))
        }
    }
}
#[allow(dead_code)]
fn _unused<S: SerializeSeq>(_: S) {}
