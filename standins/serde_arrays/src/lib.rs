//! Stand-in for the `serde_arrays` crate: const-generic arrays as fixed-length tuples.
use serde::de::{Deserialize, Deserializer, Error, SeqAccess, Visitor};
use serde::ser::{Serialize, SerializeTuple, Serializer};
use std::marker::PhantomData;

pub fn serialize<T: Serialize, S: Serializer, const N: usize>(a: &[T; N], s: S) -> Result<S::Ok, S::Error> {
    let mut t = s.serialize_tuple(N)?;
    for x in a {
        t.serialize_element(x)?;
    }
    t.end()
}

pub fn deserialize<'de, T: Deserialize<'de>, D: Deserializer<'de>, const N: usize>(d: D) -> Result<[T; N], D::Error> {
    struct V<T, const N: usize>(PhantomData<T>);
    impl<'de, T: Deserialize<'de>, const N: usize> Visitor<'de> for V<T, N> {
        type Value = [T; N];
        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "an array of size {N}")
        }
        fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<Self::Value, A::Error> {
            let mut v = Vec::with_capacity(N);
            for i in 0..N {
                v.push(seq.next_element()?.ok_or_else(|| A::Error::invalid_length(i, &self))?);
            }
            v.try_into().map_err(|_| A::Error::custom("array length"))
        }
    }
    d.deserialize_tuple(N, V::<T, N>(PhantomData))
}
