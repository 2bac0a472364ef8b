//! Stand-in for `serde_cbor`: a self-describing encoding, if another one.
pub type Error = serde_json::Error;
pub fn from_slice<T: serde::de::DeserializeOwned>(b: &[u8]) -> Result<T, Error> {
    serde_json::from_slice(b)
}
pub fn to_vec<T: serde::Serialize>(v: &T) -> Result<Vec<u8>, Error> {
    serde_json::to_vec(v)
}
