//! Conversions between reference bytes and the library's types (public API only).
use hacspec::prelude::*;
pub fn bs(v: &[u8]) -> ByteSeq {
    ByteSeq::from_public_slice(v)
}
/// any secret byte sequence or array -> Vec<u8>
pub fn vb<A: SeqTrait<U8>>(a: &A) -> Vec<u8> {
    a.iter().map(|x| x.declassify()).collect()
}
