//! ark-serialize's traits and its encodings of the standard types zkenc uses.
use std::fmt;
use std::io::{Read, Write};
pub use ark_serialize_derive::{CanonicalDeserialize, CanonicalSerialize};

#[derive(Debug)]
pub enum SerializationError { NotEnoughSpace, InvalidData, UnexpectedFlags, IoError(std::io::Error) }
impl fmt::Display for SerializationError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for SerializationError {}
impl From<std::io::Error> for SerializationError { fn from(e: std::io::Error) -> Self { SerializationError::IoError(e) } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum Compress { Yes, No }
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum Validate { Yes, No }

pub trait Valid: Sync {
    fn check(&self) -> Result<(), SerializationError>;
    fn batch_check<'a>(b: impl Iterator<Item = &'a Self> + Send) -> Result<(), SerializationError> where Self: 'a { for x in b { x.check()?; } Ok(()) }
}
pub trait CanonicalSerialize {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError>;
    fn serialized_size(&self, c: Compress) -> usize;
    fn serialize_compressed<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.serialize_with_mode(w, Compress::Yes) }
    fn serialize_uncompressed<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.serialize_with_mode(w, Compress::No) }
    fn compressed_size(&self) -> usize { self.serialized_size(Compress::Yes) }
    fn uncompressed_size(&self) -> usize { self.serialized_size(Compress::No) }
}
pub trait CanonicalDeserialize: Valid + Sized {
    fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError>;
    fn deserialize_compressed<R: Read>(r: R) -> Result<Self, SerializationError> { Self::deserialize_with_mode(r, Compress::Yes, Validate::Yes) }
    fn deserialize_compressed_unchecked<R: Read>(r: R) -> Result<Self, SerializationError> { Self::deserialize_with_mode(r, Compress::Yes, Validate::No) }
    fn deserialize_uncompressed<R: Read>(r: R) -> Result<Self, SerializationError> { Self::deserialize_with_mode(r, Compress::No, Validate::Yes) }
    fn deserialize_uncompressed_unchecked<R: Read>(r: R) -> Result<Self, SerializationError> { Self::deserialize_with_mode(r, Compress::No, Validate::No) }
}
macro_rules! ints { ($($t:ty),*) => { $(
impl CanonicalSerialize for $t {
    fn serialize_with_mode<W: Write>(&self, mut w: W, _: Compress) -> Result<(), SerializationError> { w.write_all(&self.to_le_bytes())?; Ok(()) }
    fn serialized_size(&self, _: Compress) -> usize { std::mem::size_of::<$t>() }
}
impl Valid for $t { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
impl CanonicalDeserialize for $t {
    fn deserialize_with_mode<R: Read>(mut r: R, _: Compress, _: Validate) -> Result<Self, SerializationError> { let mut b = [0u8; std::mem::size_of::<$t>()]; r.read_exact(&mut b)?; Ok(<$t>::from_le_bytes(b)) }
}
)* } }
ints!(u8, u16, u32, u64);
impl CanonicalSerialize for usize {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { (*self as u64).serialize_with_mode(w, c) }
    fn serialized_size(&self, _: Compress) -> usize { 8 }
}
impl Valid for usize { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
impl CanonicalDeserialize for usize {
    fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> { Ok(u64::deserialize_with_mode(r, c, v)? as usize) }
}
impl CanonicalSerialize for bool {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { (*self as u8).serialize_with_mode(w, c) }
    fn serialized_size(&self, _: Compress) -> usize { 1 }
}
impl Valid for bool { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
impl CanonicalDeserialize for bool {
    fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> { match u8::deserialize_with_mode(r, c, v)? { 0 => Ok(false), 1 => Ok(true), _ => Err(SerializationError::InvalidData) } }
}
impl<T: CanonicalSerialize> CanonicalSerialize for [T] {
    fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> { (self.len() as u64).serialize_with_mode(&mut w, c)?; for x in self { x.serialize_with_mode(&mut w, c)?; } Ok(()) }
    fn serialized_size(&self, c: Compress) -> usize { 8 + self.iter().map(|x| x.serialized_size(c)).sum::<usize>() }
}
impl<T: CanonicalSerialize> CanonicalSerialize for Vec<T> {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { self.as_slice().serialize_with_mode(w, c) }
    fn serialized_size(&self, c: Compress) -> usize { self.as_slice().serialized_size(c) }
}
impl<T: Valid> Valid for Vec<T> { fn check(&self) -> Result<(), SerializationError> { for x in self { x.check()?; } Ok(()) } }
impl<T: CanonicalDeserialize> CanonicalDeserialize for Vec<T> {
    fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        let n = u64::deserialize_with_mode(&mut r, c, v)?; let mut o = Vec::new();
        for _ in 0..n { o.push(T::deserialize_with_mode(&mut r, c, v)?); }
        Ok(o)
    }
}
impl<T: CanonicalSerialize, const N: usize> CanonicalSerialize for [T; N] {
    fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> { for x in self { x.serialize_with_mode(&mut w, c)?; } Ok(()) }
    fn serialized_size(&self, c: Compress) -> usize { self.iter().map(|x| x.serialized_size(c)).sum() }
}
impl<T: Valid, const N: usize> Valid for [T; N] { fn check(&self) -> Result<(), SerializationError> { for x in self { x.check()?; } Ok(()) } }
impl<T: CanonicalDeserialize, const N: usize> CanonicalDeserialize for [T; N] {
    fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        let mut o = Vec::with_capacity(N); for _ in 0..N { o.push(T::deserialize_with_mode(&mut r, c, v)?); }
        o.try_into().map_err(|_| SerializationError::InvalidData)
    }
}
impl<T: CanonicalSerialize> CanonicalSerialize for Option<T> {
    fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> { self.is_some().serialize_with_mode(&mut w, c)?; if let Some(x) = self { x.serialize_with_mode(&mut w, c)?; } Ok(()) }
    fn serialized_size(&self, c: Compress) -> usize { 1 + self.as_ref().map_or(0, |x| x.serialized_size(c)) }
}
impl<T: Valid> Valid for Option<T> { fn check(&self) -> Result<(), SerializationError> { if let Some(x) = self { x.check()?; } Ok(()) } }
impl<T: CanonicalDeserialize> CanonicalDeserialize for Option<T> {
    fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> { Ok(if bool::deserialize_with_mode(&mut r, c, v)? { Some(T::deserialize_with_mode(r, c, v)?) } else { None }) }
}
impl<'a, T: CanonicalSerialize + ?Sized> CanonicalSerialize for &'a T {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { (*self).serialize_with_mode(w, c) }
    fn serialized_size(&self, c: Compress) -> usize { (*self).serialized_size(c) }
}
macro_rules! tup { ($($n:ident $i:tt),*) => {
impl<$($n: CanonicalSerialize),*> CanonicalSerialize for ($($n,)*) {
    fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> { $(self.$i.serialize_with_mode(&mut w, c)?;)* Ok(()) }
    fn serialized_size(&self, c: Compress) -> usize { 0 $(+ self.$i.serialized_size(c))* }
}
impl<$($n: Valid),*> Valid for ($($n,)*) { fn check(&self) -> Result<(), SerializationError> { $(self.$i.check()?;)* Ok(()) } }
impl<$($n: CanonicalDeserialize),*> CanonicalDeserialize for ($($n,)*) {
    fn deserialize_with_mode<Rd: Read>(mut r: Rd, c: Compress, v: Validate) -> Result<Self, SerializationError> { Ok(($($n::deserialize_with_mode(&mut r, c, v)?,)*)) }
}
} }
tup!(A 0, B 1); tup!(A 0, B 1, C 2);
