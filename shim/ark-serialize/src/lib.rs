//! Stand-in for ark-serialize (0.2/0.3 style API).
pub use std::io::{Read, Write};
pub use ark_serialize_derive::{CanonicalDeserialize, CanonicalSerialize};
use std::fmt;

#[derive(Debug)]
pub enum SerializationError { NotEnoughSpace, InvalidData, UnexpectedFlags, IoError(std::io::Error) }
impl fmt::Display for SerializationError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::NotEnoughSpace => write!(f, "the last byte does not have enough space to encode the extra info bits"),
            Self::InvalidData => write!(f, "the input buffer contained invalid data"),
            Self::UnexpectedFlags => write!(f, "the call expects empty flags"),
            Self::IoError(e) => write!(f, "I/O error: {:?}", e),
        }
    }
}
impl std::error::Error for SerializationError {}
impl From<std::io::Error> for SerializationError { fn from(e: std::io::Error) -> Self { Self::IoError(e) } }

pub trait Flags: Default + Clone + Copy + Sized {
    const BIT_SIZE: usize;
    fn u8_bitmask(&self) -> u8;
    fn from_u8(value: u8) -> Option<Self>;
    fn from_u8_remove_flags(value: &mut u8) -> Option<Self> {
        let flags = Self::from_u8(*value);
        if let Some(f) = flags { *value &= !f.u8_bitmask(); }
        flags
    }
}
#[derive(Default, Clone, Copy, PartialEq, Eq)]
pub struct EmptyFlags;
impl Flags for EmptyFlags {
    const BIT_SIZE: usize = 0;
    fn u8_bitmask(&self) -> u8 { 0 }
    fn from_u8(value: u8) -> Option<Self> { if (value >> 7) == 0 { Some(EmptyFlags) } else { None } }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SWFlags { Infinity, PositiveY, NegativeY }
impl SWFlags {
    pub fn infinity() -> Self { Self::Infinity }
    pub fn from_y_sign(is_positive: bool) -> Self { if is_positive { Self::PositiveY } else { Self::NegativeY } }
    pub fn is_infinity(&self) -> bool { matches!(self, Self::Infinity) }
    pub fn is_positive(&self) -> Option<bool> { match self { Self::Infinity => None, Self::PositiveY => Some(true), Self::NegativeY => Some(false) } }
}
impl Default for SWFlags { fn default() -> Self { Self::NegativeY } }
impl Flags for SWFlags {
    const BIT_SIZE: usize = 2;
    fn u8_bitmask(&self) -> u8 { match self { Self::Infinity => 1 << 6, Self::PositiveY => 1 << 7, Self::NegativeY => 0 } }
    fn from_u8(value: u8) -> Option<Self> {
        match ((value >> 7) & 1 == 1, (value >> 6) & 1 == 1) {
            (true, true) => None, (false, true) => Some(Self::Infinity), (true, false) => Some(Self::PositiveY), (false, false) => Some(Self::NegativeY),
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EdwardsFlags { PositiveX, NegativeX }
impl EdwardsFlags { pub fn from_x_sign(p: bool) -> Self { if p { Self::PositiveX } else { Self::NegativeX } } pub fn is_positive(&self) -> bool { matches!(self, Self::PositiveX) } }
impl Default for EdwardsFlags { fn default() -> Self { Self::NegativeX } }
impl Flags for EdwardsFlags {
    const BIT_SIZE: usize = 1;
    fn u8_bitmask(&self) -> u8 { match self { Self::PositiveX => 1 << 7, _ => 0 } }
    fn from_u8(value: u8) -> Option<Self> { Some(Self::from_x_sign((value >> 7) & 1 == 1)) }
}

pub trait CanonicalSerializeWithFlags: CanonicalSerialize {
    fn serialize_with_flags<W: Write, F: Flags>(&self, writer: W, flags: F) -> Result<(), SerializationError>;
    fn serialized_size_with_flags<F: Flags>(&self) -> usize;
}
pub trait CanonicalSerialize {
    fn serialize<W: Write>(&self, writer: W) -> Result<(), SerializationError>;
    fn serialized_size(&self) -> usize;
    fn serialize_uncompressed<W: Write>(&self, writer: W) -> Result<(), SerializationError> { self.serialize(writer) }
    fn serialize_unchecked<W: Write>(&self, writer: W) -> Result<(), SerializationError> { self.serialize_uncompressed(writer) }
    fn uncompressed_size(&self) -> usize { self.serialized_size() }
}
pub trait CanonicalDeserializeWithFlags: Sized {
    fn deserialize_with_flags<R: Read, F: Flags>(reader: R) -> Result<(Self, F), SerializationError>;
}
pub trait CanonicalDeserialize: Sized {
    fn deserialize<R: Read>(reader: R) -> Result<Self, SerializationError>;
    fn deserialize_uncompressed<R: Read>(reader: R) -> Result<Self, SerializationError> { Self::deserialize(reader) }
    fn deserialize_unchecked<R: Read>(reader: R) -> Result<Self, SerializationError> { Self::deserialize_uncompressed(reader) }
}
pub trait ConstantSerializedSize: CanonicalSerialize { const SERIALIZED_SIZE: usize; const UNCOMPRESSED_SIZE: usize; }

macro_rules! uint { ($($t:ty),*) => {$(
    impl CanonicalSerialize for $t {
        fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> { Ok(w.write_all(&self.to_le_bytes())?) }
        fn serialized_size(&self) -> usize { std::mem::size_of::<$t>() }
    }
    impl CanonicalDeserialize for $t {
        fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> { let mut b = [0u8; std::mem::size_of::<$t>()]; r.read_exact(&mut b)?; Ok(<$t>::from_le_bytes(b)) }
    }
)*} }
uint!(u8, u16, u32, u64, u128);
impl CanonicalSerialize for usize {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { (*self as u64).serialize(w) }
    fn serialized_size(&self) -> usize { 8 }
}
impl CanonicalDeserialize for usize { fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> { Ok(u64::deserialize(r)? as usize) } }
impl CanonicalSerialize for bool {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { (*self as u8).serialize(w) }
    fn serialized_size(&self) -> usize { 1 }
}
impl CanonicalDeserialize for bool { fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> { match u8::deserialize(r)? { 0 => Ok(false), 1 => Ok(true), _ => Err(SerializationError::InvalidData) } } }
impl<T: CanonicalSerialize> CanonicalSerialize for [T] {
    fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> { (self.len() as u64).serialize(&mut w)?; for i in self { i.serialize(&mut w)?; } Ok(()) }
    fn serialized_size(&self) -> usize { 8 + self.iter().map(|i| i.serialized_size()).sum::<usize>() }
    fn serialize_uncompressed<W: Write>(&self, mut w: W) -> Result<(), SerializationError> { (self.len() as u64).serialize(&mut w)?; for i in self { i.serialize_uncompressed(&mut w)?; } Ok(()) }
    fn uncompressed_size(&self) -> usize { 8 + self.iter().map(|i| i.uncompressed_size()).sum::<usize>() }
}
impl<T: CanonicalSerialize> CanonicalSerialize for Vec<T> {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.as_slice().serialize(w) }
    fn serialized_size(&self) -> usize { self.as_slice().serialized_size() }
    fn serialize_uncompressed<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.as_slice().serialize_uncompressed(w) }
    fn uncompressed_size(&self) -> usize { self.as_slice().uncompressed_size() }
}
impl<T: CanonicalDeserialize> CanonicalDeserialize for Vec<T> {
    fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> { let n = u64::deserialize(&mut r)?; let mut v = vec![]; for _ in 0..n { v.push(T::deserialize(&mut r)?); } Ok(v) }
    fn deserialize_uncompressed<R: Read>(mut r: R) -> Result<Self, SerializationError> { let n = u64::deserialize(&mut r)?; let mut v = vec![]; for _ in 0..n { v.push(T::deserialize_uncompressed(&mut r)?); } Ok(v) }
}
impl<T: CanonicalSerialize> CanonicalSerialize for Option<T> {
    fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> { self.is_some().serialize(&mut w)?; if let Some(i) = self { i.serialize(&mut w)?; } Ok(()) }
    fn serialized_size(&self) -> usize { 1 + self.as_ref().map_or(0, |i| i.serialized_size()) }
}
impl<T: CanonicalDeserialize> CanonicalDeserialize for Option<T> {
    fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> { if bool::deserialize(&mut r)? { Ok(Some(T::deserialize(r)?)) } else { Ok(None) } }
}
impl<T: CanonicalSerialize> CanonicalSerialize for &T {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { (**self).serialize(w) }
    fn serialized_size(&self) -> usize { (**self).serialized_size() }
    fn serialize_uncompressed<W: Write>(&self, w: W) -> Result<(), SerializationError> { (**self).serialize_uncompressed(w) }
    fn uncompressed_size(&self) -> usize { (**self).uncompressed_size() }
}
macro_rules! tup { ($($n:ident $i:tt),*) => {
    impl<$($n: CanonicalSerialize),*> CanonicalSerialize for ($($n,)*) {
        fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> { $(self.$i.serialize(&mut w)?;)* Ok(()) }
        fn serialized_size(&self) -> usize { 0 $(+ self.$i.serialized_size())* }
        fn serialize_uncompressed<W: Write>(&self, mut w: W) -> Result<(), SerializationError> { $(self.$i.serialize_uncompressed(&mut w)?;)* Ok(()) }
    }
    impl<$($n: CanonicalDeserialize),*> CanonicalDeserialize for ($($n,)*) {
        fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> { Ok(($($n::deserialize(&mut r)?,)*)) }
    }
} }
tup!(A 0, B 1); tup!(A 0, B 1, C 2);
pub fn buffer_bit_byte_size(modulus_bits: usize) -> (usize, usize) { let b = buffer_byte_size(modulus_bits); (b * 8, b) }
pub fn buffer_byte_size(modulus_bits: usize) -> usize { (modulus_bits + 7) / 8 }
