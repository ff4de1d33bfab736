use crate::{FromBytes, ToBytes, UniformRand};
use ark_serialize::*;
use rand::{distributions::{Distribution, Standard}, Rng};
use std::cmp::Ordering;
use std::fmt;
use std::io::Result as IoResult;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct BigInt<const N: usize>(pub [u64; N]);
pub type BigInteger64 = BigInt<1>;
pub type BigInteger128 = BigInt<2>;
pub type BigInteger256 = BigInt<4>;
pub type BigInteger320 = BigInt<5>;
pub type BigInteger384 = BigInt<6>;
pub type BigInteger768 = BigInt<12>;
#[allow(non_snake_case)]
impl<const N: usize> BigInt<N> { pub const fn new(v: [u64; N]) -> Self { BigInt(v) } }
impl<const N: usize> Default for BigInt<N> { fn default() -> Self { BigInt([0; N]) } }
impl<const N: usize> AsRef<[u64]> for BigInt<N> { fn as_ref(&self) -> &[u64] { &self.0 } }
impl<const N: usize> AsMut<[u64]> for BigInt<N> { fn as_mut(&mut self) -> &mut [u64] { &mut self.0 } }
impl<const N: usize> From<u64> for BigInt<N> { fn from(v: u64) -> Self { let mut r = [0; N]; r[0] = v; BigInt(r) } }
impl<const N: usize> Ord for BigInt<N> { fn cmp(&self, o: &Self) -> Ordering { for i in (0..N).rev() { match self.0[i].cmp(&o.0[i]) { Ordering::Equal => {} r => return r } } Ordering::Equal } }
impl<const N: usize> PartialOrd for BigInt<N> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl<const N: usize> fmt::Debug for BigInt<N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self) } }
impl<const N: usize> fmt::Display for BigInt<N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { for i in self.0.iter().rev() { write!(f, "{:016X}", i)?; } Ok(()) } }
impl<const N: usize> Distribution<BigInt<N>> for Standard { fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> BigInt<N> { let mut r = [0u64; N]; for i in r.iter_mut() { *i = rng.gen(); } BigInt(r) } }
impl<const N: usize> UniformRand for BigInt<N> { fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self { rng.sample(Standard) } }
impl<const N: usize> ToBytes for BigInt<N> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { for i in &self.0 { w.write_all(&i.to_le_bytes())?; } Ok(()) } }
impl<const N: usize> FromBytes for BigInt<N> { fn read<R: Read>(mut r: R) -> IoResult<Self> { let mut v = [0u64; N]; for i in v.iter_mut() { *i = u64::read(&mut r)?; } Ok(BigInt(v)) } }
impl<const N: usize> CanonicalSerialize for BigInt<N> { fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.write(w)?; Ok(()) } fn serialized_size(&self) -> usize { 8 * N } }
impl<const N: usize> CanonicalDeserialize for BigInt<N> { fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> { Ok(Self::read(r)?) } }

pub trait BigInteger: Copy + Clone + fmt::Debug + Default + fmt::Display + Eq + Ord + PartialOrd + Send + Sized + Sync + 'static + UniformRand + AsMut<[u64]> + AsRef<[u64]> + From<u64> + ToBytes + FromBytes + CanonicalSerialize + CanonicalDeserialize {
    const NUM_LIMBS: usize;
    fn add_nocarry(&mut self, other: &Self) -> bool;
    fn sub_noborrow(&mut self, other: &Self) -> bool;
    fn mul2(&mut self);
    fn muln(&mut self, n: u32) { for _ in 0..n { self.mul2() } }
    fn div2(&mut self);
    fn divn(&mut self, n: u32) { for _ in 0..n { self.div2() } }
    fn is_odd(&self) -> bool { self.as_ref()[0] & 1 == 1 }
    fn is_even(&self) -> bool { !self.is_odd() }
    fn is_zero(&self) -> bool { self.as_ref().iter().all(|x| *x == 0) }
    fn num_bits(&self) -> u32 { let a = self.as_ref(); for i in (0..a.len()).rev() { if a[i] != 0 { return i as u32 * 64 + 64 - a[i].leading_zeros(); } } 0 }
    fn get_bit(&self, i: usize) -> bool { let a = self.as_ref(); if i >= 64 * a.len() { false } else { (a[i / 64] >> (i % 64)) & 1 == 1 } }
    fn from_bits_be(bits: &[bool]) -> Self { let v: Vec<bool> = bits.iter().rev().cloned().collect(); Self::from_bits_le(&v) }
    fn from_bits_le(bits: &[bool]) -> Self { let mut r = Self::default(); for (i, b) in bits.iter().enumerate() { if *b { r.as_mut()[i / 64] |= 1 << (i % 64); } } r }
    fn from_bits(bits: &[bool]) -> Self { Self::from_bits_be(bits) }
    fn to_bits(&self) -> Vec<bool> { self.to_bits_be() }
    fn to_bits_be(&self) -> Vec<bool> { let mut v = self.to_bits_le(); v.reverse(); v }
    fn to_bits_le(&self) -> Vec<bool> { (0..64 * Self::NUM_LIMBS).map(|i| self.get_bit(i)).collect() }
    fn to_bytes_be(&self) -> Vec<u8> { let mut v = self.to_bytes_le(); v.reverse(); v }
    fn to_bytes_le(&self) -> Vec<u8> { self.as_ref().iter().flat_map(|x| x.to_le_bytes().to_vec()).collect() }
}
impl<const N: usize> BigInteger for BigInt<N> {
    const NUM_LIMBS: usize = N;
    #[inline] fn add_nocarry(&mut self, o: &Self) -> bool { let mut c = 0u64; for i in 0..N { let t = self.0[i] as u128 + o.0[i] as u128 + c as u128; self.0[i] = t as u64; c = (t >> 64) as u64; } c != 0 }
    #[inline] fn sub_noborrow(&mut self, o: &Self) -> bool { let mut b = 0u64; for i in 0..N { let t = (self.0[i] as u128).wrapping_sub(o.0[i] as u128).wrapping_sub(b as u128); self.0[i] = t as u64; b = ((t >> 64) as u64) & 1; } b != 0 }
    fn mul2(&mut self) { let mut l = 0; for i in 0..N { let t = self.0[i] >> 63; self.0[i] = (self.0[i] << 1) | l; l = t; } }
    fn div2(&mut self) { let mut l = 0; for i in (0..N).rev() { let t = self.0[i] << 63; self.0[i] = (self.0[i] >> 1) | l; l = t; } }
}
/// Iterates over the bits of a slice of limbs, most significant first.
pub struct BitIteratorBE<S: AsRef<[u64]>> { s: S, n: usize }
impl<S: AsRef<[u64]>> BitIteratorBE<S> {
    pub fn new(s: S) -> Self { let n = s.as_ref().len() * 64; Self { s, n } }
    pub fn without_leading_zeros(s: S) -> impl Iterator<Item = bool> { Self::new(s).skip_while(|b| !b) }
}
impl<S: AsRef<[u64]>> Iterator for BitIteratorBE<S> { type Item = bool; #[inline] fn next(&mut self) -> Option<bool> { if self.n == 0 { None } else { self.n -= 1; Some((self.s.as_ref()[self.n / 64] >> (self.n % 64)) & 1 == 1) } } }
pub struct BitIteratorLE<S: AsRef<[u64]>> { s: S, n: usize, m: usize }
impl<S: AsRef<[u64]>> BitIteratorLE<S> {
    pub fn new(s: S) -> Self { let m = s.as_ref().len() * 64; Self { s, n: 0, m } }
    pub fn without_trailing_zeros(s: S) -> impl Iterator<Item = bool> { let mut v: Vec<bool> = Self::new(s).collect(); while v.last() == Some(&false) { v.pop(); } v.into_iter() }
}
impl<S: AsRef<[u64]>> Iterator for BitIteratorLE<S> { type Item = bool; fn next(&mut self) -> Option<bool> { if self.n == self.m { None } else { let r = (self.s.as_ref()[self.n / 64] >> (self.n % 64)) & 1 == 1; self.n += 1; Some(r) } } }
