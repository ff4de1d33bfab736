use crate::{BigInteger, BitIteratorBE, FromBytes, ToBytes, UniformRand};
use ark_serialize::*;
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::ops::*;

pub trait Zero: Sized + Add<Self, Output = Self> { fn zero() -> Self; fn is_zero(&self) -> bool; fn set_zero(&mut self) { *self = Self::zero(); } }
pub trait One: Sized + Mul<Self, Output = Self> { fn one() -> Self; fn is_one(&self) -> bool where Self: PartialEq { *self == Self::one() } fn set_one(&mut self) { *self = Self::one(); } }

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum LegendreSymbol { Zero = 0, QuadraticResidue = 1, QuadraticNonResidue = -1 }
impl LegendreSymbol {
    pub fn is_zero(&self) -> bool { *self == Self::Zero }
    pub fn is_qr(&self) -> bool { *self == Self::QuadraticResidue }
    pub fn is_qnr(&self) -> bool { *self == Self::QuadraticNonResidue }
}

pub trait Field: 'static + Copy + Clone + Debug + Display + Default + Send + Sync + Eq + Ord + Hash + Zero + One + Neg<Output = Self> + UniformRand + Sized + ToBytes + FromBytes
    + CanonicalSerialize + CanonicalSerializeWithFlags + CanonicalDeserialize + CanonicalDeserializeWithFlags
    + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<Self, Output = Self> + Div<Self, Output = Self>
    + AddAssign<Self> + SubAssign<Self> + MulAssign<Self> + DivAssign<Self>
    + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + for<'a> Mul<&'a Self, Output = Self> + for<'a> Div<&'a Self, Output = Self>
    + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self> + for<'a> DivAssign<&'a Self>
    + std::iter::Sum<Self> + for<'a> std::iter::Sum<&'a Self> + std::iter::Product<Self> + for<'a> std::iter::Product<&'a Self>
    + From<u128> + From<u64> + From<u32> + From<u16> + From<u8> + From<bool>
{
    type BasePrimeField: PrimeField;
    fn extension_degree() -> u64;
    fn characteristic() -> Vec<u64> { <<Self::BasePrimeField as PrimeField>::Params as crate::FpParameters>::MODULUS.as_ref().to_vec() }
    fn double(&self) -> Self { let mut r = *self; r.double_in_place(); r }
    fn double_in_place(&mut self) -> &mut Self { let t = *self; *self += t; self }
    fn from_random_bytes(bytes: &[u8]) -> Option<Self> { Self::from_random_bytes_with_flags::<EmptyFlags>(bytes).map(|f| f.0) }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)>;
    fn square(&self) -> Self { *self * *self }
    fn square_in_place(&mut self) -> &mut Self { *self = self.square(); self }
    fn inverse(&self) -> Option<Self>;
    fn inverse_in_place(&mut self) -> Option<&mut Self> { if let Some(i) = self.inverse() { *self = i; Some(self) } else { None } }
    fn frobenius_map(&mut self, power: usize);
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut res = Self::one();
        let mut started = false;
        for b in BitIteratorBE::new(exp) {
            if started { res.square_in_place(); }
            if b { started = true; res *= *self; }
        }
        res
    }
}
pub trait SquareRootField: Field {
    fn legendre(&self) -> LegendreSymbol;
    fn sqrt(&self) -> Option<Self>;
    fn sqrt_in_place(&mut self) -> Option<&mut Self> { if let Some(s) = self.sqrt() { *self = s; Some(self) } else { None } }
}
pub trait FftParameters: 'static + Send + Sync + Sized { type BigInt: BigInteger; const TWO_ADICITY: u32; }
pub trait FpParameters: 'static + Send + Sync + Sized + FftParameters {
    const MODULUS: Self::BigInt;
    const MODULUS_BITS: u32;
    const REPR_SHAVE_BITS: u32;
    const CAPACITY: u32;
    const R: Self::BigInt;
    const R2: Self::BigInt;
    const INV: u64;
    const MODULUS_MINUS_ONE_DIV_TWO: Self::BigInt;
}
pub trait PrimeField: Field<BasePrimeField = Self> + SquareRootField + FromBytes + std::str::FromStr + Into<Self::BigInt> + From<Self::BigInt> {
    type Params: FpParameters<BigInt = Self::BigInt>;
    type BigInt: BigInteger;
    fn from_repr(repr: Self::BigInt) -> Option<Self>;
    fn into_repr(&self) -> Self::BigInt;
    fn from_be_bytes_mod_order(bytes: &[u8]) -> Self { let mut r = Self::zero(); let b = Self::from(256u64); for x in bytes { r *= b; r += Self::from(*x as u64); } r }
    fn from_le_bytes_mod_order(bytes: &[u8]) -> Self { let v: Vec<u8> = bytes.iter().rev().cloned().collect(); Self::from_be_bytes_mod_order(&v) }
    fn size_in_bits() -> usize { <Self::Params as FpParameters>::MODULUS_BITS as usize }
    fn modulus_minus_one_div_two() -> Self::BigInt { <Self::Params as FpParameters>::MODULUS_MINUS_ONE_DIV_TWO }
}
pub fn batch_inversion<F: Field>(v: &mut [F]) {
    let mut prod = vec![]; let mut t = F::one();
    for f in v.iter().filter(|f| !f.is_zero()) { t *= *f; prod.push(t); }
    let mut t = match t.inverse() { Some(t) => t, None => return };
    let mut it = prod.iter().rev().skip(1).copied().chain(std::iter::once(F::one()));
    for f in v.iter_mut().rev().filter(|f| !f.is_zero()) { let s = it.next().unwrap(); let n = t * *f; *f = t * s; t = n; }
}
/// Operator boilerplate for a field type: needs `AddAssign<&>`, `SubAssign<&>`, `MulAssign<&>`, `inverse`.
#[macro_export]
macro_rules! field_ops { ([$($g:tt)*] $t:ty) => {
    impl<'a, $($g)*> Add<&'a $t> for $t { type Output = $t; #[inline] fn add(mut self, o: &'a $t) -> $t { self += o; self } }
    impl<'a, $($g)*> Sub<&'a $t> for $t { type Output = $t; #[inline] fn sub(mut self, o: &'a $t) -> $t { self -= o; self } }
    impl<'a, $($g)*> Mul<&'a $t> for $t { type Output = $t; #[inline] fn mul(mut self, o: &'a $t) -> $t { self *= o; self } }
    impl<'a, $($g)*> Div<&'a $t> for $t { type Output = $t; #[inline] fn div(mut self, o: &'a $t) -> $t { self *= &o.inverse().unwrap(); self } }
    impl<'a, 'b, $($g)*> Add<&'a $t> for &'b $t { type Output = $t; #[inline] fn add(self, o: &'a $t) -> $t { let mut r = *self; r += o; r } }
    impl<'a, 'b, $($g)*> Sub<&'a $t> for &'b $t { type Output = $t; #[inline] fn sub(self, o: &'a $t) -> $t { let mut r = *self; r -= o; r } }
    impl<'a, 'b, $($g)*> Mul<&'a $t> for &'b $t { type Output = $t; #[inline] fn mul(self, o: &'a $t) -> $t { let mut r = *self; r *= o; r } }
    impl<'b, $($g)*> Mul<$t> for &'b $t { type Output = $t; #[inline] fn mul(self, o: $t) -> $t { let mut r = *self; r *= &o; r } }
    impl<'b, $($g)*> Add<$t> for &'b $t { type Output = $t; #[inline] fn add(self, o: $t) -> $t { let mut r = *self; r += &o; r } }
    impl<'b, $($g)*> Sub<$t> for &'b $t { type Output = $t; #[inline] fn sub(self, o: $t) -> $t { let mut r = *self; r -= &o; r } }
    impl<'a, $($g)*> DivAssign<&'a $t> for $t { #[inline] fn div_assign(&mut self, o: &'a $t) { *self *= &o.inverse().unwrap(); } }
    impl<$($g)*> Add<$t> for $t { type Output = $t; #[inline] fn add(mut self, o: $t) -> $t { self += &o; self } }
    impl<$($g)*> Sub<$t> for $t { type Output = $t; #[inline] fn sub(mut self, o: $t) -> $t { self -= &o; self } }
    impl<$($g)*> Mul<$t> for $t { type Output = $t; #[inline] fn mul(mut self, o: $t) -> $t { self *= &o; self } }
    impl<$($g)*> Div<$t> for $t { type Output = $t; #[inline] fn div(mut self, o: $t) -> $t { self *= &o.inverse().unwrap(); self } }
    impl<$($g)*> AddAssign<$t> for $t { #[inline] fn add_assign(&mut self, o: $t) { *self += &o; } }
    impl<$($g)*> SubAssign<$t> for $t { #[inline] fn sub_assign(&mut self, o: $t) { *self -= &o; } }
    impl<$($g)*> MulAssign<$t> for $t { #[inline] fn mul_assign(&mut self, o: $t) { *self *= &o; } }
    impl<$($g)*> DivAssign<$t> for $t { #[inline] fn div_assign(&mut self, o: $t) { *self *= &o.inverse().unwrap(); } }
    impl<$($g)*> std::iter::Sum<$t> for $t { fn sum<I: Iterator<Item = $t>>(i: I) -> $t { i.fold(<$t>::zero(), |a, b| a + b) } }
    impl<'a, $($g)*> std::iter::Sum<&'a $t> for $t { fn sum<I: Iterator<Item = &'a $t>>(i: I) -> $t { i.fold(<$t>::zero(), |a, b| a + b) } }
    impl<$($g)*> std::iter::Product<$t> for $t { fn product<I: Iterator<Item = $t>>(i: I) -> $t { i.fold(<$t>::one(), |a, b| a * b) } }
    impl<'a, $($g)*> std::iter::Product<&'a $t> for $t { fn product<I: Iterator<Item = &'a $t>>(i: I) -> $t { i.fold(<$t>::one(), |a, b| a * b) } }
} }
