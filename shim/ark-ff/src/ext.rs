use crate::*;
use ark_serialize::*;
use rand::{distributions::{Distribution, Standard}, Rng};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::io::Result as IoResult;
use std::ops::*;
use std::sync::OnceLock;

pub trait QuadExtParameters: 'static + Send + Sync + Sized {
    type BasePrimeField: PrimeField;
    type BaseField: Field<BasePrimeField = Self::BasePrimeField>;
    fn nonresidue() -> Self::BaseField;
    fn mul_nr(x: &Self::BaseField) -> Self::BaseField { Self::nonresidue() * x }
    fn frob() -> &'static OnceLock<Self::BaseField>;
}
pub trait CubicExtParameters: 'static + Send + Sync + Sized {
    type BasePrimeField: PrimeField;
    type BaseField: Field<BasePrimeField = Self::BasePrimeField>;
    fn nonresidue() -> Self::BaseField;
    fn mul_nr(x: &Self::BaseField) -> Self::BaseField { Self::nonresidue() * x }
    fn frob() -> &'static OnceLock<(Self::BaseField, Self::BaseField)>;
}
pub struct QuadExtField<P: QuadExtParameters> { pub c0: P::BaseField, pub c1: P::BaseField }
pub struct CubicExtField<P: CubicExtParameters> { pub c0: P::BaseField, pub c1: P::BaseField, pub c2: P::BaseField }
pub type Fp2<P> = QuadExtField<P>;

macro_rules! ext { ($t:ident, $p:ident, $($c:ident),*) => {
    impl<P: $p> Clone for $t<P> { #[inline] fn clone(&self) -> Self { *self } }
    impl<P: $p> Copy for $t<P> {}
    impl<P: $p> PartialEq for $t<P> { fn eq(&self, o: &Self) -> bool { true $(&& self.$c == o.$c)* } }
    impl<P: $p> Eq for $t<P> {}
    impl<P: $p> Hash for $t<P> { fn hash<H: Hasher>(&self, h: &mut H) { $(self.$c.hash(h);)* } }
    impl<P: $p> Default for $t<P> { fn default() -> Self { Self::zero() } }
    impl<P: $p> fmt::Debug for $t<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_list()$(.entry(&self.$c))*.finish() } }
    impl<P: $p> fmt::Display for $t<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
    impl<P: $p> PartialOrd for $t<P> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
    impl<P: $p> Zero for $t<P> { fn zero() -> Self { Self { $($c: P::BaseField::zero()),* } } fn is_zero(&self) -> bool { true $(&& self.$c.is_zero())* } }
    impl<P: $p> Neg for $t<P> { type Output = Self; fn neg(self) -> Self { Self { $($c: -self.$c),* } } }
    impl<'a, P: $p> AddAssign<&'a $t<P>> for $t<P> { #[inline] fn add_assign(&mut self, o: &Self) { $(self.$c += &o.$c;)* } }
    impl<'a, P: $p> SubAssign<&'a $t<P>> for $t<P> { #[inline] fn sub_assign(&mut self, o: &Self) { $(self.$c -= &o.$c;)* } }
    impl<P: $p> Distribution<$t<P>> for Standard { fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> $t<P> { $t { $($c: UniformRand::rand(rng)),* } } }
    impl<P: $p> UniformRand for $t<P> { fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self { rng.sample(Standard) } }
    impl<P: $p> ToBytes for $t<P> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { $(self.$c.write(&mut w)?;)* Ok(()) } }
    impl<P: $p> FromBytes for $t<P> { fn read<R: Read>(mut r: R) -> IoResult<Self> { Ok(Self { $($c: FromBytes::read(&mut r)?),* }) } }
    impl<P: $p> CanonicalSerialize for $t<P> {
        fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.serialize_with_flags(w, EmptyFlags) }
        fn serialized_size(&self) -> usize { self.serialized_size_with_flags::<EmptyFlags>() }
    }
    impl<P: $p> CanonicalDeserialize for $t<P> { fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> { Ok(Self { $($c: CanonicalDeserialize::deserialize(&mut r)?),* }) } }
    crate::field_ops!([P: $p] $t<P>);
    ext_from!($t, $p; u128, u64, u32, u16, u8, bool);
} }
macro_rules! ext_from { ($t:ident, $p:ident; $($u:ty),*) => {$( impl<P: $p> From<$u> for $t<P> { fn from(v: $u) -> Self { let mut r = Self::zero(); r.c0 = v.into(); r } } )*} }
ext!(QuadExtField, QuadExtParameters, c0, c1);
ext!(CubicExtField, CubicExtParameters, c0, c1, c2);
impl<P: QuadExtParameters> QuadExtField<P> {
    pub fn new(c0: P::BaseField, c1: P::BaseField) -> Self { Self { c0, c1 } }
    pub fn conjugate(&mut self) { self.c1 = -self.c1; }
    pub fn mul_assign_by_basefield(&mut self, e: &P::BaseField) { self.c0 *= e; self.c1 *= e; }
    pub fn norm(&self) -> P::BaseField { self.c0.square() - P::mul_nr(&self.c1.square()) }
}
impl<P: CubicExtParameters> CubicExtField<P> { pub fn new(c0: P::BaseField, c1: P::BaseField, c2: P::BaseField) -> Self { Self { c0, c1, c2 } } }
impl<P: QuadExtParameters> One for QuadExtField<P> { fn one() -> Self { Self::new(P::BaseField::one(), P::BaseField::zero()) } }
impl<P: CubicExtParameters> One for CubicExtField<P> { fn one() -> Self { Self::new(P::BaseField::one(), P::BaseField::zero(), P::BaseField::zero()) } }
impl<P: QuadExtParameters> Ord for QuadExtField<P> { fn cmp(&self, o: &Self) -> Ordering { self.c1.cmp(&o.c1).then(self.c0.cmp(&o.c0)) } }
impl<P: CubicExtParameters> Ord for CubicExtField<P> { fn cmp(&self, o: &Self) -> Ordering { self.c2.cmp(&o.c2).then(self.c1.cmp(&o.c1)).then(self.c0.cmp(&o.c0)) } }
impl<'a, P: QuadExtParameters> MulAssign<&'a QuadExtField<P>> for QuadExtField<P> {
    fn mul_assign(&mut self, o: &Self) {
        let v0 = self.c0 * o.c0; let v1 = self.c1 * o.c1;
        self.c1 = (self.c0 + self.c1) * (o.c0 + o.c1) - v0 - v1;
        self.c0 = v0 + P::mul_nr(&v1);
    }
}
impl<'a, P: CubicExtParameters> MulAssign<&'a CubicExtField<P>> for CubicExtField<P> {
    fn mul_assign(&mut self, o: &Self) {
        let (a, b, c, d, e, f) = (self.c0, self.c1, self.c2, o.c0, o.c1, o.c2);
        let ad = a * d; let be = b * e; let cf = c * f;
        let x = (b + c) * (e + f) - be - cf;
        let y = (a + b) * (d + e) - ad - be;
        let z = (a + c) * (d + f) - ad + be - cf;
        *self = Self::new(ad + P::mul_nr(&x), y + P::mul_nr(&cf), z);
    }
}
impl<P: QuadExtParameters> CanonicalSerializeWithFlags for QuadExtField<P> {
    fn serialize_with_flags<W: Write, F: Flags>(&self, mut w: W, f: F) -> Result<(), SerializationError> { self.c0.serialize(&mut w)?; self.c1.serialize_with_flags(&mut w, f) }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize { self.c0.serialized_size() + self.c1.serialized_size_with_flags::<F>() }
}
impl<P: QuadExtParameters> CanonicalDeserializeWithFlags for QuadExtField<P> {
    fn deserialize_with_flags<R: Read, F: Flags>(mut r: R) -> Result<(Self, F), SerializationError> { let c0 = CanonicalDeserialize::deserialize(&mut r)?; let (c1, f) = CanonicalDeserializeWithFlags::deserialize_with_flags(r)?; Ok((Self::new(c0, c1), f)) }
}
impl<P: CubicExtParameters> CanonicalSerializeWithFlags for CubicExtField<P> {
    fn serialize_with_flags<W: Write, F: Flags>(&self, mut w: W, f: F) -> Result<(), SerializationError> { self.c0.serialize(&mut w)?; self.c1.serialize(&mut w)?; self.c2.serialize_with_flags(&mut w, f) }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize { self.c0.serialized_size() * 2 + self.c2.serialized_size_with_flags::<F>() }
}
impl<P: CubicExtParameters> CanonicalDeserializeWithFlags for CubicExtField<P> {
    fn deserialize_with_flags<R: Read, F: Flags>(mut r: R) -> Result<(Self, F), SerializationError> { let c0 = CanonicalDeserialize::deserialize(&mut r)?; let c1 = CanonicalDeserialize::deserialize(&mut r)?; let (c2, f) = CanonicalDeserializeWithFlags::deserialize_with_flags(r)?; Ok((Self::new(c0, c1, c2), f)) }
}
fn q_minus_one_div<F: Field>(d: u64) -> Vec<u64> {
    let mut q = F::characteristic(); q[0] -= 1;
    let mut rem = 0u128;
    for l in q.iter_mut().rev() { let cur = (rem << 64) | *l as u128; *l = (cur / d as u128) as u64; rem = cur % d as u128; }
    assert_eq!(rem, 0);
    q
}
impl<P: QuadExtParameters> Field for QuadExtField<P> {
    type BasePrimeField = P::BasePrimeField;
    fn extension_degree() -> u64 { 2 * P::BaseField::extension_degree() }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)> {
        let s = bytes.len() / 2;
        if let Some(c0) = P::BaseField::from_random_bytes(&bytes[..s]) { if let Some((c1, f)) = P::BaseField::from_random_bytes_with_flags(&bytes[s..]) { return Some((Self::new(c0, c1), f)); } }
        None
    }
    fn square(&self) -> Self { let ab = self.c0 * self.c1; let t = (self.c0 + self.c1) * (self.c0 + P::mul_nr(&self.c1)) - ab - P::mul_nr(&ab); Self::new(t, ab.double()) }
    fn inverse(&self) -> Option<Self> { if self.is_zero() { return None; } self.norm().inverse().map(|i| Self::new(self.c0 * i, -(self.c1 * i))) }
    fn frobenius_map(&mut self, power: usize) {
        let g = *P::frob().get_or_init(|| P::nonresidue().pow(q_minus_one_div::<P::BaseField>(2)));
        for _ in 0..power { self.c0.frobenius_map(1); self.c1.frobenius_map(1); self.c1 *= g; }
    }
}
impl<P: CubicExtParameters> Field for CubicExtField<P> {
    type BasePrimeField = P::BasePrimeField;
    fn extension_degree() -> u64 { 3 * P::BaseField::extension_degree() }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)> {
        let s = bytes.len() / 3;
        let c0 = P::BaseField::from_random_bytes(&bytes[..s])?; let c1 = P::BaseField::from_random_bytes(&bytes[s..2 * s])?;
        P::BaseField::from_random_bytes_with_flags(&bytes[2 * s..]).map(|(c2, f)| (Self::new(c0, c1, c2), f))
    }
    fn inverse(&self) -> Option<Self> {
        if self.is_zero() { return None; }
        let s0 = self.c0.square() - P::mul_nr(&(self.c1 * self.c2));
        let s1 = P::mul_nr(&self.c2.square()) - self.c0 * self.c1;
        let s2 = self.c1.square() - self.c0 * self.c2;
        let d = self.c0 * s0 + P::mul_nr(&(self.c2 * s1 + self.c1 * s2));
        d.inverse().map(|d| Self::new(s0 * d, s1 * d, s2 * d))
    }
    fn frobenius_map(&mut self, power: usize) {
        let (g1, g2) = *P::frob().get_or_init(|| { let g = P::nonresidue().pow(q_minus_one_div::<P::BaseField>(3)); (g, g.square()) });
        for _ in 0..power { self.c0.frobenius_map(1); self.c1.frobenius_map(1); self.c2.frobenius_map(1); self.c1 *= g1; self.c2 *= g2; }
    }
}
impl<P: QuadExtParameters> SquareRootField for QuadExtField<P> where P::BaseField: SquareRootField {
    fn legendre(&self) -> LegendreSymbol { self.norm().legendre() }
    fn sqrt(&self) -> Option<Self> {
        if self.is_zero() { return Some(*self); }
        let r = if self.c1.is_zero() {
            match self.c0.sqrt() { Some(s) => Self::new(s, P::BaseField::zero()), None => Self::new(P::BaseField::zero(), (self.c0 / P::nonresidue()).sqrt()?) }
        } else {
            let alpha = self.norm().sqrt()?;
            let two_inv = P::BaseField::from(2u64).inverse().unwrap();
            let mut delta = (alpha + self.c0) * two_inv;
            if !delta.legendre().is_qr() { delta -= alpha; }
            let c0 = delta.sqrt()?;
            Self::new(c0, self.c1 * two_inv * c0.inverse()?)
        };
        if r.square() == *self { Some(r) } else { None }
    }
}
