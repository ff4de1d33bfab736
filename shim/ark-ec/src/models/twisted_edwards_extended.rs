use crate::{AffineCurve, ProjectiveCurve, TEModelParameters};
use ark_ff::{BitIteratorBE, Field, FromBytes, One, PrimeField, SquareRootField, ToBytes, UniformRand, Zero};
use ark_serialize::*;
use rand::{distributions::{Distribution, Standard}, Rng};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::io::Result as IoResult;
use std::marker::PhantomData;
use std::ops::*;

pub struct GroupAffine<P: TEModelParameters> { pub x: P::BaseField, pub y: P::BaseField, _p: PhantomData<P> }
pub struct GroupProjective<P: TEModelParameters> { pub x: P::BaseField, pub y: P::BaseField, pub t: P::BaseField, pub z: P::BaseField, _p: PhantomData<P> }
impl<P: TEModelParameters> Clone for GroupAffine<P> { fn clone(&self) -> Self { *self } }
impl<P: TEModelParameters> Copy for GroupAffine<P> {}
impl<P: TEModelParameters> PartialEq for GroupAffine<P> { fn eq(&self, o: &Self) -> bool { self.x == o.x && self.y == o.y } }
impl<P: TEModelParameters> Eq for GroupAffine<P> {}
impl<P: TEModelParameters> Hash for GroupAffine<P> { fn hash<H: Hasher>(&self, h: &mut H) { self.x.hash(h); self.y.hash(h) } }
impl<P: TEModelParameters> fmt::Debug for GroupAffine<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "GroupAffine(x={:?}, y={:?})", self.x, self.y) } }
impl<P: TEModelParameters> fmt::Display for GroupAffine<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
impl<P: TEModelParameters> Default for GroupAffine<P> { fn default() -> Self { Self::zero() } }
impl<P: TEModelParameters> Clone for GroupProjective<P> { fn clone(&self) -> Self { *self } }
impl<P: TEModelParameters> Copy for GroupProjective<P> {}
impl<P: TEModelParameters> Hash for GroupProjective<P> { fn hash<H: Hasher>(&self, h: &mut H) { GroupAffine::from(*self).hash(h) } }
impl<P: TEModelParameters> fmt::Debug for GroupProjective<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", GroupAffine::from(*self)) } }
impl<P: TEModelParameters> fmt::Display for GroupProjective<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
impl<P: TEModelParameters> Default for GroupProjective<P> { fn default() -> Self { Self::zero() } }
impl<P: TEModelParameters> PartialEq for GroupProjective<P> { fn eq(&self, o: &Self) -> bool { self.x * o.z == o.x * self.z && self.y * o.z == o.y * self.z } }
impl<P: TEModelParameters> Eq for GroupProjective<P> {}
impl<P: TEModelParameters> GroupAffine<P> {
    pub fn new(x: P::BaseField, y: P::BaseField) -> Self { Self { x, y, _p: PhantomData } }
    pub fn scale_by_cofactor(&self) -> GroupProjective<P> { self.mul_bits(BitIteratorBE::new(P::COFACTOR)) }
    pub fn mul_bits(&self, bits: impl Iterator<Item = bool>) -> GroupProjective<P> { let mut r = GroupProjective::zero(); for b in bits { r.double_in_place(); if b { r.add_assign_mixed(self); } } r }
    pub fn get_point_from_x(x: P::BaseField, greatest: bool) -> Option<Self> {
        let x2 = x.square(); let one = P::BaseField::one();
        let num = P::mul_by_a(&x2) - one; let den = P::coeff_d() * x2 - one;
        den.inverse().map(|d| d * num).and_then(|y2| y2.sqrt()).map(|y| { let ny = -y; let y = if (y < ny) ^ greatest { y } else { ny }; Self::new(x, y) })
    }
    pub fn is_on_curve(&self) -> bool { let x2 = self.x.square(); let y2 = self.y.square(); y2 + P::mul_by_a(&x2) == P::BaseField::one() + P::coeff_d() * (x2 * y2) }
    pub fn is_in_correct_subgroup_assuming_on_curve(&self) -> bool { self.mul_bits(BitIteratorBE::new(<<P::ScalarField as PrimeField>::Params as ark_ff::FpParameters>::MODULUS)).is_zero() }
}
impl<P: TEModelParameters> Zero for GroupAffine<P> { fn zero() -> Self { Self::new(P::BaseField::zero(), P::BaseField::one()) } fn is_zero(&self) -> bool { self.x.is_zero() && self.y.is_one() } }
impl<P: TEModelParameters> Add<Self> for GroupAffine<P> { type Output = Self; fn add(self, o: Self) -> Self { let mut r = self.into_projective(); r.add_assign_mixed(&o); r.into() } }
impl<P: TEModelParameters> Neg for GroupAffine<P> { type Output = Self; fn neg(self) -> Self { Self::new(-self.x, self.y) } }
impl<P: TEModelParameters> AffineCurve for GroupAffine<P> {
    const COFACTOR: &'static [u64] = P::COFACTOR;
    type ScalarField = P::ScalarField;
    type BaseField = P::BaseField;
    type Projective = GroupProjective<P>;
    fn prime_subgroup_generator() -> Self { let (x, y) = P::generator(); Self::new(x, y) }
    fn from_random_bytes(bytes: &[u8]) -> Option<Self> { P::BaseField::from_random_bytes_with_flags::<EdwardsFlags>(bytes).and_then(|(x, f)| if x.is_zero() { Some(Self::zero()) } else { Self::get_point_from_x(x, f.is_positive()) }) }
    fn mul<S: Into<<Self::ScalarField as PrimeField>::BigInt>>(&self, s: S) -> GroupProjective<P> { self.mul_bits(BitIteratorBE::new(s.into())) }
    fn mul_by_cofactor_to_projective(&self) -> GroupProjective<P> { self.scale_by_cofactor() }
}
impl<P: TEModelParameters> GroupProjective<P> { pub fn new(x: P::BaseField, y: P::BaseField, t: P::BaseField, z: P::BaseField) -> Self { Self { x, y, t, z, _p: PhantomData } } }
impl<P: TEModelParameters> Zero for GroupProjective<P> { fn zero() -> Self { Self::new(P::BaseField::zero(), P::BaseField::one(), P::BaseField::zero(), P::BaseField::one()) } fn is_zero(&self) -> bool { self.x.is_zero() && self.y == self.z && !self.y.is_zero() && self.t.is_zero() } }
impl<P: TEModelParameters> From<GroupAffine<P>> for GroupProjective<P> { fn from(p: GroupAffine<P>) -> Self { Self::new(p.x, p.y, p.x * p.y, P::BaseField::one()) } }
impl<P: TEModelParameters> From<GroupProjective<P>> for GroupAffine<P> { fn from(p: GroupProjective<P>) -> Self { if p.is_zero() { Self::zero() } else if p.z.is_one() { Self::new(p.x, p.y) } else { let zi = p.z.inverse().unwrap(); Self::new(p.x * zi, p.y * zi) } } }
impl<P: TEModelParameters> ProjectiveCurve for GroupProjective<P> {
    const COFACTOR: &'static [u64] = P::COFACTOR;
    type ScalarField = P::ScalarField;
    type BaseField = P::BaseField;
    type Affine = GroupAffine<P>;
    fn prime_subgroup_generator() -> Self { GroupAffine::prime_subgroup_generator().into() }
    fn is_normalized(&self) -> bool { self.z.is_one() }
    fn batch_normalization(v: &mut [Self]) { for p in v.iter_mut() { let a: GroupAffine<P> = (*p).into(); *p = a.into(); } }
    fn double_in_place(&mut self) -> &mut Self {
        let a = self.x.square(); let b = self.y.square(); let c = self.z.square().double(); let d = P::mul_by_a(&a);
        let e = (self.x + self.y).square() - a - b; let g = d + b; let f = g - c; let h = d - b;
        self.x = e * f; self.y = g * h; self.t = e * h; self.z = f * g; self
    }
    fn add_assign_mixed(&mut self, o: &GroupAffine<P>) {
        let a = self.x * o.x; let b = self.y * o.y; let c = P::coeff_d() * self.t * o.x * o.y; let d = self.z;
        let e = (self.x + self.y) * (o.x + o.y) - a - b; let f = d - c; let g = d + c; let h = b - P::mul_by_a(&a);
        self.x = e * f; self.y = g * h; self.t = e * h; self.z = f * g;
    }
}
impl<P: TEModelParameters> Neg for GroupProjective<P> { type Output = Self; fn neg(self) -> Self { Self::new(-self.x, self.y, -self.t, self.z) } }
impl<'a, P: TEModelParameters> AddAssign<&'a Self> for GroupProjective<P> {
    fn add_assign(&mut self, o: &'a Self) {
        let a = self.x * o.x; let b = self.y * o.y; let c = P::coeff_d() * self.t * o.t; let d = self.z * o.z;
        let h = b - P::mul_by_a(&a); let e = (self.x + self.y) * (o.x + o.y) - a - b; let f = d - c; let g = d + c;
        self.x = e * f; self.y = g * h; self.t = e * h; self.z = f * g;
    }
}
impl<'a, P: TEModelParameters> SubAssign<&'a Self> for GroupProjective<P> { fn sub_assign(&mut self, o: &'a Self) { *self += &(-*o); } }
impl<P: TEModelParameters> AddAssign<Self> for GroupProjective<P> { fn add_assign(&mut self, o: Self) { *self += &o; } }
impl<P: TEModelParameters> SubAssign<Self> for GroupProjective<P> { fn sub_assign(&mut self, o: Self) { *self -= &o; } }
impl<P: TEModelParameters> Add<Self> for GroupProjective<P> { type Output = Self; fn add(mut self, o: Self) -> Self { self += &o; self } }
impl<P: TEModelParameters> Sub<Self> for GroupProjective<P> { type Output = Self; fn sub(mut self, o: Self) -> Self { self -= &o; self } }
impl<'a, P: TEModelParameters> Add<&'a Self> for GroupProjective<P> { type Output = Self; fn add(mut self, o: &'a Self) -> Self { self += o; self } }
impl<'a, P: TEModelParameters> Sub<&'a Self> for GroupProjective<P> { type Output = Self; fn sub(mut self, o: &'a Self) -> Self { self -= o; self } }
impl<P: TEModelParameters> MulAssign<P::ScalarField> for GroupProjective<P> { fn mul_assign(&mut self, s: P::ScalarField) { *self = ProjectiveCurve::mul(*self, s.into_repr()) } }
impl<P: TEModelParameters> std::iter::Sum<Self> for GroupProjective<P> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
impl<'a, P: TEModelParameters> std::iter::Sum<&'a Self> for GroupProjective<P> { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
impl<P: TEModelParameters> Distribution<GroupProjective<P>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> GroupProjective<P> {
        loop { let x = P::BaseField::rand(rng); let g: bool = rng.gen(); if let Some(p) = sampled::<P>(x, g) { return p; } }
    }
}
impl<P: TEModelParameters> UniformRand for GroupProjective<P> { fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self { rng.sample(Standard) } }
impl<P: TEModelParameters> crate::group::Group for GroupProjective<P> {
    type ScalarField = P::ScalarField;
    fn double(&self) -> Self { ProjectiveCurve::double(self) }
    fn double_in_place(&mut self) -> &mut Self { ProjectiveCurve::double_in_place(self) }
}
impl<P: TEModelParameters> ToBytes for GroupAffine<P> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { self.x.write(&mut w)?; self.y.write(&mut w) } }
impl<P: TEModelParameters> FromBytes for GroupAffine<P> { fn read<R: Read>(mut r: R) -> IoResult<Self> { Ok(Self::new(FromBytes::read(&mut r)?, FromBytes::read(&mut r)?)) } }
impl<P: TEModelParameters> ToBytes for GroupProjective<P> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { self.x.write(&mut w)?; self.y.write(&mut w)?; self.t.write(&mut w)?; self.z.write(&mut w) } }
impl<P: TEModelParameters> FromBytes for GroupProjective<P> { fn read<R: Read>(mut r: R) -> IoResult<Self> { Ok(Self::new(FromBytes::read(&mut r)?, FromBytes::read(&mut r)?, FromBytes::read(&mut r)?, FromBytes::read(&mut r)?)) } }
impl<P: TEModelParameters> CanonicalSerialize for GroupAffine<P> {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { if self.is_zero() { P::BaseField::zero().serialize_with_flags(w, EdwardsFlags::default()) } else { self.x.serialize_with_flags(w, EdwardsFlags::from_x_sign(self.y > -self.y)) } }
    fn serialized_size(&self) -> usize { P::BaseField::zero().serialized_size_with_flags::<EdwardsFlags>() }
}
impl<P: TEModelParameters> CanonicalDeserialize for GroupAffine<P> {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
        let (x, f): (P::BaseField, EdwardsFlags) = CanonicalDeserializeWithFlags::deserialize_with_flags(r)?;
        if x.is_zero() { return Ok(Self::zero()); }
        let p = Self::get_point_from_x(x, f.is_positive()).ok_or(SerializationError::InvalidData)?;
        if p.is_in_correct_subgroup_assuming_on_curve() { Ok(p) } else { Err(SerializationError::InvalidData) }
    }
}
impl<P: TEModelParameters> CanonicalSerialize for GroupProjective<P> { fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.into_affine().serialize(w) } fn serialized_size(&self) -> usize { self.into_affine().serialized_size() } }
impl<P: TEModelParameters> CanonicalDeserialize for GroupProjective<P> { fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> { Ok(GroupAffine::deserialize(r)?.into()) } }

#[cfg(not(feature = "memo"))]
fn sampled<P: TEModelParameters>(x: P::BaseField, g: bool) -> Option<GroupProjective<P>> { GroupAffine::get_point_from_x(x, g).map(|p| p.scale_by_cofactor()) }
/// The composite hasher re-samples the same generators in every circuit: remember them.
#[cfg(feature = "memo")]
fn sampled<P: TEModelParameters>(x: P::BaseField, g: bool) -> Option<GroupProjective<P>> {
    use std::{any::{Any, TypeId}, collections::HashMap, sync::Mutex};
    static M: Mutex<Option<HashMap<(TypeId, Vec<u8>, bool), Box<dyn Any + Send>>>> = Mutex::new(None);
    let mut k = vec![]; ark_ff::ToBytes::write(&x, &mut k).unwrap(); let k = (TypeId::of::<P>(), k, g);
    if let Some(v) = M.lock().unwrap().get_or_insert_with(HashMap::new).get(&k) { return *v.downcast_ref::<Option<GroupProjective<P>>>().unwrap(); }
    let v: Option<GroupProjective<P>> = GroupAffine::get_point_from_x(x, g).map(|p: GroupAffine<P>| p.scale_by_cofactor());
    let mut m = M.lock().unwrap(); let m = m.get_or_insert_with(HashMap::new);
    if m.len() < 4096 { m.insert(k, Box::new(v)); }
    v
}
