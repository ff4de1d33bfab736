use crate::{AffineCurve, ModelParameters, ProjectiveCurve, SWModelParameters};
use ark_ff::{BitIteratorBE, Field, FromBytes, One, PrimeField, SquareRootField, ToBytes, UniformRand, Zero};
use ark_serialize::*;
use rand::{distributions::{Distribution, Standard}, Rng};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::io::Result as IoResult;
use std::marker::PhantomData;
use std::ops::*;

pub struct GroupAffine<P: SWModelParameters> { pub x: P::BaseField, pub y: P::BaseField, pub infinity: bool, _p: PhantomData<P> }
pub struct GroupProjective<P: SWModelParameters> { pub x: P::BaseField, pub y: P::BaseField, pub z: P::BaseField, _p: PhantomData<P> }

impl<P: SWModelParameters> Clone for GroupAffine<P> { fn clone(&self) -> Self { *self } }
impl<P: SWModelParameters> Copy for GroupAffine<P> {}
impl<P: SWModelParameters> PartialEq for GroupAffine<P> { fn eq(&self, o: &Self) -> bool { self.x == o.x && self.y == o.y && self.infinity == o.infinity } }
impl<P: SWModelParameters> Eq for GroupAffine<P> {}
impl<P: SWModelParameters> Hash for GroupAffine<P> { fn hash<H: Hasher>(&self, h: &mut H) { self.x.hash(h); self.y.hash(h); self.infinity.hash(h) } }
impl<P: SWModelParameters> fmt::Debug for GroupAffine<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "GroupAffine(x={:?}, y={:?}, inf={})", self.x, self.y, self.infinity) } }
impl<P: SWModelParameters> fmt::Display for GroupAffine<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
impl<P: SWModelParameters> Default for GroupAffine<P> { fn default() -> Self { Self::zero() } }
impl<P: SWModelParameters> Clone for GroupProjective<P> { fn clone(&self) -> Self { *self } }
impl<P: SWModelParameters> Copy for GroupProjective<P> {}
impl<P: SWModelParameters> Hash for GroupProjective<P> { fn hash<H: Hasher>(&self, h: &mut H) { self.x.hash(h); self.y.hash(h); self.z.hash(h) } }
impl<P: SWModelParameters> fmt::Debug for GroupProjective<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", GroupAffine::from(*self)) } }
impl<P: SWModelParameters> fmt::Display for GroupProjective<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
impl<P: SWModelParameters> Default for GroupProjective<P> { fn default() -> Self { Self::zero() } }
impl<P: SWModelParameters> Eq for GroupProjective<P> {}
impl<P: SWModelParameters> PartialEq for GroupProjective<P> {
    fn eq(&self, o: &Self) -> bool {
        if self.is_zero() { return o.is_zero(); }
        if o.is_zero() { return false; }
        let (z1, z2) = (self.z.square(), o.z.square());
        self.x * z2 == o.x * z1 && self.y * (z2 * o.z) == o.y * (z1 * self.z)
    }
}
impl<P: SWModelParameters> PartialEq<GroupProjective<P>> for GroupAffine<P> { fn eq(&self, o: &GroupProjective<P>) -> bool { self.into_projective() == *o } }
impl<P: SWModelParameters> PartialEq<GroupAffine<P>> for GroupProjective<P> { fn eq(&self, o: &GroupAffine<P>) -> bool { *self == o.into_projective() } }

impl<P: SWModelParameters> GroupAffine<P> {
    pub fn new(x: P::BaseField, y: P::BaseField, infinity: bool) -> Self { Self { x, y, infinity, _p: PhantomData } }
    pub fn scale_by_cofactor(&self) -> GroupProjective<P> { self.mul_bits(BitIteratorBE::new(P::COFACTOR)) }
    pub fn mul_bits(&self, bits: impl Iterator<Item = bool>) -> GroupProjective<P> {
        let mut res = GroupProjective::zero();
        for b in bits { res.double_in_place(); if b { res.add_assign_mixed(self); } }
        res
    }
    pub fn get_point_from_x(x: P::BaseField, greatest: bool) -> Option<Self> {
        let x3b = P::add_b(&((x.square() * x) + P::mul_by_a(&x)));
        x3b.sqrt().map(|y| { let ny = -y; let y = if (y < ny) ^ greatest { y } else { ny }; Self::new(x, y, false) })
    }
    pub fn is_on_curve(&self) -> bool { self.is_zero() || self.y.square() == P::add_b(&((self.x.square() * self.x) + P::mul_by_a(&self.x))) }
    pub fn is_in_correct_subgroup_assuming_on_curve(&self) -> bool { self.mul_bits(BitIteratorBE::new(<<P::ScalarField as PrimeField>::Params as ark_ff::FpParameters>::MODULUS)).is_zero() }
}
impl<P: SWModelParameters> Zero for GroupAffine<P> { fn zero() -> Self { Self::new(P::BaseField::zero(), P::BaseField::one(), true) } fn is_zero(&self) -> bool { self.infinity } }
impl<P: SWModelParameters> Add<Self> for GroupAffine<P> { type Output = Self; fn add(self, o: Self) -> Self { let mut c = self.into_projective(); c.add_assign_mixed(&o); c.into() } }
impl<'a, P: SWModelParameters> AddAssign<&'a Self> for GroupAffine<P> { fn add_assign(&mut self, o: &'a Self) { *self = *self + *o; } }
impl<P: SWModelParameters> Neg for GroupAffine<P> { type Output = Self; fn neg(self) -> Self { if self.is_zero() { self } else { Self::new(self.x, -self.y, false) } } }
impl<P: SWModelParameters> Neg for GroupProjective<P> { type Output = Self; fn neg(self) -> Self { if self.is_zero() { self } else { Self::new(self.x, -self.y, self.z) } } }
impl<P: SWModelParameters> AffineCurve for GroupAffine<P> {
    const COFACTOR: &'static [u64] = P::COFACTOR;
    type ScalarField = P::ScalarField;
    type BaseField = P::BaseField;
    type Projective = GroupProjective<P>;
    fn prime_subgroup_generator() -> Self { let (x, y) = P::generator(); Self::new(x, y, false) }
    fn from_random_bytes(bytes: &[u8]) -> Option<Self> {
        P::BaseField::from_random_bytes_with_flags::<SWFlags>(bytes).and_then(|(x, f)| if x.is_zero() && f.is_infinity() { Some(Self::zero()) } else if let Some(p) = f.is_positive() { Self::get_point_from_x(x, p) } else { None })
    }
    fn mul<S: Into<<Self::ScalarField as PrimeField>::BigInt>>(&self, s: S) -> GroupProjective<P> { self.mul_bits(BitIteratorBE::new(s.into())) }
    fn mul_by_cofactor_to_projective(&self) -> GroupProjective<P> { self.scale_by_cofactor() }
}
impl<P: SWModelParameters> GroupProjective<P> { pub fn new(x: P::BaseField, y: P::BaseField, z: P::BaseField) -> Self { Self { x, y, z, _p: PhantomData } } }
impl<P: SWModelParameters> Zero for GroupProjective<P> { fn zero() -> Self { Self::new(P::BaseField::one(), P::BaseField::one(), P::BaseField::zero()) } fn is_zero(&self) -> bool { self.z.is_zero() } }
impl<P: SWModelParameters> From<GroupAffine<P>> for GroupProjective<P> { fn from(p: GroupAffine<P>) -> Self { if p.is_zero() { Self::zero() } else { Self::new(p.x, p.y, P::BaseField::one()) } } }
impl<P: SWModelParameters> From<GroupProjective<P>> for GroupAffine<P> {
    fn from(p: GroupProjective<P>) -> Self {
        if p.is_zero() { Self::zero() } else if p.z.is_one() { Self::new(p.x, p.y, false) } else {
            let zi = p.z.inverse().unwrap(); let zi2 = zi.square();
            Self::new(p.x * zi2, p.y * (zi2 * zi), false)
        }
    }
}
impl<P: SWModelParameters> ProjectiveCurve for GroupProjective<P> {
    const COFACTOR: &'static [u64] = P::COFACTOR;
    type ScalarField = P::ScalarField;
    type BaseField = P::BaseField;
    type Affine = GroupAffine<P>;
    fn prime_subgroup_generator() -> Self { GroupAffine::prime_subgroup_generator().into() }
    fn is_normalized(&self) -> bool { self.is_zero() || self.z.is_one() }
    fn batch_normalization(v: &mut [Self]) {
        simhook::point(simhook::S_NORMALIZE);
        let mut zs: Vec<P::BaseField> = v.iter().map(|g| g.z).collect();
        ark_ff::batch_inversion(&mut zs);
        for (g, zi) in v.iter_mut().zip(zs) { if !g.is_zero() && !g.z.is_one() { let z2 = zi.square(); g.x *= z2; g.y *= z2 * zi; g.z = P::BaseField::one(); } }
    }
    fn double_in_place(&mut self) -> &mut Self {
        if self.is_zero() { return self; }
        if P::coeff_a().is_zero() {
            let a = self.x.square(); let b = self.y.square(); let c = b.square();
            let d = ((self.x + b).square() - a - c).double();
            let e = a + a.double(); let f = e.square();
            self.z *= self.y; self.z.double_in_place();
            self.x = f - d - d;
            self.y = (d - self.x) * e - c.double().double().double();
        } else {
            let xx = self.x.square(); let yy = self.y.square(); let yyyy = yy.square(); let zz = self.z.square();
            let s = ((self.x + yy).square() - xx - yyyy).double();
            let m = xx + xx.double() + P::mul_by_a(&zz.square());
            let t = m.square() - s.double();
            self.z = (self.z + self.y).square() - yy - zz;
            self.x = t;
            self.y = m * (s - t) - yyyy.double().double().double();
        }
        self
    }
    fn add_assign_mixed(&mut self, o: &GroupAffine<P>) {
        if o.is_zero() { return; }
        if self.is_zero() { *self = (*o).into(); return; }
        let z1z1 = self.z.square(); let u2 = o.x * z1z1; let s2 = (self.z * o.y) * z1z1;
        if self.x == u2 && self.y == s2 { self.double_in_place(); return; }
        let h = u2 - self.x; let hh = h.square(); let i = hh.double().double();
        let mut j = h * i; let r = (s2 - self.y).double(); let v = self.x * i;
        self.x = r.square() - j - v.double();
        j *= self.y; j.double_in_place();
        self.y = (v - self.x) * r - j;
        self.z = (self.z + h).square() - z1z1 - hh;
    }
}
impl<'a, P: SWModelParameters> AddAssign<&'a Self> for GroupProjective<P> {
    fn add_assign(&mut self, o: &'a Self) {
        simhook::point(simhook::S_GROUP_ADD);
        if self.is_zero() { *self = *o; return; }
        if o.is_zero() { return; }
        let z1z1 = self.z.square(); let z2z2 = o.z.square();
        let u1 = self.x * z2z2; let u2 = o.x * z1z1;
        let s1 = self.y * o.z * z2z2; let s2 = o.y * self.z * z1z1;
        if u1 == u2 && s1 == s2 { self.double_in_place(); return; }
        let h = u2 - u1; let i = h.double().square(); let j = h * i; let r = (s2 - s1).double(); let v = u1 * i;
        self.x = r.square() - j - v.double();
        self.y = r * (v - self.x) - (s1 * j).double();
        self.z = ((self.z + o.z).square() - z1z1 - z2z2) * h;
    }
}
impl<'a, P: SWModelParameters> SubAssign<&'a Self> for GroupProjective<P> { fn sub_assign(&mut self, o: &'a Self) { *self += &(-*o); } }
impl<P: SWModelParameters> AddAssign<Self> for GroupProjective<P> { fn add_assign(&mut self, o: Self) { *self += &o; } }
impl<P: SWModelParameters> SubAssign<Self> for GroupProjective<P> { fn sub_assign(&mut self, o: Self) { *self -= &o; } }
impl<P: SWModelParameters> Add<Self> for GroupProjective<P> { type Output = Self; fn add(mut self, o: Self) -> Self { self += &o; self } }
impl<P: SWModelParameters> Sub<Self> for GroupProjective<P> { type Output = Self; fn sub(mut self, o: Self) -> Self { self -= &o; self } }
impl<'a, P: SWModelParameters> Add<&'a Self> for GroupProjective<P> { type Output = Self; fn add(mut self, o: &'a Self) -> Self { self += o; self } }
impl<'a, P: SWModelParameters> Sub<&'a Self> for GroupProjective<P> { type Output = Self; fn sub(mut self, o: &'a Self) -> Self { self -= o; self } }
impl<P: SWModelParameters> MulAssign<P::ScalarField> for GroupProjective<P> { fn mul_assign(&mut self, s: P::ScalarField) { *self = ProjectiveCurve::mul(*self, s.into_repr()) } }
impl<P: SWModelParameters> std::iter::Sum<Self> for GroupProjective<P> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
impl<'a, P: SWModelParameters> std::iter::Sum<&'a Self> for GroupProjective<P> { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
impl<P: SWModelParameters> std::iter::Sum<Self> for GroupAffine<P> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.map(|x| x.into_projective()).sum::<GroupProjective<P>>().into() } }
impl<P: SWModelParameters> Distribution<GroupProjective<P>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> GroupProjective<P> {
        loop { let x = P::BaseField::rand(rng); let g = rng.gen(); if let Some(p) = GroupAffine::get_point_from_x(x, g) { return p.scale_by_cofactor(); } }
    }
}
impl<P: SWModelParameters> UniformRand for GroupProjective<P> { fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self { rng.sample(Standard) } }
impl<P: SWModelParameters> crate::group::Group for GroupProjective<P> {
    type ScalarField = P::ScalarField;
    fn double(&self) -> Self { ProjectiveCurve::double(self) }
    fn double_in_place(&mut self) -> &mut Self { ProjectiveCurve::double_in_place(self) }
}
impl<P: SWModelParameters> ToBytes for GroupAffine<P> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { self.x.write(&mut w)?; self.y.write(&mut w)?; self.infinity.write(&mut w) } }
impl<P: SWModelParameters> FromBytes for GroupAffine<P> { fn read<R: Read>(mut r: R) -> IoResult<Self> { Ok(Self::new(FromBytes::read(&mut r)?, FromBytes::read(&mut r)?, FromBytes::read(&mut r)?)) } }
impl<P: SWModelParameters> ToBytes for GroupProjective<P> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { self.x.write(&mut w)?; self.y.write(&mut w)?; self.z.write(&mut w) } }
impl<P: SWModelParameters> FromBytes for GroupProjective<P> { fn read<R: Read>(mut r: R) -> IoResult<Self> { Ok(Self::new(FromBytes::read(&mut r)?, FromBytes::read(&mut r)?, FromBytes::read(&mut r)?)) } }
impl<P: SWModelParameters> CanonicalSerialize for GroupAffine<P> {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
        if self.is_zero() { P::BaseField::zero().serialize_with_flags(w, SWFlags::infinity()) } else { self.x.serialize_with_flags(w, SWFlags::from_y_sign(self.y > -self.y)) }
    }
    fn serialized_size(&self) -> usize { P::BaseField::zero().serialized_size_with_flags::<SWFlags>() }
    fn serialize_uncompressed<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
        let f = if self.is_zero() { SWFlags::infinity() } else { SWFlags::default() };
        self.x.serialize(&mut w)?; self.y.serialize_with_flags(&mut w, f)
    }
    fn uncompressed_size(&self) -> usize { P::BaseField::zero().serialized_size() + P::BaseField::zero().serialized_size_with_flags::<SWFlags>() }
}
impl<P: SWModelParameters> CanonicalDeserialize for GroupAffine<P> {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
        simhook::point(simhook::S_DESER);
        let (x, f): (P::BaseField, SWFlags) = CanonicalDeserializeWithFlags::deserialize_with_flags(r)?;
        if f.is_infinity() { return Ok(Self::zero()); }
        let p = Self::get_point_from_x(x, f.is_positive().unwrap()).ok_or(SerializationError::InvalidData)?;
        if !p.is_in_correct_subgroup_assuming_on_curve() { return Err(SerializationError::InvalidData); }
        Ok(p)
    }
    fn deserialize_uncompressed<R: Read>(r: R) -> Result<Self, SerializationError> {
        let p = Self::deserialize_unchecked(r)?;
        if !p.is_on_curve() || !p.is_in_correct_subgroup_assuming_on_curve() { return Err(SerializationError::InvalidData); }
        Ok(p)
    }
    fn deserialize_unchecked<R: Read>(mut r: R) -> Result<Self, SerializationError> {
        simhook::point(simhook::S_DESER);
        let x: P::BaseField = CanonicalDeserialize::deserialize(&mut r)?;
        let (y, f): (P::BaseField, SWFlags) = CanonicalDeserializeWithFlags::deserialize_with_flags(&mut r)?;
        Ok(Self::new(x, y, f.is_infinity()))
    }
}
impl<P: SWModelParameters> CanonicalSerialize for GroupProjective<P> {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.into_affine().serialize(w) }
    fn serialized_size(&self) -> usize { self.into_affine().serialized_size() }
    fn serialize_uncompressed<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.into_affine().serialize_uncompressed(w) }
    fn uncompressed_size(&self) -> usize { self.into_affine().uncompressed_size() }
}
impl<P: SWModelParameters> CanonicalDeserialize for GroupProjective<P> {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> { Ok(GroupAffine::deserialize(r)?.into()) }
    fn deserialize_uncompressed<R: Read>(r: R) -> Result<Self, SerializationError> { Ok(GroupAffine::deserialize_uncompressed(r)?.into()) }
    fn deserialize_unchecked<R: Read>(r: R) -> Result<Self, SerializationError> { Ok(GroupAffine::deserialize_unchecked(r)?.into()) }
}
#[allow(unused)] fn _t<P: ModelParameters>() {}
