use crate::{enforce, fields::FieldVar, groups::{CurveVar, GroupOpsBounds}, prelude::*};
use ark_ec::{twisted_edwards_extended::{GroupAffine, GroupProjective}, AffineCurve, ModelParameters, ProjectiveCurve, TEModelParameters};
use ark_ff::{BitIteratorBE, Field, PrimeField, Zero};
use ark_relations::r1cs::{ConstraintSystemRef, Namespace, SynthesisError};
use std::borrow::Borrow;
use std::marker::PhantomData;
use std::ops::*;
type Bf<P> = <P as ModelParameters>::BaseField;
type Cf<P> = <Bf<P> as Field>::BasePrimeField;
pub struct AffineVar<P: TEModelParameters, F: FieldVar<Bf<P>, Cf<P>>> { pub x: F, pub y: F, _p: PhantomData<fn() -> P> }
impl<P: TEModelParameters, F: FieldVar<Bf<P>, Cf<P>>> Clone for AffineVar<P, F> { fn clone(&self) -> Self { Self::new(self.x.clone(), self.y.clone()) } }
impl<P: TEModelParameters, F: FieldVar<Bf<P>, Cf<P>>> std::fmt::Debug for AffineVar<P, F> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "AffineVar") } }
impl<P: TEModelParameters, F: FieldVar<Bf<P>, Cf<P>>> AffineVar<P, F> {
    pub fn new(x: F, y: F) -> Self { Self { x, y, _p: PhantomData } }
    pub(crate) fn from_const(c: GroupProjective<P>) -> Self { let a = c.into_affine(); Self::new(F::constant(a.x), F::constant(a.y)) }
    pub fn ids(&self) -> Vec<u64> { let mut v = self.x.ids(); v.extend(self.y.ids()); v }
    /// A point computed by an ideal operation.
    pub fn ideal(cs: &ConstraintSystemRef<Cf<P>>, op: &str, ids: &[u64], v: Option<GroupProjective<P>>) -> Self { let v = v.map(|v| v.into_affine()); Self::new(F::ideal(cs, op, ids, v.map(|v| v.x)), F::ideal(cs, op, ids, v.map(|v| v.y))) }
    pub(crate) fn ideal2(&self, o: &Self, neg: bool) -> Self {
        let mut ids = self.ids(); ids.extend(o.ids());
        Self::ideal(&self.cs().or(o.cs()), if neg { "te sub" } else { "te add" }, &ids, match (self.value(), o.value()) { (Ok(a), Ok(b)) => Some(if neg { a - b } else { a + b }), _ => None })
    }
}
impl<P: TEModelParameters, F: FieldVar<Bf<P>, Cf<P>>> R1CSVar<Cf<P>> for AffineVar<P, F> {
    type Value = GroupProjective<P>;
    fn cs(&self) -> ConstraintSystemRef<Cf<P>> { self.x.cs().or(self.y.cs()) }
    fn value(&self) -> Result<Self::Value, SynthesisError> { Ok(GroupAffine::new(self.x.value()?, self.y.value()?).into_projective()) }
}
crate::ideal_group_ops!([P: TEModelParameters, F: FieldVar<Bf<P>, Cf<P>>] AffineVar<P, F>, GroupProjective<P>);
impl<P: TEModelParameters, F: FieldVar<Bf<P>, Cf<P>>> CurveVar<GroupProjective<P>, Cf<P>> for AffineVar<P, F> {
    fn constant(c: GroupProjective<P>) -> Self { Self::from_const(c) }
    fn zero() -> Self { Self::from_const(GroupProjective::zero()) }
    fn new_variable_omit_prime_order_check(cs: impl Into<Namespace<Cf<P>>>, f: impl FnOnce() -> Result<GroupProjective<P>, SynthesisError>, mode: AllocationMode) -> Result<Self, SynthesisError> {
        let cs = cs.into().cs(); let v = f().map(|v| v.into_affine());
        let (x, y) = match &v { Ok(v) => (Ok(v.x), Ok(v.y)), Err(_) => (Err(SynthesisError::AssignmentMissing), Err(SynthesisError::AssignmentMissing)) };
        let r = Self::new(F::new_variable(cs.clone(), || x, mode)?, F::new_variable(cs.clone(), || y, mode)?);
        if mode != AllocationMode::Constant { let ok = r.value().ok().map(|v| v.into_affine().is_on_curve()); enforce(&cs, "on te curve", &r.ids(), ok)?; }
        Ok(r)
    }
    fn enforce_prime_order(&self) -> Result<(), SynthesisError> {
        let ok = self.value().ok().map(|v| { let mut r = GroupProjective::<P>::zero(); for b in BitIteratorBE::new(<<P::ScalarField as PrimeField>::Params as ark_ff::FpParameters>::MODULUS) { r.double_in_place(); if b { r += &v; } } r.is_zero() });
        enforce(&self.cs(), "prime order", &self.ids(), ok)
    }
    fn double_in_place(&mut self) -> Result<(), SynthesisError> { *self = Self::ideal(&self.cs(), "te double", &self.ids(), self.value().ok().map(|v| v.double())); Ok(()) }
    fn negate(&self) -> Result<Self, SynthesisError> { Ok(Self::new(self.x.negate()?, self.y.clone())) }
}
impl<P: TEModelParameters, F: FieldVar<Bf<P>, Cf<P>>> EqGadget<Cf<P>> for AffineVar<P, F> { fn is_eq(&self, o: &Self) -> Result<Boolean<Cf<P>>, SynthesisError> { self.x.is_eq(&o.x)?.and(&self.y.is_eq(&o.y)?) } }
impl<P: TEModelParameters, F: FieldVar<Bf<P>, Cf<P>>> CondSelectGadget<Cf<P>> for AffineVar<P, F> { fn conditionally_select(c: &Boolean<Cf<P>>, t: &Self, f: &Self) -> Result<Self, SynthesisError> { Ok(Self::new(c.select(&t.x, &f.x)?, c.select(&t.y, &f.y)?)) } }
impl<P: TEModelParameters, F: FieldVar<Bf<P>, Cf<P>>> AllocVar<GroupProjective<P>, Cf<P>> for AffineVar<P, F> {
    fn new_variable<T: Borrow<GroupProjective<P>>>(cs: impl Into<Namespace<Cf<P>>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Result<Self, SynthesisError> {
        let r = Self::new_variable_omit_prime_order_check(cs, || f().map(|v| *v.borrow()), mode)?;
        if mode != AllocationMode::Constant { r.enforce_prime_order()?; }
        Ok(r)
    }
}
impl<P: TEModelParameters, F: FieldVar<Bf<P>, Cf<P>>> AllocVar<GroupAffine<P>, Cf<P>> for AffineVar<P, F> {
    fn new_variable<T: Borrow<GroupAffine<P>>>(cs: impl Into<Namespace<Cf<P>>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Result<Self, SynthesisError> { <Self as AllocVar<GroupProjective<P>, Cf<P>>>::new_variable(cs, || f().map(|v| v.borrow().into_projective()), mode) }
}
impl<P: TEModelParameters, F: FieldVar<Bf<P>, Cf<P>>> ToBitsGadget<Cf<P>> for AffineVar<P, F> { fn to_bits_le(&self) -> Result<Vec<Boolean<Cf<P>>>, SynthesisError> { let mut b = self.x.to_bits_le()?; b.extend(self.y.to_bits_le()?); Ok(b) } }
impl<P: TEModelParameters, F: FieldVar<Bf<P>, Cf<P>>> ToBytesGadget<Cf<P>> for AffineVar<P, F> { fn to_bytes(&self) -> Result<Vec<UInt8<Cf<P>>>, SynthesisError> { let mut b = self.x.to_bytes()?; b.extend(self.y.to_bytes()?); Ok(b) } }
