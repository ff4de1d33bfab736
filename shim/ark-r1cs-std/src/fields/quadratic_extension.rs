use super::{FieldOpsBounds, FieldVar};
use crate::prelude::*;
use ark_ff::{QuadExtField, QuadExtParameters};
use ark_relations::r1cs::{ConstraintSystemRef, Namespace, SynthesisError};
use std::borrow::Borrow;
use std::marker::PhantomData;
use std::ops::*;
type Cf<P> = <P as QuadExtParameters>::BasePrimeField;
pub struct QuadExtVar<BF: FieldVar<P::BaseField, Cf<P>>, P: QuadExtParameters> { pub c0: BF, pub c1: BF, _p: PhantomData<P> }
impl<BF: FieldVar<P::BaseField, Cf<P>>, P: QuadExtParameters> Clone for QuadExtVar<BF, P> { fn clone(&self) -> Self { Self::new(self.c0.clone(), self.c1.clone()) } }
impl<BF: FieldVar<P::BaseField, Cf<P>>, P: QuadExtParameters> std::fmt::Debug for QuadExtVar<BF, P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "QuadExtVar") } }
impl<BF: FieldVar<P::BaseField, Cf<P>>, P: QuadExtParameters> QuadExtVar<BF, P> { pub fn new(c0: BF, c1: BF) -> Self { Self { c0, c1, _p: PhantomData } } }
impl<BF: FieldVar<P::BaseField, Cf<P>>, P: QuadExtParameters> R1CSVar<Cf<P>> for QuadExtVar<BF, P> {
    type Value = QuadExtField<P>;
    fn cs(&self) -> ConstraintSystemRef<Cf<P>> { self.c0.cs().or(self.c1.cs()) }
    fn value(&self) -> Result<Self::Value, SynthesisError> { Ok(QuadExtField::new(self.c0.value()?, self.c1.value()?)) }
}
impl<BF: FieldVar<P::BaseField, Cf<P>>, P: QuadExtParameters> FieldVar<QuadExtField<P>, Cf<P>> for QuadExtVar<BF, P> {
    fn ideal(cs: &ConstraintSystemRef<Cf<P>>, op: &str, ids: &[u64], v: Option<QuadExtField<P>>) -> Self { Self::new(BF::ideal(cs, op, ids, v.map(|v| v.c0)), BF::ideal(cs, op, ids, v.map(|v| v.c1))) }
    fn ids(&self) -> Vec<u64> { let mut v = self.c0.ids(); v.extend(self.c1.ids()); v }
    fn constant(v: QuadExtField<P>) -> Self { Self::new(BF::constant(v.c0), BF::constant(v.c1)) }
}
crate::ideal_field_ops!([BF: FieldVar<P::BaseField, Cf<P>>, P: QuadExtParameters] QuadExtVar<BF, P>, QuadExtField<P>, Cf<P>);
impl<BF: FieldVar<P::BaseField, Cf<P>>, P: QuadExtParameters> AllocVar<QuadExtField<P>, Cf<P>> for QuadExtVar<BF, P> {
    fn new_variable<T: Borrow<QuadExtField<P>>>(cs: impl Into<Namespace<Cf<P>>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Result<Self, SynthesisError> {
        let cs = cs.into().cs();
        let (a, b) = match f() { Ok(v) => (Ok(v.borrow().c0), Ok(v.borrow().c1)), Err(_) => (Err(SynthesisError::AssignmentMissing), Err(SynthesisError::AssignmentMissing)) };
        Ok(Self::new(BF::new_variable(cs.clone(), || a, mode)?, BF::new_variable(cs, || b, mode)?))
    }
}
impl<BF: FieldVar<P::BaseField, Cf<P>>, P: QuadExtParameters> ToBitsGadget<Cf<P>> for QuadExtVar<BF, P> { fn to_bits_le(&self) -> Result<Vec<Boolean<Cf<P>>>, SynthesisError> { let mut v = self.c0.to_bits_le()?; v.extend(self.c1.to_bits_le()?); Ok(v) } }
impl<BF: FieldVar<P::BaseField, Cf<P>>, P: QuadExtParameters> ToBytesGadget<Cf<P>> for QuadExtVar<BF, P> { fn to_bytes(&self) -> Result<Vec<UInt8<Cf<P>>>, SynthesisError> { let mut v = self.c0.to_bytes()?; v.extend(self.c1.to_bytes()?); Ok(v) } }
