//! A field variable without accessible coefficients (pairing target groups).
use super::{val_id, FieldOpsBounds, FieldVar};
use crate::{prelude::*, Assignment};
use ark_ff::Field;
use ark_relations::r1cs::{ConstraintSystemRef, Namespace, SynthesisError, Variable};
use std::borrow::Borrow;
use std::ops::*;
#[derive(Clone, Debug)]
pub struct OpaqueVar<F: Field, C: Field> { cs: ConstraintSystemRef<C>, value: Option<F>, var: Variable }
impl<F: Field, C: Field> R1CSVar<C> for OpaqueVar<F, C> { type Value = F; fn cs(&self) -> ConstraintSystemRef<C> { self.cs.clone() } fn value(&self) -> Result<F, SynthesisError> { self.value.get() } }
impl<F: Field, C: Field> FieldVar<F, C> for OpaqueVar<F, C> {
    fn ideal(cs: &ConstraintSystemRef<C>, op: &str, ids: &[u64], value: Option<F>) -> Self {
        if cs.is_none() { return Self::constant(value.expect("constant")); }
        cs.tag(op, ids);
        let var = cs.new_witness_variable(|| Ok(C::zero())).expect("value");
        Self { cs: cs.clone(), value, var }
    }
    fn ids(&self) -> Vec<u64> { if self.cs.is_none() { vec![self.value.as_ref().map_or(0, val_id)] } else { vec![self.var.code()] } }
    fn constant(v: F) -> Self { Self { cs: ConstraintSystemRef::None, value: Some(v), var: Variable::Zero } }
}
crate::ideal_field_ops!([F: Field, C: Field] OpaqueVar<F, C>, F, C);
impl<F: Field, C: Field> AllocVar<F, C> for OpaqueVar<F, C> {
    fn new_variable<T: Borrow<F>>(cs: impl Into<Namespace<C>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Result<Self, SynthesisError> {
        let cs = cs.into().cs(); let v = f().ok().map(|v| *v.borrow());
        if mode == AllocationMode::Constant { return Ok(Self::constant(v.get()?)); }
        Ok(Self::ideal(&cs, "opaque", &[mode as u64], v))
    }
}
impl<F: Field, C: Field> ToBitsGadget<C> for OpaqueVar<F, C> { fn to_bits_le(&self) -> Result<Vec<Boolean<C>>, SynthesisError> { unimplemented!() } }
impl<F: Field, C: Field> ToBytesGadget<C> for OpaqueVar<F, C> { fn to_bytes(&self) -> Result<Vec<UInt8<C>>, SynthesisError> { unimplemented!() } }
