use crate::{prelude::*, Assignment};
use ark_ff::Field;
use ark_relations::{r1cs::{ConstraintSystemRef, Namespace, SynthesisError}, sim};
use std::borrow::Borrow;
#[derive(Clone, Debug)]
pub struct UInt8<F: Field> { pub(crate) bits: Vec<Boolean<F>>, pub(crate) value: Option<u8> }
impl<F: Field> R1CSVar<F> for UInt8<F> {
    type Value = u8;
    fn cs(&self) -> ConstraintSystemRef<F> { self.bits.cs() }
    fn value(&self) -> Result<u8, SynthesisError> { let mut r = 0; for (i, b) in self.bits.iter().enumerate() { r |= (b.value()? as u8) << i; } Ok(r) }
}
impl<F: Field> UInt8<F> {
    pub fn constant(v: u8) -> Self { UInt8 { bits: (0..8).map(|i| Boolean::constant((v >> i) & 1 == 1)).collect(), value: Some(v) } }
    pub fn constant_vec(values: &[u8]) -> Vec<Self> { values.iter().map(|v| Self::constant(*v)).collect() }
    pub fn new_witness_vec(cs: impl Into<Namespace<F>>, values: &[impl Into<Option<u8>> + Copy]) -> Result<Vec<Self>, SynthesisError> {
        let cs = cs.into().cs(); values.iter().map(|v| { let v: Option<u8> = (*v).into(); Self::new_witness(cs.clone(), || v.get()) }).collect()
    }
    pub fn from_bits_le(bits: &[Boolean<F>]) -> Self {
        assert_eq!(bits.len(), 8);
        let mut r = UInt8 { bits: bits.to_vec(), value: None }; r.value = r.value().ok(); r
    }
    pub fn xor(&self, o: &Self) -> Result<Self, SynthesisError> { let b: Vec<_> = self.bits.iter().zip(&o.bits).map(|(a, b)| a.xor(b)).collect::<Result<_, _>>()?; Ok(Self::from_bits_le(&b)) }
}
impl<F: Field> AllocVar<u8, F> for UInt8<F> {
    fn new_variable<T: Borrow<u8>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Result<Self, SynthesisError> {
        let cs = cs.into().cs();
        let mut value = f().ok().map(|v| *v.borrow());
        if mode == AllocationMode::Constant { return Ok(Self::constant(value.get()?)); }
        if mode == AllocationMode::Witness && !cs.is_in_setup_mode() { if let Some(v) = value { if let Some(o) = sim::witness(sim::Kind::Byte, || vec![v as u64]) { let a = o.arg.get(0).copied().unwrap_or(1) as u8; value = Some(match o.how { 1 => a, 2 => v.wrapping_add(a.max(1)), _ => v ^ a.max(1) }); } } }
        let bits = (0..8).map(|i| { let b = value.map(|v| (v >> i) & 1 == 1); let g = || b.map(F::from).get(); let variable = if mode == AllocationMode::Input { cs.new_input_variable(g)? } else { cs.new_witness_variable(g)? }; cs.tag("bool", &[variable.code()]); Ok(Boolean::Is(crate::boolean::AllocatedBit { variable, cs: cs.clone(), value: b })) }).collect::<Result<Vec<_>, SynthesisError>>()?;
        Ok(UInt8 { bits, value })
    }
}
impl<F: Field> EqGadget<F> for UInt8<F> {
    fn is_eq(&self, o: &Self) -> Result<Boolean<F>, SynthesisError> { self.bits.as_slice().is_eq(&o.bits) }
    fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Result<(), SynthesisError> { self.bits.conditional_enforce_equal(&o.bits, c) }
}
impl<F: Field> CondSelectGadget<F> for UInt8<F> { fn conditionally_select(c: &Boolean<F>, t: &Self, f: &Self) -> Result<Self, SynthesisError> { let b = t.bits.iter().zip(&f.bits).map(|(t, f)| Boolean::conditionally_select(c, t, f)).collect::<Result<Vec<_>, _>>()?; Ok(Self::from_bits_le(&b)) } }
