use crate::prelude::*;
use ark_ff::Field;
use ark_relations::r1cs::{ConstraintSystemRef, SynthesisError};
#[derive(Clone, Debug)]
pub struct UInt32<F: Field> { bits: Vec<Boolean<F>> }
impl<F: Field> R1CSVar<F> for UInt32<F> {
    type Value = u32;
    fn cs(&self) -> ConstraintSystemRef<F> { self.bits.cs() }
    fn value(&self) -> Result<u32, SynthesisError> { let mut r = 0; for (i, b) in self.bits.iter().enumerate() { r |= (b.value()? as u32) << i; } Ok(r) }
}
impl<F: Field> UInt32<F> {
    pub fn constant(v: u32) -> Self { UInt32 { bits: (0..32).map(|i| Boolean::constant((v >> i) & 1 == 1)).collect() } }
    pub fn from_bits_le(bits: &[Boolean<F>]) -> Self { assert_eq!(bits.len(), 32); UInt32 { bits: bits.to_vec() } }
    pub fn to_bits_le(&self) -> Vec<Boolean<F>> { self.bits.clone() }
    /// Output word of an ideal hash gadget.
    pub fn ideal(cs: &ConstraintSystemRef<F>, op: &str, ids: &[u64], v: Option<u32>) -> Self { UInt32 { bits: (0..32).map(|i| Boolean::ideal(cs, op, ids, v.map(|v| (v >> i) & 1 == 1))).collect() } }
}
impl<F: Field> ToBytesGadget<F> for UInt32<F> { fn to_bytes(&self) -> Result<Vec<UInt8<F>>, SynthesisError> { Ok(super::bytes_of_bits(self.bits.clone())) } }
impl<F: Field> EqGadget<F> for UInt32<F> { fn is_eq(&self, o: &Self) -> Result<Boolean<F>, SynthesisError> { self.bits.as_slice().is_eq(&o.bits) } }
pub fn bit_ids<F: Field>(b: &[Boolean<F>]) -> Vec<u64> { b.iter().map(|b| b.id()).collect() }
