use crate::prelude::*;
use ark_ff::Field;
use ark_relations::r1cs::SynthesisError;
pub trait CondSelectGadget<F: Field> where Self: Sized + Clone {
    fn conditionally_select(cond: &Boolean<F>, true_value: &Self, false_value: &Self) -> Result<Self, SynthesisError>;
}
pub trait TwoBitLookupGadget<F: Field> where Self: Sized { type TableConstant; fn two_bit_lookup(bits: &[Boolean<F>], constants: &[Self::TableConstant]) -> Result<Self, SynthesisError>; }
