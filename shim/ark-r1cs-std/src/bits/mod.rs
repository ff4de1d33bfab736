use crate::prelude::*;
use ark_ff::Field;
use ark_relations::r1cs::SynthesisError;
pub mod boolean;
pub mod uint32;
pub mod uint8;
pub trait ToBitsGadget<F: Field> {
    fn to_bits_le(&self) -> Result<Vec<Boolean<F>>, SynthesisError>;
    fn to_non_unique_bits_le(&self) -> Result<Vec<Boolean<F>>, SynthesisError> { self.to_bits_le() }
    fn to_bits_be(&self) -> Result<Vec<Boolean<F>>, SynthesisError> { let mut b = self.to_bits_le()?; b.reverse(); Ok(b) }
    fn to_non_unique_bits_be(&self) -> Result<Vec<Boolean<F>>, SynthesisError> { self.to_bits_be() }
}
impl<F: Field> ToBitsGadget<F> for Boolean<F> { fn to_bits_le(&self) -> Result<Vec<Boolean<F>>, SynthesisError> { Ok(vec![self.clone()]) } }
impl<F: Field> ToBitsGadget<F> for [Boolean<F>] { fn to_bits_le(&self) -> Result<Vec<Boolean<F>>, SynthesisError> { Ok(self.to_vec()) } }
impl<F: Field> ToBitsGadget<F> for Vec<Boolean<F>> { fn to_bits_le(&self) -> Result<Vec<Boolean<F>>, SynthesisError> { Ok(self.clone()) } }
impl<F: Field> ToBitsGadget<F> for UInt8<F> { fn to_bits_le(&self) -> Result<Vec<Boolean<F>>, SynthesisError> { Ok(self.bits.clone()) } }
impl<F: Field> ToBitsGadget<F> for [UInt8<F>] { fn to_bits_le(&self) -> Result<Vec<Boolean<F>>, SynthesisError> { Ok(self.iter().flat_map(|b| b.bits.clone()).collect()) } }
impl<F: Field> ToBitsGadget<F> for Vec<UInt8<F>> { fn to_bits_le(&self) -> Result<Vec<Boolean<F>>, SynthesisError> { self.as_slice().to_bits_le() } }
pub trait ToBytesGadget<F: Field> {
    fn to_bytes(&self) -> Result<Vec<UInt8<F>>, SynthesisError>;
    fn to_non_unique_bytes(&self) -> Result<Vec<UInt8<F>>, SynthesisError> { self.to_bytes() }
}
impl<F: Field> ToBytesGadget<F> for [UInt8<F>] { fn to_bytes(&self) -> Result<Vec<UInt8<F>>, SynthesisError> { Ok(self.to_vec()) } }
impl<F: Field> ToBytesGadget<F> for Vec<UInt8<F>> { fn to_bytes(&self) -> Result<Vec<UInt8<F>>, SynthesisError> { Ok(self.clone()) } }
pub(crate) fn bytes_of_bits<F: Field>(mut b: Vec<Boolean<F>>) -> Vec<UInt8<F>> { while b.len() % 8 != 0 { b.push(Boolean::constant(false)); } b.chunks(8).map(UInt8::from_bits_le).collect() }
