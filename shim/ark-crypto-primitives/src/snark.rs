use ark_ff::{Field, PrimeField};
use ark_r1cs_std::prelude::*;
use ark_relations::r1cs::SynthesisError;
pub trait SNARK<F: PrimeField> { type ProvingKey: Clone; type VerifyingKey: Clone; type Proof: Clone; type ProcessedVerifyingKey: Clone; }
pub trait SNARKGadget<F: PrimeField, C: PrimeField, S: SNARK<F>> {
    type VerifyingKeyVar: Clone;
    type InputVar: Clone;
    type ProofVar: Clone;
    fn verify(vk: &Self::VerifyingKeyVar, x: &Self::InputVar, proof: &Self::ProofVar) -> Result<Boolean<C>, SynthesisError>;
}
#[derive(Clone)]
pub struct BooleanInputVar<F: Field, C: Field> { val: Vec<Vec<Boolean<C>>>, _p: std::marker::PhantomData<F> }
impl<F: PrimeField, C: PrimeField> BooleanInputVar<F, C> { pub fn new(val: Vec<Vec<Boolean<C>>>) -> Self { Self { val, _p: std::marker::PhantomData } } }
impl<F: Field, C: Field> IntoIterator for BooleanInputVar<F, C> { type Item = Vec<Boolean<C>>; type IntoIter = std::vec::IntoIter<Vec<Boolean<C>>>; fn into_iter(self) -> Self::IntoIter { self.val.into_iter() } }
