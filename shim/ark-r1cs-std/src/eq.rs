use crate::prelude::Boolean;
use ark_ff::Field;
use ark_relations::r1cs::SynthesisError;
pub trait EqGadget<F: Field> {
    fn is_eq(&self, other: &Self) -> Result<Boolean<F>, SynthesisError>;
    fn is_neq(&self, other: &Self) -> Result<Boolean<F>, SynthesisError> { Ok(self.is_eq(other)?.not()) }
    fn conditional_enforce_equal(&self, other: &Self, should_enforce: &Boolean<F>) -> Result<(), SynthesisError> { self.is_eq(other)?.conditional_enforce_equal(&Boolean::constant(true), should_enforce) }
    fn enforce_equal(&self, other: &Self) -> Result<(), SynthesisError> { self.conditional_enforce_equal(other, &Boolean::constant(true)) }
    fn conditional_enforce_not_equal(&self, other: &Self, should_enforce: &Boolean<F>) -> Result<(), SynthesisError> { self.is_neq(other)?.conditional_enforce_equal(&Boolean::constant(true), should_enforce) }
    fn enforce_not_equal(&self, other: &Self) -> Result<(), SynthesisError> { self.conditional_enforce_not_equal(other, &Boolean::constant(true)) }
}
impl<T: EqGadget<F>, F: Field> EqGadget<F> for [T] {
    fn is_eq(&self, o: &Self) -> Result<Boolean<F>, SynthesisError> {
        assert_eq!(self.len(), o.len()); assert!(!self.is_empty());
        let mut v = vec![]; for (a, b) in self.iter().zip(o) { v.push(a.is_eq(b)?); }
        Boolean::kary_and(&v)
    }
    fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Result<(), SynthesisError> { assert_eq!(self.len(), o.len()); for (a, b) in self.iter().zip(o) { a.conditional_enforce_equal(b, c)?; } Ok(()) }
}
impl<T: EqGadget<F>, F: Field> EqGadget<F> for Vec<T> {
    fn is_eq(&self, o: &Self) -> Result<Boolean<F>, SynthesisError> { self.as_slice().is_eq(o.as_slice()) }
    fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Result<(), SynthesisError> { self.as_slice().conditional_enforce_equal(o.as_slice(), c) }
}
