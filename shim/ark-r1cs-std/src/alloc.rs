use ark_ff::Field;
use ark_relations::r1cs::{ConstraintSystemRef, Namespace, SynthesisError};
use std::borrow::Borrow;
#[derive(Eq, PartialEq, Ord, PartialOrd, Debug, Copy, Clone)]
pub enum AllocationMode { Constant = 0, Witness = 1, Input = 2 }
impl AllocationMode { pub fn max(&self, o: Self) -> Self { if *self as u8 >= o as u8 { *self } else { o } } }
pub trait AllocVar<V, F: Field>: Sized where V: ?Sized {
    fn new_variable<T: Borrow<V>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Result<Self, SynthesisError>;
    fn new_constant(cs: impl Into<Namespace<F>>, t: impl Borrow<V>) -> Result<Self, SynthesisError> { Self::new_variable(cs, || Ok(t), AllocationMode::Constant) }
    fn new_input<T: Borrow<V>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T, SynthesisError>) -> Result<Self, SynthesisError> { Self::new_variable(cs, f, AllocationMode::Input) }
    fn new_witness<T: Borrow<V>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T, SynthesisError>) -> Result<Self, SynthesisError> { Self::new_variable(cs, f, AllocationMode::Witness) }
}
impl<I, F: Field, A: AllocVar<I, F>> AllocVar<[I], F> for Vec<A> {
    fn new_variable<T: Borrow<[I]>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Result<Self, SynthesisError> {
        let ns = cs.into(); let cs: ConstraintSystemRef<F> = ns.cs();
        let mut v = vec![];
        for x in f()?.borrow().iter() { v.push(A::new_variable(cs.clone(), || Ok(x), mode)?); }
        Ok(v)
    }
}
