//! Stand-in for ark-r1cs-std: "ideal" gadgets. Each operation computes its value natively, allocates a variable
//! for it, and records the first enforced relation that does not hold.
#![allow(clippy::all)]
pub mod alloc;
pub mod bits;
pub mod eq;
pub mod fields;
pub mod groups;
pub mod pairing;
pub mod select;
pub use bits::{boolean, uint32, uint8};
pub use ark_relations::r1cs::SynthesisError;
use ark_ff::Field;
use ark_relations::r1cs::ConstraintSystemRef;
pub mod prelude {
    pub use crate::{alloc::*, bits::{boolean::Boolean, uint32::UInt32, uint8::UInt8, ToBitsGadget, ToBytesGadget}, eq::*, fields::{FieldOpsBounds, FieldVar}, groups::{CurveVar, GroupOpsBounds}, pairing::PairingVar, select::*, R1CSVar};
}
pub trait R1CSVar<F: Field> {
    type Value: std::fmt::Debug + Eq + Clone;
    fn cs(&self) -> ConstraintSystemRef<F>;
    fn is_constant(&self) -> bool { self.cs().is_none() }
    fn value(&self) -> Result<Self::Value, SynthesisError>;
}
impl<F: Field, T: R1CSVar<F>> R1CSVar<F> for [T] {
    type Value = Vec<T::Value>;
    fn cs(&self) -> ConstraintSystemRef<F> { let mut r = ConstraintSystemRef::None; for v in self { r = v.cs().or(r); } r }
    fn value(&self) -> Result<Self::Value, SynthesisError> { self.iter().map(|v| v.value()).collect() }
}
impl<F: Field, T: R1CSVar<F>> R1CSVar<F> for Vec<T> {
    type Value = Vec<T::Value>;
    fn cs(&self) -> ConstraintSystemRef<F> { self.as_slice().cs() }
    fn value(&self) -> Result<Self::Value, SynthesisError> { self.as_slice().value() }
}
impl<'a, F: Field, T: 'a + R1CSVar<F>> R1CSVar<F> for &'a T {
    type Value = T::Value;
    fn cs(&self) -> ConstraintSystemRef<F> { (*self).cs() }
    fn value(&self) -> Result<Self::Value, SynthesisError> { (*self).value() }
}
/// Utility trait to convert `Option<T>` to `Result<T, SynthesisError>`
pub trait Assignment<T> { fn get(self) -> Result<T, SynthesisError>; }
impl<T> Assignment<T> for Option<T> { fn get(self) -> Result<T, SynthesisError> { self.ok_or(SynthesisError::AssignmentMissing) } }
pub(crate) fn cs2<F: Field>(a: &impl R1CSVar<F>, b: &impl R1CSVar<F>) -> ConstraintSystemRef<F> { a.cs().or(b.cs()) }
/// Records an enforced relation: `ok` is `None` when values are missing (setup).
pub(crate) fn enforce<F: Field>(cs: &ConstraintSystemRef<F>, what: &str, ids: &[u64], ok: Option<bool>) -> Result<(), SynthesisError> {
    cs.tag(what, ids);
    if ok == Some(false) { if cs.is_none() { return Err(SynthesisError::Unsatisfiable); } cs.fail(what); }
    Ok(())
}
