use super::{val_id, FieldOpsBounds, FieldVar};
use crate::{enforce, prelude::*, Assignment};
use ark_ff::{BigInteger, FpParameters, PrimeField};
use ark_relations::{r1cs::{ConstraintSystemRef, Namespace, SynthesisError, Variable}, sim};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::ops::*;
#[derive(Debug, Clone)]
pub struct AllocatedFp<F: PrimeField> { pub(crate) value: Option<F>, pub variable: Variable, pub cs: ConstraintSystemRef<F> }
impl<F: PrimeField> AllocatedFp<F> {
    pub fn new(value: Option<F>, variable: Variable, cs: ConstraintSystemRef<F>) -> Self { Self { value, variable, cs } }
    pub fn value(&self) -> Result<F, SynthesisError> { self.value.get() }
    pub(crate) fn ideal(cs: &ConstraintSystemRef<F>, op: &str, ids: &[u64], value: Option<F>) -> Self {
        cs.tag(op, ids);
        let variable = cs.new_witness_variable(|| value.get()).expect("value");
        Self { value, variable, cs: cs.clone() }
    }
}
#[derive(Clone, Debug)]
pub enum FpVar<F: PrimeField> { Constant(F), Var(AllocatedFp<F>) }
impl<F: PrimeField> R1CSVar<F> for FpVar<F> {
    type Value = F;
    fn cs(&self) -> ConstraintSystemRef<F> { match self { Self::Constant(_) => ConstraintSystemRef::None, Self::Var(a) => a.cs.clone() } }
    fn value(&self) -> Result<F, SynthesisError> { match self { Self::Constant(v) => Ok(*v), Self::Var(v) => v.value() } }
}
impl<F: PrimeField> From<AllocatedFp<F>> for FpVar<F> { fn from(a: AllocatedFp<F>) -> Self { Self::Var(a) } }
impl<F: PrimeField> FieldVar<F, F> for FpVar<F> {
    fn ideal(cs: &ConstraintSystemRef<F>, op: &str, ids: &[u64], v: Option<F>) -> Self { if cs.is_none() { Self::Constant(v.expect("constant")) } else { Self::Var(AllocatedFp::ideal(cs, op, ids, v)) } }
    fn ids(&self) -> Vec<u64> { match self { Self::Constant(v) => vec![val_id(v)], Self::Var(v) => vec![v.variable.code()] } }
    fn constant(v: F) -> Self { Self::Constant(v) }
}
crate::ideal_field_ops!([F: PrimeField] FpVar<F>, F, F);
fn mutate<F: PrimeField>(v: F, o: &sim::Override) -> F {
    let a = o.arg.get(0).copied().unwrap_or(0); let p2 = |k: u64| F::from(2u64).pow(&[k]);
    let half = F::from_repr(F::modulus_minus_one_div_two()).unwrap();
    match o.how {
        0 => v + F::one(), 1 => v - F::one(), 2 => v + p2(a % (F::Params::MODULUS_BITS as u64 - 1)), 3 => v - p2(a % (F::Params::MODULUS_BITS as u64 - 1)), 4 => F::zero(), 5 => F::one(), 6 => -v, 7 => half, 8 => v + half, 9 => v - half, 10 => F::one() - v,
        11 => { let mut b = F::BigInt::default(); for (x, y) in b.as_mut().iter_mut().zip(&o.arg) { *x = *y; } F::from_repr(b).unwrap_or(F::zero()) }
        _ => v * F::from(3u64) + F::from(a),
    }
}
impl<F: PrimeField> AllocVar<F, F> for FpVar<F> {
    fn new_variable<T: Borrow<F>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Result<Self, SynthesisError> {
        let cs = cs.into().cs();
        if mode == AllocationMode::Constant { return Ok(Self::Constant(*f()?.borrow())); }
        let mut value = None;
        let gen = || { let mut v = *f()?.borrow(); if mode == AllocationMode::Witness { if let Some(o) = sim::witness(sim::Kind::Field, || v.into_repr().as_ref().to_vec()) { v = mutate(v, &o); } } value = Some(v); Ok(v) };
        let variable = if mode == AllocationMode::Input { cs.new_input_variable(gen)? } else { cs.new_witness_variable(gen)? };
        Ok(Self::Var(AllocatedFp { value, variable, cs }))
    }
}
impl<F: PrimeField> ToBitsGadget<F> for FpVar<F> {
    fn to_bits_le(&self) -> Result<Vec<Boolean<F>>, SynthesisError> {
        let n = F::Params::MODULUS_BITS as usize; let cs = self.cs(); let ids = self.ids();
        let bits = self.value().ok().map(|v| v.into_repr().to_bits_le());
        Ok((0..n).map(|i| Boolean::ideal(&cs, "to_bits", &[ids[0], i as u64], bits.as_ref().map(|b| b[i]))).collect())
    }
}
impl<F: PrimeField> ToBytesGadget<F> for FpVar<F> { fn to_bytes(&self) -> Result<Vec<UInt8<F>>, SynthesisError> { Ok(crate::bits::bytes_of_bits(self.to_bits_le()?)) } }
impl<F: PrimeField> FpVar<F> {
    fn half() -> F { F::from_repr(F::modulus_minus_one_div_two()).unwrap() }
    pub fn enforce_smaller_or_equal_than_mod_minus_one_div_two(&self) -> Result<(), SynthesisError> { enforce(&self.cs(), "value <= (p-1)/2", &self.ids(), self.value().ok().map(|v| v <= Self::half())) }
    fn cmp_ok(&self, o: &Self, ord: Ordering, eq: bool, check: bool) -> Result<(bool, bool), SynthesisError> {
        let (l, r) = match ord { Ordering::Less => (self, o), Ordering::Greater => (o, self), Ordering::Equal => return Err(SynthesisError::Unsatisfiable) };
        Ok(match (l.value(), r.value()) { (Ok(a), Ok(b)) => { let b = if eq { b + F::one() } else { b }; let small = a <= Self::half() && b <= Self::half(); ((a - b).double().into_repr().is_odd(), small || !check) } _ => (true, true) })
    }
    fn cmp_enf(&self, o: &Self, ord: Ordering, eq: bool, check: bool) -> Result<(), SynthesisError> {
        let (lt, small) = self.cmp_ok(o, ord, eq, check)?;
        let mut ids = self.ids(); ids.extend(o.ids()); ids.extend([ord as i8 as u64, eq as u64, check as u64]);
        enforce(&self.cs().or(o.cs()), "comparison operands <= (p-1)/2", &ids, Some(small))?;
        enforce(&self.cs().or(o.cs()), "comparison", &ids, Some(lt))
    }
    pub fn enforce_cmp(&self, o: &FpVar<F>, ord: Ordering, also_eq: bool) -> Result<(), SynthesisError> { self.cmp_enf(o, ord, also_eq, true) }
    pub fn enforce_cmp_unchecked(&self, o: &FpVar<F>, ord: Ordering, also_eq: bool) -> Result<(), SynthesisError> { self.cmp_enf(o, ord, also_eq, false) }
    fn cmp_is(&self, o: &Self, ord: Ordering, eq: bool, check: bool) -> Result<Boolean<F>, SynthesisError> {
        let (lt, small) = self.cmp_ok(o, ord, eq, check)?; let known = self.value().is_ok() && o.value().is_ok();
        let mut ids = self.ids(); ids.extend(o.ids()); ids.extend([ord as i8 as u64, eq as u64, check as u64]);
        enforce(&self.cs().or(o.cs()), "comparison operands <= (p-1)/2", &ids, Some(small))?;
        Ok(Boolean::ideal(&self.cs().or(o.cs()), "is_cmp", &ids, if known { Some(lt) } else { None }))
    }
    pub fn is_cmp(&self, o: &FpVar<F>, ord: Ordering, also_eq: bool) -> Result<Boolean<F>, SynthesisError> { self.cmp_is(o, ord, also_eq, true) }
    pub fn is_cmp_unchecked(&self, o: &FpVar<F>, ord: Ordering, also_eq: bool) -> Result<Boolean<F>, SynthesisError> { self.cmp_is(o, ord, also_eq, false) }
}
