use crate::{enforce, fields::fp::{AllocatedFp, FpVar}, prelude::*, Assignment};
use ark_ff::{BitIteratorBE, Field, PrimeField};
use ark_relations::{lc, r1cs::{ConstraintSystemRef, LinearCombination, Namespace, SynthesisError, Variable}, sim};
use std::borrow::Borrow;
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct AllocatedBit<F: Field> { pub(crate) variable: Variable, pub(crate) cs: ConstraintSystemRef<F>, pub(crate) value: Option<bool> }
impl<F: Field> AllocatedBit<F> {
    pub fn value(&self) -> Result<bool, SynthesisError> { self.value.get() }
    pub fn variable(&self) -> Variable { self.variable }
    pub fn cs(&self) -> ConstraintSystemRef<F> { self.cs.clone() }
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum Boolean<F: Field> { Is(AllocatedBit<F>), Not(AllocatedBit<F>), Constant(bool) }
impl<F: Field> R1CSVar<F> for Boolean<F> {
    type Value = bool;
    fn cs(&self) -> ConstraintSystemRef<F> { match self { Self::Is(a) | Self::Not(a) => a.cs.clone(), _ => ConstraintSystemRef::None } }
    fn value(&self) -> Result<bool, SynthesisError> { match self { Boolean::Constant(c) => Ok(*c), Boolean::Is(v) => v.value(), Boolean::Not(v) => v.value().map(|b| !b) } }
}
impl<F: Field> Boolean<F> {
    pub const TRUE: Self = Boolean::Constant(true);
    pub const FALSE: Self = Boolean::Constant(false);
    pub fn ideal(cs: &ConstraintSystemRef<F>, op: &str, ids: &[u64], value: Option<bool>) -> Self {
        if cs.is_none() { return Boolean::Constant(value.expect("constant")); }
        cs.tag(op, ids);
        let variable = cs.new_witness_variable(|| value.map(F::from).get()).expect("value");
        Boolean::Is(AllocatedBit { variable, cs: cs.clone(), value })
    }
    pub(crate) fn id(&self) -> u64 { match self { Self::Is(a) => 8 * a.variable.code() + 1, Self::Not(a) => 8 * a.variable.code() + 2, Self::Constant(b) => *b as u64 } }
    pub fn lc(&self) -> LinearCombination<F> {
        match self { Boolean::Constant(false) => lc!(), Boolean::Constant(true) => lc!() + Variable::One, Boolean::Is(v) => v.variable.into(), Boolean::Not(v) => LinearCombination::from(Variable::One) - v.variable }
    }
    pub fn constant(b: bool) -> Self { Boolean::Constant(b) }
    pub fn constant_vec_from_bytes(values: &[u8]) -> Vec<Self> { values.iter().flat_map(|v| (0..8).map(move |i| Boolean::Constant((v >> i) & 1 == 1))).collect() }
    pub fn not(&self) -> Self { match self { Boolean::Constant(c) => Boolean::Constant(!c), Boolean::Is(v) => Boolean::Not(v.clone()), Boolean::Not(v) => Boolean::Is(v.clone()) } }
    fn op(&self, o: &Self, n: &str, f: impl FnOnce(bool, bool) -> bool) -> Result<Self, SynthesisError> {
        let v = match (self.value(), o.value()) { (Ok(a), Ok(b)) => Some(f(a, b)), _ => None };
        Ok(Self::ideal(&self.cs().or(o.cs()), n, &[self.id(), o.id()], v))
    }
    pub fn xor<'a>(&'a self, o: &'a Self) -> Result<Self, SynthesisError> { match (self, o) { (Boolean::Constant(false), x) | (x, Boolean::Constant(false)) => Ok(x.clone()), (Boolean::Constant(true), x) | (x, Boolean::Constant(true)) => Ok(x.not()), _ => self.op(o, "xor", |a, b| a ^ b) } }
    pub fn or<'a>(&'a self, o: &'a Self) -> Result<Self, SynthesisError> { match (self, o) { (Boolean::Constant(false), x) | (x, Boolean::Constant(false)) => Ok(x.clone()), (Boolean::Constant(true), _) | (_, Boolean::Constant(true)) => Ok(Boolean::Constant(true)), _ => self.op(o, "or", |a, b| a | b) } }
    pub fn and<'a>(&'a self, o: &'a Self) -> Result<Self, SynthesisError> { match (self, o) { (Boolean::Constant(false), _) | (_, Boolean::Constant(false)) => Ok(Boolean::Constant(false)), (Boolean::Constant(true), x) | (x, Boolean::Constant(true)) => Ok(x.clone()), _ => self.op(o, "and", |a, b| a & b) } }
    pub fn kary_and(bits: &[Self]) -> Result<Self, SynthesisError> { assert!(!bits.is_empty()); let mut c = bits[0].clone(); for b in &bits[1..] { c = c.and(b)?; } Ok(c) }
    pub fn kary_or(bits: &[Self]) -> Result<Self, SynthesisError> { assert!(!bits.is_empty()); let mut c = bits[0].clone(); for b in &bits[1..] { c = c.or(b)?; } Ok(c) }
    pub fn kary_nand(bits: &[Self]) -> Result<Self, SynthesisError> { Ok(Self::kary_and(bits)?.not()) }
    pub fn enforce_kary_nand(bits: &[Self]) -> Result<(), SynthesisError> { Self::kary_and(bits)?.enforce_equal(&Boolean::Constant(false)) }
    pub fn select<T: CondSelectGadget<F>>(&self, first: &T, second: &T) -> Result<T, SynthesisError> { T::conditionally_select(self, first, second) }
    pub fn le_bits_to_fp_var(bits: &[Self]) -> Result<FpVar<F>, SynthesisError> where F: PrimeField {
        let mut v = Some(F::zero()); let mut p = F::one();
        for b in bits { v = match (v, b.value()) { (Some(v), Ok(true)) => Some(v + p), (Some(v), Ok(false)) => Some(v), _ => None }; p.double_in_place(); }
        let cs = bits.cs();
        if cs.is_none() { return Ok(FpVar::Constant(v.get()?)); }
        Ok(FpVar::Var(AllocatedFp::ideal(&cs, "bits_to_fp", &bits.iter().map(|b| b.id()).collect::<Vec<_>>(), v)))
    }
    pub fn enforce_smaller_or_equal_than_le<'a>(bits: &[Self], element: impl AsRef<[u64]>) -> Result<Vec<Self>, SynthesisError> {
        let e: Vec<bool> = { let mut v: Vec<bool> = BitIteratorBE::new(element).collect(); v.reverse(); v };
        let ok = bits.value().ok().map(|b| { let mut b = b; let mut e = e.clone(); let n = b.len().max(e.len()); b.resize(n, false); e.resize(n, false); b.reverse(); e.reverse(); b <= e });
        enforce(&bits.cs(), "bits<=constant", &bits.iter().map(|b| b.id()).collect::<Vec<_>>(), ok)?;
        Ok(vec![])
    }
}
impl<F: Field> From<AllocatedBit<F>> for Boolean<F> { fn from(b: AllocatedBit<F>) -> Self { Boolean::Is(b) } }
impl<F: Field> AllocVar<bool, F> for Boolean<F> {
    fn new_variable<T: Borrow<bool>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Result<Self, SynthesisError> {
        let cs = cs.into().cs();
        if mode == AllocationMode::Constant { return Ok(Boolean::Constant(*f()?.borrow())); }
        let mut value = None;
        let gen = || { let mut b = *f()?.borrow(); if mode == AllocationMode::Witness { if let Some(o) = sim::witness(sim::Kind::Bool, || vec![b as u64]) { b = match o.how { 1 => o.arg.get(0).map_or(!b, |v| *v == 1), _ => !b }; } } value = Some(b); Ok(F::from(b)) };
        let variable = if mode == AllocationMode::Input { cs.new_input_variable(gen)? } else { cs.new_witness_variable(gen)? };
        cs.tag("bool", &[variable.code()]);
        Ok(Boolean::Is(AllocatedBit { variable, cs, value }))
    }
}
impl<F: Field> EqGadget<F> for Boolean<F> {
    fn is_eq(&self, o: &Self) -> Result<Boolean<F>, SynthesisError> { Ok(self.xor(o)?.not()) }
    fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Result<(), SynthesisError> {
        let ok = match (self.value(), o.value(), c.value()) { (Ok(a), Ok(b), Ok(c)) => Some(!c || a == b), _ => None };
        enforce(&self.cs().or(o.cs()).or(c.cs()), "bit equality", &[self.id(), o.id(), c.id()], ok)
    }
    fn conditional_enforce_not_equal(&self, o: &Self, c: &Boolean<F>) -> Result<(), SynthesisError> {
        let ok = match (self.value(), o.value(), c.value()) { (Ok(a), Ok(b), Ok(c)) => Some(!c || a != b), _ => None };
        enforce(&self.cs().or(o.cs()).or(c.cs()), "bit inequality", &[self.id(), o.id(), c.id()], ok)
    }
}
impl<F: Field> ToBytesGadget<F> for Boolean<F> { fn to_bytes(&self) -> Result<Vec<UInt8<F>>, SynthesisError> { Ok(super::bytes_of_bits(vec![self.clone()])) } }
impl<F: Field> CondSelectGadget<F> for Boolean<F> {
    fn conditionally_select(c: &Boolean<F>, t: &Self, f: &Self) -> Result<Self, SynthesisError> {
        if let Boolean::Constant(c) = c { return Ok(if *c { t.clone() } else { f.clone() }); }
        let v = match (c.value(), t.value(), f.value()) { (Ok(c), Ok(t), Ok(f)) => Some(if c { t } else { f }), _ => None };
        Ok(Self::ideal(&c.cs(), "select", &[c.id(), t.id(), f.id()], v))
    }
}
