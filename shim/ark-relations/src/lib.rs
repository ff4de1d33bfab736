//! Stand-in for ark-relations: a constraint system that evaluates constraints as they are added, with a
//! seeded byzantine prover behind every explicit witness allocation.
#![allow(clippy::all)]
pub mod sim;
pub mod r1cs {
    use ark_ff::Field;
    use std::cell::{Ref, RefCell, RefMut};
    use std::error::Error;
    use std::fmt;
    use std::ops::*;
    use std::rc::Rc;

    pub type Result<T> = std::result::Result<T, SynthesisError>;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum SynthesisError { MissingCS, AssignmentMissing, DivisionByZero, Unsatisfiable, PolynomialDegreeTooLarge, UnexpectedIdentity, MalformedVerifyingKey, UnconstrainedVariable }
    impl Error for SynthesisError {}
    impl fmt::Display for SynthesisError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }

    #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub enum Variable { Zero, One, Instance(usize), Witness(usize), SymbolicLc(usize) }
    impl Variable {
        pub fn is_zero(&self) -> bool { *self == Variable::Zero }
        pub fn is_one(&self) -> bool { *self == Variable::One }
        pub fn is_instance(&self) -> bool { matches!(self, Variable::Instance(_)) }
        pub fn is_witness(&self) -> bool { matches!(self, Variable::Witness(_)) }
        pub fn code(&self) -> u64 { match self { Variable::Zero => 0, Variable::One => 1, Variable::Instance(i) => 2 + 4 * *i as u64, Variable::Witness(i) => 3 + 4 * *i as u64, Variable::SymbolicLc(i) => 4 + 4 * *i as u64 } }
    }
    #[derive(Debug, Clone, PartialEq, Eq, Default)]
    pub struct LinearCombination<F: Field>(pub Vec<(F, Variable)>);
    impl<F: Field> LinearCombination<F> {
        pub fn new() -> Self { Self(vec![]) }
        pub fn zero() -> Self { Self::new() }
        pub fn is_zero(&self) -> bool { self.0.is_empty() }
        pub fn len(&self) -> usize { self.0.len() }
        pub fn is_empty(&self) -> bool { self.0.is_empty() }
        pub fn iter(&self) -> std::slice::Iter<'_, (F, Variable)> { self.0.iter() }
        pub fn negate_in_place(&mut self) { self.0.iter_mut().for_each(|(c, _)| *c = -*c) }
        fn ext(mut self, c: F, o: &Self) -> Self { self.0.extend(o.0.iter().map(|(k, v)| (*k * c, *v))); self }
    }
    impl<F: Field> From<(F, Variable)> for LinearCombination<F> { fn from(x: (F, Variable)) -> Self { Self(vec![x]) } }
    impl<F: Field> From<Variable> for LinearCombination<F> { fn from(v: Variable) -> Self { Self(vec![(F::one(), v)]) } }
    macro_rules! lcops { ($l:ty) => {
        impl<'l, F: Field> Add<(F, Variable)> for $l { type Output = LinearCombination<F>; fn add(self, o: (F, Variable)) -> LinearCombination<F> { let mut r = self.clone(); r.0.push(o); r } }
        impl<'l, F: Field> Sub<(F, Variable)> for $l { type Output = LinearCombination<F>; fn sub(self, o: (F, Variable)) -> LinearCombination<F> { let mut r = self.clone(); r.0.push((-o.0, o.1)); r } }
        impl<'l, F: Field> Add<Variable> for $l { type Output = LinearCombination<F>; fn add(self, o: Variable) -> LinearCombination<F> { let mut r = self.clone(); r.0.push((F::one(), o)); r } }
        impl<'l, F: Field> Sub<Variable> for $l { type Output = LinearCombination<F>; fn sub(self, o: Variable) -> LinearCombination<F> { let mut r = self.clone(); r.0.push((-F::one(), o)); r } }
        impl<'l, F: Field> Add<LinearCombination<F>> for $l { type Output = LinearCombination<F>; fn add(self, o: LinearCombination<F>) -> LinearCombination<F> { self.clone().ext(F::one(), &o) } }
        impl<'l, 'a, F: Field> Add<&'a LinearCombination<F>> for $l { type Output = LinearCombination<F>; fn add(self, o: &'a LinearCombination<F>) -> LinearCombination<F> { self.clone().ext(F::one(), o) } }
        impl<'l, F: Field> Sub<LinearCombination<F>> for $l { type Output = LinearCombination<F>; fn sub(self, o: LinearCombination<F>) -> LinearCombination<F> { self.clone().ext(-F::one(), &o) } }
        impl<'l, 'a, F: Field> Sub<&'a LinearCombination<F>> for $l { type Output = LinearCombination<F>; fn sub(self, o: &'a LinearCombination<F>) -> LinearCombination<F> { self.clone().ext(-F::one(), o) } }
        impl<'l, 'a, F: Field> Add<(F, &'a LinearCombination<F>)> for $l { type Output = LinearCombination<F>; fn add(self, o: (F, &'a LinearCombination<F>)) -> LinearCombination<F> { self.clone().ext(o.0, o.1) } }
        impl<'l, F: Field> Add<(F, LinearCombination<F>)> for $l { type Output = LinearCombination<F>; fn add(self, o: (F, LinearCombination<F>)) -> LinearCombination<F> { self.clone().ext(o.0, &o.1) } }
        impl<'l, 'a, F: Field> Sub<(F, &'a LinearCombination<F>)> for $l { type Output = LinearCombination<F>; fn sub(self, o: (F, &'a LinearCombination<F>)) -> LinearCombination<F> { self.clone().ext(-o.0, o.1) } }
        impl<'l, F: Field> Sub<(F, LinearCombination<F>)> for $l { type Output = LinearCombination<F>; fn sub(self, o: (F, LinearCombination<F>)) -> LinearCombination<F> { self.clone().ext(-o.0, &o.1) } }
        impl<'l, F: Field> Mul<F> for $l { type Output = LinearCombination<F>; fn mul(self, o: F) -> LinearCombination<F> { LinearCombination::new().ext(o, &self) } }
        impl<'l, F: Field> Neg for $l { type Output = LinearCombination<F>; fn neg(self) -> LinearCombination<F> { LinearCombination::new().ext(-F::one(), &self) } }
    } }
    lcops!(LinearCombination<F>);
    lcops!(&'l LinearCombination<F>);
    impl<F: Field> AddAssign<(F, Variable)> for LinearCombination<F> { fn add_assign(&mut self, o: (F, Variable)) { self.0.push(o) } }
    impl<F: Field> SubAssign<(F, Variable)> for LinearCombination<F> { fn sub_assign(&mut self, o: (F, Variable)) { self.0.push((-o.0, o.1)) } }
    impl<F: Field> AddAssign<LinearCombination<F>> for LinearCombination<F> { fn add_assign(&mut self, o: LinearCombination<F>) { self.0.extend(o.0) } }
    impl<'a, F: Field> AddAssign<&'a LinearCombination<F>> for LinearCombination<F> { fn add_assign(&mut self, o: &'a LinearCombination<F>) { self.0.extend(o.0.iter().cloned()) } }
    impl<F: Field> SubAssign<LinearCombination<F>> for LinearCombination<F> { fn sub_assign(&mut self, o: LinearCombination<F>) { self.0.extend(o.0.into_iter().map(|(c, v)| (-c, v))) } }
    impl<F: Field> MulAssign<F> for LinearCombination<F> { fn mul_assign(&mut self, o: F) { self.0.iter_mut().for_each(|(c, _)| *c *= o) } }

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum SynthesisMode { Setup, Prove { construct_matrices: bool } }
    #[derive(Debug, Clone)]
    pub struct ConstraintSystem<F: Field> {
        pub num_instance_variables: usize, pub num_witness_variables: usize, pub num_constraints: usize,
        mode: SynthesisMode, pub instance_assignment: Vec<F>, pub witness_assignment: Vec<F>,
        /// First unsatisfied relation, and a digest of the structure built so far.
        pub bad: Option<String>, pub shape: u64,
    }
    impl<F: Field> Default for ConstraintSystem<F> { fn default() -> Self { Self::new() } }
    pub fn mix(a: u64, b: u64) -> u64 { let mut x = a ^ b.wrapping_mul(0x9e37_79b9_7f4a_7c15); x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9); x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb); x ^ (x >> 31) }
    fn fdig<F: Field>(f: &F) -> u64 { let mut b = vec![]; f.write(&mut b).unwrap(); b.chunks(8).fold(7, |h, c| { let mut x = [0; 8]; x[..c.len()].copy_from_slice(c); mix(h, u64::from_le_bytes(x)) }) }
    impl<F: Field> ConstraintSystem<F> {
        pub fn new() -> Self { Self { num_instance_variables: 1, num_witness_variables: 0, num_constraints: 0, mode: SynthesisMode::Prove { construct_matrices: true }, instance_assignment: vec![F::one()], witness_assignment: vec![], bad: None, shape: 1 } }
        pub fn new_ref() -> ConstraintSystemRef<F> { ConstraintSystemRef::new(Self::new()) }
        pub fn is_in_setup_mode(&self) -> bool { self.mode == SynthesisMode::Setup }
        fn val(&self, v: Variable) -> F { match v { Variable::Zero => F::zero(), Variable::One => F::one(), Variable::Instance(i) => self.instance_assignment[i], Variable::Witness(i) => self.witness_assignment[i], Variable::SymbolicLc(_) => unimplemented!("symbolic lc") } }
        fn eval(&self, l: &LinearCombination<F>) -> F { l.0.iter().fold(F::zero(), |a, (c, v)| a + *c * self.val(*v)) }
        fn lctag(&mut self, l: &LinearCombination<F>) { let mut m = std::collections::BTreeMap::new(); for (c, v) in &l.0 { *m.entry(*v).or_insert_with(F::zero) += *c; } for (v, c) in m { if !c.is_zero() { self.tag("lc", &[v.code(), fdig(&c)]); } } }
        pub fn tag(&mut self, op: &str, ids: &[u64]) { let mut h = self.shape; for b in op.bytes() { h = mix(h, b as u64); } for i in ids { h = mix(h, *i); } self.shape = mix(h, 0x5eed); }
        pub fn tag_value(&mut self, op: &str, f: &F) { let d = fdig(f); self.tag(op, &[d]) }
        fn caller() -> String { crate::sim::context() }
        pub fn fail(&mut self, what: &str) { if self.bad.is_none() { self.bad = Some(format!("{} {}", what, Self::caller())); } }
        fn new_input(&mut self, f: impl FnOnce() -> Result<F>) -> Result<Variable> {
            self.tag("input", &[]); let i = self.num_instance_variables; self.num_instance_variables += 1;
            if !self.is_in_setup_mode() { let v = f()?; self.instance_assignment.push(v); }
            Ok(Variable::Instance(i))
        }
        fn new_witness(&mut self, f: impl FnOnce() -> Result<F>) -> Result<Variable> {
            self.tag("witness", &[]); let i = self.num_witness_variables; self.num_witness_variables += 1;
            if !self.is_in_setup_mode() { let v = f()?; self.witness_assignment.push(v); }
            Ok(Variable::Witness(i))
        }
    }
    #[derive(Debug, Clone)]
    pub enum ConstraintSystemRef<F: Field> { None, CS(Rc<RefCell<ConstraintSystem<F>>>) }
    impl<F: Field> PartialEq for ConstraintSystemRef<F> { fn eq(&self, o: &Self) -> bool { match (self, o) { (Self::None, Self::None) => true, (Self::CS(a), Self::CS(b)) => Rc::ptr_eq(a, b), _ => false } } }
    impl<F: Field> Eq for ConstraintSystemRef<F> {}
    impl<F: Field> ConstraintSystemRef<F> {
        pub fn new(c: ConstraintSystem<F>) -> Self { Self::CS(Rc::new(RefCell::new(c))) }
        fn inner(&self) -> Option<&Rc<RefCell<ConstraintSystem<F>>>> { match self { Self::CS(c) => Some(c), Self::None => None } }
        pub fn or(self, o: Self) -> Self { match self { Self::None => o, s => s } }
        pub fn is_none(&self) -> bool { matches!(self, Self::None) }
        pub fn borrow(&self) -> Option<Ref<'_, ConstraintSystem<F>>> { self.inner().map(|c| c.borrow()) }
        pub fn borrow_mut(&self) -> Option<RefMut<'_, ConstraintSystem<F>>> { self.inner().map(|c| c.borrow_mut()) }
        pub fn set_mode(&self, m: SynthesisMode) { if let Some(c) = self.inner() { c.borrow_mut().mode = m } }
        pub fn is_in_setup_mode(&self) -> bool { self.inner().map_or(false, |c| c.borrow().is_in_setup_mode()) }
        pub fn should_construct_matrices(&self) -> bool { !self.is_none() }
        pub fn num_constraints(&self) -> usize { self.inner().map_or(0, |c| c.borrow().num_constraints) }
        pub fn num_instance_variables(&self) -> usize { self.inner().map_or(0, |c| c.borrow().num_instance_variables) }
        pub fn num_witness_variables(&self) -> usize { self.inner().map_or(0, |c| c.borrow().num_witness_variables) }
        pub fn new_input_variable<G: FnOnce() -> Result<F>>(&self, f: G) -> Result<Variable> {
            let c = self.inner().ok_or(SynthesisError::MissingCS)?;
            if self.is_in_setup_mode() { c.borrow_mut().new_input(f) } else { let v = f(); c.borrow_mut().new_input(|| v) }
        }
        pub fn new_witness_variable<G: FnOnce() -> Result<F>>(&self, f: G) -> Result<Variable> {
            let c = self.inner().ok_or(SynthesisError::MissingCS)?;
            if self.is_in_setup_mode() { c.borrow_mut().new_witness(f) } else { let v = f(); c.borrow_mut().new_witness(|| v) }
        }
        pub fn enforce_constraint(&self, a: LinearCombination<F>, b: LinearCombination<F>, c: LinearCombination<F>) -> Result<()> {
            let mut s = self.inner().ok_or(SynthesisError::MissingCS)?.borrow_mut();
            s.num_constraints += 1;
            s.tag("constraint", &[]); s.lctag(&a); s.tag("*", &[]); s.lctag(&b); s.tag("=", &[]); s.lctag(&c);
            if !s.is_in_setup_mode() && s.eval(&a) * s.eval(&b) != s.eval(&c) { s.fail("constraint"); }
            Ok(())
        }
        pub fn assigned_value(&self, v: Variable) -> Option<F> { self.inner().and_then(|c| { let c = c.borrow(); if c.is_in_setup_mode() { None } else { Some(c.val(v)) } }) }
        pub fn is_satisfied(&self) -> Result<bool> { self.inner().map_or(Err(SynthesisError::AssignmentMissing), |c| { let c = c.borrow(); if c.is_in_setup_mode() { Err(SynthesisError::AssignmentMissing) } else { Ok(c.bad.is_none()) } }) }
        pub fn which_is_unsatisfied(&self) -> Result<Option<String>> { self.inner().map_or(Err(SynthesisError::AssignmentMissing), |c| Ok(c.borrow().bad.clone())) }
        pub fn finalize(&self) {}
        pub fn inline_all_lcs(&self) {}
        pub fn to_matrices(&self) -> Option<ConstraintMatrices> { self.inner().map(|_| ConstraintMatrices::default()) }
        /// Structure digest of an operation performed by an ideal gadget.
        pub fn tag(&self, op: &str, ids: &[u64]) { if let Some(c) = self.inner() { c.borrow_mut().tag(op, ids) } }
        pub fn fail(&self, what: &str) { if let Some(c) = self.inner() { c.borrow_mut().fail(what) } }
    }
    #[derive(Debug, Clone)]
    pub struct Namespace<F: Field> { inner: ConstraintSystemRef<F> }
    impl<F: Field> From<ConstraintSystemRef<F>> for Namespace<F> { fn from(c: ConstraintSystemRef<F>) -> Self { Self { inner: c } } }
    impl<F: Field> Namespace<F> {
        pub fn new(inner: ConstraintSystemRef<F>, _id: Option<()>) -> Self { Self { inner } }
        pub fn cs(&self) -> ConstraintSystemRef<F> { self.inner.clone() }
        pub fn leave_namespace(self) {}
    }
    pub trait ConstraintSynthesizer<F: Field> { fn generate_constraints(self, cs: ConstraintSystemRef<F>) -> Result<()>; }
    #[derive(PartialEq, Eq, Debug, Clone, Copy)]
    pub enum TracingMode { All, OnlyConstraints, OnlyWitnesses }
    /// The stand-in keeps no matrices.
    #[derive(Default)] pub struct ConstraintMatrices { pub a: Vec<u64>, pub b: Vec<u64>, pub c: Vec<u64> }
    pub struct ConstraintLayer;
    impl ConstraintLayer { pub fn new(_: TracingMode) -> Self { Self } }
    pub use crate::{lc, ns};
}
#[macro_export]
macro_rules! lc { () => { $crate::r1cs::LinearCombination::zero() }; }
#[macro_export]
macro_rules! ns { ($c:expr, $n:expr) => { $crate::r1cs::Namespace::new($c.clone(), None) }; }
