use crate::prelude::*;
use ark_ec::ProjectiveCurve;
use ark_ff::Field;
use ark_relations::r1cs::{Namespace, SynthesisError};
use std::fmt::Debug;
use std::ops::*;
pub mod curves;
pub use curves::short_weierstrass::bls12;
pub trait GroupOpsBounds<'a, F, T: 'a>: Sized + Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Add<T, Output = T> + Sub<T, Output = T> + Add<F, Output = T> + Sub<F, Output = T> {}
pub trait CurveVar<C: ProjectiveCurve, CF: Field>: 'static + Sized + Clone + Debug + R1CSVar<CF, Value = C> + ToBitsGadget<CF> + ToBytesGadget<CF> + EqGadget<CF> + CondSelectGadget<CF> + AllocVar<C, CF> + AllocVar<C::Affine, CF>
    + for<'a> GroupOpsBounds<'a, C, Self> + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + AddAssign<C> + SubAssign<C> + AddAssign<Self> + SubAssign<Self>
{
    fn constant(other: C) -> Self;
    fn zero() -> Self;
    fn is_zero(&self) -> Result<Boolean<CF>, SynthesisError> { self.is_eq(&Self::zero()) }
    fn new_variable_omit_prime_order_check(cs: impl Into<Namespace<CF>>, f: impl FnOnce() -> Result<C, SynthesisError>, mode: AllocationMode) -> Result<Self, SynthesisError>;
    fn enforce_prime_order(&self) -> Result<(), SynthesisError>;
    fn double(&self) -> Result<Self, SynthesisError> { let mut r = self.clone(); r.double_in_place()?; Ok(r) }
    fn double_in_place(&mut self) -> Result<(), SynthesisError>;
    fn negate(&self) -> Result<Self, SynthesisError>;
    fn scalar_mul_le<'a>(&self, bits: impl Iterator<Item = &'a Boolean<CF>>) -> Result<Self, SynthesisError> {
        let mut res = Self::zero(); let mut m = self.clone();
        for b in bits { let t = res.clone() + &m; res = b.select(&t, &res)?; m.double_in_place()?; }
        Ok(res)
    }
    fn precomputed_base_scalar_mul_le<'a, I, B>(&mut self, sb: I) -> Result<(), SynthesisError> where I: Iterator<Item = (B, &'a C)>, B: std::borrow::Borrow<Boolean<CF>>, C: 'a {
        for (b, base) in sb { let t = self.clone() + *base; *self = b.borrow().select(&t, self)?; }
        Ok(())
    }
}
/// Group operators in terms of `ideal2(&self, &Self, sign)`.
#[macro_export]
macro_rules! ideal_group_ops { ([$($g:tt)*] $t:ty, $c:ty) => {
    impl<'a, $($g)*> GroupOpsBounds<'a, $c, $t> for $t {}
    impl<'a, $($g)*> GroupOpsBounds<'a, $c, $t> for &'a $t {}
    $crate::ideal_group_ops!(@ [$($g)*] $t, $c; Add add AddAssign add_assign false);
    $crate::ideal_group_ops!(@ [$($g)*] $t, $c; Sub sub SubAssign sub_assign true);
};
(@ [$($g:tt)*] $t:ty, $c:ty; $tr:ident $m:ident $tra:ident $ma:ident $n:literal) => {
    impl<'a, $($g)*> $tr<&'a $t> for &'a $t { type Output = $t; fn $m(self, o: &'a $t) -> $t { self.ideal2(o, $n) } }
    impl<'a, $($g)*> $tr<$t> for &'a $t { type Output = $t; fn $m(self, o: $t) -> $t { self.ideal2(&o, $n) } }
    impl<'a, $($g)*> $tr<&'a $t> for $t { type Output = $t; fn $m(self, o: &'a $t) -> $t { self.ideal2(o, $n) } }
    impl<$($g)*> $tr<$t> for $t { type Output = $t; fn $m(self, o: $t) -> $t { self.ideal2(&o, $n) } }
    impl<'a, $($g)*> $tr<$c> for &'a $t { type Output = $t; fn $m(self, o: $c) -> $t { self.ideal2(&<$t>::from_const(o), $n) } }
    impl<$($g)*> $tr<$c> for $t { type Output = $t; fn $m(self, o: $c) -> $t { self.ideal2(&<$t>::from_const(o), $n) } }
    impl<'a, $($g)*> $tra<&'a $t> for $t { fn $ma(&mut self, o: &'a $t) { *self = self.ideal2(o, $n) } }
    impl<$($g)*> $tra<$t> for $t { fn $ma(&mut self, o: $t) { *self = self.ideal2(&o, $n) } }
    impl<$($g)*> $tra<$c> for $t { fn $ma(&mut self, o: $c) { *self = self.ideal2(&<$t>::from_const(o), $n) } }
} }
