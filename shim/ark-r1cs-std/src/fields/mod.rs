use crate::{enforce, prelude::*};
use ark_ff::{prelude::*, BitIteratorBE};
use ark_relations::r1cs::{ConstraintSystemRef, SynthesisError};
use std::fmt::Debug;
use std::ops::*;
pub mod fp;
pub mod opaque;
pub mod quadratic_extension;
pub mod fp2 { pub type Fp2Var<P> = super::quadratic_extension::QuadExtVar<super::fp::FpVar<<P as ark_ff::QuadExtParameters>::BasePrimeField>, P>; }
pub trait FieldOpsBounds<'a, F, T: 'a>: Sized + Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T> + Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T> + Add<F, Output = T> + Sub<F, Output = T> + Mul<F, Output = T> {}
pub trait FieldVar<F: Field, CF: Field>: 'static + Clone + From<Boolean<CF>> + R1CSVar<CF, Value = F> + EqGadget<CF> + ToBitsGadget<CF> + AllocVar<F, CF> + ToBytesGadget<CF> + CondSelectGadget<CF>
    + for<'a> FieldOpsBounds<'a, F, Self> + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self> + AddAssign<Self> + SubAssign<Self> + MulAssign<Self> + AddAssign<F> + SubAssign<F> + MulAssign<F> + Debug
{
    /// A result variable of an ideal operation (constant when there is no constraint system).
    fn ideal(cs: &ConstraintSystemRef<CF>, op: &str, ids: &[u64], value: Option<F>) -> Self;
    fn ids(&self) -> Vec<u64>;
    fn constant(v: F) -> Self;
    fn zero() -> Self { Self::constant(F::zero()) }
    fn one() -> Self { Self::constant(F::one()) }
    fn ideal2(&self, o: &Self, op: &str, f: impl FnOnce(F, F) -> F) -> Self { let v = match (self.value(), o.value()) { (Ok(a), Ok(b)) => Some(f(a, b)), _ => None }; let mut ids = self.ids(); ids.extend(o.ids()); Self::ideal(&self.cs().or(o.cs()), op, &ids, v) }
    fn ideal1(&self, op: &str, f: impl FnOnce(F) -> F) -> Self { Self::ideal(&self.cs(), op, &self.ids(), self.value().ok().map(f)) }
    fn is_zero(&self) -> Result<Boolean<CF>, SynthesisError> { self.is_eq(&Self::zero()) }
    fn is_one(&self) -> Result<Boolean<CF>, SynthesisError> { self.is_eq(&Self::one()) }
    fn double(&self) -> Result<Self, SynthesisError> { Ok(self.ideal1("double", |a| a.double())) }
    fn double_in_place(&mut self) -> Result<&mut Self, SynthesisError> { *self = self.double()?; Ok(self) }
    fn negate(&self) -> Result<Self, SynthesisError> { Ok(self.ideal1("neg", |a| -a)) }
    fn negate_in_place(&mut self) -> Result<&mut Self, SynthesisError> { *self = self.negate()?; Ok(self) }
    fn square(&self) -> Result<Self, SynthesisError> { Ok(self.ideal1("square", |a| a.square())) }
    fn square_in_place(&mut self) -> Result<&mut Self, SynthesisError> { *self = self.square()?; Ok(self) }
    fn mul_equals(&self, o: &Self, r: &Self) -> Result<(), SynthesisError> { (self.clone() * o).enforce_equal(r) }
    fn square_equals(&self, r: &Self) -> Result<(), SynthesisError> { self.square()?.enforce_equal(r) }
    fn inverse(&self) -> Result<Self, SynthesisError> {
        let v = self.value().ok();
        enforce(&self.cs(), "inverse of zero", &self.ids(), v.map(|v| !v.is_zero()))?;
        Ok(self.ideal1("inverse", |a| a.inverse().unwrap_or(F::zero())))
    }
    fn mul_by_inverse(&self, d: &Self) -> Result<Self, SynthesisError> { Ok(d.inverse()? * self) }
    fn frobenius_map(&self, p: usize) -> Result<Self, SynthesisError> { Ok(self.ideal1("frobenius", |mut a| { a.frobenius_map(p); a })) }
    fn pow_by_constant<S: AsRef<[u64]>>(&self, e: S) -> Result<Self, SynthesisError> { let n: Vec<u64> = e.as_ref().to_vec(); let _ = BitIteratorBE::new(&n); Ok(self.ideal1("pow", |a| a.pow(&n))) }
    fn pow_le(&self, e: &[Boolean<CF>]) -> Result<Self, SynthesisError> { let mut r = Self::one(); let mut p = self.clone(); for b in e { let m = r.clone() * &p; r = b.select(&m, &r)?; p.square_in_place()?; } Ok(r) }
}
/// Operators and the shared traits for an ideal field variable.
#[macro_export]
macro_rules! ideal_field_ops { ([$($g:tt)*] $t:ty, $f:ty, $cf:ty) => {
    impl<'a, $($g)*> FieldOpsBounds<'a, $f, $t> for $t {}
    impl<'a, $($g)*> FieldOpsBounds<'a, $f, $t> for &'a $t {}
    $crate::ideal_field_ops!(@ [$($g)*] $t, $f, $cf; Add add AddAssign add_assign "add" +);
    $crate::ideal_field_ops!(@ [$($g)*] $t, $f, $cf; Sub sub SubAssign sub_assign "sub" -);
    $crate::ideal_field_ops!(@ [$($g)*] $t, $f, $cf; Mul mul MulAssign mul_assign "mul" *);
    impl<$($g)*> EqGadget<$cf> for $t {
        fn is_eq(&self, o: &Self) -> Result<Boolean<$cf>, SynthesisError> { let v = match (self.value(), o.value()) { (Ok(a), Ok(b)) => Some(a == b), _ => None }; let mut ids = self.ids(); ids.extend(o.ids()); Ok(Boolean::ideal(&self.cs().or(o.cs()), "is_eq", &ids, v)) }
        fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<$cf>) -> Result<(), SynthesisError> {
            let ok = match (self.value(), o.value(), c.value()) { (Ok(a), Ok(b), Ok(c)) => Some(!c || a == b), _ => None };
            let mut ids = self.ids(); ids.extend(o.ids()); ids.push(c.id());
            $crate::enforce(&self.cs().or(o.cs()).or(c.cs()), "equality", &ids, ok)
        }
        fn conditional_enforce_not_equal(&self, o: &Self, c: &Boolean<$cf>) -> Result<(), SynthesisError> {
            let ok = match (self.value(), o.value(), c.value()) { (Ok(a), Ok(b), Ok(c)) => Some(!c || a != b), _ => None };
            let mut ids = self.ids(); ids.extend(o.ids()); ids.push(c.id());
            $crate::enforce(&self.cs().or(o.cs()).or(c.cs()), "inequality", &ids, ok)
        }
    }
    impl<$($g)*> CondSelectGadget<$cf> for $t {
        fn conditionally_select(c: &Boolean<$cf>, t: &Self, f: &Self) -> Result<Self, SynthesisError> {
            if let Boolean::Constant(c) = c { return Ok(if *c { t.clone() } else { f.clone() }); }
            let v = match (c.value(), t.value(), f.value()) { (Ok(c), Ok(t), Ok(f)) => Some(if c { t } else { f }), _ => None };
            let mut ids = vec![c.id()]; ids.extend(t.ids()); ids.extend(f.ids());
            Ok(<Self as FieldVar<$f, $cf>>::ideal(&c.cs(), "select", &ids, v))
        }
    }
    impl<$($g)*> From<Boolean<$cf>> for $t { fn from(b: Boolean<$cf>) -> Self { <Self as FieldVar<$f, $cf>>::ideal(&b.cs(), "from_bool", &[b.id()], b.value().ok().map(|b| <$f>::from(b))) } }
};
(@ [$($g:tt)*] $t:ty, $f:ty, $cf:ty; $tr:ident $m:ident $tra:ident $ma:ident $n:literal $o:tt) => {
    impl<'a, $($g)*> $tr<&'a $t> for &'a $t { type Output = $t; fn $m(self, o: &'a $t) -> $t { self.ideal2(o, $n, |a, b| a $o b) } }
    impl<'a, $($g)*> $tr<$t> for &'a $t { type Output = $t; fn $m(self, o: $t) -> $t { self.ideal2(&o, $n, |a, b| a $o b) } }
    impl<'a, $($g)*> $tr<&'a $t> for $t { type Output = $t; fn $m(self, o: &'a $t) -> $t { self.ideal2(o, $n, |a, b| a $o b) } }
    impl<$($g)*> $tr<$t> for $t { type Output = $t; fn $m(self, o: $t) -> $t { self.ideal2(&o, $n, |a, b| a $o b) } }
    impl<'a, $($g)*> $tr<$f> for &'a $t { type Output = $t; fn $m(self, o: $f) -> $t { self.ideal2(&<$t as FieldVar<$f, $cf>>::constant(o), $n, |a, b| a $o b) } }
    impl<$($g)*> $tr<$f> for $t { type Output = $t; fn $m(self, o: $f) -> $t { self.ideal2(&<$t as FieldVar<$f, $cf>>::constant(o), $n, |a, b| a $o b) } }
    impl<'a, $($g)*> $tra<&'a $t> for $t { fn $ma(&mut self, o: &'a $t) { *self = self.ideal2(o, $n, |a, b| a $o b) } }
    impl<$($g)*> $tra<$t> for $t { fn $ma(&mut self, o: $t) { *self = self.ideal2(&o, $n, |a, b| a $o b) } }
    impl<$($g)*> $tra<$f> for $t { fn $ma(&mut self, o: $f) { *self = self.ideal2(&<$t as FieldVar<$f, $cf>>::constant(o), $n, |a, b| a $o b) } }
} }
pub(crate) fn val_id<F: Field>(v: &F) -> u64 { let mut b = vec![]; v.write(&mut b).unwrap(); b.chunks(8).fold(11, |h, c| { let mut x = [0; 8]; x[..c.len()].copy_from_slice(c); ark_relations::r1cs::mix(h, u64::from_le_bytes(x)) }) }
