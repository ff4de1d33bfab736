use ark_ff::{PrimeField, UniformRand, Zero};
use std::ops::{Add, AddAssign, MulAssign, Neg, Sub, SubAssign};
pub trait Group: Copy + Clone + std::fmt::Debug + Default + Send + Sync + 'static + Eq + UniformRand + Zero + Neg<Output = Self> + Add<Self, Output = Self> + Sub<Self, Output = Self> + AddAssign<Self> + SubAssign<Self> + for<'a> Add<&'a Self, Output = Self> + MulAssign<Self::ScalarField> {
    type ScalarField: PrimeField + Into<<Self::ScalarField as PrimeField>::BigInt>;
    #[must_use] fn double(&self) -> Self;
    fn double_in_place(&mut self) -> &mut Self;
    #[must_use] fn mul<'a>(&self, other: &'a Self::ScalarField) -> Self { let mut c = *self; c *= *other; c }
}
