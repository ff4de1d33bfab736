pub mod short_weierstrass_jacobian;
pub mod twisted_edwards_extended;
pub mod bls12;
use ark_ff::{Field, PrimeField, SquareRootField, Zero};
pub trait ModelParameters: Send + Sync + Sized + 'static {
    type BaseField: Field + SquareRootField;
    type ScalarField: PrimeField + SquareRootField + Into<<Self::ScalarField as PrimeField>::BigInt>;
}
pub trait SWModelParameters: ModelParameters {
    const COFACTOR: &'static [u64];
    fn coeff_a() -> Self::BaseField { Self::BaseField::zero() }
    fn coeff_b() -> Self::BaseField;
    fn generator() -> (Self::BaseField, Self::BaseField);
    fn mul_by_a(e: &Self::BaseField) -> Self::BaseField { Self::coeff_a() * e }
    fn add_b(e: &Self::BaseField) -> Self::BaseField { Self::coeff_b() + e }
}
pub trait TEModelParameters: ModelParameters {
    const COFACTOR: &'static [u64];
    fn coeff_a() -> Self::BaseField;
    fn coeff_d() -> Self::BaseField;
    fn generator() -> (Self::BaseField, Self::BaseField);
    fn mul_by_a(e: &Self::BaseField) -> Self::BaseField { Self::coeff_a() * e }
}
