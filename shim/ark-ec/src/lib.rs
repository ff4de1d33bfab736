//! Stand-in for ark-ec (0.2/0.3 style API): real curve arithmetic.
#![allow(clippy::all)]
pub mod models;
pub mod msm;
pub mod group;
pub use models::*;
use ark_ff::{Field, FromBytes, One, PrimeField, SquareRootField, ToBytes, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::ops::{Add, AddAssign, MulAssign, Neg, Sub, SubAssign};

pub trait AffineCurve: Eq + 'static + Sized + ToBytes + FromBytes + Copy + Clone + Default + Send + Sync + Hash + Debug + Display + Zero + Neg<Output = Self> + CanonicalSerialize + CanonicalDeserialize + From<Self::Projective> {
    const COFACTOR: &'static [u64];
    type ScalarField: PrimeField + SquareRootField + Into<<Self::ScalarField as PrimeField>::BigInt>;
    type BaseField: Field;
    type Projective: ProjectiveCurve<Affine = Self, ScalarField = Self::ScalarField, BaseField = Self::BaseField> + From<Self>;
    fn prime_subgroup_generator() -> Self;
    fn into_projective(&self) -> Self::Projective { (*self).into() }
    fn from_random_bytes(bytes: &[u8]) -> Option<Self>;
    fn mul<S: Into<<Self::ScalarField as PrimeField>::BigInt>>(&self, other: S) -> Self::Projective;
    fn mul_by_cofactor_to_projective(&self) -> Self::Projective;
    fn mul_by_cofactor(&self) -> Self { self.mul_by_cofactor_to_projective().into_affine() }
}
pub trait ProjectiveCurve: Eq + 'static + Sized + ToBytes + FromBytes + Copy + Clone + Default + Send + Sync + Hash + Debug + Display + UniformRand + Zero + Neg<Output = Self> + CanonicalSerialize + CanonicalDeserialize
    + Add<Self, Output = Self> + Sub<Self, Output = Self> + AddAssign<Self> + SubAssign<Self> + MulAssign<<Self as ProjectiveCurve>::ScalarField>
    + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self>
    + std::iter::Sum<Self> + for<'a> std::iter::Sum<&'a Self> + From<<Self as ProjectiveCurve>::Affine>
{
    const COFACTOR: &'static [u64];
    type ScalarField: PrimeField + SquareRootField;
    type BaseField: Field;
    type Affine: AffineCurve<Projective = Self, ScalarField = Self::ScalarField, BaseField = Self::BaseField> + From<Self>;
    fn prime_subgroup_generator() -> Self;
    fn batch_normalization(v: &mut [Self]);
    fn batch_normalization_into_affine(v: &[Self]) -> Vec<Self::Affine> { let mut v = v.to_vec(); Self::batch_normalization(&mut v); v.into_iter().map(|p| p.into()).collect() }
    fn is_normalized(&self) -> bool;
    fn double(&self) -> Self { let mut r = *self; r.double_in_place(); r }
    fn double_in_place(&mut self) -> &mut Self;
    fn into_affine(&self) -> Self::Affine { (*self).into() }
    fn add_mixed(mut self, other: &Self::Affine) -> Self { self.add_assign_mixed(other); self }
    fn add_assign_mixed(&mut self, other: &Self::Affine);
    fn mul<S: AsRef<[u64]>>(self, other: S) -> Self {
        let mut res = Self::zero();
        for b in ark_ff::BitIteratorBE::without_leading_zeros(other) { res.double_in_place(); if b { res += self; } }
        res
    }
}
pub trait PairingEngine: Sized + 'static + Copy + Debug + Sync + Send + Eq + PartialEq {
    type Fr: PrimeField + SquareRootField + Into<<Self::Fr as PrimeField>::BigInt>;
    type G1Projective: ProjectiveCurve<BaseField = Self::Fq, ScalarField = Self::Fr, Affine = Self::G1Affine> + From<Self::G1Affine> + Into<Self::G1Affine> + MulAssign<Self::Fr>;
    type G1Affine: AffineCurve<BaseField = Self::Fq, ScalarField = Self::Fr, Projective = Self::G1Projective> + From<Self::G1Projective> + Into<Self::G1Projective> + Into<Self::G1Prepared>;
    type G1Prepared: ToBytes + Default + Clone + Send + Sync + Debug + From<Self::G1Affine>;
    type G2Projective: ProjectiveCurve<BaseField = Self::Fqe, ScalarField = Self::Fr, Affine = Self::G2Affine> + From<Self::G2Affine> + Into<Self::G2Affine> + MulAssign<Self::Fr>;
    type G2Affine: AffineCurve<BaseField = Self::Fqe, ScalarField = Self::Fr, Projective = Self::G2Projective> + From<Self::G2Projective> + Into<Self::G2Projective> + Into<Self::G2Prepared>;
    type G2Prepared: ToBytes + Default + Clone + Send + Sync + Debug + From<Self::G2Affine>;
    type Fq: PrimeField + SquareRootField;
    type Fqe: SquareRootField;
    type Fqk: Field;
    fn miller_loop<'a, I>(i: I) -> Self::Fqk where I: IntoIterator<Item = &'a (Self::G1Prepared, Self::G2Prepared)>;
    fn final_exponentiation(f: &Self::Fqk) -> Option<Self::Fqk>;
    fn product_of_pairings<'a, I>(i: I) -> Self::Fqk where I: IntoIterator<Item = &'a (Self::G1Prepared, Self::G2Prepared)> {
        simhook::point(simhook::S_PAIRING);
        Self::final_exponentiation(&Self::miller_loop(i)).unwrap()
    }
    fn pairing<G1, G2>(p: G1, q: G2) -> Self::Fqk where G1: Into<Self::G1Affine>, G2: Into<Self::G2Affine> {
        let a = Self::G1Prepared::from(p.into()); let b = Self::G2Prepared::from(q.into());
        Self::product_of_pairings(std::iter::once(&(a, b)))
    }
}
#[allow(unused)] fn _t<F: Field + One>() {}
