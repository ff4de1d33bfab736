use super::ProjectiveVar;
use crate::{fields::{fp::FpVar, fp2::Fp2Var}, prelude::*};
use ark_ec::bls12::{Bls12Parameters, G1Prepared, G1Projective, G2Prepared, G2Projective};
use ark_ec::ProjectiveCurve;
use ark_relations::r1cs::{ConstraintSystemRef, SynthesisError};
pub type G1Var<P> = ProjectiveVar<<P as Bls12Parameters>::G1Parameters, FpVar<<P as Bls12Parameters>::Fp>>;
pub type G2Var<P> = ProjectiveVar<<P as Bls12Parameters>::G2Parameters, Fp2Var<<P as Bls12Parameters>::Fp2Params>>;
macro_rules! prepared { ($n:ident $v:ident $g:ident $p:ident) => {
    pub struct $n<P: Bls12Parameters>(pub(crate) $v<P>);
    impl<P: Bls12Parameters> Clone for $n<P> { fn clone(&self) -> Self { Self(self.0.clone()) } }
    impl<P: Bls12Parameters> std::fmt::Debug for $n<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, stringify!($n)) } }
    impl<P: Bls12Parameters> $n<P> {
        pub fn from_group_var(q: &$v<P>) -> Result<Self, SynthesisError> { Ok(Self(q.clone())) }
        pub fn cs(&self) -> ConstraintSystemRef<P::Fp> { self.0.cs() }
        pub(crate) fn point(&self) -> Result<$g<P>, SynthesisError> { self.0.value() }
        pub fn value(&self) -> Result<$p<P>, SynthesisError> { Ok(self.point()?.into_affine().into()) }
    }
} }
prepared!(G1PreparedVar G1Var G1Projective G1Prepared);
prepared!(G2PreparedVar G2Var G2Projective G2Prepared);
