use crate::{fields::FieldVar, groups::CurveVar, prelude::*};
use ark_ec::PairingEngine;
use ark_ff::Field;
use ark_relations::r1cs::SynthesisError;
use std::fmt::Debug;
pub mod bls12;
pub trait PairingVar<E: PairingEngine, CF: Field = <E as PairingEngine>::Fq> {
    type G1Var: CurveVar<E::G1Projective, CF> + AllocVar<E::G1Projective, CF> + AllocVar<E::G1Affine, CF>;
    type G2Var: CurveVar<E::G2Projective, CF> + AllocVar<E::G2Projective, CF> + AllocVar<E::G2Affine, CF>;
    type GTVar: FieldVar<E::Fqk, CF>;
    type G1PreparedVar: Clone + Debug;
    type G2PreparedVar: Clone + Debug;
    fn miller_loop(p: &[Self::G1PreparedVar], q: &[Self::G2PreparedVar]) -> Result<Self::GTVar, SynthesisError>;
    fn final_exponentiation(p: &Self::GTVar) -> Result<Self::GTVar, SynthesisError>;
    fn pairing(p: Self::G1PreparedVar, q: Self::G2PreparedVar) -> Result<Self::GTVar, SynthesisError> { Self::product_of_pairings(&[p], &[q]) }
    fn product_of_pairings(p: &[Self::G1PreparedVar], q: &[Self::G2PreparedVar]) -> Result<Self::GTVar, SynthesisError> { let t = Self::miller_loop(p, q)?; Self::final_exponentiation(&t) }
    fn prepare_g1(q: &Self::G1Var) -> Result<Self::G1PreparedVar, SynthesisError>;
    fn prepare_g2(q: &Self::G2Var) -> Result<Self::G2PreparedVar, SynthesisError>;
}
