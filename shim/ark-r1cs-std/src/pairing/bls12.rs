use crate::{fields::{opaque::OpaqueVar, FieldVar}, groups::bls12::{G1PreparedVar, G1Var, G2PreparedVar, G2Var}, prelude::*};
use ark_ec::{bls12::{Bls12, Bls12Parameters, G1Projective, G2Projective}, PairingEngine, ProjectiveCurve};
use ark_ff::{One, Zero};
use ark_relations::r1cs::{ConstraintSystemRef, SynthesisError};
use std::marker::PhantomData;
pub struct PairingVar<P: Bls12Parameters>(PhantomData<P>);
type Gt<P> = <Bls12<P> as PairingEngine>::Fqk;
impl<P: Bls12Parameters> super::PairingVar<Bls12<P>, P::Fp> for PairingVar<P> {
    type G1Var = G1Var<P>; type G2Var = G2Var<P>; type GTVar = OpaqueVar<Gt<P>, P::Fp>; type G1PreparedVar = G1PreparedVar<P>; type G2PreparedVar = G2PreparedVar<P>;
    fn miller_loop(p: &[G1PreparedVar<P>], q: &[G2PreparedVar<P>]) -> Result<Self::GTVar, SynthesisError> {
        let mut cs = ConstraintSystemRef::None; let mut ids = vec![]; let mut acc = vec![]; let mut garbage = 0; let mut known = true;
        for (p, q) in p.iter().zip(q) {
            cs = cs.or(p.cs()).or(q.cs()); ids.extend(p.0.ids()); ids.extend(q.0.ids());
            match (p.point(), q.point()) {
                (Ok(a), Ok(b)) => if a.is_zero() || b.is_zero() { garbage += 1 } else { acc.push((a.into_affine().into(), b.into_affine().into())) },
                _ => known = false,
            }
        }
        // The in-circuit loop has no special case for the point at infinity: its output is then unrelated to the pairing.
        let value = if known {
            let mut m = Bls12::<P>::miller_loop(acc.iter());
            for _ in 0..garbage { m *= Bls12::<P>::miller_loop(std::iter::once(&(G1Projective::<P>::prime_subgroup_generator().into_affine().into(), G2Projective::<P>::prime_subgroup_generator().into_affine().into()))); }
            Some(m)
        } else { None };
        Ok(OpaqueVar::ideal(&cs, "miller loop", &ids, value))
    }
    fn final_exponentiation(p: &Self::GTVar) -> Result<Self::GTVar, SynthesisError> {
        Ok(OpaqueVar::ideal(&p.cs(), "final exponentiation", &p.ids(), p.value().ok().map(|v| Bls12::<P>::final_exponentiation(&v).unwrap_or(Gt::<P>::one()))))
    }
    fn prepare_g1(q: &G1Var<P>) -> Result<G1PreparedVar<P>, SynthesisError> { G1PreparedVar::from_group_var(q) }
    fn prepare_g2(q: &G2Var<P>) -> Result<G2PreparedVar<P>, SynthesisError> { G2PreparedVar::from_group_var(q) }
}
