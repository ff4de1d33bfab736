use crate::*;
use ark_crypto_primitives::snark::{BooleanInputVar, SNARKGadget};
use ark_ff::BigInteger;
use ark_r1cs_std::{bits::uint32::bit_ids, groups::CurveVar, pairing::PairingVar, prelude::*};
use ark_relations::r1cs::Namespace;
use std::borrow::Borrow;
use std::marker::PhantomData;
pub struct ProofVar<E: PairingEngine, P: PairingVar<E>> { pub a: P::G1Var, pub b: P::G2Var, pub c: P::G1Var, _e: PhantomData<fn() -> E> }
impl<E: PairingEngine, P: PairingVar<E>> Clone for ProofVar<E, P> { fn clone(&self) -> Self { Self { a: self.a.clone(), b: self.b.clone(), c: self.c.clone(), _e: PhantomData } } }
pub struct VerifyingKeyVar<E: PairingEngine, P: PairingVar<E>> { pub alpha_g1: P::G1Var, pub beta_g2: P::G2Var, pub gamma_g2: P::G2Var, pub delta_g2: P::G2Var, pub gamma_abc_g1: Vec<P::G1Var>, _e: PhantomData<fn() -> E> }
impl<E: PairingEngine, P: PairingVar<E>> Clone for VerifyingKeyVar<E, P> { fn clone(&self) -> Self { Self { alpha_g1: self.alpha_g1.clone(), beta_g2: self.beta_g2.clone(), gamma_g2: self.gamma_g2.clone(), delta_g2: self.delta_g2.clone(), gamma_abc_g1: self.gamma_abc_g1.clone(), _e: PhantomData } } }
impl<E: PairingEngine, P: PairingVar<E>> AllocVar<Proof<E>, E::Fq> for ProofVar<E, P> {
    fn new_variable<T: Borrow<Proof<E>>>(cs: impl Into<Namespace<E::Fq>>, f: impl FnOnce() -> R<T>, mode: AllocationMode) -> R<Self> {
        let cs = cs.into().cs(); let p = f()?; let p: Proof<E> = p.borrow().clone();
        Ok(Self {
            a: P::G1Var::new_variable_omit_prime_order_check(cs.clone(), || Ok(p.a.into_projective()), mode)?,
            b: P::G2Var::new_variable_omit_prime_order_check(cs.clone(), || Ok(p.b.into_projective()), mode)?,
            c: P::G1Var::new_variable_omit_prime_order_check(cs, || Ok(p.c.into_projective()), mode)?, _e: PhantomData,
        })
    }
}
impl<E: PairingEngine, P: PairingVar<E>> AllocVar<VerifyingKey<E>, E::Fq> for VerifyingKeyVar<E, P> {
    fn new_variable<T: Borrow<VerifyingKey<E>>>(cs: impl Into<Namespace<E::Fq>>, f: impl FnOnce() -> R<T>, mode: AllocationMode) -> R<Self> {
        let cs = cs.into().cs(); let v = f()?; let v: VerifyingKey<E> = v.borrow().clone();
        let a = |p: E::G1Affine| P::G1Var::new_variable_omit_prime_order_check(cs.clone(), || Ok(p.into_projective()), mode);
        let b = |p: E::G2Affine| P::G2Var::new_variable_omit_prime_order_check(cs.clone(), || Ok(p.into_projective()), mode);
        Ok(Self { alpha_g1: a(v.alpha_g1)?, beta_g2: b(v.beta_g2)?, gamma_g2: b(v.gamma_g2)?, delta_g2: b(v.delta_g2)?, gamma_abc_g1: v.gamma_abc_g1.iter().map(|p| a(*p)).collect::<R<_>>()?, _e: PhantomData })
    }
}
pub struct Groth16VerifierGadget<E: PairingEngine, P: PairingVar<E>>(PhantomData<fn() -> (E, P)>);
impl<E: PairingEngine, P: PairingVar<E>> SNARKGadget<E::Fr, E::Fq, Groth16<E>> for Groth16VerifierGadget<E, P> where E::Fq: PrimeField {
    type VerifyingKeyVar = VerifyingKeyVar<E, P>;
    type InputVar = BooleanInputVar<E::Fr, E::Fq>;
    type ProofVar = ProofVar<E, P>;
    fn verify(vk: &Self::VerifyingKeyVar, x: &Self::InputVar, proof: &Self::ProofVar) -> R<Boolean<E::Fq>> {
        let x: Vec<Vec<Boolean<E::Fq>>> = x.clone().into_iter().collect();
        assert!(x.len() + 1 == vk.gamma_abc_g1.len(), "number of public inputs of the inner proof");
        let mut cs = proof.a.cs(); let mut ids = vec![];
        for b in &x { cs = cs.or(b.cs()); ids.extend(bit_ids(b)); }
        let value = (|| -> R<bool> {
            let aff1 = |v: &P::G1Var| -> R<E::G1Affine> { Ok(v.value()?.into_affine()) }; let aff2 = |v: &P::G2Var| -> R<E::G2Affine> { Ok(v.value()?.into_affine()) };
            let k = VerifyingKey::<E> { alpha_g1: aff1(&vk.alpha_g1)?, beta_g2: aff2(&vk.beta_g2)?, gamma_g2: aff2(&vk.gamma_g2)?, delta_g2: aff2(&vk.delta_g2)?, gamma_abc_g1: vk.gamma_abc_g1.iter().map(aff1).collect::<R<_>>()? };
            let p = Proof::<E> { a: aff1(&proof.a)?, b: aff2(&proof.b)?, c: aff1(&proof.c)? };
            let mut inputs = vec![];
            for b in &x { inputs.push(E::Fr::from_repr(<E::Fr as PrimeField>::BigInt::from_bits_le(&b.value()?)).unwrap_or(E::Fr::zero())); }
            verify_proof(&prepare_verifying_key(&k), &p, &inputs)
        })().ok();
        Ok(Boolean::ideal(&cs, "groth16 verify", &ids, value))
    }
}
