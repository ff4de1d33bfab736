//! Stand-in for ark-groth16: the real verification equation, with parameters whose trapdoor is kept so that a
//! proof can be simulated for a satisfied circuit of the right structure (and only then).
#![allow(clippy::all)]
use ark_ec::{AffineCurve, PairingEngine, ProjectiveCurve};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use ark_relations::r1cs::{mix, ConstraintSynthesizer, ConstraintSystem, SynthesisError, SynthesisMode};
use ark_serialize::*;
use rand::{Rng, SeedableRng};
use std::cell::RefCell;
pub mod constraints;
type R<T> = Result<T, SynthesisError>;
#[derive(CanonicalSerialize, CanonicalDeserialize, Clone, Debug, PartialEq)]
pub struct Proof<E: PairingEngine> { pub a: E::G1Affine, pub b: E::G2Affine, pub c: E::G1Affine }
impl<E: PairingEngine> Default for Proof<E> { fn default() -> Self { Self { a: Default::default(), b: Default::default(), c: Default::default() } } }
#[derive(CanonicalSerialize, CanonicalDeserialize, Clone, Debug, PartialEq)]
pub struct VerifyingKey<E: PairingEngine> { pub alpha_g1: E::G1Affine, pub beta_g2: E::G2Affine, pub gamma_g2: E::G2Affine, pub delta_g2: E::G2Affine, pub gamma_abc_g1: Vec<E::G1Affine> }
impl<E: PairingEngine> Default for VerifyingKey<E> { fn default() -> Self { Self { alpha_g1: Default::default(), beta_g2: Default::default(), gamma_g2: Default::default(), delta_g2: Default::default(), gamma_abc_g1: vec![] } } }
#[derive(Clone, Debug)]
pub struct ProvingKey<E: PairingEngine> { pub vk: VerifyingKey<E>, trapdoor: [E::Fr; 4], abc: Vec<E::Fr>, shape: u64 }
impl<E: PairingEngine> PartialEq for ProvingKey<E> { fn eq(&self, o: &Self) -> bool { self.vk == o.vk && self.shape == o.shape } }
#[derive(Clone, Debug)]
pub struct PreparedVerifyingKey<E: PairingEngine> { pub vk: VerifyingKey<E>, pub alpha_g1_beta_g2: E::Fqk, gamma_g2_neg_pc: E::G2Prepared, delta_g2_neg_pc: E::G2Prepared }
/// What the last synthesis in this thread looked like.
#[derive(Clone, Debug, Default)]
pub struct Synthesis { pub satisfied: bool, pub bad: Option<String>, pub shape: u64, pub expected_shape: u64, pub constraints: usize, pub inputs: usize }
thread_local! { static LOG: RefCell<Vec<Synthesis>> = RefCell::new(vec![]); }
/// Takes the record of the circuits synthesised for proofs in this thread.
pub fn take_log() -> Vec<Synthesis> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }
fn g<C: ProjectiveCurve>(k: C::ScalarField) -> C::Affine { C::prime_subgroup_generator().mul(k.into_repr()).into_affine() }
pub fn generate_random_parameters<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>, T: Rng>(circuit: C, rng: &mut T) -> R<ProvingKey<E>> {
    let cs = ConstraintSystem::new_ref();
    cs.set_mode(SynthesisMode::Setup);
    circuit.generate_constraints(cs.clone())?;
    let (n, shape) = { let c = cs.borrow().unwrap(); (c.num_instance_variables, c.shape) };
    let trapdoor = [E::Fr::rand(rng), E::Fr::rand(rng), E::Fr::rand(rng), E::Fr::rand(rng)];
    let abc: Vec<E::Fr> = (0..n).map(|_| E::Fr::rand(rng)).collect();
    let vk = VerifyingKey { alpha_g1: g::<E::G1Projective>(trapdoor[0]), beta_g2: g::<E::G2Projective>(trapdoor[1]), gamma_g2: g::<E::G2Projective>(trapdoor[2]), delta_g2: g::<E::G2Projective>(trapdoor[3]), gamma_abc_g1: abc.iter().map(|k| g::<E::G1Projective>(*k)).collect() };
    Ok(ProvingKey { vk, trapdoor, abc, shape })
}
pub fn create_random_proof<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>, T: Rng>(circuit: C, pk: &ProvingKey<E>, rng: &mut T) -> R<Proof<E>> { let s = rng.gen(); prove(circuit, pk, s) }
pub fn create_proof_no_zk<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>>(circuit: C, pk: &ProvingKey<E>) -> R<Proof<E>> { prove(circuit, pk, 0) }
fn prove<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>>(circuit: C, pk: &ProvingKey<E>, salt: u64) -> R<Proof<E>> {
    let cs = ConstraintSystem::new_ref();
    cs.set_mode(SynthesisMode::Prove { construct_matrices: true });
    circuit.generate_constraints(cs.clone())?;
    let (bad, shape, inputs, constraints) = { let c = cs.borrow().unwrap(); (c.bad.clone(), c.shape, c.instance_assignment.clone(), c.num_constraints) };
    LOG.with(|l| l.borrow_mut().push(Synthesis { satisfied: bad.is_none(), bad: bad.clone(), shape, expected_shape: pk.shape, constraints, inputs: inputs.len() }));
    let mut h = mix(shape, salt);
    for i in &inputs { for w in i.into_repr().as_ref() { h = mix(h, *w); } }
    let mut rng = rand::rngs::StdRng::seed_from_u64(h);
    let (a, b) = (E::Fr::rand(&mut rng), E::Fr::rand(&mut rng));
    let [alpha, beta, gamma, delta] = pk.trapdoor;
    let ic = inputs.iter().zip(&pk.abc).fold(E::Fr::zero(), |s, (x, k)| s + *x * k);
    let mut c = (a * b - alpha * beta - gamma * ic) * delta.inverse().unwrap();
    if bad.is_some() || shape != pk.shape || inputs.len() != pk.abc.len() { c += E::Fr::one(); }
    Ok(Proof { a: g::<E::G1Projective>(a), b: g::<E::G2Projective>(b), c: g::<E::G1Projective>(c) })
}
pub fn prepare_verifying_key<E: PairingEngine>(vk: &VerifyingKey<E>) -> PreparedVerifyingKey<E> {
    PreparedVerifyingKey { vk: vk.clone(), alpha_g1_beta_g2: E::pairing(vk.alpha_g1, vk.beta_g2), gamma_g2_neg_pc: (-vk.gamma_g2).into(), delta_g2_neg_pc: (-vk.delta_g2).into() }
}
pub fn verify_proof<E: PairingEngine>(pvk: &PreparedVerifyingKey<E>, proof: &Proof<E>, public_inputs: &[E::Fr]) -> R<bool> {
    if public_inputs.len() + 1 != pvk.vk.gamma_abc_g1.len() { return Err(SynthesisError::MalformedVerifyingKey); }
    let mut ic = pvk.vk.gamma_abc_g1[0].into_projective();
    for (i, b) in public_inputs.iter().zip(pvk.vk.gamma_abc_g1.iter().skip(1)) { ic += &b.into_projective().mul(i.into_repr()); }
    let q = E::miller_loop([(proof.a.into(), proof.b.into()), (ic.into_affine().into(), pvk.gamma_g2_neg_pc.clone()), (proof.c.into(), pvk.delta_g2_neg_pc.clone())].iter());
    Ok(E::final_exponentiation(&q).ok_or(SynthesisError::UnexpectedIdentity)? == pvk.alpha_g1_beta_g2)
}
pub struct Groth16<E: PairingEngine>(std::marker::PhantomData<fn() -> E>);
impl<E: PairingEngine> ark_crypto_primitives::snark::SNARK<E::Fr> for Groth16<E> { type ProvingKey = ProvingKey<E>; type VerifyingKey = VerifyingKey<E>; type Proof = Proof<E>; type ProcessedVerifyingKey = PreparedVerifyingKey<E>; }
