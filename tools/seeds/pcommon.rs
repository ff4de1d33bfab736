use ark_bls12_377::{constraints::{G1Var, G2Var, PairingVar}, Bls12_377, Fq, Fr, G1Projective as G1, G2Projective as G2};
use ark_bw6_761::BW6_761;
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use ark_r1cs_std::{alloc::{AllocVar, AllocationMode}, boolean::Boolean, fields::fp::FpVar, groups::CurveVar, uint8::UInt8, R1CSVar};
use ark_relations::{r1cs::{ConstraintSynthesizer, ConstraintSystem, ConstraintSystemRef, SynthesisError, SynthesisMode}, sim::{self, Kind, Override}};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bls_crypto::{PublicKey, Signature, Hasher};
use bls_gadgets::*;
use epoch_snark::*;
use rand::SeedableRng;
use std::panic::{catch_unwind, AssertUnwindSafe};
type Cs = ConstraintSystemRef<Fq>;
type Gad = BlsVerifyGadget<Bls12_377, Fq, PairingVar>;
const PAD: u64 = u64::MAX;
fn fr(i: u64) -> Fr { Fr::rand(&mut rand_chacha::ChaChaRng::seed_from_u64(i)) }
fn sk(i: u64) -> Fr { if i == PAD { Fr::one() } else { fr(i) } }
fn pk(i: u64) -> G2 { G2::prime_subgroup_generator().mul(sk(i).into_repr()).into_affine().into_projective() }
fn need(ok: bool, what: &str) { if !ok { eprintln!("BROKEN: {}", what); std::process::exit(1); } }
fn ser<T: CanonicalSerialize>(t: &T) -> Vec<u8> { let mut v = vec![]; t.serialize(&mut v).unwrap(); v }
#[derive(Clone)]
struct B { index: u16, ent: Option<u8>, par: Option<u8>, mns: u32, keys: Vec<u64> }
fn blk(index: u16, ent: Option<u8>, par: Option<u8>, mns: u32, keys: &[u64]) -> B { B { index, ent, par, mns, keys: keys.to_vec() } }
fn e16(e: Option<u8>) -> Option<Vec<u8>> { e.map(|x| vec![x; 16]) }
fn nat(b: &B) -> EpochBlock { EpochBlock::new(b.index, 0, e16(b.ent), e16(b.par), b.mns, b.keys.len(), b.keys.iter().map(|k| PublicKey::from(pk(*k))).collect()) }
#[derive(Clone)]
struct U { b: B, bits: Vec<bool>, share: G1 }
/// `b`, signed by the members of `prev` marked in `bits`.
fn upd(b: &B, prev: &B, bits: &[bool]) -> U { let k = prev.keys.iter().zip(bits).filter(|x| *x.1).fold(Fr::zero(), |a, x| a + sk(*x.0)); U { share: nat(b).hash_to_g1_cip22().unwrap().mul(k.into_repr()), b: b.clone(), bits: bits.to_vec() } }
fn dummy(keys: &[u64], bits: &[bool]) -> U { U { b: blk(0, None, None, 0, keys), bits: bits.to_vec(), share: G1::prime_subgroup_generator() } }
fn circ(init: &B, us: &[U]) -> ValidatorSetUpdate<Bls12_377> {
    let mut c = ValidatorSetUpdate::<Bls12_377>::empty(init.keys.len(), us.len(), 0, None);
    macro_rules! fill { ($d:expr, $b:expr) => {{ let (d, b) = (&mut $d, $b); d.index = Some(b.index); d.round = Some(0); d.epoch_entropy = e16(b.ent); d.parent_entropy = e16(b.par); d.maximum_non_signers = b.mns; d.public_keys = b.keys.iter().map(|k| Some(pk(*k))).collect(); }} }
    fill!(c.initial_epoch, init);
    for (i, u) in us.iter().enumerate() { fill!(c.epochs[i].epoch_data, &u.b); c.epochs[i].signed_bitmap = u.bits.iter().map(|b| Some(*b)).collect(); }
    c.aggregated_signature = Some(us.iter().fold(G1::zero(), |a, u| a + u.share));
    c
}
/// Runs `f` on a fresh constraint system with some witnesses replaced by a dishonest prover.
fn run<T>(over: Vec<Override>, f: &dyn Fn(&Cs) -> Result<T, SynthesisError>) -> (bool, Option<T>, sim::Sim) {
    let cs = ConstraintSystem::<Fq>::new_ref(); sim::disarm();
    sim::arm(over);
    let r = catch_unwind(AssertUnwindSafe(|| f(&cs)));
    let s = sim::disarm();
    match r { Ok(Ok(t)) => (cs.is_satisfied().unwrap_or(false), Some(t), s), _ => (false, None, s) }
}
fn sat(init: &B, us: &[U]) -> bool { run(vec![], &|cs| circ(init, us).generate_constraints(cs.clone())).0 }
/// Does any dishonest replacement of one witness of a kind make the constraints hold (and `bad` come out)?
fn attack<T>(kind: Kind, hows: &[u64], args: &[u64], f: &dyn Fn(&Cs) -> Result<T, SynthesisError>, bad: &dyn Fn(&T) -> bool) -> bool {
    let log = run(vec![], f).2.log;
    for at in (0..log.len()).filter(|i| std::mem::discriminant(&log[*i]) == std::mem::discriminant(&kind)) { for h in hows { for a in args { let (ok, t, _) = run(vec![Override { at, how: *h, arg: vec![*a] }], f); if ok && t.map_or(false, |t| bad(&t)) { return true; } } } }
    false
}
fn g1(cs: &Cs, p: G1) -> Result<G1Var, SynthesisError> { G1Var::new_variable_omit_prime_order_check(cs.clone(), || Ok(p), AllocationMode::Witness) }
fn g2(cs: &Cs, p: G2) -> Result<G2Var, SynthesisError> { G2Var::new_variable_omit_prime_order_check(cs.clone(), || Ok(p), AllocationMode::Witness) }
fn trans(u: &U) -> EpochTransition { EpochTransition { block: nat(&u.b), aggregate_signature: Signature::from(u.share), bitmap: u.bits.clone() } }
fn params(n: usize, m: usize, helper: bool) -> Parameters<BW6_761, Bls12_377> { match catch_unwind(AssertUnwindSafe(|| trusted_setup(n, m, 1, &mut rand_chacha::ChaChaRng::seed_from_u64(5), helper).unwrap())) { Ok(p) => p, Err(_) => { need(false, "no parameters"); unreachable!() } } }
type Prf = ark_groth16::Proof<BW6_761>;
fn mk(p: &Parameters<BW6_761, Bls12_377>, init: &B, us: &[U], m: usize) -> Option<Prf> { let t: Vec<_> = us.iter().map(trans).collect(); catch_unwind(AssertUnwindSafe(|| prove(p, init.keys.len() as u32, &nat(init), &t, m).ok())).ok().flatten() }
fn ver(p: &Parameters<BW6_761, Bls12_377>, f: &B, l: &B, x: &Prf) -> bool { verify(&p.epochs.vk, &nat(f), &nat(l), x).is_ok() }
fn half() -> Fq { Fq::from_repr(Fq::modulus_minus_one_div_two()).unwrap() }
fn quiet() { std::panic::set_hook(Box::new(|_| {})) }
