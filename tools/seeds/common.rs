use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bls_crypto::bls::{Batch, PrivateKey, PublicKey, PublicKeyCache, Signature};
use bls_crypto::hash_to_curve::{try_and_increment::*, try_and_increment_cip22::*, HashToCurve};
use bls_crypto::{BLSError, Hasher, POP_DOMAIN, SIG_DOMAIN};
use bls_snark_sys::{serialization as se, signatures as sg, snark::epoch_block as eb, utils as ut};
use epoch_snark::EpochBlock;
use rand::{Rng, SeedableRng};
type G1 = ark_bls12_377::G1Projective;
type G2 = ark_bls12_377::G2Projective;
type Fr = ark_bls12_377::Fr;
type Fq = ark_bls12_377::Fq;
type Fq2 = ark_bls12_377::Fq2;
fn fr(i: u64) -> Fr { Fr::rand(&mut rand_chacha::ChaChaRng::seed_from_u64(i)) }
fn sk(i: u64) -> PrivateKey { PrivateKey::from(fr(i)) }
fn pk(i: u64) -> PublicKey { let p: G2 = *sk(i).to_public().as_ref(); PublicKey::from(p.into_affine().into_projective()) }
fn ser<T: CanonicalSerialize>(t: &T) -> Vec<u8> { let mut v = vec![]; t.serialize(&mut v).unwrap(); v }
fn sum2(v: &[PublicKey]) -> PublicKey { let mut a = G2::zero(); for k in v { a += *k.as_ref(); } PublicKey::from(a) }
fn sum1(v: &[Signature]) -> Signature { let mut a = G1::zero(); for k in v { a += *k.as_ref(); } Signature::from(a) }
fn neg(s: &Signature) -> Signature { Signature::from(-*s.as_ref()) }
fn plus(s: &Signature, d: &Fr) -> Signature { Signature::from(*s.as_ref() + G1::prime_subgroup_generator().mul(d.into_repr())) }
fn minus(s: &Signature, d: &Fr) -> Signature { plus(s, &-*d) }
fn need(ok: bool, what: &str) { if !ok { eprintln!("BROKEN: {}", what); std::process::exit(1); } }
fn cver(k: &PublicKey, m: &[u8], e: &[u8], s: &Signature, c: bool, z: bool) -> (bool, bool) { let mut v = false; let r = sg::verify_signature(k, m.as_ptr(), m.len() as i32, e.as_ptr(), e.len() as i32, s, c, z, &mut v); (r, v) }
fn csign(k: &PrivateKey, m: &[u8], e: &[u8], c: bool, z: bool) -> Option<Signature> { let mut o: *mut Signature = std::ptr::null_mut(); if sg::sign_message(k, m.as_ptr(), m.len() as i32, e.as_ptr(), e.len() as i32, c, z, &mut o) { Some(unsafe { (*o).clone() }) } else { None } }
fn cagg(k: &[PublicKey]) -> PublicKey { let p: Vec<*const PublicKey> = k.iter().map(|k| k as *const _).collect(); let mut o: *mut PublicKey = std::ptr::null_mut(); need(sg::aggregate_public_keys(p.as_ptr(), p.len() as i32, &mut o), "aggregation failed"); *unsafe { Box::from_raw(o) } }
fn csub(a: &PublicKey, k: &[PublicKey]) -> PublicKey { let p: Vec<*const PublicKey> = k.iter().map(|k| k as *const _).collect(); let mut o: *mut PublicKey = std::ptr::null_mut(); need(sg::aggregate_public_keys_subtract(a, p.as_ptr(), p.len() as i32, &mut o), "subtraction failed"); *unsafe { Box::from_raw(o) } }
