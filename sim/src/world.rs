//! Key pool, formal signatures and encodings known to the simulator (the ground truth).
use crate::core::hash as h64;
use crate::refimpl;
use crate::rng::Rng;
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use ark_serialize::CanonicalSerialize;
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub type G1 = ark_bls12_377::G1Projective;
pub type G2 = ark_bls12_377::G2Projective;
pub use ark_bls12_377::{Fq, Fq2, Fr};
pub fn fr(seed: u64) -> Fr { Fr::rand(&mut Rng::new(seed ^ 0x5ca1a7)) }
pub fn g1() -> G1 { G1::prime_subgroup_generator() }
pub fn g2() -> G2 { G2::prime_subgroup_generator() }
pub fn m1(p: &G1, s: &Fr) -> G1 { p.mul(s.into_repr()) }
pub fn m2(p: &G2, s: &Fr) -> G2 { p.mul(s.into_repr()) }

pub const NK: usize = 24;
pub struct Pool { pub sk: Vec<Fr>, pub pk: Vec<G2>, pub many: Vec<G2>, pub many_enc: Vec<Vec<u8>>, pub omega: Fq, pub lambda: Fr }
static POOL: OnceLock<Pool> = OnceLock::new();
pub fn pool() -> &'static Pool {
    POOL.get_or_init(|| {
        let sk: Vec<Fr> = (0..NK as u64).map(|i| fr(1000 + i)).collect();
        let pk: Vec<G2> = sk.iter().map(|s| m2(&g2(), s).into_affine().into_projective()).collect();
        let base = m2(&g2(), &fr(77));
        let mut p = base; let mut many = vec![];
        for _ in 0..760 { many.push(p); p += base; }
        let many: Vec<G2> = G2::batch_normalization_into_affine(&many).into_iter().map(|a| a.into_projective()).collect();
        let many_enc = many.iter().map(|k| enc2(k)).collect();
        // cube roots of unity giving the endomorphism (x, y) -> (omega x, y)
        let cube = |q: Fq| q; let _ = cube;
        let mut t = 2u64; let omega = loop { let e = div3(&modulus_minus1_fq()); let w = Fq::from(t).pow(e); if !w.is_one() { break w; } t += 1; };
        let mut t = 2u64; let lam = loop { let e = div3(&modulus_minus1_fr()); let w = Fr::from(t).pow(e); if !w.is_one() { break w; } t += 1; };
        let a = g2().into_affine();
        let endo = |w: Fq| { let mut x = a.x; x.c0 *= w; x.c1 *= w; ark_bls12_377::G2Affine::new(x, a.y, false).into_projective() };
        let target = m2(&g2(), &lam);
        let omega = if endo(omega) == target { omega } else { assert!(endo(omega.square()) == target); omega.square() };
        Pool { sk, pk, many, many_enc, omega, lambda: lam }
    })
}
fn modulus_minus1_fq() -> Vec<u64> { use ark_ff::FpParameters; let mut m = <Fq as PrimeField>::Params::MODULUS.as_ref().to_vec(); m[0] -= 1; m }
fn modulus_minus1_fr() -> Vec<u64> { use ark_ff::FpParameters; let mut m = <Fr as PrimeField>::Params::MODULUS.as_ref().to_vec(); m[0] -= 1; m }
fn div3(v: &[u64]) -> Vec<u64> { let mut o = vec![0; v.len()]; let mut r = 0u128; for i in (0..v.len()).rev() { let c = r << 64 | v[i] as u128; o[i] = (c / 3) as u64; r = c % 3; } assert_eq!(r, 0); o }
/// Same key, different projective coordinates.
pub fn rescale(p: &G2, r: u64) -> G2 { if r == 0 { return *p; } let mut q = *p; let z = Fq2::new(Fq::from(r + 1), Fq::from(3 * r)); let z2 = z.square(); q.x *= z2; q.y *= z2 * z; q.z *= z; q }
pub fn rescale1(p: &G1, r: u64) -> G1 { if r == 0 { return *p; } let mut q = *p; let z = Fq::from(r + 1); let z2 = z.square(); q.x *= z2; q.y *= z2 * z; q.z *= z; q }
pub fn endo(p: &G2) -> G2 { let mut q = *p; let w = pool().omega; q.x.c0 *= w; q.x.c1 *= w; q }
/// Key families around a pool key: itself, its negation, a distinct key with the same y, the identity.
pub fn key(spec: u64) -> (G2, Fr) {
    let p = pool(); let i = (spec & 0xff) as usize % NK; let fam = spec >> 8 & 0xff; let r = spec >> 16 & 0xff;
    let (k, s) = match fam { 1 => (-p.pk[i], -p.sk[i]), 2 => (endo(&p.pk[i]), p.sk[i] * p.lambda), 3 => (G2::zero(), Fr::zero()), 4 => (-endo(&p.pk[i]), -p.sk[i] * p.lambda), _ => (p.pk[i], p.sk[i]) };
    (rescale(&k, r), s)
}
pub fn enc2(k: &G2) -> Vec<u8> { let mut v = vec![]; k.into_affine().serialize(&mut v).unwrap(); v }
pub fn enc1(k: &G1) -> Vec<u8> { let mut v = vec![]; k.into_affine().serialize(&mut v).unwrap(); v }
pub fn enc2u(k: &G2) -> Vec<u8> { let mut v = vec![]; k.into_affine().serialize_uncompressed(&mut v).unwrap(); v }
pub fn enc1u(k: &G1) -> Vec<u8> { let mut v = vec![]; k.into_affine().serialize_uncompressed(&mut v).unwrap(); v }
pub fn encf(k: &Fr) -> Vec<u8> { let mut v = vec![]; k.serialize(&mut v).unwrap(); v }
/// Formal signature: coefficients over hash points (0 = the G1 generator).
pub type Form = BTreeMap<u64, Fr>;
#[derive(Default)]
pub struct Book { pub pts: BTreeMap<u64, G1>, pub memo: BTreeMap<u64, Option<(u64, usize)>> }
impl Book {
    pub fn new() -> Self { let mut b = Book::default(); b.pts.insert(0, g1()); b }
    /// Identifier of the hash point of a message under the reference implementation.
    pub fn id(&mut self, mode: u64, domain: &[u8], msg: &[u8], extra: &[u8]) -> Option<(u64, usize)> {
        let mut k = vec![mode as u8]; k.extend(domain); k.extend((msg.len() as u32).to_le_bytes()); k.extend(msg); k.extend(extra);
        let key = h64(&k);
        if let Some(r) = self.memo.get(&key) { return *r; }
        let r = refimpl::hash(mode, domain, msg, extra).map(|(p, c)| { let id = h64(&enc1(&p)) | 1; self.pts.insert(id, p); (id, c) });
        self.memo.insert(key, r); r
    }
    pub fn point(&self, f: &Form) -> G1 { let mut a = G1::zero(); for (k, c) in f { if c.is_zero() { continue; } let p = &self.pts[k]; if c.is_one() { a += p; } else { a += &m1(p, c); } } a }
}
pub fn norm(mut f: Form) -> Form { f.retain(|_, c| !c.is_zero()); f }
pub fn fadd(a: &Form, b: &Form) -> Form { let mut r = a.clone(); for (k, c) in b { let e = r.entry(*k).or_insert_with(Fr::zero); *e += c; } norm(r) }
pub fn fscale(a: &Form, s: &Fr) -> Form { norm(a.iter().map(|(k, c)| (*k, *c * s)).collect()) }
pub fn fone(id: u64, s: &Fr) -> Form { let mut f = Form::new(); if !s.is_zero() { f.insert(id, *s); } f }
