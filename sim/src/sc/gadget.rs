//! The public gadgets of bls-gadgets, each against the native function it arithmetises, under an honest prover and
//! under a byzantine one who substitutes the gadget's internal witnesses.
use super::chain;
use crate::core::{hash, st, Cx, Scenario, Step};
use crate::rng::Rng;
use crate::world::{self, G1, G2};
use ark_bls12_377::constraints::{G1Var, G2Var, PairingVar};
use ark_bls12_377::{Bls12_377, Fq, Fr};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{Field, Fp2, One, PrimeField, Zero};
use ark_r1cs_std::alloc::{AllocVar, AllocationMode};
use ark_r1cs_std::boolean::Boolean;
use ark_r1cs_std::fields::fp::FpVar;
use ark_r1cs_std::groups::CurveVar;
use ark_r1cs_std::uint8::UInt8;
use ark_r1cs_std::R1CSVar;
use ark_relations::r1cs::{ConstraintSystem, ConstraintSystemRef, SynthesisError, SynthesisMode};
use ark_relations::sim::{self, Kind, Override, Sim};
use bls_crypto::hashers::{DirectHasher, Hasher, COMPOSITE_HASHER};
use bls_crypto::hash_to_curve::try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22;
use bls_gadgets::{hash_to_bits, BlsVerifyGadget, FpUtils, HashToGroupGadget, YToBitGadget};
use std::panic::{catch_unwind, AssertUnwindSafe};

type Cs = ConstraintSystemRef<Fq>;
type Gad = BlsVerifyGadget<Bls12_377, Fq, PairingVar>;
type R<T> = Result<T, SynthesisError>;
pub struct Gadgets;
/// One gadget on one input.
enum Job {
    Zero(Fq, bool), Norm(Fq, bool), Y1(G1), Y2(G2),
    Verify { keys: Vec<G2>, split: u64, bits: Vec<bool>, h: G1, sig: G1, mns: u64, pad: G2 },
    Batch { keys: Vec<G2>, hs: Vec<G1>, sig: G1, prepared: bool },
    Sum { keys: Vec<G2>, bits: Option<Vec<bool>>, pad: G2 },
    Bits { msg: Vec<u8>, len: u16, constrained: bool, personal: [u8; 8] },
    Hash { msg: Vec<u8>, extra: Vec<u8>, counter: u8, constrained: bool },
}
/// What a synthesis ended in: outputs (as bits or words), or nothing.
struct Done { out: Option<Vec<u64>>, ok: bool, why: String, sim: Sim, crashed: bool, shape: u64 }
fn half() -> Fq { Fq::from_repr(Fq::modulus_minus_one_div_two()).unwrap() }
fn special(kind: u64, arg: u64) -> Fq {
    match kind % 12 { 0 => Fq::zero(), 1 => Fq::one(), 2 => half(), 3 => half() + Fq::one(), 4 => half() - Fq::one(), 5 => -Fq::one(), 6 => Fq::from(arg), 7 => -Fq::from(arg), 8 => half() + Fq::from(arg % 100000), 9 => half() - Fq::from(arg % 100000), _ => { use ark_ff::UniformRand; Fq::rand(&mut Rng::new(arg ^ 0xf1e1d)) } }
}
fn g1v(cs: &Cs, p: G1) -> R<G1Var> { G1Var::new_variable_omit_prime_order_check(cs.clone(), || Ok(p), AllocationMode::Witness) }
fn g2v(cs: &Cs, p: G2) -> R<G2Var> { G2Var::new_variable_omit_prime_order_check(cs.clone(), || Ok(p), AllocationMode::Witness) }
fn bits_of(v: &[Boolean<Fq>]) -> R<Vec<u64>> { v.iter().map(|b| Ok(b.value()? as u64)).collect() }
fn limbs1(p: &G1) -> Vec<u64> { let a = p.into_affine(); if a.is_zero() { return vec![0]; } [a.x, a.y].iter().flat_map(|c| c.into_repr().as_ref().to_vec()).collect() }
fn limbs2(p: &G2) -> Vec<u64> { let a = p.into_affine(); if a.is_zero() { return vec![0]; } [a.x.c0, a.x.c1, a.y.c0, a.y.c1].iter().flat_map(|c| c.into_repr().as_ref().to_vec()).collect() }
fn bytes_var(cs: &Cs, b: &[u8]) -> R<Vec<UInt8<Fq>>> { b.iter().map(|x| UInt8::new_witness(cs.clone(), || Ok(*x))).collect() }
fn le_bits(b: &[u8]) -> Vec<u64> { b.iter().flat_map(|x| (0..8).map(move |i| (x >> i & 1) as u64)).collect() }
impl Job {
    /// Allocates the inputs, then arms the substitutions and runs the gadget. The output, if it has one.
    fn synth(&self, cs: &Cs, over: Vec<Override>) -> R<Vec<u64>> {
        let setup = cs.is_in_setup_mode();
        let val = |f: &dyn Fn() -> R<Vec<u64>>| -> R<Vec<u64>> { if setup { Ok(vec![]) } else { f() } };
        match self {
            Job::Zero(v, k) => { let x = if *k { FpVar::Constant(*v) } else { FpVar::new_witness(cs.clone(), || Ok(*v))? }; sim::arm(over); let b = x.is_eq_zero()?; val(&|| bits_of(&[b.clone()])) }
            Job::Norm(v, k) => { let x = if *k { FpVar::Constant(*v) } else { FpVar::new_witness(cs.clone(), || Ok(*v))? }; sim::arm(over); let b = x.normalize()?; val(&|| bits_of(&[b.clone()])) }
            Job::Y1(p) => { let p = g1v(cs, *p)?; sim::arm(over); let b = p.y_to_bit()?; val(&|| bits_of(&[b.clone()])) }
            Job::Y2(p) => { let p = g2v(cs, *p)?; sim::arm(over); let b = p.y_to_bit()?; val(&|| bits_of(&[b.clone()])) }
            Job::Verify { keys, split, bits, h, sig, mns, pad } => {
                let ks = keys.iter().enumerate().map(|(i, k)| if split >> (i % 64) & 1 == 1 { let r = world::pool().pk[i % world::NK]; Ok(g2v(cs, *k - r)? + g2v(cs, r)?) } else { g2v(cs, *k) }).collect::<R<Vec<_>>>()?;
                let bs = bits.iter().map(|b| Boolean::new_witness(cs.clone(), || Ok(*b))).collect::<R<Vec<_>>>()?;
                let (h, s, m) = (g1v(cs, *h)?, g1v(cs, *sig)?, FpVar::new_witness(cs.clone(), || Ok(Fq::from(*mns)))?);
                sim::arm(over);
                Gad::verify(&ks, &bs, &h, &s, &m, &G2Var::constant(*pad))?; Ok(vec![])
            }
            Job::Batch { keys, hs, sig, prepared } => {
                let ks = keys.iter().map(|k| g2v(cs, *k)).collect::<R<Vec<_>>>()?; let hs = hs.iter().map(|h| g1v(cs, *h)).collect::<R<Vec<_>>>()?; let s = g1v(cs, *sig)?;
                sim::arm(over);
                if *prepared { use ark_r1cs_std::pairing::PairingVar as P; let pk = ks.iter().map(|k| <PairingVar as P<Bls12_377, Fq>>::prepare_g2(k)).collect::<R<Vec<_>>>()?; let ph = hs.iter().map(|k| <PairingVar as P<Bls12_377, Fq>>::prepare_g1(k)).collect::<R<Vec<_>>>()?; Gad::batch_verify_prepared(&pk, &ph, &s)?; } else { Gad::batch_verify(&ks, &hs, &s)?; }
                Ok(vec![])
            }
            Job::Sum { keys, bits, pad } => {
                let ks = keys.iter().map(|k| g2v(cs, *k)).collect::<R<Vec<_>>>()?;
                let bs = match bits { Some(b) => Some(b.iter().map(|b| Boolean::new_witness(cs.clone(), || Ok(*b))).collect::<R<Vec<_>>>()?), None => None };
                sim::arm(over);
                let s = match bs { Some(b) => Gad::enforce_aggregated_pubkeys(&ks, &b, &G2Var::constant(*pad))?, None => Gad::enforce_aggregated_all_pubkeys(&ks)? };
                val(&|| Ok(limbs2(&s.value()?)))
            }
            Job::Bits { msg, len, constrained, personal } => {
                use ark_r1cs_std::bits::ToBitsGadget;
                let m = bytes_var(cs, msg)?; let mut b = vec![]; for x in &m { b.extend(x.to_bits_le()?); }
                sim::arm(over);
                let o = hash_to_bits(&b, *len, *personal, *constrained)?; val(&|| bits_of(&o))
            }
            Job::Hash { msg, extra, counter, constrained } => {
                let c = UInt8::new_witness(cs.clone(), || Ok(*counter))?; let (m, x) = (bytes_var(cs, msg)?, bytes_var(cs, extra)?);
                sim::arm(over);
                let (p, crh, xof) = HashToGroupGadget::<ark_bls12_377::Parameters, Fq>::enforce_hash_to_group(c, &m, &x, *constrained)?;
                val(&|| { let mut o = limbs1(&p.value()?); o.extend(bits_of(&crh)?); o.extend(bits_of(&xof)?); Ok(o) })
            }
        }
    }
    fn run(&self, over: Vec<Override>, setup: bool) -> Done {
        let cs = ConstraintSystem::<Fq>::new_ref();
        if setup { cs.set_mode(SynthesisMode::Setup); }
        sim::disarm();
        let r = catch_unwind(AssertUnwindSafe(|| self.synth(&cs, over)));
        let s = sim::disarm();
        let shape = cs.borrow().map_or(0, |c| c.shape);
        let crashed = r.is_err();
        match r { Ok(Ok(o)) => { let b = cs.borrow().and_then(|c| c.bad.clone()); Done { out: Some(o), ok: cs.is_satisfied().unwrap_or(false), why: b.unwrap_or_default(), sim: s, crashed, shape } } Ok(Err(e)) => Done { out: None, ok: false, why: format!("{:?}", e), sim: s, crashed, shape }, Err(_) => Done { out: None, ok: false, why: "panicked".into(), sim: s, crashed, shape } }
    }
    /// The native verdict: None if the input is no business of the gadget, Some(None) refuse, Some(Some(out)) accept with output.
    fn native(&self) -> Option<Option<Vec<u64>>> {
        Some(match self {
            Job::Zero(v, _) => Some(vec![v.is_zero() as u64]),
            Job::Norm(v, _) => Some(vec![(*v > half()) as u64]),
            Job::Y1(p) => { let y = p.into_affine().y; Some(vec![(y > half()) as u64]) }
            Job::Y2(p) => { let y = p.into_affine().y; Some(vec![(y.c1 > half() || (y.c1.is_zero() && y.c0 > half())) as u64]) }
            Job::Verify { keys, bits, h, sig, mns, pad, .. } => {
                let zeros = bits.iter().filter(|b| !**b).count() as u64;
                let signers: Vec<&G2> = keys.iter().zip(bits).filter(|x| *x.1).map(|x| x.0).collect();
                if zeros > *mns || signers.iter().any(|k| *k == pad) { return Some(None); }
                let apk = signers.iter().fold(G2::zero(), |a, k| a + *k);
                if apk.is_zero() || h.is_zero() || sig.is_zero() { return None; }
                if equation(&[apk], &[*h], sig) { Some(vec![]) } else { None::<Vec<u64>> }
            }
            Job::Batch { keys, hs, sig, .. } => { if keys.iter().any(|k| k.is_zero()) || hs.iter().any(|k| k.is_zero()) || sig.is_zero() { return None; } if equation(keys, hs, sig) { Some(vec![]) } else { None } }
            Job::Sum { keys, bits, pad } => match bits { None => Some(limbs2(&keys.iter().fold(G2::zero(), |a, k| a + k))), Some(b) => { if keys.iter().zip(b).any(|(k, b)| *b && k == pad) { None } else { Some(limbs2(&keys.iter().zip(b).filter(|x| *x.1).fold(G2::zero(), |a, k| a + k.0))) } } },
            Job::Bits { msg, len, personal, .. } => Some(le_bits(&DirectHasher.xof(personal, msg, *len as usize / 8).ok()?)),
            Job::Hash { msg, extra, counter, .. } => {
                let (p, attempt) = COMPOSITE_HASH_TO_G1_CIP22.hash_with_attempt_cip22(bls_crypto::SIG_DOMAIN, msg, extra).ok()?;
                // another counter than the first successful one is a prover who fails, or another point
                if attempt as u8 != *counter { return None; }
                let crh = COMPOSITE_HASHER.crh(&[], msg, 0).ok()?;
                let mut m = vec![*counter]; m.extend(extra); m.extend(&crh);
                let xof = DirectHasher.xof(bls_crypto::SIG_DOMAIN, &m, 64).ok()?;
                let mut o = limbs1(&p); o.extend(le_bits(&crh)); o.extend(le_bits(&xof)); Some(o)
            }
        })
    }
    fn name(&self) -> &'static str { match self { Job::Zero(..) => "is_eq_zero", Job::Norm(..) => "normalize", Job::Y1(_) => "y_to_bit_g1", Job::Y2(_) => "y_to_bit_g2", Job::Verify { .. } => "verify", Job::Batch { .. } => "batch_verify", Job::Sum { bits: Some(_), .. } => "aggregated_pubkeys", Job::Sum { .. } => "aggregated_all_pubkeys", Job::Bits { .. } => "hash_to_bits", Job::Hash { .. } => "hash_to_group" } }
    /// Unconstrained hashing is the callers' choice: its bits are free.
    fn free(&self) -> bool { matches!(self, Job::Bits { constrained: false, .. } | Job::Hash { constrained: false, .. }) }
    fn at_half(&self) -> bool { match self { Job::Norm(v, _) => *v == half(), Job::Y1(p) => p.into_affine().y == half(), Job::Y2(p) => { let y = p.into_affine().y; y.c0 == half() || y.c1 == half() } _ => false } }
}
fn equation(keys: &[G2], hs: &[G1], sig: &G1) -> bool {
    use ark_ec::PairingEngine;
    let mut v = vec![(sig.into_affine().into(), (-world::g2()).into_affine().into())];
    for (k, h) in keys.iter().zip(hs) { v.push((h.into_affine().into(), k.into_affine().into())); }
    Bls12_377::product_of_pairings(v.iter()) == <Bls12_377 as PairingEngine>::Fqk::one()
}
/// Curve points whose y coordinates lie at the edges of the sign rule (zero, one half, extremes).
fn edges() -> &'static (Vec<G1>, Vec<G2>) {
    static E: std::sync::OnceLock<(Vec<G1>, Vec<G2>)> = std::sync::OnceLock::new();
    E.get_or_init(|| { let mut o = (vec![], vec![]);
        for l in include_str!("edges.txt").lines() { let w: Vec<Fq> = l.split(' ').skip(1).map(|h| h.bytes().fold(Fq::zero(), |a, c| a * Fq::from(16u64) + Fq::from((c as char).to_digit(16).unwrap() as u64))).collect();
            if w.len() == 2 { o.0.push(ark_bls12_377::G1Affine::new(w[0], w[1], false).into_projective()); } else { o.1.push(ark_bls12_377::G2Affine::new(Fp2::new(w[0], w[1]), Fp2::new(w[2], w[3]), false).into_projective()); } }
        o })
}
/// A hash-like point with known relation to nothing.
fn point(seed: u64) -> G1 { world::m1(&world::g1(), &world::fr(seed ^ 0x9a17)) }
fn job(s: &Step) -> Option<Job> {
    let bits = |m: u64, n: usize| -> Vec<bool> { (0..n).map(|i| m >> (i % 64) & 1 == 0).collect() };
    Some(match s.op.as_str() {
        "zero" => Job::Zero(special(s.arg(0), s.arg(1)), s.arg(2) == 1), "norm" => Job::Norm(special(s.arg(0), s.arg(1)), s.arg(2) == 1),
        "y1" => Job::Y1(match s.arg(0) % 2 { 0 => { let e = &edges().0; e[s.arg(1) as usize % e.len()] } _ => { let p = point(s.arg(1)); if s.arg(2) & 1 == 1 { -p } else { p } } }),
        "y2" => Job::Y2(match s.arg(0) % 2 { 0 => { let e = &edges().1; e[s.arg(1) as usize % e.len()] } _ => { let p = world::m2(&world::g2(), &world::fr(s.arg(1))); if s.arg(2) & 1 == 1 { -p } else { p } } }),
        // 0 validators, 1 key set, 2 absent mask, 3 threshold, 4 padding mask, 5 message | faults: 6 forgery kind, 7 bitmap lies; 8 keys as sums
        "verify" => {
            let n = (s.arg(0) as usize).clamp(1, 320);
            let ids: Vec<usize> = if n <= 8 { chain::keyset(s.arg(1), s.arg(4), n) } else { (0..n).map(|i| if s.arg(4) >> (i % 64) & 1 == 1 { chain::PAD } else { (i + s.arg(1) as usize) % world::NK }).collect() };
            let signs: Vec<bool> = if n > 64 { (0..n).map(|i| i >= s.arg(2) as usize && ids[i] != chain::PAD).collect() } else { (0..n).map(|i| bits(s.arg(2), n)[i] && ids[i] != chain::PAD).collect() };
            let k: Fr = (0..n).filter(|i| signs[*i]).map(|i| chain::sk(ids[i])).fold(Fr::zero(), |a, x| a + x);
            let h = point(s.arg(5)); let mut sig = world::m1(&h, &k);
            match s.arg(6) { 1 => sig = world::m1(&point(s.arg(5) + 1), &k), 2 => sig += &h, 3 => sig = -sig, 4 => sig += &sig.clone(), 5 => sig = point(7), _ => {} }
            let lies = s.arg(7); let bs = (0..n).map(|i| signs[i] ^ (lies >> (i % 64) & 1 == 1)).collect();
            Job::Verify { keys: ids.iter().map(|i| chain::pk(*i)).collect(), split: s.arg(8), bits: bs, h, sig, mns: s.arg(3), pad: world::g2() }
        }
        // 0 messages, 1 seed, 2 fault, 3 prepared
        "batch" => {
            let n = (s.arg(0) as usize).clamp(1, 8); let mut r = Rng::new(s.arg(1));
            let ks: Vec<Fr> = (0..n).map(|_| world::fr(r.next())).collect(); let mut hs: Vec<G1> = (0..n).map(|_| point(r.next())).collect();
            let mut sig = ks.iter().zip(&hs).fold(G1::zero(), |a, (k, h)| a + world::m1(h, k)); let mut keys: Vec<G2> = ks.iter().map(|k| world::m2(&world::g2(), k)).collect();
            let i = r.below(n as u64) as usize; let j = (i + 1) % n;
            match s.arg(2) { 1 => sig += &world::g1(), 2 => sig = -sig, 3 => hs.swap(i, j), 4 => keys[i] += &world::g2(), 5 => { sig -= &world::m1(&hs[i], &ks[i]); } 6 => { hs[i] = hs[j]; } 7 => { keys[i] = -keys[i]; hs[i] = -hs[i]; } 8 => { keys[i] = keys[i].double(); hs[i] = hs[i].double(); } _ => {} }
            Job::Batch { keys, hs, sig, prepared: s.arg(3) == 1 }
        }
        "sum" => {
            let n = (s.arg(0) as usize).clamp(1, 8); let ids = chain::keyset(s.arg(1), s.arg(2), n);
            let mut keys: Vec<G2> = ids.iter().map(|i| chain::pk(*i)).collect(); match s.arg(4) { 1 if n > 1 => keys[1] = keys[0], 2 if n > 1 => keys[n - 1] = -keys[0], 3 => keys[0] = G2::zero(), _ => {} }
            Job::Sum { keys, bits: if s.arg(5) == 1 { None } else { Some(bits(s.arg(3), n)) }, pad: world::g2() }
        }
        "bits" => { let mut r = Rng::new(s.arg(1)); let l = (s.arg(0) % 400) as usize + 1; let mut p = [0u8; 8]; if s.arg(4) > 0 { p.copy_from_slice(&r.bytes(8)); } else { p.copy_from_slice(bls_crypto::SIG_DOMAIN); } Job::Bits { msg: r.bytes(l), len: 256 * (1 + s.arg(2) % 4) as u16, constrained: s.arg(3) == 1, personal: p } }
        "hash" => { let mut r = Rng::new(s.arg(2)); let m = r.bytes((s.arg(0) % 300) as usize + 1); let x = r.bytes((s.arg(1) % 80) as usize); let c = COMPOSITE_HASH_TO_G1_CIP22.hash_with_attempt_cip22(bls_crypto::SIG_DOMAIN, &m, &x).ok()?.1; Job::Hash { msg: m, extra: x, counter: (c as u64 + s.arg(4)) as u8, constrained: s.arg(3) == 1 } }
        _ => return None,
    })
}
/// The bit and byte conversions every encoding is built from, against their definition.
fn conv(s: &Step, cx: &mut Cx) {
    use bls_gadgets::utils::*;
    let mut r = Rng::new(s.arg(1));
    let bytes = r.bytes(s.arg(0) as usize);
    let n = s.arg(2) as usize;
    let le: Vec<bool> = bytes.iter().flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).take(n).collect();
    let be: Vec<bool> = le.iter().rev().copied().collect();
    let got = (bytes_le_to_bits_le(&bytes, n), bytes_le_to_bits_be(&bytes, n));
    cx.log(|| format!("conv {:?}", s.a));
    cx.check("P05", "bits_of_bytes", got.0 == le && got.1 == be, || format!("the first {} bits of {} bytes are not those of the number they encode", n, bytes.len()));
    let bits: Vec<bool> = (0..s.arg(3)).map(|_| r.chance(1, 2)).collect();
    let pack = |v: &mut dyn Iterator<Item = bool>| -> Vec<u8> { let mut o = vec![]; for (i, b) in v.enumerate() { if i % 8 == 0 { o.push(0u8); } if b { o[i / 8] |= 1 << (i % 8); } } o };
    let got = (bits_le_to_bytes_le(&bits), bits_be_to_bytes_le(&bits));
    cx.check("P05", "bytes_of_bits", got.0 == pack(&mut bits.iter().copied()) && got.1 == pack(&mut bits.iter().rev().copied()), || format!("{} bits packed into bytes encode another number", bits.len()));
}
fn substitution(a: &[u64], b: &Sim) -> Vec<Override> {
    let n = b.log.len(); if n == 0 { return vec![]; }
    let at = (a[0] % n as u64) as usize;
    let how = match b.log[at] { Kind::G1 | Kind::G2 => [5, 6, 0, 1, 2, 3, 8, 7, 12, 13][(a[1] % 10) as usize], _ => a[1] % 15 };
    vec![Override { at, how, arg: vec![a[2]] }]
}
impl Scenario for Gadgets {
    fn gen(&self, r: &mut Rng, _prop: &str, tier: u32) -> Vec<Step> {
        let mut v = vec![];
        for _ in 0..r.range(1, 4) {
            let x = |r: &mut Rng| (r.below(12), r.next() >> 30);
            match r.weighted(&[6, 8, 6, 10, 14, 8, 6, 6, 6, 4]) {
                0 => { let (a, b) = x(r); v.push(st("zero", &[a, b, r.chance(1, 5) as u64])); }
                1 => { let (a, b) = x(r); v.push(st("norm", &[a, b, r.chance(1, 5) as u64])); }
                2 => { let (a, b) = x(r); let (c, d) = x(r); v.push(st("y1", &[a, b, c])); let _ = d; }
                3 => { let (a, b) = x(r); let (c, d) = x(r); v.push(st("y2", &[a, b, c])); let _ = d; }
                4 => {
                    if r.chance(1, 25) { let n = 250 + r.below(60); let a = *r.pick(&[0, 200, 249, 254, 255, 256, 257, 280]); let a = a.min(n - 1); v.push(st("verify", &[n, r.below(20), a, if r.chance(2, 3) { a } else { a.saturating_sub(1) }, 0, r.next() >> 30, 0, 0, 0])); }
                    else {
                        let n = r.range(1, if tier > 0 { 8 } else { 6 });
                        let pads = if r.chance(1, 4) { r.below(1 << n) } else { 0 }; let absent = r.below(1 << n) & r.below(1 << n) & !pads;
                        let zeros = (absent | pads).count_ones() as u64;
                        let mns = match r.below(4) { 0 => zeros + r.below(3), 1 => zeros.saturating_sub(1), 2 => r.below(n + 1), _ => zeros };
                        v.push(st("verify", &[n, r.next() >> 30, absent, mns, pads, r.next() >> 30, if r.chance(1, 3) { 1 + r.below(5) } else { 0 }, if r.chance(1, 4) { r.below(1 << n) } else { 0 }, if r.chance(1, 3) { r.below(1 << n) } else { 0 }]));
                    }
                }
                5 => v.push(st("batch", &[1 + r.below(5), r.next() >> 30, r.below(9) * r.below(2), r.below(2)])),
                6 => v.push(st("sum", &[1 + r.below(6), r.next() >> 30, r.below(64) * (r.below(4) / 3), r.below(64), r.below(8), r.below(2)])),
                7 => v.push(st("bits", &[*r.pick(&[0, 1, 30, 31, 32, 33, 48, 63, 64, 65, 127, 128, 129, 384 / 8, 300]) + r.below(2) * r.below(60), r.next() >> 30, r.below(4), r.below(2), r.below(2)])),
                9 => v.push(st("conv", &[r.below(70), r.next() >> 30, r.below(600), r.below(600)])),
                _ => v.push(st("hash", &[r.below(300), r.below(80), r.next() >> 30, r.chance(2, 3) as u64, r.chance(1, 8) as u64])),
            }
            for _ in 0..r.below(if tier > 0 { 24 } else { 10 }) { v.push(st("sub", &[r.next() >> 20, r.next() >> 20, *r.pick(&[0, 1, 2, 3, 7, 16, 32, 64, 255]), r.chance(1, 6) as u64])); }
        }
        v
    }
    fn exec(&self, steps: &[Step], cx: &mut Cx) {
        let mut cur: Option<(Job, Done, Option<Option<Vec<u64>>>)> = None;
        let mut i = 0;
        cx.log(|| format!("plan {:?}", steps));
        while i < steps.len() && !cx.stop() {
            let s = &steps[i]; i += 1;
            if s.op == "conv" { cur = None; cx.ops += 1; cx.probe("bit_conversion"); conv(s, cx); continue; }
            if s.op != "sub" {
                let Some(j) = job(s) else { continue; };
                let name = j.name(); let want = j.native();
                let d = j.run(vec![], false);
                cx.ops += 1; cx.probe(name);
                if let Job::Verify { keys, bits, mns, .. } = &j { if keys.len() > 255 { cx.fault("bitmap_over_255"); } if s.arg(6) > 0 { cx.fault("forged_signature"); } if s.arg(7) > 0 { cx.fault("bitmap_lies"); } if bits.iter().filter(|b| !**b).count() as u64 > *mns { cx.fault("quorum_missed"); } if s.arg(4) > 0 { cx.fault("padding_keys"); } if s.arg(8) > 0 { cx.fault("unnormalised_keys"); } }
                if let Job::Batch { .. } = &j { if s.arg(2) > 0 { cx.fault("batch_altered"); } }
                if j.at_half() { cx.fault("coordinate_at_half"); }
                cx.log(|| format!("{} {:?}: native {:?} gadget ok {} {} crashed {}", name, s.a, want.as_ref().map(|w| w.is_some()), d.ok, d.why, d.crashed));
                cx.state(hash(format!("{} {:?} {} {}", name, want.as_ref().map(|w| w.as_ref().map(|o| o.len())), d.ok, d.sim.log.len()).as_bytes()));
                match &want {
                    Some(Some(o)) => {
                        cx.probe("acceptable_input");
                        cx.check("P05", &format!("{}_refused", name), d.ok, || format!("{} {:?}: the honest prover's constraints fail ({})", name, s.a, d.why));
                        if d.ok { cx.check("P05", &format!("{}_wrong", name), d.out.as_ref() == Some(o), || format!("{} {:?}: the gadget's output differs from the native function's", name, s.a)); }
                        // the same constraints must come out when the parameters are made, without values
                        if d.ok && !matches!(j, Job::Bits { .. }) { let e = j.run(vec![], true); cx.check("P05", &format!("{}_setup_shape", name), e.out.is_some() && e.shape == d.shape, || format!("{} {:?}: setup produces other constraints than proving ({})", name, s.a, e.why)); }
                    }
                    Some(None) => { cx.probe("unacceptable_input"); cx.check("P05", &format!("{}_accepted", name), !d.ok, || format!("{} {:?}: accepted against the native verdict", name, s.a)); }
                    None => cx.probe("unjudged"),
                }
                cur = Some((j, d, want));
                continue;
            }
            let Some((j, d, want)) = &cur else { continue; };
            let mut o = substitution(&[s.arg(0), s.arg(1), s.arg(2)], &d.sim);
            if s.arg(3) == 1 { if let Some(t) = steps.get(i).filter(|t| t.op == "sub") { for x in substitution(&[t.arg(0), t.arg(1), t.arg(2)], &d.sim) { if o.iter().all(|y| y.at != x.at) { o.push(x); } } } }
            if o.is_empty() || j.free() { continue; }
            let e = j.run(o.clone(), false);
            cx.ops += 1;
            for x in &o { cx.fault(match d.sim.log[x.at] { Kind::Field => "field_witness_substituted", Kind::Bool => "bit_witness_substituted", Kind::Byte => "byte_witness_substituted", Kind::G1 => "g1_witness_substituted", Kind::G2 => "g2_witness_substituted", _ => "other_witness_substituted" }); }
            cx.log(|| format!("{} substituting {:?} -> ok {} {}", j.name(), o, e.ok, e.why));
            if !e.ok { cx.check("P05", "-", true, || String::new()); continue; }
            cx.probe("substitution_accepted");
            let fine = match want { Some(Some(v)) => e.out.as_ref() == Some(v), Some(None) => false, None => true };
            let disguise = o.iter().any(|x| matches!(d.sim.log[x.at], Kind::G1 | Kind::G2) && matches!(x.how, 5 | 6 | 10 | 13));
            let class = if j.at_half() { "normalize_half".to_string() } else if disguise { "point_representation".into() } else { format!("{}_unsound", j.name()) };
            cx.check("P05", &class, fine, || format!("{}: with witnesses {:?} the constraints hold for another result than the native one", j.name(), o));
        }
    }
}
