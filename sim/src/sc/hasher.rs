//! Hash-to-curve driven by a scripted, failing hash function, and the shipped hash functions
//! under boundary inputs; compared with the independent reference.
use super::ffi::{extra, message};
use crate::core::*;
use crate::refimpl;
use crate::rng::Rng;
use crate::world::*;
use ark_bls12_377::g1::Parameters as P1;
use ark_ff::{Field, One, PrimeField, SquareRootField, UniformRand, Zero};
use ark_serialize::CanonicalSerialize;
use bls_crypto::hash_to_curve::{try_and_increment::TryAndIncrement, try_and_increment_cip22::TryAndIncrementCIP22, HashToCurve};
use bls_crypto::hashers::{DirectHasher, COMPOSITE_HASHER};
use bls_crypto::{BLSError, Hasher};
use std::cell::RefCell;

pub struct Hash;
/// Scripted hash function: pass-through compression, per-attempt candidates and failures.
struct Script { plan: Vec<(u64, u64)>, crh_err: bool, log: RefCell<Vec<(bool, Vec<u8>, Vec<u8>, usize)>> }
fn xs() -> &'static (Vec<Fq>, Vec<Fq>) {
    static X: std::sync::OnceLock<(Vec<Fq>, Vec<Fq>)> = std::sync::OnceLock::new();
    X.get_or_init(|| { let mut r = Rng::new(7); let (mut a, mut b) = (vec![], vec![]); while a.len() < 16 || b.len() < 16 { let x = Fq::rand(&mut r); if (x.square() * x + Fq::one()).sqrt().is_some() { a.push(x) } else { b.push(x) } } (a, b) })
}
fn le(x: &Fq) -> Vec<u8> { let mut v = vec![]; x.serialize(&mut v).unwrap(); v }
/// Candidate bytes for one attempt.
fn cand(kind: u64, y: u64) -> Vec<u8> {
    let mut r = Rng::new(y); let (good, bad) = xs();
    let mut v = match kind {
        0 => le(r.pick(bad)), 1 => le(r.pick(good)),
        2 => { let mut v = vec![0xff; 48]; v[47] = 1; v } // coordinate at or above the modulus
        3 => { let mut v = vec![0; 48]; v[47] = 0x40; v } // infinity marker
        4 => vec![0; 48],                                  // x = 0: a point of small order
        5 => le(&-Fq::one()),                              // x = -1: the two-torsion point
        6 => { use ark_ff::FpParameters; let mut v = vec![]; for l in <Fq as PrimeField>::Params::MODULUS.as_ref() { v.extend(l.to_le_bytes()); } v } // exactly the modulus
        7 => { let mut v = le(r.pick(good)); v[47] |= 0x40; v } // infinity marker on an ordinary coordinate
        _ => r.bytes(48),
    };
    // bits above the coordinate: sign selection and bits that must be ignored
    if kind != 3 { v[47] = v[47] & 1 | (r.below(128) as u8) << 1 & if kind == 4 && y % 2 == 0 { 0xbe } else if kind == 7 { 0xfe } else { 0xfe }; if kind == 7 { v[47] |= 0x40; } if kind == 4 && y % 2 == 0 { v[47] &= !0x40; } }
    let n = 64 + if y % 5 == 0 { r.below(40) as usize } else { 0 };
    let k = n - v.len(); v.extend(r.bytes(k)); v
}
impl Script { fn at(&self, c: u8) -> (u64, u64) { if self.plan.is_empty() { return (0, c as u64); } let i = (c as usize).min(self.plan.len() - 1); let (k, y) = self.plan[i]; if (c as usize) >= self.plan.len() { (0, y + c as u64) } else { (k, y) } } }
impl Hasher for Script {
    type Error = BLSError;
    fn crh(&self, d: &[u8], m: &[u8], n: usize) -> Result<Vec<u8>, BLSError> { self.log.borrow_mut().push((false, d.to_vec(), m.to_vec(), n)); if self.crh_err { return Err(BLSError::VerificationFailed); } Ok(m.to_vec()) }
    fn xof(&self, d: &[u8], m: &[u8], n: usize) -> Result<Vec<u8>, BLSError> {
        self.log.borrow_mut().push((true, d.to_vec(), m.to_vec(), n));
        let (k, y) = self.at(m.first().copied().unwrap_or(255));
        if k == 9 { return Err(BLSError::VerificationFailed); }
        Ok(cand(k, y))
    }
}
impl Scenario for Hash {
    fn gen(&self, r: &mut Rng, _prop: &str, tier: u32) -> Vec<Step> {
        let mut v = vec![];
        for _ in 0..r.range(2, if tier > 0 { 12 } else { 6 }) {
            match r.below(8) {
                0 | 1 | 2 => {
                    // fail for a while, then succeed; sometimes never
                    let n = match r.below(10) { 0 => 255, 1 => 254, 2 => r.below(255), _ => r.below(8) };
                    let mut a = vec![r.below(2), r.below(40), r.below(30), r.below(9), r.chance(1, 12) as u64];
                    let mid = r.chance(1, 5); for _ in 0..n { a.push(*r.pick(&[0u64, 0, 2, 3, 4, 5, 6])); a.push(r.below(1 << 16)); if mid && r.chance(1, 4) { a.push(9); a.push(0); } }
                    if n < 255 && r.chance(5, 6) { a.push(*r.pick(&[1u64, 1, 1, 7, 8, 9])); a.push(r.below(1 << 16)); }
                    v.push(st("script", &a));
                }
                3 => v.push(st("xof", &[r.below(10), r.below(40), *r.pick(&[0u64, 1, 31, 32, 33, 48, 64, 65, 96, 128, 255, 256, 1000]), r.below(2)])),
                4 => v.push(st("crh", &[r.below(10), r.below(40), r.below(300), r.below(2)])),
                5 => v.push(st("long", &[*r.pick(&[0u64, 1, 2, 3]), r.below(1 << 16), r.below(3)])),
                _ => v.push(st("real", &[r.below(3), r.below(10), r.below(1 << 12), r.below(30)])),
            }
        }
        v
    }
    fn exec(&self, steps: &[Step], cx: &mut Cx) {
        let dom = |n: u64| -> Vec<u8> { if n == 9 { b"toolonged".to_vec() } else { b"ULforxof"[..n.min(8) as usize].to_vec() } };
        for s in steps {
            if cx.stop() { return; }
            cx.ops += 1; cx.simtime += 1;
            match s.op.as_str() {
                "script" => {
                    let cip = s.arg(0) == 1; let (m, e, d) = (message(s.arg(1)), extra(s.arg(2)), dom(s.arg(3).min(8)));
                    let plan: Vec<(u64, u64)> = s.a.get(5..).unwrap_or(&[]).chunks(2).filter(|c| c.len() == 2).map(|c| (c[0], c[1])).collect();
                    for (k, _) in &plan { match k { 2 => cx.fault("candidate_overflow"), 3 => cx.fault("infinity_candidate"), 4 | 5 => cx.fault("small_order_candidate"), 9 => cx.fault("hash_failure"), _ => {} } }
                    let h = Script { plan, crh_err: s.arg(4) == 1, log: RefCell::new(vec![]) };
                    if h.crh_err { cx.fault("compression_failure"); }
                    let (got, only) = if cip { let t = TryAndIncrementCIP22::<Script, P1>::new(&h); (t.hash_with_attempt_cip22(&d, &m, &e), None) } else { let t = TryAndIncrement::<Script, P1>::new(&h); let a = t.hash_with_attempt(&d, &m, &e); let l = h.log.borrow().clone(); let b = t.hash(&d, &m, &e); *h.log.borrow_mut() = l; (a, Some(b)) };
                    let want = if h.crh_err { Err(()) } else { refimpl::tai(|c| { let (k, y) = h.at(c); if k == 9 { Err(()) } else { Ok(cand(k, y)) } }) };
                    let log = h.log.borrow();
                    match (&got, &want) {
                        (Ok((p, c)), Ok(Some((q, w)))) => { cx.check("H01", "wrong-point", p == q, || "hash-to-curve result differs from the first usable candidate".into()); cx.check("H01", "wrong-attempt", c == w, || format!("reported attempt {} but the first usable candidate is {}", c, w)); if *w > 0 { cx.probe("succeeded_after_failures"); } }
                        (Err(_), Ok(None)) => { cx.fault("candidates_exhausted"); cx.check("H01", "exhausted", true, String::new); }
                        (Err(_), Err(())) => { cx.probe("failure_propagated"); cx.check("H01", "error", true, String::new); }
                        (Ok((_, c)), Ok(None)) => { cx.check("H01", "accepted-unusable", false, || format!("a point was returned at attempt {} although no candidate is usable", c)); }
                        (Ok((_, c)), Err(())) => { cx.check("H01", "failure-ignored", false, || format!("a hash failure was ignored and attempt {} returned", c)); }
                        (Err(x), Ok(Some((_, w)))) => { let x = format!("{}", x); cx.check("H01", "gave-up", false, || format!("failed ({}) although candidate {} is usable", x, w)); }
                    }
                    if let Some(b) = only { let same = match (&b, &got) { (Ok(p), Ok((q, _))) => p == q, (Err(_), Err(_)) => true, _ => false }; cx.check("H01", "hash-vs-attempt", same, || "hashing with and without the attempt counter disagree".into()); }
                    // every candidate was derived from counter, extra data and message, in order
                    let mut n = 0u64;
                    for (isx, dd, mm, _) in log.iter() { if !*isx { continue; } let w = [&[n as u8][..], &e, &m].concat(); cx.check("H01", "framing", *mm == w && *dd == d, || format!("attempt {} hashed a different input", n)); n += 1; if cx.stop() { return; } }
                    cx.check("H01", "attempt-budget", n <= 256, || format!("{} attempts", n));
                    cx.state(hash(&[cip as u8, n as u8, got.is_ok() as u8]));
                    cx.log(|| format!("script {:?} {} {}", &s.a[..5.min(s.a.len())], n, got.is_ok()));
                }
                "xof" | "crh" => {
                    let d = dom(s.arg(0)); let m = message(s.arg(1)); let n = s.arg(2) as usize; let long = d.len() > 8; if long { cx.fault("domain_too_long"); }
                    let comp = s.arg(3) == 1;
                    let (got, want) = if s.op == "xof" { (if comp { COMPOSITE_HASHER.xof(&d, &m, n) } else { DirectHasher.xof(&d, &m, n) }, if long { None } else { Some(refimpl::xof(&d, &m, n)) }) } else if comp { (COMPOSITE_HASHER.crh(&d, &m, n), refimpl::composite_crh(&m)) } else { (DirectHasher.crh(&d, &m, n), if long { None } else { Some(refimpl::direct_crh(&d, &m, n)) }) };
                    let g = got.ok();
                    cx.check("H01", "hash-function-differs", g == want, || format!("{} of {} bytes, domain {} bytes, output {}: differs from BLAKE2Xs / Bowe-Hopwood reference", s.op, m.len(), d.len(), n));
                    cx.log(|| format!("{} {:?} {:?}", s.op, s.a, g.map(|v| crate::core::hash(&v))));
                }
                "long" => {
                    let n = match s.arg(0) { 0 => refimpl::CRH_MAX, 1 => refimpl::CRH_MAX + 1, 2 => refimpl::CRH_MAX - 1, _ => 30000 }; cx.fault("long_message");
                    let m = Rng::new(s.arg(1)).bytes(n); let mode = s.arg(2);
                    let w = refimpl::hash(mode, refimpl::SIG, &m, &[]); let g = real(mode, refimpl::SIG, &m, &[]);
                    cx.check("H01", "long-message", g.as_ref().ok().map(|p| *p) == w, || format!("hashing {} bytes in mode {} gives {:?} but {} was expected", n, mode, g.is_ok(), w.is_some()));
                    cx.log(|| format!("long {} {} {}", n, mode, g.is_ok()));
                }
                _ => {
                    let mode = s.arg(0); let d = dom(s.arg(1)); let (m, e) = (message(s.arg(2)), extra(s.arg(3)));
                    if d.len() > 8 { cx.fault("domain_too_long"); }
                    let w = if d.len() > 8 { None } else { refimpl::hash(mode, &d, &m, &e) }; let g = real(mode, &d, &m, &e);
                    cx.check("H01", "wrong-hash", g.as_ref().ok().map(|p| *p) == w, || format!("mode {} hash of {} bytes differs from the reference", mode, m.len()));
                    if let Some((_, c)) = w { if c > 0 { cx.probe("later_attempt"); } }
                    cx.log(|| format!("real {:?} {}", s.a, g.is_ok()));
                }
            }
        }
    }
}
fn real(mode: u64, d: &[u8], m: &[u8], e: &[u8]) -> Result<(G1, usize), BLSError> {
    match mode { 0 => TryAndIncrement::<DirectHasher, P1>::new(&DirectHasher).hash_with_attempt(d, m, e), 1 => TryAndIncrement::<_, P1>::new(&*COMPOSITE_HASHER).hash_with_attempt(d, m, e), _ => TryAndIncrementCIP22::<_, P1>::new(&*COMPOSITE_HASHER).hash_with_attempt_cip22(d, m, e) }
}
#[allow(unused)] fn _z() -> bool { Fq::zero().is_zero() }
