//! Simulated validator sets, epoch chains and signatures for the proof-system scenarios, and the reference model
//! deciding whether a chain of epoch transitions is a true statement.
use crate::core::Step;
use crate::rng::{mix2, Rng};
use crate::world::{self, G1, G2};
use ark_bls12_377::{Bls12_377, Fr};
use ark_ec::ProjectiveCurve;
use ark_ff::{One, PrimeField, Zero};
use bls_crypto::{PublicKey, Signature};
use epoch_snark::{EpochBlock, EpochTransition, ValidatorSetUpdate};
use std::collections::BTreeSet;
use std::sync::OnceLock;

pub type Circ = ValidatorSetUpdate<Bls12_377>;
/// Key identities: 0..NK are validators; PAD is the padding key, whose secret (one) is public.
pub const PAD: usize = 1000;
pub fn pk(id: usize) -> G2 { if id == PAD { world::g2() } else { world::pool().pk[id] } }
pub fn sk(id: usize) -> Fr { if id == PAD { Fr::one() } else { world::pool().sk[id] } }
/// Encodings of all known keys (755 bits each), computed once.
pub fn keys() -> &'static Vec<(usize, Vec<bool>)> {
    static K: OnceLock<Vec<(usize, Vec<bool>)>> = OnceLock::new();
    K.get_or_init(|| (0..world::NK).chain([PAD]).map(|i| (i, EpochBlock::new(0, 0, None, None, 0, 1, vec![PublicKey::from(pk(i))]).encode_to_bits().unwrap()[48..].to_vec())).collect())
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Blk { pub index: u16, pub round: u8, pub entropy: u64, pub parent: u64, pub mns: u32, pub keys: Vec<usize> }
/// Entropy identity 0 is "absent"; 1 is sixteen zero bytes; others are arbitrary.
pub fn entropy(id: u64) -> Option<Vec<u8>> { match id { 0 => None, 1 => Some(vec![0; 16]), _ => Some(Rng::new(id ^ 0xe27).bytes(16)) } }
fn evalue(id: u64) -> Vec<u8> { entropy(id).unwrap_or_else(|| vec![0; 16]) }
impl Blk {
    pub fn native(&self) -> EpochBlock { EpochBlock::new(self.index, self.round, entropy(self.entropy), entropy(self.parent), self.mns, self.keys.len(), self.keys.iter().map(|k| PublicKey::from(pk(*k))).collect()) }
    pub fn hash(&self) -> G1 { self.native().hash_to_g1_cip22().expect("hash of an epoch block") }
    pub fn pads(&self) -> usize { self.keys.iter().filter(|k| **k == PAD).count() }
    pub fn last_bytes(&self) -> Vec<u8> { self.native().encode_last_epoch_to_bytes_with_aggregated_pk_cip22().unwrap() }
    /// What the verifier will compute for (self, last), packed as the verifier packs it.
    pub fn inputs(&self, last: &Blk) -> Vec<ark_bw6_761::Fr> {
        let mut b = self.native().blake2_first_epoch_cip22().unwrap();
        b.extend(last.native().blake2_last_epoch_with_aggregated_pk_cip22().unwrap());
        pack(&b)
    }
}
pub fn pack(b: &[bool]) -> Vec<ark_bw6_761::Fr> { b.chunks(376).map(|c| c.iter().fold(ark_bw6_761::Fr::zero(), |a, x| a + a + if *x { ark_bw6_761::Fr::one() } else { Zero::zero() })).collect() }
#[derive(Clone, Debug)]
pub struct Ep { pub blk: Blk, pub dummy: bool, pub bitmap: Vec<bool>, pub share: G1, pub signed: Vec<(Blk, BTreeSet<usize>)> }
#[derive(Clone, Debug)]
pub struct World { pub n: usize, pub helper: bool, pub init: Blk, pub eps: Vec<Ep>, pub comp: i64, pub over: Vec<Vec<u64>>, pub api: Vec<Vec<u64>> }
/// A set of n distinct validators (from the code), with padding at the positions in `pads`.
pub fn keyset(code: u64, pads: u64, n: usize) -> Vec<usize> {
    let mut r = Rng::new(mix2(code, 0x5e7)); let mut v: Vec<usize> = (0..world::NK).collect(); r.shuffle(&mut v); v.truncate(n);
    for i in 0..n { if pads >> i & 1 == 1 { v[i] = PAD; } }
    v
}
pub const ALT: [&str; 9] = ["none", "round", "threshold", "index", "keys", "entropy", "parent", "omitted", "doubled"];
/// Interprets a plan. Unknown or ill-placed steps are ignored, so any sub-plan is a plan.
/// `honest` builds the same world with every statement fault left out.
pub fn build(steps: &[Step], honest: bool) -> World {
    let sh = steps.iter().find(|s| s.op == "shape").cloned().unwrap_or(crate::core::st("shape", &[3, 0]));
    let n = (sh.arg(0) as usize).clamp(1, 8);
    let ini = steps.iter().find(|s| s.op == "init").cloned().unwrap_or(crate::core::st("init", &[1, 1, 0, 1, 0, 0]));
    let init = Blk { index: ini.arg(0) as u16, round: ini.arg(5) as u8, entropy: ini.arg(3), parent: ini.arg(4), mns: ini.arg(2) as u32, keys: keyset(ini.arg(1), ini.arg(6), n) };
    let mut w = World { n, helper: sh.arg(1) == 1, init: init.clone(), eps: vec![], comp: 0, over: vec![], api: vec![] };
    let mut prev = init;
    for s in steps {
        let f = |i: usize| if honest { 0 } else { s.arg(i) };
        match s.op.as_str() {
            // 0 keyset, 1 pads, 2 mns, 3 entropy, 4 round, 5 absent mask | faults: 6 index offset, 7 other parent, 8 bitmap flips, 9 altered message, 10 signer set, 11 padding signs, 12 further absentees
            "ep" => {
                let index = prev.index.wrapping_add(1).wrapping_add(f(6) as u16);
                let parent = if f(7) > 0 { f(7) } else { prev.entropy };
                let b = Blk { index, round: s.arg(4) as u8, entropy: s.arg(3), parent, mns: s.arg(2) as u32, keys: keyset(s.arg(0), s.arg(1), n) };
                let set = match f(10) { 1 => b.keys.clone(), 2 => w.init.keys.clone(), _ => prev.keys.clone() };
                let signs: Vec<bool> = (0..n).map(|i| (s.arg(5) | f(12)) >> i & 1 == 0 && (set[i] != PAD || f(11) == 1)).collect();
                let bitmap: Vec<bool> = (0..n).map(|i| signs[i] ^ (f(8) >> i & 1 == 1)).collect();
                let mut m = b.clone();
                match f(9) { 1 => m.round ^= 1, 2 => m.mns ^= 1, 3 => m.index ^= 1, 4 => { m.keys.rotate_left(1); if m.keys == b.keys { m.keys[0] = (m.keys[0] + 1) % world::NK; } } 5 => m.entropy = m.entropy + 7, 6 => m.parent = m.parent + 7, _ => {} }
                let k: Fr = (0..n).filter(|i| signs[*i]).map(|i| sk(set[i])).fold(Fr::zero(), |a, x| a + x);
                let ids: BTreeSet<usize> = (0..n).filter(|i| signs[*i]).map(|i| set[i]).collect();
                let mut share = m.hash().mul(k.into_repr()); let mut signed = vec![(m, ids)];
                match f(9) { 7 => { share = G1::zero(); signed.clear(); } 8 => share += share, _ => {} }
                w.eps.push(Ep { blk: b.clone(), dummy: b.index == 0, bitmap, share, signed });
                if b.index != 0 { prev = b; }
            }
            // 0 bitmap mode, 1 keyset (0: generators), 2 mns, 3 entropy | fault: 4 signs nothing
            "dummy" => {
                let ks = if s.arg(1) == 0 { vec![PAD; n] } else { keyset(s.arg(1), 0, n) };
                let b = Blk { index: 0, round: 0, entropy: s.arg(3), parent: s.arg(3), mns: s.arg(2) as u32, keys: ks };
                let bitmap = (0..n).map(|i| if s.arg(0) == 1 { true } else { prev.keys[i] != PAD }).collect();
                w.eps.push(Ep { blk: b, dummy: true, bitmap, share: if f(4) == 1 { G1::zero() } else { world::g1() }, signed: vec![] });
            }
            "swap" if !honest => { let (a, b) = (s.arg(0) as usize, s.arg(1) as usize); if a < w.eps.len() && b < w.eps.len() { let t = w.eps[a].share; w.eps[a].share = w.eps[b].share; w.eps[b].share = t; } }
            "drop" if !honest => { let a = s.arg(0) as usize; if a < w.eps.len() && w.eps.len() > 1 { w.eps.remove(a); } }
            "over" => w.over.push(s.a.clone()),
            "api" => w.api.push(s.a.clone()),
            _ => {}
        }
    }
    w
}
pub enum Verdict { True, False(String), Unjudged(&'static str) }
impl World {
    pub fn sig(&self) -> G1 { self.eps.iter().fold(G1::zero(), |a, e| a + e.share) }
    /// The statement the circuit must decide, evaluated natively with the secret keys.
    pub fn verdict(&self) -> Verdict {
        use Verdict::*;
        if self.eps.is_empty() { return Unjudged("no transitions"); }
        if self.eps.last().unwrap().dummy { return False("last entry is a dummy".into()); }
        let chain_entropy = evalue(self.init.entropy) != vec![0; 16];
        let (mut prev, mut want) = (self.init.clone(), G1::zero());
        let mut odd = None;
        for (i, e) in self.eps.iter().enumerate() {
            let zeros = e.bitmap.iter().filter(|b| !**b).count();
            let padded = (0..self.n).any(|k| e.bitmap[k] && prev.keys[k] == PAD);
            if e.dummy {
                // a dummy's bitmap is the prover's own choice: an inadmissible one is only a prover that fails
                if zeros as u64 > prev.mns as u64 || padded { odd = Some("dummy bitmap"); }
                want += world::g1();
                continue;
            }
            if e.blk.index as u32 != prev.index as u32 + 1 { return False(format!("epoch {}: index {} after {}", i, e.blk.index, prev.index)); }
            if chain_entropy && evalue(e.blk.parent) != evalue(prev.entropy) { return False(format!("epoch {}: parent entropy does not match", i)); }
            if zeros as u64 > prev.mns as u64 { return False(format!("epoch {}: {} absent of {} allowed", i, zeros, prev.mns)); }
            if padded { return False(format!("epoch {}: padding key counted as a signer", i)); }
            let a: Fr = (0..self.n).filter(|k| e.bitmap[*k]).map(|k| sk(prev.keys[k])).fold(Fr::zero(), |a, x| a + x);
            if a.is_zero() { odd = Some("aggregate key is the identity"); }
            want += e.blk.hash().mul(a.into_repr());
            prev = e.blk.clone();
        }
        if want != self.sig() { return False("aggregate signature does not match".into()); }
        let last = &self.eps.last().unwrap().blk;
        if last.keys.iter().map(|k| sk(*k)).fold(Fr::zero(), |a, x| a + x).is_zero() || self.sig().is_zero() { odd = Some("identity"); }
        match odd { Some(o) => Unjudged(o), None => True }
    }
    pub fn last(&self) -> &Blk { &self.eps.last().unwrap().blk }
    pub fn circuit(&self, helper: Option<ark_groth16::VerifyingKey<Bls12_377>>) -> Circ {
        let mut c = Circ::empty(self.n, self.eps.len(), 0, helper);
        macro_rules! fill { ($d:expr, $b:expr) => {{ let (d, b) = (&mut $d, $b); d.index = Some(b.index); d.round = Some(b.round); d.epoch_entropy = entropy(b.entropy); d.parent_entropy = entropy(b.parent); d.maximum_non_signers = b.mns; d.public_keys = b.keys.iter().map(|k| Some(pk(*k))).collect(); }} }
        fill!(c.initial_epoch, &self.init);
        for (i, e) in self.eps.iter().enumerate() { fill!(c.epochs[i].epoch_data, &e.blk); c.epochs[i].signed_bitmap = e.bitmap.iter().map(|b| Some(*b)).collect(); }
        c.aggregated_signature = Some(self.sig());
        c
    }
    /// The world in which every block is the one its validators signed.
    pub fn said(&self) -> World { let mut w = self.clone(); for e in &mut w.eps { if let Some((m, _)) = e.signed.first() { e.blk = m.clone(); } } w }
    /// Everything the validators of this world have signed.
    pub fn signed(&self) -> Vec<(Blk, BTreeSet<usize>)> { self.eps.iter().flat_map(|e| e.signed.clone()).collect() }
    pub fn transitions(&self) -> Vec<EpochTransition> { self.eps.iter().filter(|e| !e.dummy).map(|e| EpochTransition { block: e.blk.native(), aggregate_signature: Signature::from(e.share), bitmap: e.bitmap.clone() }).collect() }
}
/// A first block as read back from the bytes hashed into the public input; None marks a key of nobody in the simulation.
pub struct First { pub index: u16, pub mns: u32, pub keys: Vec<Option<usize>> }
pub fn read_first(msg: &[u8], n: usize) -> Option<First> {
    let total = 16 + 128 + 32 + 755 * n;
    if msg.len() != (total + 7) / 8 { return None; }
    let mut bits: Vec<bool> = msg.iter().flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).take(total).collect(); bits.reverse();
    let num = |b: &[bool]| b.iter().rev().fold(0u64, |a, x| a << 1 | *x as u64);
    let (index, mns) = (num(&bits[..16]) as u16, num(&bits[144..176]) as u32);
    let keys = (0..n).map(|i| { let k = &bits[176 + 755 * i..176 + 755 * (i + 1)]; keys().iter().find(|x| x.1 == k).map(|x| x.0) }).collect();
    Some(First { index, mns, keys })
}
/// Is there a chain of genuinely signed blocks from `first` to a block whose public encoding is `last`?
pub fn reachable(first: &First, last: &[u8], signed: &[(Blk, BTreeSet<usize>)]) -> bool {
    let mut todo = vec![(first.index, first.mns, first.keys.clone())]; let mut seen = BTreeSet::new();
    while let Some((ix, mns, ks)) = todo.pop() {
        for (j, (b, ids)) in signed.iter().enumerate() {
            if b.index as u32 != ix as u32 + 1 { continue; }
            // keys nobody in the simulation holds belong to the prover, who signs with them at will
            let missing = ks.iter().filter(|k| match k { Some(k) => *k == PAD || !ids.contains(k), None => false }).count();
            if missing as u64 > mns as u64 { continue; }
            if b.last_bytes() == last { return true; }
            if seen.insert((ix, j)) { todo.push((b.index, b.mns, b.keys.iter().map(|k| Some(*k)).collect())); }
        }
    }
    false
}
