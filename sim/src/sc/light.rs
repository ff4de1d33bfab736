//! Provers, relayers and light clients around the proof API: parameters from `trusted_setup`, proofs from `prove`
//! over windows of a simulated chain (honest or spoiled), relayed by a faulty network to light clients that call
//! `verify` through Rust (P03) or through the C boundary with serialised proofs and keys (P04).
use super::chain::{self, build, Blk, Verdict, World, PAD};
use super::snark::base_chain;
use crate::core::{hash, st, Cx, Scenario, Step};
use crate::rng::Rng;
use crate::world;
use ark_bw6_761::BW6_761;
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_groth16::{Proof, VerifyingKey};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bls_snark_sys::snark::epoch_block::EpochBlockFFI;
use epoch_snark::{prove, trusted_setup, verify, EpochBlock, Parameters};
use rand::SeedableRng;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Bw = BW6_761;
type Params = Parameters<Bw, ark_bls12_377::Bls12_377>;
pub struct Light;
pub const TAMPER: [&str; 8] = ["none", "a_and_c_exchanged", "a_negated", "b_of_another_proof", "other_verifying_key", "verifying_key_inputs_permuted", "verifying_key_input_missing", "c_doubled"];
pub const BYTES: [&str; 9] = ["none", "proof_bit_flip", "key_bit_flip", "proof_truncated", "key_truncated", "public_key_bytes_damaged", "proof_point_outside_the_subgroup", "empty_proof", "random_proof"];
fn ser<T: CanonicalSerialize>(t: &T) -> Vec<u8> { let mut v = vec![]; t.serialize(&mut v).expect("serialize"); v }
fn params(n: usize, m: usize, mns: usize, helper: bool) -> Result<Params, String> {
    let mut rng = rand_chacha::ChaChaRng::seed_from_u64(0x5e7 + n as u64 * 64 + m as u64 * 8 + helper as u64);
    catch_unwind(AssertUnwindSafe(|| trusted_setup(n, m, mns, &mut rng, helper))).map_err(|_| "panicked".to_string())?.map_err(|e| format!("{:?}", e))
}
/// A copy of the block with one field altered on its way to the client.
pub fn mutate(b: &Blk, kind: u64, arg: u64) -> Blk {
    let mut b = b.clone(); let n = b.keys.len().max(1);
    match kind {
        1 => b.index = b.index.wrapping_add(if arg % 2 == 0 { 1 } else { 1 << (arg % 16) }),
        2 => b.round ^= 1 << (arg % 8),
        3 => b.entropy = 900 + arg % 50,
        4 => b.parent = 900 + arg % 50,
        5 => b.mns ^= 1 << (arg % 32),
        6 => if n > 1 { let i = (arg as usize) % n; let j = (i + 1) % n; b.keys.swap(i, j) },
        7 => { let i = (arg as usize) % n; b.keys[i] = (0..world::NK).find(|k| !b.keys.contains(k)).unwrap_or(0) }
        8 => { b.keys.remove((arg as usize) % n); }
        9 => { let i = (arg as usize) % n; let k = b.keys[i]; b.keys.insert(i, k) }
        10 => { let i = (arg as usize) % n; b.keys[i] = PAD }
        _ => {}
    }
    b
}
const FIELD: [&str; 11] = ["", "index_altered", "round_altered", "entropy_altered", "parent_entropy_altered", "threshold_altered", "keys_reordered", "key_replaced", "key_dropped", "key_repeated", "key_blanked"];
/// What a proof binds of its first and of its last block.
fn bound_first(b: &Blk) -> (u16, Vec<u8>, u32, Vec<usize>) { (b.index, value(b.parent), b.mns, b.keys.clone()) }
fn bound_last(b: &Blk) -> (u16, Vec<u8>, u32, Vec<usize>) { (b.index, value(b.entropy), b.mns, b.keys.clone()) }
fn value(e: u64) -> Vec<u8> { chain::entropy(e).unwrap_or_else(|| vec![0; 16]) }
struct Made { proof: Proof<Bw>, key: (usize, bool), valid: bool, first: Blk, last: Blk }
/// The C view of a block; the buffers must outlive the call.
pub struct Raw { keys: Vec<u8>, ee: Option<Vec<u8>>, pe: Option<Vec<u8>> }
pub fn raw(b: &Blk) -> Raw { let mut keys = vec![]; for k in &b.keys { chain::pk(*k).into_affine().serialize(&mut keys).unwrap(); } Raw { keys, ee: chain::entropy(b.entropy), pe: chain::entropy(b.parent) } }
pub fn ffi(b: &Blk, r: &Raw) -> EpochBlockFFI {
    let p = |e: &Option<Vec<u8>>| e.as_ref().map_or(std::ptr::null(), |v| v.as_ptr());
    EpochBlockFFI { index: b.index, round: b.round, epoch_entropy: p(&r.ee), parent_entropy: p(&r.pe), pubkeys: r.keys.as_ptr(), pubkeys_num: b.keys.len(), maximum_non_signers: b.mns, maximum_validators: b.keys.len() }
}
fn call(vk: &[u8], proof: &[u8], f: EpochBlockFFI, l: EpochBlockFFI) -> Result<bool, ()> { catch_unwind(AssertUnwindSafe(|| unsafe { bls_snark_sys::snark::verify(vk.as_ptr(), vk.len() as u32, proof.as_ptr(), proof.len() as u32, f, l) })).map_err(|_| ()) }
/// A point of the curve group that is outside the prime-order subgroup, near x.
fn stray(seed: u64) -> ark_bw6_761::G1Affine {
    use ark_ff::UniformRand; let mut r = rand_chacha::ChaChaRng::seed_from_u64(seed);
    loop { let x = ark_bw6_761::Fq::rand(&mut r); if let Some(p) = ark_bw6_761::G1Affine::get_point_from_x(x, seed & 1 == 1) { if !p.is_in_correct_subgroup_assuming_on_curve() { return p; } } }
}
/// The torsion part of a stray point: adding it to a proof element leaves every pairing unchanged.
fn torsion(seed: u64) -> ark_bw6_761::G1Affine { use ark_ff::{PrimeField, FpParameters}; stray(seed).into_projective().mul(<ark_bw6_761::Fr as PrimeField>::Params::MODULUS).into_affine() }
fn window(w: &World, from: usize, count: usize) -> World { let mut v = w.clone(); v.init = if from == 0 { w.init.clone() } else { w.eps[from - 1].blk.clone() }; v.eps = w.eps[from..from + count].to_vec(); v }

impl Scenario for Light {
    fn gen(&self, r: &mut Rng, prop: &str, tier: u32) -> Vec<Step> {
        if prop == "P04" && r.chance(1, 8) {
            // the network's own relayed proof, made by the production prover
            let mut v = vec![];
            for _ in 0..r.range(1, 4) { let m = r.chance(2, 3) as u64; v.push(st("genuine", &[m * r.below(11), m * r.below(11), r.next() >> 30, (1 - m) * r.below(BYTES.len() as u64), r.next() >> 30])); }
            return v;
        }
        let n = r.range(1, if tier > 0 { 5 } else { 4 }) as usize;
        let e = r.range(1, if tier > 0 { 5 } else { 3 }) as usize;
        let mut v = base_chain(r, n, e, false);
        let eps: Vec<usize> = (0..v.len()).filter(|i| v[*i].op == "ep").collect();
        if r.chance(1, 3) { let i = *r.pick(&eps); match r.below(6) { 0 => v[i].a[8] = 1 + r.below((1 << n) - 1), 1 => v[i].a[6] = 1 + r.below(3), 2 => v[i].a[7] = 1 + r.below(6), 3 => v[i].a[9] = 1 + r.below(8), 4 => v[i].a[10] = 1 + r.below(2), _ => v[i].a[12] = (1 << n) - 1 } }
        v.insert(0, st("shape", &[n as u64, 0]));
        let proofs = r.range(1, 2);
        for _ in 0..proofs {
            let from = if r.chance(2, 3) { 0 } else { r.below(e as u64) };
            let count = if r.chance(2, 3) { e as u64 - from } else { 1 + r.below(e as u64 - from) };
            v.push(st("prove", &[from, count, if r.chance(1, 2) { 0 } else { r.below(3) }, r.chance(1, 8) as u64, r.below(4)]));
        }
        for _ in 0..r.range(1, 5) {
            let c = r.chance(1, 3);
            // proof, first block, last block (0: the proven ones), alterations of each, tampering with the proof, client
            let (mf, ml) = if r.chance(1, 2) { if r.chance(1, 2) { (1 + r.below(10), 0) } else { (0, 1 + r.below(10)) } } else { (0, 0) };
            let (t, y) = if mf + ml == 0 && r.chance(1, 2) { (r.below(TAMPER.len() as u64), r.below(BYTES.len() as u64)) } else { (0, 0) };
            v.push(st("deliver", &[r.below(proofs), if c { 1 + r.below(e as u64 + 1) } else { 0 }, if c { 1 + r.below(e as u64 + 1) } else { 0 }, mf, ml, r.next() >> 30, t, y]));
        }
        v
    }
    fn exec(&self, steps: &[Step], cx: &mut Cx) {
        let w = build(steps, false);
        let over_ffi = cx.prop == "P04";
        let p = cx.prop.clone();
        cx.log(|| format!("plan {:?}", steps));
        let mut keys: BTreeMap<(usize, bool), Params> = BTreeMap::new();
        let mut made: Vec<Made> = vec![];
        for s in steps {
            if cx.stop() { return; }
            match s.op.as_str() {
                "prove" => {
                    if w.eps.is_empty() { continue; }
                    let from = (s.arg(0) as usize).min(w.eps.len() - 1); let count = (s.arg(1) as usize).clamp(1, w.eps.len() - from);
                    let v = window(&w, from, count); let m = count + s.arg(2) as usize; let helper = s.arg(3) == 1;
                    let k = (m, helper);
                    // a block of index 0 after the first is no block of a chain (the index wrapped)
                    if v.eps.iter().any(|e| e.dummy) { cx.probe("index_wrapped"); continue; }
                    if !keys.contains_key(&k) {
                        match params(w.n, m, s.arg(4) as usize, helper) { Ok(x) => { keys.insert(k, x); } Err(e) => { cx.check(&p, "setup_failed", false, || format!("trusted_setup({}, {}, helper {}) {}", w.n, m, helper, e)); return; } }
                    }
                    let ps = &keys[&k];
                    for (i, name) in [(8, "bitmap_lies"), (6, "index_gap"), (7, "other_parent_entropy"), (9, "altered_message"), (10, "other_signer_set"), (12, "quorum_missed")] { if steps.iter().filter(|s| s.op == "ep").skip(from).take(count).any(|s| s.arg(i) > 0) { cx.fault(name); } }
                    if m > count { cx.fault("padded_with_dummies"); }
                    if helper { cx.fault("hash_helper"); }
                    let truth = v.verdict();
                    ark_groth16::take_log();
                    let first = v.init.native();
                    let r = catch_unwind(AssertUnwindSafe(|| prove(ps, w.n as u32, &first, &v.transitions(), m)));
                    let syn = ark_groth16::take_log();
                    cx.ops += 1; cx.simtime += count as u64 * 86400;
                    let proof = match &r { Ok(Ok(p)) => Some(p.clone()), _ => None };
                    let accepted = proof.as_ref().map_or(false, |q| verify(&ps.epochs.vk, &first, &v.last().native(), q).is_ok());
                    let how = syn.last().map(|s| format!("satisfied {} {:?} shape {} ", s.satisfied, s.bad, s.shape == s.expected_shape)).unwrap_or_default();
                    let t = match &truth { Verdict::True => "true".to_string(), Verdict::False(m) => format!("false: {}", m), Verdict::Unjudged(m) => format!("unjudged: {}", m) };
                    cx.log(|| format!("prove {}+{} of {} padded to {} helper {}: {} -> {} accepted {} {}", from, count, w.eps.len(), m, helper, t, proof.is_some(), accepted, how));
                    cx.state(hash(format!("{} {} {} {} {}", w.n, count, m, helper, t).as_bytes()));
                    let valid = match truth {
                        Verdict::True => {
                            cx.probe("true_statement");
                            let shape = syn.last().map_or(true, |s| s.shape == s.expected_shape);
                            if helper && m == count && syn.len() > 1 { cx.check("P03", "helper_refused", syn[0].satisfied && syn[0].shape == syn[0].expected_shape, || format!("the hash helper's own circuit is not satisfied or not the one set up ({:?})", syn[0].bad)); }
                            cx.check("P03", "shape", shape, || format!("the circuit proved ({} epochs padded to {}, {} validators) is not the one parameters were made for", count, m, w.n));
                            cx.check(&p, "true_statement_refused", accepted, || format!("no acceptable proof of a true chain of {} epochs padded to {} ({}prove {:?})", count, m, how, r.as_ref().map(|x| x.is_ok()).ok()));
                            accepted
                        }
                        Verdict::False(m) => { cx.probe("false_statement"); cx.check(&p, "false_statement_accepted", !accepted, || format!("a proof of a false statement is accepted: {}", m)); false }
                        Verdict::Unjudged(_) => { cx.probe("unjudged"); continue; }
                    };
                    if let Some(proof) = proof { made.push(Made { proof, key: k, valid, first: v.init.clone(), last: v.last().clone() }); }
                }
                "deliver" => {
                    if made.is_empty() { continue; }
                    let d = &made[s.arg(0) as usize % made.len()];
                    let pick = |i: u64, own: &Blk| -> Blk { if i == 0 { own.clone() } else if i == 1 { w.init.clone() } else { w.eps[(i as usize - 2).min(w.eps.len() - 1)].blk.clone() } };
                    let (f0, l0) = (pick(s.arg(1), &d.first), pick(s.arg(2), &d.last));
                    let (f, l) = (mutate(&f0, s.arg(3), s.arg(5)), mutate(&l0, s.arg(4), s.arg(5)));
                    if l.keys.iter().map(|k| chain::sk(*k)).fold(<ark_bls12_377::Fr as ark_ff::Zero>::zero(), |a, x| a + x) == ark_ff::Zero::zero() { continue; }
                    let same = bound_first(&f) == bound_first(&d.first) && bound_last(&l) == bound_last(&d.last);
                    let mut vk = keys[&d.key].epochs.vk.clone(); let mut proof = d.proof.clone();
                    let t = s.arg(6) % TAMPER.len() as u64;
                    let mut touched = t != 0;
                    match t {
                        1 => std::mem::swap(&mut proof.a, &mut proof.c),
                        2 => proof.a = -proof.a,
                        3 => { if let Some(o) = made.iter().find(|o| o.proof.b != d.proof.b) { proof.b = o.proof.b; } else { touched = false; } }
                        4 => { if let Some(o) = keys.iter().find(|o| *o.0 != d.key) { vk = o.1.epochs.vk.clone(); } else { touched = false; } }
                        5 => { let k = vk.gamma_abc_g1.len(); if k > 2 { vk.gamma_abc_g1.swap(k - 1, k - 2); } }
                        6 => { vk.gamma_abc_g1.pop(); }
                        7 => proof.c = proof.c.into_projective().double().into_affine(),
                        _ => {}
                    }
                    if touched { cx.fault(TAMPER[t as usize]); }
                    if s.arg(1) > 0 || s.arg(2) > 0 { cx.fault("delivered_with_other_blocks"); }
                    if s.arg(3) > 0 { cx.fault(FIELD[s.arg(3) as usize % 11]); } if s.arg(4) > 0 { cx.fault(FIELD[s.arg(4) as usize % 11]); }
                    let want = d.valid && same && !touched;
                    cx.ops += 1;
                    if !over_ffi {
                        let got = catch_unwind(AssertUnwindSafe(|| verify(&vk, &f.native(), &l.native(), &proof).is_ok()));
                        cx.log(|| format!("deliver {:?}: want {} got {:?}", s.a, want, got.as_ref().ok()));
                        judge(cx, &p, want, got.map_err(|_| ()), || format!("first {:?} last {:?}; proven first {:?} last {:?}; {}", f, l, d.first, d.last, TAMPER[t as usize]));
                    } else {
                        let (rf, mut rl) = (raw(&f), raw(&l)); let (mut vb, mut pb) = (ser(&vk), ser(&proof));
                        let y = s.arg(7) % BYTES.len() as u64;
                        let hurt = damage(y, s.arg(5), &mut vb, &mut pb, &mut rl.keys, &proof);
                        if hurt { cx.fault(BYTES[y as usize]); }
                        let got = call(&vb, &pb, ffi(&f, &rf), ffi(&l, &rl));
                        let want = want && !hurt;
                        cx.log(|| format!("deliver {:?}: want {} got {:?}", s.a, want, got));
                        judge(cx, &p, want, got, || format!("first {:?} last {:?}; proven first {:?} last {:?}; {}; bytes {}", f, l, d.first, d.last, TAMPER[t as usize], BYTES[y as usize]));
                    }
                }
                "genuine" => {
                    let g = genuine(); let (mut vb, mut pb) = (g.vk.clone(), g.proof.clone());
                    let (mut f, mut l) = (g.first.clone(), g.last.clone());
                    let (mf, ml) = (alter(&mut f, s.arg(0), s.arg(2)), alter(&mut l, s.arg(1), s.arg(2)));
                    // the round, the last block's parent entropy and the first block's own entropy are not bound
                    let bound = (mf && !matches!(s.arg(0), 2 | 3)) || (ml && !matches!(s.arg(1), 2 | 4));
                    let y = s.arg(3) % BYTES.len() as u64;
                    let pr = Proof::<Bw>::deserialize(&mut &g.proof[..]).expect("the genuine proof");
                    let hurt = damage(y, s.arg(4), &mut vb, &mut pb, &mut l.keys, &pr);
                    if hurt { cx.fault(BYTES[y as usize]); }
                    cx.probe("genuine_proof"); cx.ops += 1;
                    if mf { cx.fault(FIELD[s.arg(0) as usize % 11]); } if ml { cx.fault(FIELD[s.arg(1) as usize % 11]); }
                    let got = call(&vb, &pb, f.ffi(), l.ffi());
                    let want = !bound && !hurt;
                    cx.log(|| format!("genuine {:?}: want {} got {:?}", s.a, want, got));
                    cx.state(hash(format!("genuine {} {} {}", s.arg(0), s.arg(1), y).as_bytes()));
                    judge(cx, &p, want, got, || format!("the production proof with first-block alteration {}, last-block alteration {}, bytes {}", s.arg(0), s.arg(1), BYTES[y as usize]));
                }
                _ => {}
            }
        }
    }
}
fn judge(cx: &mut Cx, p: &str, want: bool, got: Result<bool, ()>, what: impl Fn() -> String) {
    match got {
        Err(()) => { cx.check(p, "verifier_crashed", false, || format!("the verifier panics: {}", what())); }
        Ok(g) => { cx.probe(if want { "honest_delivery" } else { "bad_delivery" }); let c = if want { "valid_proof_refused" } else { "wrong_proof_accepted" }; cx.check(p, c, g == want, || what()); }
    }
}
/// Damages serialised data; false if this kind of damage leaves it as it was.
fn damage(kind: u64, arg: u64, vk: &mut Vec<u8>, proof: &mut Vec<u8>, keys: &mut Vec<u8>, p: &Proof<Bw>) -> bool {
    match kind {
        1 => { let b = arg as usize % (proof.len() * 8); proof[b / 8] ^= 1 << (b % 8); true }
        2 => { let b = arg as usize % (vk.len() * 8); vk[b / 8] ^= 1 << (b % 8); true }
        3 => { let l = arg as usize % proof.len(); proof.truncate(l); true }
        4 => { let l = arg as usize % vk.len(); vk.truncate(l); true }
        5 => { if keys.is_empty() { return false; } let b = arg as usize % (keys.len() * 8); keys[b / 8] ^= 1 << (b % 8); true }
        6 => { let mut q = p.clone(); let t = torsion(arg % 64).into_projective(); if arg & 64 == 0 { q.a = (q.a.into_projective() + t).into_affine(); } else { q.c = (q.c.into_projective() + t).into_affine(); } *proof = ser(&q); true }
        7 => { proof.clear(); true }
        8 => { let l = proof.len(); *proof = Rng::new(arg).bytes(l); true }
        _ => false,
    }
}
#[derive(Clone)]
pub struct Gen { index: u16, round: u8, ee: Option<Vec<u8>>, pe: Option<Vec<u8>>, mns: u32, keys: Vec<u8> }
impl Gen { fn ffi(&self) -> EpochBlockFFI { let p = |e: &Option<Vec<u8>>| e.as_ref().map_or(std::ptr::null(), |v| v.as_ptr()); EpochBlockFFI { index: self.index, round: self.round, epoch_entropy: p(&self.ee), parent_entropy: p(&self.pe), pubkeys: self.keys.as_ptr(), pubkeys_num: self.keys.len() / 96, maximum_non_signers: self.mns, maximum_validators: self.keys.len() / 96 } } }
pub struct Genuine { vk: Vec<u8>, proof: Vec<u8>, first: Gen, last: Gen }
fn alter(b: &mut Gen, kind: u64, arg: u64) -> bool {
    let n = b.keys.len() / 96; let i = arg as usize % n; let j = (i + 1) % n;
    match kind {
        1 => b.index ^= 1 << (arg % 16), 2 => b.round ^= 1 << (arg % 8), 3 => b.ee.as_mut().unwrap()[arg as usize % 16] ^= 1 << (arg / 16 % 8), 4 => b.pe.as_mut().unwrap()[arg as usize % 16] ^= 1 << (arg / 16 % 8), 5 => b.mns ^= 1 << (arg % 32),
        6 => { let (a, c) = (b.keys[96 * i..96 * i + 96].to_vec(), b.keys[96 * j..96 * j + 96].to_vec()); b.keys[96 * i..96 * i + 96].copy_from_slice(&c); b.keys[96 * j..96 * j + 96].copy_from_slice(&a); }
        7 => { let mut k = vec![]; chain::pk(arg as usize % world::NK).into_affine().serialize(&mut k).unwrap(); b.keys[96 * i..96 * i + 96].copy_from_slice(&k); }
        8 => { b.keys.drain(96 * i..96 * i + 96); }
        9 => { let k = b.keys[96 * i..96 * i + 96].to_vec(); b.keys.extend(k); }
        10 => { let mut k = vec![]; chain::pk(PAD).into_affine().serialize(&mut k).unwrap(); b.keys[96 * i..96 * i + 96].copy_from_slice(&k); }
        _ => return false,
    }
    true
}
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
/// A proof over three blocks of four validators made by the production prover with real arkworks parameters.
pub fn genuine() -> &'static Genuine {
    static G: std::sync::OnceLock<Genuine> = std::sync::OnceLock::new();
    G.get_or_init(|| { let t: Vec<Vec<u8>> = include_str!("genuine.txt").lines().map(unhex).collect(); let e = |b: u8| Some(vec![b; 16]);
        Genuine { proof: t[0].clone(), vk: t[1].clone(), first: Gen { index: 0, round: 0, ee: e(1), pe: e(2), mns: 1, keys: t[2].clone() }, last: Gen { index: 2, round: 0, ee: e(3), pe: e(2), mns: 1, keys: t[3].clone() } } })
}
#[allow(dead_code)] fn _unused(_: &VerifyingKey<Bw>, _: &EpochBlock) {}
