//! Strict batch verification against an adaptive forger who sees the randomness of earlier
//! calls, chooses errors that cancel under guessed or observed weights, and drives many calls.
use super::ffi::{extra, message, strict_call};
use crate::core::*;
use crate::refimpl;
use crate::rng::Rng;
use crate::world::*;
use ark_ec::msm;
use ark_ff::{Field, FromBytes, One, Zero};
use bls_crypto::hash_to_curve::{try_and_increment::*, try_and_increment_cip22::*};
use bls_crypto::{bls::Batch, PublicKey, Signature};

pub struct Strict;
fn ok(b: &Batch, mode: u64, each: bool) -> bool {
    match (mode, each) {
        (0, false) => b.verify(&*DIRECT_HASH_TO_G1).is_ok(), (1, false) => b.verify(&*COMPOSITE_HASH_TO_G1).is_ok(), (_, false) => b.verify(&*COMPOSITE_HASH_TO_G1_CIP22).is_ok(),
        (0, true) => b.verify_each(&*DIRECT_HASH_TO_G1).is_ok(), (1, true) => b.verify_each(&*COMPOSITE_HASH_TO_G1).is_ok(), (_, true) => b.verify_each(&*COMPOSITE_HASH_TO_G1_CIP22).is_ok(),
    }
}
fn to_fr(l: &[u64]) -> Option<Fr> { let v: Vec<u8> = l.iter().flat_map(|x| x.to_le_bytes()).collect(); Fr::read(&v[..]).ok() }
/// Verifies on this thread or a fresh one; returns the verdict and the observed weights.
fn verify(b: &Batch, mode: u64, fresh: bool) -> (bool, Vec<Vec<u64>>) {
    let go = || { msm::log_start(); let r = ok(b, mode, false); let l = msm::log_take(); (r, l.into_iter().next().unwrap_or_default()) };
    if fresh { std::thread::scope(|s| s.spawn(go).join().unwrap_or((false, vec![]))) } else { go() }
}
impl Scenario for Strict {
    fn gen(&self, r: &mut Rng, prop: &str, tier: u32) -> Vec<Step> {
        let mut v = vec![]; let mode = r.below(3); let n = r.range(2, 7); let big = r.chance(1, 12);
        let k = r.range(6, if tier > 0 { 40 } else { 16 });
        if prop == "F05" { for _ in 0..r.range(2, 8) { v.push(st("ffi", &[if r.chance(1, 8) { 3 } else { r.below(3) }, 1 + r.below(6), r.below(1 << 40), r.below(6)])); } return v; }
        if prop == "S04" && r.chance(1, 3) { v.push(st("sample", &[mode, n, r.below(1 << 20), 40])); }
        if prop == "S04" { for _ in 0..r.below(3) { v.push(st("ffi", &[r.below(3), 1 + r.below(4), r.below(1 << 40), r.below(6)])); } }
        for _ in 0..k {
            let n = if big { *r.pick(&[17, 33, 64]) } else if r.chance(3, 4) { n } else { r.range(1, 9) };
            let m = if r.chance(1, 5) { r.below(3) } else { mode };
            let kind = match prop { "S05" => r.below(12), _ => if r.chance(1, 4) { 0 } else { r.below(12) } };
            v.push(st(if prop == "S05" { "each" } else { "verify" }, &[m, r.below(40), r.below(30), n, r.below(1 << 20), kind, r.below(1 << 30), r.below(6)]));
        }
        v
    }
    fn exec(&self, steps: &[Step], cx: &mut Cx) {
        let mut book = Book::new(); let mut seen: Vec<Vec<Fr>> = vec![];
        for s in steps {
            if cx.stop() { return; }
            cx.ops += 1; cx.simtime += 1;
            match s.op.as_str() {
                "ffi" => { strict_call(&mut book, s.arg(0), s.arg(1), s.arg(2), s.arg(3), cx); }
                "sample" => {
                    // observed weights: how many of their bits actually vary from call to call
                    let (mode, n) = (s.arg(0), s.arg(1).clamp(2, 8) as usize); let m = message(1); let id = match book.id(mode, refimpl::SIG, &m, &[]) { Some(x) => x.0, None => continue };
                    let mut pos: Vec<Vec<Vec<u64>>> = vec![vec![]; n];
                    for c in 0..s.arg(3).min(60) {
                        let mut b = Batch::new(&m, &[]); for i in 0..n { let k = (s.arg(2) as usize + i) % NK; b.add(PublicKey::from(pool().pk[k]), Signature::from(book.point(&fone(id, &pool().sk[k])))); }
                        let (r, e) = verify(&b, mode, c % 9 == 8);
                        cx.check("S04", "strict-rejects-valid", r, || format!("a batch of {} valid signatures was rejected", n));
                        if e.len() == n { for (i, x) in e.into_iter().enumerate() { pos[i].push(x); } }
                        if cx.stop() { return; }
                    }
                    if pos.iter().all(|p| p.len() >= 40) {
                        let vary = |p: &Vec<Vec<u64>>| { let w = p[0].len(); (0..w).map(|j| { let (mut o, mut a) = (0, u64::MAX); for x in p { o |= x[j]; a &= x[j]; } (o & !a).count_ones() }).sum::<u32>() };
                        let mut w: Vec<u32> = pos.iter().map(vary).collect(); w.sort(); cx.probe("weights_sampled");
                        // one weight may be a constant without loss
                        cx.check("S04", "weights-not-random", w[1] >= 120, || format!("over {} calls only {:?} bits of the combining weights vary", pos[0].len(), w));
                        cx.log(|| format!("sample {:?}", w));
                    }
                }
                _ => {
                    let (mode, n, kind) = (s.arg(0) % 3, s.arg(3).clamp(1, 80) as usize, s.arg(5)); let mut r = Rng::new(s.arg(6));
                    let (m, e) = (message(s.arg(1)), extra(s.arg(2)));
                    let id = match book.id(mode, refimpl::SIG, &m, &e) { Some(x) => x.0, None => continue };
                    let ks: Vec<usize> = (0..n).map(|i| (s.arg(4) as usize + i * (1 + s.arg(4) as usize % 3)) % NK).collect();
                    let good: Vec<Form> = ks.iter().map(|k| fone(id, &pool().sk[*k])).collect();
                    let mut f = good.clone();
                    let base = if r.chance(1, 2) { id } else { 0 };
                    let mut bump = |f: &mut Vec<Form>, d: &[Fr]| for (i, x) in d.iter().enumerate() { f[i] = fadd(&f[i], &fone(base, x)); };
                    // weights w with sum w_i d_i = 0 over the batch
                    let cancel = |w: &[Fr], r: &mut Rng| -> Vec<Fr> { let mut d: Vec<Fr> = (0..w.len()).map(|_| if r.chance(1, 2) { fr(r.below(1 << 30)) } else { Fr::zero() }).collect(); let j = r.below(w.len() as u64) as usize; if w[j].is_zero() { return d; } if w.len() > 1 { d[(j + 1) % w.len()] = Fr::one(); } d[j] = Fr::zero(); let t: Fr = w.iter().zip(&d).map(|(a, b)| *a * b).sum(); d[j] = -t * w[j].inverse().unwrap(); d };
                    let mut name = "";
                    match kind {
                        1 => { let i = r.below(n as u64) as usize; let mut d = vec![Fr::zero(); n]; d[i] = fr(r.below(1 << 30)); bump(&mut f, &d); name = "single_forgery"; }
                        2 if n > 1 => { let d = cancel(&vec![Fr::one(); n], &mut r); bump(&mut f, &d); name = "compensating_forgery"; }
                        3 if n > 1 => { let w: Vec<Fr> = (0..n as u64).map(|i| Fr::from(i + 1)).collect(); let d = cancel(&w, &mut r); bump(&mut f, &d); name = "forgery_for_index_weights"; }
                        4 if n > 1 => { let b = Fr::from(*r.pick(&[2u64, 3, 256, 65536])); let mut x = Fr::one(); let w: Vec<Fr> = (0..n).map(|_| { let y = x; x *= b; y }).collect(); let d = cancel(&w, &mut r); bump(&mut f, &d); name = "forgery_for_power_weights"; }
                        5 | 6 | 10 => { let c: Vec<&Vec<Fr>> = seen.iter().filter(|x| x.len() == n).collect(); if n > 1 && !c.is_empty() { let w = if kind == 5 { c[c.len() - 1].clone() } else { (*r.pick(&c)).clone() }; let d = cancel(&w, &mut r); bump(&mut f, &d); name = "forgery_for_observed_weights"; } }
                        7 if n > 1 => { let (i, j) = (r.below(n as u64) as usize, r.below(n as u64) as usize); f.swap(i, j); name = "swapped_signatures"; }
                        8 => { let i = r.below(n as u64) as usize; f[i] = Form::new(); name = "identity_signature"; }
                        9 => { if let Some((o, _)) = book.id(mode, refimpl::SIG, &message(s.arg(1) + 1), &e) { for (x, k) in f.iter_mut().zip(&ks) { *x = fone(o, &pool().sk[*k]); } name = "signatures_on_other_message"; } }
                        11 if n > 1 => { let mut a = Form::new(); for x in &good { a = fadd(&a, x); } f = vec![Form::new(); n]; let i = r.below(n as u64) as usize; f[i] = a; name = "aggregate_in_one_slot"; }
                        _ => {}
                    }
                    if !name.is_empty() { cx.fault(name); }
                    let want = f == good;
                    let mut b = Batch::new(&m, &e); let re = s.arg(7);
                    for (k, x) in ks.iter().zip(&f) { b.add(PublicKey::from(rescale(&pool().pk[*k], re & 1)), Signature::from(rescale1(&book.point(x), re & 1))); }
                    if s.op == "each" {
                        let g = ok(&b, mode, true);
                        cx.check("S05", "each-wrong", g == want, || format!("verifying {} entries one by one returned {} but all-valid is {} ({})", n, g, want, name));
                        cx.log(|| format!("each {:?} {}", s.a, g));
                    } else {
                        let (g, w) = verify(&b, mode, re == 5);
                        if !want { cx.check("S04", "strict-accepts-invalid", !g, || format!("a batch of {} containing invalid signatures was accepted ({})", n, name)); } else { cx.check("S04", "strict-rejects-valid", g, || format!("a batch of {} valid signatures was rejected", n)); }
                        if re == 4 { let (g2, _) = verify(&b, mode, false); cx.check("S04", "strict-verdict-changes", g2 == want, || format!("verifying the same batch again returned {}", g2)); }
                        if w.len() == n { if let Some(w) = w.iter().map(|x| to_fr(x)).collect::<Option<Vec<Fr>>>() { seen.push(w); } }
                        cx.log(|| format!("verify {:?} {}", s.a, g));
                    }
                    cx.probe(if want { "all_valid" } else { "some_invalid" });
                    cx.state(hash(&[n as u8, kind as u8, mode as u8, want as u8]));
                }
            }
        }
    }
}
