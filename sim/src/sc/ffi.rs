//! Programs over the C interface: every exported call, handle lifetimes, malformed and guarded
//! caller memory, against a scalar model; the allocator seam judges ownership.
use crate::alloc;
use crate::core::*;
use crate::guard::Guard;
use crate::refimpl::{self, Blk};
use crate::rng::Rng;
use crate::world::*;
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{FromBytes, One, PrimeField, UniformRand, Zero};
use bls_crypto::{PrivateKey, PublicKey, Signature};
use bls_snark_sys::{serialization as se, signatures as sg, snark::epoch_block as eb, utils::*};
use std::convert::TryFrom;
use std::os::raw::c_int;

pub struct Ffi;
struct Sk { p: *mut PrivateKey, s: Fr }
struct Pk { p: *mut PublicKey, s: Fr }
struct Sg { p: *mut Signature, f: Form }
pub fn message(seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed ^ 0x3e55);
    let n = match seed % 16 { 0 => 0, 1 => 1, 2..=6 => 32, 7 => 8, 8 => 64, 9 => 65, 10 => 127, 11 => 128, 12 => 200, 13 => 47, 14 => 300, _ => r.below(100) } as usize;
    r.bytes(n)
}
pub fn extra(seed: u64) -> Vec<u8> { let mut r = Rng::new(seed ^ 0xe87a); let n = match seed % 6 { 0 | 1 => 0, 2 => 1, 3 => 7, 4 => 16, _ => r.below(40) } as usize; r.bytes(n) }
pub fn scalar(spec: u64) -> Fr { match spec { 0 => Fr::zero(), 1 => Fr::one(), 2 => -Fr::one(), s => fr(s) } }
const SENT: usize = 0x5e5e_5e5e_5e5e_5e58;
fn ptr_len(g: &Guard, null_empty: bool) -> (*const u8, c_int) { if g.len() == 0 && null_empty { (std::ptr::null(), 0) } else { (g.ptr(), g.len()) } }
fn modes(m: u64) -> (bool, bool, Option<u64>) { match m & 3 { 0 => (false, false, Some(0)), 1 => (true, false, Some(1)), 2 => (true, true, Some(2)), _ => (false, true, None) } }
/// Signature byte strings of known validity.
pub fn sig_encoding(p: &G1, kind: u64, x: u64) -> (Vec<u8>, Option<G1>, bool) {
    let mut v = enc1(p); let mut r = Rng::new(x);
    match kind {
        1 => { let n = 1 + r.below(9) as usize; v.extend(r.bytes(n)); (v, Some(*p), false) }
        2 => { let n = r.below(48) as usize; v.truncate(n); (v, None, true) }
        3 => { v[47] |= 0xc0; (v, None, true) }
        4 => { for b in v.iter_mut() { *b = 0xff; } v[47] = 0x01; (v, None, true) }
        5 => { v[47] |= 1 << (1 + r.below(5)); (v, None, true) }
        6 => (bad1().0[(x % 6) as usize].clone(), None, true),
        7 => (bad1().1[(x % 6) as usize].clone(), None, true),
        8 => { let i = r.below(48) as usize; v[i] ^= 1 << r.below(8); (v, None, false) }
        9 => { v[47] ^= 0x80; (v, Some(-*p), !p.is_zero()) }
        10 => (r.bytes(48), None, false),
        11 => (vec![], None, true),
        _ => (v, Some(*p), true),
    }
}
pub fn bad1() -> &'static (Vec<Vec<u8>>, Vec<Vec<u8>>) {
    use ark_ff::{Field, SquareRootField}; use ark_serialize::CanonicalSerialize;
    static B: std::sync::OnceLock<(Vec<Vec<u8>>, Vec<Vec<u8>>)> = std::sync::OnceLock::new();
    B.get_or_init(|| {
        let mut r = Rng::new(98); let (mut a, mut b) = (vec![], vec![]);
        while a.len() < 6 || b.len() < 6 {
            let x = Fq::rand(&mut r);
            match (x.square() * x + Fq::one()).sqrt() { None => { let mut v = vec![]; x.serialize(&mut v).unwrap(); a.push(v); } Some(y) => b.push(enc1(&ark_bls12_377::G1Affine::new(x, y, false).into_projective())) }
        }
        (a, b)
    })
}
pub fn sk_encoding(s: &Fr, kind: u64, x: u64) -> (Vec<u8>, Option<Fr>, bool) {
    let mut v = encf(s); let mut r = Rng::new(x);
    match kind {
        1 => { let n = 1 + r.below(9) as usize; v.extend(r.bytes(n)); (v, Some(*s), false) }
        2 | 11 => { let n = r.below(32) as usize; v.truncate(n); (v, None, true) }
        3 => { for b in v.iter_mut() { *b = 0xff; } v[31] = 0x12; v[30] = 0xac; (v, None, true) }
        4 => { use ark_ff::FpParameters; let m = <Fr as PrimeField>::Params::MODULUS; let mut o = vec![]; for l in m.as_ref() { o.extend(l.to_le_bytes()); } (o, None, true) }
        5 => { v[31] |= 1 << (5 + r.below(3)); (v, None, true) }
        6 => { for b in v.iter_mut() { *b = 0xff; } (v, None, true) }
        _ => (v, Some(*s), true),
    }
}
pub fn block(seed: u64, keys: Vec<G2>) -> Blk {
    let mut r = Rng::new(seed ^ 0xb10c);
    let e = |r: &mut Rng| if r.chance(1, 4) { None } else { Some(r.bytes(16)) };
    let n = keys.len();
    Blk { index: if r.chance(1, 4) { *r.pick(&[0, 1, 255, 256, 65535]) } else { r.below(65536) as u16 }, round: r.below(256) as u8, epoch: e(&mut r), parent: e(&mut r), mns: if r.chance(1, 4) { *r.pick(&[0, 1, 65536, u32::MAX]) } else { r.below(1 << 32) as u32 }, maxv: match r.below(4) { 0 => n, 1 => n + r.below(4) as usize, 2 => n.saturating_sub(1), _ => n + 1 }, keys }
}
impl Scenario for Ffi {
    fn gen(&self, r: &mut Rng, prop: &str, tier: u32) -> Vec<Step> {
        let n = r.range(10, if tier > 0 { 50 } else { 28 });
        let mut v = vec![];
        //            0     1     2      3      4        5      6         7       8       9       10       11      12      13      14    15     16      17     18      19      20
        let ops = ["gen", "desk", "pk", "sign", "pop", "verify", "vpop", "aggpk", "subpk", "aggsig", "batch", "strict", "depk", "desig", "ser", "comp", "hash", "epoch", "eblk", "free", "null"];
        let w: [u64; 21] = match prop {
            "F02" => [2, 3, 3, 4, 1, 2, 1, 3, 2, 2, 2, 2, 3, 3, 8, 4, 4, 3, 2, 6, 2],
            "F03" => [1, 8, 2, 2, 1, 2, 1, 2, 1, 1, 1, 1, 10, 8, 2, 8, 3, 1, 4, 3, 2],
            "E02" => [2, 1, 8, 0, 0, 0, 0, 2, 0, 0, 0, 0, 4, 0, 0, 0, 0, 12, 12, 2, 0],
            _ => [1, 3, 4, 8, 3, 6, 3, 3, 3, 3, 3, 3, 2, 2, 3, 2, 5, 2, 1, 3, 1],
        };
        for i in 0..4 { v.push(st("desk", &[3 + r.below(40), 0, 0])); v.push(st("pk", &[i, 0])); if r.chance(2, 3) { v.push(st("sign", &[i, r.below(40), r.below(30), r.below(3)])); } }
        for _ in 0..n {
            let o = ops[r.weighted(&w)];
            let bad = if prop == "F03" { r.chance(2, 3) } else { r.chance(1, 6) };
            let kind = if bad { r.below(12) } else { 0 };
            let msg = r.below(40); let ex = r.below(30); let mode = if r.chance(1, 8) { 3 } else { r.below(3) };
            let h = |r: &mut Rng| r.below(64);
            let a: Vec<u64> = match o {
                "gen" => vec![r.below(1 << 20)], "desk" => vec![if r.chance(1, 5) { r.below(3) } else { 3 + r.below(40) }, kind, r.below(1 << 20)],
                "pk" => vec![h(r), 0], "sign" => vec![h(r), msg, ex, mode], "pop" => vec![h(r), msg],
                "verify" => vec![h(r), h(r), msg, ex, mode, r.below(4)], "vpop" => vec![h(r), h(r), msg, r.below(4)],
                "aggpk" | "aggsig" => { let k = r.below(7); (0..k).map(|_| h(r)).collect() }
                "subpk" => { let k = 1 + r.below(5); (0..k).map(|_| h(r)).collect() }
                "batch" => { let k = 1 + r.below(4); let mut v = vec![mode, r.below(5)]; for _ in 0..k { v.extend([h(r), r.below(40), r.below(30)]); } v }
                "strict" => vec![mode, 1 + r.below(4), r.below(1 << 30), r.below(6)],
                "depk" | "desig" => vec![h(r), kind, r.below(1 << 20), r.below(2)],
                "ser" => vec![r.below(3), h(r), r.below(2)], "comp" => vec![r.below(2), h(r), if bad { 1 + r.below(6) } else { 0 }, r.below(1 << 20)],
                "hash" => vec![r.below(6), msg, ex, r.below(5)],
                "epoch" => { let k = r.below(5); let mut v = vec![r.below(2), r.below(1 << 20)]; for _ in 0..k { v.push(h(r)); } v }
                "eblk" => { let k = r.below(5); let mut v = vec![r.below(1 << 20), if bad { 1 + r.below(4) } else { 0 }]; for _ in 0..k { v.push(h(r)); } v }
                "free" => vec![r.below(3), h(r)], _ => vec![r.below(4)],
            };
            v.push(st(o, &a));
        }
        v
    }
    fn exec(&self, steps: &[Step], cx: &mut Cx) {
        // first use of the thread's generator allocates once; not attributable to any later call
        unsafe { let mut o: *mut PrivateKey = std::ptr::null_mut(); sg::generate_private_key(&mut o); se::destroy_private_key(o); }
        alloc::TRACK.store(true, std::sync::atomic::Ordering::SeqCst);
        let mut m = M { book: Book::new(), sk: vec![], pk: vec![], sg: vec![], gen: Default::default(), orig: vec![], nullp: cx.seed & 1 == 0 };
        for s in steps { if cx.stop() { break; } cx.ops += 1; cx.simtime += 1; m.step(s, cx); let f = alloc::fault_seen(); if f > 0 { cx.check("F02", ["", "layout-mismatch", "double-free", "overrun", "write-after-free"][f as usize], false, || format!("allocator misuse during {} {:?}", s.op, s.a)); } }
        if !cx.stop() {
            // exactly-once release of everything still owned
            let n = m.sk.len() + m.pk.len() + m.sg.len(); let before = alloc::live();
            unsafe {
                for x in m.sk.drain(..) { alloc::lib(|| se::destroy_private_key(x.p)); }
                for x in m.pk.drain(..) { alloc::lib(|| se::destroy_public_key(x.p)); }
                for x in m.sg.drain(..) { alloc::lib(|| se::destroy_signature(x.p)); }
            }
            cx.check("F02", "destroy-leak", before - alloc::live() == n, || format!("releasing {} handles released {} allocations", n, before as i64 - alloc::live() as i64));
        }
        alloc::TRACK.store(false, std::sync::atomic::Ordering::SeqCst);
    }
}
struct M { book: Book, sk: Vec<Sk>, pk: Vec<Pk>, sg: Vec<Sg>, gen: std::collections::BTreeSet<Vec<u8>>, nullp: bool, orig: Vec<(usize, u64, u64, u64, bool)> }
fn at<T>(v: &[T], i: u64) -> Option<usize> { if v.is_empty() { None } else { Some((i % v.len() as u64) as usize) } }
/// One call's verdicts about result, ownership and untouched outputs.
fn judge_new(cx: &mut Cx, what: &str, delta: i64, expect_ok: Option<bool>, ok: bool, outp: usize, size: usize, cache: bool) -> bool {
    if let Some(e) = expect_ok { cx.check("F01", "wrong-status", ok == e, || format!("{} returned {} but {} was expected", what, ok, e)); if !e { cx.check("F03", "malformed-accepted", !ok, || format!("{} accepted invalid input", what)); } }
    if ok { cx.check("F02", "no-output", outp != SENT && outp != 0, || format!("{} succeeded without setting its output", what)); if outp == SENT || outp == 0 { return false; } }
    if ok { cx.check("F02", "output-size", alloc::block(outp as *const u8) == Some(size), || format!("{}: output allocation is {:?}, {} expected", what, alloc::block(outp as *const u8), size)); if !cache { cx.check("F02", "leak", delta == 1, || format!("{} left {} allocations", what, delta)); } }
    else { cx.check("F02", "output-touched", outp == SENT, || format!("{} failed but wrote its output", what)); if !cache { cx.check("F02", "leak", delta == 0, || format!("{} failed and left {} allocations", what, delta)); } }
    ok
}
impl M {
    fn push_sk(&mut self, p: *mut PrivateKey, s: Fr) { self.sk.push(Sk { p, s }); }
    fn take_vec(&self, cx: &mut Cx, what: &str, ok: bool, expect: Option<bool>, p: *mut u8, n: c_int, delta: i64) -> Option<Vec<u8>> {
        if !judge_new(cx, what, delta, expect, ok, p as usize, n.max(0) as usize, false) { return None; }
        if cx.stop() { return None; }
        let v = unsafe { std::slice::from_raw_parts(p, n as usize).to_vec() };
        let before = alloc::live();
        let f = unsafe { alloc::lib(|| se::free_vec(p, n)) };
        cx.check("F02", "free-vec", f && before - alloc::live() == 1, || format!("{}: releasing the returned buffer returned {}", what, f));
        Some(v)
    }
    fn step(&mut self, s: &Step, cx: &mut Cx) {
        let live = || alloc::live() as i64;
        match s.op.as_str() {
            "gen" => {
                let mut o = SENT as *mut PrivateKey; let b = live();
                let ok = unsafe { alloc::lib(|| sg::generate_private_key(&mut o)) };
                let d = live() - b;
                if !judge_new(cx, "generate_private_key", d, Some(true), ok, o as usize, std::mem::size_of::<PrivateKey>(), false) { return; }
                let v: Fr = *unsafe { &*o }.as_ref();
                cx.check("F01", "repeated-key", self.gen.insert(encf(&v)), || "two generated private keys are equal".into());
                self.push_sk(o, v);
            }
            "desk" => {
                let (v, truth, definite) = sk_encoding(&scalar(s.arg(0)), s.arg(1), s.arg(2));
                if s.arg(1) > 0 { cx.fault("malformed_private_key"); }
                let g = Guard::new(&v); let mut o = SENT as *mut PrivateKey; let b = live();
                let ok = alloc::lib(|| se::deserialize_private_key(g.ptr(), g.len(), &mut o));
                let d = live() - b;
                let e = if definite { Some(truth.is_some()) } else { None };
                if judge_new(cx, "deserialize_private_key", d, e, ok, o as usize, std::mem::size_of::<PrivateKey>(), false) {
                    let got: Fr = *unsafe { &*o }.as_ref();
                    if let Some(t) = truth { cx.check("F01", "wrong-private-key", got == t, || "decoded private key differs from the encoded one".into()); }
                    self.push_sk(o, got);
                }
                cx.log(|| format!("desk {:?} {}", s.a, ok));
            }
            "pk" => if let Some(i) = at(&self.sk, s.arg(0)) {
                let mut o = SENT as *mut PublicKey; let b = live(); let p = self.sk[i].p;
                let ok = alloc::lib(|| sg::private_key_to_public_key(p, &mut o));
                let d = live() - b; let sc = self.sk[i].s;
                if judge_new(cx, "private_key_to_public_key", d, Some(true), ok, o as usize, std::mem::size_of::<PublicKey>(), false) {
                    cx.check("F01", "wrong-public-key", *unsafe { &*o }.as_ref() == m2(&g2(), &sc), || "public key does not match the private key".into());
                    self.pk.push(Pk { p: o, s: sc });
                }
                cx.log(|| format!("pk {}", i));
            },
            "sign" | "pop" => if let Some(i) = at(&self.sk, s.arg(0)) {
                let pop = s.op == "pop"; let (msg, ex) = (message(s.arg(1)), if pop { vec![] } else { extra(s.arg(2)) });
                let (c, z, mode) = if pop { (false, false, Some(0)) } else { modes(s.arg(3)) };
                let (gm, ge) = (Guard::new(&msg), Guard::new(&ex)); let (mp, ml) = ptr_len(&gm, self.nullp); let (ep, el) = ptr_len(&ge, self.nullp);
                if self.nullp && (ml == 0 || el == 0) { cx.fault("null_empty_buffer"); }
                let mut o = SENT as *mut Signature; let b = live(); let p = self.sk[i].p;
                let ok = alloc::lib(|| if pop { sg::sign_pop(p, mp, ml, &mut o) } else { sg::sign_message(p, mp, ml, ep, el, c, z, &mut o) });
                let d = live() - b;
                let dom = if pop { refimpl::POP } else { refimpl::SIG };
                let id = mode.and_then(|m| self.book.id(m, dom, &msg, &ex));
                if mode.is_none() { cx.fault("unsupported_mode"); }
                if judge_new(cx, &s.op, d, Some(id.is_some()), ok, o as usize, std::mem::size_of::<Signature>(), false) {
                    if let Some((id, _)) = id {
                        let f = fone(id, &self.sk[i].s); let pt = self.book.point(&f);
                        cx.check("F01", "wrong-signature", *unsafe { &*o }.as_ref() == pt, || format!("{} mode {:?}: signature is not key times hash", s.op, mode));
                        self.sg.push(Sg { p: o, f });
                        self.orig.push((i, s.arg(1), s.arg(2), s.arg(3) & 3, pop));
                    }
                }
                cx.log(|| format!("{} {:?} {}", s.op, s.a, ok));
                cx.check("F02", "input-modified", gm.bytes() == &msg[..] && ge.bytes() == &ex[..], || "caller input was modified".into());
            },
            "verify" | "vpop" => {
                let pop = s.op == "vpop";
                let (pi, si) = match (at(&self.pk, s.arg(0)), at(&self.sg, s.arg(1))) { (Some(a), Some(b)) => (a, b), _ => return };
                // steering: 0 unrelated operands; 1 a call that should verify; 2.. one coordinate changed
                let steer = s.a.last().copied().unwrap_or(0);
                let (mut pi, mut si, mut ms, mut exs, mut md) = (pi, si, s.arg(2), s.arg(3), s.arg(4));
                if steer > 0 && !self.orig.is_empty() {
                    let (ski, m, e, o, opop) = self.orig[(s.arg(1) % self.orig.len() as u64) as usize];
                    let sc = self.sk.get(ski).map(|k| k.s);
                    if let Some(a) = self.pk.iter().position(|p| Some(p.s) == sc) { pi = a; }
                    if opop == pop || steer == 3 {
                        let id = self.book.id(if opop { 0 } else { o }, if opop { refimpl::POP } else { refimpl::SIG }, &message(m), &if opop { vec![] } else { extra(e) }).map(|x| x.0);
                        if let (Some(id), Some(sc)) = (id, sc) { if let Some(b) = self.sg.iter().position(|g| g.f == fone(id, &sc)) { si = b; } }
                        ms = m; exs = e; md = o;
                        if steer == 2 { match s.arg(0) % 3 { 0 => ms = s.arg(2), 1 => exs = s.arg(3), _ => md = s.arg(4) } }
                    }
                }
                let (msg, ex) = (message(ms), if pop { vec![] } else { extra(exs) });
                let (c, z, mode) = if pop { (false, false, Some(0)) } else { modes(md) };
                let dom = if pop { refimpl::POP } else { refimpl::SIG };
                let id = mode.and_then(|m| self.book.id(m, dom, &msg, &ex)).map(|x| x.0);
                let (gm, ge) = (Guard::new(&msg), Guard::new(&ex)); let (mp, ml) = ptr_len(&gm, self.nullp); let (ep, el) = ptr_len(&ge, self.nullp);
                let gv = Guard::new(&[2u8]); let b = live(); let (p, g) = (self.pk[pi].p, self.sg[si].p);
                let out = gv.mut_ptr() as *mut bool;
                let ok = alloc::lib(|| if pop { sg::verify_pop(p, mp, ml, g, out) } else { sg::verify_signature(p, mp, ml, ep, el, g, c, z, out) });
                let d = live() - b; let v = gv.bytes()[0];
                cx.check("F02", "leak", d == 0, || format!("{} left {} allocations", s.op, d));
                cx.check("F01", "wrong-status", ok == mode.is_some(), || format!("{} mode {:?} returned {}", s.op, mode, ok));
                if !ok { cx.check("F02", "output-touched", v == 2, || format!("{} failed but wrote its output", s.op)); }
                else if let Some(id) = id {
                    let want = self.sg[si].f == fone(id, &self.pk[pi].s);
                    cx.probe(if want { "verify_true" } else { "verify_false" });
                    cx.check("F01", "wrong-verdict", v == want as u8, || format!("{} mode {:?}: verdict {} but the signature is {}", s.op, mode, v, want));
                }
                cx.log(|| format!("{} {:?} {} {}", s.op, s.a, ok, v));
            }
            "aggpk" | "subpk" => {
                if self.pk.is_empty() { return; }
                let mut idx: Vec<usize> = s.a.iter().map(|i| at(&self.pk, *i).unwrap()).collect();
                let sub = s.op == "subpk"; let base = if sub { Some(idx.remove(0)) } else { None };
                // distinct keys only: equal keys held through different coordinates are outside the contract
                let mut d: Vec<usize> = vec![]; for i in idx { if !d.iter().any(|j| self.pk[*j].s == self.pk[i].s) { d.push(i); } }
                let sum: Fr = d.iter().map(|i| self.pk[*i].s).sum();
                let want = match base { Some(b) => self.pk[b].s - sum, None => sum };
                let ptrs: Vec<*const PublicKey> = d.iter().map(|i| self.pk[*i].p as *const _).collect();
                let ga = Guard::of(&ptrs); let lp = ga.ptr() as *const *const PublicKey;
                let mut deltas = vec![];
                for round in 0..2 {
                    let mut o = SENT as *mut PublicKey; let b = live();
                    let ok = alloc::lib(|| match base { Some(b) => sg::aggregate_public_keys_subtract(self.pk[b].p, lp, ptrs.len() as c_int, &mut o), None => sg::aggregate_public_keys(lp, ptrs.len() as c_int, &mut o) });
                    deltas.push(live() - b);
                    if !judge_new(cx, &s.op, 0, Some(true), ok, o as usize, std::mem::size_of::<PublicKey>(), true) { return; }
                    cx.check("F01", "wrong-aggregate-key", *unsafe { &*o }.as_ref() == m2(&g2(), &want), || format!("{} of {} keys differs from the sum", s.op, ptrs.len()));
                    if round == 0 { self.pk.push(Pk { p: o, s: want }); } else { cx.check("F02", "leak", deltas[1] == 1, || format!("repeating {} with the same keys left {} allocations", s.op, deltas[1])); unsafe { alloc::lib(|| se::destroy_public_key(o)) }; }
                }
                cx.log(|| format!("{} {:?}", s.op, d));
            }
            "aggsig" => {
                let d: Vec<usize> = s.a.iter().filter_map(|i| at(&self.sg, *i)).collect();
                let want = d.iter().fold(Form::new(), |a, i| fadd(&a, &self.sg[*i].f));
                let ptrs: Vec<*const Signature> = d.iter().map(|i| self.sg[*i].p as *const _).collect();
                let ga = Guard::of(&ptrs); let mut o = SENT as *mut Signature; let b = live();
                let ok = alloc::lib(|| sg::aggregate_signatures(ga.ptr() as *const *const Signature, ptrs.len() as c_int, &mut o));
                let dl = live() - b;
                if judge_new(cx, "aggregate_signatures", dl, Some(true), ok, o as usize, std::mem::size_of::<Signature>(), false) {
                    let pt = self.book.point(&want);
                    cx.check("F01", "wrong-aggregate-signature", *unsafe { &*o }.as_ref() == pt, || format!("aggregate of {} signatures differs from the sum", ptrs.len()));
                    self.sg.push(Sg { p: o, f: want });
                }
                cx.log(|| format!("aggsig {:?}", d));
            }
            "batch" => {
                if self.pk.is_empty() { return; }
                let (c, z, mode) = modes(s.arg(0));
                let mut items = vec![]; // (pk index, msg, extra, id, form)
                for t in s.a[2..].chunks(3) { if t.len() < 3 { break; } let pi = at(&self.pk, t[0]).unwrap(); let (m, e) = (message(t[1]), extra(t[2])); let id = mode.and_then(|md| self.book.id(md, refimpl::SIG, &m, &e)).map(|x| x.0); items.push((pi, Guard::new(&m), Guard::new(&e), id)); }
                if items.is_empty() { return; }
                let mut forms: Vec<Form> = items.iter().map(|(pi, _, _, id)| fone(id.unwrap_or(0), &self.pk[*pi].s)).collect();
                // faults: one wrong, compensating pair (legitimately accepted: only the sum matters), swapped
                let n = forms.len();
                match s.arg(1) { 1 => { cx.fault("forged_item"); forms[0] = fadd(&forms[0], &fone(0, &Fr::one())); } 2 if n > 1 => { cx.fault("compensating_items"); forms[0] = fadd(&forms[0], &fone(0, &fr(9))); forms[1] = fadd(&forms[1], &fone(0, &-fr(9))); } 3 if n > 1 => { cx.fault("swapped_items"); forms.swap(0, 1); } _ => {} }
                let sigs: Vec<Signature> = forms.iter().map(|f| Signature::from(self.book.point(f))).collect();
                let sum = forms.iter().fold(Form::new(), |a, f| fadd(&a, f));
                let mut want = Form::new(); for (pi, _, _, id) in &items { want = fadd(&want, &fone(id.unwrap_or(0), &self.pk[*pi].s)); }
                let msgs: Vec<MessageFFI> = items.iter().zip(&sigs).map(|((pi, m, e, _), sg)| MessageFFI { data: Buffer { ptr: m.ptr(), len: m.len() as usize }, extra: Buffer { ptr: e.ptr(), len: e.len() as usize }, public_key: self.pk[*pi].p, sig: sg }).collect();
                let gv = Guard::new(&[2u8]); let out = gv.mut_ptr() as *mut bool; let b = live();
                let ok = alloc::lib(|| sg::batch_verify_signature(msgs.as_ptr(), msgs.len(), c, z, out));
                let d = live() - b; let v = gv.bytes()[0];
                cx.check("F02", "leak", d == 0, || format!("batch_verify_signature left {} allocations", d));
                cx.check("F01", "wrong-status", ok == mode.is_some(), || format!("batch_verify_signature mode {:?} returned {}", mode, ok));
                if !ok { cx.check("F02", "output-touched", v == 2, || "batch_verify_signature failed but wrote its output".into()); }
                else { cx.probe(if sum == want { "batch_true" } else { "batch_false" }); cx.check("F01", "wrong-verdict", v == (sum == want) as u8, || format!("batch_verify_signature verdict {} but the aggregate is {}", v, sum == want)); }
                cx.log(|| format!("batch {:?} {} {}", s.a, ok, v));
            }
            "strict" => strict_call(&mut self.book, s.arg(0), s.arg(1), s.arg(2), s.arg(3), cx),
            "depk" => {
                let kind = s.arg(1); let cached = s.arg(3) == 1;
                let (v, truth, definite, sc) = match (kind, at(&self.pk, s.arg(0))) { (0, Some(i)) => { let p = *unsafe { &*self.pk[i].p }.as_ref(); (enc2(&p), Some(p), true, Some(self.pk[i].s)) } _ => { let sp = s.arg(0) % 24; let (a, b, c) = super::cache::encoding(sp, kind, s.arg(2)); (a, b, c, Some(if kind == 9 { -key(sp).1 } else { key(sp).1 })) } };
                if kind > 0 { cx.fault("malformed_public_key"); }
                let g = Guard::new(&v);
                for round in 0..(1 + cached as u64) {
                    let mut o = SENT as *mut PublicKey; let b = live();
                    let ok = alloc::lib(|| if cached { se::deserialize_public_key_cached(g.ptr(), g.len(), &mut o) } else { se::deserialize_public_key(g.ptr(), g.len(), &mut o) });
                    let d = live() - b;
                    let e = if definite { Some(truth.is_some()) } else { None };
                    if cached && round == 1 { cx.check("F02", "leak", d == ok as i64, || format!("repeated cached decode left {} allocations", d)); }
                    if judge_new(cx, "deserialize_public_key", d, e, ok, o as usize, std::mem::size_of::<PublicKey>(), cached) {
                        let got = *unsafe { &*o }.as_ref();
                        if definite { if let Some(t) = truth { cx.check("F01", "wrong-public-key", got == t, || "decoded public key differs from the encoded one".into()); cx.check("C02", "wrong-public-key", got == t, || "decoded public key differs from the encoded one".into()); } }
                        if definite && round == 0 { self.pk.push(Pk { p: o, s: sc.unwrap() }); } else { unsafe { alloc::lib(|| se::destroy_public_key(o)) }; }
                    }
                    cx.log(|| format!("depk {:?} {}", s.a, ok));
                }
            }
            "desig" => if let Some(i) = at(&self.sg, s.arg(0)) {
                let base = *unsafe { &*self.sg[i].p }.as_ref(); let kind = s.arg(1);
                let (v, truth, definite) = sig_encoding(&base, kind, s.arg(2));
                if kind > 0 { cx.fault("malformed_signature"); }
                let g = Guard::new(&v); let mut o = SENT as *mut Signature; let b = live();
                let ok = alloc::lib(|| se::deserialize_signature(g.ptr(), g.len(), &mut o));
                let d = live() - b;
                let e = if definite { Some(truth.is_some()) } else { None };
                if judge_new(cx, "deserialize_signature", d, e, ok, o as usize, std::mem::size_of::<Signature>(), false) {
                    let got = *unsafe { &*o }.as_ref();
                    if let (true, Some(t)) = (definite, truth) { cx.check("F01", "wrong-signature-decoded", got == t, || "decoded signature differs from the encoded one".into()); let f = if kind == 9 { fscale(&self.sg[i].f, &-Fr::one()) } else { self.sg[i].f.clone() }; self.sg.push(Sg { p: o, f }); }
                    else { unsafe { alloc::lib(|| se::destroy_signature(o)) }; }
                }
                cx.log(|| format!("desig {:?} {}", s.a, ok));
            },
            "ser" => {
                let mut o = SENT as *mut u8; let mut n: c_int = -7; let unc = s.arg(2) == 1;
                let (ok, want, d) = match s.arg(0) {
                    0 => { let i = match at(&self.sk, s.arg(1)) { Some(i) => i, None => return }; let b = live(); let p = self.sk[i].p; (alloc::lib(|| se::serialize_private_key(p, &mut o, &mut n)), encf(&self.sk[i].s), live() - b) }
                    1 => { let i = match at(&self.pk, s.arg(1)) { Some(i) => i, None => return }; let q = *unsafe { &*self.pk[i].p }.as_ref(); let b = live(); let p = self.pk[i].p; (alloc::lib(|| if unc { se::serialize_public_key_uncompressed(p, &mut o, &mut n) } else { se::serialize_public_key(p, &mut o, &mut n) }), if unc { enc2u(&q) } else { enc2(&q) }, live() - b) }
                    _ => { let i = match at(&self.sg, s.arg(1)) { Some(i) => i, None => return }; let q = *unsafe { &*self.sg[i].p }.as_ref(); let b = live(); let p = self.sg[i].p; (alloc::lib(|| if unc { se::serialize_signature_uncompressed(p, &mut o, &mut n) } else { se::serialize_signature(p, &mut o, &mut n) }), if unc { enc1u(&q) } else { enc1(&q) }, live() - b) }
                };
                if let Some(v) = self.take_vec(cx, "serialize", ok, Some(true), o, n, d) { cx.check("F01", "wrong-encoding", v == want, || format!("serialize kind {} uncompressed {} gives {} bytes that differ", s.arg(0), unc, v.len())); }
                cx.log(|| format!("ser {:?} {}", s.a, n));
            }
            "comp" => {
                let pk = s.arg(0) == 1; let kind = s.arg(2); let mut r = Rng::new(s.arg(3));
                let (mut v, want, zero) = if pk { let i = match at(&self.pk, s.arg(1)) { Some(i) => i, None => return }; let q = *unsafe { &*self.pk[i].p }.as_ref(); (enc2u(&q), enc2(&q), q.is_zero()) } else { let i = match at(&self.sg, s.arg(1)) { Some(i) => i, None => return }; let q = *unsafe { &*self.sg[i].p }.as_ref(); (enc1u(&q), enc1(&q), q.is_zero()) };
                let full = v.len();
                let expect = match kind { 0 => if zero { None } else { Some(true) }, 1 => { let n = r.below(full as u64) as usize; v.truncate(n); Some(false) } 2 => { v.clear(); Some(false) } 3 => { let c = 48 * r.below(full as u64 / 48) as usize; for b in v[c..c + 48].iter_mut() { *b = 0xff; } Some(false) } 4 => { let c = 48 * r.below(full as u64 / 48) as usize; v[c + 47] |= 0x80; Some(false) } 5 => { let n = r.below(20) as usize; v.extend(r.bytes(n)); if zero { None } else { Some(true) } } _ => { v.truncate(full / 2); Some(false) } };
                if kind > 0 { cx.fault("malformed_uncompressed"); }
                let g = Guard::new(&v); let mut o = SENT as *mut u8; let mut n: c_int = -7; let b = live();
                let ok = alloc::lib(|| if pk { se::compress_pubkey(g.ptr(), g.len(), &mut o, &mut n) } else { se::compress_signature(g.ptr(), g.len(), &mut o, &mut n) });
                let d = live() - b;
                if !ok { cx.check("F02", "output-touched", n == -7, || "failed call wrote the output length".into()); }
                if let Some(x) = self.take_vec(cx, "compress", ok, expect, o, n, d) { if expect == Some(true) { cx.check("F01", "wrong-compression", x == want, || "compressed form differs from the canonical encoding".into()); } }
                cx.log(|| format!("comp {:?} {}", s.a, ok));
            }
            "hash" => {
                let (mut msg, ex) = (message(s.arg(1)), extra(s.arg(2))); let kind = s.arg(0);
                let long = s.arg(3) == 4 && s.arg(1) % 3 == 0;
                if long { let mut r = Rng::new(s.arg(1)); let n = if kind == 2 || kind == 3 || kind == 5 { refimpl::CRH_MAX + r.below(3) as usize } else { 5000 }; msg = r.bytes(n); cx.fault("long_message"); }
                let (gm, ge) = (Guard::new(&msg), Guard::new(&ex)); let (mp, ml) = ptr_len(&gm, self.nullp); let (ep, el) = ptr_len(&ge, self.nullp);
                let pop = s.arg(3) & 1 == 1; let dom = if pop { refimpl::POP } else { refimpl::SIG };
                let mut o = SENT as *mut u8; let mut n: c_int = -7; let mut att: c_int = -7; let mut att8: u8 = 0xfe; let hb = 1 + (s.arg(1) * 13 + s.arg(2)) % 200;
                let b = live();
                let ok = alloc::lib(|| match kind {
                    0 => sg::hash_direct(mp, ml, &mut o, &mut n, pop), 1 => sg::hash_direct_with_attempt(mp, ml, &mut o, &mut n, &mut att, pop),
                    2 => sg::hash_composite(mp, ml, ep, el, &mut o, &mut n), 3 => sg::hash_crh(mp, ml, hb as c_int, &mut o, &mut n), 4 => sg::hash_direct_first_step(mp, ml, hb as c_int, &mut o, &mut n),
                    _ => sg::hash_composite_cip22(mp, ml, ep, el, &mut o, &mut n, &mut att8) });
                let d = live() - b;
                let point = |v: &[u8], jac: bool| -> Option<G1> { let mut r = v; let x = Fq::read(&mut r).ok()?; let y = Fq::read(&mut r).ok()?; if jac { let z = Fq::read(&mut r).ok()?; let mut p = g1(); p.x = x; p.y = y; p.z = z; if r.is_empty() { Some(p) } else { None } } else if r == [0] { Some(ark_bls12_377::G1Affine::new(x, y, false).into_projective()) } else { None } };
                let want_pt = |mode, dom: &[u8], ex: &[u8]| refimpl::hash(mode, dom, &msg, ex);
                let (expect, chk): (bool, Box<dyn Fn(&[u8]) -> bool>) = match kind {
                    0 | 1 => { let w = want_pt(0, dom, &[]); let at_ok = kind == 0 || w.map_or(true, |x| x.1 as c_int == att); (w.is_some(), Box::new(move |v| at_ok && point(v, false) == w.map(|x| x.0))) }
                    2 => { let w = want_pt(1, refimpl::SIG, &ex); (w.is_some(), Box::new(move |v| point(v, true) == w.map(|x| x.0))) }
                    3 => { let w = refimpl::composite_crh(&msg); (w.is_some(), Box::new(move |v| Some(v.to_vec()) == w)) }
                    4 => { let w = refimpl::xof(refimpl::SIG, &refimpl::direct_crh(refimpl::SIG, &msg, hb as usize), hb as usize); (true, Box::new(move |v| v == &w[..])) }
                    _ => { let w = want_pt(2, refimpl::SIG, &ex); let at_ok = w.map_or(true, |x| x.1 as u8 == att8); (w.is_some(), Box::new(move |v| at_ok && point(v, true) == w.map(|x| x.0))) }
                };
                if !ok { cx.check("F02", "output-touched", n == -7 && att == -7 && att8 == 0xfe, || "failed hash call wrote an output".into()); }
                if let Some(v) = self.take_vec(cx, "hash", ok, Some(expect), o, n, d) { let g = chk(&v); cx.check("F01", "wrong-hash", g, || format!("hash kind {} differs from the reference", kind)); cx.check("H02", "wrong-hash", g, || format!("hash kind {} differs from the reference", kind)); }
                cx.log(|| format!("hash {:?} {} {}", s.a, ok, n));
            }
            "epoch" => {
                let idx: Vec<usize> = s.a[2..].iter().filter_map(|i| at(&self.pk, *i)).filter(|i| !self.pk[*i].s.is_zero()).collect();
                let keys: Vec<G2> = idx.iter().map(|i| *unsafe { &*self.pk[*i].p }.as_ref()).collect(); let bl = block(s.arg(1), keys);
                let ptrs: Vec<*const PublicKey> = idx.iter().map(|i| self.pk[*i].p as *const _).collect(); let ga = Guard::of(&ptrs); let lp = ga.ptr() as *const *const PublicKey; let k = ptrs.len() as c_int;
                let (ge, gp) = (bl.epoch.as_ref().map(|e| Guard::new(e)), bl.parent.as_ref().map(|e| Guard::new(e)));
                let np = |g: &Option<Guard>| g.as_ref().map_or(std::ptr::null(), |g| g.ptr());
                if bl.epoch.is_none() || bl.parent.is_none() { cx.fault("absent_entropy"); }
                if bl.maxv != bl.keys.len() { cx.fault("padded_or_short_set"); }
                let (mut o, mut n, mut o2, mut n2) = (SENT as *mut u8, -7 as c_int, SENT as *mut u8, -7 as c_int); let b = live();
                if s.arg(0) == 0 {
                    let ok = alloc::lib(|| eb::encode_epoch_block_to_bytes(bl.index, bl.mns, lp, k, &mut o, &mut n)); let d = live() - b;
                    if let Some(v) = self.take_vec(cx, "encode_epoch_block_to_bytes", ok, Some(true), o, n, d) { let w = refimpl::enc_legacy(&bl); cx.check("E02", "encoding-differs", v == w, || "epoch encoding differs from the reference".into()); cx.check("F01", "encoding-differs", v == w, || "epoch encoding differs from the reference".into()); }
                } else {
                    let ok = alloc::lib(|| eb::encode_epoch_block_to_bytes_cip22(bl.index, bl.round, np(&ge), np(&gp), bl.mns, bl.maxv as u32, lp, k, &mut o, &mut n, &mut o2, &mut n2)); let d = live() - b;
                    let (w, w2) = refimpl::enc_inner(&bl);
                    let v = self.take_vec(cx, "encode_epoch_block_to_bytes_cip22", ok, Some(true), o, n, d - ok as i64); let v2 = self.take_vec(cx, "encode_epoch_block_to_bytes_cip22 extra", ok, Some(true), o2, n2, 1);
                    if let (Some(v), Some(v2)) = (v, v2) { let g = v == w && v2 == w2; cx.check("E02", "encoding-differs", g, || "epoch encoding differs from the reference".into()); cx.check("F01", "encoding-differs", g, || "epoch encoding differs from the reference".into()); }
                }
                cx.log(|| format!("epoch {:?} {} {}", s.a, n, n2));
            }
            "eblk" => {
                let idx: Vec<usize> = s.a[2..].iter().filter_map(|i| at(&self.pk, *i)).collect();
                let keys: Vec<G2> = idx.iter().map(|i| *unsafe { &*self.pk[*i].p }.as_ref()).collect(); let bl = block(s.arg(0), keys);
                let fault = if bl.keys.is_empty() { 0 } else { s.arg(1) };
                let pks: Vec<PublicKey> = bl.keys.iter().map(|k| PublicKey::from(*k)).collect();
                let ser = eb::serialize_pubkeys(&pks);
                let want: Vec<u8> = bl.keys.iter().flat_map(enc2).collect();
                cx.check("E02", "key-list-differs", ser.as_ref().map_or(false, |v| *v == want), || "serialised key list differs from the concatenated encodings".into());
                let mut v = want.clone(); let mut r = Rng::new(s.arg(0));
                if fault > 0 { cx.fault("corrupt_key_list"); let i = 96 * r.below(bl.keys.len() as u64) as usize; let e = match fault { 1 => { let mut x = v[i..i + 96].to_vec(); x[95] |= 0xc0; x } 2 => super::cache::bad().0[r.below(6) as usize].clone(), 3 => super::cache::bad().1[r.below(6) as usize].clone(), _ => { let mut x = v[i..i + 96].to_vec(); for b in x[0..48].iter_mut() { *b = 0xff; } x } }; v[i..i + 96].copy_from_slice(&e); }
                let g = Guard::new(&v); let (ge, gp) = (bl.epoch.as_ref().map(|e| Guard::new(e)), bl.parent.as_ref().map(|e| Guard::new(e)));
                let np = |g: &Option<Guard>| g.as_ref().map_or(std::ptr::null(), |g| g.ptr());
                let f = eb::EpochBlockFFI { index: bl.index, round: bl.round, epoch_entropy: np(&ge), parent_entropy: np(&gp), pubkeys: g.ptr(), pubkeys_num: bl.keys.len(), maximum_non_signers: bl.mns, maximum_validators: bl.maxv };
                let b = live();
                let got = alloc::lib(|| epoch_snark::EpochBlock::try_from(&f));
                match &got {
                    Err(_) => { cx.check("E02", "block-rejected", fault > 0, || "a well-formed block was rejected".into()); cx.check("F03", "block-rejected", fault > 0, || "a well-formed block was rejected".into()); }
                    Ok(x) => {
                        cx.check("F03", "malformed-accepted", fault == 0, || format!("a block with a malformed key (fault {}) was accepted", fault)); cx.check("E02", "malformed-accepted", fault == 0, || format!("a block with a malformed key (fault {}) was accepted", fault));
                        if fault == 0 { let same = x.index == bl.index && x.round == bl.round && x.epoch_entropy == bl.epoch && x.parent_entropy == bl.parent && x.maximum_non_signers == bl.mns && x.maximum_validators == bl.maxv && x.new_public_keys == pks; cx.check("E02", "block-differs", same, || "the block read back from the C structure differs".into()); }
                    }
                }
                let _ = alloc::outside(|| drop(got));
                let d = live() - b; cx.check("F02", "leak", d == 0, || format!("reading a C epoch block left {} allocations", d));
                cx.log(|| format!("eblk {:?}", s.a));
            }
            "free" => {
                let b = live();
                let r = unsafe { match s.arg(0) {
                    0 => { if self.sk.len() < 2 { return; } let i = at(&self.sk, s.arg(1)).unwrap(); let x = self.sk.remove(i); alloc::lib(|| se::destroy_private_key(x.p)) }
                    1 => { if self.pk.len() < 2 { return; } let i = at(&self.pk, s.arg(1)).unwrap(); let x = self.pk.remove(i); alloc::lib(|| se::destroy_public_key(x.p)) }
                    _ => { if self.sg.len() < 2 { return; } let i = at(&self.sg, s.arg(1)).unwrap(); let x = self.sg.remove(i); alloc::lib(|| se::destroy_signature(x.p)) }
                } };
                let d = b - live(); cx.fault("handle_released_mid_program");
                cx.check("F02", "destroy", r && d == 1, || format!("destroying a handle returned {} and released {} allocations", r, d));
                cx.log(|| format!("free {:?}", s.a));
            }
            "null" => {
                let b = live();
                let r = unsafe { alloc::lib(|| match s.arg(0) { 0 => se::destroy_private_key(std::ptr::null_mut()), 1 => se::destroy_public_key(std::ptr::null_mut()), 2 => se::destroy_signature(std::ptr::null_mut()), _ => se::free_vec(std::ptr::null_mut(), 5) }) };
                cx.fault("null_handle"); let d = live() - b;
                cx.check("F02", "null-destroy", !r && d == 0, || format!("destroying null returned {}", r));
                cx.log(|| "null".into());
            }
            _ => {}
        }
    }
}
/// Strict batch verification through the C interface with per-batch expectations.
pub fn strict_call(book: &mut Book, modek: u64, nb: u64, seed: u64, fault: u64, cx: &mut Cx) {
    let (c, z, mode) = modes(modek); let mut r = Rng::new(seed);
    struct B { m: std::rc::Rc<Guard>, e: std::rc::Rc<Guard>, pk: Vec<PublicKey>, sg: Vec<Signature>, pp: Vec<*const PublicKey>, sp: Vec<*const Signature>, want: bool }
    let mut bs: Vec<B> = vec![];
    for i in 0..nb {
        // some batches share another's message or extra buffer
        let share = if i > 0 { r.below(6) } else { 9 }; let from = if i > 0 { r.below(i) as usize } else { 0 };
        let (m, e) = (message(r.below(40)), extra(r.below(30)));
        let gm = if share <= 1 { cx.fault("shared_buffer"); bs[from].m.clone() } else { std::rc::Rc::new(Guard::new(&m)) }; let ge = if matches!(share, 0 | 2) { bs[from].e.clone() } else { std::rc::Rc::new(Guard::new(&e)) };
        let (m, e) = (gm.bytes().to_vec(), ge.bytes().to_vec());
        let id = mode.and_then(|md| book.id(md, refimpl::SIG, &m, &e)).map(|x| x.0);
        let n = if r.chance(1, 8) { r.below(2) + 1 } else { 1 + r.below(5) } as usize;
        let ks: Vec<usize> = (0..n).map(|_| r.below(NK as u64) as usize).collect();
        let mut forms: Vec<Form> = ks.iter().map(|k| fone(id.unwrap_or(0), &pool().sk[*k])).collect();
        let mut nsig = n; let mut npk = n; let mut want = mode.is_some();
        // faults land in one batch of the call, or in every batch when the seed says so
        if fault > 0 && (i == seed % nb || seed & 7 == 7) {
            match fault {
                1 => { let j = r.below(n as u64) as usize; forms[j] = fadd(&forms[j], &fone(0, &fr(r.below(1 << 30)))); want = false; cx.fault("one_forged_signature"); }
                2 if n > 1 => { let d = fr(r.below(1 << 30)); let (a, b) = (0, 1 + r.below(n as u64 - 1) as usize); forms[a] = fadd(&forms[a], &fone(0, &d)); forms[b] = fadd(&forms[b], &fone(0, &-d)); want = false; cx.fault("compensating_forgery"); }
                3 if n > 1 => { let b = 1 + r.below(n as u64 - 1) as usize; forms.swap(0, b); want = forms[0] == fone(id.unwrap_or(0), &pool().sk[ks[0]]) && mode.is_some(); cx.fault("swapped_signatures"); }
                4 => { nsig = r.below(n as u64) as usize; want = false; cx.fault("missing_signature"); }
                5 => { if n > 1 { npk = 1 + r.below(n as u64 - 1) as usize; want = false; cx.fault("missing_public_key"); } }
                _ => {}
            }
        }
        let pk: Vec<PublicKey> = ks[..npk].iter().map(|k| PublicKey::from(rescale(&pool().pk[*k], seed & 1))).collect();
        let sg: Vec<Signature> = forms[..nsig].iter().map(|f| Signature::from(book.point(f))).collect();
        let pp = pk.iter().map(|p| p as *const _).collect(); let sp = sg.iter().map(|p| p as *const _).collect();
        bs.push(B { m: gm, e: ge, pk, sg, pp, sp, want });
    }
    for b in bs.iter_mut() { b.pp = b.pk.iter().map(|p| p as *const _).collect(); b.sp = b.sg.iter().map(|p| p as *const _).collect(); }
    let v: Vec<BatchMessageFFI> = bs.iter().map(|b| BatchMessageFFI { data: Buffer { ptr: b.m.ptr(), len: b.m.len() as usize }, extra: Buffer { ptr: b.e.ptr(), len: b.e.len() as usize }, public_keys: b.pp.as_ptr(), public_keys_len: b.pp.len(), signatures: b.sp.as_ptr(), signatures_len: b.sp.len() }).collect();
    let gr = Guard::new(&vec![2u8; v.len()]); let before = alloc::live();
    let ok = alloc::lib(|| sg::batch_verify_strict(v.as_ptr(), v.len(), c, z, gr.mut_ptr() as *mut bool));
    let d = alloc::live() as i64 - before as i64;
    cx.check("F02", "leak", d == 0, || format!("batch_verify_strict left {} allocations", d));
    let got = gr.bytes().to_vec(); let want: Vec<u8> = bs.iter().map(|b| b.want as u8).collect();
    let all = bs.iter().all(|b| b.want);
    for p in ["F05", "F01"] {
        cx.check(p, "strict-per-batch", got == want, || format!("per-batch results {:?}, expected {:?} (mode {:?}, fault {})", got, want, mode, fault));
        cx.check(p, "strict-overall", ok == all, || format!("overall result {} but all-valid is {}", ok, all));
    }
    if let Some(i) = (0..got.len()).find(|i| got[*i] == 1 && want[*i] == 0) { cx.check("S04", "strict-accepts-invalid", false, || format!("batch {} accepted despite fault {}", i, fault)); } else { cx.check("S04", "strict-accepts-invalid", true, String::new); }
    if let Some(i) = (0..got.len()).find(|i| got[*i] != 1 && want[*i] == 1) { cx.check("S04", "strict-rejects-valid", false, || format!("valid batch {} rejected", i)); }
    cx.log(|| format!("strict mode {} fault {} {:?} {}", modek, fault, got, ok));
}
