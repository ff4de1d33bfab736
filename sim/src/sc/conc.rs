//! Concurrent C callers: threads run programs of exported calls over shared handles, under the
//! scheduler; every result is compared with the call's sequential meaning afterwards.
use super::ffi::{extra, message};
use crate::alloc;
use crate::core::*;
use crate::refimpl;
use crate::rng::Rng;
use crate::sched;
use crate::world::*;
use ark_ff::Zero;
use bls_crypto::{PrivateKey, PublicKey, Signature};
use bls_snark_sys::{serialization as se, signatures as sg, snark::epoch_block as eb, utils::*};
use std::os::raw::c_int;

pub struct Conc;
const SENT: usize = 0x5e5e_5e5e_5e5e_5e58;
#[derive(Clone, Copy, Default)]
struct Out { done: bool, ok: bool, p: usize, n: i64, p2: usize, n2: i64, v: u8 }
fn kspec(r: &mut Rng, small: u64) -> u64 { r.below(small) | (if r.chance(1, 5) { r.below(5) } else { 0 }) << 8 }
fn set(x: u64) -> Vec<u64> {
    let mut r = Rng::new(x / 4 ^ 0x5e7); let small = [3, 5, 8, 24][(x % 4) as usize];
    let mut v: Vec<u64> = (0..r.below(7)).map(|_| kspec(&mut r, small)).collect();
    if v.len() > 1 && r.chance(1, 3) { let k = v[0]; v.push(k); }
    v
}
/// Sum of the distinct keys of a list.
fn distinct_sum(v: &[u64]) -> Fr { let mut d: Vec<u64> = v.to_vec(); d.sort(); d.dedup(); d.iter().map(|k| key(*k).1).sum() }
/// Shared, immutable handles made before the threads start.
struct Shared { pk: Vec<(u64, PublicKey)>, sk: Vec<PrivateKey>, sig: Vec<(u64, u64, u64, u64, Signature)> }
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}
impl Shared {
    fn pk(&self, spec: u64) -> *const PublicKey { &self.pk.iter().find(|k| k.0 == spec).expect("shared key").1 }
}
fn sigid(x: u64) -> (u64, u64, u64, u64) { let mut r = Rng::new(x ^ 0x516); (r.below(4), r.below(6), r.below(4), r.below(3)) } // key, msg, extra, mode
fn mode_flags(m: u64) -> (bool, bool) { (m >= 1, m == 2) }
fn exec_op(sh: &Shared, s: &Step) -> Out {
    let (kind, x, y) = (s.arg(1), s.arg(2), s.arg(3));
    let mut o = Out { done: true, n: -7, n2: -7, v: 2, ..Default::default() };
    sched::point(sched::C_CALL);
    match kind {
        0 | 1 => {
            let ptrs: Vec<*const PublicKey> = set(x).iter().map(|k| sh.pk(*k)).collect(); let mut q = SENT as *mut PublicKey;
            o.ok = alloc::lib(|| if kind == 0 { sg::aggregate_public_keys(ptrs.as_ptr(), ptrs.len() as c_int, &mut q) } else { sg::aggregate_public_keys_subtract(sh.pk(y % 24), ptrs.as_ptr(), ptrs.len() as c_int, &mut q) });
            o.p = q as usize;
        }
        2 => { let (v, _, _) = super::cache::encoding(x, y % 12, x); let mut q = SENT as *mut PublicKey; o.ok = alloc::lib(|| se::deserialize_public_key_cached(v.as_ptr(), v.len() as c_int, &mut q)); o.p = q as usize; }
        3 => { let (k, m, e, md) = sigid(x); let (c, z) = mode_flags(md); let (m, e) = (message(m), extra(e)); let mut q = SENT as *mut Signature; o.ok = alloc::lib(|| sg::sign_message(&sh.sk[k as usize], m.as_ptr(), m.len() as c_int, e.as_ptr(), e.len() as c_int, c, z, &mut q)); o.p = q as usize; }
        4 => {
            let (k, m, e, md) = sigid(x); let (c, z) = mode_flags(md); let (mm, ee) = (message(m), extra(e));
            let sig = sh.sig.iter().find(|g| (g.0, g.1, g.2, g.3) == (k, m, e, md)).expect("shared signature");
            let key = if y % 3 == 0 { (k + 1) % 24 } else { k }; let mut v = 2u8;
            o.ok = alloc::lib(|| sg::verify_signature(sh.pk(key), mm.as_ptr(), mm.len() as c_int, ee.as_ptr(), ee.len() as c_int, &sig.4, c, z, &mut v as *mut u8 as *mut bool)); o.v = v;
        }
        5 => { alloc::lib(|| bls_snark_sys::init()); o.ok = true; }
        6 => {
            let (m, e) = (message(x % 20), extra(x / 20 % 10)); let mut q = SENT as *mut u8; let mut n: c_int = -7; let mut a = 0xfeu8;
            o.ok = alloc::lib(|| match y % 4 { 0 => sg::hash_direct(m.as_ptr(), m.len() as c_int, &mut q, &mut n, x & 1 == 1), 1 => sg::hash_composite(m.as_ptr(), m.len() as c_int, e.as_ptr(), e.len() as c_int, &mut q, &mut n), 2 => sg::hash_crh(m.as_ptr(), m.len() as c_int, 48, &mut q, &mut n), _ => sg::hash_composite_cip22(m.as_ptr(), m.len() as c_int, e.as_ptr(), e.len() as c_int, &mut q, &mut n, &mut a) });
            o.p = q as usize; o.n = n as i64; o.v = a;
        }
        7 => { let g: Vec<*const Signature> = sh.sig.iter().enumerate().filter(|(i, _)| x >> (i % 60) & 1 == 1).map(|(_, g)| &g.4 as *const _).collect(); let mut q = SENT as *mut Signature; o.ok = alloc::lib(|| sg::aggregate_signatures(g.as_ptr(), g.len() as c_int, &mut q)); o.p = q as usize; }
        8 => {
            // two batches; when y is odd the second holds another batch's signature
            let (k, m, e, md) = sigid(x); let (c, z) = mode_flags(md); let (mm, ee) = (message(m), extra(e));
            let a: *const Signature = &sh.sig.iter().find(|g| (g.0, g.1, g.2, g.3) == (k, m, e, md)).expect("shared signature").4;
            let b: *const Signature = if y & 1 == 1 { &sh.sig.iter().find(|g| (g.0, g.1, g.2, g.3) != (k, m, e, md)).unwrap_or(&sh.sig[0]).4 } else { a };
            let pk = sh.pk(k);
            let mk = |sp: *const *const Signature, pp: *const *const PublicKey| BatchMessageFFI { data: Buffer { ptr: mm.as_ptr(), len: mm.len() }, extra: Buffer { ptr: ee.as_ptr(), len: ee.len() }, public_keys: pp, public_keys_len: 1, signatures: sp, signatures_len: 1 };
            let v = [mk(&a, &pk), mk(&b, &pk)]; let mut res = [2u8; 2];
            o.ok = alloc::lib(|| sg::batch_verify_strict(v.as_ptr(), 2, c, z, res.as_mut_ptr() as *mut bool)); o.v = res[0] | res[1] << 4;
        }
        9 => { let mut q = SENT as *mut PrivateKey; o.ok = unsafe { alloc::lib(|| sg::generate_private_key(&mut q)) }; o.p = q as usize; }
        10 => {
            let ks: Vec<u64> = set(x).into_iter().filter(|k| k >> 8 & 0xff != 3).collect(); let ptrs: Vec<*const PublicKey> = ks.iter().map(|k| sh.pk(*k)).collect();
            let b = super::ffi::block(y, ks.iter().map(|k| key(*k).0).collect());
            let np = |g: &Option<Vec<u8>>| g.as_ref().map_or(std::ptr::null(), |g| g.as_ptr());
            let (mut q, mut n, mut q2, mut n2) = (SENT as *mut u8, -7 as c_int, SENT as *mut u8, -7 as c_int);
            o.ok = alloc::lib(|| eb::encode_epoch_block_to_bytes_cip22(b.index, b.round, np(&b.epoch), np(&b.parent), b.mns, b.maxv as u32, ptrs.as_ptr(), ptrs.len() as c_int, &mut q, &mut n, &mut q2, &mut n2));
            o.p = q as usize; o.n = n as i64; o.p2 = q2 as usize; o.n2 = n2 as i64;
        }
        11 => { let mut q = SENT as *mut u8; let mut n: c_int = -7; o.ok = alloc::lib(|| se::serialize_public_key(sh.pk(x % 24), &mut q, &mut n)); o.p = q as usize; o.n = n as i64; }
        _ => {
            let (k, m, e, md) = sigid(x); let (c, z) = mode_flags(md); let (mm, ee) = (message(m), extra(e));
            let sig = sh.sig.iter().find(|g| (g.0, g.1, g.2, g.3) == (k, m, e, md)).expect("shared signature"); let mut v = 2u8;
            let f = MessageFFI { data: Buffer { ptr: mm.as_ptr(), len: mm.len() }, extra: Buffer { ptr: ee.as_ptr(), len: ee.len() }, public_key: sh.pk(if y % 3 == 0 { (k + 1) % 24 } else { k }), sig: &sig.4 };
            o.ok = alloc::lib(|| sg::batch_verify_signature(&f, 1, c, z, &mut v as *mut u8 as *mut bool)); o.v = v;
        }
    }
    o
}
impl Scenario for Conc {
    fn gen(&self, r: &mut Rng, _prop: &str, tier: u32) -> Vec<Step> {
        let mut mask = 0u64; for c in [1, 2, 3, 4, 5, 6, 7, 20, 21] { if r.chance(1, 2) { mask |= 1 << c; } } if r.chance(1, 4) { mask = u64::MAX >> 32; } mask |= 3 << 21;
        let den = *r.pick(&[2u64, 4, 16, 64, 256, 1024]);
        let mut v = vec![st("sched", &[r.below(1 << 40), 1, den, mask, if r.chance(1, 2) { 0 } else { *r.pick(&[1u64, 4, 16, 64]) }])];
        let threads = r.range(2, 4);
        // swarm: each run concentrates on a few kinds of call
        let focus: Vec<u64> = match r.below(5) { 0 => vec![0, 0, 1, 2], 1 => vec![2, 2, 0], 2 => vec![5, 6, 6, 3, 4], 3 => (0..13).collect(), _ => (0..3).map(|_| r.below(13)).collect() };
        let n = r.range(2, if tier > 0 { 8 } else { 5 });
        let sets = r.range(1, 5); let base = r.below(1 << 16);
        for t in 0..threads { for _ in 0..n {
            let k = *r.pick(&focus);
            let (x, y) = match k { 0 | 1 => ((base + r.below(sets)) * 4 + r.below(4), r.below(24)), 2 => (kspec(r, 5), if r.chance(1, 3) { r.below(12) } else { 0 }), 6 => (r.below(200), r.below(4)), 7 => (r.below(1 << 30), 0), _ => (r.below(1 << 12), r.below(1 << 10)) };
            v.push(st("op", &[t, k, x, y]));
        } }
        v
    }
    fn exec(&self, steps: &[Step], cx: &mut Cx) {
        let cfg = steps.iter().find(|s| s.op == "sched").cloned().unwrap_or_else(|| st("sched", &[0, 1, 4, u64::MAX >> 32]));
        let ops: Vec<Step> = steps.iter().filter(|s| s.op == "op").cloned().collect();
        if ops.is_empty() { return; }
        let mut sh = Shared { pk: vec![], sk: (0..4).map(|i| PrivateKey::from(pool().sk[i])).collect(), sig: vec![] };
        let mut need: Vec<u64> = (0..24).collect();
        let mut book = Book::new();
        for s in &ops { if matches!(s.arg(1), 0 | 1 | 10) { need.extend(set(s.arg(2))); } }
        need.sort(); need.dedup();
        for k in need { sh.pk.push((k, PublicKey::from(key(k).0))); }
        let mut forms = vec![];
        for s in &ops { if matches!(s.arg(1), 4 | 8 | 12) { let (k, m, e, md) = sigid(s.arg(2)); if sh.sig.iter().any(|g| (g.0, g.1, g.2, g.3) == (k, m, e, md)) { continue; } let id = book.id(md, refimpl::SIG, &message(m), &extra(e)).map(|x| x.0).unwrap_or(0); let f = fone(id, &pool().sk[k as usize]); sh.sig.push((k, m, e, md, Signature::from(book.point(&f)))); forms.push(f); } }
        let nt = ops.iter().map(|s| s.arg(0) % 4).max().unwrap() as usize + 1;
        let mut per: Vec<Vec<(usize, Step)>> = vec![vec![]; nt];
        for (i, s) in ops.iter().enumerate() { per[(s.arg(0) % 4) as usize].push((i, s.clone())); }
        let mut outs = vec![Out::default(); ops.len()];
        let slots = outs.as_mut_ptr() as usize; let shp = &sh as *const Shared as usize;
        alloc::TRACK.store(true, std::sync::atomic::Ordering::SeqCst);
        let bodies: Vec<Box<dyn FnOnce() + Send>> = per.into_iter().map(|p| Box::new(move || { for (i, s) in p { let o = exec_op(unsafe { &*(shp as *const Shared) }, &s); unsafe { *(slots as *mut Out).add(i) = o; } } }) as Box<dyn FnOnce() + Send>).collect();
        let p = sched::Params { seed: cfg.arg(0), num: cfg.arg(1), den: cfg.arg(2).max(1), mask: cfg.arg(3) as u32, plan: cx.sched.clone(), max: 60_000_000, burst: cfg.arg(4) };
        let oc = sched::run(&p, bodies);
        cx.rec = oc.rec.clone(); cx.ops += ops.len() as u64; cx.simtime += oc.points; cx.digest = crate::rng::mix2(cx.digest, oc.digest);
        for _ in 0..oc.switches.min(1) { cx.fault("preemption"); } *cx.faults.entry("preemption".into()).or_insert(0) += oc.switches.saturating_sub(1);
        if oc.blocks > 0 { *cx.faults.entry("blocked_on_lock".into()).or_insert(0) += oc.blocks; }
        if oc.bursts > 0 { *cx.faults.entry("preemption_between_instructions".into()).or_insert(0) += oc.bursts; }
        if cx.cold { cx.fault("cold_start_race"); }
        cx.state(oc.digest);
        let bad = alloc::fault_seen();
        cx.check("C04", "memory-misuse", bad == 0, || format!("allocator misuse {} under concurrency", bad));
        // histories: each call's result is its sequential meaning
        let mut gens: Vec<Vec<u8>> = vec![];
        for (s, o) in ops.iter().zip(outs.iter()) {
            if cx.stop() { break; }
            let (kind, x, y) = (s.arg(1), s.arg(2), s.arg(3));
            cx.log(|| format!("{:?} {} {}", s.a, o.ok, o.v));
            if !cx.check("C04", "call-lost", o.done, || format!("call {:?} never returned", s.a)) { break; }
            let pkv = |p: usize| *unsafe { &*(p as *const PublicKey) }.as_ref(); let sgv = |p: usize| *unsafe { &*(p as *const Signature) }.as_ref();
            let bytes = |p: usize, n: i64| if p == SENT || p == 0 || n < 0 { vec![] } else { unsafe { std::slice::from_raw_parts(p as *const u8, n as usize) }.to_vec() };
            let good = o.ok && o.p != SENT && o.p != 0;
            let r = match kind {
                0 | 1 => { let sum: Fr = distinct_sum(&set(x)); let w = if kind == 0 { sum } else { key(y % 24).1 - sum }; good && pkv(o.p) == m2(&g2(), &w) }
                2 => { let (_, t, d) = super::cache::encoding(x, y % 12, x); if !d { true } else { match t { Some(t) => good && pkv(o.p) == t, None => !o.ok && o.p == SENT } } }
                3 => { let (k, m, e, md) = sigid(x); match book.id(md, refimpl::SIG, &message(m), &extra(e)) { Some((id, _)) => good && sgv(o.p) == book.point(&fone(id, &pool().sk[k as usize])), None => !o.ok } }
                4 | 12 => o.ok && o.v == (y % 3 != 0) as u8,
                5 => true,
                6 => {
                    let (m, e) = (message(x % 20), extra(x / 20 % 10)); let b = bytes(o.p, o.n);
                    let pt = |jac: bool| { use ark_ff::FromBytes; let mut r = &b[..]; let (px, py) = (Fq::read(&mut r).ok(), Fq::read(&mut r).ok()); match (px, py) { (Some(px), Some(py)) => { let mut p = g1(); p.x = px; p.y = py; p.z = if jac { Fq::read(&mut r).unwrap_or(Fq::zero()) } else { ark_ff::One::one() }; Some(p) } _ => None } };
                    match y % 4 { 0 => pt(false) == refimpl::hash(0, if x & 1 == 1 { refimpl::POP } else { refimpl::SIG }, &m, &[]).map(|q| q.0), 1 => pt(true) == refimpl::hash(1, refimpl::SIG, &m, &e).map(|q| q.0), 2 => Some(b.clone()) == refimpl::composite_crh(&m), _ => { let w = refimpl::hash(2, refimpl::SIG, &m, &e); pt(true) == w.map(|q| q.0) && w.map_or(true, |q| q.1 as u8 == o.v) } }
                }
                7 => { let w = forms.iter().enumerate().filter(|(i, _)| x >> (i % 60) & 1 == 1).fold(Form::new(), |a, (_, f)| fadd(&a, f)); good && sgv(o.p) == book.point(&w) }
                8 => { let (k, m, e, md) = sigid(x); let i = sh.sig.iter().position(|g| (g.0, g.1, g.2, g.3) == (k, m, e, md)).unwrap(); let j = if y & 1 == 1 { sh.sig.iter().position(|g| (g.0, g.1, g.2, g.3) != (k, m, e, md)).unwrap_or(0) } else { i }; let second = forms[i] == forms[j]; o.ok == second && o.v == 1 | (second as u8) << 4 }
                9 => { if good { let v: Fr = *unsafe { &*(o.p as *const PrivateKey) }.as_ref(); let b = encf(&v); let fresh = !gens.contains(&b); gens.push(b); fresh } else { false } }
                10 => { let ks: Vec<u64> = set(x).into_iter().filter(|k| k >> 8 & 0xff != 3).collect(); let b = super::ffi::block(y, ks.iter().map(|k| key(*k).0).collect()); o.ok && (bytes(o.p, o.n), bytes(o.p2, o.n2)) == refimpl::enc_inner(&b) }
                _ => o.ok && bytes(o.p, o.n) == enc2(&key(x % 24).0),
            };
            let name = ["aggregate_public_keys", "aggregate_public_keys_subtract", "deserialize_public_key_cached", "sign_message", "verify_signature", "init", "hash", "aggregate_signatures", "batch_verify_strict", "generate_private_key", "encode_epoch_block_to_bytes_cip22", "serialize_public_key", "batch_verify_signature"][kind.min(12) as usize];
            cx.probe(name);
            cx.check("C04", &format!("concurrent-{}", name), r, || format!("{} called by thread {} (args {} {}) under concurrency: ok={} v={:#x}, not the call's sequential result", name, s.arg(0), x, y, o.ok, o.v));
        }
        // the library stays usable and correct after the concurrent phase
        if !cx.stop() {
            let ks = [0u64, 1, 2, 0x102]; let keys: Vec<PublicKey> = ks.iter().map(|k| PublicKey::from(key(*k).0)).collect(); let ptrs: Vec<*const PublicKey> = keys.iter().map(|k| k as *const _).collect();
            let mut q = SENT as *mut PublicKey; let ok = sg::aggregate_public_keys(ptrs.as_ptr(), 4, &mut q); let w: Fr = ks.iter().map(|k| key(*k).1).sum();
            cx.check("C04", "later-aggregate", ok && *unsafe { &*q }.as_ref() == m2(&g2(), &w), || "an aggregate computed after the concurrent phase is wrong".into());
        }
        alloc::TRACK.store(false, std::sync::atomic::Ordering::SeqCst);
    }
}
