//! A validator network in simulated time: validators sign epoch headers, gossip signatures and
//! aggregate seals over a faulty network, crash and restart from their disks, catch up in
//! batches, and face Byzantine peers. Clients are the Rust library, the C interface and an
//! independent reference; the truth of every verdict comes from the simulator's scalars.
use super::ffi::{block, sig_encoding};
use crate::core::*;
use crate::refimpl::{self, Blk};
use crate::rng::{mix2, Rng};
use crate::world::*;
use ark_ff::Zero;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bls_crypto::hash_to_curve::{try_and_increment::*, try_and_increment_cip22::*, HashToCurve};
use bls_crypto::{bls::Batch, PrivateKey, PublicKey, PublicKeyCache, Signature, SIG_DOMAIN};
use bls_snark_sys::{serialization as se, signatures as sg, snark::epoch_block as eb, utils::*};
use epoch_snark::EpochBlock;
use std::collections::{BTreeMap, BTreeSet};
use std::os::raw::c_int;

pub struct Net;
#[derive(Clone, Debug)]
enum Ev { Sig { e: usize, from: usize, to: usize, b: Vec<u8>, honest: bool }, Seal { e: usize, from: usize, to: usize, bm: u64, b: Vec<u8> }, Req { from: usize, to: usize, e: usize }, Batch { to: usize, start: usize, seals: Vec<(u64, Vec<u8>)> }, Timer(usize), Junk(usize, u64, u64, u64), Flood(usize, u64, u64), Crash(usize, u64, u64), Restart(usize) }
struct Epoch { members: Vec<usize>, blk: Blk, msg: Vec<u8>, ex: Vec<u8>, id: u64, quorum: usize }
struct Node { ct: u64, up: bool, byz: Option<(u64, u64)>, deferred: bool, skew: u64, gseed: u64, epoch: usize, sigs: BTreeMap<usize, Vec<u8>>, order: Vec<usize>, pending: Vec<(usize, Vec<u8>)>, cache: PublicKeyCache, seals: Vec<(u64, Vec<u8>)>, mine: Option<Vec<u8>> }
fn flags(mode: u64) -> (bool, bool) { (mode >= 1, mode == 2) }
pub fn ser<T: CanonicalSerialize>(x: &T) -> Vec<u8> { let mut v = vec![]; x.serialize(&mut v).unwrap(); v }
fn lib_hash(mode: u64, d: &[u8], m: &[u8], e: &[u8]) -> Option<G1> { match mode { 0 => DIRECT_HASH_TO_G1.hash(d, m, e).ok(), 1 => COMPOSITE_HASH_TO_G1.hash(d, m, e).ok(), _ => COMPOSITE_HASH_TO_G1_CIP22.hash(d, m, e).ok() } }
fn lib_sign(k: &PrivateKey, mode: u64, m: &[u8], e: &[u8]) -> Option<Signature> { match mode { 0 => k.sign(m, e, &*DIRECT_HASH_TO_G1), 1 => k.sign(m, e, &*COMPOSITE_HASH_TO_G1), _ => k.sign(m, e, &*COMPOSITE_HASH_TO_G1_CIP22) }.ok() }
fn lib_verify(k: &PublicKey, mode: u64, m: &[u8], e: &[u8], s: &Signature) -> bool { match mode { 0 => k.verify(m, e, s, &*DIRECT_HASH_TO_G1), 1 => k.verify(m, e, s, &*COMPOSITE_HASH_TO_G1), _ => k.verify(m, e, s, &*COMPOSITE_HASH_TO_G1_CIP22) }.is_ok() }
fn ffi_vec(p: *mut u8, n: c_int) -> Vec<u8> { let v = unsafe { std::slice::from_raw_parts(p, n as usize) }.to_vec(); unsafe { se::free_vec(p, n); } v }
/// Bytes of a signature by the client's implementation.
fn sign(ct: u64, book: &mut Book, sk: &Fr, mode: u64, m: &[u8], e: &[u8]) -> Option<Vec<u8>> {
    match ct {
        0 => lib_sign(&PrivateKey::from(*sk), mode, m, e).map(|s| ser(&s)),
        1 => { let kb = encf(sk); let (c, z) = flags(mode); let (mut k, mut s) = (std::ptr::null_mut(), std::ptr::null_mut()); if !se::deserialize_private_key(kb.as_ptr(), kb.len() as c_int, &mut k) { return None; } let ok = sg::sign_message(k, m.as_ptr(), m.len() as c_int, e.as_ptr(), e.len() as c_int, c, z, &mut s); unsafe { se::destroy_private_key(k); } if !ok { return None; } let (mut p, mut n) = (std::ptr::null_mut(), 0); let ok = se::serialize_signature(s, &mut p, &mut n); unsafe { se::destroy_signature(s); } if ok { Some(ffi_vec(p, n)) } else { None } }
        _ => { let id = book.id(mode, refimpl::SIG, m, e)?.0; Some(enc1(&book.point(&fone(id, sk)))) }
    }
}
/// Decoded point (None: refused) and verdict.
fn verify(ct: u64, pk: &PublicKey, mode: u64, m: &[u8], e: &[u8], s: &[u8]) -> (Option<G1>, bool) {
    if ct == 1 {
        let (c, z) = flags(mode); let mut h = std::ptr::null_mut();
        if !se::deserialize_signature(s.as_ptr(), s.len() as c_int, &mut h) { return (None, false); }
        let p = *unsafe { &*h }.as_ref(); let mut v = 2u8; let ok = sg::verify_signature(pk, m.as_ptr(), m.len() as c_int, e.as_ptr(), e.len() as c_int, h, c, z, &mut v as *mut u8 as *mut bool); unsafe { se::destroy_signature(h); }
        return (Some(p), ok && v == 1);
    }
    match Signature::deserialize(s) { Ok(g) => { let v = lib_verify(pk, mode, m, e, &g); (Some(*g.as_ref()), v) } Err(_) => (None, false) }
}
/// Aggregate of signature bytes, combined in a seeded grouping.
fn agg_sigs(ct: u64, v: &[Vec<u8>], g: u64) -> Option<Vec<u8>> {
    let mut s: Vec<Signature> = v.iter().map(|b| Signature::deserialize(&b[..]).ok()).collect::<Option<_>>()?;
    let one = |x: &[Signature]| -> Option<Signature> { if ct == 1 { let p: Vec<*const Signature> = x.iter().map(|y| y as *const _).collect(); let mut o = std::ptr::null_mut(); if !sg::aggregate_signatures(p.as_ptr(), p.len() as c_int, &mut o) { return None; } let r = unsafe { &*o }.clone(); unsafe { se::destroy_signature(o); } Some(r) } else { Some(Signature::aggregate(x)) } };
    let mut r = Rng::new(g);
    while s.len() > 1 { let k = r.range(2, s.len() as u64) as usize; let i = r.below((s.len() - k + 1) as u64) as usize; let a = one(&s[i..i + k])?; s.splice(i..i + k, [a]); }
    if s.is_empty() { one(&[]) } else { s.pop() }.map(|x| ser(&x))
}
fn blk_epoch(b: &Blk) -> EpochBlock { EpochBlock::new(b.index, b.round, b.epoch.clone(), b.parent.clone(), b.mns, b.maxv, b.keys.iter().map(|k| PublicKey::from(*k)).collect()) }
/// Header encoding by the client's implementation: message and extra data.
fn encode(ct: u64, mode: u64, b: &Blk) -> Option<(Vec<u8>, Vec<u8>)> {
    match ct {
        0 => { let e = blk_epoch(b); if mode == 2 { e.encode_inner_to_bytes_cip22().ok() } else { e.encode_to_bytes().ok().map(|x| (x, vec![])) } }
        1 => {
            let ks: Vec<PublicKey> = b.keys.iter().map(|k| PublicKey::from(*k)).collect(); let p: Vec<*const PublicKey> = ks.iter().map(|k| k as *const _).collect();
            let np = |g: &Option<Vec<u8>>| g.as_ref().map_or(std::ptr::null(), |g| g.as_ptr());
            let (mut o, mut n, mut o2, mut n2) = (std::ptr::null_mut(), 0, std::ptr::null_mut(), 0);
            if mode == 2 { if eb::encode_epoch_block_to_bytes_cip22(b.index, b.round, np(&b.epoch), np(&b.parent), b.mns, b.maxv as u32, p.as_ptr(), p.len() as c_int, &mut o, &mut n, &mut o2, &mut n2) { Some((ffi_vec(o, n), ffi_vec(o2, n2))) } else { None } }
            else if eb::encode_epoch_block_to_bytes(b.index, b.mns, p.as_ptr(), p.len() as c_int, &mut o, &mut n) { Some((ffi_vec(o, n), vec![])) } else { None }
        }
        _ => Some(if mode == 2 { refimpl::enc_inner(b) } else { (refimpl::enc_legacy(b), vec![]) }),
    }
}
/// The same header with one field changed.
fn tamper(b: &Blk, k: u64, x: u64) -> Blk {
    let mut t = b.clone(); let mut r = Rng::new(x);
    let flip = |e: &mut Option<Vec<u8>>, r: &mut Rng| match e { Some(v) => { let i = r.below(16) as usize; v[i] ^= 1 << r.below(8); } None => *e = Some(r.bytes(16)) };
    match k % 9 { 0 => t.index ^= 1 << r.below(16), 1 => t.round ^= 1 << r.below(8), 2 => flip(&mut t.epoch, &mut r), 3 => flip(&mut t.parent, &mut r), 4 => t.mns ^= 1 << r.below(32), 5 => t.keys.swap(0, 1), 6 => { t.keys.pop(); } 7 => { let i = r.below(t.keys.len() as u64) as usize; t.keys[i] = -t.keys[i]; } _ => { let i = r.below(t.keys.len() as u64) as usize; t.keys[i] = endo(&t.keys[i]); } }
    t
}
struct W { ep: Vec<Epoch>, nodes: Vec<Node>, book: Book, mode: u64, seed: u64, now: u64, q: BTreeMap<(u64, u64), Ev>, seq: u64, sent: u64, msgf: BTreeMap<u64, Vec<(u64, u64)>>, parts: Vec<(u64, u64, u64)>, loss: u64, tf: u64, reg: Vec<Vec<u8>>, byz: usize }
impl Scenario for Net {
    fn gen(&self, r: &mut Rng, prop: &str, tier: u32) -> Vec<Step> {
        let n = r.range(4, if tier > 0 { 8 } else { 6 }); let ne = match prop { "E01" | "H02" => r.range(2, 4), "S03" => r.range(3, 5), _ => r.range(1, 3) };
        let mut v = vec![st("cfg", &[n, ne, r.below(1 << 30), match r.below(4) { 0 => r.below(2), _ => 2 }])];
        for i in 0..n { v.push(st("node", &[i, r.weighted(&[3, 3, 1]) as u64, r.chance(1, 3) as u64, r.below(1 << 20), r.below(12)])); }
        if r.chance(3, 4) || prop == "S01" { let x = r.below(1 << 20); v.push(st("byz", &[r.below(n), r.below(12), x])); }
        for _ in 0..r.below(3) { let t0 = r.below(150); v.push(st("part", &[r.below(1 << n), t0, t0 + r.below(80)])); }
        for _ in 0..r.below(4) { v.push(st("crash", &[r.below(n), r.below(180), 1 + r.below(60), r.below(6)])); }
        for _ in 0..r.below(12) { v.push(st("msg", &[r.below(60 * ne), r.weighted(&[3, 2, 3, 4]) as u64, r.below(1 << 16)])); }
        for _ in 0..r.below(if prop == "L01" { 5 } else { 2 }) { v.push(st("junk", &[r.below(n), r.below(200), r.below(n), r.below(12), r.below(1 << 16)])); }
        if r.chance(1, if prop == "L01" { 4 } else { 20 }) { v.push(st("flood", &[r.below(n), r.below(60), *r.pick(&[5u64, 30, 70]), r.below(1 << 16)])); }
        let k = if matches!(prop, "S01" | "H02" | "S06") { r.range(1, 4) } else { 0 };
        for _ in 0..k { v.push(st("twin", &[r.below(1 << 20), r.range(3, 9), r.below(3), r.chance(1, 3) as u64])); }
        if r.chance(1, 3) { v.push(st("loss", &[r.below(400)])); }
        let k = if prop == "S06" { r.range(4, 10) } else { r.below(2) };
        for _ in 0..k { v.push(st("pop", &[r.below(9), r.below(n), r.below(n), r.below(1 << 16), r.below(3)])); }
        let k = if prop == "S03" { r.range(3, 8) } else { 0 };
        for _ in 0..k { v.push(st("multi", &[r.below(1 << 20), if r.chance(1, 12) { r.range(13, 40) } else { r.range(1, 7) }, r.below(18), r.below(3), r.below(3)])); }
        let k = if prop == "S02" { r.range(2, 6) } else { 0 };
        for _ in 0..k { v.push(st("agg", &[r.below(1 << 20), if r.chance(1, 10) { r.range(20, 150) } else { r.below(9) }, r.below(2), r.below(4), r.below(1 << 16)])); }
        let k = if prop == "E01" || prop == "H02" { r.range(3, 10) } else { 0 };
        for _ in 0..k { v.push(st("header", &[r.below(1 << 20), r.below(9), r.below(1 << 16), r.below(2), r.range(2, 6)])); }
        v
    }
    fn exec(&self, steps: &[Step], cx: &mut Cx) {
        let cfg = steps.iter().find(|s| s.op == "cfg").cloned().unwrap_or_else(|| st("cfg", &[4, 1, 0, 2]));
        let (n, ne, seed, mode) = (cfg.arg(0).clamp(4, 10) as usize, cfg.arg(1).clamp(1, 6) as usize, cfg.arg(2), cfg.arg(3) % 3);
        let mut book = Book::new(); let mut ep = vec![];
        for e in 0..ne {
            // the set that seals epoch e: at least four members, rotating
            let mut r = Rng::new(mix2(seed, e as u64)); let mut m: Vec<usize> = (0..n).collect(); r.shuffle(&mut m); m.truncate(r.range(4, n as u64) as usize);
            let next: Vec<G2> = { let mut r = Rng::new(mix2(seed, e as u64 + 1)); let mut m: Vec<usize> = (0..n).collect(); r.shuffle(&mut m); m.truncate(r.range(4, n as u64) as usize); m.iter().map(|i| pool().pk[*i]).collect() };
            let mut b = block(mix2(seed, 77 + e as u64), next); b.index = e as u16 + 1; if b.maxv > 10 { b.maxv = 10; }
            let (msg, ex) = if mode == 2 { refimpl::enc_inner(&b) } else { (refimpl::enc_legacy(&b), vec![]) };
            let id = match book.id(mode, refimpl::SIG, &msg, &ex) { Some(x) => x.0, None => return };
            let q = m.len() - (m.len() - 1) / 3; ep.push(Epoch { members: m, blk: b, msg, ex, id, quorum: q });
        }
        let mut w = W { ep, nodes: vec![], book, mode, seed, now: 0, q: BTreeMap::new(), seq: 0, sent: 0, msgf: BTreeMap::new(), parts: vec![], loss: 0, tf: 250, reg: (0..n).map(|i| enc2(&pool().pk[i])).collect(), byz: usize::MAX };
        for i in 0..n { let c = steps.iter().find(|s| s.op == "node" && s.arg(0) == i as u64).cloned().unwrap_or_else(|| st("node", &[i as u64, 0, 0, 0, 0])); w.nodes.push(Node { ct: c.arg(1) % 3, up: true, byz: None, deferred: c.arg(2) == 1, skew: c.arg(4), gseed: c.arg(3), epoch: 0, sigs: BTreeMap::new(), order: vec![], pending: vec![], cache: PublicKeyCache::new(), seals: vec![], mine: None }); }
        for s in steps { match s.op.as_str() {
            "byz" => if w.byz == usize::MAX { let i = s.arg(0) as usize % n; w.byz = i; w.nodes[i].byz = Some((s.arg(1), s.arg(2))); }
            "part" => w.parts.push((s.arg(0), s.arg(1), s.arg(2).min(w.tf))),
            "loss" => w.loss = s.arg(0).min(600),
            "msg" => w.msgf.entry(s.arg(0)).or_default().push((s.arg(1), s.arg(2))),
            "crash" => { let t = s.arg(1).min(w.tf - 1); w.push(t, Ev::Crash(s.arg(0) as usize % n, s.arg(2).clamp(1, 60), s.arg(3))); }
            "junk" => { let t = s.arg(1).min(w.tf - 1); w.push(t, Ev::Junk(s.arg(0) as usize % n, s.arg(2) % n as u64, s.arg(3), s.arg(4))); }
            "flood" => { let t = s.arg(1).min(w.tf - 1); w.push(t, Ev::Flood(s.arg(0) as usize % n, s.arg(2).min(100), s.arg(3))); }
            "twin" => w.twin(s, cx), "pop" => w.pop(s, cx), "multi" => w.multi(s, cx), "agg" => w.agg(s, cx), "header" => w.header(s, cx), _ => {}
        } if cx.stop() { return; } }
        for i in 0..n { let t = 1 + w.nodes[i].skew; w.push(t, Ev::Timer(i)); }
        // liveness bound: a fixed number of ticks after the last fault
        let end = w.tf + 120 + 100 * ne as u64;
        while let Some((&(t, k), _)) = w.q.iter().next() {
            if cx.stop() { break; }
            if t > end { break; }
            let ev = w.q.remove(&(t, k)).unwrap(); w.now = t; cx.simtime = t; cx.ops += 1;
            w.event(ev, cx);
            if t > w.tf && (0..n).all(|i| i == w.byz || w.nodes[i].epoch == ne) { break; }
        }
        if cx.stop() { return; }
        for i in 0..n { if i == w.byz { continue; } cx.check("L01", "no-progress", w.nodes[i].epoch == ne, || format!("node {} (client {}) sealed {} of {} epochs {} ticks after faults stopped", i, w.nodes[i].ct, w.nodes[i].epoch, ne, w.now.saturating_sub(w.tf))); }
        // history: seals by the same signers are the same bytes; every accepted seal is genuine
        let mut by: BTreeMap<(usize, u64), Vec<u8>> = BTreeMap::new();
        for nd in &w.nodes { for (e, (bm, b)) in nd.seals.iter().enumerate() { let f = w.seal_form(e, *bm); let want = enc1(&w.book.point(&f)); cx.check("S02", "false-seal-accepted", *b == want, || format!("the seal recorded for epoch {} is not the sum of its signers' signatures", e)); let o = by.entry((e, *bm)).or_insert_with(|| b.clone()); cx.check("S02", "seals-differ", o == b, || format!("two nodes hold different seals for epoch {} by the same signers", e)); } }
        let ph: Vec<u8> = w.nodes.iter().flat_map(|x| [x.epoch as u8, x.seals.len() as u8]).collect(); cx.state(hash(&ph));
        if w.now > w.tf { cx.probe("ran_past_faults"); } cx.probe("all_sealed");
    }
}
impl W {
    fn push(&mut self, t: u64, e: Ev) { self.seq += 1; self.q.insert((t, self.seq), e); }
    fn linked(&self, a: usize, b: usize) -> bool { !self.parts.iter().any(|(m, t0, t1)| self.now >= *t0 && self.now < *t1 && (m >> a & 1) != (m >> b & 1)) }
    fn seal_form(&self, e: usize, bm: u64) -> Form { let ep = &self.ep[e]; let mut s = Fr::zero(); for (i, m) in ep.members.iter().enumerate() { if bm >> i & 1 == 1 { s += pool().sk[*m]; } } fone(ep.id, &s) }
    fn send(&mut self, from: usize, to: usize, mut ev: Ev, cx: &mut Cx) {
        let k = self.sent; self.sent += 1; let mut r = Rng::new(mix2(self.seed, mix2(k, 0xd31a)));
        if !self.linked(from, to) { cx.fault("partitioned_message"); return; }
        let faulty = self.now < self.tf; let mut d = 1 + r.below(8); let mut dup = false;
        if faulty && r.below(1000) < self.loss { cx.fault("message_loss"); return; }
        if faulty { for (kind, x) in self.msgf.get(&k).cloned().unwrap_or_default() { match kind {
            0 => { cx.fault("message_loss"); return; } 1 => { dup = true; cx.fault("message_duplicated"); } 2 => { d += 10 + x % 90; cx.fault("message_delayed"); }
            _ => { let c = |b: &mut Vec<u8>| { if let Ok(g) = Signature::deserialize(&b[..]) { *b = sig_encoding(g.as_ref(), 1 + x % 11, x).0; } }; match &mut ev { Ev::Sig { b, honest, .. } => { c(b); *honest = false; } Ev::Seal { b, .. } => c(b), Ev::Batch { seals, .. } => if let Some(s) = seals.last_mut() { c(&mut s.1) }, _ => {} } cx.fault("message_corrupted"); }
        } } }
        if dup { let e2 = ev.clone(); self.push(self.now + d + 3, e2); }
        if d > 8 { cx.probe("reordered"); }
        self.push(self.now + d, ev);
    }
    fn event(&mut self, ev: Ev, cx: &mut Cx) {
        match ev {
            Ev::Timer(i) => {
                self.push(self.now + 18 + self.nodes[i].skew, Ev::Timer(i));
                if !self.nodes[i].up { return; }
                let e = self.nodes[i].epoch;
                if e < self.ep.len() {
                    self.cast(i, e, cx);
                    let j = mix2(self.seed, mix2(self.now, i as u64)) as usize % self.nodes.len(); if j != i { self.send(i, j, Ev::Req { from: i, to: j, e }, cx); }
                } else if self.nodes[i].byz.is_none() && self.now < self.tf { let j = mix2(self.seed, mix2(self.now, i as u64)) as usize % self.nodes.len(); if j != i { let (bm, b) = self.nodes[i].seals[e - 1].clone(); self.send(i, j, Ev::Seal { e: e - 1, from: i, to: j, bm, b }, cx); } }
            }
            Ev::Crash(i, down, disk) => {
                if !self.nodes[i].up { return; }
                cx.fault("crash"); let nd = &mut self.nodes[i];
                nd.up = false; nd.sigs.clear(); nd.order.clear(); nd.pending.clear(); nd.mine = None; nd.cache = PublicKeyCache::new();
                match disk { 1 if !nd.seals.is_empty() => { nd.seals.pop(); cx.fault("lost_write"); } 2 => if let Some(s) = nd.seals.last_mut() { let k = (mix2(self.seed, self.now) % 48) as usize; s.1.truncate(k); cx.fault("torn_write"); }, 3 => if let Some(s) = nd.seals.last_mut() { let k = mix2(self.seed, self.now); s.1[(k % 48) as usize] ^= 1 << (k >> 8 & 7); cx.fault("disk_corruption"); }, _ => {} }
                self.push(self.now + down, Ev::Restart(i)); cx.log(|| format!("t{} crash {}", self.now, i));
            }
            Ev::Junk(i, m, kind, x) => {
                // a damaged copy of a validator's key arrives before or after the genuine one
                if !self.nodes[i].up { return; } let (b, t, def) = if kind == 0 { let mut b = self.reg[m as usize].clone(); let mut r = Rng::new(x); let j = 1 + r.below(90) as usize; b[j..].iter_mut().for_each(|y| *y = r.below(256) as u8); (b, None, false) } else { super::cache::encoding(m, kind, x) };
                cx.fault("damaged_key"); let got = if self.nodes[i].ct == 0 { self.nodes[i].cache.deserialize(b.clone()).ok().map(|k| *k.as_ref()) } else { let mut o = std::ptr::null_mut(); if se::deserialize_public_key_cached(b.as_ptr(), b.len() as c_int, &mut o) { let k = *unsafe { &*o }.as_ref(); unsafe { se::destroy_public_key(o); } Some(k) } else { None } };
                let ok = match (def, t) { (true, t) => got == t, (false, _) => got == PublicKey::deserialize(&mut &b[..]).ok().map(|k| *k.as_ref()) };
                cx.check("L01", "damaged-key", ok, || format!("client {} decodes a damaged copy of key {} (kind {}) wrongly", self.nodes[i].ct, m, kind)); cx.log(|| format!("t{} junk {} {} {} {}", self.now, i, m, kind, got.is_some()));
            }
            Ev::Flood(i, k, x) => {
                if !self.nodes[i].up { return; } let e = self.nodes[i].epoch.min(self.ep.len() - 1); let ct = self.nodes[i].ct.min(1); cx.fault("bad_signature_flood");
                let (m, ex, mode) = (self.ep[e].msg.clone(), self.ep[e].ex.clone(), self.mode); let who = self.ep[e].members[(x % self.ep[e].members.len() as u64) as usize]; let pk = self.pk(i, who, cx); let mut p = m1(&g1(), &fr(x));
                for _ in 0..k { let b = enc1(&p); let (_, v) = verify(ct, &pk, mode, &m, &ex, &b); if !cx.check("S01", "invalid-accepted", !v, || "a random point was accepted as a signature".into()) { return; } p += g1(); }
                // and the honest one still counts
                let b = enc1(&self.book.point(&fone(self.ep[e].id, &pool().sk[who]))); let (_, v) = verify(ct, &pk, mode, &m, &ex, &b);
                for p in ["L01", "S01"] { cx.check(p, "valid-rejected", v, || format!("client {} rejects a valid signature after {} invalid ones", ct, k)); } cx.log(|| format!("t{} flood {} {} {}", self.now, i, k, v));
            }
            Ev::Restart(i) => {
                cx.fault("restart"); self.nodes[i].up = true;
                // recovery: every seal on disk is verified again before it is trusted
                let seals = std::mem::take(&mut self.nodes[i].seals); self.nodes[i].epoch = 0;
                for (e, (bm, b)) in seals.into_iter().enumerate() { if !self.check_seal(i, e, bm, &b, cx) { break; } self.nodes[i].seals.push((bm, b)); self.nodes[i].epoch = e + 1; }
                cx.log(|| format!("t{} restart {} at {}", self.now, i, self.nodes[i].epoch));
            }
            Ev::Sig { e, from, to, b, honest } => { if !self.nodes[to].up || self.byz == to { return; } if e < self.nodes[to].epoch { let (bm, s) = self.nodes[to].seals[e].clone(); self.send(to, from, Ev::Seal { e, from: to, to: from, bm, b: s }, cx); } else if e == self.nodes[to].epoch { self.on_sig(to, e, from, b, honest, cx); } }
            Ev::Seal { e, from, to, bm, b } => { if !self.nodes[to].up || self.byz == to { return; } let c = self.nodes[to].epoch; if e == c && e < self.ep.len() { if self.check_seal(to, e, bm, &b, cx) { self.finalise(to, e, bm, b, cx); } } else if e > c { self.send(to, from, Ev::Req { from: to, to: from, e: c }, cx); } }
            Ev::Req { from, to, e } => { if !self.nodes[to].up { return; } let v: Vec<_> = self.nodes[to].seals.iter().skip(e).cloned().collect(); if v.is_empty() { return; } let mut v = v; if let Some((k, x)) = self.nodes[to].byz { if k & 1 == 1 { let j = (x % v.len() as u64) as usize; let d = m1(&g1(), &fr(x)); let t = |b: &mut Vec<u8>, neg: bool| if let Ok(s) = Signature::deserialize(&b[..]) { *b = enc1(&if neg { *s.as_ref() - d } else { *s.as_ref() + d }); }; t(&mut v[j].1, false); cx.fault("tampered_history"); if k & 2 == 2 && v.len() > 1 { let l = v.len(); t(&mut v[(j + 1) % l].1, true); cx.fault("compensating_history"); } } } self.send(to, from, Ev::Batch { to: from, start: e, seals: v }, cx); }
            Ev::Batch { to, start, seals } => { if self.nodes[to].up && self.byz != to && self.nodes[to].epoch == start { self.on_batch(to, start, seals, cx); } }
        }
    }
    /// Signs the current header (or misbehaves) and broadcasts.
    fn cast(&mut self, i: usize, e: usize, cx: &mut Cx) {
        let me = match self.ep[e].members.iter().position(|m| *m == i) { Some(p) => p, None => return };
        let _ = me; let (mode, ct) = (self.mode, self.nodes[i].ct);
        let sk = pool().sk[i];
        if let Some((k, x)) = self.nodes[i].byz {
            cx.fault("byzantine_message"); let ep = &self.ep[e]; let id = ep.id; let mut r = Rng::new(mix2(x, e as u64));
            let f = match k {
                0 => { let t = tamper(&ep.blk, r.below(9), x); let (m, e2) = if mode == 2 { refimpl::enc_inner(&t) } else { (refimpl::enc_legacy(&t), vec![]) }; self.book.id(mode, refimpl::SIG, &m, &e2).map(|z| fone(z.0, &sk)) }
                1 => { let (m, e2) = (ep.msg.clone(), ep.ex.clone()); self.book.id((mode + 1) % 3, refimpl::SIG, &m, &e2).map(|z| fone(z.0, &sk)) }
                2 => Some(fone(id, &pool().sk[(i + 1) % self.nodes.len()])), 3 => Some(Form::new()), 4 => Some(fone(id, &-sk)),
                5 => Some(fone(id, &(sk + pool().sk[(i + 1) % self.nodes.len()]))), 6 => { let m = ep.msg.clone(); let e2 = ep.ex.clone(); self.book.id(mode, refimpl::POP, &m, &e2).map(|z| fone(z.0, &sk)) }
                7 => { let p = if e > 0 { self.ep[e - 1].id } else { id }; Some(fone(p, &sk)) } 8 => Some(fone(id, &(sk * pool().lambda))), 9 => { let (m, mut e2) = (ep.msg.clone(), ep.ex.clone()); e2.push(0); self.book.id(mode, refimpl::SIG, &m, &e2).map(|z| fone(z.0, &sk)) }
                10 => { let (mut m, e2) = (ep.msg.clone(), ep.ex.clone()); m.push(0); self.book.id(mode, refimpl::SIG, &m, &e2).map(|z| fone(z.0, &sk)) } _ => Some(fadd(&fone(id, &sk), &fone(0, &fr(x)))),
            };
            let b = enc1(&self.book.point(&f.unwrap_or_default()));
            for to in 0..self.nodes.len() { if to != i { self.send(i, to, Ev::Sig { e, from: i, to, b: b.clone(), honest: false }, cx); } }
            return;
        }
        if self.nodes[i].mine.is_none() {
            // the header as this client encodes it
            let enc = encode(ct, mode, &self.ep[e].blk); let want = (self.ep[e].msg.clone(), self.ep[e].ex.clone());
            cx.check("E01", "encoding-differs", enc.as_ref() == Some(&want), || format!("client {} encodes the header of epoch {} differently from the reference", ct, e));
            let (m, x) = enc.unwrap_or(want);
            let b = sign(ct, &mut self.book, &sk, mode, &m, &x).unwrap_or_default();
            let wb = enc1(&self.book.point(&fone(self.ep[e].id, &sk)));
            cx.check("S01", "wrong-signature", b == wb, || format!("client {} in mode {} produced another signature for epoch {}", ct, mode, e));
            cx.check("H02", "wrong-signature", b == wb, || format!("client {} in mode {} signs a different hash for epoch {}", ct, mode, e));
            self.nodes[i].mine = Some(b);
        }
        let b = self.nodes[i].mine.clone().unwrap();
        if !self.nodes[i].sigs.contains_key(&i) { self.nodes[i].sigs.insert(i, b.clone()); self.nodes[i].order.push(i); }
        for to in 0..self.nodes.len() { if to != i { self.send(i, to, Ev::Sig { e, from: i, to, b: b.clone(), honest: true }, cx); } }
        self.try_seal(i, e, cx);
    }
    fn pk(&mut self, i: usize, m: usize, cx: &mut Cx) -> PublicKey {
        let b = self.reg[m].clone(); let ct = self.nodes[i].ct;
        let got = match ct { 0 => self.nodes[i].cache.deserialize(b).ok(), 1 => { let mut o = std::ptr::null_mut(); if se::deserialize_public_key_cached(b.as_ptr(), b.len() as c_int, &mut o) { let k = unsafe { &*o }.clone(); unsafe { se::destroy_public_key(o); } Some(k) } else { None } } _ => Some(PublicKey::from(pool().pk[m])) };
        cx.check("L01", "registered-key-refused", got.as_ref().map_or(false, |k| *k.as_ref() == pool().pk[m]), || format!("client {} does not decode the registered key of node {}", ct, m));
        got.unwrap_or_else(|| PublicKey::from(G2::zero()))
    }
    /// Truth: the one valid signature of `form` equals the decoded point.
    fn truth(&self, f: &Form, dec: &Option<G1>) -> bool { dec.map_or(false, |p| p == self.book.point(f)) }
    fn on_sig(&mut self, i: usize, e: usize, from: usize, b: Vec<u8>, honest: bool, cx: &mut Cx) {
        if !self.ep[e].members.contains(&from) || self.nodes[i].sigs.contains_key(&from) { return; }
        if self.nodes[i].deferred { if !self.nodes[i].pending.iter().any(|p| p.0 == from && p.1 == b) { self.nodes[i].pending.push((from, b)); } self.flush(i, e, cx); return; }
        let pk = self.pk(i, from, cx); let (m, x, id, mode, ct) = (self.ep[e].msg.clone(), self.ep[e].ex.clone(), self.ep[e].id, self.mode, self.nodes[i].ct);
        let f = fone(id, &pool().sk[from]);
        let (dec, v) = if ct == 2 { let d = Signature::deserialize(&b[..]).ok().map(|s| *s.as_ref()); let t = self.truth(&f, &d); (d, t) } else { verify(ct, &pk, mode, &m, &x, &b) };
        let want = self.truth(&f, &dec);
        cx.log(|| format!("t{} sig {}->{} e{} {}", self.now, from, i, e, v)); cx.probe(if want { "valid_signature" } else { "invalid_signature" });
        cx.check("S01", if want { "valid-rejected" } else { "invalid-accepted" }, v == want, || format!("client {} mode {}: verdict {} on a signature from {} for epoch {} that is {}", ct, mode, v, from, e, if want { "valid" } else { "invalid" }));
        if honest { cx.check("S01", "honest-rejected", v, || format!("client {} rejected an untouched honest signature (mode {})", ct, mode)); }
        if v && want { self.nodes[i].sigs.insert(from, b); self.nodes[i].order.push(from); self.try_seal(i, e, cx); }
    }
    /// Deferred policy: verify what has accumulated as one strict batch, entry by entry on failure.
    fn flush(&mut self, i: usize, e: usize, cx: &mut Cx) {
        let ep = &self.ep[e]; let q = ep.quorum;
        let p = self.nodes[i].pending.clone(); let distinct: BTreeSet<usize> = p.iter().map(|x| x.0).collect();
        if self.nodes[i].sigs.len() + distinct.len() < q { return; }
        let (m, x, id, mode, ct) = (ep.msg.clone(), ep.ex.clone(), ep.id, self.mode, self.nodes[i].ct);
        self.nodes[i].pending.clear();
        let mut b = Batch::new(&m, &x); let mut all = true; let mut items = vec![];
        for (from, by) in p { let s = match Signature::deserialize(&by[..]) { Ok(s) => s, Err(_) => continue }; let t = *s.as_ref() == self.book.point(&fone(id, &pool().sk[from])); all &= t; let pk = self.pk(i, from, cx); b.add(pk.clone(), s.clone()); items.push((from, by, pk, s, t)); }
        if items.is_empty() { return; }
        let v = if ct == 1 { let (c, z) = flags(mode); let pks: Vec<*const PublicKey> = items.iter().map(|y| &y.2 as *const _).collect(); let sgs: Vec<*const Signature> = items.iter().map(|y| &y.3 as *const _).collect(); let f = BatchMessageFFI { data: Buffer { ptr: m.as_ptr(), len: m.len() }, extra: Buffer { ptr: if x.is_empty() { m.as_ptr() } else { x.as_ptr() }, len: x.len() }, public_keys: pks.as_ptr(), public_keys_len: pks.len(), signatures: sgs.as_ptr(), signatures_len: sgs.len() }; let mut o = 2u8; let r = sg::batch_verify_strict(&f, 1, c, z, &mut o as *mut u8 as *mut bool); r && o == 1 }
            else { match mode { 0 => b.verify(&*DIRECT_HASH_TO_G1), 1 => b.verify(&*COMPOSITE_HASH_TO_G1), _ => b.verify(&*COMPOSITE_HASH_TO_G1_CIP22) }.is_ok() };
        cx.probe("strict_batch"); cx.log(|| format!("t{} flush {} e{} {} {}", self.now, i, e, items.len(), v));
        cx.check("S04", if all { "strict-rejects-valid" } else { "strict-accepts-invalid" }, v == all, || format!("client {} strict batch of {} returned {} but all-valid is {}", ct, items.len(), v, all));
        for (from, by, pk, s, t) in items { let ok = v || lib_verify(&pk, mode, &m, &x, &s); if !v { cx.check("S01", if t { "valid-rejected" } else { "invalid-accepted" }, ok == t, || format!("verdict {} on a signature from {} that is {}", ok, from, t)); } if ok && t && !self.nodes[i].sigs.contains_key(&from) { self.nodes[i].sigs.insert(from, by); self.nodes[i].order.push(from); } }
        self.try_seal(i, e, cx);
    }
    fn try_seal(&mut self, i: usize, e: usize, cx: &mut Cx) {
        let ep = &self.ep[e];
        if self.nodes[i].epoch != e || self.nodes[i].order.len() < ep.quorum { return; }
        let order = self.nodes[i].order.clone(); let mut bm = 0u64; for s in &order { bm |= 1 << ep.members.iter().position(|m| m == s).unwrap(); }
        let v: Vec<Vec<u8>> = order.iter().map(|s| self.nodes[i].sigs[s].clone()).collect();
        let a = agg_sigs(self.nodes[i].ct, &v, self.nodes[i].gseed ^ self.now); let want = enc1(&self.book.point(&self.seal_form(e, bm)));
        cx.check("S02", "aggregate-depends-on-order", a.as_ref() == Some(&want), || format!("client {} aggregated {} signatures in arrival order {:?} to something other than their sum", self.nodes[i].ct, v.len(), order));
        let b = a.unwrap_or(want);
        if self.check_seal(i, e, bm, &b, cx) { self.finalise(i, e, bm, b, cx); }
    }
    fn check_seal(&mut self, i: usize, e: usize, bm: u64, b: &[u8], cx: &mut Cx) -> bool {
        let ep = &self.ep[e]; if bm >> ep.members.len() != 0 || (bm.count_ones() as usize) < ep.quorum { return false; }
        let mem: Vec<usize> = ep.members.iter().enumerate().filter(|(k, _)| bm >> k & 1 == 1).map(|x| *x.1).collect(); let absent: Vec<usize> = ep.members.iter().enumerate().filter(|(k, _)| bm >> k & 1 == 0).map(|x| *x.1).collect(); let members = ep.members.clone();
        let (m, x, mode, ct) = (ep.msg.clone(), ep.ex.clone(), self.mode, self.nodes[i].ct);
        let apk = if ct == 2 { PublicKey::from(mem.iter().fold(G2::zero(), |a, k| a + pool().pk[*k])) } else {
            let keys: Vec<PublicKey> = mem.iter().map(|k| self.pk(i, *k, cx)).collect();
            if ct == 0 { self.nodes[i].cache.aggregate(keys) } else {
                let get = |keys: &[PublicKey], base: Option<*const PublicKey>| { let p: Vec<*const PublicKey> = keys.iter().map(|k| k as *const _).collect(); let mut o = std::ptr::null_mut(); let ok = match base { None => sg::aggregate_public_keys(p.as_ptr(), p.len() as c_int, &mut o), Some(b) => sg::aggregate_public_keys_subtract(b, p.as_ptr(), p.len() as c_int, &mut o) }; if !ok { return PublicKey::from(G2::zero()); } let k = unsafe { &*o }.clone(); unsafe { se::destroy_public_key(o); } k };
                // full set minus absentees, or the signers directly
                if self.nodes[i].gseed & 1 == 1 { let full: Vec<PublicKey> = members.iter().map(|k| self.pk(i, *k, cx)).collect(); let abs: Vec<PublicKey> = absent.iter().map(|k| self.pk(i, *k, cx)).collect(); let t = get(&full, None); get(&abs, Some(&t)) } else { get(&keys, None) }
            } };
        let sum = mem.iter().fold(G2::zero(), |a, k| a + pool().pk[*k]);
        cx.check("S02", "aggregate-key", *apk.as_ref() == sum, || format!("client {} aggregate key of {} signers differs from their sum", ct, mem.len()));
        let f = self.seal_form(e, bm);
        let (dec, v) = if ct == 2 { let d = Signature::deserialize(b).ok().map(|s| *s.as_ref()); let t = self.truth(&f, &d); (d, t) } else { verify(ct, &apk, mode, &m, &x, b) };
        let want = self.truth(&f, &dec); cx.log(|| format!("t{} seal {} e{} {:x} {}", self.now, i, e, bm, v)); cx.probe(if want { "valid_seal" } else { "invalid_seal" });
        cx.check("S02", if want { "valid-seal-rejected" } else { "invalid-seal-accepted" }, v == want, || format!("client {} verdict {} on a seal of epoch {} that is {}", ct, v, e, want));
        v && want
    }
    fn finalise(&mut self, i: usize, e: usize, bm: u64, b: Vec<u8>, cx: &mut Cx) {
        // stored and relayed in canonical form: what arrived may carry trailing bytes
        let b = Signature::deserialize(&b[..]).map(|s| enc1(s.as_ref())).unwrap_or(b);
        let nd = &mut self.nodes[i]; nd.seals.push((bm, b.clone())); nd.epoch = e + 1; nd.sigs.clear(); nd.order.clear(); nd.pending.clear(); nd.mine = None;
        cx.log(|| format!("t{} final {} e{}", self.now, i, e));
        for to in 0..self.nodes.len() { if to != i { self.send(i, to, Ev::Seal { e, from: i, to, bm, b: b.clone() }, cx); } }
    }
    /// Catch-up: several epochs verified in one multi-message equation, then one by one.
    fn on_batch(&mut self, i: usize, start: usize, seals: Vec<(u64, Vec<u8>)>, cx: &mut Cx) {
        let k = seals.len().min(self.ep.len() - start); let seals = &seals[..k]; let (mode, ct) = (self.mode, self.nodes[i].ct);
        let mut sum = G1::zero(); let mut want = G1::zero(); let mut sigs = vec![]; let mut pks = vec![]; let mut bad = false;
        for (j, (bm, b)) in seals.iter().enumerate() { let ep = &self.ep[start + j]; if bm >> ep.members.len() != 0 { return; } match Signature::deserialize(&b[..]) { Ok(s) => { sum += s.as_ref(); sigs.push(s); } Err(_) => { bad = true; break; } } want += self.book.point(&self.seal_form(start + j, *bm)); pks.push(PublicKey::from(ep.members.iter().enumerate().filter(|(q, _)| bm >> q & 1 == 1).fold(G2::zero(), |a, x| a + pool().pk[*x.1]))); }
        if !bad && k > 0 {
            let t = sum == want; cx.probe(if t { "catch_up_valid" } else { "catch_up_invalid" });
            let v = if ct == 1 { let (c, z) = flags(mode); let ms: Vec<MessageFFI> = (0..k).map(|j| { let ep = &self.ep[start + j]; MessageFFI { data: Buffer { ptr: ep.msg.as_ptr(), len: ep.msg.len() }, extra: Buffer { ptr: if ep.ex.is_empty() { ep.msg.as_ptr() } else { ep.ex.as_ptr() }, len: ep.ex.len() }, public_key: &pks[j], sig: &sigs[j] } }).collect(); let mut o = 2u8; sg::batch_verify_signature(ms.as_ptr(), ms.len(), c, z, &mut o as *mut u8 as *mut bool) && o == 1 }
                else { let a = Signature::aggregate(&sigs); let ms: Vec<(&[u8], &[u8])> = (0..k).map(|j| (&self.ep[start + j].msg[..], &self.ep[start + j].ex[..])).collect(); match mode { 0 => a.batch_verify(&pks, SIG_DOMAIN, &ms, &*DIRECT_HASH_TO_G1), 1 => a.batch_verify(&pks, SIG_DOMAIN, &ms, &*COMPOSITE_HASH_TO_G1), _ => a.batch_verify(&pks, SIG_DOMAIN, &ms, &*COMPOSITE_HASH_TO_G1_CIP22) }.is_ok() };
            cx.log(|| format!("t{} batch {} {}..+{} {}", self.now, i, start, k, v));
            cx.check("S03", if t { "valid-batch-rejected" } else { "invalid-batch-accepted" }, v == t, || format!("client {} verdict {} on {} epochs at once whose aggregate is {}", ct, v, k, t));
            // mismatched lengths and exchanged messages are never accepted
            if ct == 0 && k > 1 && cx.want("S03") {
                let a = Signature::aggregate(&sigs); let hs: Vec<G1> = (0..k).map(|j| self.book.pts[&self.ep[start + j].id]).collect();
                let mut h2 = hs.clone(); h2.swap(0, 1); let same = hs[0] == hs[1] || pks[0] == pks[1];
                cx.check("S03", "hashes-valid", a.batch_verify_hashes(&pks, &hs).is_ok() == t, || "verdict on precomputed hashes differs".into());
                if t && !same { cx.check("S03", "exchanged-messages-accepted", a.batch_verify_hashes(&pks, &h2).is_err(), || "two epochs' hashes exchanged and still accepted".into()); }
                cx.check("S03", "length-mismatch-accepted", a.batch_verify_hashes(&pks, &hs[..k - 1]).is_err() && a.batch_verify_hashes(&pks[..k - 1], &hs).is_err(), || "key and message counts differ and the batch was accepted".into());
                let ms: Vec<(&[u8], &[u8])> = (0..k - 1).map(|j| (&self.ep[start + j].msg[..], &self.ep[start + j].ex[..])).collect();
                cx.check("S03", "length-mismatch-accepted", a.batch_verify(&pks, SIG_DOMAIN, &ms, &*COMPOSITE_HASH_TO_G1_CIP22).is_err(), || "key and message counts differ and the batch was accepted".into()); cx.fault("uneven_batch");
            }
        }
        for (j, (bm, b)) in seals.iter().enumerate() { let e = start + j; if self.nodes[i].epoch != e || !self.check_seal(i, e, *bm, b, cx) { break; } self.finalise(i, e, *bm, b.clone(), cx); }
    }
    /// A multiset of signatures and keys, with repeats, opposites and identities, combined in two orders and groupings.
    fn agg(&mut self, s: &Step, cx: &mut Cx) {
        let (k, ct, shape) = (s.arg(1).min(200) as usize, s.arg(2) & 1, s.arg(3) % 4); let mut r = Rng::new(s.arg(0));
        let id = self.ep[0].id; let mut ix: Vec<u64> = (0..k).map(|_| match shape { 0 => r.below(NK as u64), 1 => r.below(4) | r.below(2) << 8, 2 => r.below(NK as u64) | r.below(5) << 8, _ => r.below(3) | r.below(5) << 8 | r.below(4) << 16 }).collect();
        if shape > 0 { cx.fault("repeated_or_opposite"); }
        let mut want1 = Form::new(); let mut want2 = G2::zero(); for x in &ix { let (p, c) = key(*x); want1 = fadd(&want1, &fone(id, &c)); want2 += p; }
        let want1 = self.book.point(&want1); let h = self.book.pts[&id];
        for pass in 0..2 {
            if pass == 1 { r.shuffle(&mut ix); }
            let sg1: Vec<Signature> = ix.iter().map(|x| Signature::from(rescale1(&m1(&h, &key(*x).1), x >> 16))).collect(); let pk: Vec<PublicKey> = ix.iter().map(|x| PublicKey::from(key(*x).0)).collect();
            let by: Vec<Vec<u8>> = sg1.iter().map(ser).collect();
            let a = agg_sigs(ct, &by, s.arg(4) ^ pass); cx.check("S02", "aggregate-depends-on-order", a == Some(enc1(&want1)), || format!("client {} combined {} signatures to something other than their sum", ct, k));
            if ct == 0 { let a = Signature::aggregate(&sg1); cx.check("S02", "aggregate-depends-on-order", *a.as_ref() == want1, || format!("aggregating {} signatures does not give their sum", k)); let a = PublicKey::aggregate(&pk); cx.check("S02", "aggregate-key", *a.as_ref() == want2, || format!("aggregating {} keys does not give their sum", k)); let c = k / 2; let a = PublicKey::aggregate([PublicKey::aggregate(&pk[..c]), PublicKey::aggregate(&pk[c..])]); cx.check("S02", "aggregate-key", *a.as_ref() == want2, || format!("aggregating {} keys in two groups does not give their sum", k)); }
            // the full set minus the absent ones equals the rest
            let c = k / 3; let full = PublicKey::from(want2); let p: Vec<*const PublicKey> = pk[..c].iter().map(|k| k as *const _).collect(); let mut o = std::ptr::null_mut();
            let ok = sg::aggregate_public_keys_subtract(&full, if c == 0 { &(&full as *const PublicKey) } else { p.as_ptr() }, c as c_int, &mut o);
            let dup = pk[..c].iter().enumerate().any(|(i, a)| pk[..i].iter().any(|b| a.as_ref() == b.as_ref()));
            if ok { let got = *unsafe { &*o }.as_ref(); unsafe { se::destroy_public_key(o); } if !dup { let rest = pk[c..].iter().fold(G2::zero(), |a, k| a + k.as_ref()); cx.check("S02", "aggregate-key", got == rest, || format!("removing {} of {} keys does not leave the sum of the others", c, k)); } } else { cx.check("S02", "aggregate-key", false, || "removing keys failed".into()); }
        }
        cx.ops += 1; cx.log(|| format!("agg {:?}", s.a));
    }
    /// Several messages under several keys in one equation, as an adversary would assemble them.
    fn multi(&mut self, s: &Step, cx: &mut Cx) {
        let (k, kind, ct, mode) = (s.arg(1).clamp(1, 48) as usize, s.arg(2) % 18, s.arg(3) % 3, s.arg(4) % 3); let mut r = Rng::new(s.arg(0));
        let mut ms: Vec<(Vec<u8>, Vec<u8>)> = (0..k).map(|_| { let n = r.below(60) as usize; let x = if mode == 2 { r.below(9) as usize } else { 0 }; (r.bytes(n), r.bytes(x)) }).collect();
        let mut ks: Vec<usize> = (0..k).map(|_| r.below(NK as u64) as usize).collect(); let mut sks: Vec<Fr> = vec![];
        if r.chance(1, 4) && k > 1 { ms[k - 1] = ms[0].clone(); } if r.chance(1, 4) && k > 1 { ks[k - 1] = ks[0]; }
        for i in &ks { sks.push(if r.chance(1, 6) { cx.fault("special_key"); let o = Fr::from(1u64); match r.below(5) { 0 | 1 => o, 2 => -o, 3 => o + o, _ => pool().lambda } } else { pool().sk[*i] }); }
        let mut dom = refimpl::SIG; let (a, b) = (r.below(k as u64) as usize, r.below(k as u64) as usize);
        if kind == 9 { dom = refimpl::POP; }
        let mut each: Vec<Form> = vec![]; for j in 0..k { match self.book.id(mode, dom, &ms[j].0, &ms[j].1) { Some(x) => each.push(fone(x.0, &sks[j])), None => return } }
        // what is presented may differ from what was signed
        let name = match kind {
            0 => "", 1 => { ms.swap(a, b); "exchanged_messages" } 2 => { sks.swap(a, b); "exchanged_keys" }
            3 => { let d = fone(0, &fr(s.arg(0))); each[a] = fadd(&each[a], &d); let m = fscale(&d, &-Fr::from(1u64)); each[b] = fadd(&each[b], &m); "compensating_signatures" }
            4 => { each.remove(a); "missing_signature" } 5 => { let e = each[a].clone(); each.push(e); "repeated_signature" } 6 => { let n = r.range(1, 40) as usize; ms[a].0 = r.bytes(n); "replaced_message" }
            7 => { if mode == 2 { ms[a].1.push(1); } else { ms[a].0.push(1); } "extended_message" } 8 => { sks[a] = fr(s.arg(0) ^ 5); "replaced_key" } 9 => "other_domain", 10 => "missing_key", 11 => "missing_message",
            12 => { let m = fscale(&each[a], &-Fr::from(1u64)); each[a] = m; "negated_signature" } 13 => { for e in each.iter_mut() { e.clear(); } "identity_signature" } 14 => { sks[a] = Fr::zero(); each[a].clear(); "identity_key_consistent" } 16 => "surplus_key", 17 => "surplus_message", _ => { sks[a] = -sks[a]; "negated_key" }
        };
        if !name.is_empty() { cx.fault(name); }
        let mut want_f = Form::new(); let mut hs = vec![]; for j in 0..k { match self.book.id(mode, refimpl::SIG, &ms[j].0, &ms[j].1) { Some(x) => { want_f = fadd(&want_f, &fone(x.0, &sks[j])); hs.push(self.book.pts[&x.0]); } None => return } }
        let mut got = Form::new(); for e in &each { got = fadd(&got, e); }
        let mut t = got == want_f;
        let mut pks: Vec<PublicKey> = sks.iter().map(|x| PublicKey::from(rescale(&m2(&g2(), x), r.below(3)))).collect(); let full = pks.clone();
        let sigs: Vec<Signature> = each.iter().map(|f| Signature::from(self.book.point(f))).collect();
        if kind == 10 && ct != 1 { pks.remove(a); t = false; } if kind == 11 && ct != 1 { ms.remove(a); hs.remove(a); t = false; }
        // the truncated equation holds, the lists do not match
        let (pos, more) = (r.below(k as u64 + 1) as usize, r.chance(1, 2));
        if kind == 16 && ct != 1 { let p = if more { k } else { pos }; pks.insert(p, PublicKey::from(pool().pk[r.below(NK as u64) as usize])); t = false; }
        if kind == 17 && ct != 1 { let p = if more { k } else { pos }; let m = (r.bytes(9), vec![]); if let Some(x) = self.book.id(mode, refimpl::SIG, &m.0, &m.1) { hs.insert(p, self.book.pts[&x.0]); ms.insert(p, m); t = false; } }
        let agg = Signature::from(self.book.point(&got));
        let mr: Vec<(&[u8], &[u8])> = ms.iter().map(|m| (&m.0[..], &m.1[..])).collect();
        let v = match ct {
            1 if sigs.len() == k => { let (c, z) = flags(mode); let e = [0u8]; let f: Vec<MessageFFI> = (0..k).map(|j| MessageFFI { data: Buffer { ptr: if ms[j].0.is_empty() { e.as_ptr() } else { ms[j].0.as_ptr() }, len: ms[j].0.len() }, extra: Buffer { ptr: if ms[j].1.is_empty() { e.as_ptr() } else { ms[j].1.as_ptr() }, len: ms[j].1.len() }, public_key: &full[j], sig: &sigs[j] }).collect(); let mut o = 2u8; sg::batch_verify_signature(f.as_ptr(), f.len(), c, z, &mut o as *mut u8 as *mut bool) && o == 1 }
            2 => agg.batch_verify_hashes(&pks, &hs).is_ok(),
            _ => match mode { 0 => agg.batch_verify(&pks, SIG_DOMAIN, &mr, &*DIRECT_HASH_TO_G1), 1 => agg.batch_verify(&pks, SIG_DOMAIN, &mr, &*COMPOSITE_HASH_TO_G1), _ => agg.batch_verify(&pks, SIG_DOMAIN, &mr, &*COMPOSITE_HASH_TO_G1_CIP22) }.is_ok(),
        };
        cx.ops += 1; cx.probe(if t { "multi_valid" } else { "multi_invalid" }); cx.log(|| format!("multi {:?} {}", s.a, v));
        cx.check("S03", if t { "valid-batch-rejected" } else { "invalid-batch-accepted" }, v == t, || format!("client {} mode {} verdict {} on {} messages at once ({}) whose equation is {}", ct, mode, v, k, name, t));
    }
    /// Key registration: proofs of possession offered honestly and dishonestly.
    fn pop(&mut self, s: &Step, cx: &mut Cx) {
        let n = self.nodes.len() as u64; let (a, b) = ((s.arg(1) % n) as usize, (s.arg(2) % n) as usize); let mut r = Rng::new(s.arg(3));
        let addr = r.bytes(20); let other = r.bytes(20); let (ska, skb) = (pool().sk[a], pool().sk[b]);
        let mut reg = ska; // the key being registered
        let pid = |w: &mut W, d: &[u8], m: &[u8]| w.book.id(0, d, m, &[]).map(|x| x.0).unwrap_or(0);
        let good = pid(self, refimpl::POP, &addr);
        let (f, name) = match s.arg(0) {
            0 => (fone(good, &ska), "honest"), 1 => (fone(good, &skb), "pop_by_other_key"), 2 => { let o = pid(self, refimpl::POP, &other); (fone(o, &ska), "pop_for_other_message") }
            3 => { let o = pid(self, refimpl::SIG, &addr); (fone(o, &ska), "signature_as_pop") } 4 => { reg = ska - skb; (fone(good, &ska), "rogue_key") } 5 => (Form::new(), "identity_pop"), 6 => (fone(good, &-ska), "negated_pop"),
            7 => { let m = [&addr[..], &[0]].concat(); let o = pid(self, refimpl::POP, &m); (fone(o, &ska), "extended_message") } _ => { let o = self.book.id(1, refimpl::POP, &addr, &[]).map(|x| x.0).unwrap_or(0); (fone(o, &ska), "other_hash") }
        };
        if name != "honest" { cx.fault(name); }
        let want = f == fone(good, &reg); let pk = PublicKey::from(m2(&g2(), &reg)); let sig = Signature::from(self.book.point(&f));
        let ct = s.arg(4) & 1;
        let v = if ct == 1 { let mut o = 2u8; sg::verify_pop(&pk, addr.as_ptr(), 20, &sig, &mut o as *mut u8 as *mut bool) && o == 1 } else { pk.verify_pop(&addr, &sig, &*DIRECT_HASH_TO_G1).is_ok() };
        cx.check("S06", if want { "valid-pop-rejected" } else { "false-pop-accepted" }, v == want, || format!("client {} verdict {} on a {} proof of possession", ct, v, name));
        // the other direction: a proof of possession never serves as a signature
        let sv = lib_verify(&pk, 0, &addr, &[], &sig); let sid = pid(self, refimpl::SIG, &addr); let swant = f == fone(sid, &reg);
        cx.check("S06", "pop-as-signature", sv == swant, || format!("a {} proof of possession verifies as a signature: {}", name, sv));
        // made by the library itself
        let k = PrivateKey::from(ska); let mine = if ct == 1 { let mut o = std::ptr::null_mut(); if sg::sign_pop(&k, addr.as_ptr(), 20, &mut o) { let g = unsafe { &*o }.clone(); unsafe { se::destroy_signature(o); } Some(g) } else { None } } else { k.sign_pop(&addr, &*DIRECT_HASH_TO_G1).ok() };
        let w = self.book.point(&fone(good, &ska)); cx.check("S06", "wrong-pop", mine.map_or(false, |g| *g.as_ref() == w), || "the proof of possession made for a key is not its signature in the possession domain".into());
        cx.log(|| format!("pop {:?} {}", s.a, v));
    }
    /// Closely related messages signed and verified back to back: every pair of (message, extra
    /// data, domain, mode) must be told apart exactly as the reference hash tells them apart.
    fn twin(&mut self, s: &Step, cx: &mut Cx) {
        let mut r = Rng::new(s.arg(0)); let n = s.arg(1).clamp(2, 12) as usize; let (ct, mode) = ((r.below(2)) as u64, s.arg(2) % 3); let pop = s.arg(3) == 1 && mode == 0;
        let len = *r.pick(&[1u64, 8, 32, 64, 65, 127, 128, 129, 200, 300, 700]) as usize; let xl = *r.pick(&[0u64, 1, 6, 16, 40]) as usize;
        let base = (r.bytes(len), r.bytes(xl)); let mut v = vec![base.clone()];
        while v.len() < n {
            let mut t = if r.chance(2, 3) { base.clone() } else { r.pick(&v).clone() };
            let nm = match r.below(10) {
                0 | 1 if !t.1.is_empty() => { let i = r.below(t.1.len() as u64) as usize; t.1[i] ^= 1 << r.below(8); "extra_byte_changed" }
                2 | 3 => { let i = r.below(t.0.len() as u64) as usize; t.0[i] ^= 1 << r.below(8); "message_byte_changed" }
                4 => { if t.0.len() > 2 { let i = t.0.len() / 2; t.0[i] ^= 0x10; } "message_middle_changed" }
                5 => { if !t.1.is_empty() { let c = t.1.pop().unwrap(); t.0.insert(0, c); } "boundary_moved" }
                6 => { t.0.push(0); "zero_appended" } 7 => { if t.0.len() > 1 { t.0.pop(); } "last_byte_removed" } 8 => { t.0.reverse(); "reversed" } _ => { let k = t.1.len().max(1); t.1 = r.bytes(k); "other_extra" }
            }; cx.fault(nm); v.push(t);
        }
        let sk = if r.chance(1, 5) { Fr::from(1 + r.below(3)) } else { pool().sk[r.below(NK as u64) as usize] }; let pk = PublicKey::from(m2(&g2(), &sk)); let priv_ = PrivateKey::from(sk);
        let mut forms = vec![];
        for (m, e) in &v {
            let dom = if pop { refimpl::POP } else { refimpl::SIG }; let id = match self.book.id(mode, dom, m, if pop { &[] } else { e }) { Some(x) => x.0, None => return }; let f = fone(id, &sk); let w = enc1(&self.book.point(&f));
            let g = if pop { if ct == 1 { let mut o = std::ptr::null_mut(); if sg::sign_pop(&priv_, m.as_ptr(), m.len() as c_int, &mut o) { let g = unsafe { &*o }.clone(); unsafe { se::destroy_signature(o); } Some(ser(&g)) } else { None } } else { priv_.sign_pop(m, &*DIRECT_HASH_TO_G1).ok().map(|x| ser(&x)) } } else { sign(ct, &mut self.book, &sk, mode, m, e) };
            for p in ["S01", "H02", "S06"] { cx.check(p, "wrong-signature", g.as_ref() == Some(&w), || format!("client {} mode {} signs something else than the given message ({} + {} bytes)", ct, mode, m.len(), e.len())); } if cx.stop() { return; }
            forms.push((f, w));
        }
        for _ in 0..n {
            let (i, j) = (r.below(n as u64) as usize, r.below(n as u64) as usize); let want = forms[i].0 == forms[j].0; let s = Signature::deserialize(&forms[i].1[..]).unwrap();
            let (m, e) = &v[j]; let c = r.below(2);
            let g = if pop { if c == 1 { let mut o = 2u8; sg::verify_pop(&pk, m.as_ptr(), m.len() as c_int, &s, &mut o as *mut u8 as *mut bool) && o == 1 } else { pk.verify_pop(m, &s, &*DIRECT_HASH_TO_G1).is_ok() } } else { verify(c, &pk, mode, m, e, &forms[i].1).1 };
            cx.probe(if want { "twin_same" } else { "twin_other" });
            for p in ["S01", "S06"] { if (p == "S06") == pop { cx.check(p, if want { "valid-rejected" } else { "invalid-accepted" }, g == want, || format!("client {} mode {}: verdict {} for a signature on message {} checked against message {}", c, mode, g, i, j)); } }
        }
        cx.ops += 1; cx.log(|| format!("twin {:?}", s.a));
    }
    /// One header and a variation of it through every client and encoding.
    fn header(&mut self, s: &Step, cx: &mut Cx) {
        let mut r = Rng::new(s.arg(0)); let k = s.arg(4).clamp(2, 8) as usize; let mut ks: Vec<usize> = (0..NK).collect(); r.shuffle(&mut ks);
        let b = block(s.arg(0), ks[..k].iter().map(|i| key(*i as u64 | if r.chance(1, 6) { 1 << 8 } else { 0 }).0).collect()); let t = tamper(&b, s.arg(1), s.arg(2)); cx.fault("altered_header");
        let (lb, lt) = (blk_epoch(&b), blk_epoch(&t));
        let all = |x: &EpochBlock| -> Option<Vec<Vec<u8>>> { let (i, e) = x.encode_inner_to_bytes_cip22().ok()?; Some(vec![i, e, x.encode_first_epoch_to_bytes_cip22().ok()?, x.encode_last_epoch_to_bytes_with_aggregated_pk_cip22().ok()?, x.encode_to_bytes().ok()?]) };
        let rf = |x: &Blk| { let (i, e) = refimpl::enc_inner(x); vec![i, e, refimpl::enc_first(x), refimpl::enc_last(x), refimpl::enc_legacy(x)] };
        let names = ["inner", "extra", "first", "last", "legacy"];
        for (l, x) in [(&lb, &b), (&lt, &t)] { let g = all(l); let w = rf(x); cx.check("E01", "encoding-failed", g.is_some(), || "encoding a header failed".into()); if let Some(g) = g { for i in 0..5 { cx.check("E01", &format!("encoding-differs-{}", names[i]), g[i] == w[i], || format!("{} encoding of a header differs from the reference ({} keys, maximum {})", names[i], x.keys.len(), x.maxv)); } } }
        if let (Some(x), Some(y)) = (all(&lb), all(&lt)) { let d = (x[0] == y[0] && x[1] == y[1], rf(&b)[..2] == rf(&t)[..2]); cx.check("E01", "change-not-visible", d.0 == d.1, || format!("changing field {} of a header does not change what is signed", s.arg(1) % 9)); }
        let bits = epoch_snark::epoch_block::hash_first_last_epoch_block(&lb, &lt).ok(); cx.check("E01", "first-last-hash", bits == Some(refimpl::first_last_bits(&b, &t)), || "hash of the first and last epoch differs from the reference".into());
        // hashes: library, C interface, reference
        let (m, e) = refimpl::enc_inner(&b); let w = refimpl::hash(2, refimpl::SIG, &m, &e).map(|x| x.0);
        cx.check("H02", "epoch-hash-differs", lb.hash_to_g1_cip22().ok() == w, || "library hash of an epoch header differs from the reference".into());
        let mode = s.arg(3) % 3; let w = refimpl::hash(mode, refimpl::SIG, &m, &e).map(|x| x.0); cx.check("H02", "hash-differs", lib_hash(mode, SIG_DOMAIN, &m, &e) == w, || format!("library hash in mode {} differs from the reference", mode));
        for ct in 0..2 { let g = encode(ct, 2, &b); cx.check("E01", "client-encoding-differs", g == Some((m.clone(), e.clone())), || format!("client {} encodes a header differently", ct)); let g = encode(ct, 1, &b); cx.check("E01", "client-encoding-differs", g == Some((refimpl::enc_legacy(&b), vec![])), || format!("client {} encodes a legacy header differently", ct)); }
        let sk = pool().sk[0]; let want = self.book.id(2, refimpl::SIG, &m, &e).map(|x| enc1(&self.book.point(&fone(x.0, &sk)))); for ct in 0..2 { let g = sign(ct, &mut self.book, &sk, 2, &m, &e); cx.check("H02", "client-signature-differs", g == want, || format!("client {} signs a different hash", ct)); }
        // headers that differ in one field or one key, hashed one after the other
        let mut u = b.clone(); let i = r.below(u.keys.len() as u64) as usize; u.keys[i] = pool().pk[(ks[0] + 7) % NK]; 
        for x in [&t, &u, &b] { let (m, e) = refimpl::enc_inner(x); let w = refimpl::hash(2, refimpl::SIG, &m, &e).map(|x| x.0); cx.check("H02", "epoch-hash-differs", blk_epoch(x).hash_to_g1_cip22().ok() == w, || "library hash of a header hashed after a similar one differs from the reference".into()); let w = refimpl::hash(1, refimpl::SIG, &m, &e).map(|x| x.0); cx.check("H02", "hash-differs", lib_hash(1, SIG_DOMAIN, &m, &e) == w, || "library hash of a header hashed after a similar one differs from the reference".into()); }
        cx.log(|| format!("header {:?}", s.a)); cx.state(hash(&refimpl::enc_inner(&b).0));
    }
}
