//! Public-key cache driven by long histories of validator-set changes, decodes, failed decodes
//! and clears, against a set/sum model and a 512-entry recency list.
use crate::alloc;
use crate::core::*;
use crate::rng::Rng;
use crate::world::*;
use ark_serialize::CanonicalDeserialize;
use bls_crypto::{PublicKey, PublicKeyCache};
use ark_ff::Zero;

/// Byte strings of known validity. Returns (bytes, Some(point) if definitely valid, definite?).
pub fn encoding(spec: u64, kind: u64, x: u64) -> (Vec<u8>, Option<G2>, bool) {
    let (k, _) = key(spec & 0xffff);
    let mut v = enc2(&k); let mut r = Rng::new(x);
    match kind {
        1 => { let n = 1 + r.below(9) as usize; v.extend(r.bytes(n)); (v, Some(k), false) }
        2 => { let n = r.below(96) as usize; v.truncate(n); (v, None, true) }
        3 => { v[95] |= 0xc0; (v, None, true) }
        4 => { for b in v[0..48].iter_mut() { *b = 0xff; } v[47] = 0x01; (v, None, true) } // c0 >= q
        5 => { v[47] |= 1 << (1 + r.below(7)); (v, None, true) } // c0 above 377 bits
        6 => (pick(&bad().0, x), None, true), // no such point
        7 => (pick(&bad().1, x), None, true), // on the curve, wrong subgroup
        8 => { let i = r.below(96) as usize; v[i] ^= 1 << r.below(8); (v, None, false) }
        9 => { v[95] ^= 0x80; (v, Some(-k), !k.is_zero()) }
        10 => (r.bytes(96), None, false),
        11 => (vec![], None, true),
        _ => (v, Some(k), true),
    }
}
fn pick(v: &[Vec<u8>], x: u64) -> Vec<u8> { v[(x % v.len() as u64) as usize].clone() }
pub fn bad() -> &'static (Vec<Vec<u8>>, Vec<Vec<u8>>) {
    use ark_ec::SWModelParameters; use ark_ff::{Field, SquareRootField, UniformRand};
    static B: std::sync::OnceLock<(Vec<Vec<u8>>, Vec<Vec<u8>>)> = std::sync::OnceLock::new();
    B.get_or_init(|| {
        let mut r = Rng::new(99); let (mut a, mut b) = (vec![], vec![]);
        while a.len() < 6 || b.len() < 6 {
            let x = Fq2::rand(&mut r);
            let y2 = x.square() * x + ark_bls12_377::g2::Parameters::coeff_b();
            match y2.sqrt() {
                None => { let mut v = vec![]; use ark_serialize::CanonicalSerialize; x.serialize(&mut v).unwrap(); a.push(v); }
                Some(y) => b.push(enc2(&{ use ark_ec::AffineCurve; ark_bls12_377::G2Affine::new(x, y, false).into_projective() })),
            }
        }
        (a, b)
    })
}
pub struct Cache;
fn gen_set(r: &mut Rng, prev: &[u64], base: u64) -> Vec<u64> {
    let mut s: Vec<u64> = prev.to_vec();
    match r.weighted(&[6, 3, 2, 1, 2, 1, 1]) {
        0 => { for _ in 0..r.range(1, 3) { if !s.is_empty() && r.chance(1, 2) { let i = r.below(s.len() as u64) as usize; s.remove(i); } else { s.push(newkey(r, base)); } } }
        1 => { r.shuffle(&mut s); }
        2 => { s = (0..r.below(12)).map(|_| newkey(r, base)).collect(); }
        3 => { s.clear(); }
        4 => { for k in s.iter_mut() { if r.chance(1, 3) { *k = (*k & 0xffff) | r.below(3) << 16; } } }
        5 => { if !s.is_empty() { let i = r.below(s.len() as u64) as usize; let k = s[i]; for _ in 0..r.range(1, 3) { let j = r.below(s.len() as u64 + 1) as usize; s.insert(j, k); } } }
        _ => { if !s.is_empty() { let i = r.below(s.len() as u64) as usize; s[i] = (s[i] & 0xff) | r.below(5) << 8; } }
    }
    // one representation per key within a list
    for i in 0..s.len() { for j in 0..i { if s[i] & 0xffff == s[j] & 0xffff { s[i] = s[j]; } } }
    s.truncate(20); s
}
fn newkey(r: &mut Rng, base: u64) -> u64 { r.below(base) | (if r.chance(1, 4) { r.below(5) } else { 0 }) << 8 | (if r.chance(1, 5) { r.below(3) } else { 0 }) << 16 }
impl Scenario for Cache {
    fn gen(&self, r: &mut Rng, prop: &str, tier: u32) -> Vec<Step> {
        let n = r.range(4, if tier > 0 { 60 } else { 30 }); let base = r.range(2, NK as u64);
        let mut v = vec![]; let mut cur: Vec<u64> = vec![]; let mut hist: Vec<Step> = vec![];
        let w = if prop == "C01" { [8, 2, 1] } else { [2, 8, 1] };
        for _ in 0..n {
            match r.weighted(&w) {
                0 => { cur = gen_set(r, &cur, base); v.push(st("agg", &cur)); }
                1 => { let s = if !hist.is_empty() && r.chance(1, 2) { r.pick(&hist).clone() } else { let kind = if r.chance(1, 2) { 0 } else { r.below(12) }; st("de", &[r.below(base) | (if r.chance(1, 4) { r.below(5) } else { 0 }) << 8, kind, r.below(1 << 20)]) }; hist.push(s.clone()); v.push(s); }
                _ => v.push(st("clear", &[])),
            }
        }
        v
    }
    fn exec(&self, steps: &[Step], cx: &mut Cx) {
        let mut c = PublicKeyCache::new();
        let mut prev: Vec<u64> = vec![]; let mut seen: std::collections::BTreeSet<Vec<u8>> = Default::default();
        for s in steps {
            if cx.stop() { return; }
            cx.ops += 1; cx.simtime += 1;
            match s.op.as_str() {
                "agg" => {
                    let mut specs = s.a.clone(); for i in 0..specs.len() { for j in 0..i { if specs[i] & 0xffff == specs[j] & 0xffff { specs[i] = specs[j]; } } }
                    let keys: Vec<PublicKey> = specs.iter().map(|k| PublicKey::from(key(*k).0)).collect();
                    let mut want = G2::zero(); let mut d: Vec<u64> = vec![];
                    for k in &specs { if !d.contains(k) { d.push(*k); want += key(*k).0; } }
                    if d.len() < specs.len() { cx.fault("duplicate_key_in_list"); }
                    if d.iter().any(|k| k >> 16 != 0) { cx.fault("unnormalised_key"); }
                    if prev.iter().any(|k| !d.contains(k)) { cx.fault("validator_departure"); }
                    if d.is_empty() { cx.fault("empty_set"); }
                    let got = c.aggregate(keys);
                    let ok = *got.as_ref() == want;
                    cx.check("C01", "aggregate-differs", ok, || format!("aggregate of {:?} after {:?} is not the sum of the distinct keys passed", specs, prev));
                    let mut o = d.clone(); o.sort(); cx.state(hash(&o.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()));
                    cx.log(|| format!("agg {:?} {}", specs, ok));
                    prev = d;
                }
                "de" => {
                    let (b, truth, definite) = encoding(s.arg(0), s.arg(1), s.arg(2));
                    if s.arg(1) != 0 { cx.fault(["", "trailing_bytes", "truncated", "both_flags", "coordinate_overflow", "high_bits", "no_such_point", "wrong_subgroup", "bit_flip", "sign_flip", "random_bytes", "empty"][s.arg(1).min(11) as usize]); }
                    if !seen.insert(b.clone()) { cx.probe("repeated_decode"); }
                    let plain = PublicKey::deserialize(&mut &b[..]);
                    let got = c.deserialize(b.clone());
                    let same = match (&plain, &got) { (Ok(p), Ok(q)) => p == q, (Err(_), Err(_)) => true, _ => false };
                    cx.check("C02", "cached-decode-differs", same, || format!("cached decode of {:?} kind {} gives {:?}, plain decode {:?}", s.arg(0), s.arg(1), got.is_ok(), plain.is_ok()));
                    if definite { let ok = match (&truth, &got) { (Some(t), Ok(q)) => *q.as_ref() == *t, (None, Err(_)) => true, _ => false };
                        cx.check("C02", "cached-decode-wrong", ok, || format!("cached decode of {:?} kind {} is not the encoded key", s.arg(0), s.arg(1))); }
                    cx.log(|| format!("de {} {} {}", s.arg(0), s.arg(1), got.is_ok()));
                }
                "clear" => { c.clear_cache(); prev.clear(); cx.fault("cache_cleared"); cx.log(|| "clear".into()); }
                _ => {}
            }
        }
    }
}
static WORK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn count_work(site: u32) { if site == simhook::S_DESER { WORK.fetch_add(1, std::sync::atomic::Ordering::Relaxed); } }
/// Decodes through the cache; returns the key and how many point decodings that took.
fn decode(c: &mut PublicKeyCache, b: Vec<u8>) -> (Option<G2>, u64) {
    use std::sync::atomic::Ordering::Relaxed;
    WORK.store(0, Relaxed); let g = alloc::lib(|| { let b = b.to_vec(); c.deserialize(b) }); let w = WORK.load(Relaxed);
    (g.ok().map(|g| *g.as_ref()), w)
}
/// Capacity and recency of the decode cache.
pub struct Lru;
impl Scenario for Lru {
    fn gen(&self, r: &mut Rng, _prop: &str, _tier: u32) -> Vec<Step> {
        // phases: fill, touch, overflow, probe, failed decodes, clear
        let mut v = vec![]; let start = r.below(200);
        let fill = r.range(505, 513); v.push(st("fill", &[start, fill]));
        for _ in 0..r.range(2, 8) {
            match r.weighted(&[4, 3, 2, 1, 1, 3, 3]) {
                5 => v.push(st("oldest", &[r.below(3), r.range(1, 9)])),
                6 => v.push(st("evicted", &[0, r.range(1, 4)])),
                0 => v.push(st("touch", &[start + r.below(fill), r.range(1, 20)])),
                1 => v.push(st("fill", &[start + fill + r.below(4) * 9, r.range(1, 24)])),
                2 => v.push(st("bad", &[r.range(2, 8), r.below(1 << 20), if r.chance(1, 4) { r.range(100, 600) } else { 1 }])),
                3 => v.push(st("agg", &[r.below(24), r.range(1, 6)])),
                _ => if r.chance(1, 2) { v.push(st("clear", &[])); if r.chance(2, 3) { let s2 = r.below(200); v.push(st("fill", &[s2, r.range(513, 540)])); v.push(st("evicted", &[0, r.range(1, 9)])); } } else { v.push(st("touch", &[start, 1])) },
            }
        }
        v
    }
    fn exec(&self, steps: &[Step], cx: &mut Cx) {
        let mut c = PublicKeyCache::new(); let p = pool();
        let mut model: Vec<usize> = vec![]; // most recent last
        let mut gone: Vec<usize> = vec![]; let mut full: Option<usize> = None;
        simhook::install(count_work); alloc::TRACK.store(true, std::sync::atomic::Ordering::SeqCst);
        for s in steps {
            if cx.stop() { return; }
            match s.op.as_str() {
                "fill" | "touch" | "oldest" | "evicted" => for k in 0..s.arg(1) {
                    let i = match s.op.as_str() {
                        "oldest" => match model.get((s.arg(0) % 3) as usize) { Some(i) => *i, None => break },
                        "evicted" => match gone.pop() { Some(i) => i, None => break },
                        _ => ((s.arg(0) + k) % p.many.len() as u64) as usize,
                    };
                    cx.ops += 1; cx.simtime += 1;
                    let bytes = p.many_enc[i].clone(); let (got, work) = decode(&mut c, bytes);
                    let known = model.iter().position(|m| *m == i);
                    if let Some(x) = known { model.remove(x); cx.probe("hit"); } else { cx.probe("miss"); }
                    gone.retain(|g| *g != i);
                    model.push(i); if model.len() > 512 { gone.push(model.remove(0)); cx.fault("eviction"); }
                    cx.check("C02", "decode-wrong-key", got.as_ref().map_or(false, |g| *g == p.many[i]), || format!("cached decode of key {} returned another key or failed", i));
                    cx.check("C03", "decode-wrong-key", got.as_ref().map_or(false, |g| *g == p.many[i]), || format!("cached decode of key {} returned another key or failed", i));
                    if known.is_some() { cx.check("C03", "recent-key-decoded-again", work == 0, || format!("key {}, among the 512 most recently used, was decoded again", i)); }
                    else { cx.check("C03", "old-key-retained", work > 0, || format!("key {} was served without decoding although 512 others were used more recently (or the cache was cleared)", i)); }
                    if cx.stop() { return; }
                },
                "bad" => {
                    let before = alloc::live_bytes(); let n = s.arg(2).clamp(1, 600);
                    for j in 0..n {
                        let (b, _, _) = encoding((s.arg(1) + j) % 24, s.arg(0), s.arg(1) + j);
                        let mut b = b; if n > 20 { b = (s.arg(1) + j).to_le_bytes().to_vec(); b.resize(95, 7); }
                        let (e, _) = decode(&mut c, b); cx.fault("failed_decode"); cx.check("C03", "bad-accepted", e.is_none(), || "malformed key accepted".into());
                        if cx.stop() { return; }
                    }
                    let after = alloc::live_bytes();
                    cx.check("C03", "failed-decodes-retained", after <= before + 4096, || format!("{} failed decodes left {} more bytes in use", n, after - before));
                }
                "agg" => { let ks: Vec<PublicKey> = (0..s.arg(1)).map(|k| PublicKey::from(key((s.arg(0) + k) % 24).0)).collect(); c.aggregate(ks); }
                "clear" => { c.clear_cache(); full = None; gone.extend(model.drain(..)); cx.fault("cache_cleared"); }
                _ => {}
            }
            let live = alloc::live_bytes();
            if model.len() == 512 && full.is_none() { full = Some(live); }
            if let Some(f) = full { cx.check("C03", "unbounded-memory", live <= f + 16384, || format!("{} bytes in use, {} when 512 keys had been decoded", live, f)); }
            cx.state(hash(&model.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()));
            cx.log(|| format!("{} {:?} {}", s.op, s.a, model.len()));
        }
    }
}
