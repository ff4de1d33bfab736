//! Independent executable reference: BLAKE2Xs, both hash-to-curve protocols and the epoch
//! encodings, written from the protocol documents rather than from the code under test.
//! (The group arithmetic and the Bowe-Hopwood sum come from the stand-in library crates.)
use crate::world::*;
use ark_crypto_primitives::crh::{bowe_hopwood, pedersen, FixedLengthCRH};
use ark_ec::{ProjectiveCurve, AffineCurve};
use ark_ed_on_bw6_761::EdwardsParameters;
use ark_ff::{BigInteger, One, PrimeField, SquareRootField, ToBytes, Zero};
use std::sync::OnceLock;

const IV: [u32; 8] = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19];
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4], [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13], [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11], [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5], [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0]];
#[derive(Clone)]
pub struct B2p { pub out: u8, pub fanout: u8, pub depth: u8, pub leaf: u32, pub offset: u64, pub inner: u8, pub personal: [u8; 8] }
pub fn blake2s(p: &B2p, data: &[u8]) -> Vec<u8> {
    let mut pb = [0u8; 32];
    pb[0] = p.out; pb[2] = p.fanout; pb[3] = p.depth; pb[4..8].copy_from_slice(&p.leaf.to_le_bytes()); pb[8..14].copy_from_slice(&p.offset.to_le_bytes()[..6]); pb[15] = p.inner; pb[24..32].copy_from_slice(&p.personal);
    let mut h = IV;
    for i in 0..8 { h[i] ^= u32::from_le_bytes([pb[4 * i], pb[4 * i + 1], pb[4 * i + 2], pb[4 * i + 3]]); }
    let n = data.len().div_ceil(64).max(1);
    let mut t = 0u64;
    for b in 0..n {
        let c = &data[b * 64..data.len().min((b + 1) * 64)];
        t += c.len() as u64;
        let mut blk = [0u8; 64]; blk[..c.len()].copy_from_slice(c);
        let m: Vec<u32> = blk.chunks(4).map(|w| u32::from_le_bytes([w[0], w[1], w[2], w[3]])).collect();
        let mut v = [0u32; 16]; v[..8].copy_from_slice(&h); v[8..].copy_from_slice(&IV);
        v[12] ^= t as u32; v[13] ^= (t >> 32) as u32; if b == n - 1 { v[14] = !v[14]; }
        for s in &SIGMA {
            let mut g = |a: usize, b: usize, c: usize, d: usize, x: u32, y: u32| {
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(x); v[d] = (v[d] ^ v[a]).rotate_right(16); v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(12);
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(y); v[d] = (v[d] ^ v[a]).rotate_right(8); v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(7);
            };
            g(0, 4, 8, 12, m[s[0]], m[s[1]]); g(1, 5, 9, 13, m[s[2]], m[s[3]]); g(2, 6, 10, 14, m[s[4]], m[s[5]]); g(3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(0, 5, 10, 15, m[s[8]], m[s[9]]); g(1, 6, 11, 12, m[s[10]], m[s[11]]); g(2, 7, 8, 13, m[s[12]], m[s[13]]); g(3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for i in 0..8 { h[i] ^= v[i] ^ v[i + 8]; }
    }
    h.iter().flat_map(|w| w.to_le_bytes()).take(p.out as usize).collect()
}
fn pers(d: &[u8]) -> [u8; 8] { let mut p = [0; 8]; p[..d.len()].copy_from_slice(d); p }
pub fn direct_crh(domain: &[u8], m: &[u8], xof: usize) -> Vec<u8> { blake2s(&B2p { out: 32, fanout: 1, depth: 1, leaf: 0, offset: (xof as u64 & 0xffff) << 32, inner: 0, personal: pers(domain) }, m) }
pub fn xof(domain: &[u8], hm: &[u8], n: usize) -> Vec<u8> {
    let mut o = vec![]; let mut i = 0u64;
    while o.len() < n { let k = (n - o.len()).min(32); o.extend(blake2s(&B2p { out: k as u8, fanout: 0, depth: 0, leaf: 32, offset: i | (n as u64 & 0xffff) << 32, inner: 32, personal: pers(domain) }, hm)); i += 1; }
    o
}
#[derive(Clone)] pub struct W;
impl pedersen::Window for W { const WINDOW_SIZE: usize = 93; const NUM_WINDOWS: usize = 560; }
type Crh = bowe_hopwood::CRH<EdwardsParameters, W>;
static PARAMS: OnceLock<bowe_hopwood::Parameters<EdwardsParameters>> = OnceLock::new();
pub const CRH_MAX: usize = 93 * 560 * 3 / 8;
pub fn crh_params() -> &'static bowe_hopwood::Parameters<EdwardsParameters> {
    PARAMS.get_or_init(|| {
        use rand::SeedableRng;
        let s = blake2s(&B2p { out: 32, fanout: 1, depth: 1, leaf: 0, offset: 0, inner: 0, personal: *b"UL_prngs" }, b"ULTRALIGHT PRNG SEED");
        let mut seed = [0u8; 32]; seed.copy_from_slice(&s);
        Crh::setup(&mut rand_chacha::ChaChaRng::from_seed(seed)).unwrap()
    })
}
pub fn composite_crh(m: &[u8]) -> Option<Vec<u8>> {
    if m.len() > CRH_MAX { return None; }
    let p = Crh::evaluate(crh_params(), m).unwrap().into_affine();
    let mut v = vec![]; p.x.write(&mut v).unwrap(); v.truncate(48); Some(v)
}
/// Candidate bytes (at least 48) to a curve point before cofactor clearing, deployed bit layout.
pub fn candidate(h: &[u8]) -> Option<Option<G1>> {
    let mut b = h[..48].to_vec();
    let positive = b[47] & 2 != 0;
    let inf = b[47] & 0x40 != 0;
    b[47] &= 1; // 377-bit coordinate
    let mut limbs = [0u64; 6]; for i in 0..48 { limbs[i / 8] |= (b[i] as u64) << (8 * (i % 8)); }
    let x = ark_bls12_377::Fq::from_repr(ark_ff::BigInteger384::new(limbs))?;
    if x.is_zero() && inf { return Some(None); }
    let y2 = x * x * x + ark_bls12_377::Fq::one();
    let y = y2.sqrt()?;
    let ny = -y;
    let (lo, hi) = if y.into_repr() < ny.into_repr() { (y, ny) } else { (ny, y) };
    Some(Some(ark_bls12_377::G1Affine::new(x, if positive { hi } else { lo }, false).into_projective()))
}
/// Cofactor of G1: (x-1)^2/3.
pub fn clear(p: &G1) -> G1 { p.mul([0u64, 0x170b5d4430000000]) }
/// Try-and-increment over a scripted candidate source.
pub fn tai<E>(mut f: impl FnMut(u8) -> Result<Vec<u8>, E>) -> Result<Option<(G1, usize)>, E> {
    for c in 0..255u8 {
        let h = f(c)?;
        if let Some(Some(p)) = candidate(&h) { let q = clear(&p); if !q.is_zero() { return Ok(Some((q, c as usize))); } }
    }
    Ok(None)
}
pub const DIRECT: u64 = 0; pub const COMPOSITE: u64 = 1; pub const CIP22: u64 = 2;
pub const SIG: &[u8] = b"ULforxof"; pub const POP: &[u8] = b"ULforpop"; pub const OUTD: &[u8] = b"ULforout";
pub fn hash(mode: u64, domain: &[u8], msg: &[u8], extra: &[u8]) -> Option<(G1, usize)> {
    let inner = if mode == CIP22 { composite_crh(msg)? } else { vec![] };
    tai(|c| -> Result<Vec<u8>, ()> {
        Ok(match mode {
            DIRECT => { let m = [&[c][..], extra, msg].concat(); xof(domain, &direct_crh(domain, &m, 64), 64) }
            COMPOSITE => { let m = [&[c][..], extra, msg].concat(); xof(domain, &composite_crh(&m).ok_or(())?, 64) }
            _ => xof(domain, &[&[c][..], extra, &inner].concat(), 64),
        })
    }).ok().flatten()
}
// ---- epoch encodings ----
fn le_bits(v: u64, n: usize) -> Vec<bool> { (0..n).map(|i| v >> i & 1 == 1).collect() }
fn fq_be(f: &ark_bls12_377::Fq) -> Vec<bool> { let r = f.into_repr(); (0..377).rev().map(|i| r.get_bit(i)).collect() }
pub fn key_bits(k: &G2) -> Vec<bool> {
    let a = k.into_affine();
    let mut v = fq_be(&a.x.c0); v.extend(fq_be(&a.x.c1));
    let n = -a.y;
    let big = |y: &ark_bls12_377::Fq2| (y.c1.into_repr(), y.c0.into_repr());
    v.push(big(&a.y) > big(&n));
    v
}
/// Packs a bit string, read as a big-endian number, into little-endian bytes.
pub fn pack(bits: &[bool]) -> Vec<u8> { let n = bits.len(); let mut o = vec![0u8; n.div_ceil(8)]; for (i, b) in bits.iter().rev().enumerate() { if *b { o[i / 8] |= 1 << (i % 8); } } o }
#[derive(Clone, Debug, PartialEq)]
pub struct Blk { pub index: u16, pub round: u8, pub epoch: Option<Vec<u8>>, pub parent: Option<Vec<u8>>, pub mns: u32, pub maxv: usize, pub keys: Vec<G2> }
fn ent(e: &Option<Vec<u8>>) -> Vec<bool> { match e { None => vec![false; 128], Some(e) => (0..128).map(|i| e[i / 8] >> (i % 8) & 1 == 1).collect() } }
fn gen2() -> G2 { G2::prime_subgroup_generator() }
fn keys_padded(b: &Blk) -> Vec<bool> { let mut v: Vec<bool> = b.keys.iter().flat_map(key_bits).collect(); for _ in b.keys.len()..b.maxv { v.extend(key_bits(&gen2())); } v }
pub fn enc_legacy(b: &Blk) -> Vec<u8> { let mut v = le_bits(b.index as u64, 16); v.extend(le_bits(b.mns as u64, 32)); for k in &b.keys { v.extend(key_bits(k)); } pack(&v) }
pub fn enc_inner(b: &Blk) -> (Vec<u8>, Vec<u8>) {
    let mut v = ent(&b.epoch); v.extend(ent(&b.parent)); v.extend(keys_padded(b));
    let mut x = le_bits(b.index as u64, 16); x.extend(le_bits(b.round as u64, 8)); x.extend(le_bits(b.mns as u64, 32));
    (pack(&v), pack(&x))
}
pub fn enc_first(b: &Blk) -> Vec<u8> { let mut v = le_bits(b.index as u64, 16); v.extend(ent(&b.parent)); v.extend(le_bits(b.mns as u64, 32)); v.extend(keys_padded(b)); pack(&v) }
pub fn enc_last(b: &Blk) -> Vec<u8> { let mut v = le_bits(b.index as u64, 16); v.extend(ent(&b.epoch)); v.extend(le_bits(b.mns as u64, 32)); v.extend(keys_padded(b)); let s: G2 = b.keys.iter().fold(G2::zero(), |a, k| a + *k); v.extend(key_bits(&s)); pack(&v) }
pub fn first_last_bits(f: &Blk, l: &Blk) -> Vec<bool> {
    let h = |d: &[u8]| blake2s(&B2p { out: 32, fanout: 1, depth: 1, leaf: 0, offset: 0, inner: 0, personal: *b"ULforout" }, d);
    [h(&enc_first(f)), h(&enc_last(l))].concat().iter().flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).collect()
}
