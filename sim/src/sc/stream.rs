//! Keys and signatures through faulty byte streams: short transfers, interrupted calls, errors
//! and end-of-stream at chosen offsets.
use crate::core::*;
use crate::rng::Rng;
use crate::world::*;
use ark_ff::Zero;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bls_crypto::{PrivateKey, PublicKey, Signature};
use std::io;

pub struct Stream;
/// Faults of one stream: transfer sizes from a seed, EINTR rate, hard error / end at an offset.
struct Fio { r: Rng, max: u64, eintr: bool, fail_at: Option<(usize, u64)>, data: Vec<u8>, pos: usize, failed: bool, nint: u64 }
impl Fio {
    fn new(seed: u64, mode: u64, cut: u64, data: Vec<u8>) -> Fio { Fio { r: Rng::new(seed), max: [1, 7, 64, 1000][(mode & 3) as usize], eintr: mode >> 2 & 1 == 1, fail_at: if mode >> 3 & 1 == 1 { Some((cut as usize, mode >> 4 & 3)) } else { None }, data, pos: 0, failed: false, nint: 0 } }
    fn gate(&mut self, want: usize) -> Result<usize, io::Error> {
        if self.eintr && self.r.chance(1, 3) { self.nint += 1; return Err(io::ErrorKind::Interrupted.into()); }
        let mut n = (1 + self.r.below(self.max) as usize).min(want);
        if let Some((at, kind)) = self.fail_at { if self.pos >= at { self.failed = true; return match kind { 0 => Ok(0), 1 => Err(io::ErrorKind::BrokenPipe.into()), 2 => Err(io::Error::from_raw_os_error(28)), _ => Err(io::ErrorKind::WouldBlock.into()) }; } n = n.min(at - self.pos); }
        Ok(n)
    }
}
impl io::Read for Fio { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { if b.is_empty() { return Ok(0); } let n = self.gate(b.len())?.min(self.data.len() - self.pos); b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]); self.pos += n; Ok(n) } }
impl io::Write for Fio { fn write(&mut self, b: &[u8]) -> io::Result<usize> { if b.is_empty() { return Ok(0); } let n = self.gate(b.len())?; self.data.extend(&b[..n]); self.pos += n; Ok(n) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
enum Obj { S(PrivateKey), P(PublicKey), G(Signature) }
impl Obj {
    fn make(kind: u64, spec: u64, r: u64) -> (Obj, Vec<u8>, Vec<u8>, bool) {
        match kind {
            0 => { let s = super::ffi::scalar(spec); (Obj::S(PrivateKey::from(s)), encf(&s), encf(&s), false) }
            1 => { let (k, _) = key(spec & 0xffff); let k2 = rescale(&k, r); (Obj::P(PublicKey::from(k2)), enc2(&k), enc2u(&k), k.is_zero()) }
            _ => { let p = if spec % 7 == 0 { G1::zero() } else { m1(&g1(), &fr(spec)) }; (Obj::G(Signature::from(rescale1(&p, r))), enc1(&p), enc1u(&p), p.is_zero()) }
        }
    }
    fn ser(&self, w: &mut Fio, un: bool) -> bool { match (self, un) { (Obj::S(x), false) => x.serialize(w).is_ok(), (Obj::S(x), true) => x.serialize_uncompressed(w).is_ok(), (Obj::P(x), false) => x.serialize(w).is_ok(), (Obj::P(x), true) => x.serialize_uncompressed(w).is_ok(), (Obj::G(x), false) => x.serialize(w).is_ok(), (Obj::G(x), true) => x.serialize_uncompressed(w).is_ok() } }
    fn size(&self, un: bool) -> usize { match (self, un) { (Obj::S(x), false) => x.serialized_size(), (Obj::S(x), true) => x.uncompressed_size(), (Obj::P(x), false) => x.serialized_size(), (Obj::P(x), true) => x.uncompressed_size(), (Obj::G(x), false) => x.serialized_size(), (Obj::G(x), true) => x.uncompressed_size() } }
    /// None: error. Some(eq).
    fn de_eq(&self, r: &mut Fio, un: bool) -> Option<bool> { match (self, un) { (Obj::S(x), false) => PrivateKey::deserialize(r).ok().map(|y| y.as_ref() == x.as_ref()), (Obj::S(x), true) => PrivateKey::deserialize_uncompressed(r).ok().map(|y| y.as_ref() == x.as_ref()), (Obj::P(x), false) => PublicKey::deserialize(r).ok().map(|y| y == *x), (Obj::P(x), true) => PublicKey::deserialize_uncompressed(r).ok().map(|y| y == *x), (Obj::G(x), false) => Signature::deserialize(r).ok().map(|y| y == *x), (Obj::G(x), true) => Signature::deserialize_uncompressed(r).ok().map(|y| y == *x) } }
}
impl Scenario for Stream {
    fn gen(&self, r: &mut Rng, _p: &str, tier: u32) -> Vec<Step> {
        let mut v = vec![];
        for _ in 0..r.range(3, if tier > 0 { 30 } else { 12 }) {
            let kind = r.below(3);
            let spec = match kind { 1 => r.below(24) | (if r.chance(1, 3) { r.below(5) } else { 0 }) << 8, _ => if r.chance(1, 5) { r.below(3) } else { r.below(60) } };
            let mode = r.below(8) | if r.chance(1, 2) { 8 | r.below(4) << 4 } else { 0 };
            v.push(st(*r.pick(&["write", "read", "pipe"]), &[kind, spec, r.below(3), r.below(2), r.below(1 << 20), mode, if r.chance(1, 4) { *r.pick(&[0, 31, 32, 47, 48, 95, 96, 191, 192]) } else { r.below(200) }, r.below(4)]));
        }
        v
    }
    fn exec(&self, steps: &[Step], cx: &mut Cx) {
        for s in steps {
            if cx.stop() { return; }
            cx.ops += 1; cx.simtime += 1;
            let un = s.arg(3) == 1; let (o, c, u, zero) = Obj::make(s.arg(0) % 3, s.arg(1), s.arg(2)); let want = if un { u } else { c };
            let (seed, mode, cut) = (s.arg(4), s.arg(5), s.arg(6));
            let kind = ["private key", "public key", "signature"][(s.arg(0) % 3) as usize];
            let note = |f: &Fio, cx: &mut Cx| { if f.max < 64 { cx.fault("short_transfer"); } if f.nint > 0 { cx.fault("interrupted_call"); } if f.failed { cx.fault(["end_of_stream", "broken_pipe", "disk_full", "would_block"][f.fail_at.unwrap().1 as usize]); } };
            cx.check("R01", "declared-size", o.size(un) == want.len(), || format!("{} declares {} bytes but its encoding has {} (uncompressed {})", kind, o.size(un), want.len(), un));
            match s.op.as_str() {
                "write" => {
                    let mut w = Fio::new(seed, mode, cut, vec![]); let r = o.ser(&mut w, un); note(&w, cx);
                    let full = w.fail_at.map_or(true, |(at, _)| at >= want.len());
                    cx.check("R01", if full { "write-failed" } else { "write-error-lost" }, r == full, || format!("writing a {} returned {} though the stream {} all {} bytes", kind, r, if full { "took" } else { "did not take" }, want.len()));
                    cx.check("R01", "bytes-differ", if full { w.data == want } else { want.starts_with(&w.data) }, || format!("{} bytes reaching the stream differ from the canonical encoding (uncompressed {})", kind, un));
                    cx.log(|| format!("write {:?} {} {}", s.a, r, w.pos));
                }
                "read" | "pipe" => {
                    let bytes = if s.op == "pipe" { let mut w = Fio::new(seed, 3, 0, vec![]); let _ = o.ser(&mut w, un); w.data } else { want.clone() };
                    let tail = s.arg(7); let mut d = bytes.clone(); d.extend(Rng::new(seed).bytes(tail as usize * 3));
                    let mut rd = Fio::new(seed ^ 9, mode, cut, d); let r = o.de_eq(&mut rd, un); note(&rd, cx);
                    let full = rd.fail_at.map_or(true, |(at, _)| at >= bytes.len());
                    if zero && un { if !full { cx.check("R01", "read-error-lost", r.is_none(), || format!("a {} was produced from a truncated stream", kind)); } }
                    else { cx.check("R01", if full { "round-trip" } else { "read-error-lost" }, r == if full { Some(true) } else { None }, || format!("reading a {} back gave {:?} (complete stream: {}, uncompressed {})", kind, r, full, un)); }
                    if r.is_some() { cx.check("R01", "over-read", rd.pos == bytes.len(), || format!("reading a {} consumed {} bytes of a stream whose record has {}", kind, rd.pos, bytes.len())); }
                    cx.log(|| format!("{} {:?} {:?} {}", s.op, s.a, r, rd.pos));
                }
                _ => {}
            }
            cx.state(hash(&[s.arg(0) as u8, un as u8, mode as u8, zero as u8]));
        }
    }
}
