BUGS = []
C, S, E = "bls-crypto/src/", "bls-snark-sys/src/", "epoch-snark/src/"
def bug(id, property, edits, needs, breaks, demo, **k): BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

bug("C01-shrink", "C01", [(C+"bls/cache.rs", "        let mut combined = self.combined.0;\n", "        // the set is unchanged when every key is already part of it\n        if !self.keys.is_empty() && keys.is_subset(&self.keys) {\n            return self.combined.clone();\n        }\n\n        let mut combined = self.combined.0;\n")],
 "a validator set that is a strict subset of the previous one", "the aggregate of the previous, larger set is returned",
 '''fn main() { let mut c = PublicKeyCache::new(); let k: Vec<PublicKey> = (0..5).map(pk).collect();
 need(c.aggregate(k.clone()) == sum2(&k), "first"); need(c.aggregate(k[1..].to_vec()) == sum2(&k[1..]), "after a departure"); need(c.aggregate(k.clone()) == sum2(&k), "back"); }''')
bug("C01-clear", "C01", [(C+"bls/cache.rs", "        self.keys = HashSet::new();\n        self.combined = PublicKey(G2Projective::zero());\n        self.de.clear();", "        self.combined = PublicKey(G2Projective::zero());\n        self.de.clear();")],
 "clearing the cache between two aggregations with common keys", "keys counted before the clear are missing from the sum",
 '''fn main() { let mut c = PublicKeyCache::new(); let k: Vec<PublicKey> = (0..4).map(pk).collect(); c.aggregate(k.clone()); c.clear_cache(); need(c.aggregate(k.clone()) == sum2(&k), "after clear"); }''')
bug("C01-eq", "C01", [(C+"bls/cache.rs", "        a.x == b.x && a.y == b.y && a.z == b.z", "        // a key is determined by `y`, which is also what is hashed\n        a.y == b.y && a.z == b.z")],
 "two different keys sharing their y coordinate", "one of them is dropped from the sum",
 '''fn main() { let a = pk(3).as_ref().into_affine();
 let mut w = Fq::one(); let mut t = 2u64; while w.is_one() { let mut m: num::B = num::modulus_minus_one(); m.div3(); w = Fq::from(t).pow(m.0); t += 1; }
 let mut x = a.x; x.c0 *= w; x.c1 *= w; let b = PublicKey::from(ark_bls12_377::G2Affine::new(x, a.y, false).into_projective());
 let v = vec![pk(3), b]; let mut c = PublicKeyCache::new(); need(c.aggregate(v.clone()) == sum2(&v), "keys with the same y"); }
mod num { use ark_ff::{FpParameters, PrimeField}; pub struct B(pub Vec<u64>); pub fn modulus_minus_one() -> B { let mut m = <super::Fq as PrimeField>::Params::MODULUS.as_ref().to_vec(); m[0] -= 1; B(m) }
 impl B { pub fn div3(&mut self) { let mut r = 0u128; for i in (0..self.0.len()).rev() { let c = r << 64 | self.0[i] as u128; self.0[i] = (c / 3) as u64; r = c % 3; } } } }''')
bug("C02-sign", "C02", [(C+"bls/cache.rs", "        let cached_result = self.de.get(&data);", "        // the flag bits are no part of the key's identity\n        let mut id = data.clone();\n        if let Some(last) = id.last_mut() {\n            *last &= 0x7f;\n        }\n        let cached_result = self.de.get(&id);"), (C+"bls/cache.rs", "self.de.put(data, generated_result.clone());", "self.de.put(id, generated_result.clone());")],
 "decoding a key and later its opposite, which differ in one flag bit", "the second decode returns the first key",
 '''fn main() { let mut c = PublicKeyCache::new(); let a = ser(&pk(1)); let mut b = a.clone(); b[95] ^= 0x80; let p = PublicKey::deserialize(&mut &b[..]).unwrap(); c.deserialize(a.clone()).unwrap(); need(c.deserialize(b).ok() == Some(p), "opposite key"); need(c.deserialize(a).ok() == Some(pk(1)), "key"); }''')
bug("C02-prefix", "C02", [(C+"bls/cache.rs", "        let cached_result = self.de.get(&data);", "        // half of the x coordinate identifies a key\n        let id = [&data[..data.len() / 2], &data[data.len().saturating_sub(1)..]].concat();\n        let cached_result = self.de.get(&id);"), (C+"bls/cache.rs", "self.de.put(data, generated_result.clone());", "self.de.put(id, generated_result.clone());")],
 "decoding a valid key and then corrupted bytes that share its first half", "the corrupted bytes are accepted as the earlier key",
 '''fn main() { let mut c = PublicKeyCache::new(); let a = ser(&pk(1)); c.deserialize(a.clone()).unwrap(); for i in 48..90 { let mut b = a.clone(); b[i] ^= 4; let p = PublicKey::deserialize(&mut &b[..]).ok(); need(c.deserialize(b).ok() == p, "corrupted bytes"); } }''')
bug("C03-fifo", "C03", [(C+"bls/cache.rs", "self.de.get(&data);", "self.de.peek(&data);")],
 "more than 512 distinct keys with an old key used again before the cache overflows", "a recently used key is evicted first",
 '''static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0); fn hook(s: u32) { if s == simhook::S_DESER { N.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } }
fn main() { let mut c = PublicKeyCache::new(); let g = G2::prime_subgroup_generator(); let mut p = g; let mut v = vec![]; for _ in 0..520 { v.push(ser(&PublicKey::from(p))); p += g; }
 for b in &v[..512] { c.deserialize(b.clone()).unwrap(); } c.deserialize(v[0].clone()).unwrap(); for b in &v[512..] { c.deserialize(b.clone()).unwrap(); }
 simhook::install(hook); c.deserialize(v[0].clone()).unwrap(); simhook::uninstall(); need(N.load(std::sync::atomic::Ordering::SeqCst) == 0, "recently used key was decoded again"); }''')
bug("C03-unbounded", "C03", [(C+"bls/cache.rs", "        self.de.clear();", "        self.de = LruCache::unbounded();")],
 "clearing the cache and then decoding more than 512 keys", "the cache grows without limit after a clear",
 '''static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0); fn hook(s: u32) { if s == simhook::S_DESER { N.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } }
fn main() { let mut c = PublicKeyCache::new(); c.clear_cache(); let g = G2::prime_subgroup_generator(); let mut p = g; let mut v = vec![]; for _ in 0..600 { v.push(ser(&PublicKey::from(p))); p += g; }
 for b in &v { c.deserialize(b.clone()).unwrap(); } simhook::install(hook); c.deserialize(v[0].clone()).unwrap(); simhook::uninstall(); need(N.load(std::sync::atomic::Ordering::SeqCst) > 0, "600 keys are retained"); }''')
RACE = '''fn main() { let k: Vec<PublicKey> = (0..24).map(pk).collect(); let all = sum2(&k); bls_snark_sys::init();
 let (ka, kb) = (k[..12].to_vec(), k[12..].to_vec()); let (wa, wb) = (PublicKey::from(*all.as_ref() - *sum2(&ka).as_ref()), PublicKey::from(*all.as_ref() - *sum2(&kb).as_ref()));
 let stop = std::sync::atomic::AtomicBool::new(false); let bad = std::sync::atomic::AtomicBool::new(false); let t = std::time::Instant::now(); use std::sync::atomic::Ordering::SeqCst;
 std::thread::scope(|s| { for i in 0..6 { let (ks, w, all, stop, bad) = if i % 2 == 0 { (&ka, &wa, &all, &stop, &bad) } else { (&kb, &wb, &all, &stop, &bad) };
  s.spawn(move || while !stop.load(SeqCst) { if csub(all, ks) != *w { bad.store(true, SeqCst); stop.store(true, SeqCst); } }); }
  while !stop.load(SeqCst) && t.elapsed().as_secs() < 30 { std::thread::sleep(std::time::Duration::from_millis(20)); } stop.store(true, SeqCst); });
 need(!bad.load(SeqCst), "a concurrent caller's keys were subtracted"); }'''
bug("C04-relock", "C04", [(S+"signatures.rs", "        let mut cache = PUBLIC_KEY_CACHE.lock().expect(\"mutex poisoned\");\n        let aggregated_public_key_to_subtract = cache.aggregate(public_keys);", "        PUBLIC_KEY_CACHE\n            .lock()\n            .expect(\"mutex poisoned\")\n            .aggregate(public_keys);\n        let aggregated_public_key_to_subtract = PUBLIC_KEY_CACHE\n            .lock()\n            .expect(\"mutex poisoned\")\n            .combined\n            .clone();")],
 "another thread aggregating between the release and the second acquisition of the lock", "another caller's aggregate is subtracted", RACE)
bug("C04-trylock", "C04", [(S+"signatures.rs", "        let mut cache = PUBLIC_KEY_CACHE.lock().expect(\"mutex poisoned\");\n        let aggregated_public_key = cache.aggregate(public_keys);", "        // sum the keys directly instead of waiting for another caller\n        let aggregated_public_key = match PUBLIC_KEY_CACHE.try_lock() {\n            Ok(mut cache) => cache.aggregate(public_keys),\n            Err(_) => PublicKey::aggregate(&public_keys),\n        };")],
 "aggregating a list that repeats a key while another thread holds the cache lock", "the repeated key is counted twice, but only under contention",
 '''fn main() { use std::sync::atomic::{AtomicBool, Ordering::SeqCst}; let k: Vec<PublicKey> = (0..24).map(pk).collect(); let mut d = k[..3].to_vec(); d.push(k[0].clone()); let w = sum2(&k[..3]); need(cagg(&d) == w, "a repeated key");
 let stop = AtomicBool::new(false); let hit = AtomicBool::new(false); let t = std::time::Instant::now();
 std::thread::scope(|s| { for i in 0..4usize { let (k, stop) = (&k, &stop); s.spawn(move || { let mut j = i; while !stop.load(SeqCst) { cagg(&k[j % 12..j % 12 + 12]); j += 5; } }); }
  for _ in 0..2 { let (stop, hit, d, w) = (&stop, &hit, &d, &w); s.spawn(move || while !stop.load(SeqCst) { if cagg(d) != *w { hit.store(true, SeqCst); stop.store(true, SeqCst); } }); }
  while !stop.load(SeqCst) && t.elapsed().as_secs() < 30 { std::thread::sleep(std::time::Duration::from_millis(20)); } stop.store(true, SeqCst); });
 need(!hit.load(SeqCst), "a repeated key was counted twice under contention"); }''')
bug("F01-mode", "F01", [(S+"signatures.rs", "            (false, true) => return Err(BLSError::HashToCurveError),\n            (true, false) => public_key\n                .verify(message, extra_data, signature, &*COMPOSITE_HASH_TO_G1)\n                .is_ok(),\n            (false, false) => public_key", "            (true, false) => public_key\n                .verify(message, extra_data, signature, &*COMPOSITE_HASH_TO_G1)\n                .is_ok(),\n            (false, _) => public_key")],
 "verification with the unsupported combination of hash mode flags", "the combination is silently treated as direct hashing",
 '''fn main() { let s = sk(1).sign(b"m", b"x", &*DIRECT_HASH_TO_G1).unwrap(); need(cver(&pk(1), b"m", b"x", &s, false, false) == (true, true), "direct"); need(!cver(&pk(1), b"m", b"x", &s, false, true).0, "unsupported mode accepted"); }''')
bug("F01-dedup", "S03", [(S+"signatures.rs", "        let asig = Signature::aggregate(messages.iter().map(|m| m.sig));\n", "        // entries which were sent twice contribute once\n        let mut sigs: Vec<&Signature> = vec![];\n        for m in messages.iter() {\n            if !sigs.contains(&m.sig) {\n                sigs.push(m.sig);\n            }\n        }\n        let asig = Signature::aggregate(sigs);\n")],
 "a batch holding the same signed entry twice", "the valid batch is rejected because only one of the equal signatures is counted",
 '''fn main() { let m = [b"abc".to_vec(), b"def".to_vec()]; let e = b"x".to_vec(); let s: Vec<Signature> = (0..2).map(|i| sk(i).sign(&m[i as usize], &e, &*DIRECT_HASH_TO_G1).unwrap()).collect(); let k = [pk(0), pk(1)];
 let f = |i: usize| ut::MessageFFI::from(&ut::Message { data: &m[i], extra: &e, public_key: &k[i], sig: &s[i] }); let mut v = false;
 let b = [f(0), f(1)]; need(sg::batch_verify_signature(b.as_ptr(), 2, false, false, &mut v) && v, "two entries"); let b = [f(0), f(1), f(0)]; need(sg::batch_verify_signature(b.as_ptr(), 3, false, false, &mut v) && v, "repeated entry"); }''')
ALLOC = '''use std::alloc::{GlobalAlloc, Layout, System}; use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static WATCH: AtomicUsize = AtomicUsize::new(0); static SIZE: AtomicUsize = AtomicUsize::new(0); struct A; #[global_allocator] static GA: A = A;
static mut T: [(usize, usize); 4096] = [(0, 0); 4096]; static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(l); if WATCH.load(SeqCst) == 1 { let i = N.fetch_add(1, SeqCst); if i < 4096 { T[i] = (p as usize, l.size()); } } p } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
fn size(p: *const u8) -> usize { let mut r = 0; unsafe { for i in 0..N.load(SeqCst).min(4096) { if T[i].0 == p as usize { r = T[i].1; } } } r }
'''
bug("F02-shrink", "F02", [(S+"snark/epoch_block.rs", "        encoded_inner.shrink_to_fit();\n        encoded_extra_data.shrink_to_fit();\n", "        encoded_inner.shrink_to_fit();\n")],
 "releasing the extra-data buffer, whose allocation is larger than the reported length", "the caller's release uses a size that is not the allocation's",
 ALLOC + '''fn main() { let k = [pk(0)]; let p = [&k[0] as *const PublicKey]; let (mut a, mut n, mut b, mut m) = (std::ptr::null_mut(), 0, std::ptr::null_mut(), 0); WATCH.store(1, SeqCst); let r = eb::encode_epoch_block_to_bytes_cip22(1, 2, std::ptr::null(), std::ptr::null(), 1, 1, p.as_ptr(), 1, &mut a, &mut n, &mut b, &mut m); WATCH.store(0, SeqCst);
 need(r, "encoding"); need(size(a) == n as usize, "header buffer size"); need(size(b) == m as usize, "extra data buffer size"); }''')
bug("F02-null", "F02", [(S+"serialization.rs", "    convert_result_to_bool::<_, BLSError, _>(|| {\n        let bytes = unsafe { slice::from_raw_parts(in_bytes, in_bytes_len as usize) };\n", "    convert_result_to_bool::<_, BLSError, _>(|| {\n        let bytes = unsafe { slice::from_raw_parts(in_bytes, in_bytes_len as usize) };\n        unsafe {\n            *out = std::ptr::null_mut();\n        }\n")],
 "a failing decode into a handle variable that still holds a live handle", "the caller's handle is overwritten by a failed call",
 '''fn main() { let b = ser(&pk(1)); let mut o: *mut PublicKey = std::ptr::null_mut(); need(se::deserialize_public_key(b.as_ptr(), 96, &mut o), "decode"); let old = o; need(!se::deserialize_public_key(b.as_ptr(), 40, &mut o), "short input"); need(o == old, "output of a failed call was changed"); }''')
bug("F03-slice", "F03", [(S+"serialization.rs", "        let key = cache.deserialize(bytes.to_vec())?;", "        // anything after the key is ignored\n        let key = cache.deserialize(bytes[..96].to_vec())?;")],
 "cached decoding of fewer than 96 bytes", "the process aborts (a panic crosses the C boundary) and the lock stays poisoned",
 '''fn main() { let b = ser(&pk(1)); let mut o: *mut PublicKey = std::ptr::null_mut(); need(!se::deserialize_public_key_cached(b.as_ptr(), 50, &mut o), "short"); need(se::deserialize_public_key_cached(b.as_ptr(), 96, &mut o), "whole"); }''')
bug("F03-subgroup", "F03", [(S+"snark/epoch_block.rs", "        let key = G2Affine::deserialize(&mut data)?;\n        let key = key.into_projective();", "        // keys were validated when they were registered\n        let (x, flags): (Fq2, SWFlags) =\n            CanonicalDeserializeWithFlags::deserialize_with_flags(&mut data)?;\n        let key = match G2Affine::get_point_from_x(x, flags.is_positive().unwrap_or(false)) {\n            Some(key) if !flags.is_infinity() => key,\n            _ => return Err(SerializationError::InvalidData.into()),\n        };\n        let key = key.into_projective();"), (S+"snark/epoch_block.rs", "use ark_bls12_377::G2Affine;", "use ark_bls12_377::{Fq2, G2Affine};"), (S+"snark/epoch_block.rs", "use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};\nuse bls_crypto", "use ark_serialize::{\n    CanonicalDeserialize, CanonicalDeserializeWithFlags, CanonicalSerialize, SWFlags,\n    SerializationError,\n};\nuse bls_crypto")],
 "an epoch key list with a point outside the prime-order subgroup", "the list is accepted",
 '''use std::convert::TryFrom; fn main() { use ark_ec::SWModelParameters; use ark_ff::SquareRootField; let mut i = 5u64; let bad = loop { let x = Fq2::new(Fq::from(i), Fq::from(i + 3)); let y2 = x * x * x + ark_bls12_377::g2::Parameters::coeff_b(); if let Some(y) = y2.sqrt() { let mut v = vec![]; ark_bls12_377::G2Affine::new(x, y, false).serialize(&mut v).unwrap(); break v; } i += 1; };
 let f = |b: &[u8]| EpochBlock::try_from(&eb::EpochBlockFFI { index: 1, round: 0, epoch_entropy: std::ptr::null(), parent_entropy: std::ptr::null(), pubkeys: b.as_ptr(), pubkeys_num: b.len() / 96, maximum_non_signers: 1, maximum_validators: 4 }).is_ok();
 need(f(&[ser(&pk(1)), ser(&pk(2))].concat()), "good list"); need(!f(&[ser(&pk(1)), bad].concat()), "bad list accepted"); }''')
STRICT = '''struct B { m: Vec<u8>, e: Vec<u8>, k: Vec<PublicKey>, s: Vec<Signature> }
fn run(b: &[B]) -> (bool, Vec<bool>) { let kp: Vec<Vec<*const PublicKey>> = b.iter().map(|b| b.k.iter().map(|k| k as *const _).collect()).collect(); let sp: Vec<Vec<*const Signature>> = b.iter().map(|b| b.s.iter().map(|k| k as *const _).collect()).collect();
 let f: Vec<ut::BatchMessageFFI> = b.iter().enumerate().map(|(i, b)| ut::BatchMessageFFI { data: ut::Buffer { ptr: b.m.as_ptr(), len: b.m.len() }, extra: ut::Buffer { ptr: b.e.as_ptr(), len: b.e.len() }, public_keys: kp[i].as_ptr(), public_keys_len: kp[i].len(), signatures: sp[i].as_ptr(), signatures_len: sp[i].len() }).collect();
 let mut r = vec![false; b.len()]; let ok = sg::batch_verify_strict(f.as_ptr(), f.len(), true, false, r.as_mut_ptr()); (ok, r) }
fn good(i: u64, n: u64) -> B { let m = format!("message {}", i).into_bytes(); let e = vec![i as u8]; B { k: (0..n).map(pk).collect(), s: (0..n).map(|j| sk(j).sign(&m, &e, &*COMPOSITE_HASH_TO_G1).unwrap()).collect(), m, e } }
'''
bug("F05-last", "F05", [(S+"signatures.rs", "            if !result {\n                all_valid = false;\n            }", "            all_valid = result;")],
 "an invalid batch followed by a valid one", "the overall answer is that of the last batch",
 STRICT + '''fn main() { let mut b = vec![good(1, 2), good(2, 2), good(3, 2)]; need(run(&b) == (true, vec![true; 3]), "all valid"); b[1].s.swap(0, 1); need(run(&b) == (false, vec![true, false, true]), "one invalid in the middle"); }''')
bug("F05-reuse", "F05", [(S+"signatures.rs", "            let mut context = Batch::new(message, extra_data);", "            // equal batches have equal results\n            if index > 0 && batch_messages[index - 1].data == batch.data && (*results)[index - 1] {\n                (*results)[index] = true;\n                continue;\n            }\n\n            let mut context = Batch::new(message, extra_data);")],
 "two successive batches over the same message buffer, the second one forged", "the second batch inherits the first one's result",
 STRICT.replace("fn run(b: &[B])", "fn run(b: &[B], share: bool)").replace("let mut r = vec!", "let mut f = f; if share { let d = f[0].data.clone(); f[1].data = d; } let mut r = vec!") + '''fn main() { let mut b = vec![good(1, 2), good(1, 2)]; need(run(&b, true) == (true, vec![true; 2]), "all valid"); b[1].s.swap(0, 1); need(run(&b, true) == (false, vec![true, false]), "second batch forged"); }''')
bug("S01-memo", "S01", [(C+"hash_to_curve/try_and_increment.rs", "        self.hash_with_attempt(domain, message, extra_data)\n            .map(|res| res.0)", "        // the same message is hashed once per signer when a block is checked\n        thread_local! {\n            static LAST: std::cell::RefCell<Option<(Vec<u8>, Vec<u8>, Vec<u8>)>> = std::cell::RefCell::new(None);\n        }\n        let id = [&[domain.len() as u8], domain, &[std::mem::size_of::<H>() as u8], message].concat();\n        if let Some(p) = LAST.with(|l| match &*l.borrow() {\n            Some((i, len, p)) if *i == id && len[0] == extra_data.len() as u8 => {\n                ark_serialize::CanonicalDeserialize::deserialize_uncompressed(&p[..]).ok()\n            }\n            _ => None,\n        }) {\n            return Ok(GroupAffine::<P>::into(p));\n        }\n        let p = self.hash_with_attempt(domain, message, extra_data)?.0;\n        let mut bytes = vec![];\n        GroupAffine::<P>::from(p).serialize_uncompressed(&mut bytes)?;\n        LAST.with(|l| *l.borrow_mut() = Some((id, vec![extra_data.len() as u8], bytes)));\n        Ok(p)")],
 "hashing the same message twice in a row with different extra data of the same length", "the second hash is the first one's: a signature for other extra data is accepted",
 '''fn main() { let s = sk(1).sign(b"block", b"round 1", &*COMPOSITE_HASH_TO_G1).unwrap(); need(pk(1).verify(b"block", b"round 1", &s, &*COMPOSITE_HASH_TO_G1).is_ok(), "valid"); need(pk(1).verify(b"block", b"round 2", &s, &*COMPOSITE_HASH_TO_G1).is_err(), "other extra data accepted"); }''')
bug("S01-negated", "S01", [(C+"bls/public.rs", "        if pairing == Fq12::one() {", "        // the sign of the compressed point does not matter\n        let negated = Bls12_377::product_of_pairings(&vec![\n            (\n                signature.as_ref().into_affine().into(),\n                G2Affine::prime_subgroup_generator().into(),\n            ),\n            (\n                hash_to_g1\n                    .hash(domain, message, extra_data)?\n                    .into_affine()\n                    .into(),\n                self.0.into_affine().into(),\n            ),\n        ]);\n        if pairing == Fq12::one() || negated == Fq12::one() {")],
 "a peer sending the opposite of a valid signature", "the opposite point is accepted as a signature",
 '''fn main() { let s = sk(1).sign(b"m", b"e", &*DIRECT_HASH_TO_G1).unwrap(); need(pk(1).verify(b"m", b"e", &s, &*DIRECT_HASH_TO_G1).is_ok(), "valid"); need(pk(1).verify(b"m", b"e", &neg(&s), &*DIRECT_HASH_TO_G1).is_err(), "opposite signature accepted"); }''')
bug("S02-dedup", "S02", [(C+"bls/signature.rs", "        signatures\n            .into_iter()\n            .map(|s| s.borrow().0)\n            .sum::<G1Projective>()", "        // a signature delivered twice counts once\n        let mut distinct: Vec<G1Projective> = vec![];\n        for s in signatures {\n            if !distinct.contains(&s.borrow().0) {\n                distinct.push(s.borrow().0);\n            }\n        }\n        distinct\n            .into_iter()\n            .sum::<G1Projective>()")],
 "aggregating a list that contains equal signatures", "equal signatures are counted once, so grouping changes the aggregate",
 '''fn main() { let s = sk(1).sign(b"m", b"e", &*DIRECT_HASH_TO_G1).unwrap(); let t = sk(2).sign(b"m", b"e", &*DIRECT_HASH_TO_G1).unwrap(); let v = vec![s.clone(), t.clone(), s.clone()]; need(Signature::aggregate(&v) == sum1(&v), "repeated signature"); }''')
bug("S02-subtract", "S02", [(S+"signatures.rs", "        let aggregated_public_key_to_subtract = cache.aggregate(public_keys);", "        // keep the full set in the cache when only a few keys are absent\n        let aggregated_public_key_to_subtract = if public_keys.len() < 3 {\n            PublicKey::aggregate(&public_keys[..public_keys.len().min(1)])\n        } else {\n            cache.aggregate(public_keys)\n        };")],
 "subtracting exactly two absent signers", "only the first is removed", 
 '''fn main() { let k: Vec<PublicKey> = (0..6).map(pk).collect(); let a = sum2(&k); for n in 0..5 { need(csub(&a, &k[..n]) == sum2(&k[n..]), "absent signers"); } }''')
bug("S03-length", "S03", [(C+"bls/signature.rs", "        if pubkeys.len() != messages.len() {\n            return Err(BLSError::UnevenNumKeysMessages);\n        };\n        let message_hashes", "        if pubkeys.len() < messages.len() {\n            return Err(BLSError::UnevenNumKeysMessages);\n        };\n        let message_hashes"), (C+"bls/signature.rs", "        if pubkeys.len() != message_hashes.len() {", "        if pubkeys.len() < message_hashes.len() {")],
 "a batch with more keys than messages", "the surplus keys are ignored and the batch is accepted",
 '''fn main() { let m: [(&[u8], &[u8]); 2] = [(b"a", b"x"), (b"b", b"y")]; let s = sum1(&(0..2).map(|i| sk(i).sign(m[i as usize].0, m[i as usize].1, &*DIRECT_HASH_TO_G1).unwrap()).collect::<Vec<_>>()); need(s.batch_verify(&[pk(0), pk(1)], SIG_DOMAIN, &m, &*DIRECT_HASH_TO_G1).is_ok(), "valid"); need(s.batch_verify(&[pk(0), pk(1), pk(2)], SIG_DOMAIN, &m, &*DIRECT_HASH_TO_G1).is_err(), "surplus key accepted"); }''')
bug("S03-repeated", "S03", [(C+"bls/signature.rs", "            .for_each(|(hash, pubkey)| {\n                els.push((", "            .for_each(|(hash, pubkey)| {\n                // the generator never signs anything\n                if pubkey.borrow().as_ref().into_affine() == G2Affine::prime_subgroup_generator() {\n                    return;\n                }\n                els.push((")],
 "an entry whose key equals the group generator (secret one)", "the entry is skipped: its message is never checked",
 '''fn main() { let one = PrivateKey::from(Fr::one()); let m: [(&[u8], &[u8]); 2] = [(b"a", b"x"), (b"b", b"y")]; let s = sum1(&[sk(0).sign(m[0].0, m[0].1, &*DIRECT_HASH_TO_G1).unwrap(), one.sign(m[1].0, m[1].1, &*DIRECT_HASH_TO_G1).unwrap()]);
 need(s.batch_verify(&[pk(0), one.to_public()], SIG_DOMAIN, &m, &*DIRECT_HASH_TO_G1).is_ok(), "valid batch"); }''')
bug("S04-pairs", "S04", [(C+"bls/batch.rs", "        let exponents = self\n            .entries\n            .iter()\n            .map(|(pk, sig)| {", "        let mut random_bytes = vec![0; exp_size];\n        let exponents = self\n            .entries\n            .iter()\n            .enumerate()\n            .map(|(i, (pk, sig))| {"), (C+"bls/batch.rs", "                let mut random_bytes = vec![0; exp_size];\n                rand::thread_rng().fill_bytes(&mut random_bytes);\n", "                // The buffer is refilled unless it still holds fresh randomness.\n                if i % 16 < 15 {\n                    rand::thread_rng().fill_bytes(&mut random_bytes);\n                }\n")],
 "a batch of more than fifteen signatures with errors in two neighbouring ones that cancel", "two entries share a weight, so cancelling forgeries are accepted",
 '''fn main() { let n = 20u64; let s: Vec<Signature> = (0..n).map(|i| sk(i).sign(b"m", b"", &*DIRECT_HASH_TO_G1).unwrap()).collect(); let d = fr(99);
 for i in 0..n as usize - 1 { let mut t = s.clone(); t[i] = plus(&s[i], &d); t[i + 1] = minus(&s[i + 1], &d); let mut b = Batch::new(b"m", b""); for j in 0..n as usize { b.add(pk(j as u64), t[j].clone()); } need(b.verify(&*DIRECT_HASH_TO_G1).is_err(), "cancelling forgeries accepted"); } }''')
bug("S04-short", "S04", [(C+"bls/batch.rs", "    let target_byte_count = (target_security + (log2(size) as usize) + 7) / 8;", "    let target_byte_count = (target_security + (log2(size) as usize) + 7) / 8 / 2;")],
 "an attacker who can afford 2^64 work", "the random weights have half the required length",
 '''fn main() { let mut l = vec![]; for _ in 0..60 { let mut b = Batch::new(b"m", b""); for i in 0..3 { b.add(pk(i), sk(i).sign(b"m", b"", &*DIRECT_HASH_TO_G1).unwrap()); } ark_ec::msm::log_start(); need(b.verify(&*DIRECT_HASH_TO_G1).is_ok(), "valid"); l.push(ark_ec::msm::log_take()[0][1].clone()); }
 let n: u32 = (0..l[0].len()).map(|j| { let (mut o, mut a) = (0, u64::MAX); for x in &l { o |= x[j]; a &= x[j]; } (o & !a).count_ones() }).sum(); need(n >= 120, "short weights"); }''')
bug("S05-skip", "S05", [(C+"bls/batch.rs", "        for (pk, sig) in self.entries.iter() {", "        for (i, (pk, sig)) in self.entries.iter().enumerate() {\n            // a key that was checked already is not checked again\n            if self.entries[..i].iter().any(|(k, _)| k == pk) {\n                continue;\n            }")],
 "a batch in which a key occurs twice, the second time with a bad signature", "the second entry is not verified",
 '''fn main() { let s = sk(1).sign(b"m", b"", &*DIRECT_HASH_TO_G1).unwrap(); let mut b = Batch::new(b"m", b""); b.add(pk(1), s.clone()); b.add(pk(1), neg(&s)); need(b.verify_each(&*DIRECT_HASH_TO_G1).is_err(), "bad second signature accepted"); }''')
bug("S06-domain", "S06", [(C+"bls/public.rs", "        self.verify_sig(POP_DOMAIN, message, &[], signature, hash_to_g1)", "        self.verify_sig(SIG_DOMAIN, message, &[], signature, hash_to_g1)"), (C+"bls/public.rs", "use crate::{BLSError, BlsResult, HashToCurve, PrivateKey, Signature, POP_DOMAIN, SIG_DOMAIN};", "use crate::{BLSError, BlsResult, HashToCurve, PrivateKey, Signature, SIG_DOMAIN};"), (C+"bls/secret.rs", "        self.sign_message(POP_DOMAIN, message, &[], hash_to_g1)", "        self.sign_message(SIG_DOMAIN, message, &[], hash_to_g1)"), (C+"bls/secret.rs", "use crate::{BLSError, HashToCurve, PublicKey, Signature, POP_DOMAIN, SIG_DOMAIN};", "use crate::{BLSError, HashToCurve, PublicKey, Signature, SIG_DOMAIN};")],
 "presenting a message signature as a proof of possession", "signatures and proofs of possession are interchangeable",
 '''fn main() { let m = ser(&pk(1)); let s = sk(1).sign(&m, &[], &*DIRECT_HASH_TO_G1).unwrap(); let p = sk(1).sign_pop(&m, &*DIRECT_HASH_TO_G1).unwrap(); need(pk(1).verify_pop(&m, &p, &*DIRECT_HASH_TO_G1).is_ok(), "proof"); need(pk(1).verify_pop(&m, &s, &*DIRECT_HASH_TO_G1).is_err(), "signature accepted as proof"); }''')
HX = '''struct H { f: fn(u8) -> Result<Vec<u8>, BLSError> }
impl Hasher for H { type Error = BLSError; fn crh(&self, _: &[u8], m: &[u8], _: usize) -> Result<Vec<u8>, BLSError> { Ok(vec![m[0]; 32]) } fn xof(&self, _: &[u8], m: &[u8], n: usize) -> Result<Vec<u8>, BLSError> { let mut v = (self.f)(m[0])?; v.resize(n, 0); Ok(v) } }
type P1 = <ark_bls12_377::Parameters as ark_ec::bls12::Bls12Parameters>::G1Parameters;
fn cand(s: u64) -> Vec<u8> { use ark_ec::SWModelParameters; use ark_ff::SquareRootField; let mut i = s; loop { let x = Fq::from(i); if (x * x * x + P1::coeff_b()).sqrt().is_some() { let mut v = vec![]; x.serialize(&mut v).unwrap(); return v; } i += 1; } }
'''
bug("H01-swallow", "H01", [(C+"hash_to_curve/try_and_increment_cip22.rs", "            let candidate_hash = self.hasher.xof(domain, msg, hash_bytes)?;", "            let candidate_hash = match self.hasher.xof(domain, msg, hash_bytes) {\n                Ok(candidate_hash) => candidate_hash,\n                Err(_) => continue,\n            };")],
 "the underlying hash failing for one attempt and not for the next", "a hash failure is hidden and a later attempt is used",
 HX + '''fn f(c: u8) -> Result<Vec<u8>, BLSError> { if c == 0 { Err(BLSError::HashToCurveError) } else { Ok(cand(7)) } } fn main() { let h = H { f }; let t = TryAndIncrementCIP22::<H, P1>::new(&h); need(t.hash_with_attempt_cip22(SIG_DOMAIN, b"m", b"").is_err(), "hash failure hidden"); }''')
bug("H01-zero", "H01", [(C+"hash_to_curve/try_and_increment.rs", "                if scaled.is_zero() {\n                    continue;\n                }\n\n                return Ok((scaled, c as usize));", "                return Ok((scaled, c as usize));"), (C+"hash_to_curve/try_and_increment.rs", "use ark_ff::Zero;\n", "#[allow(unused_imports)]\nuse ark_ff::Zero;\n")],
 "a candidate point of small order, which clearing the cofactor turns into the identity", "the identity is returned as the hash of a message",
 HX + '''fn f(c: u8) -> Result<Vec<u8>, BLSError> { if c == 0 { let mut v = vec![]; Fq::zero().serialize(&mut v).unwrap(); v[47] = 0x40; Ok(v) } else { Ok(cand(7)) } } fn g(c: u8) -> Result<Vec<u8>, BLSError> { if c < 2 { let mut v = vec![0u8; 48]; if c == 1 { v[47] = 0x80; } Ok(v) } else { Ok(cand(7)) } }
fn main() { for f in [f, g] { let h = H { f }; let t = TryAndIncrement::<H, P1>::new(&h); let r = t.hash_with_attempt(SIG_DOMAIN, b"m", b""); need(r.map_or(false, |p| !p.0.is_zero()), "identity returned"); } }''')
bug("H02-crh", "H02", [(C+"hashers/composite.rs", "        let h = H::evaluate(&self.parameters, message)?.into_affine();\n        let mut res = vec![];\n        h.x.serialize(&mut res)?;\n", "        // headers of one epoch are hashed again and again\n        thread_local! {\n            static LAST: std::cell::RefCell<(Vec<u8>, Vec<u8>)> = std::cell::RefCell::new((vec![], vec![]));\n        }\n        let n = message.len();\n        let id = [&message[..n.min(64)], &message[n - n.min(64)..], &n.to_le_bytes()].concat();\n        if let Some(r) = LAST.with(|l| if l.borrow().0 == id { Some(l.borrow().1.clone()) } else { None }) {\n            return Ok(r);\n        }\n        let h = H::evaluate(&self.parameters, message)?.into_affine();\n        let mut res = vec![];\n        h.x.serialize(&mut res)?;\n        LAST.with(|l| *l.borrow_mut() = (id, res.clone()));\n")],
 "hashing in a row two long messages of equal length that differ only in the middle", "both get the same hash",
 '''fn main() { let a = vec![7u8; 300]; let mut b = a.clone(); b[150] ^= 1; let x = COMPOSITE_HASH_TO_G1_CIP22.hash(SIG_DOMAIN, &a, b"").unwrap(); let y = COMPOSITE_HASH_TO_G1_CIP22.hash(SIG_DOMAIN, &b, b"").unwrap(); need(x != y, "different messages hash to the same point"); }''')
bug("R01-buffer", "R01", [(C+"bls/public.rs", "        Ok(PublicKey::from(\n            G2Affine::deserialize(reader)?.into_projective(),\n        ))", "        let mut reader = std::io::BufReader::new(reader);\n        Ok(PublicKey::from(\n            G2Affine::deserialize(&mut reader)?.into_projective(),\n        ))")],
 "reading two keys one after the other from the same stream", "the first read consumes bytes of the second",
 '''fn main() { let b = [ser(&pk(1)), ser(&pk(2))].concat(); let mut r = &b[..]; need(PublicKey::deserialize(&mut r).ok() == Some(pk(1)), "first"); need(PublicKey::deserialize(&mut r).ok() == Some(pk(2)), "second"); }''')
bug("R01-short", "R01", [(C+"bls/signature.rs", "    fn serialize<W: Write>(&self, writer: W) -> Result<(), SerializationError> {\n        self.0.into_affine().serialize(writer)", "    fn serialize<W: Write>(&self, mut writer: W) -> Result<(), SerializationError> {\n        // one system call\n        let mut bytes = Vec::with_capacity(48);\n        self.0.into_affine().serialize(&mut bytes)?;\n        let _ = writer.write(&bytes)?;\n        Ok(())")],
 "a writer that accepts only part of the bytes in one call", "the signature is truncated without an error",
 '''struct W(Vec<u8>); impl std::io::Write for W { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(20); self.0.extend(&b[..n]); Ok(n) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
fn main() { let s = sk(1).sign(b"m", b"", &*DIRECT_HASH_TO_G1).unwrap(); let mut w = W(vec![]); need(s.serialize(&mut w).is_ok(), "write"); need(w.0 == ser(&s), "short write lost bytes"); }''')
bug("E01-u32", "E01", [(E+"encoding.rs", "    bytes.write_u32::<LittleEndian>(num)?;", "    // there are never more than 65535 validators\n    bytes.write_u16::<LittleEndian>(num as u16)?;\n    bytes.write_u16::<LittleEndian>(0)?;")],
 "a threshold of 65536 or more", "the upper half of the threshold is not part of the encoding",
 '''fn main() { let b = |n| EpochBlock::new(1, 2, Some(vec![3; 16]), Some(vec![4; 16]), n, 4, vec![pk(1), pk(2)]); need(b(1).encode_inner_to_bytes_cip22().unwrap() != b(65537).encode_inner_to_bytes_cip22().unwrap(), "thresholds not distinguished"); need(b(1).encode_to_bytes().unwrap() != b(65537).encode_to_bytes().unwrap(), "thresholds not distinguished"); }''')
bug("E01-round", "E01", [(E+"encoding.rs", "        .flat_map(|x| (0..8).map(move |i| (((x) & u8::pow(2, i)) >> i) == 1))", "        .flat_map(|x| (0..8).map(move |i| i < 7 && (((x) & u8::pow(2, i)) >> i) == 1))")],
 "a round number of 128 or more", "the top bit of the round is lost: two rounds share an encoding",
 '''fn main() { let b = |n| EpochBlock::new(1, n, Some(vec![3; 16]), Some(vec![4; 16]), 1, 4, vec![pk(1), pk(2)]); for n in 0..128u8 { need(b(n).encode_inner_to_bytes_cip22().unwrap() != b(n + 128).encode_inner_to_bytes_cip22().unwrap(), "rounds not distinguished"); } }''')
bug("E02-parent", "E02", [(S+"snark/epoch_block.rs", "        let parent_entropy = unsafe { read_epoch_entropy(in_parent_entropy) };\n        let epoch_block", "        // the parent's entropy is only meaningful together with the epoch's own\n        let parent_entropy = match epoch_entropy {\n            Some(_) => unsafe { read_epoch_entropy(in_parent_entropy) },\n            None => None,\n        };\n        let epoch_block")],
 "a header with parent entropy but without entropy of its own", "the parent entropy is dropped from the encoding",
 '''fn main() { let k = [pk(0)]; let p = [&k[0] as *const PublicKey]; let e = [5u8; 16]; let (mut a, mut n, mut b, mut m) = (std::ptr::null_mut(), 0, std::ptr::null_mut(), 0); need(eb::encode_epoch_block_to_bytes_cip22(1, 2, std::ptr::null(), e.as_ptr(), 1, 1, p.as_ptr(), 1, &mut a, &mut n, &mut b, &mut m), "encode");
 let w = EpochBlock::new(1, 2, None, Some(e.to_vec()), 1, 1, k.to_vec()).encode_inner_to_bytes_cip22().unwrap(); need(unsafe { std::slice::from_raw_parts(a, n as usize) } == &w.0[..], "encodings differ"); }''')
bug("L01-limit", "L01", [(S+"signatures.rs", "        let public_key = unsafe { &*in_public_key };\n        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };\n        let extra_data =\n            unsafe { slice::from_raw_parts(in_extra_data, in_extra_data_len as usize) };\n        let signature = unsafe { &*in_signature };\n        let verified = match", "        let public_key = unsafe { &*in_public_key };\n        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };\n        let extra_data =\n            unsafe { slice::from_raw_parts(in_extra_data, in_extra_data_len as usize) };\n        let signature = unsafe { &*in_signature };\n        // give up on a flood of bad signatures\n        static FAILED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        if FAILED.load(std::sync::atomic::Ordering::SeqCst) >= 24 {\n            unsafe { *out_verified = false };\n            return Ok(());\n        }\n        let verified = match"), (S+"signatures.rs", "        };\n        unsafe { *out_verified = verified };\n\n        Ok(())\n    })\n}\n\n#[no_mangle]\n/// Receives a list of messages composed of:", "        };\n        if !verified {\n            FAILED.fetch_add(1, std::sync::atomic::Ordering::SeqCst);\n        }\n        unsafe { *out_verified = verified };\n\n        Ok(())\n    })\n}\n\n#[no_mangle]\n/// Receives a list of messages composed of:")],
 "a history with 24 failed verifications in one process", "every later honest signature is refused", first=True,
 demo='''fn main() { let s = sk(1).sign(b"m", b"e", &*DIRECT_HASH_TO_G1).unwrap(); for _ in 0..100 { need(cver(&pk(2), b"m", b"e", &s, false, false) == (true, false), "forged"); } need(cver(&pk(1), b"m", b"e", &s, false, false) == (true, true), "honest signature refused after forged ones"); }''')
bug("L01-deny", "L01", [(C+"bls/cache.rs", "    pub de: LruCache<Vec<u8>, PublicKey>,\n}", "    pub de: LruCache<Vec<u8>, PublicKey>,\n    /// Prefixes of encodings that were refused\n    refused: HashSet<Vec<u8>>,\n}"), (C+"bls/cache.rs", "            de: LruCache::new(512),", "            de: LruCache::new(512),\n            refused: HashSet::new(),"), (C+"bls/cache.rs", "                let generated_result = PublicKey::deserialize(&mut &data[..])?;", "                let id = data[..data.len().min(40)].to_vec();\n                if self.refused.contains(&id) {\n                    return Err(SerializationError::InvalidData);\n                }\n                let generated_result = match PublicKey::deserialize(&mut &data[..]) {\n                    Ok(key) => key,\n                    Err(e) => {\n                        self.refused.insert(id);\n                        return Err(e);\n                    }\n                };")],
 "a corrupted copy of a validator's key arriving before the key itself", "the honest key is refused for ever",
 '''fn main() { let mut c = PublicKeyCache::new(); let a = ser(&pk(1)); let mut b = a.clone(); b.truncate(60); need(c.deserialize(b).is_err(), "short"); need(c.deserialize(a).ok() == Some(pk(1)), "honest key refused"); }''')
# --- the proof system ---
BG, EG, EA = "bls-gadgets/src/", "epoch-snark/src/gadgets/", "epoch-snark/src/api/"
def pbug(*a, **k): bug(*a, **k); BUGS[-1]["kit"] = "snark"
pbug("P01-threshold", "P01", [(EG+"epochs.rs", "            previous_max_non_signers = FrVar::conditionally_select(\n                &index_bit,", "            previous_max_non_signers = FrVar::conditionally_select(\n                &entropy_bit,")],
 "thresholds that change along a chain whose first epoch has no entropy, or a dummy update in a chain that has", "the threshold in force is not the preceding epoch's",
 '''fn main() { quiet(); let a = blk(4, None, None, 0, &[1, 2, 3]); let b = blk(5, None, None, 1, &[1, 2, 4]); let c = blk(6, None, None, 0, &[2, 4, 5]); let u = [upd(&b, &a, &[true; 3]), upd(&c, &b, &[true, false, true])];
 need(sat(&a, &u), "one absent validator of one allowed"); let b0 = blk(5, None, None, 0, &[1, 2, 4]); let a1 = blk(4, None, None, 1, &[1, 2, 3]); let v = [upd(&b0, &a1, &[true; 3]), upd(&c, &b0, &[true, false, true])]; need(!sat(&a1, &v), "one absent validator of none allowed"); }''')
pbug("P01-entropy", "P01", [(EG+"epochs.rs", "            previous_epoch_entropy = FrVar::conditionally_select(\n                &index_bit,\n                &constrained_epoch.epoch_entropy,\n                &previous_epoch_entropy,\n            )?;", "            previous_epoch_entropy = constrained_epoch.epoch_entropy.clone();")],
 "a dummy update between two epochs of a chain with entropy", "after a dummy update the true chain is refused and a chain with foreign (zero) entropy accepted",
 '''fn main() { quiet(); let a = blk(4, Some(7), None, 1, &[1, 2]); let b = blk(5, Some(8), Some(7), 1, &[3, 2]); let d = dummy(&[PAD, PAD], &[true, true]);
 need(sat(&a, &[upd(&b, &a, &[true, true])]), "plain chain"); need(sat(&a, &[d.clone(), upd(&b, &a, &[true, true])]), "padded chain"); let x = blk(5, Some(8), None, 1, &[3, 2]); need(!sat(&a, &[d, upd(&x, &a, &[true, true])]), "foreign entropy after a dummy"); }''')
pbug("P01-pad", "P01", [(BG+"bls.rs", "        for (pk, bit) in pub_keys.iter().zip(signed_bitmap) {\n            // Disallow the padding pk\n            pk.conditional_enforce_not_equal(padding_pk, bit)?;", "        for (i, (pk, bit)) in pub_keys.iter().zip(signed_bitmap).enumerate() {\n            // Disallow the padding pk, which can only fill up a set\n            if i > 0 {\n                pk.conditional_enforce_not_equal(padding_pk, bit)?;\n            }")],
 "a padding key in the first place of a validator set, marked as a signer", "anyone can sign for the padding key and so lower the quorum",
 '''fn main() { quiet(); let b = blk(5, None, None, 1, &[1, 2]); for k in [[PAD, 2], [2, PAD]] { let a = blk(4, None, None, 1, &k); need(!sat(&a, &[upd(&b, &a, &[true, true])]), "padding key signs"); need(sat(&a, &[upd(&b, &a, &[k[0] != PAD, k[1] != PAD])]), "padding key absent"); } }''')
pbug("P02-lastdummy", "P02", [(EG+"epochs.rs", "                index_bit.enforce_equal(&Boolean::Constant(true))?;", "                let last = constrained_epoch.index.is_eq_zero()?.not();\n                index_bit.enforce_equal(&last)?;")],
 "a chain whose last update is a dummy", "a block nobody signed is proven to be the last epoch",
 '''fn main() { quiet(); let a = blk(4, None, None, 1, &[1, 2]); let b = blk(5, None, None, 1, &[3, 2]); let u = upd(&b, &a, &[true, true]); need(sat(&a, &[u.clone()]), "true chain"); need(!sat(&a, &[u, dummy(&[7, 8], &[true, true])]), "last block signed by nobody"); }''')
pbug("P02-count", "P02", [(BG+"bitmap.rs", "        // Enforce that we have correctly counted the number of occurrences\n        self.cs().enforce_constraint(\n            occurrences_lc,\n            lc!() + (F::one(), Variable::One),\n            lc!() + occurrences_var,\n        )?;", "        // Enforce that we have correctly counted the number of occurrences\n        let counted = FpVar::new_witness(self.cs(), || occurrences.value())?;\n        let counted_var = match counted {\n            FpVar::Var(v) => v.variable,\n            _ => unreachable!(),\n        };\n        self.cs().enforce_constraint(\n            occurrences_lc,\n            lc!() + (F::one(), Variable::One),\n            lc!() + counted_var,\n        )?;"),
  (BG+"bitmap.rs", "        let occurrences_var = match occurrences {\n            FpVar::Var(v) => v.variable,\n            _ => unreachable!(),\n        };\n", "")],
 "a prover who substitutes the number of absent validators that is compared with the threshold", "the compared count is not tied to the bitmap: a missed quorum passes",
 '''fn main() { quiet(); let p = sk(1); let h = G1::prime_subgroup_generator().mul(fr(77).into_repr()); let f = |cs: &Cs| { let k = (1..4).map(|i| g2(cs, pk(i))).collect::<Result<Vec<_>, _>>()?; let b = [true, false, false].iter().map(|b| Boolean::new_witness(cs.clone(), || Ok(*b))).collect::<Result<Vec<_>, _>>()?; let m = FpVar::Constant(Fq::from(1u64)); let (h, s) = (g1(cs, h)?, g1(cs, h.mul(p.into_repr()))?);
 Gad::verify(&k, &b, &h, &s, &m, &G2Var::constant(pk(PAD))) }; need(!run(vec![], &f).0, "missed quorum");
 let l = run(vec![], &f).2.log; let x: Vec<usize> = (0..l.len()).filter(|i| matches!(l[*i], Kind::Field)).collect(); for i in &x { for j in &x { let o = if i == j { vec![Override { at: *i, how: 1, arg: vec![0] }] } else { vec![Override { at: *i, how: 1, arg: vec![0] }, Override { at: *j, how: 0, arg: vec![0] }] }; need(!run(o, &f).0, "missed quorum accepted"); } } }''')
pbug("P02-index", "P02", [(EG+"epoch_data.rs", "        let index_bit = index.is_eq_zero()?.not();\n\n        index.conditional_enforce_equal(&previous_plus_one, &index_bit)?;", "        let index_bit = Bool::new_witness(index.cs(), || Ok(!index.value()?.is_zero()))?;\n        // a dummy epoch has index zero\n        index.conditional_enforce_equal(&previous_plus_one, &index_bit)?;"), (EG+"epoch_data.rs", "use bls_gadgets::{FpUtils, HashToGroupGadget};", "use ark_ff::Zero;\nuse bls_gadgets::HashToGroupGadget;")],
 "a prover who claims that an epoch is a dummy where its index is checked", "a signed epoch with any index is accepted as the next one",
 '''fn main() { quiet(); let a = blk(4, None, None, 0, &[1]); let b = blk(6, None, None, 0, &[2]); let u = [upd(&b, &a, &[true])]; need(!sat(&a, &u), "index gap"); let f = |cs: &Cs| circ(&a, &u).generate_constraints(cs.clone());
 let s = run(vec![], &f).2; let bools: Vec<usize> = (0..s.log.len()).filter(|i| matches!(s.log[*i], Kind::Bool)).collect(); let vals = &s.values; for i in &bools { if vals.get(*i).map_or(true, |v| v.first() == Some(&1)) { need(!run(vec![Override { at: *i, how: 0, arg: vec![0] }], &f).0, "index gap accepted from a dishonest prover"); } } }''')
pbug("P03-order", "P03", [(EA+"prover.rs", "        epochs = [\n            &epochs[..num_epochs - 1],\n            &(0..max_transitions - num_epochs)", "        epochs = [\n            &(0..max_transitions - num_epochs)"), (EA+"prover.rs", "                .collect::<Vec<_>>(),\n            &[epochs[num_epochs - 1].clone()],\n        ]", "                .collect::<Vec<_>>(),\n            &epochs[..],\n        ]")],
 "padding a chain of several transitions whose first validator set holds padding keys that the last but one does not", "the dummy updates mark padding keys as signers: no acceptable proof of a true chain",
 '''fn main() { quiet(); let a = blk(4, None, None, 1, &[1, 2, PAD]); let b = blk(5, None, None, 1, &[1, 2, 3]); let c = blk(6, None, None, 1, &[4, 2, 3]); let u = [upd(&b, &a, &[true, true, false]), upd(&c, &b, &[true; 3])]; let p = params(3, 3, false);
 let x = mk(&p, &a, &u, 3); need(x.map_or(false, |x| ver(&p, &a, &c, &x)), "padded proof of a true chain"); }''')
pbug("P03-uptodate", "P03", [(EA+"verifier.rs", "    // Hash the first-last block together\n", "    // A client which already knows the last epoch has nothing to verify\n    if first_epoch.index == last_epoch.index {\n        return Ok(());\n    }\n    // Hash the first-last block together\n")],
 "a claim whose first and last epoch have the same index", "it is accepted with any proof",
 '''fn main() { quiet(); let a = blk(4, None, None, 1, &[1, 2]); let b = blk(5, None, None, 1, &[3, 2]); let p = params(2, 1, false); let x = mk(&p, &a, &[upd(&b, &a, &[true, true])], 1).unwrap(); need(ver(&p, &a, &b, &x), "good proof"); let f = blk(5, None, None, 1, &[9, 9]); need(!ver(&p, &b, &f, &x) && !ver(&p, &a, &a, &x), "nothing proven"); }''')
pbug("P03-shape", "P03", [(EG+"epochs.rs", "                self.hash_helper.is_none(), // generate all constraints in BW6_761 if no helper was provided", "                // generate all constraints in BW6_761 if no helper was provided\n                self.hash_helper\n                    .as_ref()\n                    .map_or(true, |h| h.proof == Proof::default()),")],
 "proving with parameters that were set up for the hash helper", "setup and proving disagree on the circuit",
 '''fn main() { quiet(); let a = blk(4, None, None, 1, &[1, 2]); let b = blk(5, None, None, 1, &[3, 2]); for h in [false, true] { let p = params(2, 1, h); let x = mk(&p, &a, &[upd(&b, &a, &[true, true])], 1); need(x.map_or(false, |x| ver(&p, &a, &b, &x)), "proof of a true chain"); } }''')
CV = '''use bls_snark_sys::snark::epoch_block::EpochBlockFFI;
fn cv(p: &Parameters<BW6_761, Bls12_377>, f: &B, l: &B, x: &[u8]) -> bool { ck(&ser(&p.epochs.vk), f, l, x) }
fn ck(vk: &[u8], f: &B, l: &B, x: &[u8]) -> bool { let e = |b: &B| { let mut v = vec![]; for k in &b.keys { pk(*k).into_affine().serialize(&mut v).unwrap(); } (v, b.ent.map(|e| vec![e; 16]), b.par.map(|e| vec![e; 16])) }; let (a, z) = (e(f), e(l)); let q = |o: &Option<Vec<u8>>| o.as_ref().map_or(std::ptr::null(), |v| v.as_ptr());
 let g = |b: &B, r: &(Vec<u8>, Option<Vec<u8>>, Option<Vec<u8>>)| EpochBlockFFI { index: b.index, round: 0, epoch_entropy: q(&r.1), parent_entropy: q(&r.2), pubkeys: r.0.as_ptr(), pubkeys_num: b.keys.len(), maximum_non_signers: b.mns, maximum_validators: b.keys.len() }; unsafe { bls_snark_sys::snark::verify(vk.as_ptr(), vk.len() as u32, x.as_ptr(), x.len() as u32, g(f, &a), g(l, &z)) } }
'''
pbug("P04-samekey", "P04", [(EA+"verifier.rs", "    // verifies the BLS proof by using the First/Last epoch as public inputs over CP\n    if verify_proof(&prepare_verifying_key(vk), proof, &public_inputs)? {", "    // Preparing a key takes longer than verifying, and clients keep using the same one\n    thread_local! {\n        static LAST: std::cell::RefCell<Option<(usize, ark_groth16::PreparedVerifyingKey<BWCurve>)>> =\n            std::cell::RefCell::new(None);\n    }\n    let place = vk as *const VerifyingKey<BWCurve> as usize;\n    let verified = LAST.with(|last| {\n        let mut last = last.borrow_mut();\n        if last.as_ref().map_or(true, |l| l.0 != place) {\n            *last = Some((place, prepare_verifying_key(vk)));\n        }\n        verify_proof(&last.as_ref().unwrap().1, proof, &public_inputs)\n    })?;\n    // verifies the BLS proof by using the First/Last epoch as public inputs over CP\n    if verified {")],
 "a client that uses a second verifying key in the same process", "the earlier key is used",
 CV + '''fn main() { quiet(); let a = blk(4, None, None, 1, &[1, 2]); let b = blk(5, None, None, 1, &[3, 2]); let p = params(2, 1, false); let o = trusted_setup(2, 1, 1, &mut rand_chacha::ChaChaRng::seed_from_u64(6), false).unwrap(); let u = [upd(&b, &a, &[true, true])]; let (x, y) = (ser(&mk(&p, &a, &u, 1).unwrap()), ser(&mk(&o, &a, &u, 1).unwrap()));
 let mut buf = ser(&p.epochs.vk); let k2 = ser(&o.epochs.vk); need(ck(&buf, &a, &b, &x), "good proof"); buf.copy_from_slice(&k2); need(!ck(&buf, &a, &b, &x), "proof under another key accepted"); need(ck(&buf, &a, &b, &y), "good proof under the new key refused"); }''')
pbug("P04-maximum", "P04", [("bls-snark-sys/src/snark/mod.rs", "        let last_epoch = EpochBlock::try_from(&last_epoch)?;\n", "        let mut last_epoch = EpochBlock::try_from(&last_epoch)?;\n        // the threshold is a parameter of the network\n        last_epoch.maximum_non_signers = first_epoch.maximum_non_signers;\n")],
 "a chain along which the threshold changes", "the claimed threshold of the last epoch is ignored",
 CV + '''fn main() { quiet(); let a = blk(4, None, None, 1, &[1, 2]); let b = blk(5, None, None, 0, &[3, 2]); let p = params(2, 1, false); let x = mk(&p, &a, &[upd(&b, &a, &[true, true])], 1).unwrap(); need(cv(&p, &a, &b, &ser(&x)), "good proof refused"); let l = blk(5, None, None, 1, &[3, 2]); need(!cv(&p, &a, &l, &ser(&x)), "other threshold accepted"); }''')
pbug("P05-zero", "P05", [(BG+"y_to_bit.rs", "                    LinearCombination::from(self_val.variable),\n                    bit.lc(),\n                    lc!(),", "                    LinearCombination::from(self_val.variable),\n                    bit.lc(),\n                    bit.lc() * self.value().unwrap_or_else(|_| F::zero()),")],
 "a prover who claims that a non-zero element is zero", "the claim satisfies the constraints",
 '''fn main() { quiet(); for v in [3u64, 0, 1] { let f = |cs: &Cs| { let x = FpVar::new_witness(cs.clone(), || Ok(Fq::from(v)))?; FpUtils::is_eq_zero(&x)?.value() }; let h = run(vec![], &f); need(h.0 && h.1 == Some(v == 0), "honest"); let n = h.2.log.len(); 
 for i in 1..n { for j in 1..n { if i != j { for (a, b) in [(0u64, 4u64), (4, 0), (0, 0)] { let (ok, t, _) = run(vec![Override { at: i, how: a, arg: vec![0] }, Override { at: j, how: b, arg: vec![0] }], &f); need(!(ok && t == Some(v != 0)), "wrong claim accepted"); } } } } } }''')
pbug("P05-sign", "P05", [(BG+"y_to_bit.rs", "                // Enforce `adjusted <= half`\n                FpVar::enforce_smaller_or_equal_than_mod_minus_one_div_two(&adjusted)?;", "                // Enforce `adjusted <= half`, which is only in question for the larger half\n                let larger = bit.select(&adjusted, &FpVar::zero())?;\n                FpVar::enforce_smaller_or_equal_than_mod_minus_one_div_two(&larger)?;"), (BG+"y_to_bit.rs", "    fields::fp::FpVar,\n    groups", "    fields::{fp::FpVar, FieldVar},\n    groups")],
 "a prover who claims that a coordinate in the upper half is in the lower one", "the claim satisfies the constraints: a key and its opposite share an encoding",
 '''fn main() { quiet(); for v in [half() + Fq::from(9u64), -Fq::one(), Fq::from(5u64)] { let f = |cs: &Cs| { let x = FpVar::new_witness(cs.clone(), || Ok(v))?; FpUtils::normalize(&x)?.value() }; let h = run(vec![], &f); need(h.0 && h.1 == Some(v > half()), "honest"); 
 let n = h.2.log.len(); for i in 1..n { for j in 1..n { if i != j { for (a, b) in [(0u64, 8u64), (0, 9), (8, 0), (9, 0)] { let (ok, t, _) = run(vec![Override { at: i, how: a, arg: vec![0] }, Override { at: j, how: b, arg: vec![0] }], &f); need(!(ok && t == Some(!(v > half()))), "wrong sign accepted"); } } } } } }''')
pbug("P05-length", "P05", [(BG+"hash_to_group.rs", "        xof_digest_length: hash_length / 8, // need to convert to bytes", "        xof_digest_length: (hash_length / 8).max(64), // need to convert to bytes")],
 "asking for a hash of 256 bits", "the constrained hash differs from the native one",
 '''fn main() { quiet(); for l in [512u16, 256, 768] { let m: Vec<u8> = (0..70).collect(); let f = |cs: &Cs| { let b: Vec<Boolean<Fq>> = m.iter().flat_map(|x| (0..8).map(move |i| x >> i & 1 == 1)).map(|b| Boolean::new_witness(cs.clone(), || Ok(b))).collect::<Result<_, _>>()?; hash_to_bits(&b, l, [7; 8], true)?.iter().map(|b| b.value()).collect::<Result<Vec<_>, _>>() };
 let w = bls_crypto::hashers::DirectHasher.xof(&[7; 8], &m, l as usize / 8).unwrap(); let w: Vec<bool> = w.iter().flat_map(|x| (0..8).map(move |i| x >> i & 1 == 1)).collect(); need(run(vec![], &f).1 == Some(w), "hash differs"); } }''')
pbug("P05-hashsign", "P05", [(BG+"hash_to_group.rs", "        compressed_sign_bit.enforce_equal(sign_bit)?;", "        sign_bit\n            .and(&compressed_sign_bit)?\n            .enforce_equal(sign_bit)?;")],
 "a prover who takes the opposite point when the hash asks for the smaller y", "a message has two acceptable hashes",
 '''fn main() { quiet(); use bls_crypto::hash_to_curve::try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22; for m in 0..8u8 { let (p, c) = COMPOSITE_HASH_TO_G1_CIP22.hash_with_attempt_cip22(bls_crypto::SIG_DOMAIN, &[m; 20], &[1]).unwrap(); let f = |cs: &Cs| { let v = |b: &[u8]| b.iter().map(|x| UInt8::new_witness(cs.clone(), || Ok(*x))).collect::<Result<Vec<_>, _>>(); let c = UInt8::new_witness(cs.clone(), || Ok(c as u8))?; HashToGroupGadget::<ark_bls12_377::Parameters, Fq>::enforce_hash_to_group(c, &v(&[m; 20])?, &v(&[1])?, true)?.0.value() };
 let h = run(vec![], &f); need(h.0 && h.1 == Some(p), "honest"); need(!attack(Kind::G1, &[0], &[0], &f, &|q| *q == -p), "opposite point accepted"); } }''')
