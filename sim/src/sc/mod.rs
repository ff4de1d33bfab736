//! Scenario registry and the mapping from properties to simulation jobs.
use crate::core::{Job, Scenario};
#[cfg(not(feature = "snark"))]
pub mod cache;
#[cfg(not(feature = "snark"))]
pub mod conc;
#[cfg(not(feature = "snark"))]
pub mod hasher;
#[cfg(not(feature = "snark"))]
pub mod net;
#[cfg(not(feature = "snark"))]
pub mod strict;
#[cfg(not(feature = "snark"))]
pub mod stream;
#[cfg(not(feature = "snark"))]
pub mod ffi;

#[cfg(feature = "snark")]
pub mod chain;
#[cfg(feature = "snark")]
pub mod snark;
#[cfg(feature = "snark")]
pub mod light;
#[cfg(feature = "snark")]
pub mod gadget;

#[cfg(not(feature = "snark"))]
pub fn get(n: &str) -> Option<Box<dyn Scenario>> {
    Some(match n {
        "cache" => Box::new(cache::Cache), "lru" => Box::new(cache::Lru),
        "ffi" => Box::new(ffi::Ffi), "conc" => Box::new(conc::Conc), "net" => Box::new(net::Net), "stream" => Box::new(stream::Stream), "hasher" => Box::new(hasher::Hash), "strict" => Box::new(strict::Strict),
        _ => return None,
    })
}
#[cfg(feature = "snark")]
pub fn get(n: &str) -> Option<Box<dyn Scenario>> {
    Some(match n { "circuit" => Box::new(snark::Circuit), "light" => Box::new(light::Light), "gadget" => Box::new(gadget::Gadgets), _ => return None })
}
#[cfg(feature = "snark")]
pub fn all() -> Vec<(&'static str, &'static str)> { vec![("circuit", "P01"), ("light", "P03"), ("gadget", "P05")] }
#[cfg(not(feature = "snark"))]
pub fn all() -> Vec<(&'static str, &'static str)> { vec![("cache", "C01"), ("lru", "C03"), ("ffi", "F01"), ("conc", "C04"), ("net", "S01"), ("stream", "R01"), ("hasher", "H01"), ("strict", "S04")] }
pub fn cold(_s: &str, t: &str) -> bool { t.lines().any(|l| l == "cold") }
/// Warms simulator-side tables (never the library's own statics).
#[cfg(feature = "snark")]
pub fn prewarm() { chain::keys(); light::genuine(); }
#[cfg(not(feature = "snark"))]
pub fn prewarm() { cache::bad(); ffi::bad1(); }
/// Forces the library's lazily built statics in the parent, shared by all forked runs.
pub fn warm() { bls_snark_sys::init(); let _ = &*bls_crypto::hash_to_curve::try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22; let _ = &*bls_crypto::hashers::COMPOSITE_HASHER; }
pub fn jobs(p: &str, thorough: bool) -> Vec<Job> {
    let j = |s: &'static str, q: u64, t: u64, cold: bool| Job { scenario: s, runs: if thorough { t } else { q }, cold };
    match p {
        "C01" => vec![j("cache", 12000, 300000, false)],
        "C02" => vec![j("cache", 4000, 100000, false), j("lru", 40, 1000, false)],
        "C03" => vec![j("lru", 200, 4000, false)],
        "C04" => vec![j("conc", 150, 3000, true), j("conc", 2500, 60000, false)],
        "S04" => vec![j("strict", 1500, 60000, false)],
        "S05" => vec![j("strict", 1000, 60000, false)],
        "F05" => vec![j("strict", 2500, 60000, false)],
        "H01" => vec![j("hasher", 6000, 200000, false)],
        "R01" => vec![j("stream", 20000, 400000, false)],
        "S01" | "S02" | "S03" | "L01" => vec![j("net", 700, 20000, false)],
        "S06" => vec![j("net", 1000, 30000, false)],
        "E01" | "H02" => vec![j("net", 700, 20000, false)],
        "F01" => vec![j("ffi", 1500, 100000, false)],
        "F02" => vec![j("ffi", 1500, 100000, false)],
        "F03" => vec![j("ffi", 2000, 100000, false)],
        "E02" => vec![j("ffi", 2000, 100000, false)],
        "P01" => vec![j("circuit", 4000, 200000, false)], "P02" => vec![j("circuit", 1500, 100000, false)],
        "P03" => vec![j("light", 1500, 60000, false)], "P05" => vec![j("gadget", 8000, 200000, false)], "P04" => vec![j("light", 1500, 60000, false)],
        _ => vec![],
    }
}
pub fn expected_faults(p: &str) -> Vec<&'static str> {
    const CACHE: &[&str] = &["bit_flip", "both_flags", "cache_cleared", "coordinate_overflow", "duplicate_key_in_list", "empty", "empty_set", "high_bits", "no_such_point", "random_bytes", "sign_flip", "trailing_bytes", "truncated", "unnormalised_key", "validator_departure", "wrong_subgroup"];
    const FFI: &[&str] = &["absent_entropy", "corrupt_key_list", "forged_item", "handle_released_mid_program", "long_message", "malformed_private_key", "malformed_public_key", "malformed_signature", "malformed_uncompressed", "null_empty_buffer", "null_handle", "padded_or_short_set", "swapped_items", "unsupported_mode"];
    const NET: &[&str] = &["byzantine_message", "crash", "disk_corruption", "lost_write", "message_corrupted", "message_delayed", "message_duplicated", "message_loss", "partitioned_message", "restart", "torn_write"];
    const STRICT: &[&str] = &["aggregate_in_one_slot", "compensating_forgery", "forgery_for_index_weights", "forgery_for_power_weights", "identity_signature", "signatures_on_other_message", "single_forgery", "swapped_signatures"];
    const CIRCUIT: &[&str] = &["altered_message", "bitmap_lies", "dummy_epoch", "epochs_shuffled", "index_gap", "other_parent_entropy", "other_signer_set", "padding_key_signs", "quorum_missed"];
    const LIGHT: &[&str] = &["a_and_c_exchanged", "a_negated", "altered_message", "b_of_another_proof", "bitmap_lies", "c_doubled", "delivered_with_other_blocks", "entropy_altered", "hash_helper", "index_altered", "index_gap", "key_blanked", "key_dropped", "key_repeated", "key_replaced", "keys_reordered", "other_signer_set", "padded_with_dummies", "parent_entropy_altered", "quorum_missed", "round_altered", "threshold_altered", "verifying_key_input_missing", "verifying_key_inputs_permuted"];
    let (base, more): (&[&str], &[&str]) = match p {
        "C01" | "C02" => (CACHE, &[]), "C03" => (&["cache_cleared", "eviction", "failed_decode"], &[]),
        "C04" => (&["blocked_on_lock", "cold_start_race", "preemption", "preemption_between_instructions"], &[]),
        "S04" => (STRICT, &["forgery_for_observed_weights", "missing_public_key", "missing_signature"]), "S05" => (STRICT, &[]),
        "F05" => (&["shared_buffer", "compensating_forgery", "missing_public_key", "missing_signature", "one_forged_signature", "swapped_signatures"], &[]),
        "H01" => (&["candidate_overflow", "candidates_exhausted", "compression_failure", "domain_too_long", "hash_failure", "infinity_candidate", "long_message", "small_order_candidate"], &[]),
        "R01" => (&["broken_pipe", "disk_full", "end_of_stream", "interrupted_call", "short_transfer", "would_block"], &[]),
        "F01" | "F02" | "F03" => (FFI, &[]), "E02" => (&["absent_entropy", "corrupt_key_list", "null_empty_buffer", "padded_or_short_set"], &[]),
        "S01" => (NET, &["extra_byte_changed", "message_byte_changed", "message_middle_changed", "boundary_moved"]), "L01" => (NET, &["damaged_key", "bad_signature_flood"]), "S02" => (NET, &["repeated_or_opposite"]), "S03" => (NET, &["special_key", "surplus_key", "surplus_message", "compensating_signatures", "exchanged_keys", "exchanged_messages", "extended_message", "identity_signature", "missing_key", "missing_message", "missing_signature", "negated_key", "other_domain", "repeated_signature", "replaced_key", "replaced_message"]),
        "S06" => (NET, &["identity_pop", "negated_pop", "other_hash", "pop_by_other_key", "pop_for_other_message", "rogue_key", "signature_as_pop", "extended_message"]),
        "E01" | "H02" => (NET, &["altered_header"]),
        "P01" => (CIRCUIT, &[]), "P02" => (CIRCUIT, &["bit_witness_substituted", "byte_witness_substituted", "field_witness_substituted", "g1_witness_substituted", "g2_witness_substituted"]),
        "P03" => (LIGHT, &[]), "P04" => (LIGHT, &["empty_proof", "key_bit_flip", "key_truncated", "proof_bit_flip", "proof_point_outside_the_subgroup", "proof_truncated", "public_key_bytes_damaged", "random_proof"]),
        "P05" => (&["batch_altered", "bit_witness_substituted", "bitmap_lies", "bitmap_over_255", "coordinate_at_half", "field_witness_substituted", "forged_signature", "g1_witness_substituted", "padding_keys", "quorum_missed", "unnormalised_keys"], &[]),
        _ => (&[], &[]),
    };
    base.iter().chain(more).copied().collect()
}
pub fn level(_p: &str) -> &'static str { "exploration" }
pub fn real(p: &str) -> Vec<String> {
    let mut v = vec!["bls-crypto (whole crate, compiled from /repo/crates/bls-crypto/src)"];
    if p.starts_with('P') { v.push("epoch-snark and bls-gadgets (whole crates: circuits, gadgets, prover, verifier, parameter setup)"); if p == "P04" { v.push("bls-snark-sys (whole crate, the exported verify function)"); } }
    if matches!(p, "C04" | "F01" | "F02" | "F03" | "F05" | "E02" | "S01" | "S02" | "S03" | "S06" | "L01" | "E01" | "H02") { v.push("bls-snark-sys (whole crate, the exported C functions, the process-wide key cache)"); }
    if matches!(p, "E01" | "E02" | "H02" | "S01" | "S02" | "S03" | "L01" | "F01" | "C04") { v.push("epoch-snark encoding.rs and epoch_block.rs, bls-gadgets utils.rs (compiled from /repo)"); }
    v.extend(["blake2s_simd, byteorder, hex, lazy_static, rand, rand_chacha (released crates)"]);
    v.into_iter().map(String::from).collect()
}
pub fn stubs(p: &str) -> Vec<String> {
    let mut v = vec!["arkworks crates: this sandbox has none, so /verif/shim re-implements the API used (Montgomery fields, BLS12-377 with a working ate pairing, MSM, Bowe-Hopwood hash, canonical serialization with derive)", "lru: re-implementation with the published semantics", "OS entropy: seeded replacement of getrandom/rdrand", "allocator: counting wrapper with seeded contents of fresh memory"];
    if p.starts_with('P') { v.push("arkworks relations, r1cs-std, groth16: re-implemented; constraints are evaluated as they are generated, every allocated witness can be replaced by the simulator, in-circuit pairing and Blake2s are single opaque constraints, and Groth16 is the real verification equation with a known trapdoor, so that only a satisfied circuit of the right structure yields an acceptable proof"); v.push("network between prover, relayer and light client: simulated"); }
    if p == "C04" { v.push("OS scheduler: one thread runs at a time, chosen by the seeded scheduler at every futex call and at single instructions"); }
    if p == "R01" { v.push("disk and socket: simulated Read/Write objects"); }
    if matches!(p, "S01" | "S02" | "S03" | "S06" | "L01" | "E01" | "H02") { v.push("network, disks, clocks and the consensus protocol around the library: simulated"); }
    v.into_iter().map(String::from).collect()
}
pub fn assumptions(_p: &str) -> Vec<String> { ["the stand-in arithmetic agrees with arkworks on the API used here (checked against the repository's own fixed vectors where they exist, and against an independent reference in sim/src/refimpl.rs)", "hash collisions and discrete logarithms do not occur by chance", "search over seeds is sampling: an unexplored schedule or fault sequence may still violate the property"].iter().map(|s| s.to_string()).collect() }
