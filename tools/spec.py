#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, F, E, G = "crates/bls-crypto/src/", "crates/bls-snark-sys/src/", "crates/epoch-snark/src/", "crates/bls-gadgets/src/"
T = "deterministic simulation with fault injection (seeded search): "
P, NA = [], []
def prop(id, title, stmt, over, quant, why, files, mech, how, note, state=None, observe=None):
    d = dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=quant), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append((d, how, note))

prop("C01", "Incremental aggregate keys equal the sum of the requested keys",
 "Asking the public-key cache for the aggregate of a list of validator keys returns the sum of the distinct keys in that list, whatever lists were asked for before, however they overlap, and whatever decodes, failed decodes or cache clears happened in between. The empty list gives the identity, and an opposite, same-coordinate or identity key is an ordinary member.",
 ["histories", "inputs"], "every history of aggregate, decode and clear calls over validator sets that grow, shrink and are replaced",
 "the cache keeps a running sum and adds or subtracts differences; a wrong difference only shows after particular sequences of overlapping sets, and the repository's tests ask for a few fixed lists",
 [B+"bls/cache.rs", F+"cache.rs", F+"signatures.rs"], [("set difference applied to the stored sum", B+"bls/cache.rs aggregate"), ("hash and equality of keys", B+"bls/public.rs PartialEq, Hash")],
 T+"long histories of validator-set changes against a scalar set/sum model; also driven by the validator network and C programs",
 "real cache code in the simulated validator set; the model recomputes every sum from scratch; keys equal as points but held in different coordinates within one list are excluded (documented in DESIGN.md)",
 [("aggregated set and sum", "keys and their running sum from the previous call", B+"bls/cache.rs PublicKeyCache")], ["PublicKeyCache::aggregate", "aggregate_public_keys"])
prop("C02", "Cached key decoding is indistinguishable from decoding afresh",
 "Decoding public-key bytes through the cache succeeds exactly when decoding the same bytes without it succeeds and gives the same key, for well-formed, malformed, non-canonical and wrong-subgroup bytes. This holds on the first and every later attempt, after any history of decodes, failures, evictions and clears.",
 ["histories", "inputs"], "every byte string and every history of cache operations before it",
 "a cached entry outlives the validation that produced it; a bug needs a particular earlier decode, eviction or failure before the wrong answer appears",
 [B+"bls/cache.rs", B+"bls/public.rs", F+"serialization.rs", F+"cache.rs"], [("lookup keyed by the whole byte string, insertion only after validation", B+"bls/cache.rs deserialize_from_vec")],
 T+"decode histories with corrupted bytes against uncached decoding and the known key", "real cache and decoding; corrupted encodings of eleven kinds are repeated, interleaved with clears and evictions",
 [("decoded keys", "bytes to key, bounded", B+"bls/cache.rs keys")], ["PublicKeyCache::deserialize", "deserialize_public_key_cached"])
prop("C03", "The key cache is bounded and keeps the most recently used keys",
 "However many distinct public keys are decoded, the cache holds at most 512 of them; when full it gives up the least recently used, so any of the 512 most recently used keys is served without being decoded again. A decode that fails occupies no place, and clearing empties it.",
 ["histories"], "every history of decodes, repeats, failures and clears, of any length",
 "needs more than 512 distinct keys and a particular access order; unbounded growth or losing a hot key never changes a return value a unit test looks at",
 [B+"bls/cache.rs"], [("bounded recency map", B+"bls/cache.rs PUBLIC_KEY_CACHE_SIZE, LruCache")],
 T+"decode histories over 760 keys against a 512-entry recency list; retention is observed by counting the field square roots a decode performs and by live heap", "real cache code over a re-implemented lru crate; retention is observed through the arithmetic seam, not through private fields",
 [("decoded keys", "bytes to key, bounded", B+"bls/cache.rs keys")], ["PublicKeyCache::deserialize", "heap in use"])
prop("C04", "Concurrent callers of the C interface see sequential results",
 "When several threads call the C interface at once, from its very first use, every call returns what it would return if the calls had run one after another in some order: aggregates are those of the caller's own list, decoded keys are the caller's, verdicts are right. No call deadlocks, is lost, or leaves the shared state unusable.",
 ["schedules", "programs"], "every interleaving of any calls on any number of threads, including the lazy construction of shared tables",
 "a race needs a preemption at a particular instruction between two threads; ordinary tests are single-threaded and timing hides the window",
 [F+"cache.rs", F+"signatures.rs", F+"serialization.rs", F+"lib.rs", B+"bls/cache.rs", B+"hashers/composite.rs"], [("one lock held across a whole cache operation", F+"cache.rs PUBLIC_KEY_CACHE; signatures.rs aggregate_public_keys"), ("one-time construction of tables", B+"hashers/composite.rs lazy_static; lib.rs init")],
 T+"real threads under a seeded scheduler that preempts at futex calls, library seams and single instructions; results compared with each call's sequential meaning, state judged afterwards",
 "real C entry points and real std mutexes; one thread runs at a time; cold-start runs execute in a process that never touched the library's statics",
 [("process-wide key cache", "shared by all callers", F+"cache.rs")], ["return values and outputs of the exported functions"])
prop("F01", "C programs compute what scalar arithmetic says",
 "A program that generates, decodes, signs, aggregates, subtracts, compresses, hashes and verifies through the C interface gets exactly the keys, signatures, hashes, encodings and verdicts given by the scheme's definition, for every combination of hash mode flags and for every mix of valid and invalid items. Modes that are not supported are refused, not silently replaced.",
 ["programs", "inputs"], "every program over the exported functions with any handles, messages, extra data and mode flags",
 "the mode matrix and handle combinations are far larger than the fixed scripts in the tests, and no test exists for most exported functions",
 [F+"signatures.rs", F+"serialization.rs", F+"utils.rs", B+"bls/"], [("mode dispatch", F+"signatures.rs should_use_composite, should_use_cip22"), ("conversion between C buffers and library values", F+"utils.rs")],
 T+"generated C programs with hostile caller memory against a model that knows every secret scalar and an independent hash reference", "real C functions; the model never uses library code for its expectations", None, ["every exported function's status and outputs"])
prop("F02", "C callers own every output exactly once and failures write nothing",
 "Every object or buffer the C interface hands out is released completely by its destructor, exactly once and independently of every other handle; releasing a null handle is harmless. A call never modifies its inputs, never keeps memory it does not hand out, and a call that reports failure leaves the caller's outputs untouched.",
 ["programs", "fault_sequences"], "every program over the exported functions, every release order and every failing call in it",
 "ownership mistakes do not change return values; they need the allocator to be watched across whole programs including failing calls",
 [F+"serialization.rs", F+"signatures.rs", F+"snark/epoch_block.rs", F+"utils.rs"], [("boxed handles and shrunk vectors", F+"serialization.rs destroy_*, free_vec"), ("outputs written last", F+"signatures.rs, utils.rs convert_result_to_bool")],
 T+"generated C programs under a counting allocator with guard pages around caller memory and injected failing calls", "real C functions; live bytes and sizes of every handed-out block are checked after every call; verdict flags written by a call that reports a failed verification are part of its result", None, ["allocator counts", "caller buffers"])
prop("F03", "Malformed bytes are refused and never abort the process",
 "Given any bytes of any length where a key, signature, compressed point or epoch data is expected, the C interface reports failure or success by return value; it never panics, aborts, hangs or reads outside the buffer. It accepts exactly the bytes that encode a valid value.",
 ["inputs", "programs"], "every byte string and length given to every decoding, compressing, hashing or encoding function, at any point of a program",
 "a panic crossing the C boundary aborts the whole node, and depends on exact lengths and flag bits; the tests only give well-formed input",
 [F+"serialization.rs", F+"signatures.rs", F+"snark/epoch_block.rs", B+"bls/", B+"hashers/"], [("errors mapped to false", F+"utils.rs convert_result_to_bool"), ("length and range checks", F+"signatures.rs compress_signature, compress_pubkey")],
 T+"generated C programs whose buffers are truncated, extended, flagged, off-curve, out of range or in the wrong subgroup, placed against guard pages", "real C functions; any signal, panic or over-read ends the run as a violation; zero-length buffers with null pointers are included where callers produce them", None, ["status", "process survival"])
prop("F05", "Strict batch calls report each batch and their conjunction",
 "Verifying several batches in one C call reports, for each batch in order, whether every signature in it is valid for its key and the batch's message, and the overall answer is true exactly when every batch is. Batches with unpaired keys or signatures are never accepted, and one batch's verdict does not depend on the others or on their number.",
 ["inputs", "histories"], "every list of batches with valid, forged, swapped, compensating or missing entries, in every mode",
 "verdicts are produced in parallel and written to caller memory by position; only mixes of failing and passing batches in particular places expose a slip",
 [F+"signatures.rs", F+"utils.rs", B+"bls/batch.rs"], [("per-batch results in input order", F+"signatures.rs batch_verify_strict")],
 T+"generated lists of batches with injected forgeries against the known truth of each entry", "real C function and batch code", None, ["results array and status of batch_verify_strict"])
prop("S01", "A signature verifies exactly for its key, message, extra data and mode",
 "In a network of signers and verifiers a signature is accepted exactly when it is the one produced by that key over that message and extra data in that hashing mode and domain; honest signatures are accepted by every verifier, and nothing a Byzantine peer or a faulty link can substitute is. The verdict is the same through the library and the C interface.",
 ["histories", "fault_sequences", "inputs"], "every message history, corruption, replay, cross-epoch reuse and Byzantine substitution",
 "tests verify one honest and one wrong signature; acceptance of something else needs the particular substitution",
 [B+"bls/public.rs", B+"bls/secret.rs", B+"hash_to_curve/", B+"hashers/", F+"signatures.rs"], [("pairing equation", B+"bls/public.rs verify_sig"), ("domain and message framing", B+"hash_to_curve/")],
 T+"validator network with loss, duplication, reordering, corruption, partitions, crashes, torn disks and twelve Byzantine signing strategies; truth from the simulator's scalars", "real signing, hashing, verification and serialization on three kinds of client; consensus protocol and network are simulated", None, ["verify", "verify_signature", "sign", "sign_message"])
prop("S02", "Aggregation is independent of order, grouping and path",
 "Signatures or keys combined in any order, in any grouping, by any client, with repeats, opposites and identities, always give the sum; an aggregate over a set of signers verifies exactly under that set's aggregate key, also when that key is obtained by removing the absent signers from the full set. Nodes that record a seal for the same signers record the same seal.",
 ["histories", "fault_sequences", "inputs"], "every arrival order, grouping, signer set and crash history",
 "depends on arrival order, partial aggregates and mixed clients, which fixed tests do not vary",
 [B+"bls/public.rs", B+"bls/signature.rs", B+"bls/cache.rs", F+"signatures.rs"], [("point sums", B+"bls/public.rs aggregate, signature.rs aggregate"), ("subtraction of absent signers", F+"signatures.rs aggregate_public_keys_subtract")],
 T+"validator network where each node aggregates in arrival order under faults, plus generated multisets, against scalar sums", "real aggregation code on all clients", None, ["aggregate functions", "seals recorded by nodes"])
prop("S03", "A multi-message batch is accepted exactly when its equation holds",
 "Verifying an aggregate over several (key, message) pairs succeeds exactly when the aggregate is the sum of the signatures each key would produce on its own message, through the library and the C interface. Exchanged, replaced, missing, repeated or cross-domain entries are refused unless they leave that sum unchanged, and differing counts of keys and messages are always refused.",
 ["inputs", "histories", "fault_sequences"], "every list of pairs and every tampering of them, including catch-up histories served by a Byzantine peer",
 "the tests use one list in order; a pairing of the wrong key with a message needs particular exchanges to show",
 [B+"bls/signature.rs", F+"signatures.rs", F+"utils.rs"], [("product of pairings over zipped lists", B+"bls/signature.rs batch_verify_hashes"), ("length checks", B+"bls/signature.rs batch_verify")],
 T+"catch-up of restarted nodes in the validator network and adversarially assembled batches of sixteen kinds against the scalar equation", "real batch verification on library, precomputed-hash and C paths", None, ["batch_verify", "batch_verify_hashes", "batch_verify_signature"])
prop("S04", "Strict batch verification cannot be fooled by an adaptive forger",
 "Strict verification of many signatures on one message accepts only if every single signature is valid for its own key, even against a forger who has seen the outcome and randomness of all earlier calls, who makes errors that cancel each other, and who drives many calls on many threads. It accepts every batch of valid signatures, and the weights it draws are fresh, full-length and unpredictable.",
 ["inputs", "histories"], "every batch content chosen with full knowledge of everything before the call",
 "a batch with invalid signatures that cancel is accepted only under weak or repeated weights, which no fixed test provokes",
 [B+"bls/batch.rs", B+"bls/public.rs", B+"bls/signature.rs", F+"signatures.rs"], [("random 128-bit weights", B+"bls/batch.rs verify"), ("length agreement", B+"bls/public.rs batch, signature.rs batch")],
 T+"adaptive forger who observes the weights of earlier calls through the arithmetic seam and injects errors cancelling under predicted weights; entropy source seeded", "real batch code; weight quality is judged on the drawn values across calls and threads (distinct, not related, at least 120 bits of spread)", None, ["Batch::verify", "batch_verify_strict"])
prop("S05", "Per-entry batch verification equals verifying each entry",
 "Verifying every entry of a batch separately succeeds exactly when each (key, signature) pair in it is valid for the batch's message and extra data. Errors that cancel in a sum, valid signatures in the wrong places and a single bad entry anywhere are all refused.",
 ["inputs", "histories"], "every batch with any mix and position of invalid entries, in every hashing mode",
 "only mixes with one bad entry in a particular place, or cancelling errors, distinguish it from a sum check",
 [B+"bls/batch.rs"], [("independent verification of each pair", B+"bls/batch.rs verify_each")],
 T+"batches with injected forgeries, swaps and cancelling errors in seeded positions against the truth of each entry", "real batch code", None, ["Batch::verify_each"])
prop("S06", "Proofs of possession and signatures never stand in for each other",
 "A proof of possession is accepted exactly when it was made by the registered key over the registered message in the possession domain; rogue keys built from other validators' keys cannot be registered. A message signature is never a proof of possession and a proof of possession is never a message signature.",
 ["inputs", "histories"], "every registration attempt by honest and dishonest validators",
 "separation depends on domain bytes and hash choice that the tests exercise in one combination",
 [B+"bls/public.rs", B+"bls/secret.rs", B+"lib.rs", F+"signatures.rs"], [("separate hashing domains", B+"lib.rs SIG_DOMAIN, POP_DOMAIN; bls/secret.rs sign_pop; bls/public.rs verify_pop")],
 T+"registrations in the validator network with nine kinds of dishonest proof against the scalar truth", "real sign_pop and verify_pop on both clients", None, ["verify_pop", "sign_pop"])
prop("H01", "Hashing to the curve is total, exact and honest about failure",
 "For any underlying hash behaviour, hashing a message to the curve uses the first attempt whose candidate is a valid point and is not removed by clearing the cofactor, reports that attempt, tries every attempt it promises, and passes on any failure of the underlying hash as an error. The shipped hash functions give the specified bytes for every input and refuse messages and domains beyond their limits with an error instead of aborting.",
 ["inputs", "fault_sequences"], "every message, domain and extra data, and every sequence of failures and candidates from the underlying hash",
 "rejected candidates, small-order points and hash failures occur with tiny or zero probability with real hashes; only an injected hash can produce them",
 [B+"hash_to_curve/try_and_increment.rs", B+"hash_to_curve/try_and_increment_cip22.rs", B+"hash_to_curve/mod.rs", B+"hashers/"], [("attempt loop", B+"hash_to_curve/"), ("errors propagated", B+"hash_to_curve/ hash"), ("length limits", B+"hashers/")],
 T+"a scripted hash function behind the existing hasher trait returns chosen candidates and failures per call; shipped hashers are compared with an independent implementation", "real loops and hashers; Bowe-Hopwood windows come from the stand-in but its reference is computed independently", None, ["hash, hash_with_attempt, hash_with_attempt_cip22", "crh, xof, hash of the hashers"])
prop("H02", "All parties hash a message to the same point",
 "The library, the C interface and an independent implementation map the same message, extra data and mode to the same curve point, so all nodes of a network sign and verify the same thing for every epoch header. The attempt number reported with a hash reproduces it.",
 ["inputs", "histories"], "every message, extra data, header and mode",
 "agreement with an independent implementation on arbitrary input is not testable with stored vectors of one implementation",
 [B+"hash_to_curve/", B+"hashers/", E+"epoch_block.rs", F+"signatures.rs"], [("attempt framing and masking", B+"hash_to_curve/"), ("header hashing", E+"epoch_block.rs hash_to_g1_cip22")],
 T+"every client of the simulated network hashes and signs each header; compared with the reference", "real hashing on two clients, independent reference on the third", None, ["sign", "hash_to_g1_cip22", "hash_composite_cip22"])
prop("R01", "Keys and signatures survive faulty byte streams exactly or fail",
 "Writing a key or signature to a stream and reading it back gives the same value, in compressed and uncompressed form, whatever the stream's transfer sizes and interruptions; the declared size is the number of bytes written and reading consumes exactly that many. A stream that fails or ends early yields an error, never a value.",
 ["fault_sequences", "inputs"], "every value and every pattern of short transfers, interruptions, errors and ends of the stream",
 "tests use in-memory vectors, which never transfer short, fail or end in the middle",
 [B+"bls/public.rs", B+"bls/secret.rs", B+"bls/signature.rs", B+"bls/mod.rs"], [("stream serialization", B+"bls/ CanonicalSerialize, CanonicalDeserialize, ToBytes, FromBytes")],
 T+"simulated disks and sockets with short, interrupted, failing and full transfers at seeded offsets", "real serialization code of the library types; point encoding itself is the stand-in's", None, ["serialize*, deserialize*, write, read"])
prop("E01", "Epoch headers have one encoding, and every field is part of it",
 "Every client encodes the same epoch header to the same bytes, as specified for each header version, and so does an independent implementation; the epoch hash input likewise. Two headers that differ in any signed field never have the same signed encoding; an absent entropy counts as zero entropy, and filling a short set up with the padding key counts as the same set.",
 ["inputs", "histories"], "every header: index, round, optional entropy and parent entropy, thresholds, maximum and actual validators",
 "unit vectors fix a few headers; a lost, swapped or misplaced bit depends on field values, key signs and padding",
 [E+"encoding.rs", E+"epoch_block.rs", G+"utils.rs", F+"snark/epoch_block.rs"], [("bit-level encoding", E+"encoding.rs"), ("header assembly and padding", E+"epoch_block.rs")],
 T+"headers of the simulated chain and tampered variants through every client and encoding against an independent bit-level reference", "real encoders on two clients", None, ["encode_* of epoch blocks", "encode_epoch_block_to_bytes*"])
prop("E02", "Epoch data crosses the C boundary unchanged or is refused",
 "Epoch headers described in C memory, with any presence of entropy fields and any number of keys, are encoded exactly as the same header built in the library; keys packed for transport are recovered in order. Corrupt key lists and lists that do not fit the stated maximum are refused without effect.",
 ["inputs", "programs"], "every header and key list in C memory, well-formed or not",
 "pointer and length handling is exercised by no test at all",
 [F+"snark/epoch_block.rs", E+"epoch_block.rs", F+"utils.rs"], [("reading of C structures", F+"snark/epoch_block.rs"), ("fixed-size key records", F+"snark/mod.rs, epoch_block.rs")],
 T+"C programs with headers in guarded memory, absent entropy, corrupt and padded key lists, against the reference encoding", "real C functions; the proof-verification entry point itself is not part of this property", None, ["encode_epoch_block_to_bytes*", "read of EpochBlockFFI"])
prop("L01", "Validators keep sealing epochs once faults stop",
 "In a network of validators built on the library, once message loss, partitions, crashes and corruption stop and at most a third of the signers are Byzantine, every honest node seals every epoch within a bounded time. No history of faults leaves a cache, a decoder or a verifier in a state that keeps refusing honest input.",
 ["fault_sequences", "schedules", "histories"], "every history of faults followed by a fault-free period",
 "poisoned state shows only as refusal of later honest messages after a particular history",
 [B+"bls/", F+"signatures.rs", F+"cache.rs", E+"epoch_block.rs"], [("failed operations leave no trace", B+"bls/cache.rs, batch.rs"), ("errors returned as values", F+"utils.rs")],
 T+"validator network with faults up to a fixed instant, progress required within a fixed number of ticks afterwards", "real library code on two client kinds, reference on the third; the consensus protocol is the simulator's", None, ["epochs sealed per node"])

EG = E+"gadgets/"
prop("P01", "The epoch circuit is satisfied exactly by true epoch chains",
 "A chain of epoch updates and the claim about its first and last epoch satisfy the circuit exactly when every non-dummy epoch was signed by more than the permitted share of the preceding epoch's validators, its index and parent entropy continue the preceding epoch, and the claim names the real first and last epochs. Dummy updates are the only epochs that may be skipped, and the circuit's public inputs are the very field elements the verifier computes from the two epochs.",
 ["histories", "inputs"], "every chain of epochs, validator sets, signer sets, thresholds, entropies and dummy positions within the circuit's capacity, true or false in any single or combined respect",
 "the repository's circuit tests need hours of proving and use one or two chains; a missing constraint, an over-constraint or a mismatch with the verifier's inputs only shows on particular chains",
 [EG, G, E+"api/prover.rs", E+"encoding.rs", E+"epoch_block.rs"], [("chain of updates", EG+"epochs.rs ValidatorSetUpdate, enforce"), ("per-epoch constraints", EG+"single_update.rs constrain"), ("epoch encoding and its hash", EG+"epoch_data.rs, epoch_bits.rs"), ("signature and quorum gadgets", G+"bls.rs, bitmap.rs"), ("public inputs", EG+"epoch_bits.rs, "+E+"api/verifier.rs pack_data")],
 T+"a simulated chain of validator sets with honest and Byzantine epochs (missed quorum, lying bitmaps, altered headers, index gaps, foreign entropy, shuffled or dummy epochs) is turned into updates by the real code; the truth of the statement comes from the simulator's scalars and an independent encoding", "real circuits on an evaluating constraint system; constraint-system, in-circuit pairing and Blake2s stand-ins are described in DESIGN.md; hash-helper mode included", None, ["generate_constraints, is_satisfied, public inputs"])
prop("P02", "No prover can make the epoch circuit accept an unsigned chain",
 "A prover who chooses every witness freely, not only the ones the library would compute, cannot satisfy the epoch circuit for a pair of first and last epochs unless each epoch in between is really signed by a quorum of the one before. In particular no substituted bit, byte, field element or curve point lets it pass an epoch with another validator set, index, threshold or entropy than the signed one.",
 ["fault_sequences", "histories"], "every substitution of allocated witnesses while a true or false chain is being proven",
 "honest witness generation never exercises an under-constrained value; only a prover that deviates at a particular allocation does",
 [EG, G], [("constraints tie every witness to the signed bits", EG+"epoch_data.rs, single_update.rs, epochs.rs"), ("boolean, range, sign and sum constraints", G+"bitmap.rs, y_to_bit.rs, hash_to_group.rs, bls.rs")],
 T+"a Byzantine prover replaces witnesses at seeded allocation points (single, paired and compensating replacements, stale copies, alternative point representations) and the constraint system is evaluated; an accepted claim is compared with the simulator's truth", "real circuits; witness seam is in the constraint-system stand-in; the known under-constrained places are listed in known-findings.txt and reported as KNOWN-FINDING", None, ["is_satisfied under substituted witnesses", "public inputs"])
prop("P03", "Proofs verify exactly for the epochs they were made for",
 "A proof produced from genuine epoch updates, padded to any supported number of transitions and with or without the hash helper, is accepted by the verifier for exactly the first and last epoch it was made for. Altered, exchanged, recombined or corrupted proofs, other epochs, and another setup's keys are refused, and proving an untrue chain yields no acceptable proof.",
 ["histories", "fault_sequences", "inputs"], "every chain, padding, setup size, helper use and every alteration of proof, epochs or keys between prover and light client",
 "the end-to-end test proves one fixed chain; padding, circuit shape differences between setup and proving, and verifier-side encodings need varied chains",
 [E+"api/", EG, G], [("setup and circuit of equal shape", E+"api/setup.rs, "+E+"api/prover.rs"), ("padding with dummy updates", E+"api/prover.rs prove"), ("public input packing and verification", E+"api/verifier.rs")],
 T+"simulated provers, light clients and a lossy, corrupting, recombining channel between them, against the truth of the chain", "real prove, trusted_setup and verify; Groth16 is replaced by its verification equation with a known trapdoor that yields an acceptable proof only for a satisfied circuit of the set-up structure", None, ["prove", "verify", "trusted_setup"])
prop("P04", "The C light-client entry point decides exactly what the library verifier decides",
 "A C light client that hands the verifying key, proof and the first and last epoch in memory gets true exactly when the library accepts that proof for those epochs. Damaged, truncated or empty keys, proofs or public keys and other epochs give false; nothing it is given aborts the process, is modified, or is kept; a genuine production proof is accepted.",
 ["inputs", "programs", "fault_sequences"], "every proof, key and pair of epoch structures in C memory, damaged or not",
 "the single C-level test holds one valid proof; damaged or recombined data and other epochs are not tried",
 [F+"snark/mod.rs", F+"snark/epoch_block.rs", F+"utils.rs", E+"api/verifier.rs"], [("decoding of proof, key and epochs", F+"snark/mod.rs verify"), ("conversion of C epochs", F+"snark/epoch_block.rs")],
 T+"simulated light clients in C memory receive proofs and epochs over a corrupting, truncating and recombining channel; also the repository's genuine proof, key and epochs with seeded damage", "real exported verify function; proof system as in P03, and the real pairing check for the genuine proof", None, ["verify (C)"])
prop("P05", "Each gadget computes the native function and admits no other result",
 "Every constraint gadget (bitmap quorum, aggregate key, batch and single signature verification, hash to bits and to group, sign bits, zero test) and the bit conversions under them give the result of the native definition on the same input, and each gadget is satisfiable exactly when the native check passes. No substitution of its witnesses makes it accept another result, and its constraints do not depend on the values.",
 ["inputs", "fault_sequences"], "every input of each gadget and every substitution of its witnesses",
 "unit tests give each gadget a few inputs and only honest witnesses",
 [G, EG, B+"hash_to_curve/"], [("quorum", G+"bitmap.rs enforce_maximum_occurrences_in_bitmap"), ("signature equations", G+"bls.rs"), ("hash to bits and to group", G+"hash_to_group.rs"), ("sign and range decisions", G+"y_to_bit.rs"), ("bit and byte conversions", G+"utils.rs")],
 T+"each gadget is run on seeded inputs with honest, boundary and Byzantine witnesses on the evaluating constraint system and compared with the native function and with scalars", "real gadgets; constraint-system layer is a stand-in; two known findings", None, ["gadget outputs and satisfaction"])

def na(id, title, stmt, over, quant, why, files, mech, reason):
    d = dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=quant), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    NA.append((d, reason))
exec(open(os.path.join(root, "tools", "spec_more.py")).read()) if os.path.exists(os.path.join(root, "tools", "spec_more.py")) else None

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for d in [p[0] for p in P] + [n[0] for n in NA]: f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="none: no hooks were needed in /repo (existing traits, generic parameters and link-time seams are used)", enable="checks build /repo's sources through the mirror manifests in /verif/mirror", source_commits=[]),
 checks=[dict(property=d["id"], quick_cmd=f"./check.sh {d['id']} quick", thorough_cmd=f"./check.sh {d['id']} thorough", evidence_file=f"evidence/{d['id']}.json", technique=how, level="exploration", level_note=note) for d, how, note in P],
 not_applicable=[dict(property=d["id"], reason=r) for d, r in NA],
 notes="the simulator sim/ decides every property; it is built twice: target/release/sim (library and C interface) and, for P01-P05, target/release/simsnark (whole workspace); replay a violation with target/release/sim replay FILE (simsnark for P01-P05)")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
