#!/usr/bin/env python3
"""writes /verif/properties.jsonl (kept as code so that the records stay uniform)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    r = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": ["src/" + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or [], "hook_needed": None}}
    assert len(title) <= 80, (id, len(title))
    P.append(r)

p("C01", "Messages split into chunks and rejoined without loss",
  "For every field element and each supported chunk size (4, 8, 16 bits), splitting gives the canonical big-endian digits, each below 2^size, and joining them gives back exactly that element; joining any sequence of in-range digits of at most the full width gives their positional value modulo the field order. Every other chunk size is refused with an error by both directions, an odd number of 4-bit digits is refused, and the advertised number of chunks is the smallest number that covers the field's bit length.",
  ["inputs"], "all 2^255 messages, all digit sequences of the listed lengths, all 256 chunk sizes", "the tests decompose a handful of random messages; edge digits, leading zeros and every unsupported size are not reached", ["utils.rs"],
  [("bit slicing of canonical bytes", "utils::decompose"), ("byte reassembly", "utils::compose"), ("ceiling division", "utils::chunks_count")])
p("C02", "Single-authority keys satisfy every relation between their parts",
  "For all generators and all randomness, the key generator returns secret, encryption and decryption keys whose elements satisfy the scheme's relations: the first element is the given delta, each remaining pair is tied together through the pairing, the two summary elements equal the prescribed combinations over all chunks, and the decryption key matches the same secrets. Each key has exactly one entry per chunk (plus one for the verification part), and too few generators give an error.",
  ["inputs", "configurations"], "all values of generators, trapdoors and randomness; the listed chunk counts; every number of generators up to the needed one for the refusal", "tests check the relations for one random key per chunk size", ["keygen.rs", "utils.rs"],
  [("key generation", "keygen::keygen"), ("fixed base multiplication", "utils::multiply_field_elems_with_same_group_elem")])
p("C03", "Distributed key generation gives the key of the combined secrets",
  "For any number of parties within the bound, running partial key generation, combination, sharing of the summary element and finalisation yields an encryption key that is exactly the one a single authority would hold for the sums of all parties' secrets, in every pairing relation. Combining in any order of the parties gives the same key. Combination is the element-wise sum of arbitrary inputs of equal shape, with the shared gamma element added exactly once.",
  ["inputs", "configurations", "histories"], "all secrets of all parties, 1 to 8 parties, listed chunk counts, permutations of the parties", "tests run two parties with random secrets", ["keygen.rs"],
  [("partial keys", "keygen::FkeygenPartial"), ("combination", "keygen::combineEKs"), ("summary element", "keygen::{genP1share, combineP1share, keygenFinal}")])
p("C04", "Ciphertexts have the prescribed form for every key, chunk and randomness",
  "For every key, every chunk vector and the drawn randomness r, encryption returns r times the key's first element, for each chunk r times its key element plus the chunk times its generator in order, and a commitment equal to the chunk-weighted commitment elements plus r times the summary element; the returned randomness is the one used. Encrypting a whole message encrypts its digits in big-endian order. A chunk vector whose length differs from the key's, a malformed key, or too few generators is refused with an error.",
  ["inputs", "configurations"], "all key elements, generators and randomness, symbolic chunks, 0 to 255 chunks", "tests only see that decryption inverts encryption for random messages", ["encryption.rs"],
  [("encryption", "encryption::Encryption::encrypt_decomposed_message"), ("message splitting", "encryption::Encryption::encrypt")])
p("C05", "Decryption returns exactly the encrypted message",
  "For every honest key, randomness and chunk value below 2^size, decrypting a ciphertext returns exactly the encrypted chunks (including all-zero and all-ones chunks at any position) and the commitment to the randomness equal to the secret key times the first ciphertext element. All decryption entry points, with or without precomputed pairing powers, with bases given directly or through the verification key, give the same result.",
  ["inputs", "configurations"], "all keys and randomness; chunk values symbolic over their range at the listed positions", "tests decrypt random messages; boundary chunks at each position and each entry point are sampled at best", ["encryption.rs", "keygen.rs"],
  [("pairing-based unmasking", "encryption::Encryption::decrypt_to_chunks_given_pairing_powers"), ("discrete log search", "encryption::Encryption::solve_discrete_log*"), ("entry points", "encryption::Ciphertext")])
p("C06", "Decryption never returns a value the ciphertext does not contain",
  "For arbitrary ciphertexts, keys and generators, whenever decryption returns chunks each one is in range and satisfies the defining pairing equation, and when no value in range satisfies it decryption returns an error instead. Decryption with correctly precomputed power tables agrees with decryption without them, the precomputed tables are the consecutive powers for every chunk, and missing or too short tables, missing generators and mismatched key or ciphertext lengths give an error, never a panic or a wrong value.",
  ["inputs", "configurations"], "arbitrary (adversarial) ciphertext, key and base elements, chunk ranges up to 2^5, listed lengths and table shapes", "tests decrypt honest ciphertexts only", ["encryption.rs", "keygen.rs"],
  [("bounded discrete log", "encryption::Encryption::solve_discrete_log*"), ("power tables", "keygen::PreparedDecryptionKey::pairing_powers")])
p("C07", "Ciphertext commitments are accepted exactly when they open to the chunks",
  "For arbitrary ciphertexts, keys and generators, commitment verification accepts exactly when the product of the pairings of the ciphertext elements with the key's verification elements equals the pairing of the commitment with H. Honest ciphertexts under honest single-authority or distributed keys are always accepted, changing any single element by a non-zero amount makes them rejected, and a ciphertext with the wrong number of chunks is refused with an error.",
  ["inputs", "configurations"], "arbitrary group elements; 0 to 128 chunks", "tests verify honest ciphertexts; rejection is not tested at all", ["encryption.rs"],
  [("pairing product check", "encryption::Encryption::verify_ciphertext_commitment")])
p("C08", "Batch verification checks the weighted combination of all commitments",
  "For a non-empty batch of arbitrary ciphertexts with one weight each, batch verification accepts exactly when the weighted sum of the individual verification equations holds, so honest batches are always accepted for all weights, and tampering with one element of one ciphertext with non-zero weight is rejected. Any ciphertext of the batch with the wrong number of chunks makes it refuse the batch with an error.",
  ["inputs", "configurations"], "arbitrary elements and weights; 1 to 8 ciphertexts, 1 to 16 chunks", "tests batch-verify a few honest ciphertexts", ["encryption.rs"],
  [("weighted sums", "encryption::Encryption::get_g1_for_ciphertext_commitments_in_batch_pairing_checks"), ("check", "encryption::Encryption::verify_commitments_in_batch")])
p("C09", "Proofs are accepted exactly when they match this ciphertext and key",
  "For arbitrary proofs, verification keys and ciphertexts, proof verification accepts exactly when the verification equation over the proof, the key and the sum of the first ciphertext element, all chunk elements and the constant element holds; the combined check accepts exactly when both the commitment and the proof are accepted. An honest proof for an honest ciphertext with in-range chunks is always accepted, and it is rejected for a ciphertext changed in any one of these elements, for an altered proof, or when made with randomness that differs from the encryption's.",
  ["inputs", "configurations"], "arbitrary group elements for the equivalence; all trapdoors (except the QAP point, fixed), keys, randomness, symbolic chunks for the honest part", "tests verify honest proofs for random messages only", ["saver_groth16.rs", "encryption.rs", "circuit.rs"],
  [("equation", "saver_groth16::{verify_proof, calculate_d, verify_qap_proof}"), ("linking", "saver_groth16::create_proof"), ("combined", "encryption::Ciphertext::verify_commitment_and_proof")])
p("C10", "The range circuit accepts exactly the values that fit the chunk size",
  "For every chunk size and number of values checked, the constraint system generated by the circuit can be satisfied with a given value if and only if the value is below 2^size, for every value position and every element of the 255-bit field. Generating the constraints for key setup (no values) and for proving (with values) yields the same constraint system, with the values as the first public inputs in order.",
  ["inputs", "configurations"], "all field elements for each value, all witness assignments; listed chunk sizes and value counts", "tests only prove honest in-range values; a missing upper-bit constraint would not be noticed", ["circuit.rs"],
  [("bit decomposition and OR", "circuit::BitsizeCheckCircuit::generate_constraints")])
p("C11", "Adding ciphertexts adds the encrypted chunks",
  "For arbitrary element vectors of equal length, addition of ciphertexts is the element-wise group sum in every position, so it is commutative and associative. For honest ciphertexts under one key, the sum passes commitment verification and decrypts to the chunk-wise integer sums whenever these are in range.",
  ["inputs", "histories", "configurations"], "arbitrary elements of listed lengths; all keys, randomness, symbolic chunks; sums of 2 to 5 ciphertexts", "tests add two ciphertexts of fixed messages", ["encryption.rs"],
  [("element-wise addition", "encryption::Encryption::add_cts")])
p("C12", "Re-encryption by all parties lets the destination decrypt, for any N",
  "For every number of parties within the bound, all secrets, all randomness and every destination key, combining every party's re-encryption share with a ciphertext under the joint key, in any grouping, produces a ciphertext of the same chunks under the destination key, and destination decryption returns exactly the chunks. Each share is the negated secret multiple of the first ciphertext element plus the destination key times fresh randomness whose multiple of G is returned with it.",
  ["inputs", "configurations", "histories"], "all secrets and randomness; 1 to 8 parties, listed chunk counts, chunk ranges symbolic", "tests run two parties on random messages", ["encryption.rs", "keygen.rs"],
  [("shares", "encryption::Encryption::re_encrypt_share"), ("combination", "encryption::Encryption::{combine_re_encrypt_share, combine_ct_with_w}"), ("destination", "encryption::Encryption::decrypt_to_chunks_after_re_encryption")])
p("C13", "Leaving out a party's share leaves every chunk masked",
  "If the share of any one party is missing from the combination, every chunk of the result is off from the correct re-encryption by that party's secret times the first ciphertext element, for that chunk and party. The error is not identically zero for any chunk, and differs between chunks and between parties.",
  ["inputs", "histories", "configurations"], "all secrets and randomness; 2 to 5 parties, every choice of the missing party", "no test leaves a share out", ["encryption.rs", "keygen.rs"],
  [("per-chunk secrets", "keygen::FkeygenPartial"), ("shares", "encryption::Encryption::re_encrypt_share")])
p("C14", "Destination decryption is exact or fails",
  "For arbitrary ciphertext elements, secrets and generators, whenever destination decryption returns chunks, each one is in range and its generator multiple equals the unmasked element; when no value in range does, it returns an error. Too few generators give an error, never a panic or a shorter result.",
  ["inputs", "configurations"], "arbitrary (adversarial) elements; chunk ranges up to 2^5, 1 to 3 chunks", "tests decrypt honest re-encryptions only", ["encryption.rs"],
  [("bounded discrete log", "encryption::Encryption::{decrypt_to_chunks_after_re_encryption, solve_discrete_log_for_g}")])
p("C15", "Chunked commitments open to the message, with position-weighted keys",
  "For every message, blinding and pair of generators, the commitment to the digits equals message times G plus blinding times H, and the commitment key consists of the multiples of G by the descending powers of 2^size, one per chunk, followed by H. Committing with that key gives the same commitment, a key of any other length is refused with an error, and unsupported chunk sizes are refused.",
  ["inputs", "configurations"], "all blindings and generators, symbolic digits at the listed positions (every position covered), keys of every length up to the needed one plus two", "tests check the key for a few sizes and commit to random messages", ["commitment.rs"],
  [("commitment", "commitment::ChunkedCommitment::{new, get_commitment_given_commitment_key}"), ("key", "commitment::ChunkedCommitment::commitment_key")])
p("C16", "SNARK set-up and encryption keys belong together",
  "For all generators and trapdoors, the generated SRS's shared elements satisfy: delta in both groups is the same multiple of G and H, the gamma element used by encryption keys is the negation of the verification key's gamma, beta agrees in both groups, and there is exactly one base per value after the constant one. The joint set-up returns keys built on exactly these bases and elements, with one entry per chunk, so that the key's linking element cancels the ciphertext's masks in the verification equation.",
  ["inputs", "configurations"], "all generators, trapdoors (QAP point fixed) and key secrets; listed chunk sizes", "tests check that set-up returns without error and that honest proofs verify for one random set-up", ["saver_groth16.rs", "setup.rs", "keygen.rs"],
  [("SRS", "saver_groth16::generate_srs"), ("set-up", "setup::setup_for_groth16"), ("bases", "saver_groth16::get_gs_for_encryption")])
p("C17", "Every key, ciphertext and commitment survives serialization unchanged",
  "For all element values and the listed lengths, serializing and deserializing an encryption key, decryption key, partial key, share, secret key, destination key, ciphertext, commitment, generators, proving key or window table gives back an equal value, in the compact, the uncompressed and the JSON form. Truncated input is refused with an error, and an element that fails group validation is refused by validating deserialization.",
  ["inputs", "configurations"], "arbitrary element values, vector lengths 0 to 9, every truncation point for the listed shapes, any one element invalid", "tests serialize one random instance of some types", ["serde_utils.rs", "keygen.rs", "encryption.rs", "setup.rs", "commitment.rs", "utils.rs", "saver_groth16.rs"],
  [("derived canonical serialization", "struct definitions"), ("serde adapter", "serde_utils::AsCanonical")])
p("C18", "Generators derived from a label are a fixed function of label and role",
  "Generators and scalars derived from bytes are deterministic: the first hash output that decodes, trying the bytes themselves and then the bytes followed by \"-attempt-\" and an 8-byte little-endian counter from 1, multiplied by the cofactor for group elements. The generator pairs use the label followed by \" : G\" and \" : H\", whatever the label and however many attempts are needed, so that different roles and labels use different hash inputs.",
  ["inputs", "fault_sequences"], "all outcomes of decoding hash outputs (as an uninterpreted function) for up to the stated number of attempts; listed labels including empty, binary and ones that really need many attempts", "tests use one label whose decoding succeeds early, and compare only equal with equal", ["utils.rs", "setup.rs"],
  [("try and increment", "utils::{projective_group_elem_from_try_and_incr, field_elem_from_try_and_incr}"), ("roles", "setup::{EncryptionGens, ChunkedCommitmentGens}")])
p("C19", "Window-table multiplication equals scalar multiplication",
  "For every group element and scalars, multiplying through a precomputed table built for any expected number of multiplications gives exactly scalar times element, for a single scalar and for each of many scalars in order, in both source groups. The number given when building the table affects only cost.",
  ["inputs", "configurations"], "all group elements and scalars; tables built for 0 to 1000 multiplications, 0 to 256 scalars", "tests reach it only through key generation", ["utils.rs"],
  [("window table", "utils::WindowTable"), ("helper", "utils::multiply_field_elems_with_same_group_elem")])
p("C20", "Only consistently shaped keys are accepted, and their size is reported exactly",
  "An encryption or decryption key, prepared or not, reports its number of chunks exactly when its vectors have consistent lengths, and that number is the true one; keys with inconsistent lengths or more chunks than can be represented are refused with an error by reporting and validation alike. Preparing a key keeps every element, so prepared and unprepared keys give the same results, and an encryption key's commitment key is its commitment elements followed by the summary element.",
  ["inputs", "configurations"], "every combination of vector lengths up to 6 and the listed lengths around 255, 256, 512; arbitrary elements", "tests build only well-formed keys", ["keygen.rs"],
  [("shape checks", "keygen::{EncryptionKey, DecryptionKey, Prepared*}::{supported_chunks_count, validate}"), ("preparation", "keygen::From impls")])
p("C21", "Vectors of different lengths are refused when combining ciphertexts",
  "Adding ciphertexts, producing a re-encryption share, combining two shares and combining shares with a ciphertext return an error whenever the vectors they combine differ in length, and succeed whenever they agree. They never panic, truncate or pad.",
  ["inputs", "configurations"], "every pair of lengths up to the bound, arbitrary elements", "tests use equal lengths only", ["encryption.rs"],
  [("length checks", "encryption::Encryption::{add_cts, re_encrypt_share, combine_re_encrypt_share, combine_ct_with_w}")])
p("C22", "Every operation draws fresh, independent randomness from the caller's source",
  "Each secret of a generated key, the randomness of every encryption and every re-encryption share, the blinding of every proof and the randomly created generators are drawn from the random source passed in over their whole range, are pairwise independent, and are not reused, nor derived from one another, within a call or between two. No known relation holds between them: two encryptions, two shares, two proofs or two keys made from the same source are independent.",
  ["inputs", "histories"], "two or three successive calls on one symbolic random source, all outcomes of the draws, all known linear relations", "tests cannot distinguish reused from fresh randomness as everything still decrypts", ["keygen.rs", "encryption.rs", "saver_groth16.rs", "setup.rs"],
  [("draws", "keygen::{keygen, FkeygenPartial, Fkeygen_dest}, encryption::Encryption::{encrypt_decomposed_message, re_encrypt_share}, saver_groth16::create_proof")])
p("C23", "The distributed pipeline delivers exactly the sum of verified contributions",
  "For any number of parties and contributions within the bound, set-up, distributed key generation, encryption with proof, verification, addition of all ciphertexts, re-encryption by all parties and decryption by the destination fit together: every honest contribution verifies, the aggregate passes commitment verification, and the destination obtains in every chunk exactly the sum of the contributed chunks whenever it is in range.",
  ["inputs", "configurations", "histories"], "all trapdoors (QAP point fixed), secrets, randomness and one symbolic chunk per contribution; 1 to 5 parties, 1 to 4 contributions", "one end-to-end test with two parties and two fixed messages", ["tests.rs", "encryption.rs", "keygen.rs", "saver_groth16.rs", "setup.rs"],
  [("whole protocol", "keygen, encryption, saver_groth16")])
p("C24", "Parallel and sequential builds compute the same results",
  "With the parallel feature on or off, and in whatever order the parallel tasks run and however the work is split among threads, every operation returns the same result for the same inputs and the same random draws.",
  ["schedules", "configurations"], "both builds; orders of the parallel tasks and ways of splitting the work; all inputs and draws", "tests run whatever schedule happens and never compare the two builds", ["utils.rs", "keygen.rs", "encryption.rs"],
  [("order-preserving parallel maps", "cfg_iter! / cfg_into_iter!")])

p("C25", "Entry points that promise the same operation agree on every input",
  "Every way of decrypting (chunks and composition, with prepared or unprepared key, given bases or a verification key, with or without precomputed pairing powers, function or method) gives the same message and nu or fails with the same kind of error, on arbitrary inputs of any shape. So do the ways of encrypting, with the same random draws: encrypt, through a verification key, by digits, and with proof (which equals encrypt then create_proof). Likewise verifying a commitment by function, method, prepared key, batch of one with non-zero weight or the exported pairing elements; a batch and the weighted sum of its ciphertexts; a proof whole and in parts; commitments with a made or given key; set-up at once and in two steps.",
  ["inputs", "configurations"], "arbitrary (adversarial) elements, secrets and draws; listed shapes including mismatched ones", "tests call a few entry points on honest inputs and never compare their failures", ["encryption.rs", "keygen.rs", "saver_groth16.rs", "commitment.rs", "setup.rs", "utils.rs"],
  [("decryption variants", "encryption::{Encryption, Ciphertext}::decrypt*"), ("encryption variants", "encryption::Encryption::encrypt*"), ("verification variants", "encryption::{Encryption, Ciphertext}::verify_*, saver_groth16::verify_*")])
p("C26", "A dropped secret key leaves no trace of the secret",
  "For every secret, when a secret key is dropped, whether created, cloned, generated, or deserialized, the memory it occupied holds zero in place of the scalar, and dropping a copy leaves other copies intact.",
  ["inputs", "histories"], "all secret values; keys made directly, by generation, for a destination, by deserialization, and their copies", "no test looks at a key after it is dropped", ["keygen.rs"],
  [("zeroize on drop", "keygen::SecretKey")])
p("C27", "Published values reveal nothing about the encrypted chunks",
  "Whoever combines the published values only by group operations and pairings learns nothing about the chunks: every equation that holds among them for one message holds for every other. This covers public parameters, keys, ciphertexts, sums, openings and proofs under a single key; and under a joint key everything authorities publish, with up to all but one authority colluding, and re-encryption shares for a destination that stays secret. A destination missing one share learns nothing, and one given all shares of a sum learns the sum only.",
  ["inputs", "configurations", "histories", "fault_sequences"], "all equations between pairings of the published elements, for all keys and randomness; 1 to 5 authorities, 1 to 16 chunks", "tests check that decryption works, never that anything is hidden", ["encryption.rs", "keygen.rs", "saver_groth16.rs", "setup.rs"],
  [("masking", "encryption::Encryption::encrypt_decomposed_message"), ("published key elements", "keygen::{keygen, FkeygenPartial, genP1share}"), ("shares", "encryption::Encryption::{re_encrypt_share, combine_ct_with_w}"), ("proofs", "saver_groth16::create_proof")])
p("C28", "Only well-formed ciphertexts can pass the commitment check",
  "A ciphertext composed of the published elements and honest ciphertexts by known coefficients is accepted by the commitment check, alone or in a batch, only if it is a well-formed encryption: its first element is a known multiple of X_0 (plus that multiple of honest ones), each chunk has that same multiple of its X plus a known multiple of its own base, and the commitment commits to these. This holds for single and joint keys with all but one authority colluding.",
  ["inputs", "configurations", "histories"], "all coefficients, keys and randomness; 1 to 16 chunks, 0 to 3 authorities, up to 2 honest ciphertexts, batches up to 3", "tests alter honest ciphertexts at random; none builds a ciphertext out of key elements", ["encryption.rs", "keygen.rs"],
  [("commitment check", "encryption::Encryption::{verify_ciphertext_commitment, verify_commitments_in_batch}"), ("key structure", "keygen::{keygen, FkeygenPartial, combineEKs}")])

p("C29", "Anyone can check a decryption, and only the right one passes",
  "For every key and every ciphertext, honest or not, whatever decryption returns, with or without precomputed tables, passes the public check against the decryption key: the pairing of nu with H equals that of the first ciphertext element with V_0, and for each chunk the pairing of its element with its V_2 equals the chunk times the pairing of its base with that V_2 plus the pairing of nu with its V_1. For an honest ciphertext no other nu and no other chunk passes.",
  ["inputs", "configurations"], "all secrets, randomness, chunks and claims; arbitrary ciphertexts for up to 3 chunks, claims for 1 to 64 chunks", "no test performs the check, let alone on wrong claims", ["encryption.rs", "keygen.rs"],
  [("decryption and nu", "encryption::Encryption::decrypt_to_chunks_given_pairing_powers"), ("decryption key", "keygen::keygen")])
p("C30", "Ciphertexts and commitments open in one way only",
  "Two encryptions under one key that give the same elements have the same chunks and the same randomness, for all chunks and randomness. No two different openings of a ciphertext's commitment under a key's commitment key can be known, for single keys and joint ones with all but one authority colluding: its elements admit no known relation. Two openings of a chunked commitment have the same blinding and stand for the same message.",
  ["inputs", "configurations"], "all chunks, randomness and known coefficients; 1 to 64 chunks, 0 to 3 authorities; all chunk sizes", "a second opening is never looked for by a test; it would have to be constructed", ["encryption.rs", "keygen.rs", "commitment.rs"],
  [("encryption", "encryption::Encryption::encrypt_decomposed_message"), ("commitment keys", "keygen::EncryptionKey::commitment_key, commitment::ChunkedCommitment::commitment_key")])
p("C31", "Earlier calls do not influence later ones",
  "Every operation is a function of its arguments and of the random draws it makes: whatever was called before in the same process, with the same or other keys, bases, generators, sizes and messages, whether those calls succeeded or failed, the result and the randomness consumed are those of a first call. Nothing computed from one key, table or set of bases is used for another.",
  ["inputs", "histories"], "all inputs and draws of both calls; histories of up to three earlier calls; 11 operations", "each test runs one key per process step and never compares a second use with a first one", ["keygen.rs", "encryption.rs", "saver_groth16.rs", "commitment.rs", "utils.rs", "setup.rs"],
  [("stateless operations", "keygen, encryption, saver_groth16, commitment, utils, setup")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
