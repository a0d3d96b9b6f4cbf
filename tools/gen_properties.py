#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script so that the records stay uniform)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})
EX = "spec-examples/src/"
p("C01", "SHA-256 equals FIPS 180-4 for every message",
  "Hashing any byte string, of any length including zero and exact multiples of the 64-byte block, returns the SHA-256 digest defined by FIPS 180-4. It never panics, and neither the length nor the content of the input is restricted.",
  ["inputs"], "every byte string; lengths sweep several blocks densely and up to several hundred kB",
  "Inputs: the tests hash a handful of fixed vectors, and lengths congruent to 0, 55, 56 mod 64 decide the padding.",
  [EX+"sha2/sha2.rs"], [("padding and length block in hash; compression function shuffle/schedule", EX+"sha2/sha2.rs")],
  ["hacspec_examples::sha2::hash"])
p("C02", "HMAC-SHA-256 equals RFC 2104 for every key and message",
  "The HMAC function returns HMAC-SHA-256 of RFC 2104 for every key (shorter than, equal to and longer than the 64-byte block) and every message. Keys longer than a block are hashed first and shorter ones are zero-padded.",
  ["inputs"], "every (key, message) pair of byte strings",
  "Inputs: the tests use RFC 4231 vectors only; key length 64/65 and message lengths at block edges are not sampled.",
  [EX+"hmac/hmac.rs", EX+"sha2/sha2.rs"], [("k_block and inner/outer pads", EX+"hmac/hmac.rs")],
  ["hacspec_examples::hmac::hmac"])
p("C03", "HKDF extract and expand equal RFC 5869",
  "Extract returns HMAC(salt, ikm), with a missing salt replaced by a hash-length string of zeros, and expand returns the first L bytes of T(1)|T(2)|... for every L from 1 up to and including 255*32. Output prefixes agree: expanding to a smaller L gives a prefix of the longer output.",
  ["inputs"], "every salt, ikm, prk, info, and every L in 1..=8160",
  "Inputs: three RFC vectors; L at multiples of 32 and at the documented maximum are never tried.",
  [EX+"hkdf/hkdf.rs", EX+"hmac/hmac.rs"], [("block counter n, chaining and truncation in expand", EX+"hkdf/hkdf.rs")],
  ["hacspec_examples::hkdf::{extract, expand}"])
p("C04", "SHA-3 and SHAKE equal FIPS 202 for every message and output length",
  "SHA3-224/256/384/512, SHAKE128 and SHAKE256 return the FIPS 202 result for every message length (around every multiple of the rate) and, for the extendable-output functions, for every output length. Shorter outputs of the same message are prefixes of longer ones.",
  ["inputs"], "every message; every output length; every rate used by the standard instances",
  "Inputs: tests use fixed vectors with a few lengths; the padding corner (message length = rate-1 mod rate) and multi-block squeezing are hit at isolated points only.",
  [EX+"fips202/fips202.rs"], [("keccakf1600, absorb_block, squeeze, keccak padding", EX+"fips202/fips202.rs")],
  ["hacspec_examples::fips202::{sha3224, sha3256, sha3384, sha3512, shake128, shake256}"])
p("C05", "BLAKE2b-512 equals RFC 7693 for every message",
  "Hashing any byte string with the BLAKE2b function returns the unkeyed 64-byte BLAKE2b digest of RFC 7693, for every length including zero and exact multiples of the 128-byte block, with the byte counter and the final-block flag applied to the last block.",
  ["inputs"], "every byte string; lengths sweep several blocks densely",
  "Inputs: a few fixed vectors; lengths that are a multiple of the block decide which block is last.",
  [EX+"blake2/blake2b.rs"], [("block loop, counter, last-block flag", EX+"blake2/blake2b.rs")],
  ["hacspec_examples::blake2::blake2b"])
p("C06", "AES-128/256 block cipher and counter mode equal FIPS 197 / SP 800-38A",
  "For every key, block, nonce, counter and message the AES block function returns the FIPS 197 ciphertext and the counter-mode functions XOR the message with the blocks AES(nonce || 32-bit big-endian counter), the counter increasing by one per block; encryption and decryption are mutual inverses. Messages need not be block-aligned and the output has the message's length.",
  ["inputs"], "every 128/256-bit key, block, 96-bit nonce, starting counter, message",
  "Inputs: fixed vectors cannot cover S-box and key-schedule entries, partial last blocks and multi-block counters.",
  [EX+"aes_gcm/aes.rs"], [("sub_bytes/shift_rows/mix_columns/key_expansion/aes_counter_mode", EX+"aes_gcm/aes.rs")],
  ["hacspec_examples::aes::{aes128_encrypt, aes256_encrypt, aes128_decrypt, aes256_decrypt, aes128_encrypt_block, aes256_encrypt_block}"])
p("C07", "AES-GCM and GHASH equal SP 800-38D",
  "AES-128-GCM and AES-256-GCM return the ciphertext and 128-bit tag of SP 800-38D for every key, 96-bit IV, associated data and message, of any lengths including empty and unaligned. The GF(2^128) polynomial MAC equals GHASH masked with the given one-time block.",
  ["inputs"], "every key, IV, aad, message and their length combinations",
  "Inputs: a few vectors; carry-less multiplication has 2^256 input pairs and padding depends on both lengths.",
  [EX+"aes_gcm/aesgcm.rs", EX+"aes_gcm/gf128.rs"], [("pad_aad_msg, encrypt_aes*, gmul/ghash", EX+"aes_gcm/")],
  ["hacspec_examples::aesgcm::{encrypt_aes128, encrypt_aes256}", "hacspec_examples::gf128::gmac"])
p("C08", "ChaCha20 equals RFC 8439 for every key, nonce, counter and message",
  "The block function returns the RFC 8439 keystream block for every key, counter and nonce; encryption XORs the message with the consecutive keystream blocks of counters 1, 2, 3, ..., for every message length, and the output has the message's length; applying it twice returns the message.",
  ["inputs"], "every key, 96-bit nonce, 32-bit block counter (block function), message length",
  "Inputs: fixed vectors; unaligned tails, many blocks and extreme counters are not sampled.",
  [EX+"chacha20_poly1305/chacha20.rs"], [("quarter_round, block, chacha loop over chunks and the tail", EX+"chacha20_poly1305/chacha20.rs")],
  ["hacspec_examples::chacha20::{block_init, block_inner, block, chacha}"])
p("C09", "Poly1305 equals RFC 8439 for every key and message",
  "The Poly1305 function returns the 16-byte RFC 8439 tag ((clamped polynomial mod 2^130-5) + s) mod 2^128 for every 32-byte key and every message, including empty and unaligned ones and keys/messages that drive the accumulator to the extremes of the field.",
  ["inputs"], "every 256-bit key and message",
  "Inputs: the final reduction and the addition of s differ from the correct ones only for a fraction of inputs that a few vectors miss.",
  [EX+"chacha20_poly1305/poly1305.rs"], [("clamp, encode, poly, finish", EX+"chacha20_poly1305/poly1305.rs")],
  ["hacspec_examples::poly1305::{poly, poly_mac}"])
p("C10", "ChaCha20-Poly1305 AEAD equals RFC 8439",
  "Encryption returns the RFC 8439 ciphertext and tag for every key, nonce, associated data and message of any lengths: the one-time key comes from block 0, the message is encrypted from block 1 and the MAC covers padded aad, padded ciphertext and both 64-bit lengths.",
  ["inputs"], "every key, nonce, aad, message and their length combinations",
  "Inputs: one or two vectors; the padding depends on both lengths mod 16.",
  [EX+"chacha20_poly1305/chacha20poly1305.rs"], [("pad_aad_msg, encrypt, decrypt", EX+"chacha20_poly1305/chacha20poly1305.rs")],
  ["hacspec_examples::chacha20poly1305::{encrypt, decrypt}"])
p("C11", "AEAD decryption returns the message and rejects every tampering",
  "For AES-128-GCM, AES-256-GCM and ChaCha20-Poly1305, decrypting what was encrypted under the same key, nonce and associated data reports success with exactly the original message, and decryption reports failure for every other ciphertext/tag/aad/nonce/key obtained by flipping bits, truncating, extending or swapping. A failed decryption never reports success and never returns the plaintext as valid.",
  ["inputs", "fault_sequences"], "every valid encryption and every corruption of one or more of its parts (all single-bit flips of the tag, bit flips and length changes elsewhere)",
  "Inputs: the tests decrypt genuine ciphertexts only; a decryption that ignores part of the tag or aad passes them all.",
  [EX+"aes_gcm/aesgcm.rs", EX+"chacha20_poly1305/chacha20poly1305.rs"], [("tag recomputation and comparison in decrypt", EX+"aes_gcm/aesgcm.rs, "+EX+"chacha20_poly1305/chacha20poly1305.rs")],
  ["hacspec_examples::aesgcm::{decrypt_aes128, decrypt_aes256}", "hacspec_examples::chacha20poly1305::decrypt"])
p("C12", "X25519 equals RFC 7748 for every scalar and point",
  "Scalar multiplication returns the RFC 7748 X25519 result for every 32-byte scalar and every 32-byte u-coordinate (clamping, masking of the top bit, non-canonical and low-order points included), and deriving a public key is multiplication of the base point 9. Two parties always derive the same shared value.",
  ["inputs"], "every pair of 32-byte strings",
  "Inputs: a few RFC vectors; non-canonical u, low-order points and arithmetic carries are not sampled, and the public-key function is never called.",
  [EX+"curve25519/curve25519.rs"], [("decodeScalar, decodePoint, montgomery ladder, encodePoint", EX+"curve25519/curve25519.rs")],
  ["hacspec_examples::curve25519::{scalarmult, secret_to_public}"])
p("C13", "P-256 base-point multiplication equals the standard curve group",
  "Multiplying the P-256 base point by any scalar not divisible by the group order returns the affine point k*G of the NIST curve: the result is on the curve, and scalars add as points do. Extreme scalars (1, 2, order-1, order+1, 2^256-1 and few-bit patterns) are included.",
  ["inputs"], "every 256-bit scalar not congruent to 0 modulo the group order",
  "Inputs: fixed vectors; exceptional cases of the Jacobian addition depend on the scalar's bit pattern.",
  [EX+"p256/p256.rs"], [("point_mul ladder, point_add_jacob, doubling, jacobian_to_affine", EX+"p256/p256.rs")],
  ["hacspec_examples::p256::point_mul"])
p("C14", "Secret integers compute exactly like fixed-width two's-complement integers",
  "For every width and signedness, +, -, *, the bitwise operators, shifts, rotations, negation, their assigning forms, casts between secret integers, classification and declassification give the value the corresponding wrapping machine operation gives, and the checked forms give the exact value or panic exactly when it is out of range. Printing (decimal, hexadecimal, debug) and byte-string serialization in both byte orders agree with the declassified value.",
  ["inputs"], "every operand pair of every secret type (8-bit exhaustively), every shift below the width",
  "Inputs: tests touch a few values of a few types; each type's macro expansion has its own casts and widths.",
  ["secret-integers/src/lib.rs"], [("define_wrapping_op/define_bitwise_op/define_shift/define_*_casting/from_*_bytes", "secret-integers/src/lib.rs")],
  ["declassified results"])
p("C15", "Comparison operations agree with integer order and return full masks",
  "On every public type and every unsigned secret type, the boolean comparisons agree with integer order and the mask-returning ones return all ones when the relation holds and zero otherwise. Exactly one of <, =, > holds for any two values, and complementary masks are bitwise complements.",
  ["inputs"], "every pair of values of every width, 8-bit exhaustively",
  "Inputs: tests compare a few small values; the borrow logic differs at the sign bit and at equality.",
  ["secret-integers/src/lib.rs", "hacspec/src/machine_integers.rs"], [("comp_eq/comp_gte/... bit tricks; *_bm", "secret-integers/src/lib.rs, hacspec/src/machine_integers.rs")],
  ["comp_* and *_bm results"])
p("C16", "Byte-order conversions are exact, inverse and reject wrong lengths",
  "Converting any integer of any width, public or secret, to little- or big-endian bytes gives its standard encoding and converting back returns it; sequences and arrays of words convert to and from byte sequences word by word in order. A byte string whose length does not fit is rejected rather than truncated.",
  ["inputs"], "every value of every width; every word count; wrong lengths",
  "Inputs: tests check single values at one or two widths.",
  ["hacspec/src/transmute.rs", "hacspec/src/traits.rs", "secret-integers/src/lib.rs", "hacspec/src/array.rs"], [("to/from_{le,be}_bytes", "hacspec/src/transmute.rs, hacspec/src/traits.rs, hacspec/src/array.rs")],
  ["returned bytes / integers, panics"])
p("C17", "Secret data never decides a branch or a memory address",
  "Executing the secret-integer operators, casts, byte conversions and mask comparisons, the constant-time helpers (conditional swap, conditional bit set, conditional add, subtract and multiply, division) on secret integers, and the ChaCha20, SHA-256, HMAC, SHA-3 and BLAKE2b functions on secret data never branches on, and never indexes memory by, a secret value. Control flow depends on lengths and public parameters only. (Excluded: operations that declassify by definition, such as equality of secret arrays and boolean comparisons, modular and polynomial arithmetic, table-driven AES and its MAC, and debug assertions.)",
  ["inputs", "programs"], "every secret value; each operation of every secret width",
  "Programs: a functional test cannot see control flow; one declassify in a helper leaves results unchanged.",
  ["secret-integers/src/lib.rs", "hacspec/src/math_util.rs", "hacspec/src/seq.rs", "hacspec/src/array.rs", EX+"chacha20_poly1305/chacha20.rs"], [("mask arithmetic instead of branches", "secret-integers/src/lib.rs, hacspec/src/math_util.rs")],
  ["taint of undefined (secret) bits at conditional jumps and addresses under valgrind memcheck"])
p("C18", "Arrays and sequences behave as bounded vectors under slicing and update",
  "Over any history of creations, indexed reads and writes, slices, range slices, sub-range copies and updates, chunk reads and writes, conversions between arrays, sequences, vectors and slices, and comparisons, arrays and sequences (secret and public) hold exactly what a plain vector model holds; lengths never change except as the operation states and inputs are never modified. Any access or copy range outside the source or the target is rejected by a panic and nothing outside the target range is ever written. Creating an array from a shorter slice leaves the remaining elements zero; other length mismatches are rejected.",
  ["histories", "inputs"], "every sequence of operations, ranges and contents",
  "Histories: tests check a handful of calls with in-range constants and never combine operations or probe the bounds.",
  ["hacspec/src/seq.rs", "hacspec/src/array.rs", "hacspec/src/traits.rs"], [("SeqTrait::update_sub/update/update_start, sub, subr, from_sub, from_sub_range, from_slice, from_seq, from_vec", "hacspec/src/traits.rs, hacspec/src/seq.rs, hacspec/src/array.rs")],
  ["contents after every operation, panics"])
p("C19", "Chunk access partitions a sequence without loss or overlap",
  "For every length and chunk size, the chunks visited in order concatenate to the sequence, every chunk but the last has the full size, the number of chunks is the rounded-up quotient, and the lengths reported with and without the contents agree. Writing chunks back one by one rebuilds the sequence and touches only the chunk's own range; a chunk index out of range or a chunk of the wrong length is rejected.",
  ["inputs", "histories"], "every sequence length, chunk size, and order of chunk writes",
  "Inputs: tests use one or two lengths; the boundary is length = 0 mod chunk size.",
  ["hacspec/src/seq.rs", "hacspec/src/array.rs"], [("num_chunks, get_chunk, get_chunk_len, set_chunk", "hacspec/src/seq.rs, hacspec/src/array.rs")],
  ["chunk lengths, contents"])
p("C20", "Vector arithmetic and comparison act element by element",
  "+, -, * and ^ on integer arrays and integer sequences, and the further operators defined on public arrays, give, at each index, the element type's own result, keep the length, and reject operands of different lengths; their coefficient-wise polynomial forms do the same, wrapping or modulo n. Equality of arrays and of sequences holds exactly when lengths and all elements are equal, and the declassifying equality of secret arrays agrees with comparing the declassified contents, as do the equality assertions.",
  ["inputs"], "every pair of arrays/sequences of every element type",
  "Inputs: tests add one small array; an operator forgetting an element or a length check survives them.",
  ["hacspec/src/vec_integers.rs", "hacspec/src/array.rs", "hacspec/src/seq.rs"], [("implement_numeric-style macros", "hacspec/src/vec_integers.rs")],
  ["result elements, lengths, panics"])
p("C21", "Hex parsing and printing are inverse and malformed hex is rejected",
  "Parsing the hex encoding of any bytes (either letter case) returns those bytes, printing any byte array returns its two-digit-per-byte hex encoding, and the two are inverse. Strings of odd length, of the wrong length for the array, or with a non-hex character are rejected.",
  ["inputs"], "every byte string and every malformed string",
  "Inputs: tests parse fixed well-formed strings; bytes below 16 need the leading zero.",
  ["hacspec/src/array.rs", "hacspec/src/seq.rs", "hacspec/src/util.rs"], [("hex_string_to_bytes, from_hex, to_hex", "hacspec/src/array.rs, hacspec/src/seq.rs")],
  ["bytes, strings, panics"])
p("C22", "Bounded integers are exact or panic, never wrong",
  "For every bounded integer type, construction from a literal, hex, bytes, a power of two or a big integer, and +, -, *, /, %, comparison and bit access give the exact mathematical result when it lies in the type's range and panic otherwise; no value outside the range can be created. The range for b bits is [0, 2^b) for unsigned and |x| < 2^b for signed types. Every value in the range, the maximum included, can be represented and converted back unchanged.",
  ["inputs"], "every pair of values of signed/unsigned, public/secret types of several bit widths, incl. widths not divisible by 8",
  "Inputs: a few small values and one overflow; the edges of the range are where the bound is decided.",
  ["abstract-integers/src/abstract_int.rs"], [("From<BigInt> range checks, operator bound checks", "abstract-integers/src/abstract_int.rs")],
  ["value as big integer, panics"])
p("C23", "Modular integers stay reduced and satisfy modular arithmetic",
  "For every modulus, every value produced by any constructor or operation is the canonical residue in [0, n), and +, -, *, powers agree with integer arithmetic modulo n, / and % with integer division of the residues; equality and order compare residues. For prime n, every nonzero x times its inverse is 1, and byte and hex conversions round-trip.",
  ["inputs", "histories"], "every pair of residues, moduli small and large, chains of operations",
  "Inputs: tests check a few sums; wrap-around, the modulus itself as an input and powers at the edges are not sampled.",
  ["abstract-integers/src/nat_mod.rs", "hacspec/src/math_integers.rs"], [("reduction after each operation", "abstract-integers/src/nat_mod.rs")],
  ["value as big integer"])
p("C24", "Constant-time helpers equal their plain definitions",
  "Conditional swap, conditional bit-set, conditional add/subtract/multiply return the unchanged operands for a zero condition and the swapped/updated (wrapping) results for the all-ones condition, and the constant-time division returns the quotient and remainder with a = q*d + r and 0 <= r < d for every non-negative dividend and positive divisor. They do so on every integer type they accept.",
  ["inputs"], "every operand pair, condition and type (8-bit exhaustively for division)",
  "Inputs: tests try a few values; divisors with the top bit set and equal operands are not sampled.",
  ["hacspec/src/math_util.rs"], [("cswap, cset_bit, cadd, csub, cmul, ct_div", "hacspec/src/math_util.rs")],
  ["returned tuples"])
p("C25", "Modular helpers and inverse on machine integers are exact or refuse",
  "For every n > 0 the modular add, subtract, multiply and reduce operations on public and secret machine integers return the least non-negative residue of the exact result, or panic when an intermediate value does not fit; they never return a wrong residue. The modular inverse of x in 1..n returns y in [0, n) with x*y = 1 mod n when x is coprime to n and panics otherwise.",
  ["inputs"], "every (x, y, n) of every width; 8-bit exhaustively",
  "Inputs: tests invert a few values; overflow happens only near the type's limits.",
  ["hacspec/src/machine_integers.rs", "hacspec/src/math_util.rs"], [("sub_mod/add_mod/mul_mod/modulo, extended_euclid_invert", "hacspec/src/machine_integers.rs, hacspec/src/math_util.rs")],
  ["residues, panics"])
p("C26", "Bit, byte and rotation access on integers is exact",
  "For every integer type, reading bit i, setting bit i, copying a bit, extracting byte i, rotating left and right, powers, and the wrapping forms and division of public integers return what the binary representation says, and rotations are inverse to each other and preserve the bits. Literals convert to the type's value and the declared constants and widths match the type.",
  ["inputs"], "every value, index and type (8-bit exhaustively)",
  "Inputs: tests use a couple of unsigned values; signed negatives and the top bit differ.",
  ["hacspec/src/traits.rs", "hacspec/src/machine_integers.rs"], [("Integer::{get_bit,set_bit,set,rotate_left,rotate_right}, get_byte", "hacspec/src/traits.rs")],
  ["returned integers"])
p("C27", "Polynomial arithmetic satisfies ring, division and inverse laws",
  "Polynomial addition, subtraction and multiplication over the integers, modulo n, and modulo n and an irreducible polynomial equal schoolbook arithmetic with coefficients reduced, division returns quotient and remainder with a = q*b + r and deg r < deg b (over the integers it panics when a coefficient does not divide exactly), and inverting a nonzero element times the element gives 1. Construction rejects polynomials whose degree does not fit.",
  ["inputs"], "every pair of polynomials, moduli and irreducibles up to the swept degrees",
  "Inputs: tests use one or two polynomials; leading zeros, negative coefficients and degree edges are not sampled.",
  ["hacspec/src/poly.rs", "hacspec/src/math_integers.rs"], [("poly_add/poly_sub/poly_mul/poly_div, poly! types, inv", "hacspec/src/poly.rs")],
  ["coefficients"])
p("C28", "Test-vector loading returns exactly what the file contains",
  "Reading a JSON test-vector file with a declared vector type returns every record in file order with every field's content unchanged, for single-object and array files, and a malformed or mismatching file is refused, not partially read.",
  ["inputs"], "every JSON file of the declared shape, and malformed ones",
  "Inputs: the tests read the checked-in files only.",
  ["hacspec-dev/src/test_vectors.rs"], [("create_test_vectors! new / new_array", "hacspec-dev/src/test_vectors.rs")],
  ["loaded structs, panics"])
p("C29", "No undefined behaviour or memory error in any operation",
  "No use of the public operations of the libraries and of the cryptographic functions, on any input, has undefined behaviour: no out-of-bounds or misaligned access, invalid value, or use of uninitialized or freed memory, and none leaks or corrupts memory. Invalid arguments end in an ordinary panic.",
  ["inputs", "programs"], "every operation, including those whose implementation reinterprets memory",
  "Programs: native tests do not observe undefined behaviour that happens to give the right answer.",
  ["secret-integers/src/lib.rs", "hacspec/src/array.rs", "hacspec/src/seq.rs"], [("transmute-based byte conversions", "secret-integers/src/lib.rs")],
  ["Miri interpreter reports; AddressSanitizer / valgrind reports"])
p("C30", "Operations are pure: same input, same output, no side effects",
  "Every deterministic function returns the same result for the same arguments on every call, whatever was called before and whichever threads run at the same time, and leaves its arguments unchanged. Computing on secret data writes nothing to standard output or standard error and creates no files.",
  ["schedules", "histories"], "every interleaving of concurrent calls and every call history",
  "Schedules: the tests call each function once from one place and do not look at the output streams.",
  ["hacspec/src/machine_integers.rs", "hacspec/src/math_util.rs", "hacspec/src/poly.rs", EX], [("value semantics, no global state", "all crates")],
  ["results across threads, captured output streams"])
p("C31", "Random constructors give full-length, unrelated values in range",
  "Creating a random array, sequence or vector returns exactly the requested number of elements of the element type, and repeated and concurrent calls return unrelated values: no long repeats, every bit position of every element takes both values over a modest number of draws.",
  ["inputs", "schedules"], "every length and type; many draws from several threads",
  "Inputs: the existing tests call a random constructor, if at all, once and check nothing of it.",
  ["hacspec/src/seq.rs", "hacspec/src/array.rs", "hacspec/src/util.rs"], [("random/get_random_vec over rand::thread_rng", "hacspec/src/array.rs, hacspec/src/util.rs")],
  ["drawn values"])
p("C33", "Results do not depend on the platform or the build",
  "Every operation of the libraries and every cryptographic function returns the same result for the same input on 32-bit and 64-bit and on little-endian and big-endian platforms, and in optimised and unoptimised builds; byte orders in particular are those the function names, never the machine's. (A build without debug assertions may compute where a debug build refuses.)",
  ["inputs", "programs"], "every operation and input, on every platform the compiler supports (observed on 32- and 64-bit, big- and little-endian ones)",
  "Programs: the tests run in one build on one little-endian 64-bit machine, where native and little-endian byte order cannot be told apart.",
  ["secret-integers/src/lib.rs", "hacspec/src/transmute.rs", "hacspec/src/traits.rs", "hacspec/src/array.rs", EX], [("to/from byte conversions, usize-typed lengths and indices, literal casts", "secret-integers/src/lib.rs, hacspec/src/transmute.rs, hacspec/src/array.rs")],
  ["results of the same operations on a big-endian 32-bit platform (Miri interpreter) and in an optimised build"])
p("C32", "Annotation attributes leave the annotated function unchanged",
  "With attribute printing enabled, annotating a function as primitive, library, external, internal or to be removed adds one documentation line and one compiler note naming the function and its place, and changes nothing else about the function: what the library computes does not depend on whether its annotations are enabled. An annotation without an argument name, or on something other than a function, is refused.",
  ["programs"], "every annotated Rust function",
  "Programs: no test enables the attributes.",
  ["attributes/src/lib.rs"], [("declare_attribute!", "attributes/src/lib.rs")],
  ["compiler diagnostics", "results of the annotated functions"])
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
with open("properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
