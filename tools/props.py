T = "bounded exhaustive model checking of the real code against a reference model"
NOTES = ""
NOT_APPLICABLE = []

def prop(id, title, statement, over, text, why, files, mech, observe, level_note, state=None, technique=T):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=x, where=files[0]) for x in (state or [])], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
        technique=technique, level_note=level_note)

EX = "spec-examples/src/"
REFNOTE = "Every execution inside the stated bounds is run on the real code and compared with an independent reference model (itself checked against published vectors at start); says nothing about inputs outside the enumerated lengths and data alphabets."
CRYPTO_WHY = "The existing tests run a handful of published vectors; the guarantee quantifies over every message length, key and counter value."

LIBNOTE = "Every member of the enumerated operand sets and every operation history up to the stated depth runs on the real code and is compared with an independent reference model; nothing is claimed about operand values outside the enumerated sets (all values for 8-bit and, in part, 16-bit words; boundary and pattern alphabets above) or longer histories."
LIB_WHY = "The existing tests evaluate a few hand-picked operands; the guarantee quantifies over every operand, width and combination."
HIST_WHY = "The existing tests perform a few fixed calls; the guarantee quantifies over every length, parameter and sequence of operations."
H = "hacspec/src/"
SI = "secret-integers/src/lib.rs"
AI = "abstract-integers/src/"

FIRST = [
 prop("C01", "Secret machine integers compute exact wrapping arithmetic",
  "For every secret integer type U8 to U128 and I8 to I128 and all operand values: +, - and * return the two's-complement result modulo 2^width (and never panic), negation and the bitwise operators &, |, ^ and ! act bit by bit, << and >> by every amount below the width shift as on the corresponding machine integer (arithmetic right shift for signed types), rotations move the bits cyclically in the stated direction, and the mixed-operand and assigning forms of the operators agree with the plain ones.",
  ["inputs"], "all operand values of all ten secret integer types, all shift and rotation amounts below the width",
  LIB_WHY, [SI, H+"machine_integers.rs"],
  [("operator macros", SI+" define_secret_integer/define_bitwise_op/define_arithmetic_op/define_shift")],
  ["secret_integers::{U8..U128,I8..I128} operators"], LIBNOTE),
 prop("C02", "Comparisons of secret and public integers are exact, as booleans and as masks",
  "For all operand values of every width: the mask comparisons of secret integers (comp_eq, comp_ne, comp_gt, comp_gte, comp_lt, comp_lte and their *_bm counterparts) return the all-ones word exactly if the relation holds and zero otherwise. The *_bm masks of public integers do the same, signed types included, and the boolean comparisons equal the mathematical relation.",
  ["inputs"], "all operand pairs of all machine integer types, secret and public",
  LIB_WHY, [SI, H+"machine_integers.rs", H+"traits.rs"],
  [("branch-free comparison", SI+" comp_*"), ("mask and boolean comparison traits", H+"machine_integers.rs *_bm")],
  ["comp_* of secret integers", "NumericBase comparisons"], LIBNOTE + " Mask comparisons of secret signed integers are not offered by the library and must refuse."),
 prop("C03", "Conversions between integer types keep the value or truncate as documented",
  "For every value: converting between any two machine integer types (secret to secret, public to secret, secret to public through declassification) sign- or zero-extends when widening and keeps the low bits when narrowing, classify followed by declassify is the identity, and a literal becomes exactly the number it denotes (or is refused where it does not fit). Constants, maximum values and printed forms are those of the underlying number.",
  ["inputs"], "all values, all ordered pairs of integer types between which a conversion exists",
  LIB_WHY, [SI, H+"machine_integers.rs", H+"math_util.rs"],
  [("cast table", SI+" From impls"), ("classify/declassify", SI+" define_secret_integer"), ("literals", H+"machine_integers.rs from_literal")],
  ["From/Into between integer types", "classify/declassify", "Integer::from_literal"], LIBNOTE),
 prop("C04", "Secret values cannot be branched on, ordered, divided, hashed or index memory",
  "No secret type (the ten secret integers, secret bounded and modular integers, secret byte arrays, arrays and sequences of them) implements boolean equality, ordering, hashing, division or remainder, dereferencing to its public contents, conversion to bool or char, use as an index, use as a shift amount, mixing with another width, or an implicit conversion to a public integer outside the documented widening table. Public types keep these operations, and no type is marked both secret and public or both signed and unsigned.",
  ["configurations"], "all (type, operation, operand type) triples of the public interface",
  "Tests can only contain code that compiles; that something does not compile is outside what a unit test can state, and it must hold for every combination of types.",
  [SI, H+"array.rs", H+"seq.rs", H+"traits.rs", AI+"nat_mod.rs", AI+"abstract_int.rs"],
  [("trait implementations of secret types", SI), ("secret arrays and sequences", H+"array.rs, seq.rs"), ("secret mathematical integers", AI)],
  ["trait resolution by the compiler on the public types"],
  "The relation is finite and every triple of the table is asked of the compiler's trait solver through the real crates; operations outside the table (inherent methods with a new name) are not judged.",
  technique="explicit enumeration of the finite typing relation, each triple decided on the real types"),
 prop("C05", "Integers and byte strings convert back and forth exactly",
  "For every value and width: to_be_bytes / to_le_bytes write exactly the big- and little-endian bytes and from_be_bytes / from_le_bytes read them back, for single words, slices of words, whole arrays and sequences. Input whose length does not match is refused, and get_byte returns the byte at the stated place.",
  ["inputs"], "all word values, all lengths of byte strings",
  LIB_WHY, [H+"transmute.rs", H+"traits.rs", H+"machine_integers.rs", SI, H+"array.rs", H+"vec_integers.rs"],
  [("word <-> bytes", SI+" to_be_bytes/from_be_bytes"), ("free functions", H+"transmute.rs"), ("array and sequence forms", H+"array.rs to_be_bytes, to_be_U32s …")],
  ["*_to_be_bytes, *_from_be_bytes, to_be_U32s, to_le_U64s …"], LIBNOTE),
 prop("C06", "Numeric and modular operations of machine integers are exact or refuse",
  "For all operands: wrap_add / wrap_sub / wrap_mul equal the result modulo 2^width, division is exact (truncating) and refuses a zero divisor, pow is the exact power where it fits. sub_mod, add_mod, mul_mod and modulo return the exact least non-negative residue for every positive modulus (or refuse where an intermediate result does not fit), and inv returns the modular inverse of every number that is coprime to the modulus. Nothing is silently wrong.",
  ["inputs"], "all operands, moduli and exponents of all machine integer types",
  LIB_WHY, [H+"machine_integers.rs", H+"math_util.rs", H+"traits.rs"],
  [("modular operations", H+"machine_integers.rs sub_mod/add_mod/mul_mod/modulo"), ("extended Euclid", H+"math_util.rs")],
  ["NumericBase and ModNumeric methods of public and secret machine integers"], LIBNOTE),
 prop("C07", "Bit access, rotation and conditional operations are exact everywhere",
  "For every word and every position: get_bit, set_bit, set and cset_bit read and change exactly that bit; rotate_left and rotate_right are cyclic for public and secret, signed and unsigned words. cswap, cswap_bit, cadd, csub and cmul apply their (wrapping) operation exactly if the condition mask is set and leave the operands untouched otherwise, and ct_div returns exact quotient and remainder.",
  ["inputs"], "all words, bit positions, rotation amounts and condition masks",
  LIB_WHY, [H+"traits.rs", H+"machine_integers.rs", H+"math_util.rs", H+"util.rs"],
  [("bit accessors", H+"traits.rs Integer"), ("conditional operations", H+"math_util.rs cswap/cadd/ct_div")],
  ["Integer::{get_bit,set_bit,set,rotate_left,rotate_right}", "cswap*, cadd, csub, cmul, ct_div"], LIBNOTE),
 prop("C08", "Sequences behave as plain vectors under every history of operations",
  "Seq, PublicSeq and SecretSeq behave exactly as a vector under every sequence of operations: construction, slicing (sub, subr, from_sub …), update in all its forms, chunk access, iteration, indexing with every index type and length return or change exactly the stated elements and nothing else. Out-of-range requests are refused, chunks partition the sequence and can be put back, and byte-sequence equality is exact.",
  ["histories", "inputs"], "all operation sequences on sequences of every length, element type and content",
  HIST_WHY, [H+"seq.rs", H+"traits.rs"],
  [("sequence operations", H+"seq.rs declare_seq_with_contents_constraints"), ("update forms", H+"traits.rs SeqTrait")],
  ["Seq, PublicSeq, SecretSeq, ByteSeq methods"], LIBNOTE, state=["the element vector of the live sequence"]),
 prop("C09", "Fixed-length arrays behave as vectors whose length never changes",
  "Arrays declared with array!, bytes!, public_bytes! and relatives behave exactly as a vector of their declared length under every sequence of operations: constructors, slices, updates, chunks, index and iteration touch exactly the stated elements, a source that is too long or an index out of range is refused, array equality (and its secret variant) is exact, and classification of whole arrays preserves contents.",
  ["histories", "inputs"], "all operation sequences on arrays of the declared kinds, all contents",
  HIST_WHY, [H+"array.rs", H+"traits.rs"],
  [("array operations", H+"array.rs _array_base"), ("equality", H+"array.rs _secret_array/_public_array")],
  ["array!/bytes!/public_bytes!/both_bytes! types"], LIBNOTE, state=["the elements of the live array"]),
 prop("C10", "Hexadecimal text converts exactly, and anything else is refused",
  "For every text: from_hex of arrays, sequences and integers returns exactly the bytes that an even number of hexadecimal digits (either case) denotes, and refuses any text with another character, sign, odd length or wrong length for the target. to_hex writes exactly two lower-case digits per byte, so the two are inverse to each other.",
  ["inputs"], "all texts and all byte strings",
  "The existing tests convert a few well-formed strings; that every malformed text is refused quantifies over all texts.",
  [H+"seq.rs", H+"array.rs", H+"util.rs", H+"vec_integers.rs"],
  [("parsing", H+"seq.rs hex_string_to_bytes"), ("writing", H+"seq.rs to_hex, array.rs to_hex")],
  ["from_hex, from_hex_string, to_hex"], LIBNOTE),
 prop("C11", "Element-wise arithmetic of arrays and sequences is exact in every element",
  "Adding, subtracting, multiplying and xor-ing whole arrays (secret or public) or public sequences, and dividing public arrays, computes exactly the wrapping operation in each element independently of every other element and keeps the length; operands of different length are refused. The modular element-wise forms (vec_poly_add, vec_poly_sub, vec_poly_mul with a modulus) reduce each element exactly. Public arrays are ordered and equal as their element lists are.",
  ["inputs"], "all contents, lengths and operand pairs",
  LIB_WHY, [H+"vec_integers.rs", H+"array.rs", H+"seq.rs"],
  [("array operators", H+"array.rs, vec_integers.rs"), ("sequence operators", H+"vec_integers.rs _implement_numeric_unsigned_secret/public")],
  ["operators on array! types and Seq/PublicSeq/SecretSeq"], LIBNOTE),
 prop("C12", "Bounded integers compute exactly and refuse every value outside their bounds",
  "A value of a bounded integer type (signed or unsigned, secret or public, any width up to thousands of bits) is always inside its declared bounds. Sums, differences, products, quotients, remainders, modular powers, comparisons, bit access and conversions from and to literals, hexadecimal text, bytes and arbitrary-precision integers return exactly the mathematical value when it lies inside the bounds (the maximum included), and are refused otherwise.",
  ["inputs", "histories"], "all values inside and outside the bounds, all operations and histories of them",
  LIB_WHY, [AI+"abstract_int.rs", AI+"lib.rs"],
  [("bounds check", AI+"abstract_int.rs From<BigInt>/check"), ("operators", AI+"abstract_int.rs")],
  ["unsigned_integer!, signed_integer!, *_public_integer! types"], LIBNOTE, state=["canvas of the live integer"]),
 prop("C13", "Modular integers are exactly the ring Z/n",
  "For every modulus and all residues: addition, subtraction, multiplication, powers and (prime moduli) inversion of nat_mod! integers are exactly those of Z/n, and / and % are the integer quotient and remainder of the representatives. Every constructor (literal, hexadecimal text, bytes, canvas) reduces to the representative below n or refuses what does not fit, byte and text forms read back to the same residue, and comparison is that of the representatives.",
  ["inputs", "histories"], "all moduli, residues, exponents and histories of ring operations",
  LIB_WHY, [AI+"nat_mod.rs", AI+"lib.rs", H+"math_util.rs"],
  [("reduction on construction", AI+"nat_mod.rs from_literal/From<BigUint>"), ("ring operators", AI+"nat_mod.rs define_refined_modular_integer"), ("byte and hex forms", AI+"nat_mod.rs to_byte_seq_*/from_byte_seq_*")],
  ["nat_mod!, public_nat_mod! types"], LIBNOTE, state=["residue of the live integer"]),
 prop("C14", "Polynomial arithmetic is exact and division leaves a smaller remainder",
  "For all coefficient vectors, over the integers and modulo every n: poly_add, poly_sub and poly_mul return exactly the coefficients of the sum, difference and product, with reduced coefficients in the modular case. poly_div returns q and r with a = q*b + r and deg r < deg b whenever such a division exists and refuses otherwise, and leading_coefficient is the highest non-zero one, whatever leading zeros the vectors carry.",
  ["inputs", "histories"], "all coefficient vectors of all lengths, all moduli, all histories of ring operations",
  LIB_WHY, [H+"poly.rs"],
  [("ring operations", H+"poly.rs poly_add/poly_sub/poly_mul"), ("division with remainder", H+"poly.rs poly_div"), ("degree and normalisation", H+"poly.rs leading_coefficient/normalize")],
  ["hacspec::poly functions"], LIBNOTE),
 prop("C15", "Fixed-length polynomials form the quotient ring; inversion finds every inverse",
  "For types declared with poly!: +, - and * on all elements are exactly those of Zn[x]/m, equality is that of coefficients, and / returns quotient and remainder of polynomial division. Inversion (extended Euclid over a prime field) returns the inverse of every unit, of degree below the modulus polynomial, and reports failure for every non-unit. Constructors refuse vectors that are too long and never drop coefficients.",
  ["inputs", "histories"], "all elements of the ring, all pairs, all histories of ring operations",
  LIB_WHY, [H+"poly.rs", H+"math_util.rs"],
  [("extended Euclid", H+"poly.rs extended_euclid"), ("ring type", H+"poly.rs poly! macro")],
  ["poly! types", "hacspec::poly::extended_euclid"], LIBNOTE + " Small rings are covered completely (every element, every pair)."),
]
LAST = [
 prop("C28", "Authenticated decryption releases a plaintext only for the exact tag",
  "For ChaCha20-Poly1305, AES-128-GCM and AES-256-GCM: decryption succeeds if and only if the given tag is the standard tag of exactly the given key, nonce, associated data and ciphertext. Any sequence of changes to key, nonce, associated data, ciphertext or tag (a flipped bit anywhere, truncation, extension, moving bytes between associated data and ciphertext, swapping components of two messages) that does not restore an authentic record is refused with an error, and an authentic record always decrypts to its plaintext.",
  ["inputs", "histories"], "all records and all sequences of modifications of them",
  "The existing tests decrypt their own untampered output only; rejection must hold for every modification.",
  [EX+"chacha20_poly1305/chacha20poly1305.rs", EX+"aes_gcm/aesgcm.rs", H+"array.rs"],
  [("tag comparison", EX+"chacha20_poly1305/chacha20poly1305.rs decrypt, "+EX+"aes_gcm/aesgcm.rs decrypt_aes"), ("array equality", H+"array.rs declassify_eq / PartialEq")],
  ["hacspec_examples::chacha20_poly1305::decrypt", "hacspec_examples::aes_gcm::decrypt_aes{128,256}"], REFNOTE, state=["the record (key, nonce, associated data, ciphertext, tag) under modification"]),
 prop("C29", "Calls are pure functions: no dependence on earlier calls, no changed arguments",
  "The result of every library call depends only on the values of its arguments: it is the same whatever calls were made before, however often it is repeated and whichever argument objects are shared with other calls, and it equals the specified value each time. Arguments passed by reference are unchanged afterwards.",
  ["histories"], "all sequences of library calls",
  "Each existing test makes its calls once, in one order; dependence on earlier calls shows only in particular histories.",
  ["hacspec/src", "spec-examples/src", "abstract-integers/src", "secret-integers/src"],
  [("functional style of the specifications (Language.md)", "whole library")],
  ["public functions of hacspec, abstract_integers, secret_integers and the example specifications"],
  "Every history of three calls out of a menu of some 80 fast calls, every pair that includes a public-key operation, and long repetitions run on the real code; longer mixed histories and calls outside the menu are not covered.",
  state=["whatever state a call may leave behind"]),
 prop("C30", "A test-vector file is loaded exactly as written, or refused",
  "Structures declared with create_test_vectors! load from JSON exactly the values in the file: every field from its own key, in any key order and layout, lists complete and in order, text character by character. A missing file, damaged or truncated JSON, trailing content, a missing field or a value of the wrong type or range is refused (panic) rather than replaced by a default, and each load reflects the file as it is at that moment.",
  ["inputs", "histories", "fault_sequences"], "all file contents (including damaged ones) and all histories of writing and loading",
  "The existing test loads one well-formed file; refusal of damaged files quantifies over every place and kind of damage.",
  ["hacspec-dev/src/test_vectors.rs"],
  [("loader", "hacspec-dev/src/test_vectors.rs create_test_vectors!")],
  ["create_test_vectors! types: new, new_array"],
  "Every truncation point, every single-byte removal, replacement and insertion of two base files, every field permutation, every pair of field values out of an alphabet and every short history of file events is executed on the real loader.",
  state=["the file on disk"]),
 prop("C31", "Library calls print nothing",
  "No library call writes anything to standard output or standard error, whatever its operands (the panic message of a refused call and the test-vector loader's parse error excepted): operands, many of them secret, never leak through diagnostic output.",
  ["inputs", "histories"], "all library calls and operands",
  "The test runner captures and discards what passing tests print; and a print may depend on the operands.",
  ["hacspec/src", "spec-examples/src", "abstract-integers/src", "secret-integers/src"],
  [("absence of print statements on every path", "whole library")],
  ["file descriptors 1 and 2 of a process that runs the calls"],
  "All behaviours explored by the other checks (quick bounds; thorough bounds in the thorough tier) are run again in child processes whose standard output and error are captured; paths outside those bounds are not covered."),
 prop("C32", "Secret-independent execution: no branch, index or divisor depends on a secret",
  "For every public shape (type, length, position, shift amount, number of rounds), the operations of the secret integer types that yield secrets (+, -, *, wrapping forms, bitwise operators, shifts and rotations, comparison masks, conditional swap/add/sub/mul, ct_div, single-bit access, casts, and conversions to and from bytes), the element-wise and conversion operations of secret arrays and sequences, and SHA-256, HMAC-SHA-256, HKDF, SHA-3/SHAKE, BLAKE2b and ChaCha20 as specified on secret bytes take the same branches, compute the same indices and divide by the same divisors in the same order whatever the secret operands are (debug assertions aside).",
  ["inputs"], "all pairs of secret operands of equal public shape (a 2-safety property)",
  "Tests observe results; two executions with the same correct result shape can take different branches, and only a comparison of executions over all operands shows it.",
  [SI, "hacspec/src/math_util.rs", "hacspec/src/machine_integers.rs", "hacspec/src/array.rs", "hacspec/src/seq.rs", "hacspec/src/transmute.rs", EX+"sha2/sha2.rs", EX+"hmac/hmac.rs", EX+"hkdf/hkdf.rs", EX+"fips202/fips202.rs", EX+"blake2/blake2b.rs", EX+"chacha20_poly1305/chacha20.rs"],
  [("branch-free comparison masks", SI+" comp_eq, comp_gte, ..."), ("branch-free selection and division", "hacspec/src/math_util.rs cswap, cadd, ct_div"), ("no secret operand types for / and %, no secret Index", SI)],
  ["the sequence of control-flow edges, element indices and divisors of the instrumented code"],
  "Decided at the level of LLVM's unoptimised code for this target: what the optimiser and the processor make of it (data-dependent instruction timing, caches, branch-free or branching code generation) is outside. AES, GHASH, Poly1305, X25519 and P-256 in this repository index tables or use variable-time big integers on declassified values by design and are not covered; nor are declassifying operations (boolean comparison, declassify, printing).",
  technique="self-composition (2-safety) model checking of the real code: exhaustive enumeration of operand pairs within bounds, comparing recorded paths of an instrumented build"),
 prop("C33", "Random data derive from system entropy, never repeat and miss no value",
  "Every random() of an array, byte array, sequence or polynomial is a function of entropy obtained from the operating system, at least 128 bits of which influence it (or as many as it has); draws in one history or in different threads do not repeat each other or themselves; and every value of the element's range occurs at every position, without preference.",
  ["inputs", "histories", "schedules"], "all answers of the entropy source, all histories of draws, threads",
  "A test sees one draw: a generator with a small, constant or re-used seed, or with an unreachable value, gives perfectly plausible draws.",
  [H+"array.rs", H+"seq.rs", H+"poly.rs", H+"util.rs"],
  [("generators", H+"array.rs random, "+H+"seq.rs random, "+H+"poly.rs random")],
  ["random() of arrays, sequences and polynomials; calls of getrandom(2)"],
  "The operating system's answers are replaced by a fixed stream and explored one inverted bit at a time; the quality of the operating system's source and of the rand crate's ChaCha expansion is assumed.",
  state=["the generator's state, in thread-local storage"],
  technique="exhaustive exploration of environment answers (entropy bits) and bounded histories of the real code"),
 prop("C34", "Release builds compute the same results as checked builds",
  "Every call within its contract (one whose specified outcome is a value, an error or an unconditional refusal) has the same outcome when the library is built for release, optimised and without debug assertions and overflow checks, as specified by the other properties; only refusals that rest on debug assertions or on overflow checks may differ.",
  ["inputs", "configurations"], "all calls within their contract, both build configurations",
  "The tests run in one configuration, with debug assertions; an effect inside a debug assertion, a check demoted to one, or arithmetic that is only right while overflow panics differs in the other.",
  ["hacspec/src", "spec-examples/src", "abstract-integers/src", "secret-integers/src"],
  [("unconditional refusals", "abstract-integers/src/abstract_int.rs panics"), ("contracts as debug assertions", "hacspec/src/traits.rs, vec_integers.rs")],
  ["public functions, release profile"],
  "The drivers of C01 to C03 and C05 to C30 are built with opt-level 3 and without checks and explore their quick bounds (thorough: all of C29's histories); C04, C31 to C33 are about other things than results.",
  technique="bounded exhaustive model checking of the real code against reference models, in a second build configuration"),
 prop("C35", "Concurrent calls do not interfere",
  "Library calls made by different threads at the same time, on argument objects of their own or shared by reference, have the results that each of them has alone, under every schedule. None of them blocks another one for good or ends the process.",
  ["schedules", "inputs"], "all interleavings of the memory accesses of concurrent calls",
  "The test runner does run tests in parallel, but a schedule that interleaves two calls in the few instructions between two accesses to shared state comes up by chance only, and a wrong result then looks like a flake.",
  ["hacspec/src", "spec-examples/src", "abstract-integers/src", "secret-integers/src"],
  [("absence of shared state, or its protection", "whole library")],
  ["public functions of hacspec, abstract_integers, secret_integers and the example specifications; loads, stores, atomic operations, block copies, futex waits"],
  "Two threads, one call each out of a menu of 85, up to two preemptions; sequentially consistent memory; accesses inside the precompiled standard library are not scheduling points.",
  state=["whatever memory two calls share"],
  technique="stateless model checking of the real code: partial-order-reduced exploration of thread schedules under a controlled scheduler with a preemption bound"),
]

PROPS = [
 prop("C16", "SHA-256 equals FIPS 180-4 for every message",
  "For every byte string, including the empty one and those that fill whole 64-byte blocks, the SHA-256 function returns exactly the FIPS 180-4 digest.",
  ["inputs"], "all messages of any length and content",
  CRYPTO_WHY, [EX+"sha2/sha2.rs", "hacspec/src/seq.rs", "hacspec/src/transmute.rs"],
  [("message padding and block loop", EX+"sha2/sha2.rs hash"), ("compression", EX+"sha2/sha2.rs compress/schedule/shuffle")],
  ["hacspec_examples::sha2::hash"], REFNOTE),
 prop("C17", "HMAC-SHA-256 equals RFC 2104 for every key and message",
  "For every key of any length (shorter than, equal to or longer than the 64-byte hash block) and every message, the HMAC function returns exactly the RFC 2104 / RFC 4231 HMAC-SHA-256 value.",
  ["inputs"], "all keys and messages of any length",
  CRYPTO_WHY, [EX+"hmac/hmac.rs", EX+"sha2/sha2.rs"],
  [("key normalisation and pads", EX+"hmac/hmac.rs hmac")], ["hacspec_examples::hmac::hmac"], REFNOTE),
 prop("C18", "HKDF equals RFC 5869, up to exactly 255 blocks of output",
  "HKDF extract and expand return exactly the RFC 5869 (SHA-256) values for every salt, input key, info string and every requested output length from 0 to 255*32 bytes. A longer requested output is refused (panic) and never silently shortened or wrapped around.",
  ["inputs"], "all salts, keys, infos and output lengths",
  CRYPTO_WHY, [EX+"hkdf/hkdf.rs", EX+"hmac/hmac.rs"],
  [("extract", EX+"hkdf/hkdf.rs extract"), ("expand block counter and truncation", EX+"hkdf/hkdf.rs expand/div_ceil/build_hmac_txt")],
  ["hacspec_examples::hkdf::extract", "hacspec_examples::hkdf::expand"], REFNOTE),
 prop("C19", "SHA-3 and SHAKE equal FIPS 202 for every message and output length",
  "SHA3-224/256/384/512 and SHAKE128/256 return exactly the FIPS 202 values for every message length and content and, for SHAKE, every requested output length.",
  ["inputs"], "all messages, all output lengths",
  CRYPTO_WHY, [EX+"fips202/fips202.rs"],
  [("sponge absorb/pad/squeeze", EX+"fips202/fips202.rs keccak/absorb_block/squeeze"), ("permutation", EX+"fips202/fips202.rs keccakf1600")],
  ["hacspec_examples::fips202::*"], REFNOTE),
 prop("C20", "BLAKE2b equals RFC 7693 for every message",
  "For every byte string, including the empty one and those that fill whole 128-byte blocks, unkeyed BLAKE2b-512 returns exactly the RFC 7693 digest.",
  ["inputs"], "all messages of any length and content",
  CRYPTO_WHY, [EX+"blake2/blake2b.rs"],
  [("block loop, counter and last-block flag", EX+"blake2/blake2b.rs blake2/inc_counter"), ("compression", EX+"blake2/blake2b.rs compress/mix")],
  ["hacspec_examples::blake2::blake2b::blake2b"], REFNOTE),
 prop("C21", "AES block cipher and counter mode equal FIPS 197 / SP 800-38A",
  "AES-128 and AES-256 single-block encryption return exactly the FIPS 197 output for every key and block, and counter-mode encryption and decryption produce exactly the standard keystream (96-bit nonce, 32-bit big-endian counter that wraps modulo 2^32) for every nonce, initial counter and message length; decryption inverts encryption.",
  ["inputs"], "all keys, blocks, nonces, initial counters and message lengths",
  CRYPTO_WHY, [EX+"aes_gcm/aes.rs"],
  [("key schedule", EX+"aes_gcm/aes.rs key_expansion_aes"), ("rounds", EX+"aes_gcm/aes.rs block_cipher_aes"), ("counter mode", EX+"aes_gcm/aes.rs aes_counter_mode")],
  ["hacspec_examples::aes_gcm::aes::{aes128,aes256}_{encrypt_block,encrypt,decrypt}"], REFNOTE),
 prop("C22", "AES-GCM equals SP 800-38D and GHASH is exact",
  "AES-128-GCM and AES-256-GCM encryption with a 96-bit IV return exactly the SP 800-38D ciphertext and 128-bit tag for every key, IV, associated data and message; decryption of that output returns the message. The GHASH function equals the GF(2^128) definition for every key and text, including texts that do not fill whole blocks.",
  ["inputs"], "all keys, IVs, associated data and messages of any length",
  CRYPTO_WHY, [EX+"aes_gcm/aesgcm.rs", EX+"aes_gcm/gf128.rs", EX+"aes_gcm/aes.rs"],
  [("field multiplication", EX+"aes_gcm/gf128.rs fmul"), ("length block and padding", EX+"aes_gcm/aesgcm.rs pad_aad_msg"), ("mac key / tag mask", EX+"aes_gcm/aesgcm.rs encrypt_aes/decrypt_aes")],
  ["hacspec_examples::aes_gcm::{encrypt,decrypt}_aes{128,256}", "hacspec_examples::aes_gcm::gf128::gmac"], REFNOTE + " GHASH is covered on the full 128x128 bit basis, which decides it for all operands as long as the multiplication stays bilinear."),
 prop("C23", "ChaCha20 equals RFC 8439",
  "The quarter round, state set-up, block function, state serialisation and the cipher return exactly the RFC 8439 values for every key, counter (including values at the 32-bit wrap), nonce and message length.",
  ["inputs"], "all keys, counters, nonces, states and message lengths",
  CRYPTO_WHY, [EX+"chacha20_poly1305/chacha20.rs"],
  [("quarter round", EX+"chacha20_poly1305/chacha20.rs quarter_round/line"), ("block function", EX+"chacha20_poly1305/chacha20.rs block_init/block_inner"), ("block loop", EX+"chacha20_poly1305/chacha20.rs chacha")],
  ["hacspec_examples::chacha20_poly1305::chacha20::*"], REFNOTE),
 prop("C24", "Poly1305 equals RFC 8439 for every key and message",
  "For every 32-byte one-time key and every message of any length, the Poly1305 tag is exactly the RFC 8439 one, including when the accumulator is next to the prime 2^130-5 and when the final addition carries past 2^128; the variant that derives its one-time key from a ChaCha20 key and nonce agrees with RFC 8439 as well.",
  ["inputs"], "all keys and messages",
  CRYPTO_WHY, [EX+"chacha20_poly1305/poly1305.rs", "abstract-integers/src/nat_mod.rs"],
  [("clamping and block encoding", EX+"chacha20_poly1305/poly1305.rs encode_r/encode"), ("evaluation and final addition", EX+"chacha20_poly1305/poly1305.rs poly_inner/poly")],
  ["hacspec_examples::chacha20_poly1305::poly1305::{poly,poly_mac}"], REFNOTE),
 prop("C25", "ChaCha20-Poly1305 AEAD equals RFC 8439 and round-trips",
  "AEAD encryption returns exactly the RFC 8439 ciphertext and tag for every key, nonce, associated data and message of any length (including empty ones), and decrypting that output with the same key, nonce and associated data returns the message.",
  ["inputs"], "all keys, nonces, associated data and messages",
  CRYPTO_WHY, [EX+"chacha20_poly1305/chacha20poly1305.rs"],
  [("MAC input layout", EX+"chacha20_poly1305/chacha20poly1305.rs pad_aad_msg"), ("one-time key derivation", EX+"chacha20_poly1305/chacha20poly1305.rs encrypt/decrypt")],
  ["hacspec_examples::chacha20_poly1305::{encrypt,decrypt}"], REFNOTE),
 prop("C26", "X25519 equals RFC 7748 for every scalar and point string",
  "Scalar multiplication returns exactly the RFC 7748 X25519 output for every 32-byte scalar and every 32-byte u-coordinate, including unclamped scalars, non-canonical and small-order coordinates and a set top bit. Public-key derivation is that function at the base point 9, so two parties always derive the same shared secret.",
  ["inputs"], "all 32-byte scalars and u-coordinates",
  CRYPTO_WHY, [EX+"curve25519/curve25519.rs", "abstract-integers/src/nat_mod.rs"],
  [("decoding and clamping", EX+"curve25519/curve25519.rs decode_scalar/decode_point/mask_scalar"), ("ladder", EX+"curve25519/curve25519.rs montgomery_ladder/point_add_and_double")],
  ["hacspec_examples::curve25519::{scalarmult,secret_to_public}"], REFNOTE),
 prop("C27", "P-256 base-point multiplication equals the group law",
  "For every 256-bit scalar that is not a multiple of the group order (including scalars above the order and next to it), base-point multiplication returns exactly the affine coordinates of that multiple of the P-256 generator.",
  ["inputs"], "all 256-bit scalars",
  CRYPTO_WHY, [EX+"p256/p256.rs", "abstract-integers/src/nat_mod.rs"],
  [("Jacobian doubling and addition", EX+"p256/p256.rs point_double/point_add"), ("ladder", EX+"p256/p256.rs montgomery_ladder"), ("normalisation", EX+"p256/p256.rs jacobian_to_affine")],
  ["hacspec_examples::p256::point_mul"], REFNOTE + " The library's representation of the identity is not judged."),
]
PROPS = FIRST + PROPS + LAST
