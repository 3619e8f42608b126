#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from units import registry

F, S, G, E, D, H, DER, L = ("core/src/field.rs", "core/src/scalar.rs", "core/src/group.rs", "core/src/ecmult.rs",
                            "core/src/ecdsa.rs", "core/src/ecdh.rs", "core/src/der.rs", "src/lib.rs")
IN = ["inputs"]

# id: (title, statement, over, quantifier text, why tests can't, files, mechanism, observe_at)
PROPS = {}


def prop(id, title, statement, qtext, why, files, mech, observe, over=IN, state=None):
    assert len(title) <= 80, (id, len(title))
    PROPS[id] = dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                     anchors=dict(files=files, mechanism=[{"name": n, "where": w} for n, w in mech], observe_at=[observe], hook_needed="none",
                                  **({"state": state} if state else {})))


prop("C01", "Field addition, negation, multiplication and squaring are exact modulo p",
     "For all field elements within the documented magnitude bounds, addition, subtraction, negation, small-integer multiplication, multiplication and squaring return exactly the residue modulo p = 2^256-2^32-977, keep every limb inside its documented bound, and never overflow the machine words they use.",
     "all limb vectors of every admissible magnitude (up to 2^260 per operand), all small integers", "Nothing tests single field operations; an error in one reduction step shows up for a 2^-30 or smaller share of operands, which signature round trips never sample.",
     [F], [("Field::mul_inner / sqr_inner", F), ("Field::negate, mul_int, AddAssign", F)], "results of the public field operators")
prop("C02", "Field normalisation, zero tests, equality and ordering are exact",
     "Every normalisation yields the unique representative below p of the same residue, zero and oddness tests and equality answer for the residue and not for its representation, ordering is the ordering of canonical integers, and conditional move selects exactly one of its operands.",
     "all limb vectors of magnitude up to 31, all pairs", "The second conditional subtraction of p and the early exits matter only for values in [p, 2^256) or with special limb patterns, probability below 2^-30 in random tests.",
     [F], [("normalize, normalize_weak, normalize_var, normalizes_to_zero(_var)", F), ("is_zero, is_odd, eq, cmp, cmov", F)], "results of the public field predicates and normalisations")
prop("C03", "Field inversion and square root are exact",
     "For every nonzero element the inverse times the element is one, the inverse of zero is zero, and the square root reports success exactly when the argument is a square, returning a root of it in that case.",
     "all field elements of admissible magnitude", "A wrong link in the addition chain changes the exponent for every input, but a wrong magnitude or final comparison shows for special inputs only; no test calls these functions directly.",
     [F], [("Field::inv, inv_var, sqrt", F)], "results of inversion and square root")
prop("C04", "Scalar arithmetic is exact modulo the group order and always reduced",
     "For all reduced scalars addition, subtraction, negation, multiplication, squaring, inversion and conditional negation return exactly the residue modulo the group order n in canonical form (below n), without overflow of the machine words.",
     "all pairs of integers below n", "The final and intermediate reductions take their rare branches with probability 2^-127 or so; no random test reaches them.",
     [S], [("mul_512, reduce_512, reduce, add_assign, neg, sqr", S)], "results of the public scalar operators")
prop("C05", "Scalar predicates and bit extraction are exact",
     "The zero, one, even and high-half tests and equality answer exactly for the integer value, bit windows return exactly the bits asked for including windows that straddle word boundaries, and shifting or adding a power of two is exact.",
     "all scalars and all in-range bit positions and widths", "The high-half comparison differs from a wrong one only for a handful of values around n/2, and window extraction only at word-straddling offsets.",
     [S], [("is_zero, is_one, is_even, is_high, eq, bits, bits_var, shr_int, cadd_bit", S)], "results of the public scalar predicates")
prop("C06", "32-byte and storage encodings are exact and canonical",
     "Decoding 32 big-endian bytes yields that integer and reports exactly when it is not below the modulus, encoding a canonical value yields its 32 big-endian bytes, storage and signed-window round trips lose nothing, and decode after encode is the identity.",
     "all 2^256 byte strings and all canonical values", "The overflow report differs only for 2^32 of 2^256 inputs (or 2^128 of 2^256 for scalars); limb-boundary bits are only a few of 256.",
     [F, S], [("Field::set_b32, b32, fill_b32, FieldStorage", F), ("Scalar::set_b32, b32", S)], "byte arrays accepted and produced")
prop("C07", "Point addition, doubling and negation obey the group law in every case",
     "For all points of the curve in affine or Jacobian form, addition, mixed addition, doubling and negation return the group-law result whatever the representation: either operand at infinity, equal points, opposite points, equal ordinates with different abscissas, or distinct points; reported coordinate ratios are exact and no field magnitude bound is exceeded.",
     "all pairs of curve points and all nonzero denominators", "The exceptional cases (equal, opposite, or same-ordinate points) are hit by random tests with probability 2^-256.",
     [G], [("Jacobian::add_var_in_place, add_ge_var_in_place, add_ge_in_place, add_zinv_var_in_place", G), ("Jacobian::double_nonzero_in_place, double_var_in_place, neg_in_place", G)], "Affine and Jacobian values returned by the public group operations")
prop("C08", "Point conversions keep the point and membership tests are exact",
     "Converting between affine, Jacobian, storage and table forms never changes the point; a point built from an abscissa exists exactly when the abscissa is on the curve and has the requested parity or quadratic character; the curve membership, abscissa and equality tests answer exactly for the represented point.",
     "all points, all representations, all abscissas", "Wrong answers are confined to unusual representations (unreduced coordinates, non-residue abscissas, points at infinity) the samples do not contain.",
     [G], [("Affine::set_gej, set_gej_var, set_gej_zinv, set_xo_var, set_xquad, is_valid_var", G), ("Jacobian::eq_x_var, has_quad_y_var, set_ge, rescale", G), ("set_table_gej_var, globalz_set_table_gej", G)], "Affine and Jacobian values and predicates of the public group API")
prop("C15", "What is signed verifies and recovers to the signer's key",
     "For every secret key, message and usable nonce the signature produced verifies under the public key derived from that secret key, recovery with the returned recovery id yields exactly that public key, and verification gives the same answer for s and n-s.",
     "all secret keys, messages and nonces (with r not zero)", "The overflow case (abscissa at least n), and the interaction of the recovery id with the negation of s, occur with probability 2^-128 or depend on combinations tests sample a few hundred times.",
     [D, L], [("sign_raw, verify_raw, recover_raw", D), ("sign, verify, recover, from_secret_key", L)], "return values of sign, verify and recover")
prop("C16", "Verification accepts exactly the signatures ECDSA accepts",
     "Verification returns true if and only if r and s are nonzero, the point (m/s)G + (r/s)Q is finite and its abscissa is congruent to r modulo n, including abscissas of n or more.",
     "all r, s, messages and public keys", "Accepting or rejecting wrongly at the boundaries (zero components, infinity, abscissa at least n) has negligible probability under random inputs.",
     [D, L], [("ECMultContext::verify_raw", D), ("verify, verify_with_context", L)], "return value of verify")
prop("C17", "Recovery returns exactly the key determined by signature and id",
     "For each recovery id, recovery succeeds exactly when r and s are nonzero, the designated abscissa (r, or r+n if that is below p) lies on the curve and the resulting key is finite; the key returned is (s/r)R - (m/r)G with R of the designated parity, and every failure is reported as InvalidSignature.",
     "all r, s, messages and recovery ids 0 to 3", "Ids 2 and 3 and non-curve abscissas are exercised by a handful of vectors only.",
     [D, L], [("ECMultContext::recover_raw", D), ("recover, recover_with_context", L)], "result of recover")
prop("C18", "Signing follows ECDSA with RFC 6979 nonces, low s and the right recovery id",
     "A signature is r = x(kG) mod n, s = (m + r d)/k or its negative, whichever lies in the lower half, with the recovery id giving the overflow and the parity of the ordinate matching the returned s; the nonce is the first usable output of the HMAC-DRBG seeded with exactly the key and message bytes; signing fails on a raw nonce exactly when s would be zero.",
     "all keys, messages and generator outputs", "Unusable nonces (zero, overflowing, or giving s = 0) and the abscissa overflow never occur in tests.",
     [D, L], [("ECMultGenContext::sign_raw", D), ("sign_with_context", L)], "signature and recovery id returned by sign")
prop("C26", "ECDH hashes the compressed product point and is symmetric",
     "The shared secret is the digest of the one-byte parity tag and the 32-byte abscissa of the product of the public key and the secret scalar; it is the same for both parties and is refused exactly for a zero scalar.",
     "all public keys and scalars", "Encodings of the product point (parity, unreduced coordinates) vary with the input; tests compare a few pairs.",
     [H, L], [("ECMultContext::ecdh_raw", H), ("SharedSecret::new", L)], "bytes of SharedSecret")

prop("C19", "Public keys are always valid curve points; their encodings are exact",
     "Parsing 65-byte, 64-byte and 33-byte public keys succeeds exactly for a right tag and length, coordinates below p, a point on the curve and (hybrid tags 6, 7) the tagged parity, and yields that point; every other length or format is refused with the right error. Serialization writes the tag and canonical coordinates for any internal representation, and parsing it gives the key back; deriving a key from a secret key d gives dG.",
     "all byte strings of all lengths, all points and representations, all secret keys", "Rejection must be exact over 2^520 inputs; tests parse a few vectors and never unreduced coordinates at the boundary.",
     [L, G, F], [("PublicKey::parse, parse_slice, parse_compressed", L), ("PublicKey::serialize, serialize_compressed", L), ("Affine::set_xo_var, is_valid_var", G)], "result of PublicKey::parse and serialize")
prop("C20", "Secret keys are always integers from 1 to n-1, encoded exactly",
     "Parsing a secret key succeeds exactly for 32-byte big-endian integers from 1 to n-1; the random generator returns the first such draw and discards nothing valid; serialization and parsing are inverse; inversion, clearing, the default and the conversions from and to scalars mean what they say.",
     "all byte strings, all draws of the random source", "0, n and values above n never arise from sampling.",
     [L, S], [("SecretKey::parse, parse_slice, random", L), ("SecretKey::serialize, inv, clear", L), ("Scalar::set_b32", S)], "result of SecretKey::parse")
prop("C21", "Signatures, messages and recovery ids parse exactly",
     "The strict signature parser accepts exactly r and s below n, the overflowing one reduces both modulo n, normalisation negates s exactly when it exceeds (n-1)/2, messages are the 32 bytes modulo n, recovery ids are 0 to 3 (27 to 30 in the RPC form), every other length is refused, and serialization returns the parsed integers.",
     "all byte strings of all lengths", "The boundaries (n, (n-1)/2, 256 ids, all lengths) are exact and not sampled.",
     [L, S], [("Signature::parse_standard, parse_overflowing, serialize, normalize_s", L), ("Message::parse, RecoveryId::parse, parse_rpc", L)], "result of the parsers")
prop("C22", "Strict DER signatures parse and serialize exactly",
     "parse_der accepts exactly: a SEQUENCE whose definite, minimal length covers the rest of the input, holding two INTEGERs in minimal two's-complement form, non-negative and at most 32 significant bytes, nothing after. It returns those integers (0 for one that is n or more), any other input is refused as InvalidSignature, and serialize_der of a signature with nonzero r and s writes the one encoding parse_der reads back.",
     "all byte strings of all lengths and all signatures (a final zero INTEGER s is left open)", "The accepted set depends on lengths, paddings and sign bits of both integers together; tests parse a few encodings of random signatures.",
     [DER, L], [("Decoder::read_constructed_sequence, read_len, read_integer", DER), ("Signature::parse_der, serialize_der", L), ("SignatureArray", DER)], "result of parse_der and serialize_der")
prop("C23", "Lax DER parsing accepts what the lax rules accept, with the right integers",
     "parse_der_lax reads 0x30, a length it does not interpret (short, or 0x80+k followed by k bytes), then two INTEGERs, each with a short or long length (leading zero length bytes allowed, at most 7 significant ones), dropping leading zero bytes of the integer; it returns exactly those integers (0 for one that is n or more or longer than 32 bytes), ignores what follows, and refuses every input which is too short or carries another tag as InvalidSignature.",
     "all contents; input layouts enumerated over the length forms (DESIGN.md), total length symbolic up to 2^40", "Padding, overlong lengths and oversized integers interact; tests have no malformed encodings.",
     [DER, L], [("Decoder::read_seq_len_lax, read_len_lax, read_integer_lax", DER), ("Signature::parse_der_lax", L)], "result of parse_der_lax")
prop("C24", "No input bytes can make the public API panic or read outside its input",
     "Parsing keys, signatures (fixed-size, strict DER, lax DER), messages and recovery ids, and verifying, recovering, tweaking, combining and ECDH on what was parsed, never panics: no arithmetic overflow, out-of-range index or slice, failed assertion, unwrap of an error, or endless loop is reachable from any byte string of any length.",
     "all byte strings of all lengths, and all values the parsers return", "One panic on one crafted input is a remote crash; overflow in a length computation needs an exact byte pattern.",
     [DER, L, D, H], [("Decoder: read, peek, peek_slice, skip, read_len, read_integer and lax forms", DER), ("parse_slice, parse_der, parse_der_lax, verify, recover", L)], "absence of a panic in any public call")
prop("C25", "Tweaking and combining keys is group arithmetic, refused exactly at zero",
     "Adding a tweak t turns a public key Q into Q+tG and a secret key d into d+t; multiplying turns them into tQ and td; combining keys gives their sum. Each is refused, leaving the key as it was, exactly when the result would be infinity or zero; tweaking a secret key and tweaking its public key agree.",
     "all keys and tweaks, key lists of up to five keys including repeated and opposite keys", "Cancelling sums and equal keys are the exceptional cases of the group law and of probability zero under sampling.",
     [L, G, S], [("PublicKey::tweak_add_assign, tweak_mul_assign, combine", L), ("SecretKey::tweak_add_assign, tweak_mul_assign", L)], "the key after the call and the returned error")
prop("C32", "Public keys compare equal exactly when they are the same point",
     "Two public keys are equal if and only if both coordinates agree modulo p, whatever the internal representation of their coordinates.",
     "all pairs of keys in all internal representations", "Keys obtained by different routes hold differently normalised limbs; tests compare freshly parsed keys.",
     [L, G, F], [("PublicKey: PartialEq", L), ("Affine: PartialEq", G), ("Field: PartialEq", F)], "result of ==")


prop("C10", "Signed-window recodings of a scalar represent exactly that scalar",
     "Both recodings of a scalar into signed windows produce digits whose weighted sum is congruent to the scalar modulo the group order (for the constant-time one: to the scalar plus the reported skew of one or two), for every scalar. Every digit that is not zero is odd and below the window's bound in size, the constant-time recoding has no zero digit, and the reported length of the variable-time one is one past its last nonzero digit.",
     "all scalars, windows of 5 and 16 bits (variable time) and 4 bits (constant time)", "The special cases (the scalars -1 and -2, the last partial window, a carry into the top) are hit with probability 2^-128 or less by random scalars.",
     [E], [("ecmult_wnaf", E), ("ecmult_wnaf_const", E)], "digits and skew used by the multipliers")
prop("C11", "The double multiplication computes exactly na*A + ng*G",
     "For every finite point A and all scalars na and ng, including zero ones, the double multiplication used by verification and recovery returns exactly na*A + ng*G, also when intermediate sums are equal, opposite or at infinity.",
     "all finite points, all pairs of scalars", "Intermediate sums that coincide or cancel have probability 2^-250 for random inputs, and a wrong table entry or sign shows only for the digit that selects it.",
     [E, G], [("ECMultContext::ecmult, table_get_ge, table_get_ge_storage", E), ("globalz_set_table_gej", G)], "point computed by the double multiplication")
prop("C12", "The constant-time multiplication computes exactly the scalar multiple",
     "For every finite point A and every scalar the constant-time multiplication (used for shared secrets) returns exactly the scalar multiple of A, including for the scalars 0, 1, -1 and -2, where the final correction meets an equal or opposite point.",
     "all finite points, all scalars", "The correction step and the table lookup with a sign go wrong for single digits or for scalars next to the order only; the tests use random scalars.",
     [E], [("ECMultContext::ecmult_const, table_get_ge_const", E)], "point computed by the constant-time multiplication")
prop("C13", "Generator multiplication computes exactly the scalar multiple of G",
     "For every scalar, multiplication of the generator with a context's table, blinding scalar and matching starting point returns exactly the scalar multiple of the generator, including the point at infinity for zero; the built-in context's table and blinding are the ones this needs.",
     "all scalars", "One of 64 windows or one of 16 entries going wrong affects a sixteenth of the scalars at most.",
     [E], [("ECMultGenContext::ecmult_gen", E)], "public keys and signature nonces points")
prop("C14", "Precomputed tables hold exactly the multiples they stand for",
     "Every entry of the built-in and of the run-time built multiplication tables is the affine point it stands for: the odd multiples of the generator, and for each window the sixteen multiples plus offsets that cancel in total; the built-in starting point is the negated blinding multiple of the generator. The table construction is exact for every finite base point.",
     "all 16384 + 1024 entries of each context; all finite base points of the constructions", "A signature touches a few dozen of the 17408 entries, so a single wrong entry survives any sample of signatures.",
     [E, G], [("ECMultContext::new_boxed, ECMultGenContext::new_boxed, odd_multiples_table", E), ("set_table_gej_var, globalz_set_table_gej", G)], "contexts' tables", over=["inputs", "configurations"])


prop("C27", "Public keys survive serde in text and binary formats",
     "For any serializer, a public key is emitted as exactly one value: the standard padded base64 text of its 65-byte encoding in human-readable formats and those 65 bytes otherwise. For any deserializer, exactly the texts that are the base64 of, and the byte strings that are, a valid 33, 64 or 65-byte encoding are accepted and give the key they stand for; everything else is an error, never a panic.",
     "all public keys, all texts and byte strings, both kinds of format", "Tests round-trip a few keys through one text and one binary format; raw and compressed encodings and malformed input are not exercised.",
     [D], [("Serialize for PublicKey", D), ("Deserialize for PublicKey", D)], "values handed to the serializer and the result of deserializing")
prop("C28", "Signing, key derivation and key agreement do not branch on secrets",
     "In the operations on secrets (signing, deriving a public key, tweaking a secret key, key agreement, generator and constant-time multiplication, and the scalar and field operations under them) no branch, memory address, array index, division or early exit depends on the secret, apart from whether the input is a valid key, whether the low-s rule negated s, and whether a result is zero.",
     "all secrets, on every control-flow path", "A data-dependent branch or lookup changes no output: every functional test passes with it.",
     [S, F, G, E, D, L], [("ECMultGenContext::ecmult_gen, ECMultContext::ecmult_const", E), ("sign_raw", D), ("Scalar, Field arithmetic and cmov", S), ("Jacobian::add_ge", G)], "control flow, addresses and divisors of the compiled functions")
prop("C29", "Clearing a secret overwrites all of it and cannot be optimised away",
     "Clearing a secret key or a scalar overwrites every limb with zero by volatile stores on every path; clearing a field element or a point sets every coordinate to zero.",
     "all values, all paths", "The erasure of a value nobody reads again is invisible to tests, and a missing limb is too.",
     [L, S, F, G], [("SecretKey::clear, Scalar::clear", S), ("Field::clear", F), ("Affine::clear, Jacobian::clear", G)], "memory of the cleared value")
prop("C30", "Boxed context constructors handle the allocator correctly",
     "The boxed constructors allocate once with exactly the layout the box frees, never touch memory when the allocation failed but hand over to the allocation error handler, and return a table in which every entry has been written.",
     "both outcomes of the allocation, all entries", "No test can make the allocator fail, and a wrong layout or an unwritten entry usually goes unnoticed.",
     [E], [("ECMultContext::new_boxed, ECMultGenContext::new_boxed", E)], "allocations and the contents of the returned box", over=["fault_sequences"])
prop("C31", "The library compiles in every combination of its features",
     "The library and its core type-check without the standard library and in every supported combination of features, and the documented operations are there in each combination.",
     "all supported feature combinations", "Tests run in one configuration only.",
     [L, D, "Cargo.toml", "core/Cargo.toml"], [("cfg(feature) gates", L)], "result of type checking each configuration", over=["configurations"])
prop("C33", "Results depend on the arguments only: no ambient state or effects",
     "No operation of the library keeps or consults mutable global state, shared mutable cells, clocks, the environment, files, the network or randomness other than the generator the caller passes in, so results are a function of the arguments and calls on shared contexts from several threads cannot interfere.",
     "all call histories, schedules and environments", "A cache or a counter gives right answers in every sequential test and wrong ones under some history or schedule.",
     [L, D, E], [("static contexts", L), ("public API", L)], "statics, types and callees of every function of the library", over=["histories", "schedules"])
prop("C34", "Key, signature and message types cannot be forged or mixed up",
     "Safe code outside the library cannot build or alter a secret key, public key, shared secret or recovery id except through the checking constructors, cannot pass one kind of value where another is expected, and cannot mutate the shared contexts; the types that should cross threads can.",
     "all safe client programs", "That a program does not compile cannot be expressed in the unit tests there are.",
     [L, E, S], [("SecretKey, PublicKey, Signature, RecoveryId, SharedSecret", L), ("ECMultContext, ECMultGenContext", E)], "verdict of the type checker on each client program", over=["programs"])


REASON = {}
DEFREASON = "the analysis for this property is not finished yet"


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for k in sorted(PROPS):
            f.write(json.dumps(PROPS[k]) + "\n")
    checks, na = [], []
    for k in sorted(PROPS):
        if k in registry.PROPS:
            checks.append({"property": k, "quick_cmd": "python3 check.py " + k, "thorough_cmd": "python3 check.py " + k,
                           "technique": registry.TECH.get(k, "abstract interpretation of MIR (polynomial/interval domain)"),
                           "level": registry.LEVEL.get(k, "proof"),
                           "level_note": registry.NOTE.get(k, "Sound for every input in the stated range, relative to rustc's MIR and the models of core functions; no bound on inputs.")})
        else:
            na.append({"property": k, "reason": REASON.get(k, DEFREASON)})
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
         "notes": "Static analysis only: the checks compile /repo's current tree to MIR and analyse it; nothing of it is executed. No hooks are needed in /repo."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
