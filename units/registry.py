"""Which analysis units decide which property.

PROPS: id -> list of (module, group) pairs; FLOOR: the least number of
obligations the unchanged tree produces, below which a run is a failure
(an analysis that silently looks at less than it should is not believed).
"""

PROPS = {
    "C01": [("field", "arith")],
    "C02": [("field", "norm"), ("group", "feq")],
    "C03": [("fexp", "finv")],
    "C04": [("scalar", "sarith"), ("fexp", "sinv")],
    "C05": [("scalar", "spred"), ("scalar", "sbits")],
    "C06": [("field", "codec"), ("scalar", "scodec")],
    "C07": [("group", "law")],
    "C08": [("group", "conv"), ("group", "curve")],
    "C10": [("recode", "wnaf"), ("recode", "recode")],
    "C11": [("mult", "var")],
    "C12": [("mult", "const")],
    "C13": [("mult", "gen")],
    "C14": [("mult", "contexts"), ("mult", "tables")],
    "C15": [("ecdsa", "roundtrip")],
    "C16": [("ecdsa", "verify")],
    "C17": [("ecdsa", "recover")],
    "C18": [("ecdsa", "sign")],
    "C19": [("keys", "pk")],
    "C20": [("keys", "sk")],
    "C21": [("keys", "sig")],
    "C22": [("der", "strict")],
    "C23": [("der", "lax")],
    "C24": [("der", "any"), ("keys", "pk"), ("keys", "sk"), ("keys", "sig"), ("keys", "tweak"), ("ecdsa", "verify"), ("ecdsa", "recover"), ("ecdsa", "ecdh")],
    "C25": [("keys", "tweak")],
    "C26": [("ecdsa", "ecdh")],
    "C27": [("serde_", "serde")],
    "C28": [("flow", "ct")],
    "C29": [("effects", "erase")],
    "C30": [("effects", "boxed")],
    "C31": [("witness", "features")],
    "C32": [("keys", "pkeq")],
    "C33": [("effects", "ambient")],
    "C34": [("witness", "sealed")],
}

# The contracts of lower layers a property's own units assume: decided again in
# the property's check, so that a lower layer that breaks breaks it too.  A
# lower-layer unit that cannot be decided (as opposed to one found wrong) is a
# failure of the property it is primary for, and is listed here as undecided.
_LOW = [("field", "arith"), ("field", "norm"), ("group", "feq"), ("fexp", "finv")]
_SLOW = [("scalar", "sarith"), ("fexp", "sinv"), ("scalar", "spred"), ("scalar", "scodec")]
_GE = ("group", "law", "Jacobian::add_ge", "Jacobian::add_ge_in_place", "Jacobian::double_nonzero_in_place", "Jacobian::double_var", "Affine::neg", "Affine::neg_in_place")
_VAR = [("mult", "var"), ("recode", "wnaf"), ("group", "law")]
_GEN = [("mult", "gen"), _GE, ("scalar", "sbits")]
_CONST = [("mult", "const"), ("recode", "recode"), _GE]
DEPS = {
    "C03": _LOW[:3],
    "C07": _LOW[:3],
    "C08": _LOW,
    "C10": [("scalar", "sbits"), ("scalar", "spred"), ("scalar", "sarith", "Scalar::cond_neg_assign")],
    "C11": _LOW + _VAR[1:] + [("mult", "contexts", "ECMULT_CONTEXT")],
    "C12": _LOW + _CONST[1:] + [("scalar", "spred"), ("scalar", "sbits"), ("scalar", "sarith", "Scalar::cond_neg_assign")],
    "C13": _LOW + _GEN[1:] + [("mult", "contexts", "ECMULT_GEN_CONTEXT")],
    "C14": _LOW + [("group", "law"), ("group", "conv")],
    "C15": _LOW + _SLOW + _VAR + _GEN + [("group", "curve"), ("group", "conv"), ("field", "codec")],
    "C16": _LOW + _SLOW + _VAR + [("group", "curve"), ("field", "codec")],
    "C17": _LOW + _SLOW + _VAR + [("group", "curve"), ("group", "conv"), ("field", "codec")],
    "C18": _LOW + _SLOW + _GEN + [("group", "conv"), ("field", "codec")],
    "C19": _LOW + _GEN + [("field", "codec"), ("group", "curve"), ("group", "conv")],
    "C20": [("scalar", "spred"), ("scalar", "scodec")],
    "C21": [("scalar", "spred"), ("scalar", "scodec"), ("scalar", "sarith", "Scalar::cond_neg_assign")],
    "C22": [("scalar", "scodec")],
    "C23": [("scalar", "scodec", "Scalar::set_b32")],
    "C25": _LOW + _SLOW + _VAR + _GEN + [("group", "conv")],
    "C26": _LOW + _CONST + [("group", "conv"), ("field", "codec"), ("scalar", "spred")],
    "C27": [("keys", "pk", "PublicKey::parse_slice", "PublicKey::serialize")],
    "C32": _LOW[:3] + [("group", "curve", "Affine equality")],
}

TRUST = [
    "rustc's MIR for the current tree (nightly, mir-opt-level 0) means what the program means",
    "the abstract interpreter under /verif/ai and its models of core/alloc functions",
]

TRUST_EXTRA = {}
# about a quarter of what the tree produces: a rewrite may halve the work, an
# analysis that has lost its subject produces next to nothing
FLOOR = {
    "C01": 2142,
    "C02": 100,
    "C03": 572,
    "C04": 1066,
    "C05": 17542,
    "C06": 196,
    "C07": 654,
    "C08": 172,
    "C10": 24457,
    "C11": 18492,
    "C12": 4463,
    "C13": 1633,
    "C14": 147573,
    "C15": 42,
    "C16": 20,
    "C17": 168,
    "C18": 38,
    "C19": 107,
    "C20": 10,
    "C21": 19,
    "C22": 85236,
    "C23": 117914,
    "C24": 606,
    "C25": 157,
    "C26": 31,
    "C27": 4,
    "C28": 71783,
    "C29": 4,
    "C30": 4613,
    "C31": 3,
    "C32": 8,
    "C33": 6149,
    "C34": 16,
}
LEVEL = {"C31": "other", "C34": "other"}
EXPLAIN = {
    "C28": "information-flow analysis of the compiled MIR, interprocedural and context-sensitive in the labels of the arguments: every switch, assert, address, index, division and comparison that feeds one, reached from the entry points on secrets, is an obligation that it does not depend on the secret",
    "C29": "abstract interpretation of the compiled MIR of the clearing functions; the stores that are volatile are recorded",
    "C30": "abstract interpretation of the compiled MIR of the boxed constructors under both outcomes of the allocation",
    "C31": "the type checker run on the current tree in each combination of features, and witness programs naming the operations that must be there",
    "C33": "effect analysis: every static, every type held by the functions and every function reachable over the call graph of the compiled MIR is an obligation",
    "C34": "the type checker run on client programs against the current tree: each forging program must be rejected with an error of the named class at the named line, each legitimate one accepted",
}
_PRE = ["field elements handed in keep the magnitude bounds the library documents (at most 31, or less where stated)", "overflow checks on, debug assertions off: the analysed configuration; any overflow is reported as a violation"]
ASSUME = {k: list(_PRE) for k in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C12", "C13", "C14")}
ASSUME.update({
    "C15": ["SHA-256 and HMAC-DRBG deliver some bytes (any)", "r is not zero (probability 2^-256; the library only asserts it)", "the multiplications are exact (C11 and C13 decide that)"],
    "C16": ["the double multiplication is exact (C11 decides that)"], "C17": ["the double multiplication is exact (C11 decides that)"],
    "C18": ["HMAC-DRBG delivers some bytes (any)", "generator multiplication is exact (C13 decides that)"],
    "C26": ["the digest is some function of the bytes it is given", "constant-time multiplication is exact (C12 decides that)"],
    "C25": ["the multiplications are exact (C11, C13 decide that)"],
    "C27": ["the base64 crate encodes and decodes what its engine's tables and configuration say", "parse_slice and serialize mean what C19 decides"],
    "C28": ["no claim about the machine code the compiler makes from the MIR, nor about the timing of single instructions", "public results: validity of a parsed key, whether a scalar is zero, whether s was high"],
    "C33": ["the dependencies' own source is analysed as far as it is reachable and has MIR", "HMAC-DRBG and SHA-256 have no state but their own object"],
})

SLOW = {}


def cost(job):
    modname, group, idx = job
    import importlib
    return SLOW.get(importlib.import_module("units." + modname).UNITS[group][idx][0], 1)


def needs_dump(prop):
    return True


def relevant(prop, group, f):
    """does this finding speak about this property?  C24 shares its units with
    the properties about results; only reachable panics (and, in its own units,
    anything undecided) count against it"""
    if prop == "C24" and group != "der.any":
        return f.get("kind") == "panic"
    return True


TECH = {k: "abstract interpretation of MIR: residues as polynomials modulo p or n over limb atoms, with intervals and BDD path conditions" for k in ("C01", "C02", "C03", "C04", "C05", "C06")}
TECH.update({k: "abstract interpretation of MIR: coordinates as polynomials over the function field of the curve, case split on exceptional cases" for k in ("C07", "C08", "C32")})
TECH.update({k: "abstract interpretation of MIR with loop invariants: points as linear forms over formal base points, scalars as linear forms modulo n" for k in ("C10", "C11", "C12", "C13", "C14")})
TECH.update({k: "abstract interpretation of MIR: points and scalars as terms over formal base points, compared with the ECDSA equations" for k in ("C15", "C16", "C17", "C18", "C25", "C26")})
TECH.update({k: "abstract interpretation of MIR over symbolic byte strings, compared with a reference decision tree" for k in ("C19", "C20", "C21", "C22", "C23")})
TECH.update({
    "C24": "abstract interpretation of MIR: every reachable panic, overflow, index and slice obligation on arbitrary input",
    "C27": "abstract interpretation of MIR for a serializer and deserializer of unknown behaviour",
    "C28": "interprocedural information-flow (taint) analysis of MIR",
    "C29": "abstract interpretation of MIR recording volatile stores",
    "C30": "abstract interpretation of MIR under both allocator outcomes",
    "C31": "type checking every feature combination, with witness programs",
    "C33": "effect analysis over statics, types and the call graph of MIR",
    "C34": "compile-fail and compile-pass witness programs against the type checker",
})
NOTE = {
    "C28": "Sound at the level of MIR for the entry points listed, relative to the models of core functions and the named public results; conditional moves written as selects are allowed. No claim about machine code.",
    "C31": "Exhaustive over the eleven feature combinations; decided by rustc's type checker.",
    "C33": "Over-approximates the call graph of MIR (all callees of all functions of the library).",
    "C34": "Fifty-four rejected and three accepted client programs, each decided by rustc's type checker; the list of programs is finite.",
    "C29": "Sound for every value and path, relative to rustc's MIR; that the compiler keeps volatile stores is the language's guarantee.",
}
