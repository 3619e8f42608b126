"""Type-level witnesses: the compiler decides on /repo's current source.

features: the library type-checks with every combination of its features.
sealed:   programs that forge or change a validated value must not compile,
          for the expected reason; programs using the public API must.
"""
import json
import os
import subprocess
from ai.build import WORK, REPO, VERIF

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=os.path.join(WORK, "wtarget"), RUSTC_WRAPPER="", RUSTFLAGS="")


def cargo(args, cwd, timeout=700):
    return subprocess.run(["cargo", "+stable"] + args, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)


COMBOS = ["", "std", "hmac", "static-context", "hmac static-context", "std hmac", "std static-context", "lazy-static-context",
          "hmac lazy-static-context", "std hmac static-context", "std hmac static-context lazy-static-context"]


def errors(out):
    r = []
    for l in out.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("reason") == "compiler-message" and d["message"]["level"] == "error":
            m = d["message"]
            sp = [s for s in m["spans"] if s["is_primary"]]
            r.append((d["target"]["name"], (m.get("code") or {}).get("code"), m["message"], "%s:%d" % (sp[0]["file_name"], sp[0]["line_start"]) if sp else ""))
    return r


def combo(f):
    def body(u):
        u.entry = "libsecp256k1 with features [%s]" % f
        r = cargo(["check", "--offline", "--lib", "--message-format=json", "--no-default-features", "--features", f], REPO)
        es = errors(r.stdout)
        u.check(r.returncode == 0, "does not compile", "; ".join("%s %s" % (e[3], e[2]) for e in es[:4]) or r.stderr[-400:])
    return body


def core_combo(f):
    def body(u):
        u.entry = "libsecp256k1-core with features [%s]" % f
        r = cargo(["check", "--offline", "--lib", "--message-format=json", "--no-default-features", "--features", f], os.path.join(REPO, "core"))
        es = errors(r.stdout)
        u.check(r.returncode == 0, "does not compile", "; ".join("%s %s" % (e[3], e[2]) for e in es[:4]) or r.stderr[-400:])
    return body


PRE = """#![allow(unused, deprecated, static_mut_refs)]
use libsecp256k1::*;
use libsecp256k1::curve::*;
use core::convert::TryFrom;
fn any<T>() -> T { loop {} }
"""

# name, what it would mean if it compiled, body, codes one of which is expected
FAIL = [
    ("pk_ctor", "a public key can be built from an unchecked point", "let p = PublicKey(any::<Affine>());", ("E0423", "E0603", "E0574", "E0618")),
    ("pk_from", "a point converts into a public key without a check", "let p: PublicKey = any::<Affine>().into();", ("E0277",)),
    ("pk_field", "the point inside a public key can be replaced", "let mut p = any::<PublicKey>(); p.0 = any::<Affine>();", ("E0616", "E0609", "E0608", "E0599")),
    ("pk_field_mut", "the point inside a public key can be borrowed mutably", "let mut p = any::<PublicKey>(); let a: &mut Affine = &mut p.0;", ("E0616", "E0609", "E0608", "E0599")),
    ("pk_deref_mut", "a public key gives out its point mutably", "let mut p = any::<PublicKey>(); let a: &mut Affine = &mut *p;", ("E0614", "E0308", "E0596")),
    ("pk_as_mut", "a public key gives out its point mutably", "let mut p = any::<PublicKey>(); let a: &mut Affine = p.as_mut();", ("E0599",)),
    ("pk_default", "there is a public key that belongs to no check", "let p: PublicKey = Default::default();", ("E0277",)),
    ("sk_ctor", "a secret key can be built from an unchecked scalar", "let p = SecretKey(any::<Scalar>());", ("E0423", "E0603", "E0574", "E0618")),
    ("sk_from", "a scalar converts into a secret key without a check", "let p: SecretKey = any::<Scalar>().into();", ("E0277",)),
    ("sk_field", "the scalar inside a secret key can be replaced", "let mut p = any::<SecretKey>(); p.0 = any::<Scalar>();", ("E0616", "E0609", "E0608", "E0599")),
    ("sk_field_mut", "the scalar inside a secret key can be borrowed mutably", "let mut p = any::<SecretKey>(); let a: &mut Scalar = &mut p.0;", ("E0616", "E0609", "E0608", "E0599")),
    ("sk_deref_mut", "a secret key gives out its scalar mutably", "let mut p = any::<SecretKey>(); let a: &mut Scalar = &mut *p;", ("E0614", "E0308", "E0596")),
    ("ri_ctor", "a recovery id out of range can be built", "let r = RecoveryId(any::<u8>());", ("E0423", "E0603", "E0574", "E0618")),
    ("ri_field", "a recovery id can be changed", "let mut r = any::<RecoveryId>(); r.0 = 9;", ("E0616", "E0609", "E0608", "E0599")),
    ("ri_from", "a byte converts into a recovery id without a check", "let r: RecoveryId = any::<u8>().into();", ("E0277",)),
    ("ss_ctor", "a shared secret can be forged", "let s: SharedSecret<sha2::Sha256> = SharedSecret(any());", ("E0423", "E0603", "E0574", "E0618")),
    ("ss_field", "a shared secret can be changed", "let mut s = any::<SharedSecret<sha2::Sha256>>(); s.0 = any();", ("E0616", "E0609", "E0608", "E0599")),
    ("ctx_lit", "a verification table can be built with any content", "let c = ECMultContext { pre_g: any() };", ("E0451", "E0560", "E0063", "E0423")),
    ("ctx_field", "a verification table can be changed", "let mut c = any::<Box<ECMultContext>>(); c.pre_g[0] = any();", ("E0616", "E0609", "E0608", "E0599")),
    ("gen_lit", "a signing table can be built with any content", "let c = ECMultGenContext { prec: any(), blind: any(), initial: any() };", ("E0451", "E0560", "E0063", "E0423")),
    ("gen_field", "a signing table can be changed", "let mut c = any::<Box<ECMultGenContext>>(); c.blind = any();", ("E0616", "E0609", "E0608", "E0599")),
    ("ctx_raw", "a verification table can be built from raw values in safe code", "let c = ECMultContext::new_from_raw(any());", ("E0133",)),
    ("gen_raw", "a signing table can be built from raw values in safe code", "let c = ECMultGenContext::new_from_raw(any());", ("E0133",)),
    ("ctx_static", "the shared verification table can be replaced", "ECMULT_CONTEXT = any();", ("E0594", "E0070")),
    ("gen_static", "the shared signing table can be replaced", "ECMULT_GEN_CONTEXT = any();", ("E0594", "E0070")),
    ("ctx_static_mut", "the shared verification table can be borrowed mutably", "let c: &'static mut ECMultContext = &mut ECMULT_CONTEXT;", ("E0596", "E0716")),
    ("gen_static_mut", "the shared signing table can be borrowed mutably", "let c: &'static mut ECMultGenContext = &mut ECMULT_GEN_CONTEXT;", ("E0596", "E0716")),
    ("ctx_static_unsafe", "the shared verification table is a mutable global", "unsafe { ECMULT_CONTEXT = any(); }", ("E0594", "E0070")),
    ("gen_static_unsafe", "the shared signing table is a mutable global", "unsafe { ECMULT_GEN_CONTEXT = any(); }", ("E0594", "E0070")),
    ("pk_borrow_mut", "a public key gives out its point mutably", "let mut p = any::<PublicKey>(); let a: &mut Affine = <PublicKey as core::borrow::BorrowMut<Affine>>::borrow_mut(&mut p);", ("E0277",)),
    ("pk_bytes", "bytes convert into a public key without a check", "let p: PublicKey = any::<[u8; 65]>().into();", ("E0277",)),
    ("pk_comp", "bytes convert into a public key without a check", "let p: PublicKey = any::<[u8; 33]>().into();", ("E0277",)),
    ("sk_as_mut", "a secret key gives out its scalar mutably", "let mut p = any::<SecretKey>(); let a: &mut Scalar = p.as_mut();", ("E0599",)),
    ("sk_borrow_mut", "a secret key gives out its scalar mutably", "let mut p = any::<SecretKey>(); let a: &mut Scalar = <SecretKey as core::borrow::BorrowMut<Scalar>>::borrow_mut(&mut p);", ("E0277",)),
    ("sk_bytes", "bytes convert into a secret key without a check", "let p: SecretKey = any::<[u8; 32]>().into();", ("E0277",)),
    ("ri_i32", "an integer converts into a recovery id without a check", "let r: RecoveryId = any::<i32>().into();", ("E0277",)),
    ("ri_default", "there is a recovery id that belongs to no check", "let r: RecoveryId = Default::default();", ("E0277",)),
    ("ss_as_mut", "a shared secret gives out its bytes mutably", "let mut s = any::<SharedSecret<sha2::Sha256>>(); let b: &mut [u8] = s.as_mut();", ("E0599",)),
    ("ss_bytes", "bytes convert into a shared secret", "let s: SharedSecret<sha2::Sha256> = any::<[u8; 32]>().into();", ("E0277",)),
    ("ss_default", "there is a shared secret of no key agreement", "let s: SharedSecret<sha2::Sha256> = Default::default();", ("E0277",)),
    ("mix_sign", "a message is taken for a secret key", "let r = sign(&any::<Message>(), &any::<Message>());", ("E0308",)),
    ("mix_sign2", "a secret key is taken for a message", "let r = sign(&any::<SecretKey>(), &any::<SecretKey>());", ("E0308",)),
    ("mix_sign3", "a bare scalar is taken for a secret key", "let r = sign(&any::<Message>(), &any::<Scalar>());", ("E0308",)),
    ("mix_verify", "a secret key is taken for a public key", "let r = verify(&any::<Message>(), &any::<Signature>(), &any::<SecretKey>());", ("E0308",)),
    ("mix_verify2", "an unchecked point is taken for a public key", "let r = verify(&any::<Message>(), &any::<Signature>(), &any::<Affine>());", ("E0308",)),
    ("mix_recover", "a byte is taken for a recovery id", "let r = recover(&any::<Message>(), &any::<Signature>(), &any::<u8>());", ("E0308",)),
    ("mix_tweak", "a message is taken for a tweak", "let r = any::<PublicKey>().tweak_add_assign(&any::<Message>());", ("E0308",)),
    ("mix_tweak2", "a bare scalar is taken for a tweak", "let r = any::<SecretKey>().tweak_mul_assign(&any::<Scalar>());", ("E0308",)),
    ("mix_msg", "a secret key converts into a message", "let m: Message = any::<SecretKey>().into();", ("E0277",)),
    ("mix_msg2", "a message converts into a secret key", "let m: SecretKey = any::<Message>().into();", ("E0277",)),
    ("mix_pk", "a secret key converts into a public key", "let m: PublicKey = any::<SecretKey>().into();", ("E0277",)),
    ("mix_derive", "a message is taken for a secret key", "let p = PublicKey::from_secret_key(&any::<Message>());", ("E0308",)),
    ("mix_ecdh", "an unchecked point is taken for a public key", "let s = SharedSecret::<sha2::Sha256>::new(&any::<Affine>(), &any::<SecretKey>());", ("E0308",)),
    ("mix_ctx", "a table for verification is taken for one for signing", "let r = sign_with_context(&any::<Message>(), &any::<SecretKey>(), &*any::<Box<ECMultContext>>());", ("E0308",)),
]

OK = [
    ("sig_api", """
    let _: fn(&Message, &SecretKey) -> (Signature, RecoveryId) = sign;
    let _: fn(&Message, &SecretKey, &ECMultGenContext) -> (Signature, RecoveryId) = sign_with_context;
    let _: fn(&Message, &Signature, &PublicKey) -> bool = verify;
    let _: fn(&Message, &Signature, &PublicKey, &ECMultContext) -> bool = verify_with_context;
    let _: fn(&Message, &Signature, &RecoveryId) -> Result<PublicKey, Error> = recover;
    let _: fn(&Message, &Signature, &RecoveryId, &ECMultContext) -> Result<PublicKey, Error> = recover_with_context;
    let _: fn(&[u8; 64]) -> Signature = Signature::parse_overflowing;
    let _: fn(&[u8; 64]) -> Result<Signature, Error> = Signature::parse_standard;
    let _: fn(&[u8]) -> Result<Signature, Error> = Signature::parse_overflowing_slice;
    let _: fn(&[u8]) -> Result<Signature, Error> = Signature::parse_standard_slice;
    let _: fn(&[u8]) -> Result<Signature, Error> = Signature::parse_der;
    let _: fn(&[u8]) -> Result<Signature, Error> = Signature::parse_der_lax;
    let _: fn(&Signature) -> [u8; 64] = Signature::serialize;
    let _: fn(&Signature) -> libsecp256k1::util::SignatureArray = Signature::serialize_der;
    let _: fn(&mut Signature) = Signature::normalize_s;
    let _: fn(&[u8; 32]) -> Message = Message::parse;
    let _: fn(&[u8]) -> Result<Message, Error> = Message::parse_slice;
    let _: fn(u8) -> Result<RecoveryId, Error> = RecoveryId::parse;
    let _: fn(u8) -> Result<RecoveryId, Error> = RecoveryId::parse_rpc;
"""),
    ("key_api", """
    let _: fn(&[u8; 65]) -> Result<PublicKey, Error> = PublicKey::parse;
    let _: fn(&[u8; 33]) -> Result<PublicKey, Error> = PublicKey::parse_compressed;
    let _: fn(&[u8], Option<PublicKeyFormat>) -> Result<PublicKey, Error> = PublicKey::parse_slice;
    let _: fn(&PublicKey) -> [u8; 65] = PublicKey::serialize;
    let _: fn(&PublicKey) -> [u8; 33] = PublicKey::serialize_compressed;
    let _: fn(&SecretKey) -> PublicKey = PublicKey::from_secret_key;
    let _: fn(&mut PublicKey, &SecretKey) -> Result<(), Error> = PublicKey::tweak_add_assign;
    let _: fn(&mut PublicKey, &SecretKey) -> Result<(), Error> = PublicKey::tweak_mul_assign;
    let _: fn(&[PublicKey]) -> Result<PublicKey, Error> = PublicKey::combine;
    let _: fn(&[u8; 32]) -> Result<SecretKey, Error> = SecretKey::parse;
    let _: fn(&[u8]) -> Result<SecretKey, Error> = SecretKey::parse_slice;
    let _: fn(&SecretKey) -> [u8; 32] = SecretKey::serialize;
    let _: fn(&mut SecretKey, &SecretKey) -> Result<(), Error> = SecretKey::tweak_add_assign;
    let _: fn(&mut SecretKey, &SecretKey) -> Result<(), Error> = SecretKey::tweak_mul_assign;
    let _: fn(&mut SecretKey) = SecretKey::clear;
    let _: fn(&PublicKey, &SecretKey) -> Result<SharedSecret<sha2::Sha256>, Error> = SharedSecret::<sha2::Sha256>::new;
    let _: Result<SecretKey, Error> = SecretKey::try_from(any::<Scalar>());
"""),
    ("traits", """
    fn shared<T: Send + Sync + 'static>() {}
    shared::<PublicKey>(); shared::<SecretKey>(); shared::<Signature>(); shared::<Message>(); shared::<RecoveryId>();
    shared::<SharedSecret<sha2::Sha256>>(); shared::<ECMultContext>(); shared::<ECMultGenContext>(); shared::<Error>();
    let _: &'static ECMultContext = &ECMULT_CONTEXT;
    let _: &'static ECMultGenContext = &ECMULT_GEN_CONTEXT;
    let _: Box<ECMultContext> = ECMultContext::new_boxed();
    let _: Box<ECMultGenContext> = ECMultGenContext::new_boxed();
"""),
]


def crate():
    d = os.path.join(WORK, "witness")
    os.makedirs(os.path.join(d, "src", "bin"), exist_ok=True)
    def put(p, s):
        p = os.path.join(d, p)
        if not os.path.exists(p) or open(p).read() != s:
            open(p, "w").write(s)
    put("Cargo.toml", """[package]
name = "witness"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
libsecp256k1 = { path = "%s" }
sha2 = { version = "0.9", default-features = false }
""" % REPO)
    lock = os.path.join(VERIF, "roots", "Cargo.lock")
    if not os.path.exists(os.path.join(d, "Cargo.lock")) and os.path.exists(lock):
        import shutil
        shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    for n, _, b, _ in FAIL:
        put("src/bin/f_%s.rs" % n, PRE + "fn main() {\n    %s\n}\n" % b)
    for n, b in OK:
        put("src/bin/k_%s.rs" % n, PRE + "fn main() {%s}\n" % b)
    return d


def sealed(u):
    d = crate()
    r = cargo(["check", "--offline", "--bins", "--keep-going", "--message-format=json"], d)
    es = errors(r.stdout)
    built = set()
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            built.add(m["target"]["name"])
    u.entry = "public API of libsecp256k1"
    if not u.check("libsecp256k1" in built, "the library does not compile", r.stderr[-400:]):
        return
    for n, what, b, codes in FAIL:
        t = "f_" + n
        got = {e[1] for e in es if e[0] == t}
        u.check(t not in built, what, "this compiles: " + b)
        u.check(t in built or got & set(codes), "witness %s is refused for another reason" % n, "%s: %s" % (sorted(map(str, got)), [e[2] for e in es if e[0] == t][:2]))
    for n, b in OK:
        t = "k_" + n
        u.check(t in built, "the public API changed (%s)" % n, "; ".join("%s %s" % (e[1], e[2]) for e in es if e[0] == t)[:400])


UNITS = {
    "features": [("libsecp256k1 [%s]" % f, combo(f)) for f in COMBOS] + [("libsecp256k1-core [%s]" % f, core_combo(f)) for f in ("", "std")],
    "sealed": [("sealed types", sealed)],
}
