import sys; sys.path.insert(0,'/verif/tools')
from seed import *
F="core/src/field.rs"; S="core/src/scalar.rs"; G="core/src/group.rs"; M="core/src/ecmult.rs"; D="core/src/ecdsa.rs"; DER="core/src/der.rs"; L="src/lib.rs"; HH="core/src/ecdh.rs"
P='''#![allow(unused_imports,dead_code)]
use libsecp256k1::*;
use libsecp256k1::curve::*;
use std::convert::TryFrom;
fn fe(n:u32)->Field{ let mut b=[0u8;32]; b[28..].copy_from_slice(&n.to_be_bytes()); let mut f=Field::default(); assert!(f.set_b32(&b)); f }
fn sc(b:&[u8;32])->Scalar{ let mut s=Scalar::default(); let _=s.set_b32(b); s }
fn si(n:u32)->Scalar{ Scalar::from_int(n) }
fn gmul(s:&Scalar)->Affine{ let mut j=Jacobian::default(); ECMULT_GEN_CONTEXT.ecmult_gen(&mut j,s); let mut a=Affine::default(); a.set_gej(&j); a.x.normalize(); a.y.normalize(); a }
fn aff(j:&Jacobian)->Affine{ let mut a=Affine::default(); a.set_gej(j); a.x.normalize(); a.y.normalize(); a }
fn n_minus(k:u32)->Scalar{ -si(k) }
'''
ALL={}
def s(id,*a,**k): ALL[id]=(a,k)
s("b03","C03",[(F,"    pub fn inv_var(&self) -> Field {\n","    pub fn inv_var(&self) -> Field {\n        // one is its own inverse\n        if self.normalized && self.n[0] == 1 && self.n[1] == 0 && self.n[2] == 0 {\n            return *self;\n        }\n")],
 "a normalised element whose low 78 bits are exactly one","the variable-time inverse of such an element is the element itself",
 P+'fn main(){ let mut b=[0u8;32]; b[31]=1; b[2]=9; let mut f=Field::default(); assert!(f.set_b32(&b)); f.normalize(); let mut r=f.inv_var()*f; r.normalize(); assert!(r==fe(1)); }')
s("b07","C07",[(G,"let degenerate = m.normalizes_to_zero() & rr.normalizes_to_zero();","// rr vanishes only when the slope's quotient does\n        let degenerate = rr.normalizes_to_zero();")],
 "adding (x,y) and (beta x,y) with beta a cube root of unity","the constant-time addition takes the wrong formula",
 P+'''fn main(){ let g=AFFINE_G; // beta
 let mut b=Field::default(); assert!(b.set_b32(&[0x7a,0xe9,0x6a,0x2b,0x65,0x7c,0x07,0x10,0x6e,0x64,0x47,0x9e,0xac,0x34,0x34,0xe9,0x9c,0xf0,0x49,0x75,0x12,0xf5,0x89,0x95,0xc1,0x39,0x6c,0x28,0x71,0x95,0x01,0xee]));
 let mut bx=g.x*b; bx.normalize(); let mut y=g.y; y.normalize(); let h=Affine::new(bx,y);
 let j=Jacobian::from_ge(&g); let a=aff(&j.add_ge(&h)); let w=aff(&j.add_ge_var(&h,None)); assert!(a==w); assert!(a.is_valid_var()); }''')
s("b08","C08",[(G,"        let yz = self.y * self.z;\n        yz.is_quad_var()","        // y / z^3 is a square exactly when y * z is\n        let yz = self.y * self.z.sqr();\n        yz.is_quad_var()")],
 "a Jacobian point whose z is not a square","the quadratic-character test answers for the representation, not for the point",
 P+'fn main(){ let mut z=fe(2); loop { z.normalize(); let q=z.is_quad_var(); let mut j=Jacobian::from_ge(&AFFINE_G); let w=j.has_quad_y_var(); j.rescale(&z); assert!(j.has_quad_y_var()==w); if !q {break} z+=fe(1);} }')
s("b10","C10",[(M,"    let not_neg_one = !neg_s.is_one();\n    s.cadd_bit(if bit { 1 } else { 0 }, not_neg_one);","    let not_neg_one = true;\n    s.cadd_bit(if bit { 1 } else { 0 }, not_neg_one && !neg_s.is_zero());")],
 "the scalars n-1 and 0","the recoding of the scalar -1 (and of 0) for constant-time multiplication is wrong",
 P+'fn main(){ for k in [n_minus(1),n_minus(2),n_minus(3),si(1),si(2)].iter(){ let mut r=Jacobian::default(); ECMULT_CONTEXT.ecmult_const(&mut r,&AFFINE_G,k); assert!(!r.is_infinity()); assert!(aff(&r)==gmul(k)); } let mut r=Jacobian::default(); ECMULT_CONTEXT.ecmult_const(&mut r,&AFFINE_G,&si(0)); assert!(r.is_infinity()); }')
s("b11","C11",[(M,"        odd_multiples_table_globalz_windowa(&mut pre_a, &mut z, a);\n\n        let bits_ng","        // no table is needed when nothing is taken from it\n        if bits_na > 0 {\n            odd_multiples_table_globalz_windowa(&mut pre_a, &mut z, a);\n        }\n\n        let bits_ng")],
 "a double multiplication whose first scalar is zero","the common denominator stays zero and so does the result",
 P+'fn main(){ let k=sc(&[5;32]); let mut r=Jacobian::default(); ECMULT_CONTEXT.ecmult(&mut r,&Jacobian::from_ge(&AFFINE_G),&si(0),&k); assert!(aff(&r)==gmul(&k)); }')
s("b12","C12",[(M,"        let sc = *scalar;\n","        let sc = *scalar;\n        // nothing to do for one\n        if sc.bits(0, 31) == 1 && sc.bits(128, 31) == 0 && sc.bits(224, 31) == 0 {\n            r.set_ge(a);\n            return;\n        }\n")],
 "a scalar whose lowest limb is one and whose fifth and highest limbs are zero","the constant-time multiple by such a scalar is the point itself",
 P+'fn main(){ let mut b=[0u8;32]; b[31]=1; b[20]=7; let k=sc(&b); let mut r=Jacobian::default(); ECMULT_CONTEXT.ecmult_const(&mut r,&AFFINE_G,&k); assert!(aff(&r)==gmul(&k)); }')
s("b13","C13",[(M,"        for j in 0..64 {\n            let mut bits = gnb.bits(j * 4, 4);","        for j in 0..64 {\n            // every window above is empty\n            if j == 63 && gnb.bits(224, 28) == 0 {\n                continue;\n            }\n            let mut bits = gnb.bits(j * 4, 4);")],
 "a scalar which is, after blinding, below 2^224 or so","the offset of the last window is not taken off",
 P+"""fn main(){ 
 // the blinding value is found from the public constants
 let bl=libsecp256k1_blind(); let k=si(5)+(-bl); let a=gmul(&k); let mut r=Jacobian::default(); ECMULT_CONTEXT.ecmult(&mut r,&Jacobian::from_ge(&AFFINE_G),&k,&si(0)); assert!(aff(&r)==a); }
fn libsecp256k1_blind()->Scalar { Scalar([2217680822, 850875797, 1046150361, 1330484644, 4015777837, 2466086288, 2052467175, 2084507480]) }
""")
s("b14","C14",[(M,"    for i in 0..pre.len() {\n        pre[i] = prea[i].into();\n    }","    for i in 0..pre.len() - 1 {\n        pre[i] = prea[i].into();\n    }")],
 "a generator scalar with the signed window digit 32767 or -32767","the last of the 16384 entries of the table is never filled in",
 P+'fn main(){ let k=si(32767); let mut r=Jacobian::default(); ECMULT_CONTEXT.ecmult(&mut r,&Jacobian::from_ge(&AFFINE_G),&si(0),&k); assert!(aff(&r)==gmul(&k)); }')
s("b15","C15",[(D,"        if sigr.is_zero() || sigs.is_zero() {\n            return false;\n        }","        if sigr.is_zero() || sigs.is_zero() || message.is_zero() {\n            return false;\n        }")],
 "the message zero (or equal to the group order)","what was signed for it does not verify",
 P+'fn main(){ let k=SecretKey::parse(&[1;32]).unwrap(); let m=Message::parse(&[0;32]); let (s,_)=sign(&m,&k); let p=PublicKey::from_secret_key(&k); assert!(verify(&m,&s,&p)); }')
s("b16","C16",[(D,"const P_MINUS_ORDER: Field = Field::new(0, 0, 0, 1, 0x45512319, 0x50B75FC4, 0x402DA172, 0x2FC9BAEE);","const P_MINUS_ORDER: Field = Field::new(0, 0, 0, 1, 0x45512319, 0x50B75FC4, 0x402DA172, 0x2FC9CAEE);")],
 "a signature with r = p - n + x for a small abscissa x","verification accepts it although x is not congruent to r",
 P+"""fn main(){ let pn=[0u8,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0x45,0x51,0x23,0x19,0x50,0xB7,0x5F,0xC4,0x40,0x2D,0xA1,0x72,0x2F,0xC9,0xBA,0xEE];
 let mut done=0; for t in 1..200u32 { let x=fe(t); let mut p=Affine::default(); if !p.set_xo_var(&x,false) { continue }
 let r=sc(&pn)+si(t); let s=si(77); let m=si(5); let ri=r.inv(); let mut q=Jacobian::default(); ECMULT_CONTEXT.ecmult(&mut q,&Jacobian::from_ge(&p),&(ri*s),&(-(ri*m)));
 let k=PublicKey::try_from(aff(&q)).unwrap(); assert!(!verify(&Message(m),&Signature{r,s},&k)); done+=1; } assert!(done>5); }""")
s("b17","C17",[(D,"        if rec_id & 2 > 0 {\n            if fx >= P_MINUS_ORDER {\n                return Err(Error::InvalidSignature);\n            }\n            fx += ORDER_AS_FE;\n        }","        if rec_id & 2 > 0 {\n            fx += ORDER_AS_FE;\n        }")],
 "a recovery id of 2 or 3 with r of p-n or more","recovery wraps around the field and returns a key that did not make the signature",
 P+'fn main(){ let m=Message::parse(&[3;32]); for i in 1..40u8 { let s=Signature{r:sc(&[i;32]),s:si(77)}; assert!(recover(&m,&s,&RecoveryId::parse(2).unwrap()).is_err()); } }')
s("b18","C18",[(D,"        if sigs.is_high() {\n            sigs = -sigs;\n            recid ^= 1;\n        }","        if sigs.bits(255, 1) > 0 {\n            sigs = -sigs;\n            recid ^= 1;\n        }")],
 "a signature with s between n/2 and 2^255","signing returns a high s",
 P+'''fn main(){ // sign_raw with nonce 1: s = r d + m; pick m for the s wanted
 let r={ let mut g=AFFINE_G; g.x.normalize(); sc(&g.x.b32()) }; let d=si(5); let mut w=[0u8;32]; w[0]=0x7f; for i in 1..32 {w[i]=0xff;} let s=sc(&w); let m=s + (-(r*d));
 let (_,t,_)=ECMULT_GEN_CONTEXT.sign_raw(&d,&m,&si(1)).unwrap(); assert!(!t.is_high()); }''')
s("b19","C19",[(L,"        let mut elem = Affine::default();\n        elem.set_xo_var(&x, p[0] == TAG_PUBKEY_ODD);\n        if elem.is_infinity() {\n            return Err(Error::InvalidPublicKey);\n        }\n        if elem.is_valid_var() {\n            Ok(PublicKey(elem))\n        } else {\n            Err(Error::InvalidPublicKey)\n        }","        let mut elem = Affine::default();\n        elem.set_xo_var(&x, p[0] & TAG_PUBKEY_ODD == TAG_PUBKEY_ODD);\n        if x.is_zero() || elem.is_valid_var() {\n            Ok(PublicKey(elem))\n        } else {\n            Err(Error::InvalidPublicKey)\n        }")],
 "the compressed key with abscissa zero","a key that is not on the curve is accepted",
 P+'fn main(){ let mut b=[0u8;33]; b[0]=2; assert!(PublicKey::parse_compressed(&b).is_err()); b[0]=3; assert!(PublicKey::parse_compressed(&b).is_err()); }')
s("b20","C20",[(L,"        let mut elem = Scalar::default();\n        if !bool::from(elem.set_b32(p)) {\n            Self::try_from(elem)","        let mut elem = Scalar::default();\n        let overflowed = bool::from(elem.set_b32(p));\n        if !overflowed || elem.is_one() {\n            Self::try_from(elem)")],
 "the 32 bytes of n+1","a secret key above the group order is accepted",
 P+'fn main(){ let o=[0xffu8,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xfe,0xba,0xae,0xdc,0xe6,0xaf,0x48,0xa0,0x3b,0xbf,0xd2,0x5e,0x8c,0xd0,0x36,0x41,0x41]; for k in 0..3 { let mut b=o; b[31]+=k; assert!(SecretKey::parse(&b).is_err()); } assert!(SecretKey::parse(&[0;32]).is_err()); }')
s("b21","C21",[(L,"        if bool::from(overflowed_r | overflowed_s) {","        if bool::from(overflowed_r ^ overflowed_s) {")],
 "64 bytes with both halves at or above the group order","a signature with both parts overflowing is accepted by the standard parser",
 P+'fn main(){ assert!(Signature::parse_standard(&[0xff;64]).is_err()); }')
s("b22","C22",[(DER,"        if self.peek(0)? == 0x00 && rlen > 1 && (self.peek(1)? & 0x80) == 0x00 {","        if self.peek(0)? == 0x00 && rlen > 2 && (self.peek(1)? & 0x80) == 0x00 {")],
 "an integer below 128 padded to two bytes","an integer that is not in shortest form is accepted",
 P+"""fn main(){ assert!(Signature::parse_der(&[0x30,7,2,2,0,1,2,1,1]).is_err()); assert!(Signature::parse_der(&[0x30,7,2,1,1,2,2,0,1]).is_err()); assert!(Signature::parse_der(&[0x30,6,2,1,1,2,1,1]).is_ok()); }""")
s("b23","C23",[(DER,"            overflow |= bool::from(int.set_b32(&b32));","            // a value of the group order or more has been reduced here\n            let _ = int.set_b32(&b32);")],
 "a lax signature with r equal to n+1","the integer is reduced instead of becoming zero, so a signature no other implementation accepts is accepted",
 P+"""fn main(){ let mut v=vec![0x30u8,0x27,2,33,0]; v.extend([0xffu8,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xfe,0xba,0xae,0xdc,0xe6,0xaf,0x48,0xa0,0x3b,0xbf,0xd2,0x5e,0x8c,0xd0,0x36,0x41,0x42].iter()); v.extend(&[2,1,1]); let s=Signature::parse_der_lax(&v).unwrap(); assert!(s.r.is_zero()); }""")
s("b24","C24",[(DER,"            if len as usize > self.remaining_len() {\n                return Err(Error::InvalidSignature);\n            }\n            while len > 0 && self.peek(0)? == 0 {\n                self.skip(1)?;\n                len -= 1;\n            }\n            if (len as usize) >= mem::size_of::<usize>() {\n                return Err(Error::InvalidSignature);\n            }","            if len as usize > self.remaining_len() {\n                return Err(Error::InvalidSignature);\n            }\n            while self.peek(0)? == 0 {\n                self.skip(1)?;\n                len -= 1;\n            }\n            if (len as usize) >= mem::size_of::<usize>() {\n                return Err(Error::InvalidSignature);\n            }")],
 "a long-form length that is all zero bytes, followed by another zero","the count of length bytes drops below zero and the parser panics",
 P+'fn main(){ let _=Signature::parse_der_lax(&[0x30,0x10,0x02,0x81,0x00,0x00,0x00,0x00,0x01,0x01,0x01,0x01]); }')
s("b25","C25",[(L,"        let v = self.0 + tweak.0;\n        if v.is_zero() {\n            return Err(Error::TweakOutOfRange);\n        }\n        self.0 = v;\n        Ok(())","        self.0 += &tweak.0;\n        if self.0.is_zero() {\n            return Err(Error::TweakOutOfRange);\n        }\n        Ok(())")],
 "a tweak that is the negation of the key","the refused tweak leaves the secret key changed (to zero)",
 P+'fn main(){ let mut k=SecretKey::parse(&[1;32]).unwrap(); let s:Scalar=k.into(); let t=SecretKey::try_from(-s).unwrap(); assert!(k.tweak_add_assign(&t).is_err()); assert!(k==SecretKey::parse(&[1;32]).unwrap()); }')
s("b26","C26",[(HH,"        if s.is_zero() {\n            return None;\n        }","        if s.is_zero() {\n            return None;\n        }\n        // multiplying by one changes nothing\n        if s.is_one() {\n            digest.update(&[0x02]);\n            digest.update(&{\n                pt.x.normalize();\n                pt.x.b32()\n            });\n            return Some(digest.finalize_reset());\n        }")],
 "the secret key one and a public key with odd ordinate","the shared secret is computed over the wrong parity byte, so the two sides disagree",
 P+'fn main(){ use sha2::Sha256; let one=SecretKey::default(); let pone=PublicKey::from_secret_key(&one); for i in 1..20u8 { let k=SecretKey::parse(&[i;32]).unwrap(); let p=PublicKey::from_secret_key(&k); let a=SharedSecret::<Sha256>::new(&p,&one).unwrap(); let b=SharedSecret::<Sha256>::new(&pone,&k).unwrap(); assert_eq!(a.as_ref(),b.as_ref()); } }')

REL=DEMO.replace("[profile.dev]\nopt-level = 1","[profile.dev]\nopt-level = 3\nlto = true\ncodegen-units = 1\ndebug-assertions = false\noverflow-checks = false\n[profile.dev.build-override]\nopt-level = 3")
s("b29","C29",[(S,"        unsafe {\n            core::ptr::write_volatile(&mut self.0, [0u32; 8]);\n        }","        self.0 = [0u32; 8];")],
 "an optimised build in which the cleared value is not used again","the optimiser drops the clearing of secrets",
 P+"""
#[inline(never)] fn go(b:&[u8;32])->usize { let mut k=Box::new(SecretKey::parse(b).unwrap()); let a=std::hint::black_box(&*k as *const _ as usize); k.clear(); a }
fn main(){ let b=[0x5a;32]; let a=std::hint::black_box(go(std::hint::black_box(&b))); let mut n=0; for i in 16..32 { if unsafe{ std::ptr::read_volatile((a+i) as *const u8) }==0x5a { n+=1; } } assert!(n<8,"{} bytes of the key are still there",n); }""",extra=REL)
s("b30","C30",[(M,"            let layout = Layout::new::<ECMultGenContext>();","            let layout = Layout::from_size_align(core::mem::size_of::<ECMultGenContext>(), 1).unwrap();")],
 "a caller of the boxed constructor under an allocator that relies on the layout","the context is allocated with the alignment of a byte and freed with its own",
 P+"""
use std::alloc::{GlobalAlloc,Layout,System}; use std::sync::atomic::*;
static BAD:AtomicUsize=AtomicUsize::new(0);
const T:usize=std::mem::size_of::<ECMultGenContext>(); const AL:usize=std::mem::align_of::<ECMultGenContext>();
struct A; unsafe impl GlobalAlloc for A { unsafe fn alloc(&self,l:Layout)->*mut u8 { if l.size()==T && l.align()<AL { BAD.fetch_add(1,Ordering::SeqCst); } System.alloc(l) }
 unsafe fn dealloc(&self,p:*mut u8,l:Layout){ System.dealloc(p,l) } }
#[global_allocator] static GA:A=A;
fn main(){ let c=ECMultGenContext::new_boxed(); drop(c); assert_eq!(BAD.load(Ordering::SeqCst),0); }""")
s("b32","C32",[(F,"        let mut na = self.neg(self.magnitude);\n        na += other;\n        na.normalizes_to_zero()","        let mut na = self.neg(4);\n        na += other;\n        na.normalizes_to_zero()")],
 "a key built from a point whose coordinate is not reduced (magnitude above 4)","equal keys no longer compare equal (the negation underflows)",
 P+"""fn main(){ let g=AFFINE_G; let mut h=g; h.x=g.x.neg(5); h.x+=g.x; h.x+=g.x; let a=PublicKey::try_from(g).unwrap(); let b=PublicKey::try_from(h).unwrap(); assert!(a==b); assert!(b==a); }""")
s("b33","C33",[(L,"    context\n        .recover_raw(&signature.r, &signature.s, recovery_id.0, &message.0)\n        .map(PublicKey)","    // an abscissa that is not on the curve need not be tried again\n    use core::sync::atomic::{AtomicU64, Ordering};\n    static BAD: AtomicU64 = AtomicU64::new(0);\n    let tag = u64::from(signature.r.0[0]) << 32 | u64::from(signature.r.0[1]);\n    if tag != 0 && BAD.load(Ordering::Relaxed) == tag {\n        return Err(Error::InvalidSignature);\n    }\n    context\n        .recover_raw(&signature.r, &signature.s, recovery_id.0, &message.0)\n        .map(PublicKey)\n        .map_err(|e| {\n            BAD.store(tag, Ordering::Relaxed);\n            e\n        })")],
 "a failed recovery followed by one of the same r with another recovery id","the answer depends on what was recovered before",
 P+"""fn main(){ let k=SecretKey::parse(&[1;32]).unwrap(); let m=Message::parse(&[2;32]); let (s,i)=sign(&m,&k); let p=PublicKey::from_secret_key(&k); assert!(recover(&m,&s,&i).unwrap()==p); assert!(recover(&m,&s,&RecoveryId::parse(i.serialize()|2).unwrap()).is_err()); assert!(recover(&m,&s,&i).map(|q| q==p).unwrap_or(false)); }""")
RUN='cd "$d" && CARGO_TARGET_DIR="$d/t" CARGO_NET_OFFLINE=true timeout 250 cargo run --offline -q\n'
assert RUN in DEMO
FORGE=DEMO.replace(RUN,'''cd "$d"
export CARGO_TARGET_DIR="$d/t" CARGO_NET_OFFLINE=true
echo 'fn main() {}' > src/main.rs
timeout 120 cargo check --offline -q || exit 3
cp "$here/demo.rs" src/main.rs
# the forging program must not compile
if timeout 120 cargo check --offline -q 2>"$d/err"; then echo "the forging program compiles"; exit 1; fi
exit 0
''')
s("b34","C34",[(L,"impl Into<Affine> for PublicKey {","impl AsMut<Affine> for PublicKey {\n    fn as_mut(&mut self) -> &mut Affine {\n        &mut self.0\n    }\n}\n\nimpl Into<Affine> for PublicKey {")],
 "a client that takes the point out of a key by mutable reference","safe code can put a point that is not on the curve into a public key",
 "use libsecp256k1::PublicKey;\nuse libsecp256k1::curve::Affine;\nfn f(p: &mut PublicKey) { *p.as_mut() = Affine::default(); }\nfn main() { let _ = f; }\n",extra=FORGE)
FEAT=DEMO.replace(RUN,'''cd "$d"
sed -i 's#^libsecp256k1 = .*#libsecp256k1 = { path = "'"$repo"'", default-features = false, features = ["static-context"] }#; /^libsecp256k1-core/d; /^rand/d; /^serde/d; /^bincode/d; /^hex/d; /^sha2/d' Cargo.toml
export CARGO_TARGET_DIR="$d/t" CARGO_NET_OFFLINE=true
timeout 250 cargo run --offline -q
''')
s("b31","C31",[(L,"        let s_full = fill_scalar_with_leading_zero(&self.s);\n","        let s_full = std::convert::identity(fill_scalar_with_leading_zero(&self.s));\n")],
 "a build without the std feature","the crate does not compile without std",
 "fn main(){ use core::fmt::LowerHex; fn f<T:LowerHex>(){} f::<libsecp256k1::SecretKey>(); }",extra=FEAT)

s("b27","C27",[(L,"            64 => PublicKeyFormat::Raw,\n            65 => PublicKeyFormat::Full,\n            _ => return Err(E::custom(Error::InvalidInputLength)),","            64 | 65 => PublicKeyFormat::Full,\n            _ => return Err(E::custom(Error::InvalidInputLength)),")],
 "a human-readable format holding the base64 of a raw 64-byte key","the raw form is not accepted as text although it is as bytes",
 P+"""
fn b64(b:&[u8])->String { let a=b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; let mut o=String::new(); for c in b.chunks(3) { let n=(c[0] as u32)<<16|(*c.get(1).unwrap_or(&0) as u32)<<8|*c.get(2).unwrap_or(&0) as u32; for i in 0..4 { if i<=c.len() { o.push(a[(n>>(18-6*i)) as usize&63] as char) } else { o.push('=') } } } o }
fn main(){ let p=PublicKey::from_secret_key(&SecretKey::parse(&[7;32]).unwrap()); let full=p.serialize(); let comp=p.serialize_compressed();
 for b in [&full[..],&full[1..],&comp[..]].iter() { let t=format!("\\"{}\\"",b64(b)); let q:PublicKey=serde_json::from_str(&t).unwrap(); assert!(q==p); } }
""")
s("b35","C27",[(L,"        PublicKey::parse_slice(value, None).map_err(|_e| E::custom(Error::InvalidPublicKey))","        // a trailing newline or padding byte does no harm\n        let value = if value.len() == 66 { &value[..65] } else { value };\n        PublicKey::parse_slice(value, None).map_err(|_e| E::custom(Error::InvalidPublicKey))")],
 "a binary format holding 66 bytes whose first 65 are a key","a byte string that is no encoding of a key is accepted",
 P+"""
fn main(){ let p=PublicKey::from_secret_key(&SecretKey::parse(&[7;32]).unwrap()); let mut v=p.serialize().to_vec(); let e=bincode::serialize(&v).unwrap(); let q:PublicKey=bincode::deserialize(&e).unwrap(); assert!(q==p); v.push(9); let e=bincode::serialize(&v).unwrap(); assert!(bincode::deserialize::<PublicKey>(&e).is_err()); }
""")
if __name__=="__main__":
    want=sys.argv[1:] or sorted(ALL)
    for k in want:
        a,kw=ALL[k]; seed(k,*a,**kw)
