import sys; sys.path.insert(0,'/verif/tools')
from seed import *
F="core/src/field.rs"; S="core/src/scalar.rs"
H='''use libsecp256k1_core::curve::*;
'''
src=open('/repo/'+F).read()
i=src.index("pub fn sqr_in_place"); 
seed("b01","C01",[(F,"""        d = c * (R0 >> 4) + t0 as u64;
        debug_assert_bits!(d, 56);
        /* [r9+(c<<22) r8 r7 r6 r5 r4 r3 t2 t1 d-c*R0>>4] = [p18 p17 p16 p15 p14 p13 p12 p11 p10 p9 p8 p7 p6 p5 p4 p3 p2 p1 p0] */
        self.n[0] = (d & M) as u32;
        d >>= 26;
        debug_assert_bits!(self.n[0], 26);
        debug_assert_bits!(d, 30);
        /* [r9+(c<<22) r8 r7 r6 r5 r4 r3 t2 t1+d r0-c*R0>>4] = [p18 p17 p16 p15 p14 p13 p12 p11 p10 p9 p8 p7 p6 p5 p4 p3 p2 p1 p0] */
        d += c * (R1 >> 4) + t1 as u64;
        debug_assert_bits!(d, 53);
        debug_assert!(d <= 0x10000003ffffbf);
        /* [r9+(c<<22) r8 r7 r6 r5 r4 r3 t2 d-c*R1>>4 r0-c*R0>>4] = [p18 p17 p16 p15 p14 p13 p12 p11 p10 p9 p8 p7 p6 p5 p4 p3 p2 p1 p0] */
        /* [r9 r8 r7 r6 r5 r4 r3 t2 d r0] = [p18 p17 p16 p15 p14 p13 p12 p11 p10 p9 p8 p7 p6 p5 p4 p3 p2 p1 p0] */
        self.n[1] = (d & M) as u32;
        d >>= 26;
        debug_assert_bits!(self.n[1], 26);
        debug_assert_bits!(d, 27);
        debug_assert!(d <= 0x4000000);
        /* [r9 r8 r7 r6 r5 r4 r3 t2+d r1 r0] = [p18 p17 p16 p15 p14 p13 p12 p11 p10 p9 p8 p7 p6 p5 p4 p3 p2 p1 p0] */
        d += t2 as u64;
        debug_assert_bits!(d, 27);
        /* [r9 r8 r7 r6 r5 r4 r3 d r1 r0] = [p18 p17 p16 p15 p14 p13 p12 p11 p10 p9 p8 p7 p6 p5 p4 p3 p2 p1 p0] */
        self.n[2] = d as u32;
        debug_assert_bits!(self.n[2], 27);
        /* [r9 r8 r7 r6 r5 r4 r3 r2 r1 r0] = [p18 p17 p16 p15 p14 p13 p12 p11 p10 p9 p8 p7 p6 p5 p4 p3 p2 p1 p0] */
    }

    /// Compute the square""",None)] if 0 else [(F,"@@","@@")],"","","") if 0 else None

# second occurrence helper: edit via custom
import seed as SD
def apply_nth(f, old, new, n):
    p=SR+"/"+f; s=open(p).read(); parts=s.split(old)
    assert len(parts)>n+1
    open(p,"w").write(old.join(parts[:n+1])+new+old.join(parts[n+1:]))
orig=SD.apply_edits
def ap(edits, root=SR):
    for e in edits:
        if len(e)==4: apply_nth(*e)
        else: orig([e],root)
SD.apply_edits=ap



DEMO1=H+"""
fn main(){
    let mut a=Field::default(); assert!(a.set_b32(&[3u8;32]));
    a.mul_int(12);
    let mut b=a.neg(12); b+=a; b.normalize();
    assert!(b.is_zero(), "a - a is not zero");
}
"""
seed("b01","C01",[(F,"self.n[9] = 0x03fffff * 2 * (m + 1) - other.n[9];","self.n[9] = (0x03fffff * 2 * ((m & 0x7) + 1)).wrapping_sub(other.n[9]) & 0x3ff_ffff;")],
 "negating an operand of magnitude 8 or more", "negation is wrong for large magnitudes", DEMO1)
DEMO2=H+'''
fn main(){
    let mut x=Field::default(); assert!(x.set_b32(&[7u8;32]));
    let mut z=x.neg(1); z+=x;
    z.normalize_var();
    assert!(z.is_zero(), "x - x is not zero");
}
'''
0 and seed("b02","C02",[(F,"& (if (t1 + 0x40 + ((t0 + 0x3d1) >> 26)) > 0x3ffffff {","& (if (t1 + 0x40 + ((t0 + 0x3d0) >> 26)) > 0x3ffffff {",1)],
 "a value whose first reduction pass ends exactly at p", "variable-time normalisation leaves p unreduced", DEMO2)


