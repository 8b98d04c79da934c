"""f256::sum_of_squares (src/fused_ops/sos.rs) for all operands: the special
cases, and for finite operands the datum nearest to the exact x * x + y * y
(ties to even significand), one rounding; on top of unit udiv, with the contract
of `square` (discharged by unit fmul).  X counts units of 2^(2 * -262378)."""
import os, re, importlib.util
RLIMIT = 400
TIMEOUT = 400
MIN_OBLIGATIONS = 690
_sp = importlib.util.spec_from_file_location("vu_fmul_base", os.path.join(os.path.dirname(os.path.abspath(__file__)), "fmul.py"))
fm = importlib.util.module_from_spec(_sp)
_sp.loader.exec_module(fm)
fa, fr, ud, LIB = fm.fa, fm.fr, fm.ud, fm.LIB
SOS = "src/fused_ops/sos.rs"

STD = r"""
use core::mem::swap;
pub fn maxi(a: i32, b: i32) -> (r: i32) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub trait IClamp { spec fn iv(&self) -> int; fn iclamp(self, a: i32, b: i32) -> (r: i32) requires a <= b ensures r as int == if self.iv() < a { a as int } else if self.iv() > b { b as int } else { self.iv() }; }
impl IClamp for i32 { open spec fn iv(&self) -> int { *self as int } fn iclamp(self, a: i32, b: i32) -> (r: i32) { if self < a { a } else if self > b { b } else { self } } }
"""

SLEM = r"""
// v shifted right by s with the lowest bit sticky
#[verifier::opaque]
pub open spec fn stk(v: int, s: nat) -> int { let q = v / (pow2(s) as int); if v % (pow2(s) as int) != 0 && q % 2 == 0 { q + 1 } else { q } }
proof fn lstk(v: int, s: nat) requires v >= 0 ensures agree(v, stk(v, s) * pow2(s), 2int * pow2(s)), stk(v, s) >= 0, stk(v, s) <= v / (pow2(s) as int) + 1, stk(v, s) >= v / (pow2(s) as int), v >= 0, v / (pow2(s) as int) >= 0
{ reveal(stk);
    let u = pow2(s) as int; lemma_pow2_pos(s); ldm(v, u); ldiv0(v, u); let q = v / u; let r = v % u; let w = stk(v, s); let c = 2 * u;
    if r == 0 { assert(w * u == v); }
    else {
        let k = q / 2; assert(w == 2 * k + 1);
        assert((k + 1) * c == k * c + c && k * c == (2 * k) * u && w * u == k * c + u) by(nonlinear_arith) requires c == 2 * u, w == 2 * k + 1;
        assert(k * c < v < (k + 1) * c) by(nonlinear_arith) requires c == 2 * u, v == q * u + r, 0 < r < u, q == 2 * k || q == 2 * k + 1, u > 0;
        lag_in(v, w * u, c, k);
    }
}
// a number of at most n bits, shifted
proof fn lstk2(v: int, n: nat, s: nat) requires 0 <= v < pow2(n) ensures s >= n && v > 0 ==> stk(v, s) == 1 && v / (pow2(s) as int) == 0 && v % (pow2(s) as int) == v, s < n ==> stk(v, s) < pow2((n - s) as nat), v > 0 ==> stk(v, s) > 0
{ reveal(stk);
    lemma_pow2_pos(s); let u = pow2(s) as int;
    if s >= n { lple(n, s); lmod0(v, u); lmod(v, u, 0, v); }
    else { lemma_pow2_adds((n - s) as nat, s); let a = pow2((n - s) as nat) as int; ldb((n - s - 1) as nat); llt(v, a, u); assert(stk(v, s) < a); }
    ldm(v, u); ldiv0(v, u); if v / u == 0 { assert(0 * u == 0); }
}
#[verifier::opaque]
pub open spec fn sF(d: int) -> nat { (if d > 20 { d - 20 } else { 0 }) as nat }
#[verifier::opaque]
pub open spec fn sG(d: int) -> nat { (if d < 20 { 20 - d } else { 0 }) as nat }
// the sum in units of 2^-F of the last place, and what stands for it
#[verifier::opaque]
pub open spec fn sE(p: int, q: int, d: int) -> int { (p * pow2(20)) * pow2(sF(d)) + q * pow2(sG(d)) }
#[verifier::opaque]
pub open spec fn sY(q: int, d: int) -> int { if d <= 20 { q * pow2(sG(d)) } else { stk(q, sF(d)) } }
#[verifier::opaque]
pub open spec fn sZ(p: int, q: int, d: int) -> int { p * pow2(20) + sY(q, d) }
#[verifier::opaque]
pub open spec fn sAg(p: int, q: int, d: int) -> bool { agree(sE(p, q, d), sZ(p, q, d) * pow2(sF(d)), 2int * pow2(sF(d))) }
proof fn lsum(p: int, q: int, d: int) requires pow2(472) <= p < pow2(474), 0 < q < pow2(474), d >= 0
    ensures sAg(p, q, d), pow2(492) <= p * pow2(20) < pow2(494), 0 < sY(q, d) < pow2(494), pow2(492) <= sZ(p, q, d) < pow2(495), sZ(p, q, d) == p * pow2(20) + sY(q, d),
        d <= 20 ==> sY(q, d) == q * pow2((20 - d) as nat), d == 20 ==> sY(q, d) == q, d > 20 ==> sY(q, d) == stk(q, (d - 20) as nat), d > 494 ==> sY(q, d) == 1
{ reveal(sF); reveal(sG); reveal(sE); reveal(sY); reveal(sZ);
    reveal(sAg);
    lpb(p, 472, 20); lpb(p, 474, 20); ldb(494); ldb(493);
    let F = sF(d); let F2 = pow2(F) as int; lemma_pow2_pos(F); let z1 = p * pow2(20); let y = sY(q, d); let e = sE(p, q, d);
    ldist(z1, y, F2);
    if d <= 20 { lp(); assert(q * pow2(0) == q) by { assert(q * 1 == q); } lpb(q, 474, sG(d)); lple(474 + sG(d), 494); assert(F2 == 1); assert(z1 * 1 == z1 && y * 1 == y); }
    else {
        lp(); assert(pow2(sG(d)) == 1); assert(q * 1 == q);
        lstk(q, F); lstk2(q, 474, F); lple(1, 474); lple(474, 494); if F < 474 { lple((474 - F) as nat, 474); }
        let t = p * pow2(19); ldb(19); let c = 2 * F2;
        assert(z1 * F2 == t * c) by(nonlinear_arith) requires z1 == p * pow2(20), pow2(20) == 2 * pow2(19), t == p * pow2(19), c == 2 * F2;
        lag_add(q, y * F2, c, t);
    }
}
// scale of the exact sum
proof fn lsscale(sx: int, sy: int, qx: nat, qy: nat, d: int, x: int) requires d == 2 * qx - 2 * qy, d >= 0, x == (sx * pow2(qx)) * (sx * pow2(qx)) + (sy * pow2(qy)) * (sy * pow2(qy))
    ensures (x * pow2(sF(d))) * pow2(20) == sE(sx * sx, sy * sy, d) * pow2(2 * qx)
{ reveal(sF); reveal(sG); reveal(sE);
    let F = sF(d); let G = sG(d); let p = sx * sx; let q = sy * sy;
    lpm(sx, qx, sx, qx); lpm(sy, qy, sy, qy);
    let a = p * pow2(qx + qx); let b = q * pow2(qy + qy); assert(x == a + b);
    ldist(a, b, pow2(F) as int); ldist(a * pow2(F), b * pow2(F), pow2(20) as int);
    lpw(p, qx + qx, F); lpw(p, qx + qx + F, 20); lpw(p, 20, F); lpw(p, 20 + F, 2 * qx);
    lpw(q, qy + qy, F); lpw(q, qy + qy + F, 20); lpw(q, G, 2 * qx);
    ldist((p * pow2(20)) * pow2(F), q * pow2(G), pow2(2 * qx) as int);
    assert(qx + qx + F + 20 == 20 + F + 2 * qx); assert(qy + qy + F + 20 == G + 2 * qx);
}
proof fn lagt(a: int, b: int, b2: int, c: int) requires agree(a, b, c), agree(b, b2, c) ensures agree(a, b2, c)
{ assert forall|k: int| (a < #[trigger] (k * c)) == (b2 < k * c) && (a > k * c) == (b2 > k * c) by { assert((a < k * c) == (b < k * c) && (a > k * c) == (b > k * c)); } }
proof fn lsfin(p: int, q: int, d: int, x: int, qx: nat, s: nat, m1: nat, r: int, f: int, up: bool)
    requires sAg(p, q, d), sZ(p, q, d) >= 0, (x * pow2(sF(d))) * pow2(20) == sE(p, q, d) * pow2(2 * qx), m1 + 262142 == 2 * qx + s, stk(sZ(p, q, d), s) == r * B2() + f, 0 <= f < B2(),
        up == (f > pow2(255) || (f == pow2(255) && r % 2 == 1)), 0 <= r < pow2(237), m1 < 0x7fffe, r >= pow2(236) || m1 == 0
    ensures okr(x, r + m1 * pow2(236) + if up { 1int } else { 0 })
{
    reveal(sAg); reveal(okr); lp();
    let F2 = pow2(sF(d)) as int; lemma_pow2_pos(sF(d)); let u = pow2(s) as int; lemma_pow2_pos(s); let z = sZ(p, q, d); let w = stk(z, s); let e = sE(p, q, d); let half = pow2(255) as int; ldb(255); ldb(254);
    let f2 = u * F2; lposm(u, F2);
    lstk(z, s); lag_scale(z, w * u, 2 * u, F2); lag_coarse(e, z * F2, 2 * F2, u);
    assert(u * (2 * F2) == 2 * f2 && (2 * u) * F2 == 2 * f2 && (w * u) * F2 == w * f2) by(nonlinear_arith) requires f2 == u * F2;
    lagt(e, z * F2, w * f2, 2 * f2);
    let h2 = pow2(254) as int;
    lag_coarse(e, w * f2, 2 * f2, h2);
    assert(h2 * (2 * f2) == half * f2) by(nonlinear_arith) requires half == 2 * h2;
    // scale
    let k = (236 + s) as nat; let y = x * F2;
    lpw(e, 2 * qx, k); assert(2 * qx + k == m1 + D());
    lpw(y, 20, k); assert(20 + k == 256 + s); lpw(y, 256, s); lpw(y, s, 256);
    assert(2 * x * (half * f2) == ((x * F2) * u) * (2 * half)) by(nonlinear_arith) requires f2 == u * F2;
    assert(2 * half == pow2(256));
    assert(r * (2 * half) == r * B2());
    assert forall|hh: int, ll: int| 0 <= ll < B() && #[trigger] (hh * B() + ll) == r + m1 * pow2(236) + (if up { 1int } else { 0 }) implies nearest(x, hh, ll) && 0 <= hh <= 0x7ffff * FR() by {
        lround(x, e, w, r, f, half, f2, m1 as int, up, hh, ll); }
}
proof fn lsovf(p: int, q: int, d: int, x: int, qx: nat, nlz: int)
    requires sAg(p, q, d), lzs(sZ(p, q, d), nlz, 512), sZ(p, q, d) >= pow2(492), 17 <= nlz <= 19, (x * pow2(sF(d))) * pow2(20) == sE(p, q, d) * pow2(2 * qx), 2 * qx >= 786409 + nlz
    ensures 2 * x >= (pow2(238) - 1) * pow2(524285 + D())
{
    reveal(sAg); let F2 = pow2(sF(d)) as int; lemma_pow2_pos(sF(d)); let z = sZ(p, q, d); let e = sE(p, q, d); let k = (510 - nlz) as nat; let a = pow2(k) as int; ldb(k); lemma_pow2_pos(492);
    let v = z * F2; let c = 2 * F2;
    assert(v >= a * c) by(nonlinear_arith) requires z >= 2 * a, v == z * F2, c == 2 * F2, F2 > 0;
    assert(!(v < a * c)); assert(!(e < a * c)); assert(e >= a * c);
    let t = pow2(2 * qx) as int; lemma_pow2_pos(2 * qx); let y = x * F2; let g = pow2(20) as int; lemma_pow2_pos(20);
    let b = pow2((k + 1) as nat) as int; lemma_pow2_adds(k + 1, 2 * qx); let n = (k + 1 + 2 * qx) as nat;
    assert(e * t >= (b * F2) * t) by(nonlinear_arith) requires e >= a * c, c == 2 * F2, b == 2 * a, t > 0;
    lple(786920, n); lemma_pow2_adds(786900, 20); let w = pow2(786900) as int;
    assert((b * F2) * t == (b * t) * F2) by(nonlinear_arith);
    assert((x * F2) * g >= (w * g) * F2) by(nonlinear_arith) requires (x * F2) * g >= (b * t) * F2, b * t >= w * g, F2 > 0;
    assert((x * F2) * g == (x * g) * F2) by(nonlinear_arith);
    lcs(x * g, w * g, F2); lcs(x, w, g); ldb(786900);
    lemma_pow2_adds(238, 524285 + D()); assert(238 + 524285 + D() == 786901);
    let u = pow2(524285 + D()) as int; lemma_pow2_pos(524285 + D()); ldist(pow2(238) as int, 1, u);
}
// three rounding bits
proof fn lrnd3(m: u128, l: u128, rb: u32, f: int) requires rb == (((m >> 125u32) as u32) | (if (m << 3u32) != 0 { 1u32 } else { 0 })) | (if l != 0 { 1u32 } else { 0 }), f == m * B() + l
    ensures (rb > 4) == (f > pow2(255)), (rb == 4) == (f == pow2(255)), 0 <= f < B2()
{
    lp(); lb(); lw(); lemma_pow2_adds(127, 128); ldb(127);
    assert((rb > 4) == (m > 0x80000000000000000000000000000000 || (m == 0x80000000000000000000000000000000 && l != 0)) && (rb == 4) == (m == 0x80000000000000000000000000000000 && l == 0)) by(bit_vector)
        requires rb == (((m >> 125u32) as u32) | (if (m << 3u32) != 0 { 1u32 } else { 0 })) | (if l != 0 { 1u32 } else { 0 });
    lcmp2(B(), m as int, l as int, pow2(127) as int); lemma_pair(B(), m as int, l as int);
}
// sticky bit put into the lowest word
proof fn lor1(x: u128) ensures x | 0 == x, x % 2 == 0 ==> x | 1 == x + 1, x % 2 == 1 ==> x | 1 == x { lbits(x); }
proof fn lpar(a: U512) ensures a.v() % 2 == (a.lo.lo.0 as int) % 2, a.v() == a.hi.v() * B2() + a.lo.v(), a.lo.v() == a.lo.hi.v() * B() + a.lo.lo.v(), 0 <= a.lo.v() < B2(), 0 <= a.hi.v() < B2()
{ lb(); lw(); lp(); a.hi.vb(); a.lo.vb(); lmod2(a.lo.hi.v(), a.lo.lo.v()); let l = a.lo.v(); let h = a.hi.v(); ldb(255); ldm(l, 2); let k = pow2(255) as int; assert(h * B2() + l == (h * k + l / 2) * 2 + l % 2) by(nonlinear_arith) requires B2() == 2 * k, l == (l / 2) * 2 + l % 2; lmod(h * B2() + l, 2, h * k + l / 2, l % 2); }
proof fn lst1(v: int, r: int, s: nat) requires r == (v % (pow2(s) as int)) * pow2((512 - s) as nat), s < 512, v >= 0 ensures (r == 0) == (v % (pow2(s) as int) == 0), s == 0 ==> v % (pow2(s) as int) == 0
{ lemma_pow2_pos(s); lemma_pow2_pos((512 - s) as nat); ldm(v, pow2(s) as int); let a = v % (pow2(s) as int); if a > 0 { lposm(a, pow2((512 - s) as nat) as int); } else { assert(0 * pow2((512 - s) as nat) == 0); } if s == 0 { lp(); lmod(v, 1, v, 0); } }
proof fn lsticky(v: int, r: int, s: nat, sb: u128, a: U512, b: U512)
    requires v >= 0, s < 512, a.v() == v / (pow2(s) as int), r == (v % (pow2(s) as int)) * pow2((512 - s) as nat), b.hi == a.hi, b.lo.hi == a.lo.hi, b.lo.lo.0 == a.lo.lo.0 | sb, sb == (if r == 0 { 0u128 } else { 1 })
    ensures b.v() == stk(v, s)
{ reveal(stk); lst1(v, r, s); lpar(a); lpar(b); lor1(a.lo.lo.0); }
// the second shift; at most 511 bits
proof fn lsticky2(z: int, r: int, s: nat, c: nat, sb: u128, a: U512, b: U512)
    requires pow2(492) <= z < pow2(495), c == if s < 511 { s } else { 511 }, a.v() == z / (pow2(c) as int), r == (z % (pow2(c) as int)) * pow2((512 - c) as nat), b.hi == a.hi, b.lo.hi == a.lo.hi, b.lo.lo.0 == a.lo.lo.0 | sb, sb == (if r == 0 { 0u128 } else { 1 })
    ensures b.v() == stk(z, s)
{ lemma_pow2_pos(492); lsticky(z, r, c, sb, a, b); lstk2(z, 495, s); lstk2(z, 495, 511); }
// squares of significands
proof fn lsq(s: int) requires 0 < s < pow2(237) ensures 0 < s * s < pow2(474), s >= pow2(236) ==> s * s >= pow2(472), (s * pow2(10)) * (s * pow2(10)) == (s * s) * pow2(20), s * pow2(10) < pow2(247), s * pow2(10) >= 0
{
    lemma_pow2_adds(236, 236); lemma_pow2_adds(237, 237); lemma_pow2_pos(236); lpm(s, 10, s, 10); lpb(s, 237, 10); lposm(s, s);
    assert(s * s < pow2(237) * pow2(237)) by(nonlinear_arith) requires 0 < s < pow2(237);
    if s >= pow2(236) { assert(s * s >= pow2(236) * pow2(236)) by(nonlinear_arith) requires s >= pow2(236), pow2(236) > 0; }
}
// what the shift to the right leaves
proof fn lshift(z: int, nlz: int, s: nat) requires lzs(z, nlz, 512), pow2(492) <= z < pow2(495), s >= 19 - nlz
    ensures 17 <= nlz <= 19, 0 < stk(z, s) < pow2(493), s == 19 - nlz ==> stk(z, s) >= pow2(492), s >= 511 ==> stk(z, s) == 1
{
    lemma_pow2_pos(492);
    if nlz < 17 { lple(495, (511 - nlz) as nat); } if nlz > 19 { lple((512 - nlz) as nat, 492); }
    let n = (512 - nlz) as nat; lstk2(z, n, s); if s < n { lple((n - s) as nat, 493); } else { lple(1, 493); ldb(0); lp(); lple(1, 493); }
    if s == 19 - nlz { let u = pow2(s) as int; lemma_pow2_pos(s); lemma_pow2_adds(492, s); lstk(z, s); ldm(z, u); let q = z / u; assert(q >= pow2(492)) by(nonlinear_arith) requires q * u + u > z, z >= pow2(492) * u, u > 0; }
}
// both subnormal
proof fn ltiny(x: int, a: int, b: int) requires 0 <= a < pow2(236), 0 <= b < pow2(236), x == a * a + b * b ensures nearest(x, 0, 0)
{
    lemma_pow2_adds(236, 236); ldb(472); lple(474, D()); ldb(473);
    assert(0 <= a * a <= pow2(236) * pow2(236)) by(nonlinear_arith) requires 0 <= a < pow2(236);
    assert(0 <= b * b <= pow2(236) * pow2(236)) by(nonlinear_arith) requires 0 <= b < pow2(236);
    lp2(); lmod0(0, FR()); lb(); assert(0 * B() == 0); lp(); let u = pow2(D()) as int; lemma_pow2_pos(D());
    assert(sig(0, 0) == 0); assert(qe(0) == 0); assert((2int * 0 - 1) * u == -u && (2int * 0 + 1) * u == u) by(nonlinear_arith); assert(pow2(236) != 0) by { lemma_pow2_pos(236); }
    assert(2 * x < u) by { lple(474, D()); lemma_pow2_strictly_increases(474, D()); }
    assert(near_m(x, sig(0, 0), u, 0));
}
proof fn lsubn(a: U256) requires fin(a), ahi(a) < FR() ensures 0 <= val(a) < pow2(236) { lb(); ldm(a.hi.0 as int, SGN()); lsig(ahi(a), a.lo.0 as int); lp(); assert(val(a) == sig(ahi(a), a.lo.0 as int) * 1); }
"""

SPEC = """    ensures nan(x.bits) || nan(y.bits) ==> nan(r.bits),
        !nan(x.bits) && !nan(y.bits) && (inf(x.bits) || inf(y.bits)) ==> inf(r.bits) && sgn(r.bits) == 0,
        fin(x.bits) && fin(y.bits) ==> nearest(val(x.bits) * val(x.bits) + val(y.bits) * val(y.bits), ahi(r.bits), r.bits.lo.0 as int) && sgn(r.bits) == 0,"""


def any2(X):
    f = lambda n: X.fn(LIB, n, header=r"BinEncAnySpecial for \(u128, u128\)$", sig="fn %s(&self) -> (r: bool)" % n)
    return ["pub open spec fn subn(h: u128) -> bool { h < 0x1000000000000000000000000000 }\n"
            "pub trait BinEncAnySpecial { spec fn sp(&self) -> bool; spec fn sb(&self) -> bool; fn any_special(&self) -> (r: bool) ensures r == self.sp();\n"
            " fn any_subnormal(&self) -> (r: bool) ensures r == self.sb(); fn any_non_normal(&self) -> (r: bool) ensures r == (self.sp() || self.sb()); }\n"
            "impl BinEncAnySpecial for (u128, u128) {\nopen spec fn sp(&self) -> bool { special(self.0) || special(self.1) }\nopen spec fn sb(&self) -> bool { subn(self.0) || subn(self.1) }\n"
            + f("any_special") + f("any_subnormal") + f("any_non_normal") + "}\n"]


def sos(X):
    X.const(LIB, r"const INFINITY: f256 = f256 \{\s*bits: U256::new\(INF_HI, 0(?:_u128)?\),\s*\};")
    return ["impl f256 { pub const INFINITY: f256 = f256 { bits: U256 { hi: U128(INF_HI), lo: U128(0) } }; }\n", "pub " + X.fn(SOS, "sos", header=r"^$", spec=SPEC,
        subst=[(r"\.clamp\(", ".iclamp("), (r"\bmax\(\s*(?=-?exp_bits)", "maxi("), (r"&\(&(\w+)\)", r"&\1"), (r"U512::default\(\)", "U512::ZERO"), (r"u128::BITS", "128"), (r"\bsignif_z \+= &(\w+);", r"signif_z.add_assign(&\1);")],
        at={0: """proof { lb(); lp2(); lp(); U512::consts(); U256::consts(); lbits(x.bits.hi.0); lbits(y.bits.hi.0); ldm(x.bits.hi.0 as int, SGN()); ldm(y.bits.hi.0 as int, SGN());
 lmod0(0, SGN()); lmod0(NAN_HI as int, SGN()); lmod0(INF_HI as int, SGN()); assert(0 * SGN() == 0); lmod(INF_HI as int, SGN(), 0, INF_HI as int); lmod(0, SGN(), 0, 0);
 if fin(x.bits) { lval(x.bits); lsig(ahi(x.bits), x.bits.lo.0 as int); if ahi(x.bits) < FR() { lsubn(x.bits); } } if fin(y.bits) { lval(y.bits); lsig(ahi(y.bits), y.bits.lo.0 as int); if ahi(y.bits) < FR() { lsubn(y.bits); } }
 if fin(x.bits) && fin(y.bits) && ahi(x.bits) < FR() && ahi(y.bits) < FR() { ltiny(val(x.bits) * val(x.bits) + val(y.bits) * val(y.bits), val(x.bits), val(y.bits)); } }"""},
        hints=[(r"let abs_bits_sticky_y = [^;]*;", "proof { lspecial(abs_bits_x.hi.0, abs_bits_x.lo.0, abs_bits_sticky_x); lspecial(abs_bits_y.hi.0, abs_bits_y.lo.0, abs_bits_sticky_y); assert(0 * val(x.bits) == 0 && 0 * val(y.bits) == 0 && val(x.bits) * 0 == 0 && val(y.bits) * 0 == 0); }"),
               (r"let (?:mut )?signif_y = [^;]*;", """let ghost sx = signif_x.v(); let ghost sy = signif_y.v(); let ghost qx = qe(abs_bits_x.hi.0 as int); let ghost qy = qe(abs_bits_y.hi.0 as int);
 let ghost X = val(x.bits) * val(x.bits) + val(y.bits) * val(y.bits);
 proof { lsig(abs_bits_x.hi.0 as int, abs_bits_x.lo.0 as int); lsig(abs_bits_y.hi.0 as int, abs_bits_y.lo.0 as int);
 if abs_bits_y.v() < abs_bits_x.v() { lcmp(abs_bits_y.hi.0 as int, abs_bits_y.lo.0 as int, abs_bits_x.hi.0 as int, abs_bits_x.lo.0 as int); } else { lemma_inj(B(), abs_bits_y.hi.0 as int, abs_bits_y.lo.0 as int, abs_bits_x.hi.0 as int, abs_bits_x.lo.0 as int); }
 assert(X == (sx * pow2(qx)) * (sx * pow2(qx)) + (sy * pow2(qy)) * (sy * pow2(qy)));
 assert(qx >= qy); assert(sx >= pow2(236)) by { lhile(abs_bits_x, abs_bits_y); } lsq(sx); lsq(sy); lple(247, 256); lmod0(sx * pow2(10), B2()); }"""),
               (r"let d = [^;]*;", "let ghost p = sx * sx; let ghost q = sy * sy; proof { lsum(p, q, d as int); lsscale(sx, sy, qx, qy, d as int, X); assert(signif_z.v() == p * pow2(20)); assert(signif_y2.v() == q); lple(494, 512); lple(495, 512); if d <= 20 { lmod0(sY(q, d as int), B4()); } }"),
               (r"signif_y2\.lo\.lo\.0 \|= [^;]*;", "let ghost sb = if t.v() == 0 { 0u128 } else { 1u128 }; proof { assert(signif_y2.lo.lo.0 == y20.lo.lo.0 | sb); lsticky(q, t.v(), shr as nat, sb, y20, signif_y2); }"),
               (r"(?=signif_y2\.lo\.lo\.0 \|= )", "let ghost y20 = signif_y2;"),
               (r"signif_y2 <<= [^;]*;|signif_y2\.shl_assign[^;]*;", "proof { assert(signif_y2.v() == sY(q, d as int)); }"),
               (r"signif_y2 = U512::ONE;", "proof { assert(signif_y2.v() == 1); assert(d > 494); }"),
               (r"(?=signif_z \+= )", "proof { assert(signif_y2.v() == sY(q, d as int)); }"),
               (r"(?=let nlz = )", "let ghost z = sZ(p, q, d as int); proof { assert(signif_z.v() == z); }"),
               (r"let shl =[^;]*;", """let ghost s = shr as nat; let ghost e0 = 2 * qx - 262142; proof { assert(z < pow2(512)); lshift(z, nlz as int, (if nlz < 19 { 19 - nlz } else { 0 }) as nat); assert(exp_bits_z == e0); assert(s == if -e0 > 19 - nlz { -e0 } else { 19 - nlz }); lshift(z, nlz as int, s); }"""),
               (r"let \(t, rem\) = [^;]*;", "let ghost c = (if s < 511 { s } else { 511 }) as nat; proof { assert(t.v() == z / (pow2(c) as int) && rem.v() == (z % (pow2(c) as int)) * pow2((512 - c) as nat)); }"),
               (r"signif_z = t;", "let ghost z1 = signif_z;"),
               (r"signif_z\.lo\.lo\.0 \|= [^;]*;", "let ghost z2 = signif_z; let ghost sb = if rem.v() == 0 { 0u128 } else { 1u128 }; proof { assert(signif_z.lo.lo.0 == z1.lo.lo.0 | sb); lsticky2(z, rem.v(), s, c, sb, z1, signif_z); assert(shl == 0 ==> (signif_z.v() * pow2(0)) % B4() == signif_z.v()) by { lp(); lple(493, 512); lmod0(stk(z, s), B4()); assert(stk(z, s) * 1 == stk(z, s)); } }"),
               (r"(?=exp_bits_z \+= )", """let ghost rr = signif_z.hi.v(); let ghost rh = signif_z.hi.hi.0 as int; let ghost rl = signif_z.hi.lo.0 as int; let ghost f = signif_z.lo.v();
 proof { assert(shl == 0 ==> stk(z, s) == rr * B2() + f && 0 <= f < B2() && rr == rh * B() + rl && 0 <= rr < pow2(237) && (stk(z, s) >= pow2(492) ==> rr >= pow2(236)) && (rr >= pow2(236)) == (rh >= FR())) by {
 if shl == 0 { lpar(signif_z); assert(signif_z.v() == stk(z, s)); lsr(stk(z, s), rr, f, rh, rl); } } }"""),
               (r"exp_bits_z \+= [^;]*;", "proof { if exp_bits_z >= 0x7ffff { lsovf(p, q, d as int, X, qx, nlz as int); } else { assert(shl == 0); } }"),
               (r"let rnd_bits = [^;]*;", """let ghost m1 = exp_bits_z_minus_1 as int; let ghost up = f > pow2(255) || (f == pow2(255) && rr % 2 == 1);
 proof { lrnd3(signif_z.lo.hi.0, signif_z.lo.lo.0, rnd_bits, f); assert(m1 == e0 + s); lsfin(p, q, d as int, X, qx, s, m1 as nat, rr, f, up); lexpo(exp_bits_z_minus_1 as u128); lasmz(rr, rh, rl, m1); }"""),
               (r"(?=if rnd_bits > 0x4)", "proof { assert(abs_bits_z.v() == rr + m1 * pow2(236)); lmod2(rh + m1 * FR(), rl); }"),
               (r"(?=f256 \{ bits: abs_bits_z \}\s*\}?\s*$)", "proof { reveal(okr); abs_bits_z.vb(); assert(abs_bits_z.v() == rr + m1 * pow2(236) + if up { 1int } else { 0 }); lmsgn2(abs_bits_z); }")])]


SL2 = r"""
// the larger of two encodings that are not both subnormal is normal
proof fn lhile(a: U256, b: U256) requires a.v() >= b.v(), a.hi.0 >= FR() || b.hi.0 >= FR(), a.hi.0 < 0x7ffff * FR(), b.hi.0 < 0x7ffff * FR() ensures sig(a.hi.0 as int, a.lo.0 as int) >= pow2(236), a.hi.0 >= FR()
{
    lb(); let h = a.hi.0 as int; let k = b.hi.0 as int;
    assert(h >= k) by(nonlinear_arith) requires h * B() + a.lo.0 >= k * B() + b.lo.0, a.lo.0 < B(), b.lo.0 >= 0, B() > 0;
    lsig(h, a.lo.0 as int);
}
proof fn lsr(w: int, rr: int, f: int, rh: int, rl: int) requires w == rr * B2() + f, 0 <= f < B2(), 0 <= rl < B(), rr == rh * B() + rl, rh >= 0, 0 < w < pow2(493)
    ensures 0 <= rr < pow2(237), w >= pow2(492) ==> rr >= pow2(236), (rr >= pow2(236)) == (rh >= FR())
{
    lp(); lp2(); lb(); lw(); lemma_pow2_adds(237, 256); lemma_pow2_adds(236, 256);
    assert(rr < pow2(237)) by(nonlinear_arith) requires rr * B2() <= w, w < pow2(237) * B2(), B2() > 0;
    assert(rr >= 0) by(nonlinear_arith) requires rh >= 0, rl >= 0, B() > 0, rr == rh * B() + rl;
    if w >= pow2(492) { assert(rr >= pow2(236)) by(nonlinear_arith) requires rr * B2() + B2() > w, w >= pow2(236) * B2(), B2() > 0; }
    if rh >= FR() { assert(rr >= FR() * B()) by(nonlinear_arith) requires rh >= FR(), rl >= 0, rr == rh * B() + rl, B() > 0; }
    else { assert(rr < FR() * B()) by(nonlinear_arith) requires rh + 1 <= FR(), rl < B(), rr == rh * B() + rl, B() > 0; }
}
proof fn lmsgn2(z: U256) requires z.v() < SGN() * B() ensures sgn(z) == 0, ahi(z) == z.hi.0
{ lb(); let h = z.hi.0 as int; if h >= SGN() { assert(h * B() >= SGN() * B()) by(nonlinear_arith) requires h >= SGN(), B() > 0; } lmod0(h, SGN()); lmod(h, SGN(), 0, h); }
"""


def build(X):
    out = ud.base(X) + ["//@mod me", fr.SPEC, fa.STD] + fr.helpers(X) + ["pub open spec fn special(h: u128) -> bool { h == 0 || h > 0x7fffefffffffffffffffffffffffffff }\n", fr.LEM2]
    out += ["//@mod mf", fa.GEN, fa.LEM, fa.BASE, fa.XTRA0, fa.MRES, fm.MLEM, fm.MLEM2, "//@mod mg", STD, SLEM, SL2] + any2(X)
    out.append("// contract discharged by unit fmul\nimpl f256 { #[verifier::external_body] pub fn square(self) -> (r: f256)\n" + fm.SPEC.replace("x.bits", "self.bits").replace("y.bits", "self.bits") + " { unimplemented!() } }\n")
    out += sos(X)
    out += ["impl f256 {\n", "pub " + X.fn(LIB, "sum_of_squares", header=r"^impl f256$", subst=[(r"fused_ops::sos::sos\(", "sos(")], spec=SPEC.replace("x.bits", "self.bits").replace("y.bits", "other.bits")), "}\n"]
    return "\n".join(out) + "\nfn main() {}\n}\n"
