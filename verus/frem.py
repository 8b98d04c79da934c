"""The whole remainder operation of src/binops/rem.rs on the value level, for
all pairs of operands:
   val(|x % y|) == val(|x|) % val(|y|), sign of x  (val = integral multiple of
   the smallest positive number), and the special cases,
on top of the contracts of unit udiv."""
import os, re, importlib.util
RLIMIT = 60
TIMEOUT = 600
MIN_OBLIGATIONS = 440
_sp = importlib.util.spec_from_file_location("vu_udiv_base", os.path.join(os.path.dirname(os.path.abspath(__file__)), "udiv.py"))
ud = importlib.util.module_from_spec(_sp)
_sp.loader.exec_module(ud)
LIB = "src/lib.rs"

F = "0x1000000000000000000000000000"          # 2^108
TOP = "0x80000000000000000000000000000000"    # 2^127
SPEC = r"""
#[derive(Clone, Copy)]
pub struct f256 { pub bits: U256 }
pub open spec fn FR() -> int { 0x1000000000000000000000000000int }
pub open spec fn SGN() -> int { 0x80000000000000000000000000000000int }
// fields of a binary encoding
pub open spec fn sgn(a: U256) -> int { a.hi.0 as int / SGN() }
pub open spec fn ahi(a: U256) -> int { a.hi.0 as int % SGN() }
pub open spec fn ebits(h: int) -> int { h / FR() }
pub open spec fn sig(h: int, l: int) -> int { (h % FR() + if h >= FR() { FR() } else { 0 }) * B() + l }
pub open spec fn qe(h: int) -> nat { (if h >= FR() { h / FR() - 1 } else { 0 }) as nat }
// |value| / smallest positive number, for finite encodings
pub open spec fn val(a: U256) -> int { sig(ahi(a), a.lo.0 as int) * pow2(qe(ahi(a))) }
pub open spec fn fin(a: U256) -> bool { ahi(a) < 0x7ffff * FR() }
pub open spec fn nan(a: U256) -> bool { ahi(a) > 0x7ffff * FR() || (ahi(a) == 0x7ffff * FR() && a.lo.0 > 0) }
pub open spec fn inf(a: U256) -> bool { ahi(a) == 0x7ffff * FR() && a.lo.0 == 0 }
pub open spec fn zer(a: U256) -> bool { ahi(a) == 0 && a.lo.0 == 0 }

proof fn lbits(x: u128)
    ensures x & 0x7fffffffffffffffffffffffffffffff == x % 0x80000000000000000000000000000000, x & 0x80000000000000000000000000000000 == x - x % 0x80000000000000000000000000000000,
        x >> 108u32 == x / 0x1000000000000000000000000000, x & 0xfffffffffffffffffffffffffff == x % 0x1000000000000000000000000000,
        x >> 127u32 == x / 0x80000000000000000000000000000000,
        x | 0 == x, x % 2 == 0 ==> x | 1 == x + 1, x % 2 == 1 ==> x | 1 == x
{
    assert(x & 0x7fffffffffffffffffffffffffffffff == x % 0x80000000000000000000000000000000) by(bit_vector);
    assert(x & 0x80000000000000000000000000000000 == sub(x, x % 0x80000000000000000000000000000000) && x >= x % 0x80000000000000000000000000000000) by(bit_vector);
    assert(x >> 108u32 == x / 0x1000000000000000000000000000) by(bit_vector);
    assert(x >> 127u32 == x / 0x80000000000000000000000000000000) by(bit_vector);
    assert(x & 0xfffffffffffffffffffffffffff == x % 0x1000000000000000000000000000) by(bit_vector);
    assert(x | 0 == x) by(bit_vector);
    assert(x % 2 == 0 ==> x | 1 == add(x, 1) && x < 0xffffffffffffffffffffffffffffffff) by(bit_vector);
    assert(x % 2 == 1 ==> x | 1 == x) by(bit_vector);
}
// joining sign bit and magnitude
proof fn ljoin(s: u128, m: u128) requires s == 0 || s == 0x80000000000000000000000000000000, m < 0x80000000000000000000000000000000
    ensures s | m == s + m
{ assert(s | m == add(s, m) && s <= 0xffffffffffffffffffffffffffffffff - m) by(bit_vector) requires s == 0 || s == 0x80000000000000000000000000000000, m < 0x80000000000000000000000000000000; }
proof fn lhid(b: u128, m: u128) requires b <= 1, m < 0x1000000000000000000000000000
    ensures (b << 108u32) | m == b * 0x1000000000000000000000000000 + m, b << 108u32 == b * 0x1000000000000000000000000000
{
    assert((b << 108u32) | m == add(mul(b, 0x1000000000000000000000000000), m)) by(bit_vector) requires b <= 1, m < 0x1000000000000000000000000000;
    assert(b << 108u32 == mul(b, 0x1000000000000000000000000000)) by(bit_vector) requires b <= 1;
}
proof fn lexpo(e: u128) requires e < 0x80000 ensures e << 108u32 == e * 0x1000000000000000000000000000, e << 108u32 <= 0x7ffff000000000000000000000000000
{ assert(e << 108u32 == mul(e, 0x1000000000000000000000000000) && e << 108u32 <= 0x7ffff000000000000000000000000000) by(bit_vector) requires e < 0x80000; }
proof fn lp2() ensures pow2(236) == FR() * B(), pow2(108) == FR(), pow2(237) == 2 * pow2(236), pow2(255) == SGN() * B(), pow2(237) < B2(), pow2(236) > 0
{
    lp(); lb(); lw();
    lemma2_to64(); lemma2_to64_rest();
    lemma_pow2_adds(44, 64); lemma_pow2_adds(108, 128); lemma_pow2_adds(1, 236); lemma_pow2_adds(63, 64); lemma_pow2_adds(127, 128); lemma_pow2_strictly_increases(237, 256); lemma_pow2_pos(236);
    assert(pow2(44) == 0x1000_0000_0000); assert(pow2(64) == 0x1_0000_0000_0000_0000);
    assert(pow2(108) == 0x1000_0000_0000 * 0x1_0000_0000_0000_0000);
    assert(0x1000_0000_0000 * 0x1_0000_0000_0000_0000 == FR()) by(compute);
    assert(pow2(63) == 0x8000_0000_0000_0000);
    assert(0x8000_0000_0000_0000 * 0x1_0000_0000_0000_0000 == SGN()) by(compute);
}
// ---- modular arithmetic
proof fn lmodmul(u: int, v: int, p: int) requires v > 0, p > 0, u >= 0 ensures (u * p) % (v * p) == (u % v) * p
{
    ldm(u, v); let k = u / v; let r = u % v;
    assert(u * p == k * (v * p) + r * p) by(nonlinear_arith) requires u == k * v + r;
    assert(0 <= r * p < v * p) by(nonlinear_arith) requires 0 <= r < v, p > 0;
    lmod(u * p, v * p, k, r * p);
}
// ((u mod v) * w) mod v == (u * w) mod v
proof fn lmodstep(u: int, v: int, w: int) requires v > 0, u >= 0, w >= 0 ensures ((u % v) * w) % v == (u * w) % v
{
    ldm(u, v); let k = u / v; let r = u % v;
    let a = r * w; lmul0(r, w);
    ldm(a, v); let j = a / v; let c = a % v;
    assert(u * w == (k * w + j) * v + c) by(nonlinear_arith) requires u == k * v + r, a == r * w, a == j * v + c;
    lmod(u * w, v, k * w + j, c);
}
proof fn lzstep(u: int, v: int, w: int) requires v > 0, u >= 0, w >= 0, u % v == 0 ensures (u * w) % v == 0
{ lmodstep(u, v, w); assert(0 * w == 0) by(nonlinear_arith); assert(0int % v == 0) by { lmod0(0, v); } }
// val is monotonic: the larger encoding has at least the exponent
proof fn lsig(h: int, l: int) requires 0 <= h < 0x7ffff * FR(), 0 <= l < B() ensures 0 <= sig(h, l) < pow2(237), h < FR() ==> sig(h, l) < pow2(236), h >= FR() ==> sig(h, l) >= pow2(236), (h > 0 || l > 0) ==> sig(h, l) > 0,
    0 <= ebits(h) < 0x7ffff, (h >= FR()) == (ebits(h) >= 1), ebits(h) >= 1 ==> qe(h) == ebits(h) - 1, ebits(h) < 1 ==> qe(h) == 0
{
    lp2(); lb();
    let m = h % FR() + if h >= FR() { FR() } else { 0 };
    ldm(h, FR());
    assert(0 <= m < 2 * FR());
    assert(0 <= m * B() + l < 2 * (FR() * B())) by(nonlinear_arith) requires 0 <= m <= 2 * FR() - 1, 0 <= l < B();
    if h < FR() { lmod0(h, FR()); assert(m * B() + l < FR() * B()) by(nonlinear_arith) requires 0 <= m <= FR() - 1, 0 <= l < B(); }
    else { assert(m * B() + l >= FR() * B()) by(nonlinear_arith) requires m >= FR(), l >= 0, B() > 0; assert(FR() * B() > 0) by(nonlinear_arith) requires B() > 0; }
    if h > 0 && h < FR() { assert(m * B() > 0) by(nonlinear_arith) requires m > 0, B() > 0; }
}
// the remainder of the scaled significands is the remainder of the values
proof fn lrem(sx: int, sy: int, ex: nat, ey: nat)
    requires sx > 0, sy > 0, ex >= ey
    ensures (sx * pow2(ex)) % (sy * pow2(ey)) == ((sx * pow2((ex - ey) as nat)) % sy) * pow2(ey), pow2(ey) > 0, pow2((ex - ey) as nat) > 0
{
    lemma_pow2_adds((ex - ey) as nat, ey); lemma_pow2_pos((ex - ey) as nat); lemma_pow2_pos(ey);
    let a = pow2((ex - ey) as nat) as int; let b = pow2(ey) as int;
    assert(sx * pow2(ex) == (sx * a) * b) by(nonlinear_arith) requires pow2(ex) == a * b;
    lmul0(sx, a);
    lmodmul(sx * a, sy, b);
}
// value order: |x| < |y| as encodings => val x < val y
proof fn lcmp(hx: int, lx: int, hy: int, ly: int)
    requires 0 <= hx < 0x7ffff * FR(), 0 <= lx < B(), 0 <= hy < 0x7ffff * FR(), 0 <= ly < B(), hx * B() + lx < hy * B() + ly
    ensures sig(hx, lx) * pow2(qe(hx)) < sig(hy, ly) * pow2(qe(hy)), qe(hx) <= qe(hy)
{
    lp2(); lb(); lsig(hx, lx); lsig(hy, ly);
    assert(hx <= hy) by(nonlinear_arith) requires hx * B() + lx < hy * B() + ly, 0 <= lx, ly < B(), B() > 0;
    ldm(hx, FR()); ldm(hy, FR());
    assert(hx / FR() <= hy / FR()) by(nonlinear_arith) requires hx <= hy, hx == (hx / FR()) * FR() + hx % FR(), hy == (hy / FR()) * FR() + hy % FR(), 0 <= hx % FR() , hy % FR() < FR(), FR() > 0;
    let a = qe(hx); let b = qe(hy);
    lemma_pow2_pos(a); lemma_pow2_pos(b);
    let p = pow2(a) as int; let q = pow2(b) as int;
    let sx = sig(hx, lx); let sy = sig(hy, ly);
    if a == b {
        if hx / FR() == hy / FR() {
            let mx = hx % FR() + if hx >= FR() { FR() } else { 0 }; let my = hy % FR() + if hy >= FR() { FR() } else { 0 };
            assert(mx * B() - my * B() == hx * B() - hy * B()) by(nonlinear_arith) requires mx - my == hx - hy;
            assert(sx < sy);
        } else { assert(hx < FR()); assert(hy >= FR()); assert(sx < sy); }
        assert(sx * p < sy * p) by(nonlinear_arith) requires sx < sy, p > 0;
    } else {
        lemma_pow2_adds((b - a) as nat, a); 
        if b - a > 1 { lemma_pow2_strictly_increases(1, (b - a) as nat); }
        lp();
        let g = pow2((b - a) as nat) as int;
        assert(g >= 2);
        assert(sx < 2 * sy);
        assert(sx * p < sy * (g * p)) by(nonlinear_arith) requires sx < 2 * sy, g >= 2, p > 0, sy > 0;
    }
}
// encoding of a result r < 2^237 with quantum exponent q, shifted up as far as possible
proof fn lenc(rh: int, rl: int, rv: int, m1: int, h: int)
    requires 0 <= rl < B(), 0 <= rh, rv == rh * B() + rl, rv < pow2(237), h == rh + m1 * FR(), 0 <= m1 < 0x7fffe, rv >= pow2(236) || m1 == 0
    ensures 0 <= h < 0x7ffff * FR(), h < SGN(), sig(h, rl) == rv, qe(h) == m1, rh < 2 * FR()
{
    lp2(); lb();
    assert(rh < 2 * FR()) by(nonlinear_arith) requires rh * B() + rl < 2 * (FR() * B()), rl >= 0, B() > 0;
    if rv >= pow2(236) {
        assert(rh >= FR()) by(nonlinear_arith) requires rh * B() + rl >= FR() * B(), rl < B(), B() > 0;
        lmod(h, FR(), m1 + 1, rh - FR());
        assert(h >= FR()) by(nonlinear_arith) requires h == rh + m1 * FR(), rh >= FR(), m1 >= 0;
    } else {
        assert(rh < FR()) by(nonlinear_arith) requires rh * B() + rl < FR() * B(), rl >= 0, B() > 0;
        lmod0(h, FR());
    }
}
proof fn lpp(a: nat, b: nat) ensures pow2(a + b) == pow2(a) * pow2(b), pow2(a) > 0, pow2(b) > 0 { lemma_pow2_adds(a, b); lemma_pow2_pos(a); lemma_pow2_pos(b); }
proof fn l3(a: int, b: int, c: int) ensures (a * b) * c == a * (b * c) { assert((a * b) * c == a * (b * c)) by(nonlinear_arith); }
// r == (sx << (sh + 256 k)) mod sy
pub open spec fn partial(sx: int, sh: nat, k: nat, sy: int) -> int { (sx * pow2((sh + 256 * k) as nat)) % sy }
proof fn lpartial(sx: int, sh: nat, k: nat, sy: int) requires sx >= 0, sy > 0
    ensures partial(sx, sh, k + 1, sy) == (partial(sx, sh, k, sy) * B2()) % sy, partial(sx, sh, k, sy) == 0 ==> partial(sx, sh, k + 1, sy) == 0, 0 <= partial(sx, sh, k, sy) < sy
{
    lp(); let n = (sh + 256 * k) as nat; lemma_pow2_adds(n, 256); lemma_pow2_pos(n);
    assert((sh + 256 * (k + 1)) as nat == n + 256);
    let u = sx * pow2(n); lmul0(sx, pow2(n) as int);
    l3(sx, pow2(n) as int, B2());
    lmodstep(u, sy, B2());
    if u % sy == 0 { assert(0 * B2() == 0) by(nonlinear_arith); lmod0(0, sy); }
    ldm(u, sy);
}
proof fn lpz(sx: int, sh: nat, k: nat, n: nat, sy: int) requires sx >= 0, sy > 0, k <= n, partial(sx, sh, k, sy) == 0 ensures partial(sx, sh, n, sy) == 0 decreases n - k
{ if k < n { lpartial(sx, sh, k, sy); lpz(sx, sh, k + 1, n, sy); } }
"""


def helpers(X):
    """small functions of lib.rs"""
    import constev
    env = constev.consts(open(os.path.join(X.repo, LIB)).read())
    used = ["EXP_BITS", "SIGNIFICAND_BITS", "FRACTION_BITS", "EXP_MAX", "EXP_BIAS", "EMAX", "EMIN", "HI_SIGN_SHIFT", "HI_FRACTION_BITS", "HI_FRACTION_BIAS",
            "HI_FRACTION_MASK", "HI_EXP_MASK", "HI_SIGN_MASK", "HI_ABS_MASK", "MAX_HI", "INF_HI", "NAN_HI", "INT_EXP"]
    out = []
    for n in used:
        if n not in env:
            raise X.Lost("constant " + n)
        out.append("pub const %s: %s = %d;" % (n, env[n][0], env[n][1]))
    txt = open(os.path.join(X.repo, LIB)).read()
    for n, t in (("NAN", r"const NAN: f256 = f256 \{\s*bits: U256::new\(NAN_HI, 0(?:_u128)?\),\s*\};"), ("ZERO", r"const ZERO: f256 = f256 \{ bits: U256::ZERO \};")):
        if not re.search(t, txt):
            raise X.Lost("constant f256::" + n)
    out.append("impl f256 { pub const NAN: f256 = f256 { bits: U256 { hi: U128(NAN_HI), lo: U128(0) } }; pub const ZERO: f256 = f256 { bits: U256 { hi: U128(0), lo: U128(0) } }; }")
    out.append("impl U256 {\npub " + X.fn(ud.UG, "new", header=r"^impl UInt<U128>|^impl U256", ret="r", spec="    ensures r.hi.0 == hi, r.lo.0 == lo, r.v() == hi * B() + lo").replace("const fn", "fn") + "}\n")
    f = lambda n, spec, **k: out.append("pub " + X.fn(LIB, n, header=r"^$", spec=spec, **k).replace("const fn", "fn"))
    f("sign_bits_hi", "    ensures r as int == sgn(f.bits) * SGN(), r == 0 || r == 0x80000000000000000000000000000000", at={0: "proof { lbits(f.bits.hi.0); }"})
    f("abs_bits", "    ensures r.hi.0 as int == ahi(f.bits), r.lo == f.bits.lo", at={0: "proof { lbits(f.bits.hi.0); }"})
    f("abs_bits_sticky", "    ensures r == abs_bits.hi.0 | (if abs_bits.lo.0 != 0 { 1u128 } else { 0u128 }), abs_bits.lo.0 == 0 ==> r == abs_bits.hi.0, abs_bits.lo.0 != 0 ==> r == abs_bits.hi.0 - abs_bits.hi.0 % 2 + 1",
      at={0: "proof { lbits(abs_bits.hi.0); }"})
    f("norm_bit", "    ensures r == if abs_bits.hi.0 >= FR() { 1int } else { 0 }")
    f("exp_bits", "    ensures r as int == abs_bits.hi.0 as int / FR()", at={0: "proof { lbits(abs_bits.hi.0); let h = abs_bits.hi.0; assert(h / 0x1000000000000000000000000000 < 0x100000) by(bit_vector); }"})
    f("signif", "    ensures r.v() == sig(abs_bits.hi.0 as int, abs_bits.lo.0 as int)",
      at={0: "proof { lbits(abs_bits.hi.0); lhid(0, (abs_bits.hi.0 % 0x1000000000000000000000000000) as u128); lhid(1, (abs_bits.hi.0 % 0x1000000000000000000000000000) as u128); }"})
    f("fraction", "    ensures r.hi.0 as int == abs_bits.hi.0 as int % FR(), r.lo == abs_bits.lo", at={0: "proof { lbits(abs_bits.hi.0); }"})
    return out


def any_special(X):
    spec2 = ("pub trait BinEncAnySpecial { spec fn as_pred(&self) -> bool; fn any_special(&self) -> (r: bool) ensures r == self.as_pred(); }\n"
             "pub open spec fn special(h: u128) -> bool { h == 0 || h > 0x7fffefffffffffffffffffffffffffff }\n"
             "impl BinEncAnySpecial for (u128, u128) {\nopen spec fn as_pred(&self) -> bool { special(self.0) || special(self.1) }\n")
    return [spec2 + X.fn(LIB, "any_special", header=r"BinEncAnySpecial for \(u128, u128\)$", sig="fn any_special(&self) -> (r: bool)") + "}\n"]


STD = r"""
pub fn max(a: u128, b: u128) -> (r: u128) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn min(a: u32, b: u32) -> (r: u32) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
"""


LEM2 = r"""
proof fn lspecial(hi: u128, lo: u128, st: u128)
    requires hi < 0x80000000000000000000000000000000, lo == 0 ==> st == hi, lo != 0 ==> st == hi - hi % 2 + 1
    ensures st == 0 <==> hi == 0 && lo == 0, st > 0x7ffff000000000000000000000000000 <==> hi > 0x7ffff * FR() || (hi == 0x7ffff * FR() && lo > 0),
        st == 0x7ffff000000000000000000000000000 <==> hi == 0x7ffff * FR() && lo == 0, special(st) <==> (hi == 0 && lo == 0) || hi >= 0x7ffff * FR()
{}
proof fn lval(a: U256) requires fin(a) ensures val(a) >= 0, val(a) > 0 <==> !zer(a), zer(a) ==> val(a) == 0, sig(ahi(a), a.lo.0 as int) > 0 <==> !zer(a)
{
    lb(); ldm(a.hi.0 as int, SGN()); lsig(ahi(a), a.lo.0 as int);
    let p = qe(ahi(a)); lemma_pow2_pos(p); let s = sig(ahi(a), a.lo.0 as int);
    assert(s > 0 ==> s * pow2(p) > 0) by(nonlinear_arith) requires pow2(p) > 0;
    assert(0 * pow2(p) == 0) by(nonlinear_arith);
    if zer(a) { lmod0(0, FR()); assert(0 * B() + 0 == 0) by(nonlinear_arith); assert(s == 0); }
}
// result from the scaled remainder
proof fn lfinal(sx: int, sy: int, qx: nat, qy: nat, z: int)
    requires sx > 0, sy > 0, qx >= qy, z == (sx * pow2((qx - qy) as nat)) % sy
    ensures (sx * pow2(qx)) % (sy * pow2(qy)) == z * pow2(qy), z == 0 ==> z * pow2(qy) == 0
{ lrem(sx, sy, qx, qy); assert(0 * pow2(qy) == 0) by(nonlinear_arith); }
proof fn lequal(s: int, qx: nat, qy: nat) requires s > 0, qx >= qy ensures (s * pow2(qx)) % (s * pow2(qy)) == 0
{ let g = pow2((qx - qy) as nat) as int; lmm(g, s); assert(s * g == g * s) by(nonlinear_arith); lfinal(s, s, qx, qy, 0); }
proof fn lsh(sx: int, sh: nat) requires 0 <= sx < pow2(237), sh < 256 ensures 0 <= sx * pow2(sh) < B4(), pow2(sh) > 0
{
    lp(); lb(); lw(); lemma_pow2_adds(237, sh); lemma_pow2_pos(sh); lemma_pow2_pos(237); lemma_pow2_strictly_increases(237 + sh, 512);
    let p = pow2(sh) as int;
    assert(0 <= sx * p && sx * p <= pow2(237) * p) by(nonlinear_arith) requires 0 <= sx <= pow2(237), p > 0;
}
// normalising shift: z < 2^237, m = msb(z), s = min(236 - m, e-1)
proof fn lnorm(z: int, m: nat, s: nat, e: nat) requires pow2(m) <= z < pow2(m + 1), m <= 236, s <= 236 - m
    ensures 0 <= z * pow2(s) < pow2(237), s == 236 - m ==> z * pow2(s) >= pow2(236), pow2(s) > 0
{
    lemma_pow2_adds(m, s); lemma_pow2_adds(m + 1, s); lemma_pow2_pos(s); lemma_pow2_pos(m);
    let p = pow2(s) as int;
    if m + 1 + s < 237 { lemma_pow2_strictly_increases(m + 1 + s, 237); }
    assert(z * p >= pow2(m) * p && z * p < pow2(m + 1) * p && z * p >= 0) by(nonlinear_arith) requires pow2(m) <= z < pow2(m + 1), p > 0, pow2(m) > 0;
}
proof fn lassoc(z: int, s: nat, m1: nat, q: nat) requires s + m1 == q ensures (z * pow2(s)) * pow2(m1) == z * pow2(q)
{ lemma_pow2_adds(s, m1); l3(z, pow2(s) as int, pow2(m1) as int); }
proof fn lmsbz(z: int, m: nat) requires pow2(m) <= z < pow2(237) ensures m <= 236
{ if m >= 237 { if m > 237 { lemma_pow2_strictly_increases(237, m); } } }
// the encoding put together
proof fn lres(rh: u128, rl: int, m1: int, s: int, z2: int, h: u128, o: u128)
    requires 0 <= rl < B(), z2 == rh * B() + rl, z2 < pow2(237), h == rh + m1 * FR(), 0 <= m1 < 0x7fffe, z2 >= pow2(236) || m1 == 0,
        s == 0 || s == 1, h < SGN(), o == s * SGN() + h
    ensures (o as int) % SGN() == h, (o as int) / SGN() == s, h < 0x7ffff * FR(), sig(h as int, rl) == z2, qe(h as int) == m1
{
    lb(); lenc(rh as int, rl, z2, m1, h as int); lmod(o as int, SGN(), s, h as int);
}
"""


def build(X):
    out = ud.base(X) + ["//@mod me", SPEC, STD] + helpers(X) + any_special(X) + ["//@mod mf", LEM2]
    spec = """    ensures
        nan(x.bits) || nan(y.bits) || zer(y.bits) || inf(x.bits) ==> nan(r.bits),
        fin(x.bits) && inf(y.bits) ==> r.bits == x.bits,
        fin(x.bits) && fin(y.bits) && !zer(y.bits) ==> fin(r.bits) && val(r.bits) == val(x.bits) % val(y.bits) && (sgn(r.bits) == sgn(x.bits) || zer(r.bits))"""
    INV = """ invariant signif_y.v() == sy0, 0 < sy0 < pow2(237), sx0 >= 0, vp_i <= vp_n, abs_bits_z.v() == partial(sx0, sh as nat, vp_i as nat, sy0),
        ensures abs_bits_z.v() == partial(sx0, sh as nat, vp_n as nat, sy0)
        decreases vp_n - vp_i,
"""
    out.append("pub " + X.fn("src/binops/rem.rs", "rem", header=r"^$", spec=spec, ghosts=False,
        subst=[(r"&t % &signif_y", "(&t).rem(&signif_y)"),
               (r"for _ in 0\.\.([^{]*?)\s*\{", r"let vp_n = \1; let mut vp_i: u32 = 0; while vp_i < vp_n " + INV + "{ let ghost vp_g = vp_i; proof { lb(); lw(); abs_bits_z.vb(); lmul0(abs_bits_z.v(), B2()); lpartial(sx0, sh as nat, vp_i as nat, sy0); abs_bits_z.vb(); } vp_i = vp_i + 1; ")],
        at={0: """proof { lb(); lw(); lp2(); lbits(x.bits.hi.0); lbits(y.bits.hi.0); ldm(x.bits.hi.0 as int, SGN()); ldm(y.bits.hi.0 as int, SGN()); lmod0(0, SGN());
 assert(ahi(f256::NAN.bits) == NAN_HI) by { lmod0(NAN_HI as int, SGN()); }
 assert(zer(f256::ZERO.bits)); lval(f256::ZERO.bits);
 if fin(x.bits) { lval(x.bits); } if fin(y.bits) { lval(y.bits); }
 if fin(x.bits) && fin(y.bits) && zer(x.bits) && !zer(y.bits) { lmod0(val(x.bits), val(y.bits)); } }"""},
        hints=[(r"let abs_bits_sticky_y = [^;]*;", "proof { lspecial(abs_bits_x.hi.0, abs_bits_x.lo.0, abs_bits_sticky_x); lspecial(abs_bits_y.hi.0, abs_bits_y.lo.0, abs_bits_sticky_y); }"),
               (r"(?=if abs_bits_x [<>=]+ abs_bits_y)", """proof { abs_bits_x.vb(); abs_bits_y.vb();
 let hx = ahi(x.bits); let lx = x.bits.lo.0 as int; let hy = ahi(y.bits); let ly = y.bits.lo.0 as int;
 lsig(hx, lx); lsig(hy, ly);
 if abs_bits_x.v() < abs_bits_y.v() { lcmp(hx, lx, hy, ly); lmod0(val(x.bits), val(y.bits)); }
 else if abs_bits_y.v() < abs_bits_x.v() { lcmp(hy, ly, hx, lx); }
 else { lemma_inj(B(), hx, lx, hy, ly); } }"""),
               (r"let mut signif_y = [^;]*;", "let ghost sx0 = signif_x.v(); let ghost sy0 = signif_y.v(); let ghost qx = qe(ahi(x.bits)); let ghost qy = qe(ahi(y.bits)); proof { if sx0 == sy0 { lequal(sx0, qx, qy); } }"),
               (r"let sh = [^;]*;", "proof { lsh(sx0, sh as nat); assert(n_bits == qx - qy); assert(n_bits >> 8 == n_bits / 256) by(bit_vector); lmod0(sx0 * pow2(sh as nat), B4()); signif_x.vb(); assert(0 * B2() == 0) by(nonlinear_arith); }"),
               (r"let mut abs_bits_z = [^;]*;", "proof { abs_bits_z.vb(); assert((sh + 256 * 0) as nat == sh as nat); }"),
               (r"(?=break\s*;)", "proof { lpz(sx0, sh as nat, vp_i as nat, vp_n as nat, sy0); }"),
               (r"break\s*;\s*\}\s*\}", "proof { assert((sh + 256 * vp_n) as nat == (qx - qy) as nat); lfinal(sx0, sy0, qx, qy, abs_bits_z.v()); lpartial(sx0, sh as nat, vp_n as nat, sy0); } let ghost z0 = abs_bits_z.v();"),
               (r"(?=let shift_z = )", """proof { lp2(); lb(); abs_bits_z.vb(); lpartial(sx0, sh as nat, vp_n as nat, sy0);
 assert forall|m: nat| #[trigger] pow2(m) <= z0 < pow2(m + 1) implies m <= 236 by { lmsbz(z0, m); } }"""),
               (r"(?=abs_bits_z <<= shift_z\s*;)", """proof {
 assert forall|m: nat| #[trigger] pow2(m) <= z0 < pow2(m + 1) && m <= 236 && shift_z <= 236 - m implies z0 * pow2(shift_z as nat) < pow2(237) && (shift_z == 236 - m ==> z0 * pow2(shift_z as nat) >= pow2(236)) by { lnorm(z0, m, shift_z as nat, 0); }
 lemma_pow2_pos(shift_z as nat); lmul0(z0, pow2(shift_z as nat) as int); }"""),
               (r"abs_bits_z <<= shift_z\s*;", """let ghost z2 = z0 * pow2(shift_z as nat); proof { lmod0(z2, B2()); }"""),
               (r"let exp_bits_z_m1 = [^;]*;", """let ghost m1 = exp_bits_z_m1 as int; let ghost zh = abs_bits_z.hi.0; proof { assert(shift_z + m1 == qy); lexpo(exp_bits_z_m1 as u128); lassoc(z0, shift_z as nat, m1 as nat, qy);
 lenc(zh as int, abs_bits_z.lo.0 as int, z2, m1, zh + m1 * FR()); }"""),
               (r"abs_bits_z\.hi\.0 \+= [^;]*;", """proof { let so = sgn(x.bits); ldm(x.bits.hi.0 as int, SGN()); assert(so == 0 || so == 1); ljoin(if so == 0 { 0u128 } else { 0x80000000000000000000000000000000u128 }, abs_bits_z.hi.0);
 lres(zh, abs_bits_z.lo.0 as int, m1, so, z2, abs_bits_z.hi.0, (so * SGN() + abs_bits_z.hi.0) as u128); }"""),
               ]))
    return "\n".join(out) + "\nfn main() {}\n}\n"
