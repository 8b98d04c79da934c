"""f256::sqrt for all operands: the special cases, and for finite x > 0 the
result with significand m and exponent is the datum nearest to the exact
square root: (2m-1)^2 < 4 x (scaled) < (2m+1)^2, on top of unit udiv."""
import os, re, importlib.util
RLIMIT = 60
TIMEOUT = 600
MIN_OBLIGATIONS = 550
_sp = importlib.util.spec_from_file_location("vu_frem_base", os.path.join(os.path.dirname(os.path.abspath(__file__)), "frem.py"))
fr = importlib.util.module_from_spec(_sp)
_sp.loader.exec_module(fr)
ud = fr.ud
LIB = "src/lib.rs"

LEM = r"""
pub open spec fn sq(a: int) -> int { a * a }
// m is the significand of the datum nearest to sqrt(X) for X in quanta: all in units of 2^476
pub open spec fn nearest_root(x: int, m: int, e: int) -> bool {
    e >= 0 && m >= pow2(236) && m < pow2(237) && sq(2 * m - 1) * pow2(e as nat) < x * pow2(476) < sq(2 * m + 1) * pow2(e as nat)
    && (m == pow2(236) ==> sq(2 * m) * pow2(e as nat) <= x * pow2(476))
}
proof fn lsq(a: int, b: int) requires 0 <= a, 0 <= b ensures (a * a < b * b) == (a < b), a * a >= 0
{ assert((a * a < b * b) == (a < b)) by(nonlinear_arith) requires 0 <= a, 0 <= b; assert(a * a >= 0) by(nonlinear_arith) requires a >= 0; }
// initial state
proof fn li(s0: int, o: nat, a: int) requires pow2(236) <= s0 < pow2(237), o <= 1, a == s0 * pow2(1 + o)
    ensures pow2(237) <= a < 4 * pow2(237), a <= 4 * (pow2(237) - 1), pow2(237) * pow2(237) + (a - pow2(237)) * pow2(237) == a * pow2(237), 4 * pow2(237) < B2(), 32 * pow2(237) <= B2(), pow2(237) == 2 * FR() * B()
{
    lp2(); lp(); lb(); lw(); lemma_pow2_adds(1, 1); lemma_pow2_adds(237, 2); lemma_pow2_adds(237, 5); lemma_pow2_adds(2, 2); lemma_pow2_adds(4, 1); lemma_pow2_pos(237);
    lemma_pow2_adds(0, 1);
    lemma_pow2_strictly_increases(242, 256);
    let p = pow2(237) as int;
    if o == 0 { assert(s0 * 2 == a); } else { assert(pow2(2) == 4); assert(s0 * 4 == a); }
    assert(p * p + (a - p) * p == a * p) by(nonlinear_arith);
}
proof fn lstep(q: int, r: int, s: int, h: int, n: int) requires s == 2 * h, q * q + r * s == n
    ensures q * q + (2 * r) * h == n, (q + h) * (q + h) + (2 * r - (2 * q + h)) * h == n
{
    assert(q * q + (2 * r) * h == n) by(nonlinear_arith) requires s == 2 * h, q * q + r * s == n;
    assert((q + h) * (q + h) + (2 * r - (2 * q + h)) * h == q * q + (2 * r) * h) by(nonlinear_arith);
}
proof fn lbound(q: int, r: int, s: int, a: int) requires q >= 0, r >= 0, s > 0, q * q + r * s == a * pow2(237), a < 4 * pow2(237) ensures q < 2 * pow2(237)
{
    let p = pow2(237) as int; lmul0(r, s); lemma_pow2_pos(237);
    assert(q * q < (2 * p) * (2 * p)) by(nonlinear_arith) requires q * q <= a * p, a < 4 * p, p > 0;
    lsq(q, 2 * p);
}
// final state: q = floor of the root, m = q rounded at the lowest bit
proof fn lround(q: int, r: int, s: int, a: int, m: int, up: bool, o: nat)
    requires pow2(237) <= q < 2 * pow2(237), 0 <= r < 2 * q + s, s >= 1, q * q + r * s == a * pow2(237), s == 1 || r == 0, a < 4 * pow2(237),
        a <= 4 * (pow2(237) - 1),
        up == (q % 4 == 3 || (q % 4 == 1 && r != 0)), m == (q + if up { 1int } else { 0 }) / 2
    ensures pow2(236) <= m < pow2(237), sq(2 * m - 1) < a * pow2(237) < sq(2 * m + 1), m == pow2(236) ==> sq(2 * m) <= a * pow2(237)
{
    lp2(); let p = pow2(237) as int; lemma_pow2_pos(237); lemma_pow2_pos(236); let n = a * p;
    assert(r * s == r || r * s == 0) by(nonlinear_arith) requires s == 1 || r == 0;
    assert((q + 1) * (q + 1) == q * q + 2 * q + 1) by(nonlinear_arith);
    assert(q * q <= n < (q + 1) * (q + 1));
    // the root is below 2^238 - 1
    let z = 2 * p - 1;
    assert(n < z * z) by(nonlinear_arith) requires n == a * p, a <= 4 * (p - 1), z == 2 * p - 1, p > 0;
    lsq(q, z);
    // exact ties do not exist: an odd q with r == 0 would have an odd square, n is even
    assert(n % 2 == 0) by { assert(n == (a * (p / 2)) * 2) by(nonlinear_arith) requires n == a * p, p == 2 * (p / 2); assert(p % 2 == 0); lmod(n, 2, a * (p / 2), 0); }
    if q % 2 == 1 {
        let k = q / 2; assert(q == 2 * k + 1);
        assert(q * q == (2 * k * k + 2 * k) * 2 + 1) by(nonlinear_arith) requires q == 2 * k + 1;
        lmod(q * q, 2, 2 * k * k + 2 * k, 1);
        assert(r * s != 0); assert(r != 0) by { if r == 0 { assert(0 * s == 0) by(nonlinear_arith); } }
        assert(up);
        assert(2 * m == q + 1);
        assert(q * q < n);
        assert(n < sq(2 * m + 1)) by(nonlinear_arith) requires n < (q + 1) * (q + 1), 2 * m == q + 1, q >= 0;
    } else {
        assert(2 * m == q);
        assert(sq(2 * m - 1) < n) by(nonlinear_arith) requires q * q <= n, 2 * m == q, q >= 1;
    }
}
// scaling of the inequalities back to x
// X: value in quanta, X = sg * 2^qx, S = sg * 2^n, a = S * 2^(1 + o), e = qx - n - o + 238
proof fn lscale(sg: int, qx: nat, n: nat, o: nat, a: int, e: nat, lo: int, hi: int, c: int)
    requires sg > 0, o <= 1, e + n + o == qx + 238, a == (sg * pow2(n)) * pow2(1 + o), lo < a * pow2(237) < hi, c <= a * pow2(237)
    ensures lo * pow2(e) < (sg * pow2(qx)) * pow2(476) < hi * pow2(e), c * pow2(e) <= (sg * pow2(qx)) * pow2(476)
{
    lemma_pow2_pos(e);
    let P = pow2(e) as int;
    lemma_pow2_adds(n, 1 + o); l3(sg, pow2(n) as int, pow2(1 + o) as int);
    lemma_pow2_adds(n + 1 + o, 237); l3(sg, pow2(n + 1 + o) as int, pow2(237) as int);
    lemma_pow2_adds(n + 238 + o, e); l3(sg, pow2(n + 238 + o) as int, P);
    assert(n + 1 + o + 237 == n + 238 + o);
    lemma_pow2_adds(qx, 476); l3(sg, pow2(qx) as int, pow2(476) as int);
    assert(n + 238 + o + e == qx + 476);
    let N = a * pow2(237);
    assert(N * P == (sg * pow2(qx)) * pow2(476));
    assert(lo * P < N * P) by(nonlinear_arith) requires lo < N, P > 0;
    assert(N * P < hi * P) by(nonlinear_arith) requires N < hi, P > 0;
    assert(c * P <= N * P) by(nonlinear_arith) requires c <= N, P > 0;
}
proof fn lor108(a: u128, e: u128, s: u128) requires a < 0x1000000000000000000000000000, e < 0x80000, s <= 1
    ensures (a | (e << 108u32)) | (s << 127u32) == a + e * 0x1000000000000000000000000000 + s * 0x80000000000000000000000000000000
{
    assert((a | (e << 108u32)) | (s << 127u32) == add(add(a, mul(e, 0x1000000000000000000000000000)), mul(s, 0x80000000000000000000000000000000))) by(bit_vector) requires a < 0x1000000000000000000000000000, e < 0x80000, s <= 1;
}
proof fn lhid2(b: u128, m: u128) requires b <= 1, m < 0x1000000000000000000000000000
    ensures m | (b << 108u32) == b * 0x1000000000000000000000000000 + m
{ assert(m | (b << 108u32) == add(mul(b, 0x1000000000000000000000000000), m)) by(bit_vector) requires b <= 1, m < 0x1000000000000000000000000000; }
proof fn lor0(m: u128) ensures m | (0u128 << 108u32) == m { assert(m | (0u128 << 108u32) == m) by(bit_vector); }
proof fn lodd(x: i32) ensures (x & 1) == x % 2, 0 <= x % 2 <= 1
{ assert((x & 1) == x % 2 && 0 <= (x & 1) && (x & 1) <= 1) by(bit_vector); }
proof fn l4(x: u128) ensures x & 3 == x % 4 { assert(x & 3 == x % 4) by(bit_vector); }
proof fn lmod4(h: int, l: int) requires 0 <= l < B() ensures (h * B() + l) % 4 == l % 4
{ lb(); let k = B() / 4; assert(B() == 4 * k) by(compute); ldm(l, 4); assert(h * B() + l == (h * k + l / 4) * 4 + l % 4) by(nonlinear_arith) requires B() == 4 * k, l == (l / 4) * 4 + l % 4; lmod(h * B() + l, 4, h * k + l / 4, l % 4); }
// normalisation of a subnormal (or nothing to do)
proof fn lnsh(v: int, sg: int, n: nat, z: int)
    requires lzs(v, z, 256), n == if z > 19 { z - 19 } else { 0 }, 0 < v < pow2(255), sg == v && v < pow2(236) || v >= pow2(236) && pow2(236) <= sg < pow2(237)
    ensures pow2(236) <= sg * pow2(n) < pow2(237), n <= 236, v >= pow2(236) <==> n == 0, pow2(237) < B2()
{
    lp2(); lp();
    if v >= pow2(236) { if z > 19 { if 256 - z < 236 { lemma_pow2_strictly_increases((256 - z) as nat, 236); } } assert(n == 0); assert(sg * 1 == sg); }
    else {
        if z < 20 { if 255 - z > 236 { lemma_pow2_strictly_increases(236, (255 - z) as nat); } }
        lemma_pow2_adds((255 - z) as nat, n); lemma_pow2_adds((256 - z) as nat, n); lemma_pow2_pos(n);
        let p = pow2(n) as int;
        assert(pow2((255 - z) as nat) * p <= sg * p < pow2((256 - z) as nat) * p) by(nonlinear_arith) requires pow2((255 - z) as nat) <= sg < pow2((256 - z) as nat), p > 0; }
}
"""


def build(X):
    out = ud.base(X) + ["//@mod me", fr.SPEC, fr.STD] + fr.helpers(X)
    # further pieces of lib.rs and of the u256 operators
    txt = open(os.path.join(X.repo, LIB)).read()
    if not re.search(r"const NEG_ZERO: f256 = ZERO\.negated\(\);", txt):
        raise X.Lost("constant f256::NEG_ZERO")
    out.append("impl f256 { pub const NEG_ZERO: f256 = f256 { bits: U256 { hi: U128(HI_SIGN_MASK), lo: U128(0) } }; }")
    out.append("pub trait BinEncSpecial { spec fn sp_pred(&self) -> bool; fn is_special(&self) -> (r: bool) ensures r == self.sp_pred(); }\n"
               "impl BinEncSpecial for u128 {\nopen spec fn sp_pred(&self) -> bool { *self == 0 || *self > 0x7fffefffffffffffffffffffffffffff }\n"
               + X.fn(LIB, "is_special", header=r"BinEncSpecial for u128$", sig="fn is_special(&self) -> (r: bool)") + "}\n")
    out.append("impl BinEncSpecial for U256 {\nopen spec fn sp_pred(&self) -> bool { let h = self.hi.0; if self.lo.0 == 0 { h == 0 || h > 0x7fffefffffffffffffffffffffffffff } else { h - h % 2 + 1 > 0x7fffefffffffffffffffffffffffffff } }\n"
               + X.fn(LIB, "is_special", header=r"BinEncSpecial for U256$", sig="fn is_special(&self) -> (r: bool)") + "}\n")
    N, S, P = "U256", "U128", "B2()"
    G = [(r"\bUInt::<SubUInt>", N), (r"\bUInt<SubUInt>", N), (r"\bSubUInt::", S + "::"), (r"\bSubUInt\b", S)]
    sub = ud.OPS + "sub.rs"
    out.append(ud.imp("impl Sub for U256", N, X.fn(sub, "sub", header=r"Sub for UInt", sig="fn sub(self, rhs: U256) -> (r: U256)", subst=[(r"&self - &rhs", "(&self).sub(&rhs)")] + G,
               spec="    ensures r.v() == self.v() - rhs.v()"), "self.v() >= rhs.v()"))
    out += ["//@mod mf", "pub open spec fn special(h: u128) -> bool { h == 0 || h > 0x7fffefffffffffffffffffffffffffff }", fr.LEM2, LEM]
    out.append("impl f256 {\npub " + X.fn(LIB, "new", header=r"^impl f256$", sig="fn new(sign: u32, exponent: i32, significand: U256) -> (r: Self)",
        spec="""    requires sign <= 1, pow2(236) <= significand.v() < pow2(237), -262142 <= exponent <= 262143
    ensures sgn(r.bits) == sign, fin(r.bits), sig(ahi(r.bits), r.bits.lo.0 as int) == significand.v(), qe(ahi(r.bits)) == exponent + 262142""",
        at={0: """proof { lb(); lp2(); lbits(significand.hi.0); significand.vb(); let e = (exponent + 262143) as u128; lexpo(e);
 let rh = significand.hi.0 as int; let m1 = exponent + 262142; let h = rh + m1 * FR();
 lenc(rh, significand.lo.0 as int, significand.v(), m1, h);
 assert(rh >= FR()) by(nonlinear_arith) requires rh * B() + significand.lo.0 >= FR() * B(), significand.lo.0 < B(), B() > 0;
 lmod(rh, FR(), 1, rh - FR());
 let a = (rh % FR()) as u128;
 lor108(a, e, sign as u128);
 assert(a + e * FR() == h) by(nonlinear_arith) requires a == rh - FR(), e == m1 + 1, h == rh + m1 * FR();
 lmod(sign * SGN() + h, SGN(), sign as int, h);
 }"""}))
    INV = """ invariant_except_break s.v() == pow2((237 - vp_i) as nat),
   invariant pow2(0) == 1, vp_n == 237, vp_i <= vp_n, q.v() >= pow2(237), s.v() >= 1, q.v() * q.v() + r.v() * s.v() == a0 * pow2(237), 0 <= r.v() < 2 * q.v() + s.v(), a0 < 4 * pow2(237), 32 * pow2(237) <= B2(),
   ensures s.v() == 1 || r.v() == 0
   decreases vp_n - vp_i,
"""
    spec = """    ensures
        nan(self.bits) || (sgn(self.bits) == 1 && !zer(self.bits)) ==> nan(r.bits),
        zer(self.bits) || (inf(self.bits) && sgn(self.bits) == 0) ==> r == self,
        fin(self.bits) && !zer(self.bits) && sgn(self.bits) == 0 ==> fin(r.bits) && sgn(r.bits) == 0
            && nearest_root(val(self.bits), sig(ahi(r.bits), r.bits.lo.0 as int), 2 * qe(ahi(r.bits)) - 262378 + 474)"""
    out.append("pub " + X.fn("src/math/sqrt.rs", "sqrt", header=r"^impl f256$", spec=spec, ghosts=False,
        subst=[(r"&(\w+(?:\([^()]*\))?) << (\([^()]*\)|\w+)", r"(&\1).shl(\2)"),
               (r"for (\w+) in 1\.\.=([^{]*?)\s*\{", r"let vp_n = \2; let mut vp_i: u32 = 0; while vp_i < vp_n " + INV + r"{ let \1 = vp_i; proof { r.vb(); q.vb(); s.vb(); lbound(q.v(), r.v(), s.v(), a0); lemma_pow2_adds(1, (236 - vp_i) as nat); lp(); lstep(q.v(), r.v(), s.v(), s.v() / 2, a0 * pow2(237)); lmod(s.v(), 2, pow2((236 - vp_i) as nat) as int, 0); lemma_pow2_pos((236 - vp_i) as nat); if vp_i > 0 { lemma_pow2_strictly_increases((237 - vp_i) as nat, 237); } lmod0(r.v() * 2, B2()); lmod0(q.v() * 2, B2()); } vp_i = vp_i + 1; "),
               ],
        at={0: """proof { lb(); lw(); lp(); lp2(); lbits(self.bits.hi.0); self.bits.vb(); ldm(self.bits.hi.0 as int, SGN()); lmod0(0, SGN());
 assert(ahi(f256::NAN.bits) == NAN_HI) by { lmod0(NAN_HI as int, SGN()); }
 assert(0 * SGN() == 0); assert(1 * SGN() == SGN());
 if self.bits.hi.0 < SGN() { lmod0(self.bits.hi.0 as int, SGN()); if fin(self.bits) { lsig(ahi(self.bits), self.bits.lo.0 as int); } }
 else { lmod(self.bits.hi.0 as int, SGN(), 1, self.bits.hi.0 - SGN()); }
 }""",
            -1: """proof { let sg = sg0; let qx = qe(ahi(self.bits)); let e = (qx + 238 - n0 - o0) as nat; let m = q.v();
 lround(qf, r.v(), s.v(), a0, m, up, o0);
 lscale(sg, qx, n0, o0, a0, e, sq(2 * m - 1), sq(2 * m + 1), if m == pow2(236) { sq(2 * m) } else { 0 }); }"""},
        hints=[(r"let norm_shift = [^;]*;", """let ghost sg0 = sig(ahi(self.bits), self.bits.lo.0 as int); let ghost n0 = norm_shift as nat; proof {
 let v = bin_enc.v(); lval(self.bits); let h = bin_enc.hi.0 as int; let l = bin_enc.lo.0 as int;
 if h >= FR() { lmon(FR(), h, B()); } else { lmod0(h, FR()); lmon(h + 1, FR(), B()); lqmul(h, 1, B()); }
 lmon(h + 1, SGN(), B()); lqmul(h, 1, B());
 assert forall|z: int| #[trigger] lzs(v, z, 256) && n0 == (if z > 19 { z - 19 } else { 0 }) implies pow2(236) <= sg0 * pow2(n0) < pow2(237) && n0 <= 236 && (v >= pow2(236) <==> n0 == 0) by { lnsh(v, sg0, n0, z); } }"""),
               (r"let exp_is_odd = [^;]*;", "let ghost o0 = exp_is_odd as nat; proof { lodd(exp); assert(exp == qe(ahi(self.bits)) - n0 - 262142); }"),
               (r"let mut signif = [^;]*;", "proof { lor0(signif.hi.0); lhid2(1, (bin_enc.hi.0 % 0x1000000000000000000000000000u128) as u128); lhid(hidden_bit as u128, (bin_enc.hi.0 % 0x1000000000000000000000000000u128) as u128); let fv = (bin_enc.hi.0 % 0x1000000000000000000000000000u128) * B() + bin_enc.lo.0; lemma2_to64(); assert(fv * 1 == fv) by(nonlinear_arith); assert(sg0 * 1 == sg0) by(nonlinear_arith); assert(hidden_bit == 0 ==> fv == sg0); lmod0(sg0 * pow2(n0), B2()); lbits(signif.hi.0); if hidden_bit == 1 { assert(pow2(n0) == 1); lmod0(fv, B2()); assert(signif.v() == fv); lb(); lemma_inj(B(), signif.hi.0 as int, signif.lo.0 as int, bin_enc.hi.0 as int % FR(), bin_enc.lo.0 as int); } }"),
               (r"signif\.hi\.0 \|= [^;]*;", "let ghost a0 = (sg0 * pow2(n0)) * pow2(1 + o0); proof { assert(signif.v() == sg0 * pow2(n0)); li(sg0 * pow2(n0), o0, a0); lmod0(a0, B2()); assert(0x1000000000000000000000000000u128 << 1 == 0x2000000000000000000000000000u128) by(bit_vector); }"),
               (r"(?=let rnd_bits = )", "let ghost qf = q.v(); let ghost up = qf % 4 == 3 || (qf % 4 == 1 && r.v() != 0); proof { q.vb(); r.vb(); l4(q.lo.0); lmod4(q.hi.0 as int, q.lo.0 as int); lbound(qf, r.v(), s.v(), a0); lmod(0, 4, 0, 0); }"),
               (r"q\.incr_if\([^;]*;", "proof { q.vb(); lp(); lemma2_to64(); }")]))
    out.append("}")
    return "\n".join(out) + "\nfn main() {}\n}\n"
