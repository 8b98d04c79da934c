"""f256::mul_add (src/fused_ops/fma.rs) for all operands: the special cases and
for finite, non-zero operands the result is the datum nearest to the exact
value x * y + a (ties to even significand), i.e. one rounding; on top of unit
udiv.  X counts units of 2^(2 * -262378)."""
import os, re, importlib.util
RLIMIT = 150
TIMEOUT = 400
MIN_OBLIGATIONS = 680
_sp = importlib.util.spec_from_file_location("vu_frem_base", os.path.join(os.path.dirname(os.path.abspath(__file__)), "frem.py"))
fr = importlib.util.module_from_spec(_sp)
_sp.loader.exec_module(fr)
ud = fr.ud
LIB = "src/lib.rs"
FMA = "src/fused_ops/fma.rs"

STD = r"""
pub fn max(a: u128, b: u128) -> (r: u128) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn min(a: u128, b: u128) -> (r: u128) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
"""

GEN = r"""
proof fn ldist(a: int, b: int, w: int) ensures (a + b) * w == a * w + b * w, (a - b) * w == a * w - b * w { lqmul(a, b, w); }
proof fn lm3(v: int, t: int, w: int) ensures v * (t * w) == (v * t) * w, (v * w) * w == v * (w * w) { assert(v * (t * w) == (v * t) * w) by(nonlinear_arith); assert((v * w) * w == v * (w * w)) by(nonlinear_arith); }
proof fn lmod2(h: int, l: int) ensures (h * B() + l) % 2 == l % 2
{ lb(); ldm(l, 2); let k = B() / 2; assert(B() == 2 * k); assert(h * B() + l == (h * k + l / 2) * 2 + l % 2) by(nonlinear_arith) requires B() == 2 * k, l == (l / 2) * 2 + l % 2; lmod(h * B() + l, 2, h * k + l / 2, l % 2); }
proof fn lposm(a: int, b: int) requires a > 0, b > 0 ensures a * b > 0 { assert(a * b > 0) by(nonlinear_arith) requires a > 0, b > 0; }
"""

# 768 bit integers
L768 = r"""
proof fn lp6() ensures pow2(768) == B2() * B2() * B2(), B4() == B2() * B2(), pow2(768) == B4() * B2(), B2() > 0
{ lp(); lb(); lw(); lemma_pow2_adds(512, 256); lemma_pow2_pos(256); }
proof fn ladd3(w: int, l: int, m: int, h: int, c1: int, c2: int, c3: int, ll: int, mm: int, hh: int)
    requires l + c1 * w == ll, m + c2 * w == mm + c1, h + c3 * w == hh + c2
    ensures h * (w * w) + m * w + l + c3 * (w * w * w) == hh * (w * w) + mm * w + ll
{
    assert(h * (w * w) + m * w + l + c3 * (w * w * w) == hh * (w * w) + mm * w + ll) by(nonlinear_arith)
        requires l + c1 * w == ll, m + c2 * w == mm + c1, h + c3 * w == hh + c2;
}
proof fn lfit(v: int, c: int, s: int, w: int) requires v + c * w == s, 0 <= v < w, 0 <= s < w ensures c == 0, v == s
{ assert(c == 0) by(nonlinear_arith) requires v + c * w == s, 0 <= v < w, 0 <= s < w; assert(0 * w == 0); }
proof fn lbnd(w: int, h: int, m: int, l: int) requires 0 <= h < w, 0 <= m < w, 0 <= l < w, w > 0 ensures 0 <= h * (w * w) + m * w + l < w * w * w
{
    lemma_pair(w, m, l);
    let r = m * w + l;
    assert(0 <= h * (w * w) + r < w * (w * w)) by(nonlinear_arith) requires 0 <= h <= w - 1, 0 <= r < w * w;
    assert(w * (w * w) == w * w * w) by(nonlinear_arith);
}
// leading zeros of h * 2^n + l
proof fn llzg(w: int, h: int, l: int, n: nat, k: nat, r: int)
    requires pow2(n) == w, 0 <= h, 0 <= l < w, n > 0, k > 0, h > 0 ==> lzs(h, r, k as int), h == 0 ==> lzs(l, r - k, n as int)
    ensures lzs(h * w + l, r, (n + k) as int)
{
    lemma_pow2_pos(n);
    if h > 0 {
        let a = (k - 1 - r) as nat;
        lemma_pow2_adds(a, n); lemma_pow2_adds((k - r) as nat, n);
        let x = pow2(a) as int; let y = pow2((k - r) as nat) as int;
        assert(a + n == (n + k - 1 - r) as nat && (k - r) as nat + n == (n + k - r) as nat);
        assert(x * w <= h * w + l) by(nonlinear_arith) requires x <= h, 0 <= l, w > 0;
        assert(h * w + l < y * w) by(nonlinear_arith) requires h + 1 <= y, l < w, w > 0;
        assert(h * w + l > 0) by(nonlinear_arith) requires h > 0, l >= 0, w > 0;
    } else { assert(0 * w == 0) by(nonlinear_arith); }
}
// what a left shift must not lose
proof fn lsm(w: int, h: int, m: int, l: int, t: int)
    requires 0 <= h < w, 0 <= m < w, 0 <= l < w, w > 1, t >= 1, (h * (w * w) + m * w + l) * (t * w) < w * w * w
    ensures h == 0, (m * w + l) * t < w * w
{
    let v = h * (w * w) + m * w + l;
    lemma_pair(w, m, l);
    assert(v * t < w * w) by(nonlinear_arith) requires v * (t * w) < w * w * w, w > 1;
    assert(v <= v * t) by(nonlinear_arith) requires t >= 1, v >= h * (w * w), h >= 0, w > 1 ;
    assert(h == 0) by(nonlinear_arith) requires h * (w * w) <= v, v < w * w, h >= 0, w > 1;
    assert(0 * (w * w) == 0);
}
proof fn lsm2(w: int, m: int, l: int, t: int) requires 0 <= m < w, 0 <= l < w, w > 1, t >= 1, (m * w + l) * (t * w) < w * w ensures m == 0, l * t < w
{
    let v = m * w + l;
    assert(v * t < w) by(nonlinear_arith) requires v * (t * w) < w * w, w > 1;
    assert(v >= 0) by(nonlinear_arith) requires m >= 0, l >= 0, w > 1, v == m * w + l;
    assert(v <= v * t) by(nonlinear_arith) requires t >= 1, v >= 0;
    assert(m == 0) by(nonlinear_arith) requires m * w <= v, v < w, m >= 0, w > 1;
    assert(0 * w == 0);
}
"""


def u768(X):
    if not re.search(r"#\[derive\(Clone, Copy, Default, Eq, Ord, PartialOrd, PartialEq\)\]\s*struct u768 \{\s*hi: U256,\s*mi: U256,\s*lo: U256,\s*\}", open(os.path.join(X.repo, FMA)).read()):
        raise X.Lost("struct u768")
    bits = X.const(FMA, r"impl u768 \{\s*const BITS: u32 = (\d+);")
    X.const(FMA, r"const STICKY_BIT: Self = Self \{\s*hi: U256::ZERO,\s*mi: U256::ZERO,\s*lo: U256::ONE,\s*\};")
    out = [L768,
           "impl u768 {\npub const BITS: u32 = %s;\npub const STICKY_BIT: Self = Self { hi: U256::ZERO, mi: U256::ZERO, lo: U256::ONE };\n" % bits.group(1),
           "pub open spec fn v(&self) -> int { self.hi.v() * B4() + self.mi.v() * B2() + self.lo.v() }\n",
           "pub proof fn vb(&self) ensures 0 <= self.v() < pow2(768) { lp6(); self.hi.vb(); self.mi.vb(); self.lo.vb(); lbnd(B2(), self.hi.v(), self.mi.v(), self.lo.v()); }\n",
           "pub proof fn consts() ensures Self::STICKY_BIT.v() == 1 { U256::consts(); assert(0 * B4() == 0) by(nonlinear_arith); assert(0 * B2() == 0) by(nonlinear_arith); }\n",
           "// derived Default: all fields zero\npub fn default() -> (r: Self) ensures r.v() == 0 { proof { U256::consts(); assert(0 * B4() == 0) by(nonlinear_arith); assert(0 * B2() == 0) by(nonlinear_arith); } u768 { hi: U256::ZERO, mi: U256::ZERO, lo: U256::ZERO } }\n"]
    f = lambda n, **k: out.append("pub " + X.fn(FMA, n, header=r"^impl u768$", **k))
    f("new", spec="    ensures r.hi == *hi, r.mi == *mi, r.lo == *lo, r.v() == hi.v() * B4() + mi.v() * B2() + lo.v()")
    f("from_u256_shifted", sig="fn from_u256_shifted(u: &U256, shr: u32) -> (r: Self)",
      spec="""    requires shr < 768
    ensures shr <= 512 ==> r.v() == u.v() * pow2((512 - shr) as nat),
        shr > 512 ==> ({ let p = pow2((shr - 512) as nat) as int; let q = u.v() / p; r.v() == q + if u.v() % p != 0 && q % 2 == 0 { 1int } else { 0 } })""",
      subst=[(r"Self::BITS =>", "%s =>" % bits.group(1)), (r"\(u (>>|<<) (\w+|\([^()]*\))\)", lambda m: "(u.%s(%s))" % ("shr" if m.group(1) == ">>" else "shl", m.group(2))), (r"&&U256", "&U256"), (r"&&?u,", "u,"),
             (r"\bshr -= 512;", "let shr = shr - 512;")],
      hints=[(r"let mut lo = [^;]*;", "let ghost q0 = lo.v(); proof { lo.vb(); lo.hi.vb(); lo.lo.vb(); l_odd1(lo.lo.0); lmod2(lo.hi.v(), lo.lo.v()); ldm(u.v(), pow2(shr as nat) as int); lmul0(u.v() % (pow2(shr as nat) as int), pow2((256 - shr) as nat) as int); if u.v() % (pow2(shr as nat) as int) > 0 { lposm(u.v() % (pow2(shr as nat) as int), pow2((256 - shr) as nat) as int); } else { assert(0 * pow2((256 - shr) as nat) == 0) by(nonlinear_arith); } }")],
      at={0: """proof { lp(); lp6(); u.vb(); U256::consts(); assert(0 * B4() == 0) by(nonlinear_arith); assert(0 * B2() == 0) by(nonlinear_arith); assert(u.v() * 1 == u.v());
 if 1 <= shr <= 255 { ls(shr as nat, 256); let p = pow2(shr as nat) as int; let q = pow2((256 - shr) as nat) as int; assert(p * q == q * p) by(nonlinear_arith); lshl(u.v(), q, p, B2()); lemma_pow2_adds((256 - shr) as nat, 256); lm3(u.v(), q, B2()); lm3(u.v() / p, 1, B2()); ldist((u.v() / p) * B2(), (u.v() * q) % B2(), B2()); }
 if 257 <= shr <= 511 { let s = (shr - 256) as nat; ls(s, 256); let p = pow2(s) as int; let q = pow2((256 - s) as nat) as int; assert(p * q == q * p) by(nonlinear_arith); lshl(u.v(), q, p, B2()); }
 if 513 <= shr { let s = (shr - 512) as nat; ls(s, 256); let p = pow2(s) as int; let q = pow2((256 - s) as nat) as int; assert(p * q == q * p) by(nonlinear_arith); lshl(u.v(), q, p, B2()); }
 }"""})
    f("iadd", spec="    requires old(self).v() + rhs.v() < pow2(768)\n    ensures final(self).v() == old(self).v() + rhs.v()",
      at={"end": """proof { lp6(); self.vb(); old(self).vb(); rhs.vb(); let w = B2(); let c3 = b2i(carry); lemma_sel(c1, w); lemma_sel(c2, w); lemma_sel(carry, w);
 ladd3(w, self.lo.v(), self.mi.v(), self.hi.v(), b2i(c1), b2i(c2), c3, old(self).lo.v() + rhs.lo.v(), old(self).mi.v() + rhs.mi.v(), old(self).hi.v() + rhs.hi.v());
 ldist(old(self).mi.v(), rhs.mi.v(), w); ldist(old(self).hi.v(), rhs.hi.v(), w * w);
 lfit(self.v(), c3, old(self).v() + rhs.v(), pow2(768) as int); }"""},
      hints=[(r"self\.lo = vt\w+; carry = vt\w+;", "let ghost c1 = carry;"), (r"self\.mi = vt\w+; carry = vt\w+;", "let ghost c2 = carry;")])
    f("isub", spec="    requires old(self).v() >= rhs.v()\n    ensures final(self).v() == old(self).v() - rhs.v()",
      at={"end": """proof { lp6(); self.vb(); old(self).vb(); rhs.vb(); let w = B2(); let c3 = -b2i(borrow); lemma_sel(c1, w); lemma_sel(c2, w); lemma_sel(borrow, w);
 ladd3(w, self.lo.v(), self.mi.v(), self.hi.v(), -b2i(c1), -b2i(c2), c3, old(self).lo.v() - rhs.lo.v(), old(self).mi.v() - rhs.mi.v(), old(self).hi.v() - rhs.hi.v());
 ldist(old(self).mi.v(), rhs.mi.v(), w); ldist(old(self).hi.v(), rhs.hi.v(), w * w);
 lfit(self.v(), c3, old(self).v() - rhs.v(), pow2(768) as int); }"""},
      hints=[(r"self\.lo = vt\w+; borrow = vt\w+;", "let ghost c1 = borrow;"), (r"self\.mi = vt\w+; borrow = vt\w+;", "let ghost c2 = borrow;")])
    f("leading_zeros", spec="    ensures lzs(self.v(), r as int, 768)", subst=[(r"(\w+) as u32 \* (self\.\w+\.leading_zeros\(\))", r"bmul(\1, \2)")],
      at={0: """proof { lp(); lp6(); self.hi.vb(); self.mi.vb(); self.lo.vb(); let h = self.hi.v(); let m = self.mi.v(); let l = self.lo.v(); let r = m * B2() + l; lemma_pair(B2(), m, l);
 if h == 0 && m == 0 { assert forall|a: int| #[trigger] lzs(l, a, 256) implies lzs(self.v(), 512 + a, 768) by { llzg(B2(), 0, l, 256, 256, a + 256); llzg(B4(), 0, r, 512, 256, a + 512); } }
 else if h == 0 { assert forall|a: int| #[trigger] lzs(m, a, 256) implies lzs(self.v(), 256 + a, 768) by { llzg(B2(), m, l, 256, 256, a); llzg(B4(), 0, r, 512, 256, a + 256); } }
 else { assert forall|a: int| #[trigger] lzs(h, a, 256) implies lzs(self.v(), a, 768) by { llzg(B4(), h, r, 512, 256, a); } } }"""})
    out.append("}\n" + ud.order("u768", None))
    sh = X.fn(FMA, "shl_assign", header=r"^impl ShlAssign<u32> for u768$", sig="fn shl_assign(&mut self, rhs: u32)",
      spec="    ensures final(self).v() == old(self).v() * pow2(rhs as nat)",
      subst=[(r"&self\.lo << (\([^()]*\)|\w+)", r"(&self.lo).shl(\1)"), (r"let \((vt\w+), _\)", r"let (\1, vt_d)"), (r"rhs -= 256;", "let rhs = rhs - 256;"), (r"assert!\(([^,]*), [^;]*\);", r"assert!(\1);")],
      hints=[(r"self\.lo = vt\w+; carry = vt\w+;", "let ghost c1 = carry;"), (r"self\.mi = vt\w+; carry = vt\w+;", "let ghost c2 = carry; proof { self.mi.vb(); lcar(B2(), old(self).mi.v(), pow2(rhs as nat) as int, c1.v(), self.mi.v(), c2.v()); }"),
             (r"self\.hi = (vt\w+);(?= *\n?\s*\}\s*256 =>)", """proof { self.vb(); let w = B2(); let p = pow2(rhs as nat) as int; let o = *old(self);
 ladd3(w, self.lo.v(), self.mi.v(), self.hi.v(), c1.v(), c2.v(), vt_d.v(), o.lo.v() * p, o.mi.v() * p, o.hi.v() * p);
 lm3(o.mi.v(), p, w); lm3(o.hi.v(), p, w * w); l_dist3(o.hi.v() * (w * w), o.mi.v() * w, o.lo.v(), p); l_comm(o.hi.v(), w * w, p); l_comm(o.mi.v(), w, p);
 lfit(self.v(), vt_d.v(), o.v() * p, pow2(768) as int); }"""),
             (r"let \(t, mut carry\) = [^;]*;", "let ghost c1 = carry;"),
             (r"self\.mi = t;\s*self\.lo = U256::ZERO;", """proof { self.vb(); let w = B2(); let p = pow2(rhs as nat) as int; let o = *old(self);
 let g = self.hi.v(); t.vb(); self.hi.vb(); carry.vb();
 l_dist3(0, o.mi.v() * w, o.lo.v(), p); l_comm(o.mi.v(), w, p);
 ladd3(w, t.v(), self.hi.v(), 0, c1.v(), carry.v(), 0, o.lo.v() * p, o.mi.v() * p, -carry.v());
 lhc(w, t.v(), g, carry.v(), (o.mi.v() * w + o.lo.v()) * p, o.lo.v() * p, o.mi.v() * p, c1.v());
 ldist(g * w, t.v(), w); lm3(g, 1, w); lm3(o.v(), p, w); }""")],
      at={0: """proof { lp(); lp6(); let o = *self; o.vb(); o.hi.vb(); o.mi.vb(); o.lo.vb(); U256::consts(); let w = B2(); assert(0 * B4() == 0) by(nonlinear_arith); assert(0 * B2() == 0) by(nonlinear_arith); lemma_pow2_pos(rhs as nat); lmul0(o.v(), pow2(rhs as nat) as int); lw2();
 assert(w * w * w == w * (w * w)) by(nonlinear_arith);
 assert(o.v() * 1 == o.v());
 if 256 <= rhs { let t = (rhs - 256) as nat; lemma_pow2_adds(t, 256); lemma_pow2_pos(t); lsm(w, o.hi.v(), o.mi.v(), o.lo.v(), pow2(t) as int); ldist(o.mi.v() * w, o.lo.v(), w); lm3(o.mi.v(), 1, w); lm3(o.v(), pow2(t) as int, w); }
 if 512 <= rhs { let t = (rhs - 512) as nat; lemma_pow2_adds(t, 256); lemma_pow2_adds(t, 512); lemma_pow2_pos(t); lm3(o.mi.v() * w + o.lo.v(), pow2(t) as int, w); lsm2(w, o.mi.v(), o.lo.v(), pow2(t) as int); lmul0(o.lo.v(), pow2(t) as int); lmod0(o.lo.v() * pow2(t), w); lm3(o.lo.v(), pow2(t) as int, w * w); }
 }"""})
    out.append(r"""
proof fn lw2() ensures B2() > 1 { lp(); lb(); lw(); assert(B2() > 1) by(nonlinear_arith) requires B2() == B() * B(), B() > 1; }
proof fn l_odd1(x: u128) ensures x | 0 == x, x % 2 == 0 ==> x | 1 == x + 1, x % 2 == 1 ==> x | 1 == x
{ lbits(x); }
proof fn lcar(w: int, m: int, p: int, c: int, m2: int, c2: int) requires m2 + c2 * w == m * p + c, 0 <= m < w, c < p, m2 >= 0, w > 0, p > 0 ensures c2 < p
{ assert(c2 * w < p * w) by(nonlinear_arith) requires m2 + c2 * w == m * p + c, m <= w - 1, c < p, m2 >= 0, p > 0; assert(c2 < p) by(nonlinear_arith) requires c2 * w < p * w, w > 0; }
proof fn l_comm(a: int, b: int, c: int) ensures (a * b) * c == (a * c) * b { assert((a * b) * c == (a * c) * b) by(nonlinear_arith); }
proof fn l_dist3(a: int, b: int, c: int, p: int) ensures (a + b + c) * p == a * p + b * p + c * p { assert((a + b + c) * p == a * p + b * p + c * p) by(nonlinear_arith); }
// two words whose value stays below w * w
proof fn lhc(w: int, t: int, g: int, c2: int, s: int, lp: int, mp: int, c1: int)
    requires t + c1 * w == lp, g + c2 * w == mp + c1, s == mp * w + lp, 0 <= t < w, 0 <= g < w, 0 <= s < w * w, w > 1, c2 >= 0
    ensures c2 == 0, g * w + t == s
{
    assert(g * w + t + c2 * (w * w) == s) by(nonlinear_arith) requires t + c1 * w == lp, g + c2 * w == mp + c1, s == mp * w + lp;
    lemma_pair(w, g, t);
    lfit(g * w + t, c2, s, w * w);
}
""")
    out.append(ud.imp("impl ShlAssign<u32> for u768", None, sh, "rhs < 768 && self.v() * pow2(rhs as nat) < pow2(768)"))
    return out



def shared(X):
    """U256::shift_left and norm_signif"""
    out = []
    t = X.fn(ud.UG, "shift_left", header=r"^impl UInt<U128>|^impl U256", ret="r",
        spec="    requires shift < 256\n    ensures r.v() == (self.v() * pow2(shift as nat)) % B2()",
        subst=[(r"const \w+: u32 = [^;]*;", ""), (r"\bTIE_M1\b", "127"), (r"\bTIE_P1\b", "129"), (r"\bTIE\b", "128"), (r"\bMAX_SHIFT\b", "255"), (r"u128::BITS", "128")],
        hints=[(r"let hi = \(self\.hi\.0 << shift\) \| carry;", "proof { lor128(self.hi.0 << shift, carry); lshl2(w, h, l, p, hi as int, h / q, lo as int, carry as int); }")],
        at={0: """proof { lp(); lb(); lw(); self.vb(); let w = B(); let h = self.hi.v(); let l = self.lo.v(); self.hi.vb(); self.lo.vb(); assert(0 * B() == 0); lemma_pow2_pos(shift as nat);
 if shift == 0 { assert(self.v() * 1 == self.v()); lmod0(self.v(), B2()); }
 if 1 <= shift <= 127 { lshl128(self.lo.0, shift); lshr128(self.lo.0, (128 - shift) as u32); lshl128(self.hi.0, shift); }
 if 128 <= shift { let t = (shift - 128) as nat; lemma_pow2_adds(t, 128); lemma_pow2_pos(t); lshl3(w, h, l, pow2(t) as int, (l * pow2(t)) % w); assert(l * 1 == l); lmod0(l, w); if shift > 128 { lshl128(self.lo.0, (shift - 128) as u32); } } }
 let ghost w = B(); let ghost h = self.hi.v(); let ghost l = self.lo.v(); let ghost p = pow2(shift as nat) as int; let ghost q = pow2((128 - shift) as nat) as int;
 proof { if 1 <= shift <= 127 { ls(shift as nat, 128); lshl(l, p, q, B()); lshl(h, p, q, B()); assert(p * q == B()); } }"""})
    out.append("impl U256 {\npub " + t.replace("const fn", "fn") + "}\n")
    out.append("pub " + X.fn(LIB, "norm_signif", header=r"^$",
        spec="""    requires abs_bits.hi.0 < 0x7ffff * FR(), abs_bits.v() > 0
    ensures r.1 <= 236, r.0.v() == sig(abs_bits.hi.0 as int, abs_bits.lo.0 as int) * pow2(r.1 as nat), pow2(236) <= r.0.v() < pow2(237)""",
        hints=[(r"let shift = [^;]*;", """proof { lp2(); lp(); let z = signif.v();
 assert forall|m: nat| #[trigger] pow2(m) <= z < pow2(m + 1) && shift == 236 - m implies pow2(236) <= z * pow2(shift as nat) < pow2(237) by { lnorm(z, m, shift as nat, 0); }
 lmul0(z, pow2(shift as nat) as int); lmod0(z * pow2(shift as nat), B2()); }""")],
        at={0: """proof { lb(); let h = abs_bits.hi.0 as int; let l = abs_bits.lo.0 as int; if h == 0 { assert(0 * B() == 0); } lsig(h, l); lp2();
 assert forall|m: nat| #[trigger] pow2(m) <= sig(h, l) < pow2(m + 1) implies m <= 236 by { lmsbz(sig(h, l), m); } }"""}))
    return out


LEM = r"""
// X counts 2^-524756; the encoding h, l is the nearest one (ties to even)
pub open spec fn D() -> nat { 262378 }
pub open spec fn nearest(x: int, h: int, l: int) -> bool {
    if h == 0x7ffff * FR() && l == 0 { 2 * x >= (pow2(238) - 1) * pow2(524285 + D()) }
    else { h < 0x7ffff * FR() && near_m(x, sig(h, l), pow2(qe(h) + D()) as int, qe(h) as int) }
}
pub open spec fn near_m(x: int, m: int, u: int, e: int) -> bool {
    (2 * m - 1) * u <= 2 * x && 2 * x <= (2 * m + 1) * u && ((2 * m - 1) * u == 2 * x ==> m % 2 == 0) && (2 * x == (2 * m + 1) * u ==> m % 2 == 0)
    && (m == pow2(236) && e > 0 ==> (4 * m - 1) * u <= 4 * x)
}
// a and b compare alike with all multiples of c
pub open spec fn agree(a: int, b: int, c: int) -> bool { forall|k: int| (a < #[trigger] (k * c)) == (b < k * c) && (a > k * c) == (b > k * c) }
proof fn lag_in(a: int, b: int, c: int, k: int) requires c > 0, k * c < a < (k + 1) * c, k * c < b < (k + 1) * c ensures agree(a, b, c)
{ assert forall|j: int| (a < #[trigger] (j * c)) == (b < j * c) && (a > j * c) == (b > j * c) by { if j <= k { lmon(j, k, c); } else { lmon(k + 1, j, c); } } }
proof fn lag_scale(a: int, b: int, c: int, s: int) requires agree(a, b, c), s > 0 ensures agree(a * s, b * s, c * s)
{
    assert forall|j: int| (a * s < #[trigger] (j * (c * s))) == (b * s < j * (c * s)) && (a * s > j * (c * s)) == (b * s > j * (c * s)) by {
        let t = j * c; assert(j * (c * s) == t * s) by(nonlinear_arith) requires t == j * c; lcs(a, t, s); lcs(b, t, s); lcs(t, a, s); lcs(t, b, s); }
}
proof fn lcs(a: int, b: int, s: int) requires s > 0 ensures (a * s < b * s) == (a < b) { assert((a * s < b * s) == (a < b)) by(nonlinear_arith) requires s > 0; }
proof fn lag_coarse(a: int, b: int, c: int, m: int) requires agree(a, b, c) ensures agree(a, b, m * c)
{ assert forall|j: int| (a < #[trigger] (j * (m * c))) == (b < j * (m * c)) && (a > j * (m * c)) == (b > j * (m * c)) by { let k = j * m; assert(j * (m * c) == k * c) by(nonlinear_arith) requires k == j * m; } }
proof fn lag_add(a: int, b: int, c: int, t: int) requires agree(a, b, c) ensures agree(t * c + a, t * c + b, c), agree(t * c - a, t * c - b, c)
{
    assert forall|j: int| (t * c + a < #[trigger] (j * c)) == (t * c + b < j * c) && (t * c + a > j * c) == (t * c + b > j * c) by { let k = j - t; ldist(j, t, c); assert(a < k * c || a >= k * c); }
    assert forall|j: int| (t * c - a < #[trigger] (j * c)) == (t * c - b < j * c) && (t * c - a > j * c) == (t * c - b > j * c) by { let k = t - j; ldist(t, j, c); assert(a < k * c || a >= k * c); }
}
// (j cc <= E) == (j u <= 2 X)
proof fn lunit(j: int, cc: int, e: int, u: int, x: int) requires 2 * x * cc == e * u, cc > 0, u > 0
    ensures (j * cc <= e) == (j * u <= 2 * x), (j * cc >= e) == (j * u >= 2 * x)
{
    let a = j * cc; let b = j * u; let y = 2 * x;
    assert(a * u == b * cc) by(nonlinear_arith) requires a == j * cc, b == j * u;
    lcs(a, e, u); lcs(e, a, u); lcs(b, y, cc); lcs(y, b, cc);
}
// rounding of R + f / (2 half): E agrees with (R 2 half + f) F2 on the multiples of half F2
proof fn lrnd2(e: int, r: int, f: int, half: int, f2: int, up: bool, zs: int)
    requires half > 0, f2 > 0, zs == r * (2 * half) + f, 0 <= f < 2 * half, agree(e, zs * f2, half * f2), up == (f > half || (f == half && r % 2 == 1)), r >= 0
    ensures ({ let cc = half * f2; let m = r + if up { 1int } else { 0 }; (2 * m - 1) * cc <= e <= (2 * m + 1) * cc && (e == (2 * m - 1) * cc ==> m % 2 == 0) && (e == (2 * m + 1) * cc ==> m % 2 == 0)
        && e >= (2 * r) * cc && (up ==> e >= (2 * r + 1) * cc) })
{
    let cc = half * f2; let z = zs * f2; let g = f * f2;
    assert(z == (2 * r) * cc + g) by(nonlinear_arith) requires zs == r * (2 * half) + f, cc == half * f2, z == zs * f2, g == f * f2;
    lcs(f, half, f2); lcs(half, f, f2); lcs(f, 2 * half, f2); lmul0(f, f2);
    assert((2 * half) * f2 == 2 * cc) by(nonlinear_arith) requires cc == half * f2;
    assert(cc > 0) by(nonlinear_arith) requires cc == half * f2, half > 0, f2 > 0;
    let k0 = 2 * r; let k1 = 2 * r + 1; let k2 = 2 * r + 2; let k3 = 2 * r + 3; let k4 = 2 * r - 1;
    assert(k1 * cc == k0 * cc + cc && k2 * cc == k0 * cc + 2 * cc && k3 * cc == k0 * cc + 3 * cc && k4 * cc == k0 * cc - cc) by(nonlinear_arith) requires k1 == k0 + 1, k2 == k0 + 2, k3 == k0 + 3, k4 == k0 - 1;
    assert((e < k0 * cc) == (z < k0 * cc)); assert((e < k1 * cc) == (z < k1 * cc) && (e > k1 * cc) == (z > k1 * cc)); assert((e < k2 * cc) == (z < k2 * cc));
    if up { let m = r + 1; assert(2 * m - 1 == k1); assert(2 * m + 1 == k3); } else { assert(2 * r - 1 == k4); assert(2 * r + 1 == k1); }
}
// the encoding of R (+ 1) with exponent field m1 + hidden bit
proof fn lasm(r: int, m1: int, up: bool, hh: int, ll: int)
    requires 0 <= r < pow2(237), 0 <= m1 < 0x7fffe, r >= pow2(236) || m1 == 0, 0 <= ll < B(), hh * B() + ll == r + m1 * pow2(236) + if up { 1int } else { 0 }
    ensures ({ let m = r + if up { 1int } else { 0 };
        if m < pow2(237) { 0 <= hh < 0x7ffff * FR() && sig(hh, ll) == m && qe(hh) == m1 }
        else if m1 == 0x7fffd { hh == 0x7ffff * FR() && ll == 0 }
        else { 0 <= hh < 0x7ffff * FR() && sig(hh, ll) == pow2(236) && qe(hh) == m1 + 1 } })
{
    lp2(); lb();
    let m = r + if up { 1int } else { 0 };
    let rh = m / B(); let rl = m % B(); ldm(m, B());
    lm3(m1, FR(), B());
    if m < pow2(237) {
        assert(rh >= 0) by { ldiv0(m, B()); }
        ldist(rh, m1 * FR(), B());
        lemma_inj(B(), hh, ll, rh + m1 * FR(), rl);
        lenc(rh, rl, m, m1, hh);
    } else {
        assert(m == pow2(237));
        ldist(2 * FR(), m1 * FR(), B());
        ldist(m1, 2, FR());
        lm3(2, FR(), B());
        lemma_inj(B(), hh, ll, (m1 + 2) * FR(), 0);
        if m1 != 0x7fffd {
            lmod(hh, FR(), m1 + 2, 0);
            assert((m1 + 2) * FR() >= FR() && (m1 + 2) * FR() < 0x7ffff * FR()) by(nonlinear_arith) requires 0 <= m1 < 0x7fffd, FR() > 0;
        }
    }
}
// everything behind the alignment
proof fn lround(x: int, e: int, zs: int, r: int, f: int, half: int, f2: int, m1: int, up: bool, hh: int, ll: int)
    requires half > 0, f2 > 0, zs == r * (2 * half) + f, 0 <= f < 2 * half, agree(e, zs * f2, half * f2), up == (f > half || (f == half && r % 2 == 1)),
        2 * x * (half * f2) == e * pow2((m1 + D()) as nat), 0 <= r < pow2(237), 0 <= m1 < 0x7fffe, r >= pow2(236) || m1 == 0,
        0 <= ll < B(), hh * B() + ll == r + m1 * pow2(236) + if up { 1int } else { 0 }
    ensures nearest(x, hh, ll), 0 <= hh <= 0x7ffff * FR()
{
    lp2(); lrnd2(e, r, f, half, f2, up, zs); lasm(r, m1, up, hh, ll);
    let cc = half * f2; let u = pow2((m1 + D()) as nat) as int; lemma_pow2_pos((m1 + D()) as nat);
    assert(cc > 0) by(nonlinear_arith) requires cc == half * f2, half > 0, f2 > 0;
    let m = r + if up { 1int } else { 0 };
    lunit(2 * m - 1, cc, e, u, x); lunit(2 * m + 1, cc, e, u, x); lunit(2 * r, cc, e, u, x); lunit(2 * r + 1, cc, e, u, x);
    if m < pow2(237) {
        if m == pow2(236) && m1 > 0 { assert(!up); assert((4 * m - 1) * u == (4 * m) * u - u) by(nonlinear_arith); assert((4 * m) * u == 2 * ((2 * r) * u)) by(nonlinear_arith) requires m == r; }
    } else {
        assert(2 * r + 1 == pow2(238) - 1) by { lemma_pow2_adds(1, 237); lp(); }
        if m1 != 0x7fffd {
            lemma_pow2_adds(1, (m1 + D()) as nat); lp(); let u2 = pow2((m1 + 1 + D()) as nat) as int; assert(u2 == 2 * u);
            let n = pow2(236) as int;
            assert((4 * n - 1) * u2 == 2 * ((4 * n - 1) * u)) by(nonlinear_arith) requires u2 == 2 * u;
            assert((2 * n - 1) * u2 == (4 * n - 2) * u) by(nonlinear_arith) requires u2 == 2 * u;
            assert((2 * n + 1) * u2 == (4 * n + 2) * u) by(nonlinear_arith) requires u2 == 2 * u;
            assert((4 * n - 2) * u < (4 * n - 1) * u && (2 * m + 1) * u < (4 * n + 2) * u) by(nonlinear_arith) requires u > 0, m == 2 * n;
        }
    }
}
"""



BASE = r"""
pub open spec fn sg1(s: int) -> int { if s == 0 { 1 } else { -1 } }
pub open spec fn sgx(a: U256, b: U256) -> int { if sgn(a) == sgn(b) { 0 } else { 1 } }
proof fn ldb(i: nat) ensures pow2(i + 1) == 2 * pow2(i), pow2(i) > 0, pow2(i + 1) > 0 { lp(); lemma_pow2_adds(1, i); lemma_pow2_pos(i); lemma_pow2_pos(i + 1); let a = pow2(1) as int; let b = pow2(i) as int; assert(a * b == 2 * b) by(nonlinear_arith) requires a == 2; }
proof fn lpw(a: int, i: nat, j: nat) ensures (a * pow2(i)) * pow2(j) == a * pow2(i + j), pow2(i) > 0, pow2(j) > 0, pow2(i + j) > 0
{ lemma_pow2_adds(i, j); l3(a, pow2(i) as int, pow2(j) as int); lemma_pow2_pos(i); lemma_pow2_pos(j); lemma_pow2_pos(i + j); }
proof fn lpm(a: int, i: nat, b: int, j: nat) ensures (a * pow2(i)) * (b * pow2(j)) == (a * b) * pow2(i + j)
{ lemma_pow2_adds(i, j); let u = pow2(i) as int; let v = pow2(j) as int; assert((a * u) * (b * v) == (a * b) * (u * v)) by(nonlinear_arith); }
proof fn lple(a: nat, b: nat) requires a <= b ensures pow2(a) <= pow2(b), pow2(a) > 0 { lemma_pow2_pos(a); if a < b { lemma_pow2_strictly_increases(a, b); } }
proof fn lpb(v: int, a: nat, b: nat) ensures v < pow2(a) ==> v * pow2(b) < pow2(a + b), v >= pow2(a) ==> v * pow2(b) >= pow2(a + b), v > 0 ==> v * pow2(b) > 0
{ lemma_pow2_adds(a, b); lemma_pow2_pos(b); lcs(v, pow2(a) as int, pow2(b) as int); lcs(0, v, pow2(b) as int); assert(0 * pow2(b) == 0); }
proof fn lcmp2(w: int, h: int, l: int, s: int) requires 0 <= l < w ensures (h * w + l > s * w) == (h > s || (h == s && l > 0)), (h * w + l == s * w) == (h == s && l == 0)
{
    if h > s { assert(h * w >= s * w + w) by(nonlinear_arith) requires h >= s + 1, w > 0; }
    else if h < s { assert(h * w + w <= s * w) by(nonlinear_arith) requires h + 1 <= s, w > 0; }
}
proof fn lxor(x: u128, y: u128) ensures (x ^ y) & 0x80000000000000000000000000000000 == (if x / 0x80000000000000000000000000000000 == y / 0x80000000000000000000000000000000 { 0u128 } else { 0x80000000000000000000000000000000u128 })
{ assert((x ^ y) & 0x80000000000000000000000000000000 == (if x / 0x80000000000000000000000000000000 == y / 0x80000000000000000000000000000000 { 0u128 } else { 0x80000000000000000000000000000000u128 })) by(bit_vector); }
proof fn land(s: u128, t: u128) requires s == 0 || s == 0x80000000000000000000000000000000, t == 0 || t == 0x80000000000000000000000000000000
    ensures s & t == if s == t { s } else { 0 }, 0u128 | s == s, s | s == s
{ assert(s & t == (if s == t { s } else { 0 }) && (0u128 | s == s) && (s | s == s)) by(bit_vector) requires s == 0 || s == 0x80000000000000000000000000000000, t == 0 || t == 0x80000000000000000000000000000000; }
proof fn lor2(s: u128, m: u128) requires s == 0 || s == 0x80000000000000000000000000000000, m < 0x80000000000000000000000000000000 ensures m | s == s + m, s | m == s + m
{ ljoin(s, m); assert(m | s == s | m) by(bit_vector); }
"""

XTRA0 = r"""
proof fn lnzv(a: U256) requires a.hi.0 > 0 || a.lo.0 > 0 ensures a.v() > 0 { lb(); if a.hi.0 > 0 { assert(a.hi.0 * B() > 0) by(nonlinear_arith) requires a.hi.0 > 0, B() > 0; } else { assert(0 * B() == 0); } }
proof fn lrhi(rr: int, zs: int, ff: int, rh: int, rl: int) requires zs == rr * B4() + ff, 0 <= ff < B4(), zs < pow2(749), 0 <= rl < B(), rr == rh * B() + rl, rh >= 0 ensures rr < pow2(237), rh < 2 * FR()
{ lp(); lp2(); lb(); lemma_pow2_adds(237, 512); assert(rr < pow2(237)) by(nonlinear_arith) requires rr * B4() <= zs, zs < pow2(237) * B4(), B4() > 0;
  assert(rh < 2 * FR()) by(nonlinear_arith) requires rh * B() + rl < 2 * (FR() * B()), rl >= 0, B() > 0; }
proof fn lmodr(rh: int, rl: int, m1: int) requires 0 <= rl < B(), 0 <= rh < 2 * FR(), 0 <= m1 < 0x7fffe ensures (rh * B() + rl) % 2 == rl % 2, rh + m1 * FR() < 0x7ffff * FR(), 0 <= m1 * FR()
{ lmod2(rh, rl); assert(rh + m1 * FR() < 0x7ffff * FR() && 0 <= m1 * FR()) by(nonlinear_arith) requires rh < 2 * FR(), 0 <= m1 <= 0x7fffd, FR() > 0; }
proof fn lenb(rr: int, m1: int) requires rr < pow2(237), 0 <= m1 < 0x7fffe ensures rr + m1 * pow2(236) + 1 < B2()
{ lp(); lp2(); lw(); lb(); let e = pow2(236) as int; assert(rr + m1 * e + 1 <= 0x7ffff * e) by(nonlinear_arith) requires rr < 2 * e, m1 <= 0x7fffd, e > 0;
  lemma_pow2_adds(236, 20); assert(pow2(20) > 0x7ffff) by { lemma2_to64(); } assert(0x7ffff * e < pow2(20) * e) by(nonlinear_arith) requires pow2(20) > 0x7ffff, e > 0; }
"""

FLEM = r"""
// the exact value x * y + a
pub open spec fn xval(x: U256, y: U256, a: U256) -> int { sg1(sgx(x, y)) * (val(x) * val(y)) + sg1(sgn(a)) * (val(a) * pow2(D())) }
pub open spec fn absi(x: int) -> int { if x < 0 { -x } else { x } }
// alignment: product p * 2^(ep + 262140), addend sa * 2^(qa + D), d = qa - ep; unit of z is 2^(H + 261866)
pub open spec fn fF(d: int) -> nat { (if d < -238 { -238 - d } else if d >= 240 { d } else { 0 }) as nat }
pub open spec fn fpe(d: int, p: int) -> int { if d >= 240 { p * pow2(274) } else { p * pow2(fF(d)) } }
pub open spec fn fae(d: int, sa: int) -> int { if d >= 240 { sa * pow2((512 + d) as nat) } else if d < -238 { sa } else { sa * pow2((238 + d) as nat) } }
pub open spec fn fH(d: int, qa: int) -> int { if d >= 240 { qa } else { qa - d + 274 } }
pub open spec fn fg(d: int) -> nat { if d <= -473 { 2 } else if d <= -239 { 1 } else { 510 } }
pub open spec fn fcc(d: int) -> int { pow2(fg(d)) as int * pow2(fF(d)) as int }
pub open spec fn fex(d: int) -> bool { -238 <= d <= 239 }
pub open spec fn fza(d: int, sa: int) -> int {
    if d <= -473 { 1 } else if d <= -239 { let u = pow2((-238 - d) as nat) as int; sa / u + if sa % u != 0 && (sa / u) % 2 == 0 { 1int } else { 0 } }
    else if d <= 239 { sa * pow2((238 + d) as nat) } else { sa * pow2(512) }
}
pub open spec fn fswap(d: int, p: int, sa: int) -> bool { d >= 240 || (d >= 0 && p < fza(d, sa)) }
pub open spec fn comb(same: bool, swap: bool, p: int, a: int) -> int { if same { p + a } else if swap { a - p } else { p - a } }

// v < 2^a  ==>  v * 2^b < 2^(a + b)
proof fn lscale(sx: int, sy: int, qx: nat, qy: nat, nx: nat, ny: nat, p: int, sa: int, qa: nat, d: int, P: int, A: int)
    requires p == (sx * pow2(nx)) * ((sy * pow2(ny)) * 4), d == qa - (qx + qy - nx - ny - 262142), P == (sx * pow2(qx)) * (sy * pow2(qy)), A == (sa * pow2(qa)) * pow2(D())
    ensures fH(d, qa as int) >= 0, P * pow2(fF(d)) == fpe(d, p) * pow2((fH(d, qa as int) + 261866) as nat), A * pow2(fF(d)) == fae(d, sa) * pow2((fH(d, qa as int) + 261866) as nat)
{
    let H = fH(d, qa as int); let F = fF(d); let T = (H + 261866) as nat;
    lpm(sx, qx, sy, qy); let Q = sx * sy; lpw(Q, qx + qy, F);
    lpm(sx, nx, sy, ny); lp(); lemma_pow2_adds(1, 1); assert(pow2(2) == 4);
    l3(sx * pow2(nx), sy * pow2(ny), 4); lpw(Q, nx + ny, 2);
    assert(p == Q * pow2(nx + ny + 2));
    let k = if d >= 240 { 274 } else { F };
    lpw(Q, nx + ny + 2, k); lpw(Q, nx + ny + 2 + k, T);
    assert(qx + qy + F == nx + ny + 2 + k + T);
    lpw(sa, qa, D()); lpw(sa, qa + D(), F);
    let j: nat = if d >= 240 { (512 + d) as nat } else if d < -238 { 0 } else { (238 + d) as nat };
    lpw(sa, j, T); if d < -238 { assert(sa * 1 == sa); }
    assert(qa + D() + F == j + T);
}
// the sticky addend / product stands for the exact one
proof fn lsticky(sa: int, d: int) requires 0 < sa < pow2(237), d <= -239
    ensures agree(fae(d, sa), fza(d, sa) * pow2(fF(d)), fcc(d)), 0 < fza(d, sa) < pow2(237)
{
    lp(); lemma_pow2_adds(1, 1); let u = pow2(fF(d)) as int; lemma_pow2_pos(fF(d)); let g = pow2(fg(d)) as int; let c = g * u; lp2(); ldb(1);
    assert(c > 0) by(nonlinear_arith) requires c == g * u, g > 0, u > 0;
    let za = fza(d, sa);
    if d <= -473 {
        lple(235, fF(d)); lemma_pow2_adds(2, 235); assert(c >= pow2(237)) by(nonlinear_arith) requires c == 4 * u, u >= pow2(235), pow2(237) == 4 * pow2(235);
        assert(u * 1 == u && 1 * u == u && 0 * c == 0 && 1 * c == c);
        assert(u < c) by(nonlinear_arith) requires c == 4 * u, u > 0;
        lag_in(sa, za * u, c, 0);
        lple(1, 237);
    } else {
        let q = sa / u; let r = sa % u; ldm(sa, u); ldiv0(sa, u);
        lple(1, fF(d));
        assert(q <= sa / 2) by(nonlinear_arith) requires sa == q * u + r, u >= 2, r >= 0, q >= 0;
        ldb(236);
        if r == 0 { assert(sa == za * u); if q == 0 { assert(0 * u == 0); } assert(za > 0); }
        else {
            let k = q / 2;
            if q % 2 == 0 { assert(za == 2 * k + 1 && q == 2 * k); } else { assert(za == 2 * k + 1 && q == 2 * k + 1); }
            assert((k + 1) * c == k * c + c && k * c == (2 * k) * u && za * u == k * c + u) by(nonlinear_arith) requires c == 2 * u, za == 2 * k + 1;
            assert(k * c < sa < (k + 1) * c) by(nonlinear_arith) requires c == 2 * u, sa == q * u + r, 0 < r < u, q == 2 * k || q == 2 * k + 1, u > 0;
            lag_in(sa, za * u, c, k);
        }
    }
}
proof fn lbig(p: int, d: int) requires 0 < p < pow2(476), d >= 240 ensures agree(fpe(d, p), p * pow2(fF(d)), fcc(d))
{
    let F = fF(d); lemma_pow2_pos(F); lpb(p, 476, 274); lpb(p, 476, F); lemma_pow2_adds(510, F); lpb(p, 1, 274);
    lple(750, 510 + F); lple(476 + F, 510 + F); let c = pow2(510) as int * pow2(F) as int;
    assert(0 * c == 0 && 1 * c == c);
    lag_in(fpe(d, p), p * pow2(F), c, 0);
}
// values around the alignment; same: equal signs
proof fn lcase(d: int, p: int, p4: int, sa: int, qa: int, same: bool)
    requires pow2(474) <= p < pow2(476), p == p4 * 4, 0 < sa < pow2(237), qa > 0 ==> sa >= pow2(236)
    ensures ({ let za = fza(d, sa); let sw = fswap(d, p, sa); let z = comb(same, sw, p, za); let S = comb(same, sw, fpe(d, p), fae(d, sa)); let F2 = pow2(fF(d)) as int;
        0 < za < pow2(749) && p + za < pow2(749) && 0 <= z && S >= 0 && (z == 0) == (S == 0) && F2 > 0 && (sw ==> za >= p) && (!sw ==> p >= za)
        && (fex(d) ==> S == z && F2 == 1) && (!fex(d) ==> agree(S, z * F2, pow2(fg(d)) * F2) && z > 0 && (d < 0 ==> z >= pow2(473)) && (d >= 240 && qa > 0 ==> z >= pow2(747))) })
{
    lp(); lp2(); lemma_pow2_adds(1, 1); let za = fza(d, sa); let sw = fswap(d, p, sa); let z = comb(same, sw, p, za); let pe = fpe(d, p); let ae = fae(d, sa); let S = comb(same, sw, pe, ae);
    let F = fF(d); let F2 = pow2(F) as int; lemma_pow2_pos(F); let c = fcc(d);
    ldb(473); ldb(474); ldb(475); ldb(747); ldb(748); lemma_pow2_pos(473); lemma_pow2_pos(747); lple(476, 747); lple(237, 473);
    if fex(d) {
        assert(p * 1 == p); lpb(sa, 237, (238 + d) as nat); lple((475 + d) as nat, 714); lple(714, 748); if d < 0 { lple((475 + d) as nat, 474); }
    } else if d < 0 {
        lsticky(sa, d);
        let t = if d <= -473 { p4 } else { 2 * p4 };
        assert(pe == t * c) by(nonlinear_arith) requires pe == p * F2, p == p4 * 4, c == (if d <= -473 { 4int } else { 2 }) * F2, t == if d <= -473 { p4 } else { 2 * p4 };
        lag_add(ae, za * F2, c, t);
        ldist(p, za, F2);
        assert(pe == p * F2);
        assert(agree(S, z * F2, c)); assert(0 * F2 == 0); lcs(0, z, F2);
        assert(z > 0); assert(0 * c == 0); assert((S > 0 * c) == (z * F2 > 0 * c));
    } else {
        lbig(p, d);
        lpb(sa, 237, 512); lpb(sa, 236, 512); lemma_pow2_adds(2, 510); lpb(sa, 0, 510); lpw(sa * 4, 510, F); lpw(sa * 4, 510, 0); lemma_pow2_adds(510, F);
        assert(sa * pow2(512) == (sa * 4) * pow2(510)) by(nonlinear_arith) requires pow2(512) == 4 * pow2(510);
        lpw(sa, 512, F);
        let t = sa * 4; lm3(t, pow2(510) as int, F2);
        assert(ae == t * c);
        lag_add(pe, p * F2, c, t);
        ldist(za, p, F2); ldist(p, za, F2);
        assert(agree(S, z * F2, c)); assert(0 * F2 == 0); 
        ldb(235); ldb(511); lpb(1, 0, 512); assert(sa * pow2(512) >= pow2(512)) by(nonlinear_arith) requires sa >= 1, pow2(512) > 0; lemma_pow2_adds(36, 476); lple(1, 36); ldb(511);
        assert(pow2(512) >= 2 * pow2(476)) by(nonlinear_arith) requires pow2(512) == pow2(36) * pow2(476), pow2(36) >= 2, pow2(476) > 0;
        if qa > 0 { ldb(236); ldb(747); assert(pow2(748) == 2 * pow2(747)); }
        lcs(0, z, F2);
        assert(z > 0); assert(0 * c == 0); assert((S > 0 * c) == (z * F2 > 0 * c));
        ldb(476); lpb(sa + 1, 237, 512); assert((sa + 1) * pow2(512) <= pow2(237) * pow2(512)) by(nonlinear_arith) requires sa + 1 <= pow2(237), pow2(512) > 0; lemma_pow2_adds(237, 512); ldist(sa, 1, pow2(512) as int);
    }
}
// sign and magnitude of the exact value
proof fn lsign(d: int, p: int, sa: int, sp: int, s: int, P: int, A: int, T: nat)
    requires sp == 0 || sp == 1, s == 0 || s == 1, P * pow2(fF(d)) == fpe(d, p) * pow2(T), A * pow2(fF(d)) == fae(d, sa) * pow2(T), comb(sp == s, fswap(d, p, sa), fpe(d, p), fae(d, sa)) >= 0
    ensures ({ let x = sg1(sp) * P + sg1(s) * A; let S = comb(sp == s, fswap(d, p, sa), fpe(d, p), fae(d, sa)); let sz = if sp == s || !fswap(d, p, sa) { sp } else { s };
        absi(x) * pow2(fF(d)) == S * pow2(T) && (x == 0) == (S == 0) && (x != 0 ==> (x < 0) == (sz == 1)) })
{
    let f = pow2(fF(d)) as int; let t = pow2(T) as int; lemma_pow2_pos(fF(d)); lemma_pow2_pos(T);
    let S = comb(sp == s, fswap(d, p, sa), fpe(d, p), fae(d, sa)); let sz = if sp == s || !fswap(d, p, sa) { sp } else { s }; let x = sg1(sp) * P + sg1(s) * A;
    assert(1 * P == P && (-1) * P == -P && 1 * A == A && (-1) * A == -A);
    ldist(P, A, f); ldist(A, P, f); ldist(fpe(d, p), fae(d, sa), t); ldist(fae(d, sa), fpe(d, p), t);
    let y = if sz == 0 { x } else { -x };
    assert(y * f == S * t) by { assert((-P - A) * f == -((P + A) * f)) by(nonlinear_arith); assert((-(P + A)) * f == -((P + A) * f)) by(nonlinear_arith); }
    lmul0(S, t); if S > 0 { lposm(S, t); } else { assert(0 * t == 0); }
    assert(0 * f == 0); lcs(0, y, f); lcs(y, 0, f);
}
// shifting and rounding
proof fn lfin(x: int, S: int, z: int, d: int, qa: int, nlz: int, shl: nat, m1: nat, zs: int, r: int, f: int, up: bool, hh: int, ll: int)
    requires lzs(z, nlz, 768), 0 < z < pow2(749), x * pow2(fF(d)) == S * pow2((fH(d, qa) + 261866) as nat), fH(d, qa) >= 0, m1 + shl == fH(d, qa), 19 <= nlz, shl <= nlz - 19, m1 == 0 || shl == nlz - 19, m1 < 0x7fffe,
        fex(d) ==> S == z && pow2(fF(d)) == 1, !fex(d) ==> agree(S, z * pow2(fF(d)), fcc(d)), !fex(d) && d < 0 ==> z >= pow2(473), d >= 240 && qa > 0 ==> z >= pow2(747), qa >= 0,
        zs == z * pow2(shl), zs == r * pow2(512) + f, 0 <= f < pow2(512), up == (f > pow2(511) || (f == pow2(511) && r % 2 == 1)), 0 <= ll < B(), hh * B() + ll == r + m1 * pow2(236) + if up { 1int } else { 0 }
    ensures nearest(x, hh, ll), 0 <= hh <= 0x7ffff * FR(), r < pow2(237)
{
    let F = fF(d); let f2 = pow2(F) as int; lemma_pow2_pos(F); let half = pow2(511) as int; lemma_pow2_pos(511); ldb(511); lp();
    let e = S * pow2(shl); lemma_pow2_pos(shl);
    let n = (nlz - 19) as nat;
    // size
    lpb(z, (768 - nlz) as nat, shl); lpb(z, (767 - nlz) as nat, shl); lple((768 - nlz + shl) as nat, 749); lemma_pow2_adds(237, 512); lemma_pow2_adds(236, 512);
    assert(r < pow2(237)) by(nonlinear_arith) requires r * pow2(512) <= zs, zs < pow2(237) * pow2(512), pow2(512) > 0;
    assert(r >= 0) by(nonlinear_arith) requires r * pow2(512) + f == zs, f < pow2(512), zs >= 0, pow2(512) > 0;
    if m1 > 0 { assert(r >= pow2(236)) by(nonlinear_arith) requires r * pow2(512) + f >= pow2(236) * pow2(512), f < pow2(512), pow2(512) > 0; }
    // agreement
    if fex(d) { assert(zs * 1 == zs); }
    else {
        let g = fg(d);
        lag_scale(S, z * f2, pow2(g) * f2, pow2(shl) as int);
        if d < 0 { if nlz > 294 { lple((768 - nlz) as nat, 473); } assert(g + shl <= 511); }
        else { if qa > 0 { if nlz > 20 { lple((768 - nlz) as nat, 747); } } assert(g + shl <= 511); }
        let m = (511 - g - shl) as nat; lemma_pow2_adds(m, g + shl); lemma_pow2_adds(g, shl);
        let a = pow2(g) as int; let b = pow2(shl) as int; let cc = (a * f2) * b;
        lag_coarse(e, (z * f2) * b, cc, pow2(m) as int);
        assert((z * f2) * b == zs * f2) by(nonlinear_arith) requires zs == z * b;
        assert(pow2(m) * cc == half * f2) by(nonlinear_arith) requires cc == (a * f2) * b, half == pow2(m) * (a * b);
    }
    // scale
    let T = (fH(d, qa) + 261866) as nat;
    lpw(S, T, 512); lpw(S, shl, (m1 + D()) as nat);
    assert(2 * x * (half * f2) == (x * f2) * pow2(512)) by(nonlinear_arith) requires pow2(512) == 2 * half;
    assert(T + 512 == shl + (m1 + D()));
    lround(x, e, zs, r, f, half, f2, m1 as int, up, hh, ll);
}
proof fn lovf(x: int, S: int, z: int, d: int, qa: int, nlz: int)
    requires lzs(z, nlz, 768), 0 < z < pow2(749), x * pow2(fF(d)) == S * pow2((fH(d, qa) + 261866) as nat), 19 <= nlz, fH(d, qa) - (nlz - 19) + 1 >= 0x7ffff, qa >= 0,
        fex(d) ==> S == z && pow2(fF(d)) == 1, !fex(d) ==> agree(S, z * pow2(fF(d)), fcc(d)), !fex(d) && d < 0 ==> z >= pow2(473), d >= 240 && qa > 0 ==> z >= pow2(747)
    ensures 2 * x >= (pow2(238) - 1) * pow2(524285 + D())
{
    let F = fF(d); let f2 = pow2(F) as int; lemma_pow2_pos(F); let k = (767 - nlz) as nat; let T = (fH(d, qa) + 261866) as nat; lemma_pow2_pos(k); lemma_pow2_pos(T);
    assert(S >= pow2(k) * f2) by {
        lcs(z, pow2(k) as int, f2);
        if fex(d) { assert(z * 1 == z && pow2(k) * 1 == pow2(k)); }
        else {
            let g = fg(d);
            if d < 0 { if nlz > 294 { lple((768 - nlz) as nat, 473); } } else { if nlz > 20 { lple((768 - nlz) as nat, 747); } }
            let m = (k - g) as nat; lemma_pow2_adds(m, g);
            let c = pow2(g) * f2; l3(pow2(m) as int, pow2(g) as int, f2);
            assert(!(z * f2 < pow2(m) * c)); assert(!(S < pow2(m) * c));
        }
    }
    lemma_pow2_adds(k, T);
    let a = pow2(k) as int; let t = pow2(T) as int;
    assert(x * f2 >= (a * t) * f2) by(nonlinear_arith) requires x * f2 == S * t, S >= a * f2, t > 0;
    lcs(x, a * t, f2);
    ldb((k + T) as nat); lp(); lemma_pow2_adds(238, 524285 + D());
    lple(238 + 524285 + D(), 1 + k + T);
    let u = pow2(524285 + D()) as int; lemma_pow2_pos(524285 + D()); ldist(pow2(238) as int, 1, u);
}
proof fn lnz(z: int, nlz: int) requires lzs(z, nlz, 768), 0 < z < pow2(749) ensures 19 <= nlz < 768 { if nlz < 19 { lple(749, (767 - nlz) as nat); } }
// round bits against the fraction of 512 bits
proof fn lbitsr(m: int, k: int, l: int, a: int, c: int)
    requires 0 <= m < B(), 0 <= k < B(), 0 <= l < B2(), a == m / pow2(125) as int, c == (m % pow2(125) as int) * pow2(3)
    ensures ({ let f = (m * B() + k) * B2() + l; let rest = c != 0 || k != 0 || l != 0; 0 <= a < 8 && 0 <= f < pow2(512) && (f > pow2(511)) == (a > 4 || (a == 4 && rest)) && (f == pow2(511)) == (a == 4 && !rest) })
{
    lp(); lb(); lw(); let q = pow2(125) as int; lemma_pow2_pos(125); ldm(m, q); ldb(125); ldb(126); ldb(127); lemma_pow2_adds(127, 128); lemma_pow2_adds(255, 256); ldb(1); ldb(2); lemma_pow2_pos(3);
    assert(pow2(3) == 8 && pow2(2) == 4);
    llt(m, 8, q);
    let r = m % q; if r > 0 { lposm(r, 8); } else { assert(0 * 8 == 0); }
    lemma_pair(B(), m, k);
    let w = m * B() + k;
    assert(0 <= w * B2() + l < B2() * B2()) by(nonlinear_arith) requires 0 <= w <= B2() - 1, 0 <= l < B2();
    let S = 4 * q; assert(pow2(127) == S); assert(pow2(511) == (S * B()) * B2());
    let v = S * B();
    lcmp2(B(), m, k, S); let f = w * B2() + l; lcmp2(B2(), w, l, v); lcmp2(q, a, r, 4);
}
// comparison with a multiple of the word base
proof fn lor3(a: u32, b: u32) requires a < 8, b <= 1 ensures (a | b) > 4 <==> a > 4 || (a == 4 && b == 1), (a | b) == 4 <==> a == 4 && b == 0
{ assert(((a | b) > 4) == (a > 4 || (a == 4 && b == 1)) && ((a | b) == 4) == (a == 4 && b == 0)) by(bit_vector) requires a < 8, b <= 1; }
"""

SPEC = """    ensures
        nan(x.bits) || nan(y.bits) || nan(a.bits) ==> nan(r.bits),
        (inf(x.bits) && zer(y.bits)) || (zer(x.bits) && inf(y.bits)) ==> nan(r.bits),
        (inf(x.bits) && !nan(y.bits) && !zer(y.bits) || inf(y.bits) && !nan(x.bits) && !zer(x.bits)) && !nan(a.bits) ==>
            if inf(a.bits) && sgn(a.bits) != sgx(x.bits, y.bits) { nan(r.bits) } else { inf(r.bits) && sgn(r.bits) == sgx(x.bits, y.bits) },
        fin(x.bits) && fin(y.bits) && inf(a.bits) ==> r == a,
        fin(x.bits) && fin(y.bits) && fin(a.bits) && (zer(x.bits) || zer(y.bits)) ==>
            if zer(a.bits) { zer(r.bits) && (sgn(r.bits) == 1 <==> sgn(a.bits) == 1 && sgx(x.bits, y.bits) == 1) } else { r == a },
        fin(x.bits) && !zer(x.bits) && fin(y.bits) && !zer(y.bits) && fin(a.bits) ==> ({ let X = xval(x.bits, y.bits, a.bits);
            if X == 0 { r.bits.hi.0 == 0 && r.bits.lo.0 == 0 } else { sgn(r.bits) == (if X < 0 { 1int } else { 0 }) && nearest(absi(X), ahi(r.bits), r.bits.lo.0 as int) } }),"""


MRES = r"""
pub open spec fn rinc(rb: u32, v: int) -> int { if rb > 2 || (rb == 2 && v % 2 == 1) { 1 } else { 0 } }
#[verifier::opaque]
pub open spec fn okr(x: int, v: int) -> bool { forall|hh: int, ll: int| 0 <= ll < B() && #[trigger] (hh * B() + ll) == v ==> nearest(x, hh, ll) && 0 <= hh <= 0x7ffff * FR() }
proof fn lmod4(h: int, l: int) ensures (h * B() + l) % 4 == l % 4, (h * B() + l) % 2 == l % 2
{ lmod2(h, l); lb(); ldm(l, 4); let k = B() / 4; assert(B() == 4 * k); assert(h * B() + l == (h * k + l / 4) * 4 + l % 4) by(nonlinear_arith) requires B() == 4 * k, l == (l / 4) * 4 + l % 4; lmod(h * B() + l, 4, h * k + l / 4, l % 4); }
proof fn lmsgn(z: U256) requires z.v() + 1 < SGN() * B() ensures z.hi.0 < 0x80000000000000000000000000000000
{ lb(); let h = z.hi.0 as int; if h >= SGN() { assert(h * B() >= SGN() * B()) by(nonlinear_arith) requires h >= SGN(), B() > 0; } }
proof fn lmres(h: int, l: int, sz: int, v: int) requires h * B() + l == (sz * SGN()) * B() + v, 0 <= l < B(), sz == 0 || sz == 1, 0 <= v < SGN() * B()
    ensures ({ let a = h % SGN(); a * B() + l == v && h / SGN() == sz })
{
    lb(); let a = h - sz * SGN(); ldist(h, sz * SGN(), B()); assert(a * B() + l == v);
    assert(a >= 0) by(nonlinear_arith) requires a * B() + l == v, v >= 0, l < B(), B() > 0;
    assert(a < SGN()) by(nonlinear_arith) requires a * B() + l == v, v < SGN() * B(), l >= 0, B() > 0;
    lmod(h, SGN(), sz, a);
}
"""

ABS = """    requires abs_bits_x.hi.0 < 0x7ffff * FR(), abs_bits_x.v() > 0, abs_bits_y.hi.0 < 0x7ffff * FR(), abs_bits_y.v() > 0
    ensures okr(val(*abs_bits_x) * val(*abs_bits_y), r.0.v() + rinc(r.1, r.0.v())), r.0.v() + 1 < SGN() * B()"""



def mulres(sv, tail, more=""):
    """hints around the use of mul_abs_finite: sign and final rounding"""
    return [(r"(?=let \(mut bits_z, rnd_bits\) =)", """proof { abs_bits_x.vb(); abs_bits_y.vb(); lnzv(abs_bits_x); lnzv(abs_bits_y); lmod(abs_bits_x.hi.0 as int, SGN(), 0, abs_bits_x.hi.0 as int); lmod(abs_bits_y.hi.0 as int, SGN(), 0, abs_bits_y.hi.0 as int);
 assert(val(abs_bits_x) == val(x.bits)); assert(val(abs_bits_y) == val(y.bits)); %s }""" % more),
            (r"let \(mut bits_z, rnd_bits\) =[^;]*;", """let ghost z0 = bits_z.v(); let ghost zh = bits_z.hi.0; let ghost sz = if %s == 0 { 0int } else { 1 };
 proof { lmsgn(bits_z); lor2(%s, bits_z.hi.0); lmod4(bits_z.hi.0 as int, bits_z.lo.0 as int); lmod4(sz * SGN() + bits_z.hi.0, bits_z.lo.0 as int); ldist(sz * SGN(), bits_z.hi.0 as int, B()); lw(); assert((SGN() + SGN()) * B() == B2()) by { lw(); lb(); } ldist(SGN(), SGN(), B()); }""" % (sv, sv)),
            (tail, "proof { reveal(okr); bits_z.vb(); lmres(bits_z.hi.0 as int, bits_z.lo.0 as int, sz, z0 + rinc(rnd_bits, z0)); }")]


def local_consts(X, path, after="/// Compute z"):
    """function-local integer constants: subst rules that put in their values"""
    import constev
    env = {k: v[1] for k, v in constev.consts(open(os.path.join(X.repo, LIB)).read()).items()}
    sub = [(r"const [A-Z_0-9]+: [iu]32\s*=[^;]*;", "")]
    loc = {}
    for n, e in re.findall(r"const ([A-Z_0-9]+): [iu]32\s*=\s*([^;]*);", (open(os.path.join(X.repo, path)).read().split(after, 1)[1] if after else open(os.path.join(X.repo, path)).read().split("#[cfg(test)]")[0])):
        e = re.sub(r"\bas [iu]32", "", e)
        if not re.match(r"^[\w\s+*()-]+$", e):
            raise X.Lost("constant " + n)
        try:
            loc[n] = eval(e, {"__builtins__": {}}, dict(env, **loc))
        except NameError:
            raise X.Lost("constant " + n)
    return sub + [(r"\b%s\b" % n, str(v)) for n, v in loc.items()]


def any3(X):
    return ["pub trait BinEncAnySpecial { spec fn as_pred(&self) -> bool; fn any_special(&self) -> (r: bool) ensures r == self.as_pred(); }\n"
            "impl BinEncAnySpecial for (u128, u128, u128) {\nopen spec fn as_pred(&self) -> bool { special(self.0) || special(self.1) || special(self.2) }\n"
            + X.fn(LIB, "any_special", header=r"BinEncAnySpecial for \(u128, u128, u128\)$", sig="fn any_special(&self) -> (r: bool)") + "}\n"]


def addu128(X):
    v = X.expand(ud.U1, "wrap_bin_op", "(impl $imp:ident, $method:ident, $wrapper:ident, $rhs:ident)", "wrap_bin_op!(impl Add, add, U128, u128);", {"imp": "Add", "method": "add", "wrapper": "U128", "rhs": "u128"})
    return ud.imp("impl Add<u128> for U128", "U128", X.fn(v, "add", header=r"^impl Add<u128> for U128$", subst=[(r"self\.0\.add\((rhs\.0|rhs)\)", r"self.0 + \1")],
                  sig="fn add(self, rhs: u128) -> (r: U128)", spec="    ensures r.v() == self.v() + rhs", at={0: "proof { lb(); }"}), "self.v() + rhs < B()")


def fma(X):
    return "pub " + X.fn(FMA, "fma", header=r"^$", spec=SPEC,
        subst=local_consts(X, FMA) + [(r"\(&(\w+) << (\w+)\)", r"((&\1).shl(\2))"), (r"\*signif_z <<= shl;", "signif_z.shl_assign(shl);"), (r"assert!\(!\(", "assert!(!(")],
        at={0: """proof { lb(); lp2(); lbits(x.bits.hi.0); lbits(y.bits.hi.0); lbits(a.bits.hi.0); ldm(x.bits.hi.0 as int, SGN()); ldm(y.bits.hi.0 as int, SGN()); ldm(a.bits.hi.0 as int, SGN()); lxor(x.bits.hi.0, y.bits.hi.0);
 lmod0(0, SGN()); lmod0(NAN_HI as int, SGN()); lmod0(INF_HI as int, SGN()); land(0, 0); land(0, 0x80000000000000000000000000000000); land(0x80000000000000000000000000000000, 0); land(0x80000000000000000000000000000000, 0x80000000000000000000000000000000); lor2(0, INF_HI); lor2(0x80000000000000000000000000000000, INF_HI);
 assert(0 * SGN() == 0); assert(1 * SGN() == SGN()); lmod(SGN(), SGN(), 1, 0); lmod(SGN() + INF_HI, SGN(), 1, INF_HI as int);
 if fin(x.bits) { lval(x.bits); lsig(ahi(x.bits), x.bits.lo.0 as int); } if fin(y.bits) { lval(y.bits); lsig(ahi(y.bits), y.bits.lo.0 as int); } if fin(a.bits) { lval(a.bits); lsig(ahi(a.bits), a.bits.lo.0 as int); } }"""},
        hints=[(r"let abs_bits_sticky_a = [^;]*;", "proof { lspecial(abs_bits_x.hi.0, abs_bits_x.lo.0, abs_bits_sticky_x); lspecial(abs_bits_y.hi.0, abs_bits_y.lo.0, abs_bits_sticky_y); lspecial(abs_bits_a.hi.0, abs_bits_a.lo.0, abs_bits_sticky_a); }"),
               (r"(?=assert!\(!\(abs_bits_sticky_x)", """let ghost sx = sig(ahi(x.bits), x.bits.lo.0 as int); let ghost sy = sig(ahi(y.bits), y.bits.lo.0 as int); let ghost sa = sig(ahi(a.bits), a.bits.lo.0 as int);
 let ghost qx = qe(ahi(x.bits)); let ghost qy = qe(ahi(y.bits)); let ghost qa = qe(ahi(a.bits)); let ghost sp = sgx(x.bits, y.bits); let ghost so = sgn(a.bits); let ghost same = sp == so;
 proof { abs_bits_x.vb(); abs_bits_y.vb(); lnzv(abs_bits_x); lnzv(abs_bits_y); }"""),
               (r"let \(signif_y, norm_shift_y\) = [^;]*;", "let ghost px = signif_x.v(); let ghost py = signif_y.v(); let ghost nx = norm_shift_x as nat; let ghost ny = norm_shift_y as nat; proof { lp(); lemma_pow2_adds(1, 1); lpb(py, 237, 2); lple(239, 256); lmod0(py * 4, B2()); lprod(px, py); }"),
               (r"let mut signif_p = [^;]*\};", "let ghost p = px * (py * 4); proof { signif_p.vb(); lp6(); assert(0 * B4() == 0); assert(signif_p.v() == p); }"),
               (r"let d = [^;]*;", """let ghost P = val(x.bits) * val(y.bits); let ghost A = val(a.bits) * pow2(D()); let ghost H = fH(d as int, qa as int); let ghost F = fF(d as int); let ghost T = (H + 261866) as nat;
 let ghost sw = fswap(d as int, p, sa); let ghost S = comb(same, sw, fpe(d as int, p), fae(d as int, sa)); let ghost X = xval(x.bits, y.bits, a.bits);
 proof { lscale(sx, sy, qx, qy, nx, ny, p, sa, qa, d as int, P, A); lcase(d as int, p, px * py, sa, qa as int, same); lsign(d as int, p, sa, sp, so, P, A, T); lpw(sa, 0, 512); lpw(sa, 1, 0); }"""),
               (r"(?=if sign_bits_hi_p == sign_bits_hi_a \{\s*signif_z)", """proof { u768::consts(); lpw(1, 19, 749); ldb(18); ldb(767); lple(749, 768); lpw(1, 0, 237); lpw(1, 0, 512);
 assert(signif_z.v() == if sw { fza(d as int, sa) } else { p }); assert(signif_t.v() == if sw { p } else { fza(d as int, sa) }); assert(sign_bits_hi_z == if sw { sign_bits_hi_a } else { sign_bits_hi_p }); }
 let ghost z = comb(same, sw, p, fza(d as int, sa));"""),
               (r"(?=let signif_z_nlz = )", "proof { assert(signif_z.v() == z); }"),
               (r"let exp_bits_hi = [^;]*;", "proof { lnz(z, signif_z_nlz as int); assert(exp_bits_hi == H); assert(S > 0); if H - (signif_z_nlz - 19) + 1 >= 0x7ffff { lovf(absi(X), S, z, d as int, qa as int, signif_z_nlz as int); } }"),
               (r"\(0, exp_bits_hi as u32\)\s*\};", """let ghost zs = z * pow2(shl as nat); proof { lpb(z, (768 - signif_z_nlz) as nat, shl as nat); lple((768 - signif_z_nlz + shl) as nat, 768); }"""),
               (r"let rnd_bits = [^;]*;", """let ghost rh = signif_z.hi.hi.0 as int; let ghost rl = signif_z.hi.lo.0 as int; let ghost rr = signif_z.hi.v(); let ghost ff = signif_z.mi.v() * B2() + signif_z.lo.v(); let ghost m1 = exp_bits_m1_z as int;
 proof { lp(); lp6(); lb(); signif_z.hi.vb(); signif_z.mi.vb(); signif_z.lo.vb(); signif_z.mi.hi.vb(); signif_z.mi.lo.vb(); lbitsr(signif_z.mi.hi.v(), signif_z.mi.lo.v(), signif_z.lo.v(), hi_bits.v(), carry.v());
 assert(signif_z.v() == zs); lpb(z, (768 - signif_z_nlz) as nat, shl as nat); lpb(z, (767 - signif_z_nlz) as nat, shl as nat); lple((768 - signif_z_nlz + shl) as nat, 749); lrhi(rr, zs, ff, rh, rl);
 lor3(hi_bits.0 as u32, (carry.0 != 0 || signif_z.mi.lo.0 != 0 || signif_z.lo.v() != 0) as u32); lexpo(exp_bits_m1_z as u128); lm3(m1, FR(), B()); lmodr(rh, rl, m1); }"""),
               (r"let mut bits_z = [^;]*;", """let ghost up = ff > pow2(511) || (ff == pow2(511) && rr % 2 == 1); proof { assert(bits_z.v() == rr + m1 * pow2(236)) by { ldist(rh, m1 * FR(), B()); } bits_z.vb(); lenb(rr, m1);
 assert forall|hh: int, ll: int| 0 <= ll < B() && #[trigger] (hh * B() + ll) == rr + m1 * pow2(236) + (if up { 1int } else { 0 }) implies nearest(absi(X), hh, ll) && 0 <= hh <= 0x7ffff * FR() by {
   lfin(absi(X), S, z, d as int, qa as int, signif_z_nlz as int, shl as nat, m1 as nat, zs, rr, ff, up, hh, ll); } }"""),
               (r"(?=bits_z\.hi\.0 \|= sign_bits_hi_z;)", """proof { bits_z.vb(); assert(bits_z.v() == rr + m1 * pow2(236) + if up { 1int } else { 0 }); let hh = bits_z.hi.0 as int; let ll = bits_z.lo.0 as int; assert(hh * B() + ll == bits_z.v());
 lor2(sign_bits_hi_z, bits_z.hi.0); let sz = if sign_bits_hi_z == 0 { 0int } else { 1 }; lmod(sz * SGN() + hh, SGN(), sz, hh); }"""),
               ] + mulres("sign_bits_hi_p", r"(?=return f256 \{\s*bits: bits_z,?\s*\};)", "lxz(x.bits, y.bits, a.bits);"))


XTRA = r"""
proof fn lxz(x: U256, y: U256, a: U256) requires fin(x), fin(y), fin(a), !zer(x), !zer(y), zer(a)
    ensures ({ let X = xval(x, y, a); X != 0 && absi(X) == val(x) * val(y) && ((X < 0) == (sgx(x, y) == 1)) })
{ lval(x); lval(y); lval(a); assert(0 * pow2(D()) == 0); let P = val(x) * val(y); assert(1 * P == P && (-1) * P == -P); assert(sg1(sgn(a)) * 0 == 0); lposm(val(x), val(y)); }
proof fn lprod(px: int, py: int) requires pow2(236) <= px < pow2(237), pow2(236) <= py < pow2(237) ensures pow2(474) <= px * (py * 4) < pow2(476), px * (py * 4) == (px * py) * 4
{
    lp(); lemma_pow2_adds(236, 236); ldb(472); ldb(473); lemma_pow2_adds(237, 237); ldb(474); ldb(475); lemma_pow2_pos(236); lemma_pow2_pos(237);
    assert(pow2(236) * pow2(236) <= px * py < pow2(237) * pow2(237)) by(nonlinear_arith) requires pow2(236) <= px < pow2(237), pow2(236) <= py < pow2(237), pow2(236) > 0;
    assert(px * (py * 4) == (px * py) * 4) by(nonlinear_arith);
}
"""


def build(X, main=True):
    out = ud.base(X)
    out.insert(out.index("//@mod ma"), "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\npub struct u768 { pub hi: U256, pub mi: U256, pub lo: U256 }\n")
    out += ["//@mod me", fr.SPEC, STD] + fr.helpers(X) + ["pub open spec fn special(h: u128) -> bool { h == 0 || h > 0x7fffefffffffffffffffffffffffffff }\n", fr.LEM2, GEN] + shared(X)
    out += ["//@mod mf"] + u768(X)
    out += ["//@mod mg", LEM, BASE, FLEM, "//@mod mh", XTRA0, MRES, XTRA, addu128(X)] + any3(X)
    out.append("// contract discharged by unit fmul\n#[verifier::external_body] pub fn mul_abs_finite(abs_bits_x: &U256, abs_bits_y: &U256) -> (r: (U256, u32))\n" + ABS + " { unimplemented!() }\n")
    out.append(fma(X))
    fw = [(r"fused_ops::fma::fma\(", "fma(")]
    sp = lambda y: re.sub(r"\bx\.bits", "self.bits", SPEC).replace("y.bits", "%s.bits" % y)
    out += ["impl f256 {\n", "pub " + X.fn(LIB, "mul_add", header=r"^impl f256$", subst=fw, spec=sp("f")),
            "pub " + X.fn(LIB, "square_add", header=r"^impl f256$", subst=fw, spec=sp("self")), "}\n"]
    return "\n".join(out) + "\nfn main() {}\n}\n"
