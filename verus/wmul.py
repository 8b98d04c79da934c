"""Contracts of the multi-word addition / multiplication primitives of
src/big_uint, proved for all operands, word level by word level:
    U128 -> U256 -> U512:  widening_mul  r.0 + r.1 * W == self * rhs
"""
import re
RLIMIT = 60
MIN_OBLIGATIONS = 20

PRELUDE = r"""
use vstd::prelude::*;
verus! {
#[verifier::opaque]
pub open spec fn B() -> int { 0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int }
#[verifier::opaque]
pub open spec fn B2() -> int { B() * B() }
#[verifier::opaque]
pub open spec fn B4() -> int { B2() * B2() }
pub proof fn lb() ensures B() == 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffint + 1 { reveal(B); assert(0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int == 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffint + 1) by(compute); }
pub proof fn lw() ensures B2() == B() * B(), B4() == B2() * B2() { reveal(B2); reveal(B4); }
pub open spec fn sel(c: bool, w: int) -> int { if c { w } else { 0 } }
proof fn lemma_sel(c: bool, w: int) ensures b2i(c) * w == sel(c, w), (-b2i(c)) * w == -sel(c, w)
{
    if c { assert(1 * w == w) by(nonlinear_arith); assert((-1) * w == -w) by(nonlinear_arith); }
    else { assert(0 * w == 0) by(nonlinear_arith); assert((-0) * w == 0) by(nonlinear_arith);}
}
pub open spec fn b2i(c: bool) -> int { if c { 1 } else { 0 } }

proof fn shl64()
    ensures forall|x: u128| x < 0x1_0000_0000_0000_0000 ==> #[trigger] (x << 64) == x * 0x1_0000_0000_0000_0000,
{
    assert forall|x: u128| x < 0x1_0000_0000_0000_0000 implies #[trigger] (x << 64) == x * 0x1_0000_0000_0000_0000 by {
        assert(x << 64 == x * 0x1_0000_0000_0000_0000) by(bit_vector) requires x < 0x1_0000_0000_0000_0000;
    }
}
proof fn mulb()
    ensures forall|x: int, y: int| 0 <= x < 0x1_0000_0000_0000_0000 && 0 <= y < 0x1_0000_0000_0000_0000 ==> 0 <= #[trigger] (x * y) <= 0xfffffffffffffffe0000000000000001,
{
    assert forall|x: int, y: int| 0 <= x < 0x1_0000_0000_0000_0000 && 0 <= y < 0x1_0000_0000_0000_0000 implies 0 <= #[trigger] (x * y) <= 0xfffffffffffffffe0000000000000001 by {
        assert(0 <= x * y <= 0xfffffffffffffffe0000000000000001) by(nonlinear_arith) requires 0<=x<0x1_0000_0000_0000_0000, 0<=y<0x1_0000_0000_0000_0000;
    }
}
proof fn parts(a: int, b: int)
    ensures
        forall|xh: int, xl: int, yh: int, yl: int| a == xh * 0x1_0000_0000_0000_0000 + xl && b == yh * 0x1_0000_0000_0000_0000 + yl ==>
            a * b == (#[trigger] (xh * yh)) * B() + (xh * yl + xl * yh) * 0x1_0000_0000_0000_0000 + #[trigger] (xl * yl),
{
    reveal(B);
    assert forall|xh: int, xl: int, yh: int, yl: int| a == xh * 0x1_0000_0000_0000_0000 + xl && b == yh * 0x1_0000_0000_0000_0000 + yl implies
            a * b == (#[trigger] (xh * yh)) * B() + (xh * yl + xl * yh) * 0x1_0000_0000_0000_0000 + #[trigger] (xl * yl) by {
        assert(a * b == (xh * yh) * B() + (xh * yl + xl * yh) * 0x1_0000_0000_0000_0000 + (xl * yl)) by(nonlinear_arith)
            requires a == xh * 0x1_0000_0000_0000_0000 + xl, b == yh * 0x1_0000_0000_0000_0000 + yl, B() == (0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000);
    }
}
pub assume_specification [u128::overflowing_add] (a: u128, b: u128) -> (r: (u128, bool))
    ensures r.0 + sel(r.1, B()) == a + b;
pub assume_specification [u128::overflowing_sub] (a: u128, b: u128) -> (r: (u128, bool))
    ensures r.0 - sel(r.1, B()) == a - b;

// ---- lemmas over one word level with base W
proof fn lemma_pair(w: int, h: int, l: int)
    requires 0 <= h < w, 0 <= l < w
    ensures 0 <= h * w + l < w * w
{
    assert(0 <= h * w + l < w * w) by(nonlinear_arith) requires 0 <= h < w, 0 <= l < w;
}
// 0 <= x < w and x == y (mod w) by a multiple k, |k*w| bounded: the wrapped value is unique
proof fn lemma_cmul(w: int, a: int, b: int, c: int, p: int, h: int, r: int, o: int)
    requires 0 <= a < w, 0 <= b < w, 0 <= c < w, p + h * w == a * b, r + o * w == p + c, 0 <= o <= 1, 0 <= p < w, 0 <= r < w, 0 <= h < w
    ensures r + (h + o) * w == a * b + c, h + o < w
{
    assert((h + o) * w == h * w + o * w) by(nonlinear_arith);
    assert(a * b <= (w - 1) * (w - 1)) by(nonlinear_arith) requires 0 <= a <= w - 1, 0 <= b <= w - 1;
    assert((w - 1) * (w - 1) == w * w - 2 * w + 1) by(nonlinear_arith);
    assert(h + o < w) by(nonlinear_arith) requires r + (h + o) * w < w * w, 0 <= r, w > 0;
}
proof fn lemma_d(a: int, b: int, f: int) ensures (a + b) * f == a * f + b * f { assert((a + b) * f == a * f + b * f) by(nonlinear_arith); }
// a + b*w == s, times f
proof fn lemma_scale(w: int, a: int, b: int, x: int, s: int, f: int)
    requires a + b * x == s
    ensures a * f + (b * x) * f == s * f
{
    lemma_d(a, b * x, f);
}
proof fn lemma_wm(w: int, ah: int, al: int, bh: int, bl: int, ll: int, c1: int, lh1: int, hl1: int, lh2: int, c2: int,
                  hl2: int, o: int, hl3: int, hh: int)
    requires
        0 <= ah < w, 0 <= al < w, 0 <= bh < w, 0 <= bl < w, 0 <= ll < w, 0 <= lh2 < w, 0 <= hl3 < w, 0 <= hh < w, 0 <= o <= 1,
        ll + c1 * w == al * bl,
        lh1 + hl1 * w == al * bh + c1,
        lh2 + c2 * w == ah * bl + lh1,
        hl2 + o * w == hl1 + c2,
        hl3 + hh * w == ah * bh + hl2,
    ensures
        (ah * w + al) * (bh * w + bl) == (lh2 * w + ll) + ((hh + o) * w + hl3) * (w * w),
        hh + o < w,
{
    let ww = w * w;
    let www = ww * w;
    // the product, expanded
    let p = ah * bh; let q = ah * bl; let r = al * bh; let t = al * bl;
    assert((ah * w + al) * (bh * w + bl) == (ah * w) * (bh * w) + (ah * w) * bl + al * (bh * w) + al * bl) by(nonlinear_arith);
    assert((ah * w) * (bh * w) == p * ww) by(nonlinear_arith) requires p == ah * bh, ww == w * w;
    assert((ah * w) * bl == q * w) by(nonlinear_arith) requires q == ah * bl;
    assert(al * (bh * w) == r * w) by(nonlinear_arith) requires r == al * bh;
    // each step scaled
    lemma_scale(w, hl3, hh, w, p + hl2, ww);
    lemma_scale(w, hl2, o, w, hl1 + c2, ww);
    lemma_scale(w, lh2, c2, w, q + lh1, w);
    lemma_scale(w, lh1, hl1, w, r + c1, w);
    lemma_d(p, hl2, ww); lemma_d(hl1, c2, ww); lemma_d(q, lh1, w); lemma_d(r, c1, w);
    assert((hh * w) * ww == hh * www) by(nonlinear_arith) requires www == ww * w;
    assert((o * w) * ww == o * www) by(nonlinear_arith) requires www == ww * w;
    assert((c2 * w) * w == c2 * ww) by(nonlinear_arith) requires ww == w * w;
    assert((hl1 * w) * w == hl1 * ww) by(nonlinear_arith) requires ww == w * w;
    assert(((hh + o) * w + hl3) * ww == hh * www + o * www + hl3 * ww) by(nonlinear_arith) requires www == ww * w;
    assert(w * w == ww);
    // bound
    lemma_pair(w, ah, al);
    lemma_pair(w, bh, bl);
    let a = ah * w + al;
    let b = bh * w + bl;
    assert(a * b < ww * ww) by(nonlinear_arith) requires 0 <= a < ww, 0 <= b < ww;
    assert(0 <= lh2 * w) by(nonlinear_arith) requires 0 <= lh2, 0 < w;
    assert(((hh + o) * w + hl3) * ww < ww * ww);
    assert((hh + o) * w + hl3 < ww) by(nonlinear_arith) requires ((hh + o) * w + hl3) * ww < ww * ww, ww > 0;
    assert(hh + o < w) by(nonlinear_arith) requires (hh + o) * w + hl3 < w * w, 0 <= hl3, w > 0;
}
"""

UT = "src/big_uint/mod.rs"
U1 = "src/big_uint/uint128.rs"
UG = "src/big_uint/uint_generic/mod.rs"
IMPL = r"impl<SubUInt> BigUInt for UInt<SubUInt>"


def addsub(X, path, hdr, gen, G, w):
    """contracts common to all levels"""
    t = lambda n, **k: X.fn(path, n, header=hdr, subst=G, **k)
    out = []
    out.append(t("overflowing_add", spec="    ensures r.0.v() + sel(r.1, %s) == self.v() + rhs.v()" % w, ghosts=True, at=gen.get("overflowing_add")))
    out.append(t("overflowing_sub", spec="    ensures r.0.v() - sel(r.1, %s) == self.v() - rhs.v()" % w, ghosts=True, at=gen.get("overflowing_sub")))
    out.append(t("wrapping_add", spec="    ensures r.v() == self.v() + rhs.v() || r.v() == self.v() + rhs.v() - %s" % w, ghosts=True, at=gen.get("wrapping_add")))
    out.append(t("wrapping_sub", spec="    ensures r.v() == self.v() - rhs.v() || r.v() == self.v() - rhs.v() + %s" % w, ghosts=True, at=gen.get("wrapping_sub")))
    return out


def defaults(X, G, w):
    d = lambda n, **k: X.fn(UT, n, subst=G, **k)
    W = w
    return [
        d("is_zero", spec="    ensures r == (self.v() == 0)", at={0: "proof { Self::consts(); if self.v() == 0 { Self::inj(*self, Self::ZERO); } }"}),
        d("incr_if", spec="    ensures final(self).v() == old(self).v() + b2i(cond) || (cond && final(self).v() == 0 && old(self).v() == %s - 1)" % W,
          at={0: "proof { self.vb(); }", "end": "proof { self.vb(); }"}),
        d("decr_if", spec="    ensures final(self).v() == old(self).v() - b2i(cond) || (cond && old(self).v() == 0 && final(self).v() == %s - 1)" % W,
          at={0: "proof { self.vb(); }", "end": "proof { self.vb(); }"}),
        d("carrying_add", spec="    ensures r.0.v() + sel(r.1, %s) == self.v() + rhs.v() + b2i(carry)" % W, ghosts=True,
          at={-1: "proof { self.vb(); rhs.vb(); t_1.vb(); t_2.vb(); }"}),
        d("borrowing_sub", spec="    ensures r.0.v() - sel(r.1, %s) == self.v() - rhs.v() - b2i(borrow)" % W, ghosts=True,
          at={-1: "proof { self.vb(); rhs.vb(); t_1.vb(); t_2.vb(); }"}),
        d("carrying_mul", spec="    ensures r.0.v() + r.1.v() * %s == self.v() * rhs.v() + carry.v()" % W, ghosts=True,
          at={-1: "proof { self.vb(); rhs.vb(); carry.vb(); rl_1.vb(); rh_1.vb(); rl_2.vb(); "
                  "lemma_sel(ovfl_1, %s); lemma_cmul(%s, self.v(), rhs.v(), carry.v(), rl_1.v(), rh_1.v(), rl_2.v(), b2i(ovfl_1)); }" % (W, W)}),
        d("truncating_mul", spec="    ensures exists|l: int| 0 <= l < %s && l + r.v() * %s == self.v() * rhs.v()" % (W, W)) if False else "",
        d("wrapping_mul", spec="    ensures exists|h: int| 0 <= h < %s && r.v() + #[trigger] (h * %s) == self.v() * rhs.v()" % (W, W)) if False else "",
    ]


def u128(X):
    ld = lambda n, **k: X.fn(U1, n, **k)
    H = r"impl BigUInt for U128"
    h = [
        "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\npub struct U128(pub u128);\n",
        "impl U128 {\npub const ZERO: U128 = U128(0);\npub const ONE: U128 = U128(1);\n"
        "pub open spec fn v(&self) -> int { self.0 as int }\n"
        "pub proof fn vb(&self) ensures 0 <= self.v() < B() { lb(); }\n",
        "proof fn inj(a: Self, b: Self) requires a.v() == b.v() ensures a == b {}\n"
        "proof fn consts() ensures Self::ZERO.v() == 0, Self::ONE.v() == 1 {}\n",
        X.fn(U1, "new", header=r"impl U128", sig="pub fn new(i: u128) -> (r: Self)", spec="    ensures r.v() == i"),
        X.fn(U1, "from", header=r"impl<'a> From<&'a u128> for U128", sig="pub fn from(value: &u128) -> (r: Self)", spec="    ensures r.v() == *value"),
    ]
    out = h
    e = {k: {0: "proof { lb(); }"} for k in ("overflowing_add", "overflowing_sub", "wrapping_add", "wrapping_sub")}
    out += addsub(X, U1, H, e, (), "B()")
    out += defaults(X, (), "B()")
    out.append(X.fn(U1, "widening_mul", header=H, spec="    ensures r.0.v() + r.1.v() * B() == self.v() * rhs.v()",
                    at={0: "proof { reveal(B); shl64(); mulb(); parts(self.0 as int, rhs.0 as int); }",
                        -1: "proof { assert(self.0 == xh*0x1_0000_0000_0000_0000+xl);\n assert(rhs.0 == yh*0x1_0000_0000_0000_0000+yl);\n"
                            "assert(self.0 * rhs.0 == (xh * yh) * B() + (xh * yl + xl * yh) * 0x1_0000_0000_0000_0000 +(xl * yl));\n"
                            "assert(rl + rh*B() == (xh * yh) * B() + (xh * yl + xl * yh) * 0x1_0000_0000_0000_0000 +(xl * yl)); }"}))
    out.append("}\n")
    return out


def level(X, N, S, w, W, sm):
    """N = UInt<S>; w = base of S, W = w*w"""
    G = [(r"\bSubUInt::", S + "::"), (r"\bSubUInt\b", S)]
    g = {
        "overflowing_add": {-1: "proof { LW; lemma_sel(carry_1, w()); lemma_sel(carry_2, w()); lemma_sel(carry_2, w() * w()); lemma_sum(w(), hi_1.v(), b2i(carry_2), self.hi.v(), rhs.hi.v(), b2i(carry_1)); }"},
        "overflowing_sub": {-1: "proof { LW; lemma_sel(borrow_1, w()); lemma_sel(borrow_2, w()); lemma_sel(borrow_2, w() * w()); lemma_sum(w(), hi_1.v(), -b2i(borrow_2), self.hi.v(), -rhs.hi.v(), -b2i(borrow_1)); }"},
        "wrapping_add": {-1: "proof { LW; self.hi.vb(); rhs.hi.vb(); self.lo.vb(); rhs.lo.vb(); hi.vb(); hi_1.vb(); let o1 = b2i(carry_1); lemma_sel(carry_1, w()); "
                             "let k = if hi.v() == self.hi.v() + rhs.hi.v() + o1 { 0int } else { 1int }; "
                             "lemma_sum(w(), hi.v(), k, self.hi.v(), rhs.hi.v(), o1); }"},
        "wrapping_sub": {-1: "proof { LW; self.hi.vb(); rhs.hi.vb(); self.lo.vb(); rhs.lo.vb(); hi.vb(); hi_1.vb(); let o1 = b2i(borrow_1); lemma_sel(borrow_1, w()); "
                             "let k = if hi.v() == self.hi.v() - rhs.hi.v() - o1 { 0int } else { -1int }; "
                             "lemma_sum(w(), hi.v(), k, self.hi.v(), -rhs.hi.v(), -o1); }"},
    }
    g = {k: {i: t.replace("W()", W).replace("w()", w).replace("LW;", "lw();") for i, t in d.items()} for k, d in g.items()}
    out = ["#[derive(Clone, Copy, PartialEq, Eq, Structural)]\npub struct %s { pub hi: %s, pub lo: %s }\n" % (N, S, S),
           "impl %s {\n" % N,
           "pub const ZERO: %s = %s { hi: %s::ZERO, lo: %s::ZERO };\n" % (N, N, S, S),
           "pub const ONE: %s = %s { hi: %s::ZERO, lo: %s::ONE };\n" % (N, N, S, S),
           "pub open spec fn v(&self) -> int { self.hi.v() * %s + self.lo.v() }\n" % w,
           "pub proof fn vb(&self) ensures 0 <= self.v() < %s { lw(); self.hi.vb(); self.lo.vb(); lemma_pair(%s, self.hi.v(), self.lo.v()); }\n" % (W, w),
           ("proof fn inj(a: Self, b: Self) requires a.v() == b.v() ensures a == b { a.hi.vb(); a.lo.vb(); b.hi.vb(); b.lo.vb(); "
            "lemma_inj(%s, a.hi.v(), a.lo.v(), b.hi.v(), b.lo.v()); %s::inj(a.hi, b.hi); %s::inj(a.lo, b.lo); }\n"
            "proof fn consts() ensures Self::ZERO.v() == 0, Self::ONE.v() == 1 { %s::consts(); assert(0 * %s == 0) by(nonlinear_arith); }\n") % (w, S, S, S, w),
           X.fn(UG, "from", header=r"impl<'a, SubUInt> From<&'a u128> for UInt<SubUInt>", sig="pub fn from(value: &u128) -> (r: Self)",
                spec="    ensures r.v() == *value", subst=G + [(r"value\.into\(\)", S + "::from(value)")],
                at={0: "proof { %s::consts(); assert(0 * %s == 0) by(nonlinear_arith); }" % (S, w)}),
           ]
    out += addsub(X, UG, IMPL, g, G, W)
    dd = defaults(X, G, W)
    out += dd
    out.append(X.fn(UG, "widening_mul", header=IMPL, subst=G, ghosts=True, spec="    ensures r.0.v() + r.1.v() * %s == self.v() * rhs.v()" % W,
                    at={-1: ("proof { self.hi.vb(); self.lo.vb(); rhs.hi.vb(); rhs.lo.vb(); ll.vb(); lh_2.vb(); hl_3.vb(); hh_1.vb(); lw(); "
                             "lemma_sel(ovfl_1, %s); lemma_wm(%s, self.hi.v(), self.lo.v(), rhs.hi.v(), rhs.lo.v(), ll.v(), carry_1.v(), lh_1.v(), hl_1.v(), lh_2.v(), carry_2.v(), "
                             "hl_2.v(), b2i(ovfl_1), hl_3.v(), hh_1.v()); }") % (w, w)}))
    out.append("}\n")
    return out


EXTRA = r"""
// h + k*w == a + b + c, scaled by w; the products the solver meets are listed
proof fn lemma_sum(w: int, h: int, k: int, a: int, b: int, c: int)
    requires h + k * w == a + b + c
    ensures h * w + k * (w * w) == a * w + b * w + c * w, (-b) * w == -(b * w), (-c) * w == -(c * w), (-k) * (w * w) == -(k * (w * w))
{
    assert(h * w + k * (w * w) == a * w + b * w + c * w) by(nonlinear_arith) requires h + k * w == a + b + c;
    assert((-b) * w == -(b * w)) by(nonlinear_arith);
    assert((-c) * w == -(c * w)) by(nonlinear_arith);
    assert((-k) * (w * w) == -(k * (w * w))) by(nonlinear_arith);
}
proof fn lemma_inj(w: int, a: int, b: int, c: int, d: int)
    requires 0 <= b < w, 0 <= d < w, a * w + b == c * w + d
    ensures a == c, b == d
{
    assert(a == c) by(nonlinear_arith) requires 0 <= b < w, 0 <= d < w, a * w + b == c * w + d, w > 0;
}
"""


def base(X):
    out = [PRELUDE, EXTRA]
    out.append("pub " + X.fn(U1, "u128_hi", spec="    ensures r as int == u as int / 0x1_0000_0000_0000_0000, r < 0x1_0000_0000_0000_0000, r == (u >> 64)",
                    at={0: "proof { assert(u >> 64 == u / 0x1_0000_0000_0000_0000) by(bit_vector); assert(u >> 64 < 0x1_0000_0000_0000_0000) by(bit_vector); }"}))
    out.append("pub " + X.fn(U1, "u128_lo", spec="    ensures r as int == u as int % 0x1_0000_0000_0000_0000, r < 0x1_0000_0000_0000_0000",
                    at={0: "proof { assert(u & 0xffffffffffffffff == u % 0x1_0000_0000_0000_0000) by(bit_vector); }"}))
    out += u128(X)
    out += level(X, "U256", "U128", "B()", "B2()", None)
    out += level(X, "U512", "U256", "B2()", "B4()", None)
    return out


def build(X):
    return "\n".join(base(X)) + "\nfn main() {}\n}\n"
