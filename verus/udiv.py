"""Contracts of the multi-word division of src/big_uint (Knuth's algorithm D on
half words, all branches) and of everything below it: shifts, comparison,
addition, subtraction, multiplication with overflow check.
    U256 = UInt<U128>:  / U128, / U256      U512 = UInt<U256>:  / U256
    ensures self == quot * rhs + rem, rem < rhs
"""
import os, re, importlib.util
RLIMIT = 60
L512 = True
MIN_OBLIGATIONS = 420
TIMEOUT = 600
_sp = importlib.util.spec_from_file_location("vu_wmul_base", os.path.join(os.path.dirname(os.path.abspath(__file__)), "wmul.py"))
wm = importlib.util.module_from_spec(_sp)
_sp.loader.exec_module(wm)
UT, U1, UG, IMPL = wm.UT, wm.U1, wm.UG, wm.IMPL
OPS = "src/big_uint/uint_generic/binops/"

LEMMAS = r"""
// ---- powers of two
proof fn lp() ensures pow2(0) == 1, pow2(1) == 2, pow2(64) == 0x1_0000_0000_0000_0000, pow2(64) * pow2(64) == B(), pow2(128) == B(), pow2(256) == B2(), pow2(512) == B4()
{
    lb(); lw(); lemma2_to64(); lemma2_to64_rest();
    reveal(B);
    assert(pow2(64) == 0x1_0000_0000_0000_0000);
    lemma_pow2_adds(64, 64); lemma_pow2_adds(128, 128); lemma_pow2_adds(256, 256);
}
// 2^a * 2^(n-a) == 2^n, both positive
proof fn ls(a: nat, n: nat) requires a <= n ensures pow2(a) * pow2((n - a) as nat) == pow2(n), pow2(a) > 0, pow2((n - a) as nat) > 0, pow2(n) > 0, pow2(a) <= pow2(n)
{ lemma_pow2_adds(a, (n - a) as nat); lemma_pow2_pos(a); lemma_pow2_pos((n - a) as nat); lemma_pow2_pos(n);
  let x = pow2(a) as int; let y = pow2((n - a) as nat) as int; assert(x <= x * y) by(nonlinear_arith) requires x > 0, y > 0; }
proof fn lmul0(a: int, b: int) requires a >= 0, b >= 0 ensures a * b >= 0 { assert(a * b >= 0) by(nonlinear_arith) requires a >= 0, b >= 0; }
// r == x (mod p)
proof fn lmod(x: int, p: int, k: int, r: int) requires x == k * p + r, 0 <= r < p ensures x % p == r, x / p == k
{ lemma_fundamental_div_mod_converse(x, p, k, r); }
proof fn lmod0(x: int, p: int) requires 0 <= x < p ensures x % p == x, x / p == 0 { assert(0 * p == 0) by(nonlinear_arith); lmod(x, p, 0, x); }
proof fn ldm(x: int, p: int) requires p > 0 ensures x == (x / p) * p + x % p, 0 <= x % p < p
{ lemma_fundamental_div_mod(x, p); assert((x / p) * p == p * (x / p)) by(nonlinear_arith); }
proof fn ldiv0(x: int, p: int) requires x >= 0, p > 0 ensures x / p >= 0, x / p <= x { ldm(x, p); assert(x / p >= 0 && x / p <= x) by(nonlinear_arith) requires x == (x / p) * p + x % p, 0 <= x % p < p, x >= 0, p > 0; }
proof fn llt(x: int, p: int, q: int) requires 0 <= x < p * q, q > 0, p > 0 ensures 0 <= x / q < p
{ ldm(x, q); assert(0 <= x / q < p) by(nonlinear_arith) requires 0 <= x < p * q, x == (x / q) * q + x % q, 0 <= x % q < q; }

// v shifted left by s inside P = p * q  (p = 2^s): low part and what falls out
proof fn lshl(v: int, p: int, q: int, P: int)
    requires P == p * q, p > 0, q > 0, 0 <= v < P
    ensures (v * p) % P + (v / q) * P == v * p, 0 <= v / q < p, (v * p) % P == (v % q) * p, (v * p) / P == v / q, ((v * p) % P) % p == 0
{
    ldm(v, q); llt(v, p, q);
    let h = v / q; let l = v % q;
    assert(v * p == h * P + l * p) by(nonlinear_arith) requires v == h * q + l, P == p * q;
    assert(0 <= l * p < P) by(nonlinear_arith) requires 0 <= l < q, P == p * q, p > 0;
    lmod(v * p, P, h, l * p);
    lemma_mod_multiples_basic(l, p);
}
proof fn lmm(l: int, p: int) requires p > 0 ensures (l * p) % p == 0, (l * p) / p == l { lmod(l * p, p, l, 0); }
// word level shl: 0 < s < bits(w)
proof fn lshl2(w: int, h: int, l: int, p: int, hn: int, d: int, ln: int, c: int)
    requires ln + c * w == l * p, hn + d * w == h * p + c, 0 <= ln < w, 0 <= hn < w, w > 0
    ensures ((h * w + l) * p) % (w * w) == hn * w + ln
{
    assert((h * w + l) * p == d * (w * w) + (hn * w + ln)) by(nonlinear_arith) requires ln + c * w == l * p, hn + d * w == h * p + c;
    lemma_pair(w, hn, ln);
    lmod((h * w + l) * p, w * w, d, hn * w + ln);
}
proof fn lshl3(w: int, h: int, l: int, t: int, ln: int)
    requires ln == (l * t) % w, w > 0, t > 0
    ensures ((h * w + l) * (t * w)) % (w * w) == ln * w + 0
{
    ldm(l * t, w);
    let k = (l * t) / w;
    assert((h * w + l) * (t * w) == (h * t + k) * (w * w) + (ln * w + 0)) by(nonlinear_arith) requires l * t == k * w + ln;
    lemma_pair(w, ln, 0);
    lmod((h * w + l) * (t * w), w * w, h * t + k, ln * w + 0);
}
proof fn lshr2(w: int, h: int, l: int, p: int, q: int)
    requires w == p * q, p > 0, q > 0, 0 <= h, 0 <= l < w
    ensures (h * w + l) / p == (h / p) * w + ((h % p) * q + l / p), ((h % p) * q) % q == 0
{
    ldm(h, p); ldm(l, p);
    let a = h / p; let b = h % p; let c = l / p; let d = l % p;
    assert(h * w + l == (a * w + (b * q + c)) * p + d) by(nonlinear_arith) requires h == a * p + b, l == c * p + d, w == p * q;
    lmod(h * w + l, p, a * w + (b * q + c), d);
    lmm(b, q);
}
proof fn lshr3(w: int, h: int, l: int, t: int) requires 0 <= h, 0 <= l < w, t > 0, w > 0 ensures (h * w + l) / (t * w) == h / t
{
    ldm(h, t);
    let a = h / t; let b = h % t;
    assert(h * w + l == a * (t * w) + (b * w + l)) by(nonlinear_arith) requires h == a * t + b;
    assert(0 <= b * w + l < t * w) by(nonlinear_arith) requires 0 <= b < t, 0 <= l < w;
    lmod(h * w + l, t * w, a, b * w + l);
}
// bit-or of parts that do not overlap
pub open spec fn orp(a: int, b: int, r: int, n: nat) -> bool { forall|s: nat| s <= n && a % (#[trigger] pow2(s) as int) == 0 && b < pow2(s) ==> r == a + b }
proof fn lor_lo(w: int, h: int, l: int, p: int, q: int) requires w == p * q, p > 0, q > 0 ensures (h * w + l) % p == l % p
{ ldm(l, p); let c = l / p; let d = l % p; assert(h * w + l == (h * q + c) * p + d) by(nonlinear_arith) requires l == c * p + d, w == p * q; lmod(h * w + l, p, h * q + c, d); }
proof fn lor_hi(w: int, h: int, l: int, t: int, k: int) requires 0 <= l < w, h * w + l == k * (t * w), t > 0 ensures l == 0, h == k * t, h % t == 0
{ assert(h * w + l == (k * t) * w + 0) by(nonlinear_arith) requires h * w + l == k * (t * w); lemma_inj(w, h, l, k * t, 0); lmod(h, t, k, 0); }
// leading zeros
pub open spec fn lzs(v: int, r: int, n: int) -> bool { 0 <= r <= n && (v == 0 <==> r == n) && (v > 0 ==> pow2((n - 1 - r) as nat) <= v < pow2((n - r) as nat)) }
proof fn llz(w: int, h: int, l: int, n: nat, r: int)
    requires pow2(n) == w, 0 <= h < w, 0 <= l < w, n > 0, h > 0 ==> lzs(h, r, n as int), h == 0 ==> lzs(l, r - n, n as int)
    ensures lzs(h * w + l, r, 2 * n as int)
{
    lemma_pow2_pos(n);
    if h > 0 {
        let a = (n - 1 - r) as nat;
        lemma_pow2_adds(a, n); lemma_pow2_adds((n - r) as nat, n);
        assert(a + n == (2 * n - 1 - r) as nat && (n - r) as nat + n == (2 * n - r) as nat);
        let x = pow2(a) as int; let y = pow2((n - r) as nat) as int;
        assert(x * w <= h * w + l) by(nonlinear_arith) requires x <= h, 0 <= l, w > 0;
        assert(h * w + l < y * w) by(nonlinear_arith) requires h + 1 <= y, l < w, w > 0;
        assert(h * w + l > 0) by(nonlinear_arith) requires h > 0, l >= 0, w > 0;
    } else { assert(0 * w == 0) by(nonlinear_arith); }
}
// ---- multiplication with overflow
proof fn lexp(w: int, h: int, l: int, rh: int, rl: int)
    ensures (h * w + l) * (rh * w + rl) == (h * rh) * (w * w) + (l * rh) * w + (h * rl) * w + l * rl
{
    assert((h * w + l) * (rh * w + rl) == (h * w) * (rh * w) + (h * w) * rl + l * (rh * w) + l * rl) by(nonlinear_arith);
    let a = h * rh; let b = h * rl; let c = l * rh; let ww = w * w;
    assert((h * w) * (rh * w) == a * ww) by(nonlinear_arith) requires a == h * rh, ww == w * w;
    assert((h * w) * rl == b * w) by(nonlinear_arith) requires b == h * rl;
    assert(l * (rh * w) == c * w) by(nonlinear_arith) requires c == l * rh;
}
proof fn lom(w: int, h: int, l: int, rh: int, rl: int, ln: int, c: int, h1: int, o1: int, hn: int, o2: int)
    requires ln + c * w == l * rl, h1 + o1 * w == l * rh + c, hn + o2 * w == h * rl + h1, 0 <= ln < w, 0 <= hn < w, 0 <= o1, 0 <= o2, 0 <= h < w, 0 <= rh < w, w > 0
    ensures (h * w + l) * (rh * w + rl) == (hn * w + ln) + (o1 + o2 + h * rh) * (w * w), h * rh >= 0, h * rh == 0 <==> (h == 0 || rh == 0), 0 <= hn * w + ln < w * w,
        (o1 + o2 + h * rh > 0) <==> (h * w + l) * (rh * w + rl) >= w * w, ((h * w + l) * (rh * w + rl)) % (w * w) == hn * w + ln
{
    lexp(w, h, l, rh, rl);
    {
        let a = l * rh; let b = h * rl; let g = h * rh; let ww = w * w;
        assert(a * w == h1 * w + o1 * ww - c * w) by(nonlinear_arith) requires a == h1 + o1 * w - c, ww == w * w;
        assert(b * w == hn * w + o2 * ww - h1 * w) by(nonlinear_arith) requires b == hn + o2 * w - h1, ww == w * w;
        assert((o1 + o2 + g) * ww == o1 * ww + o2 * ww + g * ww) by(nonlinear_arith);
    }
    assert(h * rh >= 0) by(nonlinear_arith) requires h >= 0, rh >= 0;
    assert(h * rh == 0 <==> (h == 0 || rh == 0)) by(nonlinear_arith) requires h >= 0, rh >= 0;
    lemma_pair(w, hn, ln);
    let k = o1 + o2 + h * rh;
    if k > 0 { assert(k * (w * w) >= w * w) by(nonlinear_arith) requires k >= 1, w > 0; } else { assert(k * (w * w) == 0) by(nonlinear_arith) requires k == 0; }
    lmod((h * w + l) * (rh * w + rl), w * w, k, hn * w + ln);
}
// no overflow: the same with plain additions
proof fn lmn(w: int, h: int, l: int, rh: int, rl: int)
    requires (h * w + l) * (rh * w + rl) < w * w, 0 <= h < w, 0 <= l < w, 0 <= rh < w, 0 <= rl < w
    ensures h == 0 || rh == 0, l * rh < w, h * rl < w, (h * w + l) * (rh * w + rl) == (l * rh + h * rl) * w + l * rl, l * rh >= 0, h * rl >= 0, l * rl >= 0,
{
    lexp(w, h, l, rh, rl);
    assert(h * rh >= 0) by(nonlinear_arith) requires h >= 0, rh >= 0;
    assert(l * rh >= 0) by(nonlinear_arith) requires l >= 0, rh >= 0;
    assert(h * rl >= 0) by(nonlinear_arith) requires h >= 0, rl >= 0;
    assert(l * rl >= 0) by(nonlinear_arith) requires l >= 0, rl >= 0;
    let a = l * rh; let b = h * rl; let k = h * rh; let ww = w * w;
    assert(a * w >= 0 && b * w >= 0) by(nonlinear_arith) requires a >= 0, b >= 0, w > 0;
    if h > 0 && rh > 0 { assert(k >= 1) by(nonlinear_arith) requires k == h * rh, h >= 1, rh >= 1; assert(k * ww >= ww) by(nonlinear_arith) requires k >= 1, ww >= 0; assert(ww >= 0) by(nonlinear_arith) requires ww == w * w; assert(false); }
    assert(k == 0) by(nonlinear_arith) requires k == h * rh, h == 0 || rh == 0;
    assert(k * ww == 0) by(nonlinear_arith) requires k == 0;
    assert(a < w) by(nonlinear_arith) requires a * w < w * w, w > 0;
    assert(b < w) by(nonlinear_arith) requires b * w < w * w, w > 0;
    assert((a + b) * w == a * w + b * w) by(nonlinear_arith);
}
// ---- Knuth D, one quotient digit.  y = y1 * h + y0 normalised, z = x * h + d the
// partial dividend with x < y
pub open spec fn kd_inv(h: int, y: int, y1: int, y0: int, x: int, d: int, q: int, rh: int) -> bool {
    &&& y == y1 * h + y0 && h <= 2 * y1 && y1 < h && 0 <= y0 < h && h >= 2 && 0 <= x < y && 0 <= d < h
    &&& 0 <= q <= h + 1 && 0 <= rh
    &&& q * y1 + rh == x
    &&& (q + 1) * y > x * h + d
}
proof fn kd_init(h: int, y: int, y1: int, y0: int, x: int, d: int, q: int, rh: int)
    requires y == y1 * h + y0, h <= 2 * y1, y1 < h, 0 <= y0 < h, h >= 2, 0 <= x < y, 0 <= d < h, x == q * y1 + rh, 0 <= rh < y1, 0 <= q
    ensures kd_inv(h, y, y1, y0, x, d, q, rh)
{
    assert(q <= h + 1) by(nonlinear_arith) requires q * y1 <= x, x < y1 * h + y0, y0 < h, h <= 2 * y1, y1 >= 1;
    assert((q + 1) * y1 >= x + 1) by(nonlinear_arith) requires x == q * y1 + rh, rh < y1;
    assert((q + 1) * y > x * h + d) by(nonlinear_arith) requires (q + 1) * y1 >= x + 1, y == y1 * h + y0, y0 >= 0, d < h, h >= 2, q >= 0;
}
// the digit is too large: one less keeps the invariant
proof fn kd_step(h: int, y: int, y1: int, y0: int, x: int, d: int, q: int, rh: int)
    requires kd_inv(h, y, y1, y0, x, d, q, rh), q >= h || q * y0 > rh * h + d
    ensures q >= 1, kd_inv(h, y, y1, y0, x, d, q - 1, rh + y1), q - 1 <= h
{
    assert(q * y == (q * y1) * h + q * y0) by(nonlinear_arith) requires y == y1 * h + y0;
    assert((q * y1) * h == x * h - rh * h) by(nonlinear_arith) requires q * y1 + rh == x;
    if q >= h {
        assert(q * y > x * h + d) by(nonlinear_arith) requires q >= h, x + 1 <= y, 0 <= d < h, y > 0, h >= 2;
    }
    assert(q * y > x * h + d);
    assert(q >= 1) by(nonlinear_arith) requires q * y > x * h + d, x >= 0, d >= 0, h >= 2, q >= 0;
    assert((q - 1) * y1 == q * y1 - y1) by(nonlinear_arith);
    assert((q - 1 + 1) * y == q * y);
}
proof fn kd_exit(h: int, y: int, y1: int, y0: int, x: int, d: int, q: int, rh: int)
    requires kd_inv(h, y, y1, y0, x, d, q, rh), (q < h && q * y0 <= rh * h + d) || (rh >= h && q <= h)
    ensures q * y <= x * h + d, x * h + d < q * y + y, q < h, x * h + d - q * y < y
{
    assert(q * y == (q * y1) * h + q * y0) by(nonlinear_arith) requires y == y1 * h + y0;
    assert((q * y1) * h == x * h - rh * h) by(nonlinear_arith) requires q * y1 + rh == x;
    if rh >= h && q <= h {
        assert(q * y0 <= h * (h - 1)) by(nonlinear_arith) requires 0 <= q <= h, 0 <= y0 <= h - 1;
        assert(rh * h >= h * h) by(nonlinear_arith) requires rh >= h, h > 0;
        assert(h * (h - 1) <= h * h) by(nonlinear_arith) requires h > 0;
    }
    assert(q * y <= x * h + d);
    assert((q + 1) * y == q * y + y) by(nonlinear_arith);
    assert(x * h <= (y - 1) * h) by(nonlinear_arith) requires x <= y - 1, h > 0;
    assert((y - 1) * h == y * h - h) by(nonlinear_arith);
    assert(q < h) by(nonlinear_arith) requires q * y < y * h, y > 0;
}
// q * y0 and rh * h + d fit into h * h
proof fn kd_fit(h: int, y0: int, d: int, q: int, rh: int)
    requires 0 <= q < h, 0 <= y0 < h, 0 <= rh < h, 0 <= d < h
    ensures 0 <= q * y0 < h * h, 0 <= rh * h < h * h, rh * h + d < h * h, h <= h * h, 0 <= q * h < h * h
{
    lemma_pair(h, rh, d); lemma_pair(h, rh, 0); lemma_pair(h, q, 0);
    assert(0 <= q * y0 < h * h) by(nonlinear_arith) requires 0 <= q < h, 0 <= y0 < h;
    assert(h <= h * h) by(nonlinear_arith) requires h >= 1;
}
pub open spec fn fits(h: int, w: int) -> bool {
    (forall|a: int, b: int| 0 <= a < h && 0 <= b < h ==> 0 <= #[trigger] (a * b) < w) && (forall|a: int| 0 <= a < h ==> 0 <= #[trigger] (a * h) <= w - h)
}
proof fn kd_fits(h: int, w: int) requires w == h * h, h > 0 ensures fits(h, w)
{
    assert forall|a: int, b: int| 0 <= a < h && 0 <= b < h implies 0 <= #[trigger] (a * b) < w by { assert(0 <= a * b < w) by(nonlinear_arith) requires 0 <= a < h, 0 <= b < h, w == h * h; }
    assert forall|a: int| 0 <= a < h implies 0 <= #[trigger] (a * h) <= w - h by { assert(0 <= a * h <= w - h) by(nonlinear_arith) requires 0 <= a <= h - 1, w == h * h; }
}
// partial remainder in wrapping arithmetic: t = (x % h * h + d) - q*y  (mod W), W = h * h
proof fn kd_rem(h: int, w: int, x: int, d: int, q: int, y: int, a: int, b: int, kb: int, t: int)
    requires w == h * h, h >= 2, 0 <= d < h, a == (x % h) * h + d, 0 <= b < w, b + kb * w == q * y, 0 <= t < w,
        t == a - b || t == a - b + w, q * y <= x * h + d, x * h + d - q * y < w, x >= 0
    ensures t == x * h + d - q * y
{
    ldm(x, h);
    let xh = x / h; let xl = x % h;
    assert(x * h == xh * w + xl * h) by(nonlinear_arith) requires x == xh * h + xl, w == h * h;
    let z = x * h + d - q * y;
    // z == t (mod w), both in 0..w
    let k = if t == a - b { 0int } else { 1int };
    assert(z == t + (xh - kb - k) * w) by(nonlinear_arith) requires z == xh * w + xl * h + d - (b + kb * w), t == xl * h + d - b + k * w;
    let m = xh - kb - k;
    assert(m == 0) by(nonlinear_arith) requires z == t + m * w, 0 <= z < w, 0 <= t < w;
}
// both digits together
proof fn kd_both(h: int, w: int, x: int, d1: int, d0: int, y: int, q1: int, t: int, q0: int, r: int)
    requires w == h * h, t == x * h + d1 - q1 * y, r == t * h + d0 - q0 * y
    ensures x * w + (d1 * h + d0) == (q1 * h + q0) * y + r
{
    assert(x * w + (d1 * h + d0) == (q1 * h + q0) * y + r) by(nonlinear_arith) requires w == h * h, t == x * h + d1 - q1 * y, r == t * h + d0 - q0 * y;
}
// undo the normalisation
proof fn kd_denorm(v: int, y: int, p: int, q: int, r: int, n: int)
    requires v * p == q * (y * p) + r, 0 <= r < y * p, p > 0, n == r / p
    ensures v == q * y + n, 0 <= n < y
{
    ldm(r, p);
    assert(r % p == 0) by {
        let k = v - q * y;
        assert(r == k * p) by(nonlinear_arith) requires v * p == q * (y * p) + r, k == v - q * y;
        lmm(k, p);
    }
    assert(v == q * y + n) by(nonlinear_arith) requires v * p == q * (y * p) + r, r == n * p, p > 0;
    assert(0 <= n < y) by(nonlinear_arith) requires r == n * p, 0 <= r < y * p, p > 0;
}
proof fn kd_norm(w: int, x: int, l: int, y: int, p: int) requires 0 <= x < y, 0 <= l < w, p > 0, w > 0
    ensures (x * w + l) * p < (y * p) * w, 0 <= (x * w + l) * p
{ assert((x * w + l) * p < (y * p) * w) by(nonlinear_arith) requires 0 <= x, x + 1 <= y, 0 <= l < w, p > 0;
  assert(0 <= (x * w + l) * p) by(nonlinear_arith) requires 0 <= x, 0 <= l, w > 0, p > 0; }
proof fn ldivlt(x: int, y: int, w: int) requires 0 <= x, x < y * w, w > 0 ensures x / w < y { ldm(x, w); assert(x / w < y) by(nonlinear_arith) requires x == (x / w) * w + x % w, 0 <= x % w, x < y * w, w > 0; }
// ---- the quotient estimate of the general division
proof fn est_ge(x: int, y: int, w: int, p: int, xs: int, ys: int, q: int)
    requires xs == x * p, ys == y * p, p > 0, w > 0, ys / w > 0, q == (xs / w) / (ys / w), x >= 0, y > 0
    ensures (q + 1) * y > x, q >= 0, q * y < 2 * x || q == 0
{
    ldm(xs, w); ldm(ys, w);
    let xh = xs / w; let yh = ys / w; let xl = xs % w; let yl = ys % w;
    assert(xs >= 0) by(nonlinear_arith) requires xs == x * p, x >= 0, p > 0;
    ldiv0(xs, w);
    ldm(xh, yh); ldiv0(xh, yh);
    let r = xh % yh;
    // (q + 1) * yh >= xh + 1
    assert((q + 1) * yh >= xh + 1) by(nonlinear_arith) requires xh == q * yh + r, r < yh;
    assert((q + 1) * ys > xs) by(nonlinear_arith) requires (q + 1) * yh >= xh + 1, ys == yh * w + yl, yl >= 0, xs == xh * w + xl, xl < w, q >= 0, w > 0;
    assert((q + 1) * y > x) by(nonlinear_arith) requires (q + 1) * ys > xs, xs == x * p, ys == y * p, p > 0;
    if q > 0 {
        // q * ys < q * (yh + 1) * w <= 2 * q * yh * w <= 2 * xh * w <= 2 * xs
        assert(q * ys < q * ((yh + 1) * w)) by(nonlinear_arith) requires q > 0, ys == yh * w + yl, yl < w;
        assert(q * ((yh + 1) * w) <= 2 * ((q * yh) * w)) by(nonlinear_arith) requires q > 0, yh >= 1, w > 0;
        assert((q * yh) * w <= xh * w) by(nonlinear_arith) requires q * yh <= xh, w > 0;
        assert(q * ys < 2 * xs);
        assert(q * y < 2 * x) by(nonlinear_arith) requires q * ys < 2 * xs, xs == x * p, ys == y * p, p > 0;
    }
}
proof fn lqmul(a: int, b: int, y: int) ensures (a - b) * y == a * y - b * y, (a + b) * y == a * y + b * y { assert((a - b) * y == a * y - b * y) by(nonlinear_arith); assert((a + b) * y == a * y + b * y) by(nonlinear_arith); }
proof fn lmon(a: int, b: int, y: int) requires a <= b, y >= 0 ensures a * y <= b * y { assert(a * y <= b * y) by(nonlinear_arith) requires a <= b, y >= 0; }
proof fn lpos(q: int, y: int, x: int) requires q * y <= x, x < (q + 1) * y, y > 0, x >= 0 ensures q >= 0 { assert(q >= 0) by(nonlinear_arith) requires x < (q + 1) * y, y > 0, x >= 0; }
proof fn lle(q: int, y: int, x: int) requires q * y <= x, y > 0, q >= 0 ensures q <= x { assert(q <= x) by(nonlinear_arith) requires q * y <= x, y > 0, q >= 0; }

// third branch of N / S
proof fn dr3(w: int, h: int, l: int, y: int, qh: int, rh: int, ql: int, rem: int)
    requires h == qh * y + rh, rh * w + l == ql * y + rem
    ensures h * w + l == (qh * w + ql) * y + rem
{ assert(h * w + l == (qh * w + ql) * y + rem) by(nonlinear_arith) requires h == qh * y + rh, rh * w + l == ql * y + rem; }
proof fn dn_less(w: int, h: int, l: int, rh: int, rl: int) requires h < rh, 0 <= l < w, 0 <= rl, w > 0 ensures h * w + l < rh * w + rl
{ assert(h * w + l < rh * w + rl) by(nonlinear_arith) requires h + 1 <= rh, 0 <= l < w, 0 <= rl, w > 0; }
proof fn dn_shift(w: int, h: int, l: int, rh: int, rl: int, s: nat, n: nat)
    requires w == pow2(n), lzs(h, s as int, n as int), h > 0, 0 < rh <= h, 0 <= l < w, 0 <= rl < w
    ensures s < n, pow2(s) > 0, 0 <= (h * w + l) * pow2(s) < w * w, 0 <= (rh * w + rl) * pow2(s) < w * w, ((rh * w + rl) * pow2(s)) / w > 0
{
    ls(s, n);
    let p = pow2(s) as int; let q = pow2((n - s) as nat) as int;
    assert(0 <= (h * w + l) * p < w * w) by(nonlinear_arith) requires 0 < h <= q - 1, 0 <= l < w, p * q == w, p > 0, w > 0;
    assert(w <= (rh * w + rl) * p < w * w) by(nonlinear_arith) requires 0 < rh <= q - 1, 0 <= rl < w, p * q == w, p > 0, w > 0;
    let z = (rh * w + rl) * p;
    ldm(z, w);
    assert(z / w > 0) by(nonlinear_arith) requires z == (z / w) * w + z % w, z >= w, z % w < w, w > 0;
}
// estimate * y exceeds the word
proof fn dn_k(p: int, k: int, t: int, z: int, x: int) requires z == k * p + t, 0 <= t < p, z >= p, z < 2 * x, x < p ensures z == p + t
{ assert(k == 1) by(nonlinear_arith) requires z == k * p + t, 0 <= t < p, z >= p, z < 2 * p, p > 0; }
proof fn dn_fix(x: int, y: int, q: int, d: int, n: int, r: int)
    requires d == q * y - x, d > 0, x >= 0, y > 0, d == n * y + r, 0 <= r < y, q >= 0
    ensures ({ let m = if r == 0 { n } else { n + 1 }; 0 <= m <= q && (q - m) * y <= x && x < (q - m) * y + y && m * y >= d }), n >= 0, n + r <= d
{
    assert(n >= 0) by(nonlinear_arith) requires d == n * y + r, r < y, y > 0, d > 0;
    assert(n * y >= n) by(nonlinear_arith) requires n >= 0, y >= 1;
    let m = if r == 0 { n } else { n + 1 };
    lqmul(n, 1, y); lqmul(q, m, y);
    assert(m <= q) by(nonlinear_arith) requires m * y < d + y, d <= q * y, y > 0;
}
pub open spec fn icmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub trait DivRem<R = Self>: Sized {
    type Output;
    spec fn dr_req(self, rhs: R) -> bool;
    fn div_rem(self, rhs: R) -> (r: Self::Output) requires self.dr_req(rhs);
}
pub assume_specification [u128::leading_zeros] (a: u128) -> (r: u32) ensures lzs(a as int, r as int, 128);
pub assume_specification [u128::overflowing_mul] (a: u128, b: u128) -> (r: (u128, bool)) ensures r.0 as int == (a * b) % B(), r.1 == (a * b >= B());

proof fn lshr128(x: u128, s: u32) requires s < 128 ensures (x >> s) as int == x as int / pow2(s as nat) as int { vstd::bits::lemma_u128_shr_is_div(x, s as u128); lemma_pow2_pos(s as nat); assert(x >> s == x >> (s as u128)) by(bit_vector) requires s < 128; }
proof fn lshlmul(x: u128, s: u128) requires s < 128, x * pow2(s as nat) < B() ensures x << s == x * pow2(s as nat) decreases s
{
    lp(); lb();
    if s == 0 { assert(x << s == x) by(bit_vector) requires s == 0; assert(x * 1 == x); }
    else {
        let t = (s - 1) as u128; assert(s as nat == 1 + t as nat);
        lemma_pow2_adds(1, t as nat); lemma_pow2_pos(t as nat);
        let p = pow2(t as nat) as int;
        assert(2 * (x * p) == x * pow2(s as nat)) by(nonlinear_arith) requires pow2(s as nat) == 2 * p;
        lmul0(x as int, p);
        lshlmul(x, t);
        assert(x << s == mul(x << t, 2)) by(bit_vector) requires 0 < s < 128, t == s - 1;
    }
}
proof fn lshl128(x: u128, s: u32) requires s < 128 ensures (x << s) as int == (x as int * pow2(s as nat) as int) % B()
{
    lp(); lb();
    if s == 0 { assert(x << s == x) by(bit_vector) requires s == 0; lmod(x as int * 1, B(), 0, x as int); }
    else {
        let t = (128 - s) as u32;
        let hi = x >> t;
        lshr128(x, t);
        ls(s as nat, 128);
        let p = pow2(s as nat) as int; let q = pow2(t as nat) as int;
        lshl(x as int, p, q, B());
        ldm(x as int, q);
        let lo = (x as int % q) as u128;
        assert(hi as int * q <= x);
        lshlmul(hi, t as u128);
        assert(hi << t == hi << (t as u128)) by(bit_vector) requires t < 128;
        assert(lo == x - (hi << t));
        assert(lo as int * p < B()) by(nonlinear_arith) requires lo as int == x as int % q, 0 <= x as int % q < q, B() == p * q, p > 0;
        lshlmul(lo, s as u128);
        assert(lo << s == lo << (s as u128)) by(bit_vector) requires s < 128;
        assert(x << s == lo << s) by(bit_vector) requires lo == sub(x, hi << t), hi == x >> t, t == 128 - s, 0 < s < 128;
    }
}
proof fn lor128(a: u128, b: u128) ensures orp(a as int, b as int, (a | b) as int, 128)
{
    lp(); lb();
    assert forall|s: nat| s <= 128 && a as int % (#[trigger] pow2(s) as int) == 0 && b < pow2(s) implies (a | b) == a + b by {
        if s == 128 { lmod0(a as int, B()); assert(a == 0); assert(0u128 | b == b) by(bit_vector); }
        else {
            let k = s as u32; let p = pow2(s) as int;
            lemma_pow2_pos(s);
            lshr128(a, k); lshr128(b, k);
            lmod0(b as int, p);
            ldm(a as int, p);
            let g = a >> k;
            lshlmul(g, k as u128);
            assert(g << k == g << (k as u128)) by(bit_vector) requires k < 128;
            assert(a == g << k);
            assert(a | b == add(a, b) && a <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff - b) by(bit_vector) requires a == g << k, g == a >> k, b >> k == 0, k < 128;
        }
    }
}
"""


def imp(head, out, body, req=None):
    """impl <head> { type Output = out; body } together with the vstd spec impl (precondition)"""
    m = re.match(r"impl(<[^>]*>)?\s+(\w+)(<.*?>)?\s+for\s+(.*)$", head)
    g, tr, arg, ty = m.group(1) or "", m.group(2), m.group(3) or "", m.group(4)
    n = re.sub(r"(?<!^)(?=[A-Z])", "_", tr).lower()
    n = {"bit_or": "bitor"}.get(n, n)
    rhs = arg[1:-1] if arg else ty
    asg = n.endswith("_assign")
    s = ""
    if tr != "DivRem":
        sr = "<%s>" % rhs
        s += "impl%s %sSpecImpl%s for %s {\n open spec fn obeys_%s_spec() -> bool { false }\n" % (g, tr, sr, ty, n)
        s += " open spec fn %s_req(%sself, rhs: %s) -> bool { %s }\n" % (n, "&" if asg else "", rhs, req or "true")
        s += " open spec fn %s_spec(%sself, rhs: %s) -> %s { arbitrary() }\n}\n" % (n, "&" if asg else "", rhs, "&" + ty if asg else out)
    s += head + " {\n" + ("" if asg else "type Output = %s;\n" % out)
    if tr == "DivRem":
        s += "open spec fn dr_req(self, rhs: %s) -> bool { %s }\n" % (rhs, req or "true")
    return s + body + "}\n"


P_OF = {"U128": ("B()", 128), "U256": ("B2()", 256), "U512": ("B4()", 512)}


def order(T, derived):
    return (r"""
impl PartialOrdSpecImpl for @T { open spec fn obeys_partial_cmp_spec() -> bool { true }
 open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(icmp(self.v(), o.v())) } }
impl PartialOrd for @T { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
impl OrdSpecImpl for @T { open spec fn obeys_cmp_spec() -> bool { true }
 open spec fn cmp_spec(&self, o: &Self) -> Ordering { icmp(self.v(), o.v()) } }
impl Ord for @T { #[verifier::external_body] fn cmp(&self, o: &Self) -> Ordering { unimplemented!() } }
""").replace("@T", T)


def common(X, T, path, hdr, G):
    """HiLo methods, leading_zeros, decr, incr, shifts helpers"""
    P, NB = P_OF[T]
    d = lambda n, **k: X.fn(UT, n, subst=G + [(r"\*self (<<|>>) shift", r"(*self) \1 shift")], **k)
    msb = d("msb", spec="    requires self.v() > 0\n    ensures r < %d, pow2(r as nat) <= self.v() < pow2((r + 1) as nat)" % NB)
    L = "proof { lp(); self.vb(); ls(shift as nat, %d); let p = pow2(shift as nat) as int; let q = pow2((%d - shift) as nat) as int; " % (NB, NB)
    out = [msb]
    out.append(d("widening_shl", spec="    requires shift < %d\n    ensures r.0.v() + r.1.v() * %s == self.v() * pow2(shift as nat), r.1.v() < pow2(shift as nat)" % (NB, P),
                 at={0: L + "Self::consts(); lshl(self.v(), p, q, %s); if shift == 0 { assert(self.v() * 1 == self.v()); lmod0(self.v(), %s); assert(0 * %s == 0) by(nonlinear_arith); } }" % (P, P, P)}))
    out.append(d("carrying_shl", spec="    requires 0 < shift < %d, carry.v() < pow2(shift as nat)\n    ensures r.0.v() + r.1.v() * %s == self.v() * pow2(shift as nat) + carry.v()" % (NB, P),
                 at={0: L + "carry.vb(); lshl(self.v(), p, q, %s); }" % P}))
    out.append(d("widening_shr", spec="    requires shift < %d\n    ensures r.0.v() == self.v() / (pow2(shift as nat) as int), r.1.v() == (self.v() %% (pow2(shift as nat) as int)) * pow2((%d - shift) as nat)" % (NB, NB),
                 at={0: L + "Self::consts(); assert(p * q == q * p) by(nonlinear_arith); lshl(self.v(), q, p, %s); if shift == 0 { lmod(self.v(), 1, self.v(), 0); assert(0 * q == 0) by(nonlinear_arith); } }" % P}))
    out.append(d("carrying_shr", spec="    requires 0 < shift < %d, carry.v() %% (pow2((%d - shift) as nat) as int) == 0\n    ensures r.0.v() == carry.v() + self.v() / (pow2(shift as nat) as int)" % (NB, NB),
                 at={0: L + "carry.vb(); assert(p * q == q * p) by(nonlinear_arith); llt(self.v(), q, p); }"}))
    return out


def u128(X):
    P, NB = "B()", 128
    out = ["impl U128 {\npub const BITS: u32 = 128;\n"]
    f = lambda n, h, **k: X.fn(U1, n, header=h, **k)
    hl = r"impl HiLo for U128"
    out.append(f("from_hi_lo", hl, sig="fn from_hi_lo(hi: u64, lo: u64) -> (r: Self)", spec="    ensures r.v() == hi * 0x1_0000_0000_0000_0000 + lo",
                 subst=[(r"u128::from\((\w+)\)", r"(\1 as u128)")],
                 at={0: "proof { let a = hi as u128; let b = lo as u128; assert((a << 64) | b == add(mul(a, 0x1_0000_0000_0000_0000), b) && a <= 0xffff_ffff_ffff_ffff && b <= 0xffff_ffff_ffff_ffff) by(bit_vector) requires a <= 0xffff_ffff_ffff_ffff, b <= 0xffff_ffff_ffff_ffff; }"}))
    for n, op in (("hi_t", "/"), ("lo_t", "%")):
        out.append(f(n, hl, sig="fn %s(&self) -> (r: u64)" % n, spec="    ensures r as int == self.v() %s 0x1_0000_0000_0000_0000" % op))
    for n, op in (("hi", "/"), ("lo", "%")):
        out.append(f(n, hl, spec="    ensures r.v() == self.v() %s 0x1_0000_0000_0000_0000" % op))
    im = r"impl BigUInt for U128"
    out.append(f("leading_zeros", im, spec="    ensures lzs(self.v(), r as int, 128)"))
    out.append(f("is_odd", im, spec="    ensures r == (self.v() % 2 == 1)", at={0: "proof { let x = self.0; assert((x & 1) == x % 2) by(bit_vector); }"}))
    out.append(f("incr", im, spec="    ensures final(self).v() == old(self).v() + 1 || (final(self).v() == 0 && old(self).v() == B() - 1)", at={0: "proof { lb(); }"}))
    out.append(f("decr", im, spec="    ensures old(self).v() > 0 ==> final(self).v() == old(self).v() - 1", at={0: "proof { lb(); }"}))
    out.append(f("overflowing_mul", im, spec="    ensures r.0.v() == (self.v() * rhs.v()) % B(), r.1 == (self.v() * rhs.v() >= B())"))
    out += common(X, "U128", U1, im, [])
    out.append(X.fn(UT, "wrapping_mul", ret="r", spec="    ensures exists|k: int| r.v() + #[trigger] (k * B()) == self.v() * rhs.v()"))
    out.append("}\n")
    out.append(order("U128", None))
    # operators generated by macros
    arm2, arm3 = "(impl $imp:ident, $method:ident, $wrapper:ident)", "(impl $imp:ident, $method:ident, $wrapper:ident, $rhs:ident)"
    def wrap(tr, m, op, spec, req, pre="", rhs=None, ref=False):
        v = X.expand(U1, "wrap_bin_op", arm3 if rhs else arm2, "wrap_bin_op!(impl %s, %s, U128%s);" % (tr, m, ", " + rhs if rhs else ""),
                     {"imp": tr, "method": m, "wrapper": "U128", "rhs": rhs or ""})
        sub = [(r"self\.0\.%s\((rhs\.0|rhs)\)" % m, r"self.0 %s \1" % op)]
        hd = "impl %s%s for U128" % (tr, "<%s>" % rhs if rhs else "")
        out.append(imp(hd, "U128", X.fn(v, m, header="^" + re.escape(hd) + "$", subst=sub, sig="fn %s(self, rhs: %s) -> (r: U128)" % (m, rhs or "U128"),
                       spec="    ensures " + spec, at={0: pre} if pre else None), req))
    S = "self.v() %s rhs.v()"
    wrap("Add", "add", "+", "r.v() == self.v() + rhs.v()", "self.v() + rhs.v() < B()", "proof { lb(); }")
    wrap("Sub", "sub", "-", "r.v() == self.v() - rhs.v()", "self.v() >= rhs.v()", "proof { lb(); }")
    wrap("Mul", "mul", "*", "r.v() == self.v() * rhs.v()", "self.v() * rhs.v() < B()", "proof { lb(); lmul0(self.v(), rhs.v()); }")
    wrap("Div", "div", "/", "r.v() == self.v() / rhs.v()", "rhs.v() > 0")
    wrap("Rem", "rem", "%", "r.v() == self.v() % rhs.v()", "rhs.v() > 0")
    wrap("BitOr", "bitor", "|", "orp(self.v(), rhs.v(), r.v(), 128)", "true", "proof { lor128(self.0, rhs.0); }")
    wrap("Shl", "shl", "<<", "r.v() == (self.v() * pow2(rhs as nat)) % B()", "rhs < 128", "proof { lshl128(self.0, rhs); }", rhs="u32")
    wrap("Shr", "shr", ">>", "r.v() == self.v() / (pow2(rhs as nat) as int)", "rhs < 128", "proof { lshr128(self.0, rhs); }", rhs="u32")
    # op-assign
    def wrapa(tr, m, op, spec, req, pre, rhs=None):
        if rhs:
            v = X.expand(U1, "wrap_op_assign", "(impl $imp:ident, $method:ident, $wrapper:ident, $rhs:ident)", "wrap_op_assign!(impl %s, %s, U128, %s);" % (tr, m, rhs),
                         {"imp": tr, "method": m, "wrapper": "U128", "rhs": rhs})
            hd, hx = "impl %s<%s> for U128" % (tr, rhs), "impl<'a> %s<%s> for U128" % (tr, rhs)
        else:
            v = X.expand(U1, "wrap_op_assign", arm2, "wrap_op_assign!(impl %s, %s, U128);" % (tr, m), {"imp": tr, "method": m, "wrapper": "U128"})
            hd, hx = "impl<'a> %s<&'a U128> for U128" % tr, "impl<'a> %s<&'a Self> for U128" % tr
        out.append(imp(hd, "U128", X.fn(v, m, header="^" + re.escape(hx) + "$", subst=[(r"self\.0\.%s\((rhs\.0|rhs)\);" % m, r"self.0 = self.0 %s \1;" % op)],
                       sig="fn %s(&mut self, rhs: %s)" % (m, rhs or "&'a U128"), spec="    ensures " + spec, at={0: pre}), req))
    wrapa("AddAssign", "add_assign", "+", "final(self).v() == old(self).v() + rhs.v()", "self.v() + rhs.v() < B()", "proof { lb(); }")
    wrapa("SubAssign", "sub_assign", "-", "final(self).v() == old(self).v() - rhs.v()", "self.v() >= rhs.v()", "proof { lb(); }")
    wrapa("ShrAssign", "shr_assign", ">>", "final(self).v() == old(self).v() / (pow2(rhs as nat) as int)", "rhs < 128", "proof { lshr128(self.0, rhs); }", rhs="u32")
    DRE = "    ensures self.v() == r.0.v() * rhs.v() + r.1.v(), 0 <= r.1.v() < rhs.v(), r.0.v() == self.v() / rhs.v(), r.1.v() == self.v() % rhs.v()"
    out.append(imp("impl DivRem for U128", "(U128, U128)", X.fn(U1, "div_rem", header=r"^impl DivRem for U128$", sig="fn div_rem(self, rhs: Self) -> (r: Self::Output)",
               spec=DRE, subst=[(r"u128::from\(rhs\)", "rhs.0")], at={0: "proof { ldm(self.v(), rhs.v()); }"}), "rhs.v() > 0"))
    return out


DRE = "    ensures self.v() == r.0.v() * rhs.v() + r.1.v(), 0 <= r.1.v() < rhs.v(), r.0.v() == self.v() / rhs.v(), r.1.v() == self.v() % rhs.v()"


def level(X, N, S):
    P, NB = P_OF[N]
    w, SB = P_OF[S]
    G = [(r"<SubUInt as BigUInt>::", S + "::"), (r"\bUInt::<SubUInt>", N), (r"<UInt<SubUInt> as BigUInt>", N), (r"\bUInt<SubUInt>", N), (r"\bSubUInt::", S + "::"), (r"\bSubUInt\b", S)]
    fnd = lambda path, n, h, sub=(), **k: X.fn(path, n, header=h, subst=list(sub) + G, **k)
    L0 = "lp(); lw(); self.vb(); self.hi.vb(); self.lo.vb(); "
    out = ["impl %s {\npub const BITS: u32 = %d;\n" % (N, NB)]
    hl = r"impl<SubUInt> HiLo for UInt<SubUInt>"
    out.append(fnd(UG, "from_hi_lo", hl, spec="    ensures r.hi == hi, r.lo == lo, r.v() == hi.v() * %s + lo.v()" % w))
    out.append(fnd(UG, "hi_t", hl, spec="    ensures r == self.hi, r.v() == self.v() / %s" % w, at={0: "proof { self.hi.vb(); self.lo.vb(); lmod(self.v(), %s, self.hi.v(), self.lo.v()); }" % w}))
    out.append(fnd(UG, "lo_t", hl, spec="    ensures r == self.lo, r.v() == self.v() %% %s" % w, at={0: "proof { self.hi.vb(); self.lo.vb(); lmod(self.v(), %s, self.hi.v(), self.lo.v()); }" % w}))
    Z = "proof { %s::consts(); assert(0 * %s == 0) by(nonlinear_arith); self.hi.vb(); self.lo.vb(); lmod(self.v(), %s, self.hi.v(), self.lo.v()); }" % (S, w, w)
    out.append(fnd(UG, "hi", hl, spec="    ensures r.v() == self.v() / %s, r.v() == self.hi.v()" % w, at={0: Z}))
    out.append(fnd(UG, "lo", hl, spec="    ensures r.v() == self.v() %% %s, r.v() == self.lo.v()" % w, at={0: Z}))
    out.append(fnd(UG, "leading_zeros", IMPL, spec="    ensures lzs(self.v(), r as int, %d)" % NB,
                   at={0: "proof { %s self.vb(); let z = self.hi.v() == 0; %s }" % (L0, "") }, subst2=None) if False else
               X.fn(UG, "leading_zeros", header=IMPL, subst=G + [(r"self\.hi\.is_zero\(\) as u32 \* self\.lo\.leading_zeros\(\)", "bmul(self.hi.is_zero(), self.lo.leading_zeros())")],
                    spec="    ensures lzs(self.v(), r as int, %d)" % NB,
                    at={0: "proof { " + L0 + "if self.hi.v() == 0 { assert forall|a: int| lzs(self.lo.v(), a, %d) implies #[trigger] lzs(self.v(), a + %d, %d) by { llz(%s, 0, self.lo.v(), %d, a + %d); } } "
                        "else { assert forall|a: int| lzs(self.hi.v(), a, %d) implies #[trigger] lzs(self.v(), a, %d) by { llz(%s, self.hi.v(), self.lo.v(), %d, a); } } }"
                        % (SB, SB, NB, w, SB, SB, SB, NB, w, SB)}))
    out.append(fnd(UG, "incr", IMPL, spec="    ensures final(self).v() == old(self).v() + 1 || (final(self).v() == 0 && old(self).v() == %s - 1)" % P,
                   at={0: "proof { lw(); %s::consts(); self.hi.vb(); self.lo.vb(); }" % S,
                       "end": "proof { lw(); self.hi.vb(); self.lo.vb(); let h = old(self).hi.v(); assert((h + 1) * %s == h * %s + %s) by(nonlinear_arith); assert((%s - 1) * %s == %s * %s - %s) by(nonlinear_arith); assert(0 * %s == 0) by(nonlinear_arith); }" % (w, w, w, w, w, w, w, w, w)}))
    out.append(fnd(UG, "decr", IMPL, spec="    ensures old(self).v() > 0 ==> final(self).v() == old(self).v() - 1",
                   at={0: "proof { lw(); %s::consts(); self.hi.vb(); self.lo.vb(); }" % S,
                       "end": "proof { lw(); self.hi.vb(); self.lo.vb(); let h = old(self).hi.v(); assert((h - 1) * %s == h * %s - %s) by(nonlinear_arith); assert(0 * %s == 0) by(nonlinear_arith); }" % (w, w, w, w)}))
    out.append(fnd(UG, "overflowing_mul", IMPL, ghosts=True, spec="    ensures r.0.v() == (self.v() * rhs.v()) %% %s, r.1 == (self.v() * rhs.v() >= %s)" % (P, P),
                   at={-1: "proof { lw(); self.hi.vb(); self.lo.vb(); rhs.hi.vb(); rhs.lo.vb(); lo_1.vb(); carry_1.vb(); hi_1.vb(); o1_1.vb(); hi_2.vb(); o2_1.vb(); "
                           "lom(%s, self.hi.v(), self.lo.v(), rhs.hi.v(), rhs.lo.v(), lo_1.v(), carry_1.v(), hi_1.v(), o1_1.v(), hi_2.v(), o2_1.v()); }" % w}))
    out += common(X, N, UG, IMPL, G)
    out.append(X.fn(UT, "wrapping_mul", ret="r", spec="    ensures exists|k: int| r.v() + #[trigger] (k * %s) == self.v() * rhs.v()" % P))
    out.append("}\n")
    st = open(os.path.join(X.repo, UG)).read()
    if not re.search(r"derive\([^)]*\bOrd\b[^)]*\bPartialOrd\b[^)]*\)\]\s*pub\(crate\) struct UInt<SubUInt>[^{]*\{\s*pub\(crate\) hi: SubUInt,\s*pub\(crate\) lo: SubUInt,\s*\}", st):
        raise X.Lost("UInt: derived order")
    out.append(order(N, None))
    # ---- operators
    add, mul, shl, shr, sub, bor, dr = (OPS + x + ".rs" for x in ("add", "mul", "shl", "shr", "sub", "bitor", "divrem"))
    o = lambda head, body, req, O=N: out.append(imp(head, O, body, req))
    o("impl<'a> BitOr<&'a %s> for &'a %s" % (N, N), fnd(bor, "bitor", r"BitOr for &'a UInt", sig="fn bitor(self, rhs: &'a %s) -> (r: %s)" % (N, N), ghosts=False,
      sub=[(r"UInt::<SubUInt> \{", N + " {")],
      spec="    ensures orp(self.v(), rhs.v(), r.v(), %d)" % NB, at={0:
      ("proof { lp(); lw(); self.vb(); rhs.vb(); self.hi.vb(); self.lo.vb(); rhs.hi.vb(); rhs.lo.vb();"
       "assert forall|s: nat, x: int, y: int| s <= @NB && self.v() % (pow2(s) as int) == 0 && rhs.v() < pow2(s) && #[trigger] orp(self.hi.v(), rhs.hi.v(), x, @SB) && #[trigger] orp(self.lo.v(), rhs.lo.v(), y, @SB) && #[trigger] pow2(s) > 0"
       " implies x * @W + y == self.v() + rhs.v() by {\n"
       "lemma_pow2_pos(s); ldm(self.v(), pow2(s) as int); let k = self.v() / (pow2(s) as int);\n"
       "if s <= @SB { ls(s, @SB); lor_lo(@W, self.hi.v(), self.lo.v(), pow2(s) as int, pow2((@SB - s) as nat) as int); assert(pow2(0) == 1); \n"
       " if rhs.hi.v() > 0 { lmon(1, rhs.hi.v(), @W); assert(false); } assert(rhs.hi.v() == 0); assert(0 * @W == 0) by(nonlinear_arith); assert(self.hi.v() % 1 == 0); assert(x == self.hi.v()); assert(y == self.lo.v() + rhs.lo.v()); lqmul(x, 0, @W); }\n"
       "else { let t = (s - @SB) as nat; lemma_pow2_adds(t, @SB); let p = pow2(t) as int; lemma_pow2_pos(t); lor_hi(@W, self.hi.v(), self.lo.v(), p, k); lemma_pow2_pos(@SB); lmod0(0, @W); assert(0 * @W == 0) by(nonlinear_arith);\n"
       " assert(pow2(@SB) == @W); assert(y == 0 + rhs.lo.v()); ldivlt(rhs.v(), p, @W); lmod(rhs.v(), @W, rhs.hi.v(), rhs.lo.v()); assert(x == self.hi.v() + rhs.hi.v()); lqmul(self.hi.v(), rhs.hi.v(), @W); }\n } }\n"
       ).replace("@NB", str(NB)).replace("@SB", str(SB)).replace("@W", w)}), "true")
    o("impl BitOr for %s" % N, fnd(bor, "bitor", r"BitOr for UInt", sig="fn bitor(self, rhs: %s) -> (r: %s)" % (N, N), sub=[(r"&self \| &rhs", "(&self).bitor(&rhs)")],
      spec="    ensures orp(self.v(), rhs.v(), r.v(), %d)" % NB), "true")
    SHL = "    ensures r.v() == (self.v() * pow2(shift as nat)) %% %s" % P
    SHR = "    ensures r.v() == self.v() / (pow2(shift as nat) as int)"
    pre = ("proof { lp(); lw(); self.vb(); self.hi.vb(); self.lo.vb(); %s::consts(); let sh = shift as nat; " % S)
    o("impl<'a> Shl<u32> for &'a %s" % N, fnd(shl, "shl", r"Shl<u32> for &UInt", sig="fn shl(self, shift: u32) -> (r: %s)" % N,
      sub=[(r"shift -= SubUInt::BITS", "let shift = shift - SubUInt::BITS"), (r"let \(hi, _\)", "let (hi, vt_d)"),
           (r"(UInt::<SubUInt>::from_hi_lo\(hi, lo\))", r"proof { hi.vb(); lo.vb(); lshl2(%s, self.hi.v(), self.lo.v(), pow2(shift as nat) as int, hi.v(), vt_d.v(), lo.v(), carry.v()); } \1" % w)], spec=SHL, at={0: pre + (
      "if sh == 0 { assert(self.v() * 1 == self.v()); lmod0(self.v(), @P); }\n"
      "else if sh >= @SB { let t = (sh - @SB) as nat; lemma_pow2_adds(t, @SB); lemma_pow2_pos(t); lshl3(@W, self.hi.v(), self.lo.v(), pow2(t) as int, (self.lo.v() * pow2(t)) % @W); if t == 0 { assert(self.lo.v() * 1 == self.lo.v()); lmod0(self.lo.v(), @W); } } }"
      ).replace("@SB", str(SB)).replace("@W", w).replace("@P", P)}), "rhs < %d" % NB)
    o("impl Shl<u32> for %s" % N, fnd(shl, "shl", r"Shl<u32> for UInt", sig="fn shl(self, shift: u32) -> (r: %s)" % N, sub=[(r"&self << shift", "(&self).shl(shift)")], spec=SHL), "rhs < %d" % NB)
    o("impl ShlAssign<u32> for %s" % N, fnd(shl, "shl_assign", r"ShlAssign<u32> for UInt", sig="fn shl_assign(&mut self, rhs: u32)", sub=[(r"&\(\*self\) << rhs", "(&(*self)).shl(rhs)")],
      spec="    ensures final(self).v() == (old(self).v() * pow2(rhs as nat)) %% %s" % P), "rhs < %d" % NB)
    o("impl<'a> Shr<u32> for &'a %s" % N, fnd(shr, "shr", r"Shr<u32> for &UInt", sig="fn shr(self, shift: u32) -> (r: %s)" % N,
      sub=[(r"shift -= SubUInt::BITS", "let shift = shift - SubUInt::BITS")], spec=SHR, at={0: pre + (
      "if sh == 0 { lmod(self.v(), 1, self.v(), 0); }\n"
      "else if sh < @SB { ls(sh, @SB); lshr2(@W, self.hi.v(), self.lo.v(), pow2(sh) as int, pow2((@SB - sh) as nat) as int); }\n"
      "else { let t = (sh - @SB) as nat; lemma_pow2_adds(t, @SB); lemma_pow2_pos(t); lshr3(@W, self.hi.v(), self.lo.v(), pow2(t) as int); assert(0 * @W == 0) by(nonlinear_arith); if t == 0 { lmod(self.hi.v(), 1, self.hi.v(), 0); } } }"
      ).replace("@SB", str(SB)).replace("@W", w).replace("@P", P)}), "rhs < %d" % NB)
    o("impl Shr<u32> for %s" % N, fnd(shr, "shr", r"Shr<u32> for UInt", sig="fn shr(self, shift: u32) -> (r: %s)" % N, spec=SHR), "rhs < %d" % NB)
    o("impl ShrAssign<u32> for %s" % N, fnd(shr, "shr_assign", r"ShrAssign<u32>", sig="fn shr_assign(&mut self, rhs: u32)", sub=[(r"&\(\*self\) >> rhs", "(&(*self)).shr(rhs)")],
      spec="    ensures final(self).v() == old(self).v() / (pow2(rhs as nat) as int)"), "rhs < %d" % NB)
    AS = "    ensures r.v() == self.v() + rhs.v()"
    o("impl<'a> Add<&'a %s> for &'a %s" % (N, N), fnd(add, "add", r"Add for &'a UInt", sig="fn add(self, rhs: &'a %s) -> (r: %s)" % (N, N), spec=AS, ghosts=True,
      at={1: "proof { sum_1.vb(); self.vb(); rhs.vb(); }"}), "self.v() + rhs.v() < " + P)
    o("impl Add for %s" % N, fnd(add, "add", r"Add for UInt", sig="fn add(self, rhs: %s) -> (r: %s)" % (N, N), sub=[(r"&self \+ &rhs", "(&self).add(&rhs)")], spec=AS), "self.v() + rhs.v() < " + P)
    o("impl<'a> AddAssign<&'a %s> for %s" % (N, N), fnd(add, "add_assign", r"AddAssign<&Self>", sig="fn add_assign(&mut self, rhs: &'a %s)" % N, sub=[(r"&\(\*self\) \+ rhs", "(&(*self)).add(rhs)")],
      spec="    ensures final(self).v() == old(self).v() + rhs.v()"), "self.v() + rhs.v() < " + P)
    SS = "    ensures r.v() == self.v() - rhs.v()"
    o("impl<'a> Sub<&'a %s> for &'a %s" % (N, N), fnd(sub, "sub", r"Sub for &UInt", sig="fn sub(self, rhs: &'a %s) -> (r: %s)" % (N, N), spec=SS, ghosts=True,
      at={1: "proof { diff_1.vb(); self.vb(); rhs.vb(); }"}), "self.v() >= rhs.v()")
    o("impl<'a> SubAssign<&'a %s> for %s" % (N, N), fnd(sub, "sub_assign", r"SubAssign<&Self>", sig="fn sub_assign(&mut self, rhs: &'a %s)" % N, sub=[(r"&\(\*self\) - rhs", "(&(*self)).sub(rhs)")],
      spec="    ensures final(self).v() == old(self).v() - rhs.v()"), "self.v() >= rhs.v()")
    MS = "    ensures r.v() == self.v() * rhs.v()"
    ml = fnd(mul, "mul", r"Mul for &UInt", sig="fn mul(self, rhs: &'a %s) -> (r: %s)" % (N, N), spec=MS, ghosts=True, at={0:
        ("proof { assert forall|x: %s| 0 <= #[trigger] x.v() < %s by { x.vb(); } }" % (S, w)) + "proof { lw(); self.vb(); rhs.vb(); self.hi.vb(); self.lo.vb(); rhs.hi.vb(); rhs.lo.vb(); %s::consts(); lmn(%s, self.hi.v(), self.lo.v(), rhs.hi.v(), rhs.lo.v());\n"
        "lmod0(self.lo.v() * rhs.hi.v(), %s); lmod0(self.hi.v() * rhs.lo.v(), %s); if self.hi.v() == 0 { %s::inj(self.hi, %s::ZERO); } if rhs.hi.v() == 0 { %s::inj(rhs.hi, %s::ZERO); } }" % (S, w, w, w, S, S, S, S),
        2: "proof { lo.vb(); hi.vb(); lqmul(self.lo.v() * rhs.hi.v() + self.hi.v() * rhs.lo.v(), hi_1.v(), %s); let k = self.lo.v() * rhs.hi.v() + self.hi.v() * rhs.lo.v() + hi_1.v(); assert(k * %s < %s * %s ==> k < %s) by(nonlinear_arith) requires %s > 0; }" % (w, w, w, w, w, w),
        3: "proof { assert(t.v() == self.lo.v() * rhs.hi.v()); }",
        -1: "proof { hi.vb(); lo.vb(); }"})
    ml = ml  # assert!s stay: Verus proves them
    o("impl<'a> Mul<&'a %s> for &'a %s" % (N, N), ml, "self.v() * rhs.v() < " + P)
    o("impl Mul for %s" % N, fnd(mul, "mul", r"Mul for UInt", sig="fn mul(self, rhs: %s) -> (r: %s)" % (N, N), spec=MS), "self.v() * rhs.v() < " + P)
    o("impl<'a> MulAssign<&'a %s> for %s" % (N, N), fnd(mul, "mul_assign", r"MulAssign<&Self>", sig="fn mul_assign(&mut self, rhs: &'a %s)" % N, sub=[(r"&\(\*self\) \* rhs", "(&(*self)).mul(rhs)")],
      spec="    ensures final(self).v() == old(self).v() * rhs.v()"), "self.v() * rhs.v() < " + P)
    # ---- division
    h = "(pow2(%d) as int)" % (SB // 2)
    sp = fnd(UG, "div_rem_subuint_special", r"^impl<SubUInt> UInt<SubUInt>", ghosts=True,
             sub=[(r"= self << shift", "= (self).shl(shift)"),
                  (r"let \(mut q1, mut rhat\) = ([^;]*);", r"let (mut q1, mut rhat) = \1;"), (r"let \(mut q0, mut rhat\) = ([^;]*);", r"let (mut q0, mut rhat) = \1;")],
             spec="    requires self.hi.v() < rhs.v()\n" + DRE + ", r.0.hi == %s::ZERO" % S,
             nloops=2,
             loops={0: ("\n invariant_except_break kd_inv(@H, y.v(), y1.v(), y0.v(), x32.v(), x1.v(), q1.v(), rhat.v()), rhat.v() < @H,\n"
                        " invariant fits(@H, @W), @H * @H == @W, two_pow_n.v() == @H, @H >= 2, y.v() < @W, 0 <= x32.v() < y.v(),\n"
                        " ensures kd_inv(@H, y.v(), y1.v(), y0.v(), x32.v(), x1.v(), q1.v(), rhat.v()), (q1.v() < @H && q1.v() * y0.v() <= rhat.v() * @H + x1.v()) || (rhat.v() >= @H && q1.v() <= @H),\n"
                        " decreases q1.v(),\n"),
                    1: ("\n invariant_except_break kd_inv(@H, y.v(), y1.v(), y0.v(), t.v(), x0.v(), q0.v(), rhat.v()), rhat.v() < @H,\n"
                        " invariant fits(@H, @W), @H * @H == @W, two_pow_n.v() == @H, @H >= 2, y.v() < @W, 0 <= t.v() < y.v(),\n"
                        " ensures kd_inv(@H, y.v(), y1.v(), y0.v(), t.v(), x0.v(), q0.v(), rhat.v()), (q0.v() < @H && q0.v() * y0.v() <= rhat.v() * @H + x0.v()) || (rhat.v() >= @H && q0.v() <= @H),\n"
                        " decreases q0.v(),\n")},
             at={0: "proof { lp(); lw(); lb(); rhs.vb(); self.hi.vb(); self.lo.vb(); self.vb(); %s::consts(); ls(@HN, @SB); lemma_pow2_strictly_increases(1, @HN); lmod0(@H, @W); assert(1 * @H == @H); }" % S,
                 ">let x =": """proof {
 x.vb(); let sn = shift as nat; lemma_pow2_pos(sn); let p = pow2(sn) as int; let a = (@SB - 1 - shift) as nat;
 lemma_pow2_adds(sn, a); lemma_pow2_adds(1, (@SB - 1) as nat); lemma_pow2_adds(sn, (@SB - shift) as nat);
 // normalised divisor
 assert(rhs.v() * p >= pow2((@SB - 1) as nat)) by { lmon(pow2(a) as int, rhs.v(), p); assert(pow2(a) * p == p * pow2(a)) by(nonlinear_arith); }
 assert(rhs.v() * p < @W) by { lmon(rhs.v() + 1, pow2((@SB - shift) as nat) as int, p); lqmul(rhs.v(), 1, p); assert(pow2((@SB - shift) as nat) * p == p * pow2((@SB - shift) as nat)) by(nonlinear_arith); }
 lmul0(rhs.v(), p);
 lmod0(rhs.v() * p, @W);
 // normalised dividend
 kd_norm(@W, self.hi.v(), self.lo.v(), rhs.v(), p);
 lmon(rhs.v() * p, @W, @W);
 lmod0(self.v() * p, @P);
 ldivlt(x.v(), rhs.v() * p, @W);
 ldm(x.v(), @W);
}""",
                 ">let y0 =": """let ghost yv = rhs.v() * pow2(shift as nat); proof {
 assert(y.v() == yv); y.vb(); x.lo.vb(); x32.vb();
 ldm(y.v(), @H); ldm(x.lo.v(), @H); llt(y.v(), @H, @H); llt(x.lo.v(), @H, @H); ldiv0(x32.v(), @H);
 lemma_pow2_adds(1, (@HN - 1) as nat); lemma_pow2_adds((@HN - 1) as nat, @HN);
 // highest bit of y1
 let g = pow2((@HN - 1) as nat) as int;
 assert(y1.v() >= g) by(nonlinear_arith) requires y1.v() * @H + y0.v() >= g * @H, y0.v() < @H, @H > 0;
 assert(x.v() == x32.v() * @W + (x1.v() * @H + x0.v()));
 lle(y1.v(), @H, y.v());
}""",
                 "<while\\b[^{]*\\bq1\\b": "proof { kd_fits(@H, @W); kd_init(@H, y.v(), y1.v(), y0.v(), x32.v(), x1.v(), q1.v(), rhat.v()); }",
                 "<let mut t": """proof { kd_exit(@H, y.v(), y1.v(), y0.v(), x32.v(), x1.v(), q1.v(), rhat.v()); }
 let ghost q1y: int = 0;""",
                 ">t =": """proof { t.vb(); let zv = x32.v() * @H + x1.v() - q1.v() * y.v();
 ldm(x32.v(), @H);
 let a = t_1.v(); lemma_pair(@H, x32.v() % @H, x1.v());
 lmod0(x1.v(), @H);
 assert(a == (x32.v() % @H) * @H + x1.v());
 assert forall|b: @S, kb: int| #[trigger] (b.v() + kb * @W) == q1.v() * y.v() && (t.v() == a - b.v() || t.v() == a - b.v() + @W) implies t.v() == zv by {
   b.vb(); kd_rem(@H, @W, x32.v(), x1.v(), q1.v(), y.v(), a, b.v(), kb, t.v()); }
 }""".replace("@SB", str(SB)).replace("@S", S),
                 "<while\\b[^{]*\\bq0\\b": "proof { kd_init(@H, y.v(), y1.v(), y0.v(), t.v(), x0.v(), q0.v(), rhat.v()); }",
                 "<let q =": """proof { kd_exit(@H, y.v(), y1.v(), y0.v(), t.v(), x0.v(), q0.v(), rhat.v());
 lemma_pair(@H, q1.v(), q0.v()); lemma_pair(@H, q1.v(), 0); lmod0(q1.v() * @H, @W); }""",
                 ">r =": """proof { r.vb(); let zv = t.v() * @H + x0.v() - q0.v() * y.v();
 ldm(t.v(), @H);
 let a = r_1.v(); lemma_pair(@H, t.v() % @H, x0.v());
 lmod0(x0.v(), @H);
 assert(a == (t.v() % @H) * @H + x0.v());
 assert forall|b: @S, kb: int| #[trigger] (b.v() + kb * @W) == q0.v() * y.v() && (r.v() == a - b.v() || r.v() == a - b.v() + @W) implies r.v() == zv by {
   b.vb(); kd_rem(@H, @W, t.v(), x0.v(), q0.v(), y.v(), a, b.v(), kb, r.v()); }
 kd_both(@H, @W, x32.v(), x1.v(), x0.v(), y.v(), q1.v(), t.v(), q0.v(), r.v());
 kd_denorm(self.v(), rhs.v(), pow2(shift as nat) as int, q.v(), r.v(), r.v() / (pow2(shift as nat) as int)); lmod(self.v(), rhs.v(), q.v(), r.v() / (pow2(shift as nat) as int));
 }""".replace("@SB", str(SB)).replace("@S", S),
                 -1: "proof { assert(0 * @W == 0) by(nonlinear_arith); }"})
    sp = re.sub(r"(\bq1\.decr\(\);)", r"proof { kd_step(@H, y.v(), y1.v(), y0.v(), x32.v(), x1.v(), q1.v(), rhat.v()); } \1", sp)
    sp = re.sub(r"(\bq0\.decr\(\);)", r"proof { kd_step(@H, y.v(), y1.v(), y0.v(), t.v(), x0.v(), q0.v(), rhat.v()); } \1", sp)
    out.append("impl %s {\n%s}\n" % (N, sp.replace("@HN", str(SB // 2)).replace("@H", h).replace("@W", w).replace("@SB", str(SB)).replace("@P", P)))

    # the three branches of N / S
    dvr = lambda hd, n, h, sig, req, **k: o(hd, fnd(dr, n, h, sig=sig, **k), req, k.pop("O", None) or "(%s, %s)" % (N, S))
    o("impl<'a> DivRem<&'a %s> for &'a %s" % (S, N), fnd(dr, "div_rem", r"^impl<SubUInt> DivRem<&SubUInt> for &UInt<SubUInt>", sig="fn div_rem(self, rhs: &'a %s) -> (r: (%s, %s))" % (S, N, S),
      spec=DRE, at={0: """proof { lw(); self.vb(); self.hi.vb(); self.lo.vb(); rhs.vb(); %s::consts(); assert(0 * @W == 0) by(nonlinear_arith); }""" % S},
      hints=[(r"let \(quot, rem\) = self\.lo\.div_rem\(\*rhs\);", "proof { lmod(self.v(), rhs.v(), quot.v(), rem.v()); }"),
             (r"quot\.hi = quot\.hi % \*rhs;", "let ghost dr_h = quot.hi.v();"),
             (r"quot\.hi = vt\d+_\d+;", "proof { dr3(@W, self.hi.v(), self.lo.v(), rhs.v(), quot.hi.v(), dr_h, quot.lo.v(), rem.v()); lmod(self.v(), rhs.v(), quot.v(), rem.v()); }")]
      ).replace("@W", w), "rhs.v() > 0", "(%s, %s)" % (N, S))
    o("impl DivRem<%s> for %s" % (S, N), fnd(dr, "div_rem", r"^impl<SubUInt> DivRem<SubUInt> for UInt<SubUInt>", sig="fn div_rem(self, rhs: %s) -> (r: (%s, %s))" % (S, N, S), spec=DRE), "rhs.v() > 0", "(%s, %s)" % (N, S))
    o("impl Rem<%s> for %s" % (S, N), fnd(dr, "rem", r"^impl<SubUInt> Rem<SubUInt> for UInt<SubUInt>", sig="fn rem(self, rhs: %s) -> (r: %s)" % (S, S), spec="    ensures r.v() == self.v() % rhs.v()"), "rhs.v() > 0", S)
    o("impl<'a> Rem<&'a %s> for &'a %s" % (S, N), fnd(dr, "rem", r"^impl<SubUInt> Rem<&SubUInt> for &UInt<SubUInt>", sig="fn rem(self, rhs: &'a %s) -> (r: %s)" % (S, S), spec="    ensures r.v() == self.v() % rhs.v()"), "rhs.v() > 0", S)
    # N / N
    DN = DRE + "\n    decreases self.v(), @Dint"
    o("impl DivRem for %s" % N, fnd(dr, "div_rem", r"^impl<SubUInt> DivRem for UInt<SubUInt>", sig="fn div_rem(self, rhs: %s) -> (r: (%s, %s))" % (N, N, N), spec=DN.replace("@D", "1")), "rhs.v() > 0", "(%s, %s)" % (N, N))
    o("impl<'a> DivRem<&'a %s> for &'a %s" % (N, N), fnd(dr, "div_rem", r"^impl<SubUInt> DivRem for &UInt<SubUInt>", sig="fn div_rem(self, rhs: &'a %s) -> (r: (%s, %s))" % (N, N, N), spec=DN.replace("@D", "0"),
      sub=[(r"\(self << nlz\)", "(self.shl(nlz))"), (r"\(rhs << nlz\)", "(rhs.shl(nlz))"), (r"\(&t\)\.cmp\(&self\)", "t.cmp(self)"), (r"self - &t", "(self).sub(&t)"), (r"t\.overflowing_add\(&rhs\)", "t.overflowing_add(rhs)")],
      at={0: """proof { lw(); lp(); self.vb(); self.hi.vb(); self.lo.vb(); rhs.vb(); rhs.hi.vb(); rhs.lo.vb(); @S::consts(); @N::consts(); assert(0 * @W == 0) by(nonlinear_arith);
 assert forall|x: @N| 0 <= #[trigger] x.v() < @P && x.v() / @W == x.hi.v() && x.v() % @W == x.lo.v() by { x.vb(); x.hi.vb(); x.lo.vb(); lmod(x.v(), @W, x.hi.v(), x.lo.v()); }
 if rhs.hi.v() > 0 && rhs.hi.v() > self.hi.v() { dn_less(@W, self.hi.v(), self.lo.v(), rhs.hi.v(), rhs.lo.v()); lmod0(self.v(), rhs.v()); }
 }"""},
      hints=[(r"let nlz = self\.hi\.leading_zeros\(\);", """proof { dn_shift(@W, self.hi.v(), self.lo.v(), rhs.hi.v(), rhs.lo.v(), nlz as nat, @SB); let p = pow2(nlz as nat) as int;
 lmod0(self.v() * p, @P); lmod0(rhs.v() * p, @P);
 est_ge(self.v(), rhs.v(), @W, p, self.v() * p, rhs.v() * p, ((self.v() * p) / @W) / ((rhs.v() * p) / @W)); }"""),
             (r"let \(mut t, ovl\) = rhs\.overflowing_mul\(&quot\);", "let ghost q0 = quot.v(); proof { t.vb(); quot.vb(); ldm(rhs.v() * quot.v(), @P); assert(rhs.v() * quot.v() == quot.v() * rhs.v()) by(nonlinear_arith); lqmul(quot.v(), 1, rhs.v()); lmul0(quot.v(), rhs.v()); if ovl { dn_k(@P, (rhs.v() * quot.v()) / @P, t.v(), rhs.v() * quot.v(), self.v()); } else { lmod0(rhs.v() * quot.v(), @P); } if !ovl && t.v() == self.v() { lmod(self.v(), rhs.v(), quot.v(), 0); } }"),
             (r"let d = t\.wrapping_sub\(self\);", "proof { d.vb(); assert(d.v() == q0 * rhs.v() - self.v()); }"),
             (r"let \(mut n, r\) = d\.div_rem\(\*rhs\);", "proof { n.vb(); dn_fix(self.v(), rhs.v(), q0, d.v(), n.v(), r.v()); }"),
             (r"n\.incr_if\([^;]*\);", "proof { lqmul(q0, n.v(), rhs.v()); assert(quot.v() < @W) by { quot.lo.vb(); } lmod0(n.v(), @W); let a = q0 - n.v(); assert(rhs.v() * a == a * rhs.v()) by(nonlinear_arith); }"),
             (r"let mut d = self - &t;", "proof { lmod0(d.v(), rhs.v()); assert(rhs.v() * 0 == 0); }"),
             (r"(?=let rem = )", "proof { lmod(self.v(), rhs.v(), quot.v(), self.v() - t.v()); }")]
      ).replace("@W", w).replace("@SB", str(SB)).replace("@S", S).replace("@N", N).replace("@P", P), "rhs.v() > 0", "(%s, %s)" % (N, N))
    for a_, b_ in (("", ""), ("&", "&'a ")):
        for tr, m_, op in (("Div", "div", "/"), ("Rem", "rem", "%")):
            hd = "impl%s %s%s for %s%s" % ("<'a>" if a_ else "", tr, "<&'a %s>" % N if a_ else "", b_, N)
            o(hd, fnd(dr, m_, r"^impl<SubUInt> %s for %sUInt<SubUInt>" % (tr, a_), sig="fn %s(self, rhs: %s%s) -> (r: %s)" % (m_, b_, N, N), spec="    ensures r.v() == self.v() %s rhs.v()" % op), "rhs.v() > 0")
    return out


def base(X):
    b = wm.base(X)
    b[0] = b[0].replace("use vstd::prelude::*;", "#![allow(unused_imports, unused_parens)]\nuse vstd::prelude::*;\nuse core::ops::*;\nuse core::cmp::Ordering;\nuse vstd::arithmetic::power2::*;\nuse vstd::arithmetic::div_mod::*;\nuse vstd::std_specs::ops::*;\nuse vstd::std_specs::cmp::*;", 1)
    out = b + ["//@mod ma", LEMMAS, "pub fn bmul(c: bool, x: u32) -> (r: u32) ensures r == if c { x } else { 0 } { c as u32 * x }\n"]
    out += ["//@mod mb"] + u128(X)
    out += ["//@mod mc"] + level(X, "U256", "U128")
    if L512:
        out += ["//@mod md"] + level(X, "U512", "U256")
    return out


def build(X):
    return "\n".join(base(X)) + "\nfn main() {}\n}\n"
