"""f256 multiplication (src/binops/mul.rs: mul_signifs, mul_abs_finite, mul) for
all operands: special cases, and the datum nearest to the exact product (ties to
even significand) for finite, non-zero operands; on top of unit udiv.
X counts units of 2^(2 * -262378)."""
import os, importlib.util
RLIMIT = 150
TIMEOUT = 400
MIN_OBLIGATIONS = 480
_sp = importlib.util.spec_from_file_location("vu_ffma_base", os.path.join(os.path.dirname(os.path.abspath(__file__)), "ffma.py"))
fa = importlib.util.module_from_spec(_sp)
_sp.loader.exec_module(fa)
fr, ud, LIB = fa.fr, fa.ud, fa.LIB
MUL = "src/binops/mul.rs"

# the standard library function, by its documentation
UABS = "pub assume_specification [i32::unsigned_abs] (x: i32) -> (r: u32) ensures r as int == if x < 0 { -(x as int) } else { x as int };\n"

MLEM = r"""
// rounding bits rb stand for the fraction f of the unit 2 * half
pub open spec fn rbok(rb: u32, f: int, half: int) -> bool { (rb > 2) == (f > half) && (rb == 2) == (f == half) }
proof fn lorall()
    ensures forall|b: u32, c: u32, s: u32| b < 4 && c <= 1 && s <= 1 ==> ({ let r = #[trigger] ((b | c) | s); (r > 2) == (b > 2 || (b == 2 && (c == 1 || s == 1))) && (r == 2) == (b == 2 && c == 0 && s == 0) && (r == 0) == (b == 0 && c == 0 && s == 0) && r < 4 }),
        forall|b: u32, s: u32| b < 4 && s <= 1 ==> ({ let r = #[trigger] (b | s); (r > 2) == (b > 2 || (b == 2 && s == 1)) && (r == 2) == (b == 2 && s == 0) && (r == 0) == (b == 0 && s == 0) && r < 4 }),
        forall|b: u32| b < 4 ==> #[trigger] (b << 1) == 2 * b
{
    assert forall|b: u32, c: u32, s: u32| b < 4 && c <= 1 && s <= 1 implies ({ let r = #[trigger] ((b | c) | s); (r > 2) == (b > 2 || (b == 2 && (c == 1 || s == 1))) && (r == 2) == (b == 2 && c == 0 && s == 0) && (r == 0) == (b == 0 && c == 0 && s == 0) && r < 4 })
    by { let r = (b | c) | s; assert((r > 2) == (b > 2 || (b == 2 && (c == 1 || s == 1))) && (r == 2) == (b == 2 && c == 0 && s == 0) && (r == 0) == (b == 0 && c == 0 && s == 0) && r < 4) by(bit_vector) requires b < 4, c <= 1, s <= 1, r == (b | c) | s; }
    assert forall|b: u32, s: u32| b < 4 && s <= 1 implies ({ let r = #[trigger] (b | s); (r > 2) == (b > 2 || (b == 2 && s == 1)) && (r == 2) == (b == 2 && s == 0) && (r == 0) == (b == 0 && s == 0) && r < 4 })
    by { let r = b | s; assert((r > 2) == (b > 2 || (b == 2 && s == 1)) && (r == 2) == (b == 2 && s == 0) && (r == 0) == (b == 0 && s == 0) && r < 4) by(bit_vector) requires b < 4, s <= 1, r == b | s; }
    assert forall|b: u32| b < 4 implies #[trigger] (b << 1) == 2 * b by { assert((b << 1) == 2 * b) by(bit_vector) requires b < 4; }
}
proof fn lmsk(x: u128, s: u32) requires s == 16 || s == 17 ensures (1u128 << s) >= 1, (1u128 << s) as int == pow2(s as nat), x & (((1u128 << s) - 1) as u128) == (x as int) % (pow2(s as nat) as int)
{
    lemma2_to64();
    if s == 16 { assert((1u128 << 16u32) == 65536 && x & 65535 == x % 65536) by(bit_vector); } else { assert((1u128 << 17u32) == 131072 && x & 131071 == x % 131072) by(bit_vector); }
}
// mod and div by a divisor of the word
proof fn lrp(w: int, h: int, l: int, p: int, q: int)
    requires p > 0, q > 0, p * q == w, 0 <= l < w
    ensures ((l * p) % w) / p == l % q, (h * w + l) % q == l % q
{
    ldm(l, q); let k = l / q; let r = l % q;
    assert(l * p == k * w + r * p) by(nonlinear_arith) requires l == k * q + r, w == p * q;
    assert(0 <= r * p < w) by(nonlinear_arith) requires 0 <= r, r + 1 <= q, w == p * q, p > 0;
    lmod(l * p, w, k, r * p); lmod(r * p, p, r, 0);
    assert(h * w + l == (h * p + k) * q + r) by(nonlinear_arith) requires l == k * q + r, w == p * q;
    lmod(h * w + l, q, h * p + k, r);
}
// mod by a multiple of the word
proof fn lrp2(w: int, h: int, l: int, q: int) requires q > 0, w > 0, 0 <= l < w, h >= 0 ensures (h * w + l) % (q * w) == (h % q) * w + l
{
    ldm(h, q); let k = h / q; let r = h % q;
    assert(h * w + l == k * (q * w) + (r * w + l)) by(nonlinear_arith) requires h == k * q + r;
    assert(0 <= r * w + l < q * w) by(nonlinear_arith) requires 0 <= r, r + 1 <= q, 0 <= l < w;
    lmod(h * w + l, q * w, k, r * w + l);
}
// first rounding bits: rem * w + lo below 2^s * w, a and b the two parts of rem
proof fn lrb1(w: int, rem: int, lo: int, s: nat) requires w > 0, 0 <= lo < w, s >= 2, 0 <= rem < pow2(s)
    ensures ({ let t = pow2((s - 2) as nat) as int; let a = rem / t; let b = rem % t; let f = rem * w + lo; let half = pow2((s - 1) as nat) as int * w;
        0 <= a < 4 && 0 <= b && (f > half) == (a > 2 || (a == 2 && (b > 0 || lo > 0))) && (f == half) == (a == 2 && b == 0 && lo == 0) && (f == 0) == (a == 0 && b == 0 && lo == 0) && f >= 0 && pow2((s - 1) as nat) > 0 })
{
    let t = pow2((s - 2) as nat) as int; ldb((s - 2) as nat); ldb((s - 1) as nat); ldm(rem, t); let a = rem / t;
    llt(rem, 4, t); ldiv0(rem, t);
    lcmp2(w, rem, lo, 2 * t); lcmp2(t, a, rem % t, 2); lmul0(rem, w); lcmp2(w, rem, lo, 0); lcmp2(t, a, rem % t, 0);
    assert(0 * w == 0 && 0 * t == 0);
}
// the top two bits of rem
proof fn lrbq(rem: int, s: nat) requires s >= 2, 0 <= rem < pow2(s)
    ensures ({ let t = pow2((s - 2) as nat) as int; let h = pow2((s - 1) as nat); let b = rem / t; 0 <= b < 4 && t > 0 && (rem > h ==> b >= 2) && (rem == h ==> b == 2) && (rem < h ==> b <= 1) })
{
    let t = pow2((s - 2) as nat) as int; ldb((s - 2) as nat); ldb((s - 1) as nat); ldm(rem, t); let b = rem / t; llt(rem, 4, t); ldiv0(rem, t); lcmp2(t, b, rem % t, 2);
}
// f = rem * 2^k + f1 against half
proof fn lrbf(rem: int, f1: int, k: nat, s: nat) requires 0 <= f1 < pow2(k), s >= 1, 0 <= rem < pow2(s)
    ensures ({ let f = rem * pow2(k) + f1; let h = pow2((s - 1) as nat); let half = pow2((k + s - 1) as nat); (f > half) == (rem > h || (rem == h && f1 > 0)) && (f == half) == (rem == h && f1 == 0) && 0 <= f < pow2(k + s) })
{
    let h = pow2((s - 1) as nat) as int; lemma_pow2_adds((s - 1) as nat, k); lcmp2(pow2(k) as int, rem, f1, h); lemma_pow2_adds(s, k); lmul0(rem, pow2(k) as int);
    let w = pow2(k) as int; let a = pow2(s) as int; assert(rem * w + f1 < a * w) by(nonlinear_arith) requires rem + 1 <= a, f1 < w, w > 0;
}
// p = (R * 2^s + rem) * 2^k + f1
proof fn lsplit(p: int, z: int, f1: int, k: nat, s: nat) requires p == z * pow2(k) + f1, z >= 0
    ensures ({ let r = z / (pow2(s) as int); let rem = z % (pow2(s) as int); p == r * pow2(k + s) + (rem * pow2(k) + f1) && r >= 0 && 0 <= rem < pow2(s) && r <= z && z == r * pow2(s) + rem })
{
    lemma_pow2_pos(s); ldm(z, pow2(s) as int); ldiv0(z, pow2(s) as int); lemma_pow2_adds(s, k); let a = pow2(s) as int; let b = pow2(k) as int; let r = z / a; let rem = z % a;
    assert((r * a + rem) * b == r * (a * b) + rem * b) by(nonlinear_arith);
    assert(r <= r * a) by(nonlinear_arith) requires r >= 0, a >= 1;
}
proof fn lenb2(rr: int, m1: int) requires 0 <= rr < pow2(237), 0 <= m1 < 0x7fffe ensures rr + m1 * pow2(236) + 1 < SGN() * B()
{ lp(); lp2(); lw(); lb(); let e = pow2(236) as int; assert(rr + m1 * e + 1 <= 0x7ffff * e) by(nonlinear_arith) requires rr < 2 * e, m1 <= 0x7fffd, e > 0; 
  assert(e == FR() * B()); assert(0x80000 * FR() == SGN()); assert(0x7ffff * (FR() * B()) < SGN() * B()) by(nonlinear_arith) requires 0x80000 * FR() == SGN(), B() > 0, FR() > 0; }
// result of a multiplication: p = sx sy 2^(nx + ny) = r * 2^K + f
proof fn lmfin(sx: int, sy: int, qx: nat, qy: nat, nx: nat, ny: nat, p: int, K: nat, m1: nat, r: int, f: int, rb: u32)
    requires p == (sx * pow2(nx)) * (sy * pow2(ny)), qx + qy + K == nx + ny + m1 + D(), K >= 1, p == r * pow2(K) + f, 0 <= f < pow2(K), rbok(rb, f, pow2((K - 1) as nat) as int), 0 <= r < pow2(237), m1 < 0x7fffe, r >= pow2(236) || m1 == 0
    ensures okr((sx * pow2(qx)) * (sy * pow2(qy)), r + m1 * pow2(236) + rinc(rb, r)), (r + m1 * pow2(236)) % 2 == r % 2
{
    let x = (sx * pow2(qx)) * (sy * pow2(qy)); let half = pow2((K - 1) as nat) as int; ldb((K - 1) as nat);
    lpm(sx, qx, sy, qy); lpm(sx, nx, sy, ny); let Q = sx * sy;
    lpw(Q, qx + qy, K); lpw(Q, nx + ny, m1 + D());
    assert(2 * x * (half * 1) == x * pow2(K)) by(nonlinear_arith) requires pow2(K) == 2 * half;
    assert(p * 1 == p);
    let up = rinc(rb, r) == 1;
    reveal(okr);
    assert(agree(p, p * 1, half * 1));
    assert forall|hh: int, ll: int| 0 <= ll < B() && #[trigger] (hh * B() + ll) == r + m1 * pow2(236) + rinc(rb, r) implies nearest(x, hh, ll) && 0 <= hh <= 0x7ffff * FR() by {
        lround(x, p, p, r, f, half, 1, m1 as int, up, hh, ll); }
    lmodm(r, m1 as int);
}
proof fn lmodm(r: int, m1: int) ensures (r + m1 * pow2(236)) % 2 == r % 2
{ ldb(235); ldm(r, 2); let c = pow2(235) as int; assert(r + m1 * (2 * c) == (r / 2 + m1 * c) * 2 + r % 2) by(nonlinear_arith) requires r == (r / 2) * 2 + r % 2; lmod(r + m1 * (2 * c), 2, r / 2 + m1 * c, r % 2); }
proof fn lminf(sx: int, sy: int, qx: nat, qy: nat, nx: nat, ny: nat, p: int, k: nat, e1: nat)
    requires p == (sx * pow2(nx)) * (sy * pow2(ny)), qx + qy + k == nx + ny + e1 + D(), p >= pow2(236 + k), e1 >= 0x7fffe
    ensures okr((sx * pow2(qx)) * (sy * pow2(qy)), (0x7ffff * FR()) * B())
{
    let x = (sx * pow2(qx)) * (sy * pow2(qy));
    lpm(sx, qx, sy, qy); lpm(sx, nx, sy, ny); let Q = sx * sy; lpw(Q, qx + qy, k); lpw(Q, nx + ny, e1 + D()); 
    let c = pow2(k) as int; lemma_pow2_adds(236, k); lemma_pow2_adds(236, (e1 + D()) as nat); lemma_pow2_pos(k); let g = pow2((e1 + D()) as nat) as int; lemma_pow2_pos((e1 + D()) as nat);
    assert(x * c == p * g);
    let a = pow2(236) as int;
    assert(p * g >= ((a * g) * c)) by(nonlinear_arith) requires p >= a * c, g > 0;
    lcs(x, a * g, c);
    ldb((236 + e1 + D()) as nat); lple(238 + 524285 + D(), (237 + e1 + D()) as nat); lemma_pow2_adds(238, 524285 + D());
    let u = pow2(524285 + D()) as int; lemma_pow2_pos(524285 + D()); ldist(pow2(238) as int, 1, u);
    lb(); reveal(okr);
    assert forall|hh: int, ll: int| 0 <= ll < B() && #[trigger] (hh * B() + ll) == (0x7ffff * FR()) * B() implies nearest(x, hh, ll) && 0 <= hh <= 0x7ffff * FR() by { lemma_inj(B(), hh, ll, 0x7ffff * FR(), 0); }
}
// one bit longer than 2^n
proof fn lplen(x: int, y: int) requires pow2(255) <= x < pow2(256), pow2(255) <= y < pow2(256) ensures pow2(510) <= x * y < pow2(512)
{ lemma_pow2_pos(255); lemma_pow2_adds(255, 255); lemma_pow2_adds(256, 256); assert(pow2(255) * pow2(255) <= x * y < pow2(256) * pow2(256)) by(nonlinear_arith) requires pow2(255) <= x < pow2(256), pow2(255) <= y < pow2(256), pow2(255) > 0; }
// parts of hi * w + lo
proof fn lms(p: int, hi: int, lo: int, s: nat) requires p == lo + hi * B2(), 0 <= lo < B2(), hi >= 0, s <= 100
    ensures ({ let k = (256 + s) as nat; p / (pow2(k) as int) == hi / (pow2(s) as int) && p % (pow2(k) as int) == (hi % (pow2(s) as int)) * B2() + lo && pow2(s) * B2() == pow2(k) && 0 <= hi % (pow2(s) as int) < pow2(s) && pow2(k) > 0 && p == (hi / (pow2(s) as int)) * pow2(k) + p % (pow2(k) as int) && hi / (pow2(s) as int) >= 0 && 0 <= p % (pow2(k) as int) < pow2(k) })
{
    lp(); lw(); lb(); let t = pow2(s) as int; lemma_pow2_pos(s); lemma_pow2_adds(s, 256); ldm(hi, t); ldiv0(hi, t); lrp2(B2(), hi, lo, t); let k = (256 + s) as nat; lemma_pow2_pos(k);
    let q = hi / t; let r = hi % t;
    assert(p == q * (t * B2()) + (r * B2() + lo)) by(nonlinear_arith) requires p == lo + hi * B2(), hi == q * t + r;
    assert(0 <= r * B2() + lo < t * B2()) by(nonlinear_arith) requires 0 <= r, r + 1 <= t, 0 <= lo < B2();
    lmod(p, pow2(k) as int, q, r * B2() + lo);
}
// size of the quotient
proof fn lqs(p: int, q: int, f: int, k: nat) requires p == q * pow2(k) + f, 0 <= f < pow2(k) ensures p < pow2(237 + k) ==> q < pow2(237), p >= pow2(236 + k) ==> q >= pow2(236)
{ lemma_pow2_adds(237, k); lemma_pow2_adds(236, k); let c = pow2(k) as int;
  if p < pow2(237 + k) { assert(q < pow2(237)) by(nonlinear_arith) requires q * c <= p, p < pow2(237) * c, c > 0; }
  if p >= pow2(236 + k) { assert(q >= pow2(236)) by(nonlinear_arith) requires q * c + c > p, p >= pow2(236) * c, c > 0; } }
proof fn lhb(a: U256) ensures (a.v() >= pow2(255)) == (a.hi.0 >= 0x80000000000000000000000000000000), 0 <= a.v() < pow2(256), a.v() < pow2(128) ==> a.hi.0 == 0 && a.v() == a.lo.0
{ lp(); lb(); lw(); a.vb(); lemma_pow2_adds(127, 128); ldb(127); let h = a.hi.0 as int; lcmp2(B(), h, a.lo.0 as int, pow2(127) as int); if h >= 1 { assert(h * B() >= B()) by(nonlinear_arith) requires h >= 1, B() > 0; } else { assert(0 * B() == 0); } }
proof fn lsmall(z: int, r: int, rem: int, s: nat) requires z == r * pow2(s) + rem, 0 <= rem < pow2(s), 0 <= z < pow2(237), s >= 237 ensures r == 0, rem == z
{ lple(237, s); let t = pow2(s) as int; if r > 0 { assert(r * t >= t) by(nonlinear_arith) requires r >= 1, t > 0; } else { if r < 0 { assert(r * t <= -t) by(nonlinear_arith) requires r <= -1, t > 0; } else { assert(0 * t == 0); } } }
"""


def rem_pow2(X, width="U256", sub="U128"):
    """UInt::rem_pow2 for U256"""
    G = [(r"<SubUInt as BigUInt>::", sub + "::"), (r"\bSubUInt::", sub + "::"), (r"\bSubUInt\b", sub)]
    return "impl U256 {\npub " + X.fn(ud.UG, "rem_pow2", header=ud.IMPL, subst=G,
        spec="    ensures n < 256 ==> r.v() == self.v() % (pow2(n as nat) as int)",
        at={0: """proof { lp(); lb(); lw(); U128::consts(); U256::consts(); self.hi.vb(); self.lo.vb(); let h = self.hi.v(); let l = self.lo.v(); assert(0 * B() == 0) by(nonlinear_arith);
 if n == 0 { lmod(self.v(), 1, self.v(), 0); }
 if 1 <= n < 128 { ls(n as nat, 128); let q = pow2(n as nat) as int; let p = pow2((128 - n) as nat) as int; assert(p * q == q * p) by(nonlinear_arith); lrp(B(), h, l, p, q); }
 if n == 128 { lmod(self.v(), B(), h, l); }
 if 128 < n < 256 { let t = (n - 128) as nat; ls(t, 128); let q = pow2(t) as int; let p = pow2((256 - n) as nat) as int; assert(p * q == q * p) by(nonlinear_arith); lrp(B(), 0, h, p, q); lemma_pow2_adds(t, 128); lrp2(B(), h, l, q); } }"""}) + "}\n"


SH = [(r"\(&(\w+(?:::\w+)?) << (\([^()]*\)|\w+)\)", r"((&\1).shl(\2))"), (r"\(&(\w+(?:::\w+)?) >> (\([^()]*\)|\w+)\)", r"((&\1).shr(\2))")]


def left_adj(X):
    return "pub " + X.fn(LIB, "left_adj_signif", header=r"^$",
        spec="""    requires abs_bits.hi.0 < 0x7ffff * FR(), abs_bits.v() > 0
    ensures r.1 < 256, r.0.v() == sig(abs_bits.hi.0 as int, abs_bits.lo.0 as int) * pow2(r.1 as nat), pow2(255) <= r.0.v() < pow2(256)""",
        hints=[(r"let shift = [^;]*;", """proof { lp2(); lp(); let z = signif.v(); 
 assert forall|s: nat| s == shift && s < 256 && pow2((255 - s) as nat) <= z < #[trigger] pow2((256 - s) as nat) implies pow2(255) <= z * pow2(s) < pow2(256) by { lpb(z, (255 - s) as nat, s); lpb(z, (256 - s) as nat, s); }
 lpb(z, 0, shift as nat); lmod0(z * pow2(shift as nat), B2()); }""")],
        at={0: "proof { lb(); let h = abs_bits.hi.0 as int; let l = abs_bits.lo.0 as int; if h == 0 { assert(0 * B() == 0); } lsig(h, l); lp2(); lp(); lw(); }"})


SPEC = """    ensures nan(x.bits) || nan(y.bits) || (inf(x.bits) && zer(y.bits)) || (zer(x.bits) && inf(y.bits)) ==> nan(r.bits),
        (inf(x.bits) && !nan(y.bits) && !zer(y.bits)) || (inf(y.bits) && !nan(x.bits) && !zer(x.bits)) ==> inf(r.bits) && sgn(r.bits) == sgx(x.bits, y.bits),
        (zer(x.bits) && fin(y.bits)) || (zer(y.bits) && fin(x.bits)) ==> zer(r.bits) && sgn(r.bits) == sgx(x.bits, y.bits),
        fin(x.bits) && fin(y.bits) && !zer(x.bits) && !zer(y.bits) ==> nearest(val(x.bits) * val(y.bits), ahi(r.bits), r.bits.lo.0 as int) && sgn(r.bits) == sgx(x.bits, y.bits),"""


def mul_fns(X):
    out = []
    out.append("pub " + X.fn(MUL, "mul_signifs", header=r"^$", subst=SH,
        spec="""    requires pow2(255) <= x.v(), pow2(255) <= y.v()
    ensures r.1 <= 1, r.2 < 4, ({ let p = x.v() * y.v(); let k = (274 + r.1) as nat; let f = p % (pow2(k) as int); p == r.0.v() * pow2(k) + f && 0 <= f < pow2(k) && rbok(r.2, f, pow2((k - 1) as nat) as int) && (r.2 == 0) == (f == 0)
        && pow2(236) <= r.0.v() < pow2(237) && pow2(236 + k) <= p < pow2(237 + k) })""",
        at={0: "proof { lp(); lb(); lw(); x.vb(); y.vb(); lhb(*x); lhb(*y); lplen(x.v(), y.v()); lorall(); lemma_pow2_adds(255, 256); lemma_pow2_adds(254, 256); }"},
        hints=[(r"let \(lo, (?:mut )?hi\) =[^;]*;", "let ghost h0 = hi.v(); proof { hi.vb(); lo.vb(); lhb(hi); lms(x.v() * y.v(), h0, lo.v(), 18); lms(x.v() * y.v(), h0, lo.v(), 19); lcmp2(B2(), h0, lo.v(), pow2(255) as int); }"),
               (r"let rem = [^;]*;", """proof { let s = (18 + carry) as nat; let t = pow2(s) as int; lemma_pow2_pos(s); lple(s, 127); lple(s, 128); ldb(127); ldm(h0, t); assert(rem.v() == h0 % t);
 lmsk(rem.0, (s - 2) as u32); lshr128(rem.0, (s - 2) as u32); lrb1(B2(), h0 % t, lo.v(), s); lemma_pow2_adds((s - 1) as nat, 256);
 let p = x.v() * y.v(); lqs(p, h0 / t, p % (pow2((256 + s) as nat) as int), (256 + s) as nat); }""")]))
    out.append("pub " + X.fn(MUL, "mul_abs_finite", header=r"^$", spec=fa.ABS, subst=SH + [(r"(?<![\w ]) *\brnd_bits =(?!=)[^;]*;", lambda m: m.group(0) + " proof { assert(armok(rnd_bits, modp(z0, s), f1, s)) by { lorall(); if s <= 2 { larm12(z0, signif_z.lo.0, signif_z.hi.0 as int, s); } } }")] + fa.local_consts(X, MUL, None),
        at={0: """proof { lb(); lp2(); lmod(abs_bits_x.hi.0 as int, SGN(), 0, abs_bits_x.hi.0 as int); lmod(abs_bits_y.hi.0 as int, SGN(), 0, abs_bits_y.hi.0 as int); }
 let ghost sx = sig(ahi(*abs_bits_x), abs_bits_x.lo.0 as int); let ghost sy = sig(ahi(*abs_bits_y), abs_bits_y.lo.0 as int); let ghost qx = qe(ahi(*abs_bits_x)); let ghost qy = qe(ahi(*abs_bits_y));"""},
        hints=[(r"let \((?:mut )?signif_z, carry, (?:mut )?rnd_bits\) =[^;]*;", """let ghost nx = norm_shift_x as nat; let ghost ny = norm_shift_y as nat; let ghost p = norm_signif_x.v() * norm_signif_y.v(); let ghost k = (274 + carry) as nat; let ghost z0 = signif_z.v(); let ghost f1 = p % (pow2(k) as int);
 let ghost P = val(*abs_bits_x) * val(*abs_bits_y);
 proof { signif_z.vb(); assert(p == z0 * pow2(k) + f1); }"""),
               (r"let (?:mut )?exp_bits_z_minus_1 =[^;]*;", """let ghost e1 = exp_bits_z_minus_1 as int; proof { assert(qx + qy + k == nx + ny + e1 + D());
 if e1 >= 0x7fffe { lminf(sx, sy, qx, qy, nx, ny, p, k, e1 as nat); }
 else if e1 >= 0 { lmfin(sx, sy, qx, qy, nx, ny, p, k, e1 as nat, z0, f1, rnd_bits); } }"""),
               (r"let shift = [^;]*;", """let ghost s = shift as nat; proof { lphase2(sx, sy, qx, qy, nx, ny, p, k, s, z0, f1); assert(0 * B() == 0); }"""),
               (r"let rem = signif_z\.rem_pow2\(shift\)\.lo\.0;", "proof { larm4(s); larm3(z0, s); assert(rem as int == modp(z0, s)) by { lp(); signif_z.vb(); assert forall|u: U256| #[trigger] u.v() == modp(z0, s) implies u.lo.0 == modp(z0, s) by { lhb(u); } } assert((rem >> ((shift - 2) as u32)) as int == top2(z0, s)) by { lshr128(rem, (shift - 2) as u32); } }"),
               (r"let rem = signif_z\.rem_pow2\(shift\);", "proof { larm4(s); larm3(z0, s); U256::consts(); assert(pow2(128) > 4) by { lp(); lb(); } assert forall|u: U256| #[trigger] u.v() == top2(z0, s) implies u.lo.0 == top2(z0, s) by { lhb(u); } rem.vb(); }"),
               (r"signif_z >>= shift;", "proof { assert(signif_z.v() == divp(z0, s)); assert(okr(P, divp(z0, s) + rinc(rnd_bits, divp(z0, s)))); }"),
               (r"(?=let abs_bits_z = )", """let ghost m1 = exp_bits_z_minus_1 as int; let ghost rr = signif_z.v(); let ghost rh = signif_z.hi.0 as int; let ghost rl = signif_z.lo.0 as int;
 proof { signif_z.vb(); lb(); assert(0 * pow2(236) == 0); assert(0 <= m1 < 0x7fffe); assert(rr < pow2(237)); assert(okr(P, rr + m1 * pow2(236) + rinc(rnd_bits, rr))); lexpo(exp_bits_z_minus_1 as u128); lasmz(rr, rh, rl, m1); }"""),
               (r"let abs_bits_z = [^;]*;", "proof { assert(abs_bits_z.v() == rr + m1 * pow2(236)); }"),
               ]))
    out.append("pub " + X.fn(MUL, "mul", header=r"^$", spec=SPEC,
        at={0: """proof { lb(); lp2(); lorall(); lbits(x.bits.hi.0); lbits(y.bits.hi.0); ldm(x.bits.hi.0 as int, SGN()); ldm(y.bits.hi.0 as int, SGN()); lxor(x.bits.hi.0, y.bits.hi.0);
 lmod0(0, SGN()); lmod0(NAN_HI as int, SGN()); lmod0(INF_HI as int, SGN()); lor2(0, INF_HI); lor2(0x80000000000000000000000000000000, INF_HI);
 assert(0 * SGN() == 0); assert(1 * SGN() == SGN()); lmod(SGN(), SGN(), 1, 0); lmod(SGN() + INF_HI, SGN(), 1, INF_HI as int);
 if fin(x.bits) { lval(x.bits); lsig(ahi(x.bits), x.bits.lo.0 as int); } if fin(y.bits) { lval(y.bits); lsig(ahi(y.bits), y.bits.lo.0 as int); } }"""},
        hints=[(r"let abs_bits_sticky_y = [^;]*;", "proof { lspecial(abs_bits_x.hi.0, abs_bits_x.lo.0, abs_bits_sticky_x); lspecial(abs_bits_y.hi.0, abs_bits_y.lo.0, abs_bits_sticky_y); }"),
               ] + fa.mulres("sign_bits_hi_z", r"(?=f256 \{\s*bits: bits_z,?\s*\}\s*\}?\s*$)")))
    out.append(ud.imp("impl Mul for f256", "f256", X.fn(MUL, "mul", header=r"^impl Mul for f256$", sig="fn mul(self, rhs: f256) -> (r: f256)", spec=SPEC.replace("x.bits", "self.bits").replace("y.bits", "rhs.bits")), "true"))
    out.append("impl f256 {\npub " + X.fn(LIB, "square", header=r"^impl f256$", sig="fn square(self) -> (r: f256)", spec=SPEC.replace("x.bits", "self.bits").replace("y.bits", "self.bits")) + "}\n")
    return out


MLEM2 = r"""
pub open spec fn half0(s: nat) -> int { pow2((s - 1) as nat) as int }
// rounding bits rb after dropping s more bits: rem of them, f1 below
pub open spec fn armok(rb: u32, rem: int, f1: int, s: nat) -> bool { (rb > 2) == (rem > half0(s) || (rem == half0(s) && f1 > 0)) && (rb == 2) == (rem == half0(s) && f1 == 0) }
pub open spec fn divp(z: int, s: nat) -> int { z / (pow2(s) as int) }
pub open spec fn modp(z: int, s: nat) -> int { z % (pow2(s) as int) }
proof fn lphase2(sx: int, sy: int, qx: nat, qy: nat, nx: nat, ny: nat, p: int, k: nat, s: nat, z0: int, f1: int)
    requires p == (sx * pow2(nx)) * (sy * pow2(ny)), qx + qy + k + s == nx + ny + D(), k >= 1, s >= 1, p == z0 * pow2(k) + f1, 0 <= f1 < pow2(k), 0 <= z0 < pow2(237)
    ensures s > 238 ==> okr((sx * pow2(qx)) * (sy * pow2(qy)), 0), 0 <= divp(z0, s) < pow2(237), 0 <= modp(z0, s) < pow2(s), divp(z0, s) <= z0,
        forall|rb: u32| #[trigger] armok(rb, modp(z0, s), f1, s) ==> okr((sx * pow2(qx)) * (sy * pow2(qy)), divp(z0, s) + rinc(rb, divp(z0, s)))
{
    let r1 = divp(z0, s); let rem = modp(z0, s); let f2 = rem * pow2(k) + f1;
    lsplit(p, z0, f1, k, s); lrbf(rem, f1, k, s); assert(0 * pow2(236) == 0);
    if s > 238 { lsmall(z0, r1, rem, s); lple(237, (s - 1) as nat); lmfin(sx, sy, qx, qy, nx, ny, p, k + s, 0, r1, f2, 0); lmod(0, 2, 0, 0); }
    assert forall|rb: u32| #[trigger] armok(rb, rem, f1, s) implies okr((sx * pow2(qx)) * (sy * pow2(qy)), r1 + rinc(rb, r1)) by { lmfin(sx, sy, qx, qy, nx, ny, p, k + s, 0, r1, f2, rb); }
}
// the remainder in the small cases
proof fn larm12(z0: int, lo: u128, h: int, s: nat) requires z0 == h * B() + lo, s == 1 || s == 2
    ensures s == 1 ==> modp(z0, s) == (lo & 1) && half0(s) == 1 && (lo & 1) < 2, s == 2 ==> modp(z0, s) == (lo & 3) && half0(s) == 2 && (lo & 3) < 4
{ lemma2_to64(); land13(lo); lmod4(h, lo as int); }
// the top two of the s bits
pub open spec fn top2(z: int, s: nat) -> int { modp(z, s) / (pow2((s - 2) as nat) as int) }
proof fn larm3(z0: int, s: nat) requires 3 <= s <= 238
    ensures 0 <= top2(z0, s) < 4, modp(z0, s) > half0(s) ==> top2(z0, s) >= 2, modp(z0, s) == half0(s) ==> top2(z0, s) == 2, modp(z0, s) < half0(s) ==> top2(z0, s) <= 1,
        0 <= modp(z0, s) < pow2(s)
{ lemma_pow2_pos(s); ldm(z0, pow2(s) as int); lrbq(modp(z0, s), s); }
proof fn larm4(s: nat) requires 3 <= s <= 238 ensures s <= 127 ==> (1u128 << ((s - 1) as u32)) as int == half0(s) && pow2(s) < B(), (1int * pow2((s - 1) as nat)) % B2() == half0(s), 0 < half0(s)
{ lp(); lb(); lw(); if s <= 127 { lple(s, 127); lple((s - 1) as nat, 127); ldb(127); lshl128(1, (s - 1) as u32); lmod0(pow2((s - 1) as nat) as int, B()); }
  lple((s - 1) as nat, 255); ldb(255); lmod0(pow2((s - 1) as nat) as int, B2()); assert(1int * pow2((s - 1) as nat) == pow2((s - 1) as nat)); }
proof fn lasmz(rr: int, rh: int, rl: int, m1: int) requires 0 <= rr < pow2(237), 0 <= rl < B(), 0 <= rh, rr == rh * B() + rl, 0 <= m1 < 0x7fffe
    ensures (rh + m1 * FR()) * B() + rl == rr + m1 * pow2(236), 0 <= rh + m1 * FR() < 0x7ffff * FR(), rr + m1 * pow2(236) + 1 < SGN() * B(), (rr + m1 * pow2(236)) % 2 == rr % 2
{ lenb2(rr, m1); lrh2(rr, rh, rl); lmodr(rh, rl, m1); lm3(m1, FR(), B()); ldist(rh, m1 * FR(), B()); lmodm(rr, m1); lp2(); }
proof fn land13(x: u128) ensures x & 1 == x % 2, x & 3 == x % 4, (x & 1) < 2, (x & 3) < 4 { assert(x & 1 == x % 2 && x & 3 == x % 4) by(bit_vector); }
proof fn lrh2(rr: int, rh: int, rl: int) requires rr < pow2(237), 0 <= rl < B(), rr == rh * B() + rl ensures rh < 2 * FR()
{ lp2(); lb(); assert(rh < 2 * FR()) by(nonlinear_arith) requires rh * B() + rl < 2 * (FR() * B()), rl >= 0, B() > 0; }
"""


def lib(X):
    """modules up to the multiplication of absolute values"""
    return ["//@mod me", fr.SPEC, fa.STD] + fr.helpers(X) + fr.any_special(X) + [fr.LEM2] + fa.shared(X)


def build(X):
    out = ud.base(X) + lib(X) + ["//@mod mf", fa.GEN, fa.LEM, fa.BASE, fa.XTRA0, fa.MRES, MLEM, MLEM2, "//@mod mg", UABS, rem_pow2(X), left_adj(X)] + mul_fns(X)
    return "\n".join(out) + "\nfn main() {}\n}\n"
