//! P07 addition and subtraction: nearest datum to the exact sum.
//!
//! Contract of `+` for finite non-zero operands |x| >= |y|, d = difference of
//! their quantum exponents.  S = mx * 2^256 +- my * 2^(256-d) is the exact
//! sum in units of 2^-256 quanta of x (d <= 238; for d > 238 see p07_far).
//! The result r must satisfy |r - S| <= half a unit in the last place of r
//! towards either neighbour, with equality only for an even significand.
use crate::f256;
use crate::verif_spec::*;

fn shr_wide(m: Bits, d: u32) -> W {
    // m * 2^256 >> d, d <= 255
    wshr([0, 0, m.1, m.0], d)
}
fn le(a: W, b: W, strict: bool) -> bool {
    if strict {
        !wge(a, b)
    } else {
        wge(b, a)
    }
}
fn between(l: W, s: W, u: W, odd: bool, inf: bool) {
    assert!(le(l, s, odd), "result not too large: lower neighbour is not nearer");
    assert!(inf || le(s, u, odd), "result not too small: upper neighbour is not nearer");
}
/// operands: |x| >= |y| > 0 finite, d in lo..=hi, swapped and signed at will
pub fn operands(dlo: i32, dhi: i32) -> (Bits, Bits, bool, bool) {
    let (a, b) = (any_bits(), any_bits());
    kani::assume(a.0 < INF && b.0 < INF && a >= b && b != (0, 0));
    let d = dec(a).0 - dec(b).0;
    kani::assume(d >= dlo && d <= dhi);
    (a, b, kani::any(), kani::any())
}
fn check(dlo: i32, dhi: i32, eff_sub: bool, minus: bool) {
    let (a, b, swap, s) = operands(dlo, dhi);
    let ((ea, ma), (eb, mb)) = (dec(a), dec(b));
    let d = ea - eb;
    // signed operands; the exact result has the sign of the larger one
    let (p, q) = (with_sign(s, a), with_sign(s ^ eff_sub, b));
    let (x, y) = if swap { (q, p) } else { (p, q) };
    let r = if minus {
        (f256::from_bits(x) - f256::from_bits((y.0 ^ SIGN, y.1))).to_bits()
    } else {
        (f256::from_bits(x) + f256::from_bits(y)).to_bits()
    };
    let hi: W = [0, 0, ma.1, ma.0];
    let lo = shr_wide(mb, d as u32);
    let sum = if eff_sub { wsub(hi, lo) } else { wadd(hi, lo) };
    if sum == [0; 4] {
        assert!(r == (0, 0), "x - x is +0");
        return;
    }
    assert!(neg(r) == s, "sign of the larger operand");
    let r = mag(r);
    assert!(!is_nan(r), "no NaN from finite operands");
    let (er, mr) = dec(r);
    let k = er - ea;
    let odd = mr.1 & 1 == 1;
    let lowb = mr == (HID, 0) && er > 0;
    let inf = r == (INF, 0);
    let h: u128 = 1 << 127;
    if k == 1 {
        let v: W = [0, 0, mr.1 << 1, mr.0 << 1 | mr.1 >> 127];
        between(wsub(v, if lowb { [0, h, 0, 0] } else { [0, 0, 1, 0] }), sum, wadd(v, [0, 0, 1, 0]), odd, inf);
    } else if k == 0 {
        let v: W = [0, 0, mr.1, mr.0];
        between(wsub(v, if lowb { [0, h >> 1, 0, 0] } else { [0, h, 0, 0] }), sum, wadd(v, [0, h, 0, 0]), odd, inf);
    } else if k == -1 {
        let v: W = [0, mr.1 << 127, mr.1 >> 1 | mr.0 << 127, mr.0 >> 1];
        between(wsub(v, if lowb { [0, h >> 2, 0, 0] } else { [0, h >> 1, 0, 0] }), sum, wadd(v, [0, h >> 1, 0, 0]), odd, inf);
    } else {
        assert!(k < 0 && k > -240, "exponent of the result");
        assert!(wshl(sum, (-k) as u32) == [0, 0, mr.1, mr.0], "exact result after cancellation");
    }
}
macro_rules! add {
    ($($n:ident $lo:expr, $hi:expr, $sub:expr, $minus:expr;)*) => { $(
        #[kani::proof]
        #[kani::solver(kissat)]
        fn $n() { check($lo, $hi, $sub, $minus) }
    )* };
}
add! {
    p07_sum_000_000 0, 0, false, false;
    p07_sum_001_003 1, 3, false, false;
    p07_sum_004_031 4, 31, false, false;
    p07_sum_032_063 32, 63, false, false;
    p07_sum_064_127 64, 127, false, false;
    p07_sum_128_238 128, 238, false, false;
    p07_dif_000_000 0, 0, true, false;
    p07_dif_001_001 1, 1, true, false;
    p07_dif_002_003 2, 3, true, false;
    p07_dif_004_031 4, 31, true, false;
    p07_dif_032_063 32, 63, true, false;
    p07_dif_064_127 64, 127, true, false;
    p07_dif_128_238 128, 238, true, false;
    p07_minus_000_003 0, 3, true, true;
    p07_minus_128_238 128, 238, true, true;
}
/// d > 238: y is below a quarter of the last place of x
#[kani::proof]
fn p07_far() {
    let (a, b) = (any_bits(), any_bits());
    kani::assume(a.0 < INF && b.0 < INF && a >= b && b != (0, 0));
    kani::assume(dec(a).0 - dec(b).0 > 238);
    let (p, q) = (with_sign(kani::any(), a), with_sign(kani::any(), b));
    let (x, y) = if kani::any() { (q, p) } else { (p, q) };
    assert!((f256::from_bits(x) + f256::from_bits(y)).to_bits() == p, "x + tiny == x");
    kani::cover!(ef(b) == 0);
}
fn special(x: Bits, y: Bits, r: Bits) {
    if is_nan(x) || is_nan(y) {
        assert!(is_nan(r), "NaN operand");
    } else if is_inf(x) && is_inf(y) && neg(x) != neg(y) {
        assert!(is_nan(r), "inf - inf");
    } else if is_inf(x) {
        assert!(r == x, "inf + y");
    } else if is_inf(y) {
        assert!(r == y, "x + inf");
    } else if is_zero(x) && is_zero(y) {
        assert!(r == with_sign(neg(x) && neg(y), (0, 0)), "sum of zeros");
    } else if is_zero(x) {
        assert!(r == y, "0 + y");
    } else {
        assert!(r == x, "x + 0");
    }
}
#[kani::proof]
fn p07_special() {
    let (x, y) = (any_bits(), any_bits());
    kani::assume(!finite_nonzero(x) || !finite_nonzero(y));
    special(x, y, (f256::from_bits(x) + f256::from_bits(y)).to_bits());
    special(x, (y.0 ^ SIGN, y.1), (f256::from_bits(x) - f256::from_bits(y)).to_bits());
    kani::cover!(is_nan(x));
    kani::cover!(is_inf(x) && is_inf(y));
    kani::cover!(is_zero(x) && is_zero(y));
    kani::cover!(is_zero(x) && finite_nonzero(y));
}
/// x - y is the sum x + (-y): both operators on the same data
#[kani::proof]
#[kani::stub(crate::binops::add::add, add_ghost)]
#[allow(unsafe_code)]
fn p07_minus_is_plus_negated() {
    let (x, y) = (any_bits(), any_bits());
    let r = f256::from_bits(x) - f256::from_bits(y);
    let c = unsafe { (CNT, GX, GY, GR) };
    assert!(c.0 == 1, "UNDECIDED: - does not call add once");
    assert!(c.1 == x && c.2 == (y.0 ^ SIGN, y.1), "UNDECIDED: arguments of add");
    assert!(r.to_bits() == c.3, "UNDECIDED: result of add");
}
static mut CNT: u32 = 0;
static mut GX: Bits = (0, 0);
static mut GY: Bits = (0, 0);
static mut GR: Bits = (0, 0);
#[allow(unsafe_code)]
fn add_ghost(x: f256, y: f256) -> f256 {
    unsafe {
        CNT += 1;
        GX = x.to_bits();
        GY = y.to_bits();
        GR = any_bits();
        f256::from_bits(GR)
    }
}
