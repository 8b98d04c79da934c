//! P08 multiplication: nearest datum to the exact product.
#![allow(unsafe_code)]
use crate::f256;
use crate::verif_hooks::*;
use crate::verif_spec::*;

/// a == m << i for i = clz(m) - clz(a) >= 0
fn shifted(m: Bits, a: Bits) -> Option<i32> {
    let i = clz(m) - clz(a);
    if i >= 0 && shl2(m, i as u32) == a {
        Some(i)
    } else {
        None
    }
}
/// the recorded call multiplied the two significands, scaled by 2^(i+j)
pub fn scale(c: Mul, mx: Bits, my: Bits) -> Option<i32> {
    match (shifted(mx, c.a), shifted(my, c.b)) {
        (Some(i), Some(j)) => Some(i + j),
        _ => match (shifted(my, c.a), shifted(mx, c.b)) {
            (Some(i), Some(j)) => Some(i + j),
            _ => None,
        },
    }
}
/// exponent of the scaling by bit lengths alone; `p08_scaling` shows that it
/// is a scaling
fn scale_len(c: Mul, mx: Bits, my: Bits) -> i32 {
    clz(mx) - clz(c.a) + clz(my) - clz(c.b)
}
fn operands() -> (Bits, Bits, i32, Bits, Bits) {
    let (x, y) = (any_bits(), any_bits());
    kani::assume(finite_nonzero(x) && finite_nonzero(y));
    let ((ex, mx), (ey, my)) = (dec(x), dec(y));
    (x, y, ex + ey, mx, my)
}
/// the product computed is the one of the significands, up to a power of two
#[kani::proof]
#[kani::solver(kissat)]
fn p08_scaling() {
    let (x, y, _, mx, my) = operands();
    wm_on();
    let _ = f256::from_bits(x) * f256::from_bits(y);
    let n = unsafe { WM_N };
    let c = unsafe { WM[0] };
    if n > 0 {
        assert!(n == 1, "UNDECIDED: number of calls of widening_mul");
        assert!(scale(c, mx, my) == Some(scale_len(c, mx, my)), "UNDECIDED: arguments of widening_mul");
    }
}
/// lo <= exponent of the product's last place (in quanta) < hi, for the
/// product scaled to 511 or 512 bits
fn check(lo: i32, hi: i32) {
    let (x, y, e, mx, my) = operands();
    let l = e + TMIN - clz(mx) - clz(my);
    kani::assume(l >= lo && l < hi);
    wm_on();
    unsafe { WM_CTZ = false };
    let r = (f256::from_bits(x) * f256::from_bits(y)).to_bits();
    assert!(neg(r) == (neg(x) != neg(y)), "sign of the product");
    let n = unsafe { WM_N };
    if n == 0 {
        // only possible where the product is known to be out of range
        assert!(mag(r) == (0, 0) || mag(r) == (INF, 0), "UNDECIDED: product not computed by widening_mul");
        // l + 512: upper bound of the bit length in quanta
        assert!(mag(r) != (0, 0) || l + 512 < 0, "product is not tiny");
        assert!(mag(r) == (0, 0) || l + 511 > EMAX + 236, "product is not huge");
        return;
    }
    let c = unsafe { WM[0] };
    assert!(mag(r) == rne(c.p, e + TMIN - scale_len(c, mx, my), false), "nearest datum to x * y");
}
macro_rules! mul {
    ($($n:ident $lo:expr, $hi:expr;)*) => { $(
        #[kani::proof]
        #[kani::solver(kissat)]
        fn $n() { check($lo, $hi) }
    )* };
}
mul! {
    p08_round_a i32::MIN, -520;
    p08_round_b -520, -512 + 64;
    p08_round_c -512 + 64, -512 + 128;
    p08_round_d -512 + 128, -512 + 192;
    p08_round_e -512 + 192, -512 + 238;
    p08_round_f -512 + 238, EMAX - 300;
    p08_round_g EMAX - 300, i32::MAX;
}
#[kani::proof]
fn p08_cover() {
    let (x, y) = (any_bits(), any_bits());
    kani::assume(finite_nonzero(x) && finite_nonzero(y));
    wm_on();
    let r = (f256::from_bits(x) * f256::from_bits(y)).to_bits();
    kani::cover!(ef(r) == 0 && !is_zero(r));
    kani::cover!(is_inf(r));
    kani::cover!(ef(x) == 0 && ef(r) > 0 && is_finite(r));
}
#[kani::proof]
fn p08_special() {
    let (x, y) = (any_bits(), any_bits());
    kani::assume(!finite_nonzero(x) || !finite_nonzero(y));
    let s = neg(x) != neg(y);
    let r = (f256::from_bits(x) * f256::from_bits(y)).to_bits();
    if is_nan(x) || is_nan(y) || (is_inf(x) && is_zero(y)) || (is_zero(x) && is_inf(y)) {
        assert!(is_nan(r), "NaN operand or 0 * inf");
    } else if is_inf(x) || is_inf(y) {
        assert!(r == with_sign(s, (INF, 0)), "inf * y");
    } else {
        assert!(r == with_sign(s, (0, 0)), "0 * y");
    }
    kani::cover!(is_inf(x) && is_zero(y));
    kani::cover!(is_zero(x) && finite_nonzero(y));
}
/// square(x) is x * x
#[kani::proof]
#[kani::stub(crate::binops::mul::mul, mul_ghost)]
fn p08_square_is_product() {
    let x = any_bits();
    let r = f256::from_bits(x).square();
    let c = unsafe { (CNT, GX, GY, GR) };
    assert!(c.0 == 1, "UNDECIDED: square does not call mul once");
    assert!(c.1 == x && c.2 == x, "UNDECIDED: arguments of mul");
    assert!(r.to_bits() == c.3, "UNDECIDED: result of mul");
}
static mut CNT: u32 = 0;
static mut GX: Bits = (0, 0);
static mut GY: Bits = (0, 0);
static mut GR: Bits = (0, 0);
fn mul_ghost(x: f256, y: f256) -> f256 {
    unsafe {
        CNT += 1;
        GX = x.to_bits();
        GY = y.to_bits();
        GR = any_bits();
        f256::from_bits(GR)
    }
}
