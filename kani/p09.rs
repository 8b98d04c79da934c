//! P09 division: nearest datum to the exact quotient.
#![allow(unsafe_code)]
use crate::f256;
use crate::verif_hooks::*;
use crate::verif_spec::*;

/// q + r/d (0 <= r < d) is mx/my * 2^k
fn scale(c: Div, mx: Bits, my: Bits) -> Option<i32> {
    let i = wbitlen(c.n) - wbitlen(w(mx));
    let j = clz(my) - clz(c.d);
    if i >= 0 && j >= 0 && wshl(w(mx), i as u32) == c.n && shl2(my, j as u32) == c.d {
        Some(i - j)
    } else {
        None
    }
}
/// exponent of the scaling by bit lengths alone; `p09_a_scaling_*` show that it
/// is a scaling
fn scale_len(c: Div, mx: Bits, my: Bits) -> i32 {
    wbitlen(c.n) - wbitlen(w(mx)) - (clz(my) - clz(c.d))
}
fn operands() -> (Bits, Bits, i32, Bits, Bits) {
    let (x, y) = (any_bits(), any_bits());
    kani::assume(finite_nonzero(x) && finite_nonzero(y));
    let ((ex, mx), (ey, my)) = (dec(x), dec(y));
    (x, y, ex - ey, mx, my)
}
/// the quotient computed is the one of the significands, up to a power of two
fn scaling(xsub: bool, ysub: bool, lo: i32, hi: i32) {
    let (x, y, _, mx, my) = operands();
    kani::assume((ef(x) == 0) == xsub && (ef(y) == 0) == ysub);
    kani::assume(clz(my) - 19 >= lo && clz(my) - 19 < hi);
    dr_on();
    let _ = f256::from_bits(x) / f256::from_bits(y);
    let n = unsafe { DR_N };
    let c = unsafe { DR[0] };
    if n > 0 {
        assert!(n == 1, "UNDECIDED: number of calls of div_rem");
        assert!(scale(c, mx, my) == Some(scale_len(c, mx, my)), "UNDECIDED: arguments of div_rem");
    }
}
macro_rules! scal {
    ($($n:ident $x:expr, $y:expr, $l:expr, $h:expr;)*) => { $(
        #[kani::proof]
        #[kani::solver(kissat)]
        fn $n() { scaling($x, $y, $l, $h) }
    )* };
}
scal! {
    p09_a_scaling_ss1 true, true, 0, 64;
    p09_a_scaling_ss2 true, true, 64, 128;
    p09_a_scaling_ss3 true, true, 128, 256;
    p09_a_scaling_sn true, false, 0, 1;
    p09_a_scaling_ns false, true, 0, 256;
    p09_a_scaling_nn false, false, 0, 1;
}
/// lo <= floor(log2(x / y)) or that + 1 (in quanta) < hi
fn check(lo: i32, hi: i32) {
    let (x, y, e, mx, my) = operands();
    let l = clz(my) - clz(mx) + e - TMIN;
    kani::assume(l >= lo && l < hi);
    dr_on();
    let r = (f256::from_bits(x) / f256::from_bits(y)).to_bits();
    assert!(neg(r) == (neg(x) != neg(y)), "sign of the quotient");
    let n = unsafe { DR_N };
    if n == 0 {
        assert!(mag(r) == (0, 0) || mag(r) == (INF, 0), "UNDECIDED: quotient not computed by div_rem");
        // floor(log2(x/y)) is l or l - 1
        let ge = wge(w(shl2(mx, clz(mx) as u32)), w(shl2(my, clz(my) as u32)));
        let l = if ge { l } else { l - 1 };
        assert!(mag(r) != (0, 0) || l < -1, "quotient is not tiny");
        assert!(mag(r) == (0, 0) || l > EMAX - 2 + 236, "quotient is not huge");
        return;
    }
    let c = unsafe { DR[0] };
    let (e, st) = (e - scale_len(c, mx, my) - TMIN, c.r != (0, 0));
    assert!(!st || wbitlen(c.q) > 237 || e < 0, "UNDECIDED: precision of the quotient");
    assert!(mag(r) == rne(c.q, e, st), "nearest datum to x / y")
}
macro_rules! div {
    ($($n:ident $lo:expr, $hi:expr;)*) => { $(
        #[kani::proof]
        #[kani::solver(kissat)]
        fn $n() { check($lo, $hi) }
    )* };
}
div! {
    p09_round_a i32::MIN, -2;
    p09_round_b -2, 64;
    p09_round_c 64, 128;
    p09_round_d 128, 192;
    p09_round_e 192, 240;
    p09_round_f 240, EMAX - 20;
    p09_round_g EMAX - 20, i32::MAX;
}
#[kani::proof]
fn p09_cover() {
    let (x, y) = (any_bits(), any_bits());
    kani::assume(finite_nonzero(x) && finite_nonzero(y));
    dr_on();
    let r = (f256::from_bits(x) / f256::from_bits(y)).to_bits();
    kani::cover!(ef(r) == 0 && !is_zero(r));
    kani::cover!(is_inf(r));
    kani::cover!(ef(x) == 0 && ef(r) > 0 && is_finite(r));
    kani::cover!(ef(y) == 0 && ef(r) > 0 && is_finite(r));
}
#[kani::proof]
fn p09_special() {
    let (x, y) = (any_bits(), any_bits());
    kani::assume(!finite_nonzero(x) || !finite_nonzero(y));
    let s = neg(x) != neg(y);
    dr_on();
    let r = (f256::from_bits(x) / f256::from_bits(y)).to_bits();
    if is_nan(x) || is_nan(y) || (is_inf(x) && is_inf(y)) || (is_zero(x) && is_zero(y)) {
        assert!(is_nan(r), "NaN operand, 0 / 0 or inf / inf");
    } else if is_inf(x) || is_zero(y) {
        assert!(r == with_sign(s, (INF, 0)), "inf / y, x / 0");
    } else {
        assert!(r == with_sign(s, (0, 0)), "0 / y, x / inf");
    }
    kani::cover!(is_inf(x) && is_inf(y));
    kani::cover!(is_zero(y) && finite_nonzero(x));
}
/// recip(x) is 1 / x
#[kani::proof]
#[kani::stub(crate::binops::div::div, div_ghost)]
fn p09_recip_is_quotient() {
    let x = any_bits();
    let r = f256::from_bits(x).recip();
    let c = unsafe { (CNT, GX, GY, GR) };
    assert!(c.0 == 1, "UNDECIDED: recip does not call div once");
    assert!(c.1 == ((BIAS as u128) << 108, 0) && c.2 == x, "UNDECIDED: arguments of div");
    assert!(r.to_bits() == c.3, "UNDECIDED: result of div");
}
static mut CNT: u32 = 0;
static mut GX: Bits = (0, 0);
static mut GY: Bits = (0, 0);
static mut GR: Bits = (0, 0);
fn div_ghost(x: f256, y: f256) -> f256 {
    unsafe {
        CNT += 1;
        GX = x.to_bits();
        GY = y.to_bits();
        GR = any_bits();
        f256::from_bits(GR)
    }
}
