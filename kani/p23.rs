//! P23 elementary functions: special values, domains, tiny arguments, symmetry,
//! agreement of the functions with each other, and the final rounding of the
//! fixed-point approximations.  The approximations (`approx_sin`, `approx_cos`,
//! `approx_atan`, `ln`) and the argument reduction are replaced by
//! uninterpreted functions (same argument, same result).
//! Loaded as a child of crate::math::circular_fns.
#![allow(unsafe_code)]
use super::{BigFloat, FP492, U256};
use crate::verif_spec::*;
use crate::{f256, BigUInt, U128, U512};

type Q = [u128; 4];
fn q(x: &FP492) -> Q {
    // FP492 is Copy + four u128, most significant first
    let y: U512 = unsafe { core::mem::transmute_copy(x) };
    [y.hi.hi.0, y.hi.lo.0, y.lo.hi.0, y.lo.lo.0]
}
type K = (u128, u128, u128, u128);
fn k(x: &FP492) -> K {
    let a = q(x);
    (a[0], a[1], a[2], a[3])
}
fn fp(a: Q) -> FP492 {
    FP492::new(a[0], a[1], a[2], a[3])
}
fn any_q() -> Q {
    [kani::any(), kani::any(), kani::any(), kani::any()]
}
fn b(x: f256) -> Bits {
    x.to_bits()
}
fn fb(x: Bits) -> f256 {
    f256::from_bits(x)
}
fn nonspecial() -> Bits {
    let x = any_bits();
    kani::assume(finite_nonzero(x));
    x
}
fn tiny(x: Bits) -> bool {
    finite_nonzero(x) && ef(x) < BIAS - 119
}

// ------------------------------------------------------------------ ghosts
struct Memo<K: Copy + PartialEq, V: Copy> {
    n: usize,
    a: Option<(K, V)>,
    b: Option<(K, V)>,
}
impl<K: Copy + PartialEq, V: Copy> Memo<K, V> {
    const fn new() -> Self {
        Memo { n: 0, a: None, b: None }
    }
    fn get(&mut self, k: K, v: V) -> V {
        if let Some((a, r)) = self.a {
            if a == k {
                return r;
            }
        } else {
            self.a = Some((k, v));
            self.n += 1;
            return v;
        }
        if let Some((b, r)) = self.b {
            assert!(b == k, "UNDECIDED: number of calls");
            return r;
        }
        self.b = Some((k, v));
        self.n += 1;
        v
    }
}
static mut RED: Memo<Bits, (u32, Q)> = Memo::new();
static mut SIN: Memo<K, Q> = Memo::new();
static mut COS: Memo<K, Q> = Memo::new();
static mut LN: Memo<Bits, Q> = Memo::new();
static mut CONV: Memo<K, Bits> = Memo::new();
static mut DIV: Memo<(Bits, Bits), Bits> = Memo::new();

fn g_reduce(x: &f256) -> (u32, FP492) {
    let k: u32 = kani::any();
    kani::assume(k < 4);
    let (k, r) = unsafe { (*&raw mut RED).get(b(*x), (k, any_q())) };
    (k, fp(r))
}
fn g_sin(x: &FP492) -> FP492 {
    fp(unsafe { (*&raw mut SIN).get(k(x), any_q()) })
}
fn g_cos(x: &FP492) -> FP492 {
    fp(unsafe { (*&raw mut COS).get(k(x), any_q()) })
}
fn g_sin_cos(x: &FP492) -> (FP492, FP492) {
    (g_sin(x), g_cos(x))
}
fn g_ln(x: &f256) -> FP492 {
    fp(unsafe { (*&raw mut LN).get(b(*x), any_q()) })
}
fn g_atan_big(_: &BigFloat) -> FP492 {
    fp(any_q())
}
/// the final rounding: any number (p23_from_fixed proves which one)
fn g_conv<'a: 'a>(x: &'a FP492) -> f256 {
    let r = any_bits();
    kani::assume(!is_nan(r));
    fb(unsafe { (*&raw mut CONV).get(k(x), r) })
}
fn g_approx_atan(_: &FP492) -> FP492 {
    fp(any_q())
}
fn big_any() -> BigFloat {
    let e: i32 = kani::any();
    kani::assume(e > -600000 && e < 10);
    let (h, l): (u128, u128) = any_bits();
    BigFloat { signum: if kani::any() { 1 } else { -1 }, exp: e, signif: U256::new(h | 1 << 126, l) }
}
fn g_big_sqrt(_: &BigFloat) -> BigFloat {
    big_any()
}
fn g_big_square(_: BigFloat) -> BigFloat {
    big_any()
}
fn g_big_idiv(x: &mut BigFloat, _: &BigFloat) {
    *x = big_any();
}
fn g_big_iadd(x: &mut BigFloat, _: &BigFloat) {
    *x = big_any();
}
fn g_imul_round(x: &mut FP492, _: &FP492) {
    *x = fp(any_q());
}
fn g_div(x: f256, y: f256) -> f256 {
    let (x, y) = (b(x), b(y));
    // contract of division by one (P09)
    if y == (0x3ffff << 108, 0) && !is_nan(x) {
        return fb(x);
    }
    fb(unsafe { (*&raw mut DIV).get((x, y), any_bits()) })
}
fn same(x: Bits, y: Bits) -> bool {
    x == y || is_zero(x) && is_zero(y)
}
fn flip(x: Bits) -> Bits {
    (x.0 ^ SIGN, x.1)
}
const PI_4: Bits = (0x3fffe921fb54442d18469898cc51701b, 0x839a252049c1114cf98e804177d4c762);
const PI_2: Bits = (0x3ffff921fb54442d18469898cc51701b, 0x839a252049c1114cf98e804177d4c762);
const PI_34: Bits = (0x400002d97c7f3321d234f272993d1414, 0xa2b39bd83750ccf9bb2ae03119df958a);
const PI_1: Bits = (0x40000921fb54442d18469898cc51701b, 0x839a252049c1114cf98e804177d4c762);
const ONE: Bits = (0x3ffff << 108, 0);

// ------------------------------------------------- sine, cosine, tangent
macro_rules! trig {
    ($n:ident, $body:block) => {
        #[kani::proof]
        #[kani::unwind(6)]
        #[kani::stub(<f256 as core::convert::From<&FP492>>::from, g_conv)]
        #[kani::stub(crate::math::circular_fns::reduce::reduce, g_reduce)]
        #[kani::stub(crate::math::circular_fns::approx_sin::approx_sin, g_sin)]
        #[kani::stub(crate::math::circular_fns::approx_cos::approx_cos, g_cos)]
        #[kani::stub(crate::math::circular_fns::approx_sin_cos::approx_sin_cos, g_sin_cos)]
        #[kani::stub(crate::binops::div::div, g_div)]
        fn $n() $body
    };
}
trig!(p23_sin_odd, {
    let x = nonspecial();
    let (r, s) = (b(fb(x).sin()), b(fb(flip(x)).sin()));
    assert!(same(s, flip(r)), "sin(-x) = -sin(x)");
    assert!(!is_nan(r), "sine of a finite value is a number");
    kani::cover!(!tiny(x) && !is_zero(r));
});
trig!(p23_cos_even, {
    let x = nonspecial();
    let (r, s) = (b(fb(x).cos()), b(fb(flip(x)).cos()));
    assert!(same(s, r), "cos(-x) = cos(x)");
    assert!(!is_nan(r), "cosine of a finite value is a number");
});
trig!(p23_sin_cos_agree, {
    let x = nonspecial();
    kani::assume(!tiny(x));
    let (s, c) = fb(x).sin_cos();
    assert!(same(b(s), b(fb(x).sin())), "sin_cos(x).0 = sin(x)");
    assert!(same(b(c), b(fb(x).cos())), "sin_cos(x).1 = cos(x)");
    kani::cover!(!is_zero(b(s)) && !is_zero(b(c)));
});
trig!(p23_tan, {
    let x = nonspecial();
    let (s, c) = fb(x).sin_cos();
    let w = s / c;
    assert!(same(b(fb(x).tan()), b(w)), "tan(x) = sin(x) / cos(x)");
});
trig!(p23_tiny, {
    let x = any_bits();
    kani::assume(tiny(x));
    assert!(b(fb(x).sin()) == x, "sin(x) = x");
    assert!(b(fb(x).tan()) == x, "tan(x) = x");
    let (s, c) = fb(x).sin_cos();
    assert!(b(s) == x && b(c) == ONE, "sin_cos(x) = (x, 1)");
    kani::cover!(ef(x) == 0);
});
trig!(p23_trig_special, {
    let x = any_bits();
    kani::assume(!finite_nonzero(x));
    let (s, c, t) = (b(fb(x).sin()), b(fb(x).cos()), b(fb(x).tan()));
    let (u, v) = fb(x).sin_cos();
    if is_zero(x) {
        assert!(is_zero(s) && c == ONE && is_zero(t) && is_zero(b(u)) && b(v) == ONE, "zero");
    } else {
        assert!(is_nan(s) && is_nan(c) && is_nan(t) && is_nan(b(u)) && is_nan(b(v)), "infinity, NaN");
    }
});
// quadrants: reduce(|x|) = (k, r) with |x| = k * pi/2 + r (mod 2 pi)
trig!(p23_quadrant, {
    let x = nonspecial();
    kani::assume(!neg(x) && !tiny(x));
    let (s, c) = (b(fb(x).sin()), b(fb(x).cos()));
    let m = unsafe { (*&raw mut RED).n };
    assert!(m == 1, "UNDECIDED: reduction not called with |x|");
    let (k, r) = g_reduce(&fb(x));
    assert!(unsafe { (*&raw mut RED).n } == 1, "UNDECIDED: reduction not called with |x|");
    let (rs, rc) = (b(f256::from(&g_sin(&r))), b(f256::from(&g_cos(&r))));
    let (ws, wc) = match k {
        0 => (rs, rc),
        1 => (rc, flip(rs)),
        2 => (flip(rs), flip(rc)),
        _ => (flip(rc), rs),
    };
    assert!(same(s, ws), "sine by quadrant");
    assert!(same(c, wc), "cosine by quadrant");
});
// the approximations of sine and cosine are bypassed consistently
#[kani::proof]
#[kani::unwind(70)]
#[kani::stub(FP492::imul_round, g_imul_round)]
fn p23_small_consistent() {
    let a = any_q();
    let x = fp(a);
    let (s, c) = super::approx_sin_cos::approx_sin_cos(&x);
    let mut y = x;
    y.iabs();
    // |x| < 2^-119
    if q(&y)[0] == 0 && q(&y)[1] < 1 << (128 + 108 - 119) {
        assert!(q(&s) == a, "sine of a small value is the value");
        assert!(c == FP492::ONE, "cosine of a small value is 1");
        assert!(q(&super::approx_sin::approx_sin(&x)) == a, "sine of a small value is the value");
        assert!(super::approx_cos::approx_cos(&x) == FP492::ONE, "cosine of a small value is 1");
    }
}

// -------------------------------------------------------- arc functions
macro_rules! arc {
    ($n:ident, $body:block) => {
        #[kani::proof]
        #[kani::unwind(6)]
        #[kani::stub(crate::math::circular_fns::approx_atan::approx_atan, g_approx_atan)]
        #[kani::stub(crate::math::circular_fns::asin_acos::atan, g_atan_big)]
        #[kani::stub(BigFloat::sqrt, g_big_sqrt)]
        #[kani::stub(BigFloat::square, g_big_square)]
        #[kani::stub(BigFloat::idiv, g_big_idiv)]
        #[kani::stub(crate::binops::div::div, g_div)]
        fn $n() $body
    };
}
arc!(p23_atan, {
    let x = any_bits();
    let fix = !finite_nonzero(x) || tiny(x) || mag(x) == ONE || ef(x) >= BIAS + 237;
    kani::assume(fix);
    let r = b(fb(x).atan());
    if is_nan(x) {
        assert!(is_nan(r), "NaN");
    } else if is_zero(x) || tiny(x) {
        assert!(same(r, x), "atan(x) = x");
    } else if mag(x) == ONE {
        assert!(r == with_sign(neg(x), PI_4), "atan(1) = pi/4");
    } else {
        assert!(r == with_sign(neg(x), PI_2), "atan of a large value is pi/2");
    }
    kani::cover!(is_inf(x));
});
arc!(p23_asin, {
    let x = any_bits();
    kani::assume(is_nan(x) || is_zero(x) || tiny(x) || mag(x) >= ONE);
    let r = b(fb(x).asin());
    if is_nan(x) || mag(x) > ONE {
        assert!(is_nan(r), "domain of asin");
    } else if mag(x) == ONE {
        assert!(r == with_sign(neg(x), PI_2), "asin(1) = pi/2");
    } else {
        assert!(same(r, x), "asin(x) = x");
    }
});
arc!(p23_acos, {
    let x = any_bits();
    kani::assume(is_nan(x) || mag(x) >= ONE);
    let r = b(fb(x).acos());
    if is_nan(x) || mag(x) > ONE {
        assert!(is_nan(r), "domain of acos");
    } else if neg(x) {
        assert!(r == PI_1, "acos(-1) = pi");
    } else {
        assert!(is_zero(r), "acos(1) = 0");
    }
});
fn atan2_special(y: Bits, x: Bits) -> Option<Bits> {
    let s = neg(y);
    Some(if is_zero(y) && is_zero(x) {
        (0, 0)
    } else if is_zero(y) || is_inf(x) && !is_inf(y) {
        if neg(x) {
            with_sign(s && !is_zero(y), PI_1)
        } else {
            (0, 0)
        }
    } else if is_zero(x) || is_inf(y) && !is_inf(x) {
        with_sign(s, PI_2)
    } else if mag(x) == mag(y) {
        with_sign(s, if neg(x) { PI_34 } else { PI_4 })
    } else {
        return None;
    })
}
arc!(p23_atan2_special, {
    let (y, x) = (any_bits(), any_bits());
    kani::assume(!finite_nonzero(x) || !finite_nonzero(y));
    let r = b(fb(y).atan2(&fb(x)));
    if is_nan(x) || is_nan(y) {
        assert!(is_nan(r), "NaN");
    } else {
        assert!(same(r, atan2_special(y, x).unwrap()), "special operands of atan2");
    }
    kani::cover!(is_inf(x) && is_inf(y));
    kani::cover!(is_zero(x) && is_zero(y));
});
arc!(p23_atan2_equal, {
    let y = any_bits();
    kani::assume(finite_nonzero(y));
    let x = with_sign(kani::any(), mag(y));
    let r = b(fb(y).atan2(&fb(x)));
    assert!(same(r, atan2_special(y, x).unwrap()), "operands of equal magnitude");
});
arc!(p23_atan2_tiny, {
    let (y, x) = (any_bits(), any_bits());
    kani::assume(finite_nonzero(x) && finite_nonzero(y) && !neg(x) && ef(y) + 120 < ef(x));
    let r = b(fb(y).atan2(&fb(x)));
    assert!(same(r, b(fb(y) / fb(x))), "very small quotient");
});

// ------------------------------------------------------------ logarithms
macro_rules! logs {
    ($n:ident, $f:ident) => {
        #[kani::proof]
        #[kani::unwind(6)]
        #[kani::stub(crate::math::log::ln, g_ln)]
        #[kani::stub(FP492::imul_round, g_imul_round)]
        fn $n() {
            let x = any_bits();
            let r = b(fb(x).$f());
            let dom = finite_nonzero(x) && !neg(x);
            assert!(is_nan(r) == !dom, "a number exactly for finite positive values");
            assert!(is_finite(r) || !dom, "finite");
        }
    };
}
logs!(p23_ln, ln);
logs!(p23_log2, log2);
logs!(p23_log10, log10);

// ---------------------------------------- final rounding: fixed point -> f256
fn from_fixed(lo: i32, hi: i32, n: bool) {
    let a = any_q();
    kani::assume((a[0] >> 127 == 1) == n);
    // two's complement magnitude
    let mut w: W = [a[3], a[2], a[1], a[0]];
    if n {
        let mut c = true;
        let mut i = 0;
        while i < 4 {
            let (v, o) = (!w[i]).overflowing_add(c as u128);
            w[i] = v;
            c = o;
            i += 1;
        }
    }
    let l = wbitlen(w);
    kani::assume(l > lo && l <= hi);
    let r = b(f256::from(&fp(a)));
    if l == 0 {
        assert!(is_zero(r), "zero");
    } else {
        assert!(neg(r) == n, "sign");
        assert!(mag(r) == rne(w, -492 - TMIN, false), "rounded once to nearest");
    }
}
macro_rules! fixed {
    ($($n:ident $lo:expr, $hi:expr, $neg:expr;)*) => { $(
        #[kani::proof]
        #[kani::unwind(66)]
        #[kani::solver(kissat)]
        fn $n() { from_fixed($lo, $hi, $neg) }
    )* };
}
fixed! {
    p23_fixed_small -1, 237, false;
    p23_fixed_a 237, 300, false;
    p23_fixed_b 300, 364, false;
    p23_fixed_c 364, 400, false;
    p23_fixed_d 400, 450, false;
    p23_fixed_e 450, 512, false;
    p23_fixed_neg_small -1, 237, true;
    p23_fixed_neg_a 237, 300, true;
    p23_fixed_neg_b 300, 364, true;
    p23_fixed_neg_c 364, 400, true;
    p23_fixed_neg_d 400, 450, true;
    p23_fixed_neg_e 450, 512, true;
}
