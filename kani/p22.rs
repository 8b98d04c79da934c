//! P22 to_degrees / to_radians: nearest datum to x * (M / 2^sh), where M / 2^sh
//! approximates 180 / pi (pi / 180) with a relative error below 2^-236.
#![allow(unsafe_code)]
use crate::f256;
use crate::verif_hooks::*;
use crate::verif_spec::*;

// floor(180 / pi * 2^250), floor(pi / 180 * 2^261), computed independently
const DEG: Bits = (0xe52ee0d31e0fbdc30a97537f40d257d7, 0x3482a25f7cbf02dccda27429b1380d91);
const RAD: Bits = (0x8efa351294e9c8ae0ec5f66e9485c4d9, 0x00b7aef501b5e6b8e502a9b4c94c8512);

fn near(a: Bits, k: Bits) -> bool {
    let d = if a >= k { sub2(a, k) } else { sub2(k, a) };
    d < (0, 1 << 19)
}
fn finite(k: Bits, sh: i32, f: fn(f256) -> f256, lo: i32, hi: i32) {
    let x = any_bits();
    kani::assume(finite_nonzero(x));
    let (e, m) = dec(x);
    kani::assume(e >= lo && e < hi);
    wm_on();
    unsafe { WM_CTZ = false };
    let r = f(f256::from_bits(x)).to_bits();
    let n = unsafe { WM_N };
    assert!(n == 1, "UNDECIDED: number of calls of widening_mul");
    let c = unsafe { WM[0] };
    let (a, b) = if near(c.a, k) { (c.a, c.b) } else { (c.b, c.a) };
    assert!(near(a, k), "UNDECIDED: factor");
    assert!(b == m, "UNDECIDED: significand");
    assert!(neg(r) == neg(x), "sign");
    assert!(mag(r) == rne(c.p, e - sh, false), "nearest datum to the product");
}
macro_rules! h {
    ($($n:ident $k:expr, $sh:expr, $f:ident, $lo:expr, $hi:expr;)*) => { $(
        #[kani::proof]
        #[kani::solver(kissat)]
        fn $n() { finite($k, $sh, f256::$f, $lo, $hi) }
    )* };
}
h! {
    p22_deg_a DEG, 250, to_degrees, 0, 1;
    p22_deg_b DEG, 250, to_degrees, 1, 512;
    p22_deg_c DEG, 250, to_degrees, 512, EMAX;
    p22_rad_a RAD, 261, to_radians, 0, 1;
    p22_rad_b RAD, 261, to_radians, 1, 512;
    p22_rad_c RAD, 261, to_radians, 512, EMAX;
}
#[kani::proof]
fn p22_special() {
    let x = any_bits();
    kani::assume(!finite_nonzero(x));
    for r in [f256::from_bits(x).to_degrees().to_bits(), f256::from_bits(x).to_radians().to_bits()] {
        if is_nan(x) {
            assert!(is_nan(r), "NaN");
        } else {
            assert!(r == x, "zero, infinity");
        }
    }
    kani::cover!(is_zero(x) && neg(x));
    kani::cover!(is_inf(x));
}
#[kani::proof]
fn p22_cover() {
    let x = any_bits();
    kani::assume(finite_nonzero(x));
    wm_on();
    let d = f256::from_bits(x).to_degrees().to_bits();
    kani::cover!(is_inf(d));
    kani::cover!(ef(x) == 0 && ef(d) > 0);
}
