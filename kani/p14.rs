//! P14 scaling by powers of two: x * 2^n and x / 2^n, rounded once.
use crate::f256;
use crate::verif_spec::*;

fn check(b: Bits, n: i64, r: Bits) {
    if is_nan(b) {
        assert!(is_nan(r), "NaN");
    } else if is_inf(b) || is_zero(b) {
        assert!(r == b, "infinities and zeros are unchanged");
    } else {
        let (e, m) = dec(b);
        let n = if n > 2000000 {
            2000000
        } else if n < -2000000 {
            -2000000
        } else {
            n as i32
        };
        assert!(r == with_sign(neg(b), rne(w(m), e + n, false)), "nearest datum to x * 2^n");
    }
}
#[kani::proof]
fn p14_mul_pow2() {
    let b = any_bits();
    let n: u32 = kani::any();
    let r = f256::from_bits(b).mul_pow2(n).to_bits();
    check(b, n as i64, r);
    kani::cover!(ef(b) == 0 && ef(r) > 1);
    kani::cover!(is_finite(b) && is_inf(r));
    kani::cover!(ef(b) == 0 && ef(r) == 0 && n > 0);
}
#[kani::proof]
fn p14_div_pow2() {
    let b = any_bits();
    let n: u32 = kani::any();
    let r = f256::from_bits(b).div_pow2(n).to_bits();
    check(b, -(n as i64), r);
    kani::cover!(ef(b) > 1 && ef(r) == 0 && !is_zero(r));
    kani::cover!(!is_zero(b) && is_zero(r));
    kani::cover!(ef(b) == 0 && !is_zero(r) && n > 0);
}
#[kani::proof]
fn p14_mul2_div2() {
    let b = any_bits();
    let x = f256::from_bits(b);
    check(b, 1, x.mul2().to_bits());
    check(b, -1, x.div2().to_bits());
}
