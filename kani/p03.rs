//! P03 decomposition into and assembly from sign, quantum exponent and
//! integral significand.
use crate::f256;
use crate::verif_spec::*;

/// every finite datum: (-1)^s * 2^t * c with c odd (or 0)
#[kani::proof]
fn p03_decompose() {
    let b = any_bits();
    kani::assume(is_finite(b));
    let (s, t, c) = f256::from_bits(b).as_sign_exp_signif();
    assert!(s == neg(b) as u32, "sign");
    if is_zero(b) {
        assert!(c == (0, 0), "zero: significand 0");
    } else {
        let (e, m) = dec(b);
        let z = ctz(m);
        assert!(c == shr2(m, z as u32), "significand: trailing zeros removed");
        assert!(t == TMIN + e + z, "quantum exponent");
    }
    kani::cover!(is_zero(b));
    kani::cover!(!is_zero(b) && ef(b) == 0);
    kani::cover!(ef(b) != 0);
}
/// assembly from every admissible triple: the represented value
#[kani::proof]
fn p03_assemble() {
    let neg_: bool = kani::any();
    let t: i32 = kani::any();
    let c = any_bits();
    kani::assume(c != (0, 0) && c.0 < 1 << 109);
    kani::assume(t >= TMIN && t <= EMAX / 2 - 236);
    let r = f256::from_sign_exp_signif(neg_ as u32, t, c).to_bits();
    let e = rne(w(c), t - TMIN, false);
    assert!(r == with_sign(neg_, e), "(-1)^s * 2^t * c");
    kani::cover!(ef(r) == 0);
    kani::cover!(ef(r) == EMAX - 1);
    kani::cover!(c.0 == 0 && ef(r) > 0);
}
#[kani::proof]
fn p03_round_trip() {
    let b = any_bits();
    kani::assume(finite_nonzero(b));
    // only the trimmed significands reach the assembly here
    let x = f256::from_bits(b);
    let (s, t, c) = x.as_sign_exp_signif();
    // admissible triples have t <= Emax - p + 1: shift the surplus back
    kani::assume(t <= EMAX / 2 - 236);
    assert!(f256::from_sign_exp_signif(s, t, c).to_bits() == b, "assemble(decompose(x)) == x");
    kani::cover!(ef(b) == 0);
    kani::cover!(ef(b) > 300000);
}
#[kani::proof]
fn p03_zero_inf() {
    let s: bool = kani::any();
    assert!(f256::from_sign_exp_signif(s as u32, 0, (0, 0)).to_bits() == with_sign(s, (0, 0)), "zero");
}
