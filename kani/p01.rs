//! P01 classification: contracts of the classification functions.
use core::num::FpCategory;

use crate::f256;
use crate::verif_spec::*;

#[kani::proof]
fn p01_classification() {
    let b = any_bits();
    let x = f256::from_bits(b);
    let (m, e) = (mag(b), ef(b));
    let nan = e == EMAX && (m.0 & FRAC, m.1) != (0, 0);
    let inf = e == EMAX && !nan;
    let zero = e == 0 && (m.0 & FRAC, m.1) == (0, 0);
    let sub = e == 0 && !zero;
    let norm = e != 0 && e != EMAX;
    assert!(x.is_nan() == nan, "is_nan");
    assert!(x.is_infinite() == inf, "is_infinite");
    assert!(x.is_finite() == (zero || sub || norm), "is_finite");
    assert!(x.is_subnormal() == sub, "is_subnormal");
    assert!(x.is_normal() == norm, "is_normal");
    assert!(x.eq_zero() == zero, "eq_zero");
    assert!(x.is_special() == (nan || inf || zero), "is_special");
    assert!(x.is_sign_negative() == neg(b), "is_sign_negative");
    assert!(x.is_sign_positive() == !neg(b), "is_sign_positive");
    let c = if nan {
        FpCategory::Nan
    } else if inf {
        FpCategory::Infinite
    } else if zero {
        FpCategory::Zero
    } else if sub {
        FpCategory::Subnormal
    } else {
        FpCategory::Normal
    };
    assert!(x.classify() == c, "classify");
    kani::cover!(nan);
    kani::cover!(inf);
    kani::cover!(zero);
    kani::cover!(sub);
    kani::cover!(norm);
}

/// The named constants are the data the documentation says they are.
#[kani::proof]
fn p01_constants() {
    const ONE: u128 = (BIAS as u128) << 108;
    assert!(f256::INFINITY.to_bits() == (INF, 0), "INFINITY");
    assert!(f256::NEG_INFINITY.to_bits() == (INF | SIGN, 0), "NEG_INFINITY");
    assert!(is_nan(f256::NAN.to_bits()), "NAN");
    assert!(f256::ZERO.to_bits() == (0, 0), "ZERO");
    assert!(f256::NEG_ZERO.to_bits() == (SIGN, 0), "NEG_ZERO");
    assert!(f256::ONE.to_bits() == (ONE, 0), "ONE");
    assert!(f256::NEG_ONE.to_bits() == (ONE | SIGN, 0), "NEG_ONE");
    assert!(f256::TWO.to_bits() == (ONE + HID, 0), "TWO");
    assert!(f256::TEN.to_bits() == (ONE + 3 * HID + (1 << 106), 0), "TEN");
    assert!(f256::EPSILON.to_bits() == (ONE - 236 * HID, 0), "EPSILON");
    assert!(f256::MAX.to_bits() == (INF - 1, u128::MAX), "MAX");
    assert!(f256::MIN.to_bits() == ((INF - 1) | SIGN, u128::MAX), "MIN");
    assert!(f256::MIN_POSITIVE.to_bits() == (HID, 0), "MIN_POSITIVE");
    assert!(f256::MIN_GT_ZERO.to_bits() == (0, 1), "MIN_GT_ZERO");
    assert!(f256::default().to_bits() == (0, 0), "default");
    assert!(f256::RADIX == 2 && f256::MANTISSA_DIGITS == 237 && f256::SIGNIFICANT_DIGITS == 237, "RADIX, *_DIGITS");
    assert!(f256::DIGITS == 71, "DIGITS");
    assert!(f256::MAX_EXP == 262144 && f256::MIN_EXP == -262141, "MAX_EXP, MIN_EXP");
    assert!(f256::MAX_10_EXP == 78913 && f256::MIN_10_EXP == -78912, "MAX_10_EXP, MIN_10_EXP");
}
