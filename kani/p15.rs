//! P15 rounding to integral values.
use crate::f256;
use crate::verif_spec::*;

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Trunc,
    Ceil,
    Floor,
    Round,
    TieEven,
}
/// magnitude of the wanted integral value, finite b
fn want(b: Bits, mode: Mode) -> Bits {
    let (e, m) = dec(b);
    let t = TMIN + e;
    if t >= 0 {
        return mag(b);
    }
    let d = -t;
    // m = q * 2^d + r
    let (q, exact, half_or_more, above_half) = if d > 237 {
        ((0, 0), m == (0, 0), false, false)
    } else {
        let d = d as u32;
        let q = shr2(m, d);
        let half = shr2(m, d - 1).1 & 1 == 1;
        let rest = shl2(m, 257 - d) != (0, 0);
        (q, shl2(m, 256 - d) == (0, 0), half, half && rest)
    };
    let up = match mode {
        Mode::Trunc => false,
        Mode::Ceil => !exact && !neg(b),
        Mode::Floor => !exact && neg(b),
        Mode::Round => half_or_more,
        Mode::TieEven => above_half || (half_or_more && q.1 & 1 == 1),
    };
    let q = add2(q, (0, up as u128));
    if q == (0, 0) {
        (0, 0)
    } else {
        rne(w(q), -TMIN, false)
    }
}
fn check(b: Bits, r: Bits, mode: Mode) {
    if is_nan(b) {
        assert!(is_nan(r), "NaN");
    } else if is_inf(b) {
        assert!(r == b, "infinities are unchanged");
    } else {
        let e = want(b, mode);
        // the sign of a zero result is not pinned
        if e == (0, 0) {
            assert!(is_zero(r), "result 0");
        } else {
            assert!(r == with_sign(neg(b), e), "the wanted integral value");
        }
    }
    kani::cover!(is_finite(b) && !is_zero(r) && r != b);
    kani::cover!(is_zero(r) && !is_zero(b));
    kani::cover!(!neg(b) && !is_zero(r) && r.0 > b.0 || mode == Mode::Trunc || mode == Mode::Floor);
}
#[kani::proof]
fn p15_trunc() {
    let b = any_bits();
    check(b, f256::from_bits(b).trunc().to_bits(), Mode::Trunc);
}
#[kani::proof]
fn p15_ceil() {
    let b = any_bits();
    check(b, f256::from_bits(b).ceil().to_bits(), Mode::Ceil);
}
#[kani::proof]
fn p15_floor() {
    let b = any_bits();
    check(b, f256::from_bits(b).floor().to_bits(), Mode::Floor);
}
#[kani::proof]
fn p15_round() {
    let b = any_bits();
    check(b, f256::from_bits(b).round().to_bits(), Mode::Round);
}
#[kani::proof]
fn p15_round_tie_even() {
    let b = any_bits();
    check(b, f256::from_bits(b).round_tie_even().to_bits(), Mode::TieEven);
}
