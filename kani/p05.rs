//! P05 min, max, clamp.
use core::cmp::Ordering;

use crate::f256;
use crate::verif_spec::*;

fn ucmp(a: Bits, b: Bits) -> Ordering {
    if a < b {
        Ordering::Less
    } else if a == b {
        Ordering::Equal
    } else {
        Ordering::Greater
    }
}
fn vcmp(a: Bits, b: Bits) -> Ordering {
    if is_zero(a) && is_zero(b) {
        return Ordering::Equal;
    }
    match (neg(a), neg(b)) {
        (true, false) => Ordering::Less,
        (false, true) => Ordering::Greater,
        (false, false) => ucmp(mag(a), mag(b)),
        (true, true) => ucmp(mag(b), mag(a)),
    }
}
fn same(r: Bits, e: Bits) -> bool {
    r == e || (is_nan(r) && is_nan(e))
}
/// r is one of a, b, and no operand is beyond it in direction `d`
fn is_ext(r: Bits, a: Bits, b: Bits, d: Ordering) -> bool {
    (r == a || r == b) && vcmp(a, r) != d && vcmp(b, r) != d
}
fn check(a: Bits, b: Bits, gt: Ordering, lt: Ordering) {
    let (x, y) = (f256::from_bits(a), f256::from_bits(b));
    let (mx, mn) = (x.max(y).to_bits(), x.min(y).to_bits());
    if is_nan(a) && is_nan(b) {
        assert!(is_nan(mx) && is_nan(mn), "max/min of two NaNs");
    } else if is_nan(a) {
        assert!(mx == b && mn == b, "max/min: NaN on the left is ignored");
    } else if is_nan(b) {
        assert!(mx == a && mn == a, "max/min: NaN on the right is ignored");
    } else {
        assert!(is_ext(mx, a, b, gt), "max");
        assert!(is_ext(mn, a, b, lt), "min");
    }
}
#[kani::proof]
fn p05_min_max() {
    let (a, b) = (any_bits(), any_bits());
    // two negative values: P04's known finding shows through, see p05_kf_*
    kani::assume(!(neg(a) && neg(b)) || a == b || is_nan(a) || is_nan(b));
    check(a, b, Ordering::Greater, Ordering::Less);
    kani::cover!(is_nan(a) && !is_nan(b));
    kani::cover!(is_nan(b) && !is_nan(a));
    kani::cover!(neg(a) && !neg(b));
}
fn kf_pair() -> (Bits, Bits) {
    let (a, b) = (any_bits(), any_bits());
    kani::assume(neg(a) && neg(b) && !is_nan(a) && !is_nan(b));
    (a, b)
}
#[kani::proof]
fn p05_kf_correct_min_max() {
    let (a, b) = kf_pair();
    check(a, b, Ordering::Greater, Ordering::Less);
}
#[kani::proof]
fn p05_kf_listed_min_max() {
    let (a, b) = kf_pair();
    check(a, b, Ordering::Less, Ordering::Greater);
}
fn check_clamp(x: Bits, lo: Bits, hi: Bits) {
    let r = f256::from_bits(x).clamp(f256::from_bits(lo), f256::from_bits(hi)).to_bits();
    if is_nan(x) {
        assert!(is_nan(r), "clamp(NaN) is NaN");
    } else if vcmp(x, lo) == Ordering::Less {
        assert!(r == lo, "clamp: below -> lower bound");
    } else if vcmp(x, hi) == Ordering::Greater {
        assert!(r == hi, "clamp: above -> upper bound");
    } else {
        assert!(r == x, "clamp: inside -> unchanged");
    }
}
/// at most one of the three values is negative
#[kani::proof]
fn p05_clamp() {
    let (x, lo, hi) = (any_bits(), any_bits(), any_bits());
    kani::assume(!is_nan(lo) && !is_nan(hi) && vcmp(lo, hi) != Ordering::Greater);
    kani::assume(neg(x) as u8 + neg(lo) as u8 + neg(hi) as u8 <= 1 || is_nan(x) && !(neg(lo) && neg(hi)));
    check_clamp(x, lo, hi);
    kani::cover!(is_nan(x));
    kani::cover!(x < lo && !neg(lo));
    kani::cover!(x > hi && !neg(x));
    kani::cover!(neg(lo) && !neg(hi));
}
fn rest() -> (Bits, Bits, Bits) {
    let (x, lo, hi) = (any_bits(), any_bits(), any_bits());
    kani::assume(!is_nan(x) && !is_nan(lo) && !is_nan(hi));
    kani::assume(neg(x) as u8 + neg(lo) as u8 + neg(hi) as u8 >= 2);
    (x, lo, hi)
}
#[kani::proof]
fn p05_kf_correct_clamp() {
    let (x, lo, hi) = rest();
    kani::assume(vcmp(lo, hi) != Ordering::Greater);
    check_clamp(x, lo, hi);
}
/// negative values are ordered in reverse today
fn rcmp(a: Bits, b: Bits) -> Ordering {
    if neg(a) && neg(b) {
        vcmp(b, a)
    } else {
        vcmp(a, b)
    }
}
#[kani::proof]
fn p05_kf_listed_clamp() {
    let (x, lo, hi) = rest();
    kani::assume(rcmp(lo, hi) != Ordering::Greater);
    let r = f256::from_bits(x).clamp(f256::from_bits(lo), f256::from_bits(hi)).to_bits();
    let e = if rcmp(x, lo) == Ordering::Less {
        lo
    } else if rcmp(x, hi) == Ordering::Greater {
        hi
    } else {
        x
    };
    assert!(r == e, "clamp with two negatives: not the listed finding");
}
