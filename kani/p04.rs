//! P04 equality and ordering.
use core::cmp::Ordering;

use crate::f256;
use crate::verif_spec::*;

fn ucmp(a: Bits, b: Bits) -> Ordering {
    if a < b {
        Ordering::Less
    } else if a == b {
        Ordering::Equal
    } else {
        Ordering::Greater
    }
}
/// order of the represented values; zeros are equal; no NaNs
fn vcmp(a: Bits, b: Bits) -> Ordering {
    if is_zero(a) && is_zero(b) {
        return Ordering::Equal;
    }
    tcmp(a, b)
}
/// IEEE 754 totalOrder
fn tcmp(a: Bits, b: Bits) -> Ordering {
    match (neg(a), neg(b)) {
        (true, false) => Ordering::Less,
        (false, true) => Ordering::Greater,
        (false, false) => ucmp(mag(a), mag(b)),
        (true, true) => ucmp(mag(b), mag(a)),
    }
}
#[kani::proof]
fn p04_eq() {
    let (a, b) = (any_bits(), any_bits());
    let (x, y) = (f256::from_bits(a), f256::from_bits(b));
    let e = !is_nan(a) && !is_nan(b) && (a == b || (is_zero(a) && is_zero(b)));
    assert!((x == y) == e, "==");
    assert!((x != y) != e, "!=");
    kani::cover!(e && a != b);
    kani::cover!(a == b && !e);
}
#[kani::proof]
fn p04_total_cmp() {
    let (a, b) = (any_bits(), any_bits());
    // pairs of negative values: see p04_kf_* below
    kani::assume(!(neg(a) && neg(b)) || a == b);
    assert!(f256::from_bits(a).total_cmp(&f256::from_bits(b)) == tcmp(a, b), "total_cmp");
    kani::cover!(neg(a) && !neg(b));
    kani::cover!(is_nan(a));
    kani::cover!(a < b && !neg(a));
}
#[kani::proof]
fn p04_partial_cmp() {
    let (a, b) = (any_bits(), any_bits());
    kani::assume(!(neg(a) && neg(b)) || mag(a) == mag(b) || is_nan(a) || is_nan(b));
    let (x, y) = (f256::from_bits(a), f256::from_bits(b));
    let e = if is_nan(a) || is_nan(b) { None } else { Some(vcmp(a, b)) };
    assert!(x.partial_cmp(&y) == e, "partial_cmp");
    assert!((x < y) == (e == Some(Ordering::Less)), "<");
    assert!((x > y) == (e == Some(Ordering::Greater)), ">");
    assert!((x <= y) == (e == Some(Ordering::Less) || e == Some(Ordering::Equal)), "<=");
    assert!((x >= y) == (e == Some(Ordering::Greater) || e == Some(Ordering::Equal)), ">=");
    kani::cover!(e.is_none());
    kani::cover!(e == Some(Ordering::Equal) && a != b);
    kani::cover!(e == Some(Ordering::Less));
}
fn kf_pair() -> (Bits, Bits) {
    let (a, b) = (any_bits(), any_bits());
    kani::assume(neg(a) && neg(b) && a != b);
    (a, b)
}
/// holds once the defect is repaired
#[kani::proof]
fn p04_kf_correct() {
    let (a, b) = kf_pair();
    let (x, y) = (f256::from_bits(a), f256::from_bits(b));
    assert!(x.total_cmp(&y) == tcmp(a, b), "total_cmp of two negatives");
    if !is_nan(a) && !is_nan(b) {
        assert!(x.partial_cmp(&y) == Some(tcmp(a, b)), "partial_cmp of two negatives");
        assert!((x < y) == (tcmp(a, b) == Ordering::Less), "< of two negatives");
        assert!((x > y) == (tcmp(a, b) == Ordering::Greater), "> of two negatives");
    }
}
/// what the code does today (known finding): exactly the reversed order
#[kani::proof]
fn p04_kf_listed() {
    let (a, b) = kf_pair();
    let (x, y) = (f256::from_bits(a), f256::from_bits(b));
    assert!(x.total_cmp(&y) == tcmp(a, b).reverse(), "total_cmp of two negatives: not the listed finding");
    if !is_nan(a) && !is_nan(b) {
        let r = tcmp(a, b).reverse();
        assert!(x.partial_cmp(&y) == Some(r), "partial_cmp of two negatives: not the listed finding");
        assert!((x < y) == (r == Ordering::Less), "< of two negatives: not the listed finding");
        assert!((x > y) == (r == Ordering::Greater), "> of two negatives: not the listed finding");
    }
}
