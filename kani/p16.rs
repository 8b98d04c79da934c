//! P16 integer and fractional part: x = trunc(x) + fract(x), exactly.
#![allow(unsafe_code)]
use crate::f256;
use crate::verif_spec::*;

/// (integer part, fractional part) magnitudes of a finite datum
fn parts(b: Bits) -> (Bits, Bits) {
    let (e, m) = dec(b);
    let t = TMIN + e;
    if t >= 0 {
        return (mag(b), (0, 0));
    }
    let d = -t;
    if d > 237 {
        return ((0, 0), mag(b));
    }
    let d = d as u32;
    let q = shr2(m, d);
    let r = shr2(shl2(m, 256 - d), 256 - d);
    let int = if q == (0, 0) { q } else { rne(w(q), -TMIN, false) };
    let fr = if r == (0, 0) { r } else { rne(w(r), e, false) };
    (int, fr)
}
fn eqz(r: Bits, s: bool, e: Bits) -> bool {
    if e == (0, 0) {
        is_zero(r)
    } else {
        r == with_sign(s, e)
    }
}
static mut X: Bits = (0, 0);
static mut EI: Bits = (0, 0);
static mut EF: Bits = (0, 0);
/// contract of `trunc` (P15)
fn trunc_ghost(x: &f256) -> f256 {
    let x = x.to_bits();
    unsafe {
        assert!(x == X, "UNDECIDED: argument of trunc");
        if is_nan(x) {
            let r = any_bits();
            kani::assume(is_nan(r));
            return f256::from_bits(r);
        }
        if is_inf(x) {
            return f256::from_bits(x);
        }
        let r = any_bits();
        kani::assume(eqz(r, neg(x), EI));
        f256::from_bits(r)
    }
}
/// contract instance of `add` (P07: the datum nearest to the exact sum) for
/// the sum of x and the negated integer part of x, which is representable
fn add_ghost(x: f256, y: f256) -> f256 {
    let (x, y, r) = (x.to_bits(), y.to_bits(), any_bits());
    unsafe {
        if is_nan(x) || is_nan(y) || (is_inf(x) && is_inf(y) && neg(x) != neg(y)) {
            kani::assume(is_nan(r));
        } else if is_finite(x) && is_finite(y) {
            assert!(x == X && mag(y) == EI && (neg(x) != neg(y) || is_zero(y)), "UNDECIDED: arguments of the addition");
            kani::assume(eqz(r, neg(x), EF));
        } else {
            kani::assume(is_inf(r));
        }
    }
    f256::from_bits(r)
}
fn arg() -> Bits {
    let b = any_bits();
    unsafe {
        X = b;
        if is_finite(b) {
            (EI, EF) = parts(b);
        }
    }
    b
}
#[kani::proof]
#[kani::stub(crate::binops::add::add, add_ghost)]
#[kani::stub(crate::f256::trunc, trunc_ghost)]
#[kani::solver(kissat)]
fn p16_fract() {
    let b = arg();
    let f = f256::from_bits(b).fract().to_bits();
    if is_nan(b) {
        assert!(is_nan(f), "fract(NaN)");
    } else if is_finite(b) {
        assert!(eqz(f, neg(b), unsafe { EF }), "fract");
    }
    kani::cover!(is_zero(f) && !is_zero(b));
    kani::cover!(!is_zero(f) && f != b);
}
#[kani::proof]
#[kani::stub(crate::binops::add::add, add_ghost)]
#[kani::stub(crate::f256::trunc, trunc_ghost)]
#[kani::solver(kissat)]
fn p16_split() {
    let b = arg();
    let (i, f) = f256::from_bits(b).split();
    let (i, f) = (i.to_bits(), f.to_bits());
    if is_nan(b) {
        assert!(is_nan(i) && is_nan(f), "split(NaN)");
    } else if is_finite(b) {
        let (ei, ef) = unsafe { (EI, EF) };
        assert!(eqz(i, neg(b), ei), "split: integer part");
        assert!(eqz(f, neg(b), ef), "split: fractional part");
    } else {
        assert!(i == b, "split: integer part of an infinity");
    }
    kani::cover!(is_zero(i) && !is_zero(b));
    kani::cover!(!is_zero(i) && !is_zero(f));
}
