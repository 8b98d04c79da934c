//! P06 sign operations touch the sign bit only.
use crate::f256;
use crate::verif_spec::*;

#[kani::proof]
fn p06_neg_abs() {
    let b = any_bits();
    let x = f256::from_bits(b);
    assert!((-x).to_bits() == (b.0 ^ SIGN, b.1), "-x");
    assert!((-&x).to_bits() == (b.0 ^ SIGN, b.1), "-&x");
    assert!((-(-x)).to_bits() == b, "-(-x)");
    assert!(x.abs().to_bits() == mag(b), "abs");
    kani::cover!(is_nan(b));
    kani::cover!(is_zero(b) && neg(b));
}
