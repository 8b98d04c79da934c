//! P17 ulp: the distance to the next datum of larger magnitude.
use crate::f256;
use crate::verif_spec::*;

#[kani::proof]
fn p17_ulp() {
    let b = any_bits();
    let r = f256::from_bits(b).ulp().to_bits();
    if !is_finite(b) {
        assert!(is_nan(r), "ulp of NaN and infinities");
    } else {
        let (e, _) = dec(b);
        // weight of the last significand digit
        assert!(r == rne([1, 0, 0, 0], e, false), "ulp == 2^quantum exponent");
    }
    kani::cover!(ef(r) == 0 && is_finite(b));
    kani::cover!(is_finite(b) && ef(b) > 300 && ef(r) > 1);
    kani::cover!(is_zero(b));
}
