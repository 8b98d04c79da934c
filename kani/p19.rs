//! P19 f32 and f64 convert exactly.
use crate::f256;
use crate::verif_spec::*;

macro_rules! check {
    ($name:ident $f:ty, $u:ty, $fb:expr, $eb:expr) => {
        #[kani::proof]
        fn $name() {
            const FB: u32 = $fb;
            const EM: $u = (1 << $eb) - 1;
            let bits: $u = kani::any();
            let r = f256::from(<$f>::from_bits(bits)).to_bits();
            let s = bits >> (FB + $eb) != 0;
            let e = bits >> FB & EM;
            let m = bits & ((1 << FB) - 1);
            let bias = (EM >> 1) as i32;
            if e == EM {
                if m == 0 {
                    assert!(r == with_sign(s, (INF, 0)), "infinities");
                } else {
                    assert!(is_nan(r), "NaN");
                }
            } else if e == 0 && m == 0 {
                assert!(r == with_sign(s, (0, 0)), "zeros keep their sign");
            } else {
                let (m, e) = if e == 0 { (m, 1) } else { (m | 1 << FB, e as i32) };
                let t = e - bias - FB as i32;
                assert!(r == with_sign(s, rne([m as u128, 0, 0, 0], t - TMIN, false)), "the float's value");
            }
            kani::cover!(e == EM && m != 0);
            kani::cover!(e == 0 && m != 0);
            kani::cover!(e == EM - 1);
        }
    };
}
check!(p19_f32 f32, u32, 23, 8);
check!(p19_f64 f64, u64, 52, 11);
