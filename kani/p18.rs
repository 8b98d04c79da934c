//! P18 integers convert exactly.
use crate::f256;
use crate::verif_spec::*;

fn check(r: Bits, s: bool, v: u128) {
    if v == 0 {
        assert!(r == (0, 0), "zero");
    } else {
        assert!(r == with_sign(s, rne([v, 0, 0, 0], -TMIN, false)), "the integer's value");
    }
}
macro_rules! unsigned {
    ($($n:ident $t:ty),*) => { $(
        #[kani::proof]
        fn $n() {
            let i: $t = kani::any();
            check(f256::from(i).to_bits(), false, i as u128);
            kani::cover!(i == <$t>::MAX);
        }
    )* };
}
macro_rules! signed {
    ($($n:ident $t:ty),*) => { $(
        #[kani::proof]
        fn $n() {
            let i: $t = kani::any();
            check(f256::from(i).to_bits(), i < 0, i.unsigned_abs() as u128);
            kani::cover!(i == <$t>::MIN);
        }
    )* };
}
unsigned!(p18_u8 u8, p18_u16 u16, p18_u32 u32, p18_u64 u64, p18_u128 u128);
signed!(p18_i8 i8, p18_i16 i16, p18_i32 i32, p18_i64 i64, p18_i128 i128);
