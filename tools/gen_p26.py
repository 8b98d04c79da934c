#!/usr/bin/env python3-vt
"""Writes kani/p26.rs: the correctly rounded binary256 values of the public
mathematical constants, computed with mpmath at 1000 bits."""
import os
import mpmath as M
M.mp.prec = 1000
C = dict(PI=M.pi, TAU=2 * M.pi, FRAC_3_PI_2=1.5 * M.pi, FRAC_PI_2=M.pi / 2, FRAC_PI_3=M.pi / 3, FRAC_PI_4=M.pi / 4,
         FRAC_PI_6=M.pi / 6, FRAC_PI_8=M.pi / 8, FRAC_1_PI=1 / M.pi, FRAC_2_PI=2 / M.pi, SQRT_PI=M.sqrt(M.pi),
         FRAC_2_SQRT_PI=2 / M.sqrt(M.pi), SQRT_2=M.sqrt(2), FRAC_1_SQRT_2=1 / M.sqrt(2), SQRT_5=M.sqrt(5),
         PHI=(1 + M.sqrt(5)) / 2, GAMMA=+M.euler, E=M.e)


def rne(x):
    with M.workprec(237):
        m, e = (+x).man_exp
    m = int(m)
    e -= 237 - m.bit_length()
    m <<= 237 - m.bit_length()
    b = ((e + 236 + 262143) << 236) | (m & ((1 << 236) - 1))
    return b >> 128, b & ((1 << 128) - 1)


out = """//! P26 the public mathematical constants are the nearest data to the real numbers
//! (generated by tools/gen_p26.py, computed independently with mpmath at 1000 bits).
use crate::consts::*;

macro_rules! eq {
    ($h:ident, $c:ident, $hi:expr, $lo:expr) => {
        #[kani::proof]
        fn $h() {
            assert!($c.to_bits() == ($hi, $lo), "nearest datum");
        }
    };
}
"""
for n, v in C.items():
    out += "eq!(p26_%s, %s, 0x%032x, 0x%032x);\n" % ((n.lower(), n) + rne(+v))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "kani", "p26.rs"), "w").write(out)
