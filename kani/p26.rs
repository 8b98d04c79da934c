//! P26 the public mathematical constants are the nearest data to the real numbers
//! (generated by tools/gen_p26.py, computed independently with mpmath at 1000 bits).
use crate::consts::*;

macro_rules! eq {
    ($h:ident, $c:ident, $hi:expr, $lo:expr) => {
        #[kani::proof]
        fn $h() {
            assert!($c.to_bits() == ($hi, $lo), "nearest datum");
        }
    };
}
eq!(p26_pi, PI, 0x40000921fb54442d18469898cc51701b, 0x839a252049c1114cf98e804177d4c762);
eq!(p26_tau, TAU, 0x40001921fb54442d18469898cc51701b, 0x839a252049c1114cf98e804177d4c762);
eq!(p26_frac_3_pi_2, FRAC_3_PI_2, 0x400012d97c7f3321d234f272993d1414, 0xa2b39bd83750ccf9bb2ae03119df958a);
eq!(p26_frac_pi_2, FRAC_PI_2, 0x3ffff921fb54442d18469898cc51701b, 0x839a252049c1114cf98e804177d4c762);
eq!(p26_frac_pi_3, FRAC_PI_3, 0x3ffff0c152382d73658465bb32e0f567, 0xad116e158680b6335109aad64fe32f97);
eq!(p26_frac_pi_4, FRAC_PI_4, 0x3fffe921fb54442d18469898cc51701b, 0x839a252049c1114cf98e804177d4c762);
eq!(p26_frac_pi_6, FRAC_PI_6, 0x3fffe0c152382d73658465bb32e0f567, 0xad116e158680b6335109aad64fe32f97);
eq!(p26_frac_pi_8, FRAC_PI_8, 0x3fffd921fb54442d18469898cc51701b, 0x839a252049c1114cf98e804177d4c762);
eq!(p26_frac_1_pi, FRAC_1_PI, 0x3fffd45f306dc9c882a53f84eafa3ea6, 0x9bb81b6c52b3278872083fca2c757bd7);
eq!(p26_frac_2_pi, FRAC_2_PI, 0x3fffe45f306dc9c882a53f84eafa3ea6, 0x9bb81b6c52b3278872083fca2c757bd7);
eq!(p26_sqrt_pi, SQRT_PI, 0x3ffffc5bf891b4ef6aa79c3b0520d5db, 0x9383fe3921546f63b252dca100bd3ea1);
eq!(p26_frac_2_sqrt_pi, FRAC_2_SQRT_PI, 0x3ffff20dd750429b6d11ae3a914fed7f, 0xd8688281341d7587cea2e7342b06199d);
eq!(p26_sqrt_2, SQRT_2, 0x3ffff6a09e667f3bcc908b2fb1366ea9, 0x57d3e3adec17512775099da2f590b066);
eq!(p26_frac_1_sqrt_2, FRAC_1_SQRT_2, 0x3fffe6a09e667f3bcc908b2fb1366ea9, 0x57d3e3adec17512775099da2f590b066);
eq!(p26_sqrt_5, SQRT_5, 0x400001e3779b97f4a7c15f39cc0605ce, 0xdc8341082276bf3a27251f86c6a11d0c);
eq!(p26_phi, PHI, 0x3ffff9e3779b97f4a7c15f39cc0605ce, 0xdc8341082276bf3a27251f86c6a11d0c);
eq!(p26_gamma, GAMMA, 0x3fffe2788cfc6fb618f49a37c7f0202a, 0x596ad439d9875ecb980321807be68e13);
eq!(p26_e, E, 0x400005bf0a8b1457695355fb8ac404e7, 0xa79e3b1738b079c5a6d2b53c26c8228d);
