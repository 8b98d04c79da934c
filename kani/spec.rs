//! Independent specification of IEEE 754 binary256 used by the contracts.
//! Data are pairs (hi, lo) of u128 (the encoding); wide integers are arrays of
//! u128, least significant limb first.  Nothing here calls the crate.
#![allow(dead_code, missing_docs, unreachable_pub, clippy::all)]

pub type Bits = (u128, u128);
pub const SIGN: u128 = 1 << 127;
pub const EMAX: i32 = 0x7ffff;
pub const INF: u128 = 0x7ffff << 108;
pub const HID: u128 = 1 << 108;
pub const FRAC: u128 = HID - 1;
pub const BIAS: i32 = 262143;
/// exponent of the quantum of the smallest subnormal: 1 = 2^-TMIN quanta
pub const TMIN: i32 = -262378;

pub fn any_bits() -> Bits {
    (kani::any(), kani::any())
}
pub fn mag(b: Bits) -> Bits {
    (b.0 & !SIGN, b.1)
}
pub fn neg(b: Bits) -> bool {
    b.0 & SIGN != 0
}
pub fn is_nan(b: Bits) -> bool {
    mag(b) > (INF, 0)
}
pub fn is_inf(b: Bits) -> bool {
    mag(b) == (INF, 0)
}
pub fn is_zero(b: Bits) -> bool {
    mag(b) == (0, 0)
}
pub fn is_finite(b: Bits) -> bool {
    mag(b).0 < INF
}
pub fn finite_nonzero(b: Bits) -> bool {
    is_finite(b) && !is_zero(b)
}
pub fn with_sign(s: bool, m: Bits) -> Bits {
    (m.0 | (s as u128) << 127, m.1)
}
/// biased exponent field
pub fn ef(b: Bits) -> i32 {
    (mag(b).0 >> 108) as i32
}
/// |b| = m * 2^(TMIN + e) with (e, m) = dec(b), e >= 0, m < 2^237
pub fn dec(b: Bits) -> (i32, Bits) {
    let e = ef(b);
    if e == 0 {
        (0, mag(b))
    } else {
        (e - 1, ((b.0 & FRAC) | HID, b.1))
    }
}
pub fn clz(a: Bits) -> i32 {
    if a.0 != 0 {
        a.0.leading_zeros() as i32
    } else {
        128 + a.1.leading_zeros() as i32
    }
}
pub fn ctz(a: Bits) -> i32 {
    if a.1 != 0 {
        a.1.trailing_zeros() as i32
    } else {
        128 + a.0.trailing_zeros() as i32
    }
}
pub fn shl2(a: Bits, n: u32) -> Bits {
    match n {
        0 => a,
        1..=127 => (a.0 << n | a.1 >> (128 - n), a.1 << n),
        128..=255 => (a.1 << (n - 128), 0),
        _ => (0, 0),
    }
}
pub fn shr2(a: Bits, n: u32) -> Bits {
    match n {
        0 => a,
        1..=127 => (a.0 >> n, a.1 >> n | a.0 << (128 - n)),
        128..=255 => (0, a.0 >> (n - 128)),
        _ => (0, 0),
    }
}
pub fn add2(a: Bits, b: Bits) -> Bits {
    let (lo, c) = a.1.overflowing_add(b.1);
    (a.0.wrapping_add(b.0).wrapping_add(c as u128), lo)
}
pub fn sub2(a: Bits, b: Bits) -> Bits {
    let (lo, c) = a.1.overflowing_sub(b.1);
    (a.0.wrapping_sub(b.0).wrapping_sub(c as u128), lo)
}

pub type W = [u128; 4];
pub fn w(m: Bits) -> W {
    [m.1, m.0, 0, 0]
}
fn adc(a: u128, b: u128, c: bool) -> (u128, bool) {
    let (s, c1) = a.overflowing_add(b);
    let (s, c2) = s.overflowing_add(c as u128);
    (s, c1 | c2)
}
pub fn wadd(a: W, b: W) -> W {
    let (r0, c) = adc(a[0], b[0], false);
    let (r1, c) = adc(a[1], b[1], c);
    let (r2, c) = adc(a[2], b[2], c);
    let (r3, _) = adc(a[3], b[3], c);
    [r0, r1, r2, r3]
}
pub fn wsub(a: W, b: W) -> W {
    let nb = [!b[0], !b[1], !b[2], !b[3]];
    let (r0, c) = adc(a[0], nb[0], true);
    let (r1, c) = adc(a[1], nb[1], c);
    let (r2, c) = adc(a[2], nb[2], c);
    let (r3, _) = adc(a[3], nb[3], c);
    [r0, r1, r2, r3]
}
pub fn wge(a: W, b: W) -> bool {
    (a[3], a[2], a[1], a[0]) >= (b[3], b[2], b[1], b[0])
}
pub fn wshl(a: W, n: u32) -> W {
    let mut a = a;
    if n >= 512 {
        return [0; 4];
    }
    if n & 256 != 0 {
        a = [0, 0, a[0], a[1]];
    }
    if n & 128 != 0 {
        a = [0, a[0], a[1], a[2]];
    }
    let s = n & 127;
    if s != 0 {
        let t = 128 - s;
        a = [a[0] << s, a[1] << s | a[0] >> t, a[2] << s | a[1] >> t, a[3] << s | a[2] >> t];
    }
    a
}
pub fn wshr(a: W, n: u32) -> W {
    let mut a = a;
    if n >= 512 {
        return [0; 4];
    }
    if n & 256 != 0 {
        a = [a[2], a[3], 0, 0];
    }
    if n & 128 != 0 {
        a = [a[1], a[2], a[3], 0];
    }
    let s = n & 127;
    if s != 0 {
        let t = 128 - s;
        a = [a[0] >> s | a[1] << t, a[1] >> s | a[2] << t, a[2] >> s | a[3] << t, a[3] >> s];
    }
    a
}
pub fn wbitlen(a: W) -> i32 {
    if a[3] != 0 {
        512 - a[3].leading_zeros() as i32
    } else if a[2] != 0 {
        384 - a[2].leading_zeros() as i32
    } else if a[1] != 0 {
        256 - a[1].leading_zeros() as i32
    } else {
        128 - a[0].leading_zeros() as i32
    }
}
/// Magnitude encoding of the binary256 datum nearest to (ties to even)
/// (p + eps) * 2^q quanta, with 0 < eps < 1 if `sticky`, else eps = 0.
/// Pre-condition: sticky ==> p >= 2^238 or q <= -2 (eps is then below the
/// rounding position).
pub fn rne(p: W, q: i32, sticky: bool) -> Bits {
    let l = wbitlen(p);
    // number of low bits to be dropped
    let s = if l - 237 > -q { l - 237 } else { -q };
    let (m, up) = if s <= 0 {
        (wshl(p, (-s) as u32), false)
    } else if s > 512 {
        ([0; 4], false)
    } else {
        let s = s as u32;
        let m = wshr(p, s);
        let half = wshr(p, s - 1)[0] & 1 == 1;
        let rest = sticky || wshl(p, 513 - s) != [0; 4];
        (m, half && (rest || m[0] & 1 == 1))
    };
    // the leading significand bit (if any) adds 1 to the exponent field, a
    // carry out of the significand adds another one
    let t = q + s;
    if t + 1 >= EMAX {
        return (INF, 0);
    }
    let (lo, c) = m[0].overflowing_add(up as u128);
    let hi = m[1] + c as u128 + ((t as u128) << 108);
    if hi >= INF {
        (INF, 0)
    } else {
        (hi, lo)
    }
}

// ------------------------------------------------- 1024 bit integers
pub type V = [u128; 8];
pub fn vadd(a: V, b: V) -> V {
    let (r0, c) = adc(a[0], b[0], false);
    let (r1, c) = adc(a[1], b[1], c);
    let (r2, c) = adc(a[2], b[2], c);
    let (r3, c) = adc(a[3], b[3], c);
    let (r4, c) = adc(a[4], b[4], c);
    let (r5, c) = adc(a[5], b[5], c);
    let (r6, c) = adc(a[6], b[6], c);
    let (r7, _) = adc(a[7], b[7], c);
    [r0, r1, r2, r3, r4, r5, r6, r7]
}
pub fn vsub(a: V, b: V) -> V {
    let (r0, c) = adc(a[0], !b[0], true);
    let (r1, c) = adc(a[1], !b[1], c);
    let (r2, c) = adc(a[2], !b[2], c);
    let (r3, c) = adc(a[3], !b[3], c);
    let (r4, c) = adc(a[4], !b[4], c);
    let (r5, c) = adc(a[5], !b[5], c);
    let (r6, c) = adc(a[6], !b[6], c);
    let (r7, _) = adc(a[7], !b[7], c);
    [r0, r1, r2, r3, r4, r5, r6, r7]
}
pub fn vge(a: V, b: V) -> bool {
    (a[7], a[6], a[5], a[4], a[3], a[2], a[1], a[0]) >= (b[7], b[6], b[5], b[4], b[3], b[2], b[1], b[0])
}
pub fn vshl(a: V, n: u32) -> V {
    let mut a = a;
    if n >= 1024 {
        return [0; 8];
    }
    if n & 512 != 0 {
        a = [0, 0, 0, 0, a[0], a[1], a[2], a[3]];
    }
    if n & 256 != 0 {
        a = [0, 0, a[0], a[1], a[2], a[3], a[4], a[5]];
    }
    if n & 128 != 0 {
        a = [0, a[0], a[1], a[2], a[3], a[4], a[5], a[6]];
    }
    let s = n & 127;
    if s != 0 {
        let t = 128 - s;
        a = [
            a[0] << s,
            a[1] << s | a[0] >> t,
            a[2] << s | a[1] >> t,
            a[3] << s | a[2] >> t,
            a[4] << s | a[3] >> t,
            a[5] << s | a[4] >> t,
            a[6] << s | a[5] >> t,
            a[7] << s | a[6] >> t,
        ];
    }
    a
}
pub fn vbitlen(a: V) -> i32 {
    if (a[7], a[6], a[5], a[4]) != (0, 0, 0, 0) {
        512 + wbitlen([a[4], a[5], a[6], a[7]])
    } else {
        wbitlen([a[0], a[1], a[2], a[3]])
    }
}
/// Magnitude encoding of the datum nearest to p * 2^q quanta (ties to even)
pub fn rne8(p: V, q: i32) -> Bits {
    let l = vbitlen(p);
    // normalise: bits 1023..=512 of p * 2^(1024 - l), the rest is sticky
    let n = vshl(p, (1024 - l) as u32);
    let low = (n[0], n[1], n[2], n[3]) != (0, 0, 0, 0);
    rne([n[4], n[5], n[6], n[7]], q + l - 512, low)
}
