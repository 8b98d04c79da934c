//! Contract instances that stand in for two big-integer primitives
//! (`UInt<_>::widening_mul` and `UInt<_>::div_rem` by a half-width divisor)
//! while their *callers* are verified: the call is recorded, the result is
//! havocked and constrained by consequences of the primitive's contract.
//! The contracts themselves are discharged elsewhere (see DESIGN.md).
#![allow(dead_code, unsafe_code, missing_docs, unreachable_pub, clippy::all)]
use crate::big_uint::*;
use crate::verif_spec::*;

pub const MAXC: usize = 4;
/// (a, b) -> product p = a * b
#[derive(Clone, Copy)]
pub struct Mul {
    pub a: Bits,
    pub b: Bits,
    pub p: W,
}
/// (n, d) -> quotient q, remainder r
#[derive(Clone, Copy)]
pub struct Div {
    pub n: W,
    pub d: Bits,
    pub q: W,
    pub r: Bits,
}
pub static mut WM_ON: bool = false;
/// whether callers may rely on the trailing zeros of the product
pub static mut WM_CTZ: bool = true;
pub static mut WM_N: usize = 0;
pub static mut WM: [Mul; MAXC] = [Mul { a: (0, 0), b: (0, 0), p: [0; 4] }; MAXC];
pub static mut DR_ON: bool = false;
pub static mut DR_N: usize = 0;
pub static mut DR: [Div; MAXC] = [Div { n: [0; 4], d: (0, 0), q: [0; 4], r: (0, 0) }; MAXC];

pub fn wm_on() {
    unsafe {
        WM_ON = true;
        WM_N = 0;
    }
}
pub fn dr_on() {
    unsafe {
        DR_ON = true;
        DR_N = 0;
    }
}
fn bl(a: Bits) -> i32 {
    256 - clz(a)
}
fn wctz(a: W) -> i32 {
    if (a[0], a[1]) != (0, 0) {
        ctz((a[1], a[0]))
    } else {
        256 + ctz((a[3], a[2]))
    }
}
/// facts about p = a * b used by the callers' proofs
fn product(a: Bits, b: Bits) -> W {
    if a == (0, 0) || b == (0, 0) {
        return [0; 4];
    }
    let p: W = [kani::any(), kani::any(), kani::any(), kani::any()];
    // 2^(la-1) * 2^(lb-1) <= a * b < 2^la * 2^lb
    let l = wbitlen(p);
    kani::assume(l == bl(a) + bl(b) || l == bl(a) + bl(b) - 1);
    // a multiple of four if one of the factors is
    if (a.1 & 3 == 0) || (b.1 & 3 == 0) {
        kani::assume(p[0] & 3 == 0);
    }
    // trailing zeros add up
    if unsafe { WM_CTZ } {
        kani::assume(wctz(p) == ctz(a) + ctz(b));
    }
    p
}
pub fn wm<T: Copy>(a: &T, b: &T) -> Option<(T, T)> {
    if core::mem::size_of::<T>() != 32 {
        return None;
    }
    unsafe {
        if !WM_ON {
            return None;
        }
        let a: U256 = core::mem::transmute_copy(a);
        let b: U256 = core::mem::transmute_copy(b);
        let (a, b) = ((a.hi.0, a.lo.0), (b.hi.0, b.lo.0));
        assert!(WM_N < MAXC, "UNDECIDED: number of calls of widening_mul");
        let p = product(a, b);
        WM[WM_N] = Mul { a, b, p };
        WM_N += 1;
        let lo = U256::new(p[1], p[0]);
        let hi = U256::new(p[3], p[2]);
        Some((core::mem::transmute_copy(&lo), core::mem::transmute_copy(&hi)))
    }
}
/// q >= 2^k  <=>  n >= d * 2^k, for n = q * d + r, r < d
fn quot_bound(n: W, d: Bits, q: W, k: u32) {
    kani::assume((wbitlen(q) > k as i32) == wge(n, wshl(w(d), k)));
}
pub fn divrem<N: Copy, D: Copy>(n: &N, d: &D) -> Option<(N, D)> {
    if core::mem::size_of::<N>() != 64 {
        return None;
    }
    unsafe {
        if !DR_ON {
            return None;
        }
        let nn: U512 = core::mem::transmute_copy(n);
        let dd: U256 = core::mem::transmute_copy(d);
        let n: W = [nn.lo.lo.0, nn.lo.hi.0, nn.hi.lo.0, nn.hi.hi.0];
        let d = (dd.hi.0, dd.lo.0);
        assert!(d != (0, 0), "UNDECIDED: pre-condition of div_rem: divisor != 0");
        assert!(DR_N < MAXC, "UNDECIDED: number of calls of div_rem");
        let q: W = [kani::any(), kani::any(), kani::any(), kani::any()];
        let r = any_bits();
        kani::assume(r < d);
        kani::assume(wge(n, w(r)));
        for k in [235, 236, 237, 238] {
            quot_bound(n, d, q, k);
        }
        DR[DR_N] = Div { n, d, q, r };
        DR_N += 1;
        let rr = U256::new(r.0, r.1);
        let q = U512::new(q[3], q[2], q[1], q[0]);
        Some((core::mem::transmute_copy(&q), core::mem::transmute_copy(&rr)))
    }
}
