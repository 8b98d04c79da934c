//! P24 all forms of an operation agree: operators on references, assigning
//! operators, num_traits, negation of references.  The operation itself is
//! replaced by an uninterpreted function (same arguments, same result;
//! commutative where the operation is).
#![allow(unsafe_code)]
use crate::f256;
use crate::verif_spec::*;

const N: usize = 8;
static mut CNT: usize = 0;
static mut ARGS: [(Bits, Bits); N] = [((0, 0), (0, 0)); N];
static mut RES: [Bits; N] = [(0, 0); N];

fn ghost(x: f256, y: f256, comm: bool) -> f256 {
    let (x, y) = (x.to_bits(), y.to_bits());
    unsafe {
        let mut i = 0;
        while i < CNT {
            if ARGS[i] == (x, y) || (comm && ARGS[i] == (y, x)) {
                return f256::from_bits(RES[i]);
            }
            i += 1;
        }
        assert!(CNT < N, "UNDECIDED: number of calls");
        let r = any_bits();
        ARGS[CNT] = (x, y);
        RES[CNT] = r;
        CNT += 1;
        f256::from_bits(r)
    }
}
fn g_comm(x: f256, y: f256) -> f256 {
    ghost(x, y, true)
}
fn g_plain(x: f256, y: f256) -> f256 {
    ghost(x, y, false)
}
fn same(a: f256, b: f256) -> bool {
    a.to_bits() == b.to_bits()
}
macro_rules! forms {
    ($n:ident, $fun:path, $g:ident, $op:tt, $as:tt) => {
        #[kani::proof]
        #[kani::unwind(9)]
        #[kani::stub($fun, $g)]
        fn $n() {
            let (x, y) = (f256::from_bits(any_bits()), f256::from_bits(any_bits()));
            let r = x $op y;
            unsafe { assert!(CNT == 1, "UNDECIDED: not one call"); }
            assert!(same(&x $op y, r), "&x op y");
            assert!(same(x $op &y, r), "x op &y");
            assert!(same(&x $op &y, r), "&x op &y");
            let mut z = x;
            z $as y;
            assert!(same(z, r), "x op= y");
            let mut z = x;
            z $as &y;
            assert!(same(z, r), "x op= &y");
            let mut z = x;
            z $as z;
            let t = x $op x;
            assert!(same(z, t), "x op= x");
            kani::cover!(x.to_bits() != y.to_bits());
        }
    };
}
forms!(p24_add, crate::binops::add::add, g_comm, +, +=);
forms!(p24_sub, crate::binops::add::add, g_comm, -, -=);
forms!(p24_mul, crate::binops::mul::mul, g_comm, *, *=);
forms!(p24_div, crate::binops::div::div, g_plain, /, /=);
forms!(p24_rem, crate::binops::rem::rem, g_plain, %, %=);

#[kani::proof]
fn p24_neg() {
    let x = f256::from_bits(any_bits());
    assert!(same(-&x, -x), "-&x");
}
#[kani::proof]
fn p24_num_traits() {
    use num_traits::{One, Zero};
    let b = any_bits();
    let x = f256::from_bits(b);
    assert!(x.is_zero() == is_zero(b), "Zero::is_zero");
    assert!(x.is_one() == (b == (0x3ffff << 108, 0)), "One::is_one");
    assert!(<f256 as Zero>::zero().to_bits() == (0, 0), "Zero::zero");
    assert!(<f256 as One>::one().to_bits() == (0x3ffff << 108, 0), "One::one");
    kani::cover!(x.is_zero());
    kani::cover!(x.is_one());
}
static mut F: (Bits, Bits, Bits, u32) = ((0, 0), (0, 0), (0, 0), 0);
static mut FR: Bits = (0, 0);
fn fma_ghost(x: &f256, y: &f256, a: &f256) -> f256 {
    unsafe {
        let k = (x.to_bits(), y.to_bits(), a.to_bits());
        if F.3 > 0 && k.2 == F.2 && ((k.0, k.1) == (F.0, F.1) || (k.1, k.0) == (F.0, F.1)) {
            return f256::from_bits(FR);
        }
        assert!(F.3 == 0, "square_add is not mul_add of the same operands");
        F = (k.0, k.1, k.2, 1);
        FR = any_bits();
        f256::from_bits(FR)
    }
}
#[kani::proof]
#[kani::stub(crate::fused_ops::fma::fma, fma_ghost)]
fn p24_square_add() {
    let (x, a) = (f256::from_bits(any_bits()), f256::from_bits(any_bits()));
    let r = x.mul_add(x, a);
    assert!(unsafe { F.3 } == 1, "UNDECIDED: mul_add does not call fma");
    assert!(same(x.square_add(a), r), "square_add");
}
