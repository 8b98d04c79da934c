//! P02 raw encodings: bits and bytes are inverse and have the documented
//! layout.
use crate::f256;
use crate::verif_spec::*;

#[kani::proof]
fn p02_bits_round_trip() {
    let b = any_bits();
    assert!(f256::from_bits(b).to_bits() == b, "to_bits(from_bits(b)) == b");
    kani::cover!(is_nan(b));
}
fn byte(b: Bits, i: usize) -> u8 {
    // i-th least significant byte
    if i < 16 {
        (b.1 >> (8 * i)) as u8
    } else {
        (b.0 >> (8 * (i - 16))) as u8
    }
}
#[kani::proof]
#[kani::unwind(34)]
fn p02_to_bytes() {
    let b = any_bits();
    let x = f256::from_bits(b);
    let (be, le) = (x.to_be_bytes(), x.to_le_bytes());
    let i: usize = kani::any();
    kani::assume(i < 32);
    assert!(le[i] == byte(b, i), "to_le_bytes()[i] is byte i of the encoding");
    assert!(be[31 - i] == byte(b, i), "to_be_bytes()[31-i] is byte i of the encoding");
    kani::cover!(i == 31);
}
#[kani::proof]
#[kani::unwind(34)]
fn p02_from_bytes() {
    let a: [u8; 32] = kani::any();
    let (be, le, ne) = (f256::from_be_bytes(a).to_bits(), f256::from_le_bytes(a).to_bits(), f256::from_ne_bytes(a));
    let i: usize = kani::any();
    kani::assume(i < 32);
    assert!(byte(le, i) == a[i], "from_le_bytes");
    assert!(byte(be, i) == a[31 - i], "from_be_bytes");
    assert!(ne.to_ne_bytes()[i] == a[i], "to_ne_bytes(from_ne_bytes(a)) == a");
    kani::cover!(i == 31);
}
#[kani::proof]
#[kani::unwind(34)]
fn p02_bytes_round_trip() {
    let b = any_bits();
    let x = f256::from_bits(b);
    assert!(f256::from_be_bytes(x.to_be_bytes()).to_bits() == b, "be round trip");
    assert!(f256::from_le_bytes(x.to_le_bytes()).to_bits() == b, "le round trip");
    assert!(f256::from_ne_bytes(x.to_ne_bytes()).to_bits() == b, "ne round trip");
}
