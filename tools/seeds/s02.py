ID="mul-underflow-half"; PROP="P08"
NEEDS="a product whose exact value lies between one half and one times the smallest subnormal"
BREAKS="such products are flushed to zero instead of being rounded to the smallest subnormal"
EDITS=[("src/binops/mul.rs","        if shift > SIGNIFICAND_BITS + 1 {\n            // Result underflows to zero.\n            return (U256::ZERO, 0_u32);","        if shift >= SIGNIFICAND_BITS {\n            // Result underflows to zero.\n            return (U256::ZERO, 0_u32);")]
MAIN='''use f256::f256;
fn main() {
    let tiny = f256::from_bits((0, 1));
    let three_quarters = f256::from(0.75_f64);
    assert_eq!((tiny * three_quarters).to_bits(), (0, 1));
    assert_eq!((three_quarters * -tiny).to_bits(), (1 << 127, 1));
    assert_eq!((tiny * f256::from(0.25_f64)).to_bits(), (0, 0));
}
'''
