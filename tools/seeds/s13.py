ID="significand-min-normal"; PROP="P22"
NEEDS="a value in the lowest normal binade"
BREAKS="the hidden bit of the values in the lowest normal binade is dropped"
EDITS=[("src/lib.rs","((self.biased_exponent() != 0) as u128) << HI_FRACTION_BITS;\n        U256::new(\n            (self.bits.hi.0 & HI_FRACTION_MASK) | hidden_one,","((self.biased_exponent() > 1) as u128) << HI_FRACTION_BITS;\n        U256::new(\n            (self.bits.hi.0 & HI_FRACTION_MASK) | hidden_one,")]
MAIN='''use f256::f256;
fn main() {
    // 2^-262142, the smallest normal value; 57.29.. times it
    let d = f256::MIN_POSITIVE.to_degrees();
    let e = f256::ONE.to_degrees() * f256::MIN_POSITIVE;
    assert_eq!(d.to_bits(), e.to_bits());
}
'''
