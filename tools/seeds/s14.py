ID="min-negative-nan"; PROP="P05"
NEEDS="a NaN with the sign bit set as the first operand of min"
BREAKS="min returns the NaN instead of the number"
EDITS=[("src/lib.rs","if other < self || self.is_nan() {","if other < self || self.bits.hi.0 > INF_HI && !self.is_sign_negative() {")]
MAIN='''use f256::f256;
fn main() {
    let n = f256::from_bits((0xfffff8 << 104, 0));
    assert!(n.is_nan() && n.is_sign_negative());
    assert_eq!(n.min(f256::ONE), f256::ONE);
}
'''
