ID="rem-equal-high"; PROP="P10"
NEEDS="|x| > |y| whose significands agree in the upper 128 bit word and differ in the lower one"
BREAKS="the shortcut for equal significands compares the high words only, so the remainder of such operands is 0"
EDITS=[("src/binops/rem.rs","if signif_x == signif_y {","if signif_x.hi == signif_y.hi {")]
MAIN='''use f256::f256;
fn main() {
    let e = |t, c| f256::from_sign_exp_signif(0, t, c);
    let y = e(0, (1 << 108, 1));
    let x = e(3, (1 << 108, 3));
    // x = 8 * 2^236 + 24 = 8 * y + 16
    assert_eq!((x % y).to_bits(), f256::from(16_u32).to_bits());
}
'''
