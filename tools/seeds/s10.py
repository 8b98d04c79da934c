ID="fract-fast-path"; PROP="P16"
NEEDS="a magnitude between 2^128 and 2^236 with a fractional part"
BREAKS="a fast path takes every value of 2^128 or more for integral"
EDITS=[("src/lib.rs","""        let int_part = self.trunc();
        (int_part, self - int_part)""","""        if exp_bits(&abs_bits(self)) >= EXP_BIAS + 128 {
            // no room for a fractional part in the lower word
            return (*self, Self::ZERO);
        }
        let int_part = self.trunc();
        (int_part, self - int_part)""")]
MAIN='''use f256::f256;
fn main() {
    let x = f256::from_sign_exp_signif(1, -10, ((1 << 108) + 7, (1 << 40) + 1)); // -(2^226 + ...)
    let (i, f) = x.split();
    assert_eq!(f.to_bits(), f256::from_sign_exp_signif(1, -10, (0, 1)).to_bits());
    assert_eq!((i + f).to_bits(), x.to_bits());
}
'''
