ID="square-add-unfused"; PROP="P24"
NEEDS="a square whose rounding error decides about the last bit of the sum"
BREAKS="square_add rounds twice, unlike mul_add"
EDITS=[("src/lib.rs","fused_ops::fma::fma(&self, &self, &a)","self.square() + a")]
MAIN='''use f256::f256;
fn main() {
    let x = f256::from_sign_exp_signif(0, 0, (1 << 108, 1));
    let a = -(x * x);
    assert_eq!(x.square_add(a).to_bits(), x.mul_add(x, a).to_bits());
    assert_eq!(x.square_add(a), f256::ONE);
}
'''
