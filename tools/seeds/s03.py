ID="f64-subnormal-min"; PROP="P19"
NEEDS="an f64 or f32 whose fraction field is exactly the smallest normal number"
BREAKS="the boundary between subnormal and normal source values is off by one: the smallest normal f64 / f32 is converted with the wrong exponent"
EDITS=[("src/conv/from_float.rs","if abs_bits >= F::FRACTION_BIAS && abs_bits < F::INF {","if abs_bits > F::FRACTION_BIAS && abs_bits < F::INF {"),
       ("src/conv/from_float.rs","} else if abs_bits < F::FRACTION_BIAS {","} else if abs_bits <= F::FRACTION_BIAS {")]
MAIN='''use f256::f256;
fn main() {
    let x = f256::from(f64::MIN_POSITIVE);
    assert_eq!(x.as_sign_exp_signif(), (0, -1022, (0, 1)));
    let x = f256::from(-f32::MIN_POSITIVE);
    assert_eq!(x.as_sign_exp_signif(), (1, -126, (0, 1)));
    let x = f256::from(f64::from_bits(1));
    assert_eq!(x.as_sign_exp_signif(), (0, -1074, (0, 1)));
}
'''
