ID="mul-sticky-shift2"; PROP="P08"
NEEDS="a product that is subnormal by exactly two bits, whose lowest kept bits are a tie and whose discarded bits consist of the leading one only"
BREAKS="the sticky information of the first rounding position is reduced to its lowest bit, a value above a tie is taken for a tie"
EDITS=[("src/binops/mul.rs","""                        ((signif_z.lo.0 & 3) as u32) | (rnd_bits != 0) as u32;""","""                        ((signif_z.lo.0 & 3) as u32) | (rnd_bits & 1);""")]
MAIN='''use f256::f256;
fn main() {
    // (A * 2^k1) * (B * 2^k2), A * B = 8 n + 5, result n + 1 quanta
    let x = f256::from_sign_exp_signif(0, -131000, (0, 332838517806791908235892279211144105));
    let y = f256::from_sign_exp_signif(1, -262381 + 131000, (0, 674871939220429453691851476492259837));
    assert_eq!((x * y).to_bits(), (1 << 127 | 82513596719703194708517217268586, 19494478410607611299230331623419730145));
}
'''
