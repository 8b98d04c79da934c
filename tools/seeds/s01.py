ID="add-sticky-diff4"; PROP="P07"
NEEDS="operands whose exponents differ by exactly 4, the smaller one odd, with the remaining bits on a rounding tie"
BREAKS="the sticky bit is lost when the alignment shift is 4, so a value just above a tie is rounded down to even"
EDITS=[("src/binops/add.rs","let mut sticky_bit = if adj <= 3 {","let mut sticky_bit = if adj <= 4 {")]
MAIN='''use f256::f256;
fn main() {
    // x = 2^236 (ulp 1), y = 2^232 + ...: y = k * 2^-4 with k odd
    let e = |s, t, c| f256::from_sign_exp_signif(s, t, c);
    let x = e(0, 4, (1 << 108, 0));              // 2^240, quantum 2^4
    let y = e(0, 0, (1 << 108, 8 + 1));          // 2^236 + 9: 9 > half a quantum
    let z = x + y;
    // nearest multiple of 16 to 2^240 + 2^236 + 9 is 2^240 + 2^236 + 16
    let want = e(0, 4, ((1 << 108) + (1 << 104), 1));
    assert_eq!(z.to_bits(), want.to_bits());
    let z = y - (-x);
    assert_eq!(z.to_bits(), want.to_bits());
}
'''
