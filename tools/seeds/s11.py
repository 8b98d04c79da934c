ID="refop-swapped"; PROP="P24"
NEEDS="a non-commutative operator with an owned left and a borrowed right operand"
BREAKS="value op &value forwards the operands in the wrong order"
EDITS=[("src/binops/mod.rs","$imp::$method(self, *rhs)","$imp::$method(*rhs, self)")]
MAIN='''use f256::f256;
fn main() {
    let (x, y) = (f256::from(7_u32), f256::from(3_u32));
    assert_eq!(x - &y, f256::from(4_u32));
    assert_eq!(x % &y, f256::from(1_u32));
    assert_eq!(x / &y, x / y);
}
'''
