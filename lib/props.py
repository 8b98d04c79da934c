"""What is verified for each property."""

WM = ("contract instance for UInt<_>::widening_mul (mirror hook `wm`, cfg(kani) only): "
      "bit length and number of trailing zeros of the product; the contract itself is discharged by the Verus unit `wmul`")
DR = ("contract instance for UInt<_>::div_rem by a half-width divisor (mirror hook `divrem`, cfg(kani) only): "
      "quotient bounds at 2^235..2^238, remainder < divisor; the contract itself is discharged by the Verus unit `udiv`")
KF4 = ("f256::total_cmp / partial_cmp / < <= > >= order two negative values in reverse (e.g. -2 > -1); "
       "min, max and clamp follow; not repaired because stable tests of cos rely on it (see KNOWN_FINDINGS.md)")

PROPS = {
    "P01": dict(mods=["p01"], quick=["verif_p01"], ops=["cls"],
                fns=["is_nan", "is_infinite", "is_finite", "is_subnormal", "is_normal", "classify", "eq_zero", "is_special",
                     "is_sign_positive", "is_sign_negative", "associated constants"]),
    "P02": dict(mods=["p02"], quick=["verif_p02"], ops=["bytes"],
                fns=["from_bits", "to_bits", "to_{be,le,ne}_bytes", "from_{be,le,ne}_bytes"]),
    "P03": dict(mods=["p03"], quick=["verif_p03"], ops=["dec", "enc"],
                fns=["from_sign_exp_signif", "as_sign_exp_signif", "decode", "encode"]),
    "P04": dict(mods=["p04"], quick=["p04_eq", "p04_total_cmp", "p04_partial_cmp"], ops=["eq", "tcmp", "pcmp"],
                kf=dict(correct="p04_kf_correct", listed="p04_kf_listed", text=KF4),
                fns=["PartialEq::eq", "PartialOrd::partial_cmp (lt, le, gt, ge)", "total_cmp"]),
    "P05": dict(mods=["p05"], quick=["p05_min_max", "p05_clamp"], ops=["max", "min", "clamp"],
                kf=dict(correct="p05_kf_correct", listed="p05_kf_listed", text="min/max/clamp of negative operands: " + KF4),
                fns=["max", "min", "clamp"]),
    "P06": dict(mods=["p06"], quick=["verif_p06"], ops=["neg", "abs"], fns=["Neg::neg", "abs"]),
    "P07": dict(mods=["p07"], quick=["p07_sum", "p07_dif", "p07_far", "p07_special", "p07_minus_is_plus_negated"],
                fallback=dict({"if": "p07_minus_is_plus_negated"}, run=["p07_minus_0", "p07_minus_1", "p07_minus_d"]),
                thorough=["p07_minus"], ops=["add", "sub"], fns=["Add::add", "Sub::sub and everything below them"]),
    "P08": dict(mods=["p08"], hooks=["wm"], quick=["verif_p08"], ops=["mul", "square"], trusted=[WM], verus=["wmul"],
                fns=["Mul::mul", "square", "mul_abs_finite and everything below them except widening_mul (by contract)"]),
    "P09": dict(mods=["p09"], hooks=["divrem"], verus=["udiv"], quick=["verif_p09"], ops=["div", "recip"], trusted=[DR],
                fns=["Div::div", "recip and everything below them except div_rem (by contract)"]),
    "P10": dict(verus=["frem"], ops=["rem"], fns=["Rem::rem and everything below it (big_uint_rem, lshift_rem and the comparisons and shifts of u256 included)"]),
    "P11": dict(verus=["ffma", "fmul"], ops=["fma", "sqadd"],
                fns=["mul_add, square_add (fma) and everything below them (u768 arithmetic, u256 shifts, widening multiplication, leading zeros, mul_abs_finite included)"]),
    "P12": dict(verus=["fsos", "fmul"], ops=["sos"],
                fns=["sum_of_squares and everything below it (square, u512 shifts and addition, widening multiplication, leading zeros included)"]),
    "P13": dict(verus=["fsqrt"], ops=["sqrt"], fns=["sqrt and everything below it (f256::new, is_special, shifts, comparison, addition and subtraction of u256 included)"]),
    "P14": dict(mods=["p14"], quick=["verif_p14"], ops=["mulp2", "divp2", "mul2", "div2"],
                fns=["mul_pow2", "div_pow2", "mul2", "div2"]),
    "P15": dict(mods=["p15"], quick=["verif_p15"], ops=["trunc", "ceil", "floor", "round", "rte"],
                fns=["trunc", "ceil", "floor", "round", "round_tie_even"]),
    "P16": dict(mods=["p16", "p15"], quick=["verif_p16", "p15_trunc"], ops=["fract", "split"], fns=["fract", "split"]),
    "P17": dict(mods=["p17"], quick=["verif_p17"], ops=["ulp"], fns=["ulp"]),
    "P18": dict(mods=["p18"], quick=["verif_p18"], ops=["fu8", "fu16", "fu32", "fu64", "fu128", "fi8", "fi16", "fi32", "fi64", "fi128"],
                fns=["From<u8..u128, i8..i128>"]),
    "P19": dict(mods=["p19"], quick=["verif_p19"], ops=["ff32", "ff64"], fns=["From<f32>", "From<f64>"]),
    "P22": dict(mods=["p22"], hooks=["wm"], verus=["wmul"], quick=["verif_p22"], ops=["todeg", "torad"], trusted=[WM],
                fns=["to_degrees", "to_radians and everything below them except widening_mul (by contract)"]),
    "P23": dict(mods=["p23@math/circular_fns/mod.rs"], ops=["trig"],
                quick=["p23_sin_odd", "p23_cos_even", "p23_sin_cos_agree", "p23_tan", "p23_tiny", "p23_trig_special", "p23_quadrant",
                       "p23_small_consistent", "p23_fixed"],
                fns=["sin", "cos", "sin_cos", "tan", "From<&FP492> for f256"]),
    "P25": dict(mods=["p23@math/circular_fns/mod.rs"], ops=["asin", "acos", "atan", "atan2"],
                quick=["p23_asin", "p23_acos", "p23_atan"], fns=["asin", "acos", "atan", "atan2"]),
    "P26": dict(mods=["p26"], quick=["p26"], ops=["consts"], fns=["f256::consts"]),
    "P27": dict(mods=["p23@math/circular_fns/mod.rs"], quick=["p23_ln", "p23_log"], ops=["logs"], fns=["ln", "log2", "log10"]),
    "P24": dict(mods=["p24"], quick=["verif_p24"], ops=["vadd", "vsub", "vmul", "vdiv", "vrem", "neg", "nt", "vsq"],
                fns=["Add, Sub, Mul, Div, Rem on references", "AddAssign ... RemAssign", "Neg on a reference", "num_traits Zero, One", "square_add"]),
}
for _p in PROPS.values():
    _p.setdefault("main", _p["fns"][0])
