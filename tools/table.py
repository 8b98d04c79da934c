IN = "Kani full-domain harness on the real functions (contracts as assertions)"
T = []


def P(**k):
    T.append(k)


PAIR = "every pair of the 2^256 x 2^256 operands, including NaNs, infinities, zeros and subnormals"
ONE = "every one of the 2^256 encodings"
P(id="P01", title="Classification predicates and constants follow the binary256 encoding",
  st="For every value, classify(), is_nan, is_infinite, is_finite, is_normal, is_subnormal, eq_zero, is_special and the two sign predicates agree with the IEEE 754 binary256 interpretation of its encoding: exactly one class applies, every NaN payload is a NaN, eq_zero holds for both zeros, is_special holds for zeros, infinities and NaNs. The sign predicates reflect the sign bit alone. The associated constants (ZERO, ONE, MAX, MIN, MIN_POSITIVE, EPSILON, infinities, NAN, ...) have the encodings their documented values require.",
  q=ONE, why="Tests classify a handful of values; a NaN with an unusual payload or the largest subnormal is only one of 2^256 encodings.",
  files=["src/lib.rs"], mech=[("field masks and comparisons on the high word", "src/lib.rs f256::{is_nan,classify,...}")],
  obs=["classify", "is_* predicates", "associated constants"], tech=IN,
  note="Proved by Kani/CBMC for all encodings, no bound.")
P(id="P02", title="Raw bits and byte arrays round-trip and have the documented layout",
  st="from_bits and to_bits are inverse to each other on all 2^256 encodings. to_be_bytes / to_le_bytes list the bytes of the encoding most / least significant first, from_be_bytes and from_le_bytes invert them, and from_ne_bytes inverts to_ne_bytes, in both directions.",
  q=ONE + " and every 32-byte array", why="The tests round-trip one value per format; a swapped word or byte shows only where the halves differ.",
  files=["src/lib.rs"], mech=[("transmute of the two 128-bit halves", "src/lib.rs f256::{to,from}_{be,le,ne}_bytes")],
  obs=["to_bits/from_bits", "to_*_bytes/from_*_bytes"], tech=IN, note="Proved by Kani/CBMC for all encodings and byte arrays.")
P(id="P03", title="Sign/exponent/significand decomposition and assembly are exact",
  st="as_sign_exp_signif returns (s, t, c) with c < 2^237 and |x| = c * 2^t exactly for every finite x, and from_sign_exp_signif returns the exact value (-1)^s * c * 2^t for every triple within its documented range, normal or subnormal. Decomposing and reassembling a finite value gives the same value back.",
  q="every finite value; every sign, significand and exponent for which the value is representable",
  why="Tests use a few dozen triples; the subnormal range, gradual underflow boundary and maximum exponent combine with 2^237 significands.",
  files=["src/lib.rs"], mech=[("encode / decode and the normalisation shifts", "src/lib.rs f256::{from_sign_exp_signif,as_sign_exp_signif}")],
  obs=["from_sign_exp_signif", "as_sign_exp_signif"], tech=IN, note="Proved by Kani/CBMC for all inputs in the documented range.")
P(id="P04", title="Equality and ordering agree with the represented values",
  st="== compares represented values: +0 equals -0, a NaN equals nothing including itself, and two other values are equal exactly when their encodings are. <, <=, >, >= and partial_cmp order non-NaN values numerically and report no order when an operand is a NaN. total_cmp is the IEEE 754 totalOrder listed in its documentation.",
  q=PAIR, why="Ordering has sign, zero, NaN and exponent-boundary interactions; tests sample a few pairs and miss the reversed order of negatives.",
  files=["src/lib.rs", "src/binops/cmp.rs"], mech=[("total_cmp on the sign-flipped encodings", "src/lib.rs f256::total_cmp"), ("PartialEq/PartialOrd", "src/binops/cmp.rs")],
  obs=["==, !=, <, <=, >, >=", "partial_cmp", "total_cmp"], tech=IN,
  note="Proved by Kani/CBMC for all pairs except two negative operands, where the known finding (reversed order) is proved to be exactly what happens.")
P(id="P05", title="min, max and clamp select the right operand and ignore NaN as documented",
  st="max and min return an operand that is not exceeded (not undercut) by the other one; if exactly one operand is a NaN the other operand is returned, if both are the result is a NaN. clamp(lo, hi) with lo <= hi, neither NaN, returns lo below lo, hi above hi, the value itself in between, and a NaN for a NaN.",
  q="every pair (min, max) and every triple with lo <= hi (clamp)", why="Tests use a few operands; NaN on either side, mixed signs and equal values give many combinations.",
  files=["src/lib.rs"], mech=[("min/max/clamp on top of the comparisons", "src/lib.rs f256::{min,max,clamp}")],
  obs=["min", "max", "clamp"], tech=IN,
  note="Proved by Kani/CBMC; for two negative operands the known finding of P04 shows through and is proved to be exactly that.")
P(id="P06", title="Negation and absolute value change the sign bit only",
  st="For every value that is not a NaN, -x has the opposite sign and the same magnitude, including zeros and infinities, and abs(x) is the same magnitude with positive sign; both are exact. For a NaN the result is a NaN.",
  q=ONE, why="Tests cover a few values only.", files=["src/lib.rs"], mech=[("Neg, abs", "src/lib.rs")], obs=["-x", "abs"], tech=IN,
  note="Proved by Kani/CBMC for all encodings.")
P(id="P07", title="Addition and subtraction are correctly rounded (nearest, ties to even)",
  st="For all operands x + y and x - y equal the exact real sum or difference rounded once to the nearest binary256 value, ties to even, with overflow to infinity and gradual underflow. Signed zeros, infinities and NaNs follow IEEE 754: inf - inf is a NaN, an exact zero result of operands of opposite sign is +0, NaN operands give a NaN.",
  q=PAIR, why="Guard, round and sticky bit errors show for particular exponent differences and bit patterns out of 2^512 pairs.",
  files=["src/binops/add.rs"], mech=[("exact path and rounded path by exponent difference", "src/binops/add.rs add, add_or_sub_*"), ("Sub as negation and Add", "src/binops/add.rs")],
  obs=["x + y", "x - y"], tech=IN + ", case split by exponent difference",
  note="Proved by Kani/CBMC for all pairs (case split by exponent difference, the split is exhaustive).")
P(id="P08", title="Multiplication and squaring are correctly rounded",
  st="For all operands x * y, and x.square(), equal the exact real product rounded once to the nearest binary256 value, ties to even, including products that overflow, that are subnormal, and subnormal operands. The sign of every non-NaN result is the exclusive or of the operand signs; 0 * inf is a NaN, NaN operands give a NaN.",
  q=PAIR, why="Sticky bits lost in the subnormal range or at the carry into the next binade need specific pairs of significands and exponents.",
  files=["src/binops/mul.rs", "src/big_uint/uint_generic/mod.rs", "src/big_uint/uint128.rs"],
  mech=[("512-bit product, rounding and normalisation", "src/binops/mul.rs mul_abs_finite"), ("widening multiplication", "src/big_uint widening_mul")],
  obs=["x * y", "square"], tech=IN + "; widening_mul replaced by its contract, which Verus discharges",
  note="Proved for all pairs: Kani proves the float code against the contract of widening_mul, Verus proves that contract on the extracted code.")
P(id="P09", title="Division and reciprocal are correctly rounded",
  st="For all operands x / y, and x.recip() = 1 / x, equal the exact real quotient rounded once to the nearest binary256 value, ties to even, including subnormal operands and results and overflow. x / 0 is an infinity of the right sign for non-zero x, 0 / 0 and inf / inf are NaNs, finite / inf is a zero of the right sign, NaN operands give a NaN.",
  q=PAIR, why="The decision on the last bit depends on the remainder of a 500-bit division; tests sample a few quotients.",
  files=["src/binops/div.rs", "src/big_uint/uint_generic/mod.rs", "src/big_uint/uint_generic/binops.rs"],
  mech=[("scaled integer division, remainder as sticky", "src/binops/div.rs div, div_signifs"), ("Knuth division", "src/big_uint div_rem")],
  obs=["x / y", "recip"], tech=IN + "; div_rem replaced by its contract, which Verus discharges",
  note="Proved for all pairs: Kani proves the float code against the contract of div_rem, Verus proves that contract on the extracted code.")
P(id="P10", title="The remainder is exact",
  st="For finite x and finite non-zero y, x % y is exactly x - y * trunc(x / y), computed without any rounding, for every distance of the exponents and for subnormal operands; it has the sign of x when it is not zero and its magnitude is less than that of y. x % inf is x for finite x; x % 0 and inf % y are NaNs, NaN operands give a NaN. No operands make it panic or loop forever.",
  q=PAIR, why="The reduction runs up to 524 thousand bits in 19-bit or wider steps with conditional subtractions; tests sample a few pairs with nearby exponents.",
  files=["src/binops/rem.rs", "src/big_uint/uint_generic/mod.rs"],
  mech=[("reduction of the scaled significand", "src/binops/rem.rs rem"), ("shifts, subtraction, division of u256", "src/big_uint")],
  obs=["x % y"], tech="Verus: contracts and loop invariants on the code extracted from /repo on each run",
  note="Proved by Verus for all pairs on the extracted functions (listed in the evidence); the sign of a zero result is not pinned.")
P(id="P11", title="Fused multiply-add rounds once",
  st="For all operands x.mul_add(y, a) is the exact real value x * y + a rounded once to the nearest binary256 value, ties to even, whatever the distance of the exponents, with cancellation, overflow to infinity, gradual underflow and subnormal operands; an exact zero sum of non-zero terms is +0. 0 * inf + a and inf - inf are NaNs, NaN operands give a NaN, an infinite addend or product gives that infinity. x.square_add(a) is x.mul_add(x, a).",
  q="every triple of encodings (2^768 operands), including NaNs, infinities, zeros and subnormals",
  why="The alignment of a 474-bit product with the addend has about 1.5 million exponent differences, each with its own sticky and cancellation cases; tests sample a few dozen triples.",
  files=["src/fused_ops/fma.rs", "src/binops/mul.rs", "src/lib.rs", "src/big_uint/uint_generic/mod.rs"],
  mech=[("768-bit anchored sum, sticky bit, normalisation and rounding", "src/fused_ops/fma.rs fma, u768"), ("zero addend", "src/binops/mul.rs mul_abs_finite")],
  obs=["mul_add", "square_add"], tech="Verus: contracts and lemmas on the code extracted from /repo on each run",
  note="Proved by Verus for all triples on the extracted functions (listed in the evidence); mul_add and square_add forward to fma.")
P(id="P12", title="Sum of squares rounds once",
  st="For all finite x and y, x.sum_of_squares(y) is the exact real value x * x + y * y rounded once to the nearest binary256 value, ties to even, never negative, for every distance of the exponents, with overflow to infinity, gradual underflow and zero or subnormal operands. If an operand is a NaN the result is a NaN; otherwise, if an operand is infinite, it is +infinity.",
  q="every pair of encodings (2^512 operands), including NaNs, infinities, zeros and subnormals",
  why="The alignment of two 474-bit squares has about a million exponent differences with their own sticky bits; a result that rounds twice differs only for operands close to a rounding boundary, which sampled pairs do not meet.",
  files=["src/fused_ops/sos.rs", "src/binops/mul.rs", "src/lib.rs", "src/big_uint/uint_generic/mod.rs"],
  mech=[("512-bit sum of squares, sticky bits, normalisation and rounding", "src/fused_ops/sos.rs sos"), ("one operand zero", "src/lib.rs square, src/binops/mul.rs")],
  obs=["sum_of_squares"], tech="Verus: contracts and lemmas on the code extracted from /repo on each run",
  note="Proved by Verus for all pairs on the extracted functions (listed in the evidence); sum_of_squares forwards to sos.")
P(id="P13", title="The square root is correctly rounded",
  st="For every finite x > 0, normal or subnormal, x.sqrt() is the binary256 value nearest to the exact square root of x (no ties exist). sqrt of +0, -0, +inf is the argument unchanged; any other negative value, including -inf, and every NaN gives a NaN.",
  q=ONE, why="The last bit depends on the digit-by-digit recurrence of 237 steps and on the remainder; odd and even exponents and subnormal arguments take different shifts. Tests compare fewer than ten roots.",
  files=["src/math/sqrt.rs", "src/lib.rs", "src/big_uint/uint_generic/mod.rs"],
  mech=[("digit recurrence with remainder and final rounding", "src/math/sqrt.rs sqrt"), ("assembly of the result", "src/lib.rs f256::new")],
  obs=["sqrt"], tech="Verus: contracts and loop invariants on the code extracted from /repo on each run",
  note="Proved by Verus for all encodings on the extracted functions (listed in the evidence).")
P(id="P14", title="Scaling by powers of two is exact or correctly rounded",
  st="mul2, div2, mul_pow2(n) and div_pow2(n) return x * 2^(+-n) for every x and every n: exact when representable, otherwise rounded once to nearest, ties to even, in the subnormal range, and an infinity of the same sign on overflow. Zeros, infinities and NaNs are kept.",
  q="every value and every 32-bit n", why="Subnormal operands and results and extreme n are corner cases of a 2^288 input space.",
  files=["src/lib.rs"], mech=[("exponent arithmetic and rounding into the subnormal range", "src/lib.rs f256::{mul_pow2,div_pow2,mul2,div2}")],
  obs=["mul2", "div2", "mul_pow2", "div_pow2"], tech=IN, note="Proved by Kani/CBMC for all inputs.")
P(id="P15", title="trunc, floor, ceil, round and round_tie_even return the right integer",
  st="For every finite x: trunc, floor and ceil return the integer nearest to x toward zero, downward and upward; round returns the nearest integer, halves away from zero; round_tie_even returns the nearest integer, halves to even. Integral values are returned unchanged, infinities too, and NaNs give NaNs.",
  q=ONE, why="Halfway cases exist for each of 237 exponents with arbitrary significands; tests use a few dozen.",
  files=["src/lib.rs"], mech=[("masking of fractional bits and increments", "src/lib.rs f256::{trunc,floor,ceil,round,round_tie_even}")],
  obs=["trunc", "floor", "ceil", "round", "round_tie_even"], tech=IN, note="Proved by Kani/CBMC for all encodings; the sign of a zero result is not pinned.")
P(id="P16", title="fract and split take a value apart exactly",
  st="For every finite x, split() returns (trunc(x), x - trunc(x)) and fract() returns x - trunc(x); both parts are exact, their sum is exactly x, no part has the sign opposite to x and the fractional part is less than 1 in magnitude. NaNs give NaNs, an infinity has the infinity as its integral part.",
  q=ONE, why="Every one of 237 positions of the binary point combines with arbitrary significands.", files=["src/lib.rs"],
  mech=[("subtraction of the truncated value", "src/lib.rs f256::{fract,split}")], obs=["fract", "split"],
  tech=IN + "; trunc replaced by its contract (proved in the same check), addition by the contract of P07",
  note="Proved by Kani/CBMC for all encodings; the sign of a zero part and the fractional part of an infinity are not pinned.")
P(id="P17", title="ulp returns the spacing of representable values at x",
  st="For every finite x, ulp(x) is the power of two that is the weight of the least significant significand bit of x (the smallest subnormal for zeros, subnormals and the smallest normal binade), positive and exact. For infinities and NaNs it is a NaN.",
  q=ONE, why="The subnormal boundary needs specific exponents.", files=["src/lib.rs"], mech=[("ulp", "src/lib.rs f256::ulp")], obs=["ulp"], tech=IN,
  note="Proved by Kani/CBMC for all encodings.")
P(id="P18", title="Conversion from primitive integers is exact",
  st="f256::from(i) has exactly the value i for every value of u8 .. u128 and i8 .. i128, including the minimum of each signed type; zero gives +0.",
  q="every value of the ten integer types", why="Tests convert a few values per type.", files=["src/conv/from_int.rs"],
  mech=[("normalisation of the integer", "src/conv/from_int.rs")], obs=["From<integer>"], tech=IN, note="Proved by Kani/CBMC for all values.")
P(id="P19", title="Conversion from f32 and f64 is exact",
  st="f256::from(v) has exactly the value of v for every finite f32 and f64, including subnormals and signed zeros; infinities map to infinities of the same sign and NaNs to NaNs.",
  q="every bit pattern of f32 and f64", why="Tests convert a few values; f64 subnormals alone are 2^52 patterns.", files=["src/conv/from_float.rs"],
  mech=[("re-biasing and renormalising", "src/conv/from_float.rs")], obs=["From<f32>", "From<f64>"], tech=IN, note="Proved by Kani/CBMC for all bit patterns.")
P(id="P22", title="Degrees and radians are converted with one rounding",
  st="For every finite x, to_degrees and to_radians return x times a factor that agrees with 180/pi (pi/180) to within a relative error of 2^-236, the exact product rounded once to nearest, ties to even, also when the result is subnormal or overflows to an infinity. Zeros and infinities are returned unchanged, NaNs give a NaN.",
  q=ONE, why="Overflow, gradual underflow and ties of a 500-bit product need specific operands; tests sample a few angles.",
  files=["src/lib.rs", "src/binops/mul.rs"], mech=[("product with a 256-bit factor, rounded once", "src/lib.rs f256::{to_degrees,to_radians}")],
  obs=["to_degrees", "to_radians"], tech=IN + "; widening_mul replaced by its contract, which Verus discharges",
  note="Proved for all encodings. The factor in to_degrees is accurate to 2^-237.8 only (stable tests rely on it), hence the tolerance in the statement.")
P(id="P24", title="All forms of an operation give the same result",
  st="For all operands x op y, &x op y, x op &y, &x op &y, x op= y and x op= &y give bit for bit the same result for + - * / and %, also when both operands are the same variable. -&x is -x. The num_traits Zero and One implementations agree with the constants and recognise exactly the two zeros and 1. x.square_add(a) is x.mul_add(x, a).",
  q=PAIR, why="Thirty forwarding implementations; tests exercise a few of them on a few values, a swapped operand in one of them is invisible for equal operands.",
  files=["src/binops/mod.rs", "src/binops/add.rs", "src/binops/mul.rs", "src/binops/div.rs", "src/binops/rem.rs", "src/lib.rs"],
  mech=[("forwarding macros", "src/binops/mod.rs"), ("assigning operators", "src/binops"), ("num_traits", "src/num_traits.rs")],
  obs=["operators on values and references", "assigning operators", "Zero, One", "square_add"],
  tech=IN + ", the operations themselves replaced by uninterpreted functions",
  note="Proved by Kani/CBMC for all operands, for any behaviour of the operations themselves.")
P(id="P23", title="Sine, cosine and tangent keep their domain, symmetry and mutual agreement",
  st="For every finite x: sin(-x) = -sin(x), cos(-x) = cos(x), neither is a NaN, sin_cos(x) is (sin(x), cos(x)) and tan(x) is sin(x) / cos(x). The quadrant of the reduced argument selects sine or cosine and the sign in the same way for sin, cos and sin_cos. For non-zero |x| < 2^-119 sin(x) and tan(x) are x itself and the cosine is 1; sin(0) = tan(0) = 0, cos(0) = 1. Infinities and NaNs give NaNs. The conversion of the fixed-point approximation to the result rounds once, to nearest, ties to even.",
  q=ONE, why="Four quadrants, two signs, the tiny-argument cutoff and three implementations of the same functions must agree everywhere; tests compare a few arguments with tabulated values.",
  files=["src/math/circular_fns/sin.rs", "src/math/circular_fns/cos.rs", "src/math/circular_fns/tan.rs", "src/math/circular_fns/sin_cos.rs", "src/math/fp509.rs"],
  mech=[("selection by quadrant and sign", "src/math/circular_fns/{sin,cos,sin_cos,tan}.rs"), ("cutoff of small arguments", "src/math/circular_fns/approx_*.rs"),
        ("rounding of FP492", "src/math/fp509.rs From<&FP492> for f256")],
  obs=["sin", "cos", "tan", "sin_cos"], tech=IN + ", argument reduction and polynomial approximations replaced by uninterpreted functions",
  note="Proved by Kani/CBMC for all encodings, for any behaviour of the reduction and of the polynomials; their accuracy is not claimed (see not_applicable). The sign of a zero result is not pinned.")
P(id="P25", title="Inverse trigonometric functions respect domain and special values",
  st="asin and acos of |x| > 1 and of NaN are NaNs; asin(+-1) = +-pi/2, acos(1) = 0, acos(-1) = pi; atan(+-1) = +-pi/4 and atan of an infinity or of |x| >= 2^237 is +-pi/2 (the nearest values). For |x| < 2^-119 asin(x) and atan(x) are x itself. atan2(y, x) is a NaN if an operand is; for zero, infinite and equal-magnitude operands it is the multiple of pi/4 of the right quadrant; for finite operands with x > 0 and |y| below 2^-120 |x| it is the quotient y / x, also when that is subnormal. The sign of a zero result is not pinned.",
  q="every encoding (asin, acos, atan) and every pair of encodings (atan2) in the named classes", why="atan2 alone has 36 combinations of operand classes and the underflow of the quotient; tests sample some.",
  files=["src/math/circular_fns/asin_acos.rs", "src/math/circular_fns/atan.rs"],
  mech=[("special cases and cutoffs", "src/math/circular_fns/{asin_acos,atan}.rs")], obs=["asin", "acos", "atan", "atan2"],
  tech=IN + ", polynomial approximations replaced by uninterpreted functions",
  note="Proved by Kani/CBMC for all operands of the named classes; accuracy elsewhere is not claimed. For two infinite operands atan2 is pinned to the multiple of pi/4.")
P(id="P26", title="The mathematical constants are the nearest binary256 values",
  st="Each of the 18 floating-point constants in f256::consts (PI, TAU, the fractions and reciprocals of pi, SQRT_PI, FRAC_2_SQRT_PI, SQRT_2, FRAC_1_SQRT_2, SQRT_5, PHI, GAMMA and E) is the binary256 value nearest to the real number it names.",
  q="each constant, all 256 bits", why="The last digits of a 71-digit constant are not visible to tests with tolerances.",
  files=["src/consts.rs"], mech=[("tabulated encodings", "src/consts.rs")], obs=["f256::consts::*"], tech=IN,
  note="Proved by Kani against values computed independently at 1000 bits.")
P(id="P27", title="Logarithms are defined exactly on the positive numbers",
  st="ln, log2 and log10 return a finite number for every finite x > 0, subnormal or normal, and a NaN for every other argument: zeros, negative numbers, infinities and NaNs.",
  q=ONE, why="The domain test and the exponent arithmetic for subnormal and extreme arguments are sampled by few tests.", files=["src/math/log.rs"],
  mech=[("domain test", "src/math/log.rs")], obs=["ln", "log2", "log10"], tech=IN + ", the series of ln and the fixed-point product replaced by uninterpreted functions",
  note="Proved by Kani/CBMC for all encodings; accuracy is not claimed. That the value is a NaN for +inf and 0 is what the crate does and documents, IEEE 754 would give infinities.")
P(id="P20", title="Parsing a decimal literal rounds correctly",
  st="For every literal the grammar accepts, str::parse returns the binary256 value nearest to its exact decimal value, ties to even, for every number of digits and every exponent, including underflow to zero, subnormal results and overflow to infinity.",
  q="every literal, of any length", why="Three algorithms of different range hand over to each other; ties and truncated digits need particular long literals.",
  files=["src/conv/from_str/mod.rs", "src/conv/from_str/fast_exact.rs", "src/conv/from_str/fast_approx.rs", "src/conv/from_str/slow_exact.rs", "src/conv/big_decimal.rs"],
  mech=[("exact and approximate fast paths", "src/conv/from_str"), ("decimal shifts", "src/conv/big_decimal.rs Decimal")], obs=["str::parse::<f256>"], tech="", note="")
P(id="P28", title="Formatting shows the value",
  st="Display, LowerExp and Debug output of a finite value, with and without a precision, denotes the value rounded to the digits shown, and the shortest form parses back to the same value.",
  q="every value and every format specification", why="Shortest-digit selection and rounding to a precision need particular values.",
  files=["src/conv/to_str/mod.rs", "src/conv/to_str/dec_repr.rs", "src/conv/to_str/to_fixed_prec.rs"], mech=[("shortest decimal representation", "src/conv/to_str/dec_repr.rs")],
  obs=["to_string", "format!"], tech="", note="")
P(id="P29", title="Elementary functions are accurate",
  st="sin, cos, tan, asin, acos, atan, atan2, ln, log2 and log10 of a finite argument in their domain differ from the real function value by at most a few units in the last place.",
  q=ONE, why="Argument reduction of huge values and the ends of the approximation intervals need particular arguments.",
  files=["src/math/circular_fns/mod.rs", "src/math/log.rs", "src/math/fp509.rs"], mech=[("fixed-point polynomials", "src/math/circular_fns/approx_*.rs")],
  obs=["sin", "cos", "tan", "asin", "acos", "atan", "ln"], tech="", note="")
NA = {
  "P20": "The result hangs on digit-by-digit decimal shifts of unbounded literals (src/conv/big_decimal.rs) and a table of 2049 truncated powers of five; contracts relating the digit array to the real value through every shift were not completed within reach, and a bounded unrolling says nothing about the long literals on which the paths fall back. Sampling against an oracle (which found four defects, repaired) is another technique and not claimed.",
  "P28": "The formatting code reads tables from four *_lut crates whose sources are not part of the repository as given, so the code cannot run or be extracted completely here; placeholders would make a proof meaningless.",
  "P29": "The post-condition needs bounds on transcendental functions over the reals for polynomials with 509-bit fixed-point coefficients; neither Verus nor CBMC has a theory for it. What needs no such bound is claimed in P23, P25 and P27.",
}
