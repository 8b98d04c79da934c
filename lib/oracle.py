"""Exact oracle for f256 (IEEE 754 binary256), written from the standard and
from the crate's documentation, using unbounded integers only.

A datum is its 256-bit encoding as an int.  Every finite datum is
(-1)^s * m * 2^t with t >= TMIN.  `rne` is round-to-nearest, ties-to-even.
"""
from math import isqrt

P = 237
FB = 236
BIAS = 262143
EMAX = 0x7FFFF
TMIN = 1 - BIAS - FB            # -262378
SIGN = 1 << 255
ABS = SIGN - 1
INF = EMAX << FB
NINF = INF | SIGN
QNAN = INF | (1 << 235)
HID = 1 << FB
FRAC = HID - 1
ONE = BIAS << FB
MAXF = INF - 1
NAN = "nan"


def isnan(b):
    return (b & ABS) > INF


def isinf(b):
    return (b & ABS) == INF


def iszero(b):
    return (b & ABS) == 0


def sgn(b):
    return b >> 255


def dec(b):
    """finite datum -> (s, m, t)"""
    a = b & ABS
    e = a >> FB
    if e == 0:
        return b >> 255, a & FRAC, TMIN
    return b >> 255, (a & FRAC) | HID, TMIN + e - 1


def rne_abs(n, d, e):
    """round n/d * 2^e (n,d > 0) to the nearest magnitude encoding."""
    # target: quantum t so that n/d*2^(e-t) has at most P bits
    k = n.bit_length() - d.bit_length() + e     # n/d*2^e in [2^(k-1), 2^(k+1))
    t = max(k - P - 1, TMIN)
    while True:
        sh = e - t
        if sh >= 0:
            nn, dd = n << sh, d
        else:
            nn, dd = n, d << -sh
        q, r = divmod(nn, dd)
        if q.bit_length() <= P:
            break
        t += 1
    r2 = 2 * r
    if r2 > dd or (r2 == dd and (q & 1)):
        q += 1
    if t == TMIN:
        a = q            # subnormal or carries into the exponent by itself
        if q >= 2 * HID:
            a = (2 << FB)
        return a
    # q in [2^236, 2^237]
    if q == 2 * HID:
        q = HID
        t += 1
    if q < HID:
        raise AssertionError("normalisation")
    ebits = t - TMIN + 1
    if ebits >= EMAX:
        return INF
    return (ebits << FB) | (q & FRAC)


def rne_abs_fast(n, e):
    """rne of n*2^e, n > 0, no loop on t."""
    L = n.bit_length()
    t = max(e + L - P, TMIN)
    sh = t - e
    if sh <= 0:
        q = n << -sh
    else:
        q = n >> sh if sh < L + 2 else 0
        if sh <= L + 1:
            r = n & ((1 << sh) - 1)
            h = 1 << (sh - 1)
            if r > h or (r == h and (q & 1)):
                q += 1
    if t == TMIN:
        if q >= 2 * HID:
            return 2 << FB
        return q
    if q == 2 * HID:
        q = HID
        t += 1
    eb = t - TMIN + 1
    if eb >= EMAX:
        return INF
    return (eb << FB) | (q & FRAC)


def from_exact(s, n, e):
    return (s << 255) | (rne_abs_fast(n, e) if n else 0)


def sum_exact(terms, zero_sign):
    """terms: list of (s, m, t) -> rne of the exact sum."""
    terms = [x for x in terms if x[1]]
    if not terms:
        return zero_sign << 255
    if len(terms) == 2:
        # compress a huge exponent gap to a sticky bit
        (s1, m1, t1), (s2, m2, t2) = terms
        if t1 + m1.bit_length() < t2 + m2.bit_length():
            s1, m1, t1, s2, m2, t2 = s2, m2, t2, s1, m1, t1
        g = t1 - (t2 + m2.bit_length())
        if g > 800:
            t2 = t1 - 800
            m2 = 1
        terms = [(s1, m1, t1), (s2, m2, t2)]
    t0 = min(t for _, _, t in terms)
    v = sum((-m if s else m) << (t - t0) for s, m, t in terms)
    if v == 0:
        return zero_sign << 255
    return from_exact(1 if v < 0 else 0, abs(v), t0)


def add(x, y):
    if isnan(x) or isnan(y):
        return NAN
    if isinf(x):
        return NAN if isinf(y) and x != y else x
    if isinf(y):
        return y
    zs = sgn(x) & sgn(y)
    return sum_exact([dec(x), dec(y)], zs)


def sub(x, y):
    return add(x, y ^ SIGN)


def mul(x, y):
    if isnan(x) or isnan(y):
        return NAN
    s = sgn(x) ^ sgn(y)
    if isinf(x) or isinf(y):
        return NAN if iszero(x) or iszero(y) else (s << 255) | INF
    _, a, t = dec(x)
    _, b, u = dec(y)
    return from_exact(s, a * b, t + u)


def div(x, y):
    if isnan(x) or isnan(y):
        return NAN
    s = (sgn(x) ^ sgn(y)) << 255
    if isinf(x):
        return NAN if isinf(y) else s | INF
    if isinf(y):
        return s
    if iszero(y):
        return NAN if iszero(x) else s | INF
    if iszero(x):
        return s
    _, a, t = dec(x)
    _, b, u = dec(y)
    q, r = divmod(a << 520, b)
    return from_exact(sgn(x) ^ sgn(y), (q << 1) | (1 if r else 0), t - u - 521)


def rem(x, y):
    """truncated remainder, sign of x (Rust's % / C fmod)"""
    if isnan(x) or isnan(y) or isinf(x) or iszero(y):
        return NAN
    if isinf(y) or iszero(x):
        return x
    s, a, t = dec(x)
    _, b, u = dec(y)
    if t >= u:
        r = a * pow(2, t - u, b) % b
        return from_exact(s, r, u)
    d = u - t
    if d > 240:
        return x
    return from_exact(s, a % (b << d), t)


def fma(x, y, z):
    if isnan(x) or isnan(y) or isnan(z):
        return NAN
    s = sgn(x) ^ sgn(y)
    if isinf(x) or isinf(y):
        if iszero(x) or iszero(y):
            return NAN
        p = (s << 255) | INF
        return NAN if isinf(z) and z != p else p
    if isinf(z):
        return z
    _, a, t = dec(x)
    _, b, u = dec(y)
    return sum_exact([(s, a * b, t + u), dec(z)], s & sgn(z))


def sos(x, y):
    if isnan(x) or isnan(y):
        return NAN
    if isinf(x) or isinf(y):
        return INF
    _, a, t = dec(x)
    _, b, u = dec(y)
    return sum_exact([(0, a * a, 2 * t), (0, b * b, 2 * u)], 0)


def square(x):
    return mul(x, x)


def sqrt(x):
    if isnan(x):
        return NAN
    if iszero(x):
        return x
    if sgn(x):
        return NAN
    if isinf(x):
        return x
    _, a, t = dec(x)
    sh = 600 + ((t - 600) & 1)
    n = a << sh
    t -= sh
    q = isqrt(n)
    return from_exact(0, (q << 1) | (1 if q * q != n else 0), t // 2 - 1)


def integral(x, mode):
    """trunc/ceil/floor/round/rte; the sign of a zero result is not pinned."""
    if isnan(x):
        return NAN
    if isinf(x) or iszero(x):
        return x
    s, m, t = dec(x)
    if t >= 0:
        return x
    d = -t
    if d > 300:
        q, r = 0, (1 if True else 0)
        lt_half, eq_half = True, False
    else:
        q, r = m >> d, m & ((1 << d) - 1)
        h = 1 << (d - 1)
        lt_half, eq_half = r < h, r == h
    if r:
        if mode == "ceil":
            q += 0 if s else 1
        elif mode == "floor":
            q += 1 if s else 0
        elif mode == "round":
            q += 0 if lt_half else 1
        elif mode == "rte":
            q += 0 if lt_half else (q & 1 if eq_half else 1)
    return from_exact(s, q, 0)


def fract(x):
    if isnan(x) or isinf(x):
        return NAN
    s, m, t = dec(x)
    if t >= 0:
        return s << 255
    d = -t
    if d > 300:
        return x
    return from_exact(s, m & ((1 << d) - 1), t)


def pow2(x, n):
    if isnan(x):
        return NAN
    if isinf(x) or iszero(x):
        return x
    s, m, t = dec(x)
    return from_exact(s, m, t + n)


def ulp(x):
    if isnan(x) or isinf(x):
        return NAN
    a = x & ABS
    e = max(a >> FB, 1)
    return from_exact(0, 1, TMIN + e - 1)


def total_key(b):
    return -(b & ABS) - 1 if b >> 255 else b & ABS


def value_key(b):
    return -(b & ABS) if b >> 255 else b & ABS
