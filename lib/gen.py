"""Directed input generation for the witness search."""
from oracle import *

SPECIAL = [0, 1, 2, 3, HID - 1, HID, HID + 1, 2 * HID - 1, 2 * HID, 2 * HID + 1, ONE, ONE - 1, ONE + 1,
           ONE - HID, ONE - HID + 1, ONE - HID - 1, ONE + HID, ONE + HID // 2, MAXF, MAXF - 1, INF, QNAN,
           INF + 1, ABS, INF | (1 << 127), INF | (1 << 128), INF - HID, 1 << 127, 1 << 128, (1 << 128) - 1, 1 << 235,
           (BIAS + 236) << FB, (BIAS + 237) << FB, ((BIAS + 236) << FB) - 1,
           (BIAS + 235) << FB, ((BIAS + 235) << FB) + 1,
           (BIAS - 237) << FB, (BIAS - 236) << FB]
INTERESTING_D = sorted(set(
    list(range(-8, 9)) + [s * v for s in (-1, 1) for c in (64, 108, 109, 118, 127, 128, 129, 192, 216, 235, 236,
                                                          237, 238, 239, 255, 256, 257, 364, 384, 472, 473, 474,
                                                          492, 511, 512, 513, 600, 709, 768)
                          for v in range(c - 2, c + 3)]))


def frac(r):
    k = r.randrange(14)
    if k == 0:
        return 0
    if k == 1:
        return FRAC
    if k == 2:
        return 1 << r.randrange(FB)
    if k == 3:
        return FRAC ^ (1 << r.randrange(FB))
    if k == 4:
        a, b = r.randrange(FB), r.randrange(FB)
        return ((1 << max(a, b)) - (1 << min(a, b))) & FRAC
    if k == 5:
        return (1 << r.randrange(FB)) | (1 << r.randrange(FB))
    if k == 6:
        return r.getrandbits(108) << 128
    if k == 7:
        return r.getrandbits(128)
    if k == 8:
        n = r.randrange(1, FB)
        return (r.getrandbits(n) << (FB - n)) & FRAC
    if k == 9:
        return r.getrandbits(r.randrange(1, FB))
    if k == 10:
        return (FRAC - r.randrange(4))
    if k == 11:
        return r.randrange(4)
    if k == 12:
        v = 0
        for _ in range(r.randrange(2, 7)):
            v ^= (1 << r.randrange(FB + 1)) - 1
        return v & FRAC
    return r.getrandbits(FB)


def expo(r, c=None):
    k = r.randrange(9)
    if k == 0:
        return 0
    if k == 1:
        return r.randrange(1, 4)
    if k == 2:
        return r.randrange(0, 800)
    if k == 3:
        return EMAX - 1 - r.randrange(4)
    if k == 4:
        return EMAX - 1 - r.randrange(800)
    if k in (5, 6):
        return BIAS + r.choice(INTERESTING_D) + r.randrange(-1, 2)
    if k == 7:
        return BIAS // 2 + r.randrange(-800, 800)
    return r.randrange(EMAX)


def val(r, special=16):
    if r.randrange(special) == 0:
        v = r.choice(SPECIAL)
    else:
        v = (min(max(expo(r), 0), EMAX - 1) << FB) | frac(r)
    return v | (SIGN if r.randrange(2) else 0)


def finite(r):
    while True:
        v = val(r, 30)
        if (v & ABS) < INF:
            return v


def mk(e, f, s):
    return (min(max(e, 0), EMAX - 1) << FB) | (f & FRAC) | (SIGN if s else 0)


def mid(r):
    """moderate exponent"""
    return mk(BIAS + r.randrange(-700, 700), frac(r), r.randrange(2))


def pair(r):
    k = r.randrange(8)
    x = val(r)
    if k == 0:
        return x, val(r)
    e = (x & ABS) >> FB
    if k == 1:      # near each other
        y = ((x & ABS) + r.randrange(-3, 4)) % ABS
        return x, y | (SIGN if r.randrange(2) else 0)
    if k == 2:
        d = r.randrange(-490, 490)
    else:
        d = r.choice(INTERESTING_D)
    y = mk(e + d, frac(r), r.randrange(2))
    if k == 5:
        y = mk(e + d, x & FRAC, r.randrange(2))
    if k == 6:
        y = mk(e + d, (x ^ FRAC) & FRAC, r.randrange(2))
    if r.randrange(2):
        return y, x
    return x, y


def mulpair(r):
    """exponents chosen so that the product sits in an interesting range"""
    k = r.randrange(6)
    if k == 0:
        return val(r), val(r)
    ex = r.randrange(0, EMAX)
    if k == 1:
        tgt = -r.randrange(-5, 480)                 # around the subnormal boundary
    elif k == 2:
        tgt = EMAX - r.randrange(-4, 5)
    elif k == 3:
        tgt = r.randrange(-3, 4)
    else:
        tgt = r.randrange(EMAX)
    ey = tgt + BIAS - ex
    if not 0 <= ey < EMAX:
        ey = r.randrange(EMAX)
        ex = min(max(tgt + BIAS - ey, 0), EMAX - 1)
    x, y = mk(ex, frac(r), r.randrange(2)), mk(ey, frac(r), r.randrange(2))
    if r.randrange(10) == 0:
        x = finite_sub(r)
    return (x, y) if r.randrange(2) else (y, x)


def finite_sub(r):
    return frac(r) | (SIGN if r.randrange(2) else 0)


def divpair(r):
    k = r.randrange(8)
    if k == 0:
        return val(r), val(r)
    tgt = [-r.randrange(-5, 480), EMAX - r.randrange(-4, 5), r.randrange(-3, 4), r.randrange(EMAX)][r.randrange(4)]
    ey = r.choice([0, 0, r.randrange(EMAX), r.randrange(EMAX), r.randrange(3)])
    ex = tgt - BIAS + ey
    if not 0 <= ex < EMAX:
        ex = r.randrange(EMAX)
        ey = min(max(ex + BIAS - tgt, 0), EMAX - 1)
    x, y = mk(ex, frac(r), r.randrange(2)), mk(ey, frac(r), r.randrange(2))
    if k == 1:      # exact or almost exact quotient
        n = r.randrange(1, 118)
        a, b = r.getrandbits(n) | 1 | (1 << n), r.getrandbits(n) | 1 | (1 << n)
        m = a * b << (236 - (a * b).bit_length() + 1)
        m2 = b << (236 - b.bit_length() + 1)
        x, y = mk(ex, m + r.choice([0, 0, 1, -1]), 0), mk(ey, m2, 0)
    if k == 2:
        y = mk(ey, [0, FRAC, 1, x & FRAC, (x & FRAC) + 1, (x & FRAC) - 1][r.randrange(6)], 0)
    if k == 3:      # quotient next to a rounding boundary of a 237-bit result
        b = HID | frac(r)
        q = (HID | frac(r)) * 2 + 1
        a = q * b >> 237
        while a >= 2 * HID:
            a >>= 1
        x, y = mk(ex, a + r.randrange(-1, 2), 0), mk(ey, b, 0)
    return x, y


def rempair(r):
    k = r.randrange(8)
    if k == 6:      # exact (or nearly exact) multiples of a subnormal with leading ones
        n = r.randrange(100, 237)
        y = (1 << n) - 1 - r.randrange(1 << r.randrange(1, n - 2))
        v = y * r.randrange(1, 1 << r.randrange(2, max(3, 256 - n))) + r.choice([0, 0, 0, 1, -1])
        b = v.bit_length()
        if b > 237:
            v >>= b - 237
            return ((b - 236) << 236) + v - (1 << 236), y
        return v, y
    if k == 7:      # y close to x
        x = val(r)
        d = r.choice([0, 1, 2, 3, 1 << r.randrange(236), r.getrandbits(r.randrange(1, 237))])
        return x, max(0, (x & ABS) + r.choice([d, -d])) & ABS | r.randrange(2) << 255
    if k == 0:
        x, y = val(r), val(r)
        return x, y
    x, y = pair(r)
    ex = (x & ABS) >> FB
    if k in (1, 2):
        y = mk(ex - r.randrange(0, 1500), frac(r), r.randrange(2))
    if k == 3:
        n = r.randrange(1, 100)
        y = mk(ex - r.randrange(0, 600), r.getrandbits(n) << (236 - n), 0)
    if k == 4:      # multiples
        m = r.getrandbits(r.randrange(1, 118)) | 1
        q = r.getrandbits(r.randrange(1, 118)) | 1
        p = m * q
        e = r.choice([0, 1, 5, BIAS, r.randrange(EMAX)])
        if e == 0:
            return p & FRAC, m
        x = mk(e, p << (237 - p.bit_length()), r.randrange(2))
        y = mk(e - (p.bit_length() - m.bit_length()) , m << (237 - m.bit_length()), 0)
        if e - (p.bit_length() - m.bit_length()) < 1:
            y = m
    return x, y


def triple(r):
    k = r.randrange(8)
    x, y = mulpair(r)
    if k == 0:
        return val(r), val(r), val(r)
    if (x & ABS) >= INF or (y & ABS) >= INF:
        return x, y, val(r)
    _, a, t = dec(x)
    _, b, u = dec(y)
    p = a * b
    if p == 0:
        return x, y, val(r)
    L = p.bit_length() + t + u
    e = L - 1 + BIAS            # biased exponent of product
    if k == 1:                  # cancellation
        z = rne_abs_fast(p, t + u)
        z = max(z + r.randrange(-3, 4), 0)
        if z > MAXF:
            z = MAXF
        z |= (sgn(x) ^ sgn(y) ^ 1) << 255
        return x, y, z
    if k == 2:                  # shallow cancellation
        z = rne_abs_fast(p, t + u)
        z = max(z + (r.getrandbits(r.randrange(1, 236)) * r.choice([1, -1])), 0)
        z = min(z, MAXF) | ((sgn(x) ^ sgn(y) ^ 1) << 255)
        return x, y, z
    if k == 3:
        d = r.randrange(-800, 800)
    else:
        d = r.choice(INTERESTING_D)
    z = mk(e + d, frac(r), r.randrange(2))
    if k == 5:
        z = finite_sub(r)
    return x, y, z


def sospair(r):
    k = r.randrange(5)
    if k == 0:
        return val(r), val(r)
    if k == 1:
        e = r.choice([BIAS // 2, (BIAS + EMAX) // 2]) + r.randrange(-300, 300)
    else:
        e = r.randrange(EMAX)
    d = r.choice([r.randrange(-260, 260), r.choice(INTERESTING_D) // 2])
    x, y = mk(e, frac(r), r.randrange(2)), mk(e + d, frac(r), r.randrange(2))
    if k == 4:
        y = finite_sub(r) if r.randrange(2) else mk(e, x & FRAC, 0)
    return x, y


def sqrtarg(r):
    k = r.randrange(6)
    if k == 0:
        return val(r)
    if k == 1:
        return finite_sub(r) & ABS
    q = HID | frac(r)
    v = q * q + r.choice([0, 0, 1, -1, q, -q, q + 1, 1 - q])
    e = r.randrange(EMAX)
    b = rne_abs_fast(v, 0)
    return mk(e, (b + r.randrange(-1, 2)) & FRAC, 0)


def intarg(r):
    k = r.randrange(6)
    if k == 0:
        return val(r)
    e = BIAS + r.choice([-2, -1, -1, 0, 1, 2, 107, 108, 109, 126, 127, 128, 129, 234, 235, 236, 237,
                         r.randrange(-4, 240), r.randrange(-4, 240)])
    f = frac(r)
    nf = FB - (e - BIAS)
    if k < 4 and 0 < nf <= FB:
        ip = f >> nf << nf
        h = 1 << (nf - 1)
        f = ip + r.choice([0, h, h - 1, h + 1, 1, (1 << nf) - 1])
    return mk(e, f, r.randrange(2))
