"""Witness search: differential runs of the real crate (through harness/driver)
against the exact oracle.  It never decides a property; it supplies concrete
failing inputs for failed obligations and looks for failures where an
obligation is out of the verifier's reach (labelled bounded in the evidence).

python3 search.py DRV SEED SECONDS op[,op...]  -> one JSON line
"""
import json, random, re, subprocess, sys, time, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import oracle as O, gen as G

sys.set_int_max_str_digits(0)
M128 = (1 << 128) - 1


def h(b):
    return f"{b>>128:x}:{b&M128:x}"


def ph(s):
    a, b = s.split(":")
    return (int(a, 16) << 128) | int(b, 16)


# ---- comparison of one answer with the expected one: "ok" | "bad" | "known"
def cmp_bits(e, g):
    if ":" not in g or " " in g:
        return "bad"
    v = ph(g)
    if e == "nan":
        return "ok" if O.isnan(v) else "bad"
    return "ok" if v == e else "bad"


def cmp_zs(e, g):
    """sign of a zero result is not pinned"""
    if ":" not in g or " " in g:
        return "bad"
    v = ph(g)
    if e != "nan" and O.iszero(e) and O.iszero(v):
        return "ok"
    return cmp_bits(e, g)


def cmp_text(e, g):
    return "ok" if e == g else "bad"


class Op:
    def __init__(self, gen, exp, cmp=cmp_bits, line=None):
        self.gen, self.exp, self.cmp, self._line = gen, exp, cmp, line

    def line(self, name, a):
        if self._line:
            return self._line(name, a)
        return name + " " + " ".join(h(x) for x in a)


def t1(g):
    return lambda r: (g(r),)


def narg(r, x):
    e = (x & O.ABS) >> O.FB
    return max(0, r.choice([0, 1, 2, e - 1, e, e + 1, e + 235, e + 236, e + 237, e + 238, r.randrange(1000),
                            r.randrange(O.EMAX), O.EMAX - e, O.EMAX - e - 1, O.EMAX - e + 1, O.EMAX, O.EMAX + 1,
                            O.EMAX + r.randrange(300), 2**31 - 1, 2**31, 2**32 - 1, e + r.randrange(300)]))


def g_p2(r):
    x = G.val(r)
    return x, narg(r, x)


def line_p2(n, a):
    return f"{n} {h(a[0])} {a[1]}"


def b2s(v):
    return str(bool(v)).lower()


def pairs_eq(r):
    x, y = G.pair(r)
    if r.randrange(10) == 0:
        y = x
    if r.randrange(20) == 0:
        y = x ^ O.SIGN
    if r.randrange(10) == 0:
        y = x ^ (1 << r.randrange(256))
    return x, y


def e_tcmp(x, y):
    kx, ky = O.total_key(x), O.total_key(y)
    return "lt" if kx < ky else "gt" if kx > ky else "eq"


FLIP = {"lt": "gt", "gt": "lt", "eq": "eq"}


def bothneg(x, y):
    return x >> 255 and y >> 255


def c_tcmp(a, e, g):
    if g == e:
        return "ok"
    return "known" if bothneg(*a) and g == FLIP[e] else "bad"


def e_pcmp(x, y):
    if O.isnan(x) or O.isnan(y):
        return "none false false false false"
    kx, ky = O.value_key(x), O.value_key(y)
    return ("lt" if kx < ky else "gt" if kx > ky else "eq") + f" {b2s(kx<ky)} {b2s(kx<=ky)} {b2s(kx>ky)} {b2s(kx>=ky)}"


def c_pcmp(a, e, g):
    if g == e:
        return "ok"
    return "known" if bothneg(*a) and g == e_pcmp(a[1], a[0]) else "bad"


def e_eq(x, y):
    v = not O.isnan(x) and not O.isnan(y) and (x == y or O.iszero(x) and O.iszero(y))
    return f"{b2s(v)} {b2s(not v)}"


def vcmp(x, y):
    kx, ky = O.value_key(x), O.value_key(y)
    return (kx > ky) - (kx < ky)


def mm(sign):
    def e(x, y):
        if O.isnan(x) and O.isnan(y):
            return "nan"
        if O.isnan(x):
            return y
        if O.isnan(y):
            return x
        return x if vcmp(x, y) * sign >= 0 else y
    return e


def c_mm(sign):
    def c(a, e, g):
        r = cmp_bits(e, g)
        if r == "ok":
            return r
        x, y = a
        if O.isnan(x) or O.isnan(y):
            return "bad"
        if vcmp(x, y) == 0 and ":" in g and ph(g) in (x, y):
            return "ok"
        if bothneg(x, y) and ":" in g and ph(g) in (x, y):
            return "known"
        return "bad"
    return c


def g_clamp(r):
    while True:
        x, lo = G.pair(r)
        hi = G.pair(r)[1]
        if r.randrange(3) == 0:
            lo, hi = (lo | O.SIGN), (lo & O.ABS)
        if r.randrange(6) == 0:
            x = r.choice([lo, hi, O.QNAN, O.INF, O.INF | O.SIGN, 0, O.SIGN])
        if O.isnan(lo) or O.isnan(hi):
            continue
        if vcmp(lo, hi) > 0:
            lo, hi = hi, lo
        return x, lo, hi


def e_clamp(x, lo, hi):
    if O.isnan(x):
        return "nan"
    return lo if vcmp(x, lo) < 0 else hi if vcmp(x, hi) > 0 else x


def c_clamp(a, e, g):
    r = cmp_bits(e, g)
    if r == "ok":
        return r
    if sum(v >> 255 for v in a) >= 2:
        return "known"
    return "bad"


def g_cls(r):
    x = G.val(r, 4)
    k = r.randrange(20)
    if k == 0:
        x = r.getrandbits(256)
    if k == 1:
        x = O.INF | G.frac(r)
    if k == 2:
        x = G.frac(r) | (r.randrange(2) << 255)
    return x,


def e_cls(x):
    nan, inf = O.isnan(x), O.isinf(x)
    a = x & O.ABS
    c = "nan" if nan else "inf" if inf else "zero" if a == 0 else "sub" if a < O.HID else "norm"
    return " ".join([c, b2s(nan), b2s(inf), b2s(not nan and not inf), b2s(c == "sub"), b2s(c == "norm"),
                     b2s(c == "zero"), b2s(c in ("nan", "inf", "zero")), b2s(not x >> 255), b2s(x >> 255)])


def e_bytes(x):
    be, le = x.to_bytes(32, "big").hex(), x.to_bytes(32, "little").hex()
    return f"{be} {le} {h(x)} {h(x)} {h(x)}"


def g_fin(r):
    return G.finite(r),


def e_dec(x):
    s, m, t = O.dec(x)
    if m == 0:
        return f"{s} 0 0:0"
    return f"{s} {t} {h(m)}"


def c_dec(a, e, g):
    """sign, exponent, significand with |x| = c * 2^t; which representative is
    returned for a given value is not pinned beyond c < 2^237"""
    try:
        s, t, c = g.split(" ")
        s, t, c = int(s), int(t), ph(c)
    except ValueError:
        return "bad"
    es, m, et = O.dec(a[0])
    if s != es or c >= 1 << 237:
        return "bad"
    if m == 0 or c == 0:
        return "ok" if m == c == 0 else "bad"
    d = t - et
    return "ok" if (abs(d) < 300 and (c << d == m if d >= 0 else c == m << -d)) else "bad"


def g_enc(r):
    c = r.getrandbits(r.randrange(1, 238)) or 1
    t = r.choice([r.randrange(O.TMIN, O.EMAX - 1 - O.BIAS - 236 + 1), O.TMIN + r.randrange(300),
                  262143 - 236 - r.randrange(3)])
    return r.randrange(2), t, c


def line_enc(n, a):
    return f"enc {a[0]} {a[1]} {h(a[2])}"


def g_int(bits, sg):
    def g(r):
        v = r.getrandbits(r.randrange(1, bits + 1))
        k = r.randrange(8)
        if k == 0:
            v = (1 << bits) - 1 - r.randrange(3)
        if k == 1:
            v = 1 << r.randrange(bits)
        if k == 2:
            v = ((1 << r.randrange(1, bits + 1)) - 1) ^ (1 << r.randrange(bits))
        if sg and v >= 1 << (bits - 1):
            v -= 1 << bits
        return v,
    return g


def line_int(n, a):
    return f"{n} {a[0]}"


def e_int(v):
    return O.from_exact(1 if v < 0 else 0, abs(v), 0)


def g_flt(eb, mb):
    def g(r):
        e = r.choice([0, 0, 1, (1 << eb) - 1, (1 << eb) - 2, r.randrange(1 << eb)])
        f = r.getrandbits(r.randrange(1, mb + 1)) if r.randrange(5) else 0
        if r.randrange(8) == 0:
            f = 1 << r.randrange(mb)
        return (r.randrange(2) << (eb + mb)) | (e << mb) | f,
    return g


def e_flt(eb, mb):
    def ex(b):
        s = b >> (eb + mb)
        e = (b >> mb) & ((1 << eb) - 1)
        m = b & ((1 << mb) - 1)
        bias = (1 << (eb - 1)) - 1
        if e == (1 << eb) - 1:
            return "nan" if m else (s << 255) | O.INF
        if e == 0:
            return O.from_exact(s, m, 1 - bias - mb)
        return O.from_exact(s, m | (1 << mb), e - bias - mb)
    return ex


def line_flt(n, a):
    return f"{n} {a[0]:x}"


def integral(mode):
    return lambda x: O.integral(x, mode)


def e_split(x):
    if O.isnan(x):
        return "nan", "nan"
    if O.isinf(x):
        return x, None
    return O.integral(x, "trunc"), O.fract(x)


def c_split(a, e, g):
    p = g.split(" ")
    if len(p) != 2:
        return "bad"
    for ee, gg in zip(e, p):
        if ee is not None and cmp_zs(ee, gg) != "ok":
            return "bad"
    return "ok"


def c_fract(a, e, g):
    return "ok" if O.isinf(a[0]) and ":" in g else cmp_zs(e, g)


def c_any(f):
    return lambda a, e, g: f(e, g)


# ---- degrees / radians: correctly rounded up to the double rounding that a
# high precision constant makes unobservable: the answer must be RNE of the
# exact product, decided with 700-bit pi; undecidable cases are skipped
def _pi(bits):
    def arctan_inv(n):
        t = (1 << (bits + 40)) // n
        s, k, sg = t, 3, -1
        while t:
            t //= n * n
            s += sg * (t // k)
            k += 2
            sg = -sg
        return s
    v = 4 * (4 * arctan_inv(5) - arctan_inv(239))
    return v >> 40


PIB = 900
PI = _pi(PIB)


def e_deg(rad):
    def ex(x):
        if O.isnan(x):
            return "nan"
        if O.isinf(x) or O.iszero(x):
            return x
        s, m, t = O.dec(x)
        if rad:     # x * pi / 180
            res = {O.from_exact(s, (m * p << 100) // 180 * 2 + 1, t - PIB - 101) for p in (PI - 4, PI + 4)}
            res.add(O.from_exact(s, m * KRAD, t - 261))
        else:
            res = {O.from_exact(s, (m * 180 << 2 * PIB) // p * 2 + 1, t - PIB - 1) for p in (PI - 4, PI + 4)}
            # one rounding of x * K is what the property asks for, K as accurate as
            # the constant in use (relative error 2^-237.8) or better
            res.add(O.from_exact(s, m * KDEG, t - 250))
        return res if len(res) > 1 else res.pop()
    return ex


KRAD = (190049526055994088508387621895443694809 << 128) + 953738875812114979603059177117484306
KDEG = (304636616676435425756912514760952666071 << 128) + 69798147688063442975655060594812004816


def c_deg(a, e, g):
    if isinstance(e, set):
        return "ok" if ":" in g and ph(g) in e else "bad"
    return cmp_bits(e, g)


# ---- parsing
RE = re.compile(r'[+-]?(?:(inf|infinity)|(nan)|(?:(\d*)(?:\.(\d*))?(?:e([+-]?\d+))?))', re.I | re.A)


_P5 = {}


def _p10(e):
    """(lo, hi, x) with lo * 2^x <= 10^e <= hi * 2^x, lo about 900 bits"""
    if e not in _P5:
        if len(_P5) > 20000:
            _P5.clear()
        if e >= 0:
            v = 10 ** e
            k = max(0, v.bit_length() - 900)
            _P5[e] = (v >> k, (v >> k) + (1 if k else 0), k)
        else:
            d = 10 ** -e
            k = d.bit_length() + 900
            q = (1 << k) // d
            _P5[e] = (q, q + 1, -k)
    return _P5[e]


def rne_dec(s, n, e):
    """nearest datum of n * 10^e"""
    if n.bit_length() < 2000:
        lo, hi, x = _p10(e)
        a, b = O.from_exact(s, n * lo, x), O.from_exact(s, n * hi, x)
        if a == b:
            return a
    return rne_ratio(s, n * 10 ** max(e, 0), 10 ** max(-e, 0))


def rne_ratio(s, n, d):
    k = max(0, 600 - (n.bit_length() - d.bit_length()))
    q, r = divmod(n << k, d)
    return O.from_exact(s, (q << 1) | (1 if r else 0), -k - 1)


def e_parse(t):
    m = RE.fullmatch(t)
    if not m:
        return "err"
    s = 1 if t.startswith("-") else 0
    if m[1]:
        return (s << 255) | O.INF
    if m[2]:
        return "nan"
    a, f, e = m[3] or "", m[4] or "", m[5]
    if not a + f:
        return "err"
    e = int(e or 0)
    n = int(a + f)
    e -= len(f)
    if n == 0:
        return s << 255
    nd = len(str(n))
    if nd + e > 79000:
        return (s << 255) | O.INF
    if nd + e < -79100:
        return s << 255
    return rne_dec(s, n, e)


def dstr(r, n):
    return "".join(r.choice("0123456789") for _ in range(n))


def lit(r, k=None):
    if k is None:
        k = 3 if r.randrange(150) == 0 else r.choice([0, 1, 2, 4, 5, 6, 7])
    if k < 3:
        n = r.choice([1, 5, 8, 9, 16, 17, 70, 71, 72, 73, 76, 77, 78, 79, 80, 100, r.randrange(1, 90)])
        d = dstr(r, n)
        if r.randrange(4) == 0:
            d = "0" * r.randrange(1, 20) + d
        if r.randrange(4) == 0:
            d = d + "0" * r.randrange(1, 30)
        if r.randrange(2):
            p = r.randrange(len(d) + 1)
            d = d[:p] + "." + d[p:]
        e = r.choice([0, r.randrange(-60, 60), r.randrange(-600, 600),
                      r.choice([102, 103, -102, -103, 110, 111, -110, 511, 512, 513, -512, -513])])
        return d + (f"e{e}" if e or r.randrange(2) else "")
    if k == 3:
        return dstr(r, r.randrange(1, 85)) + "e" + str(
            r.choice([r.randrange(-79100, -78880), r.randrange(78800, 79000), r.randrange(-79000, 79000)]))
    if k in (4, 5, 6):
        e = O.BIAS + r.choice([r.randrange(-300, 300), r.randrange(200, 250), r.randrange(230, 700)])
        b = (e << O.FB) | G.frac(r)
        s, m, t = O.dec(b)
        m = 2 * m + 1
        t -= 1
        d, x = (str(m << t), 0) if t >= 0 else (str(m * 5**-t), t)
        j = r.randrange(6)
        if j == 0:
            n = r.randrange(5)
            d = d + "0" * n + "1"
            x -= n + 1
        if j == 1:
            d = str(int(d) - 1)
        if j == 2:
            d = str(int(d) + 1)
        if j == 3 and len(d) > 60:
            n = r.randrange(60, len(d) + 1)
            x += len(d) - n
            d = d[:n]
        if j == 4:
            d = d + "0" * 30 + "1"
            x -= 31
        if r.randrange(2) and -x < len(d) and x < 0:
            return d[:x] + "." + d[x:]
        return d + f"e{x}"
    return r.choice(["0." + "0" * r.randrange(80) + dstr(r, r.randrange(1, 40)),
                     "0" * r.randrange(10) + "." + "0" * r.randrange(20) + "e" + str(r.randrange(-99, 99)),
                     dstr(r, 5) + "0" * r.randrange(80), "inf", "nan", "Infinity", "NaN", "INF",
                     dstr(r, 3) + "e" + r.choice("+-") + dstr(r, r.randrange(1, 25))])


def g_lit(r):
    return r.choice(["", "", "-", "+"]) + lit(r),


def g_junk(r):
    k = r.randrange(3)
    if k == 0:
        return "".join(r.choice("01.e+-19E") for _ in range(r.randrange(0, 12))),
    base = g_lit(r)[0]
    p = r.randrange(len(base) + 1)
    return base[:p] + r.choice(["", "e", ".", "+", "-", "_", " ", "x", "E", "\u00b2", "/", ":", "0"]) + base[p + r.randrange(2):],


def c_parse(a, e, g):
    return cmp_text(e, g) if e == "err" else cmp_bits(e, g)


def line_parse(n, a):
    return "parse " + a[0]


def e_radix(s):
    return e_parse(s)


def e_nt(x):
    z = b2s(O.iszero(x))
    return f"{h(0)} {h(O.ONE)} {z} {b2s(x == O.ONE)} {h(0)} {h(O.ONE)}"


# ---- elementary functions: special values and domain only
NF = {"nan": "nan"}


PI_4, PI_2, PI_34, PI_1 = (int(x, 16) for x in (
    "3fffe921fb54442d18469898cc51701b839a252049c1114cf98e804177d4c762",
    "3ffff921fb54442d18469898cc51701b839a252049c1114cf98e804177d4c762",
    "400002d97c7f3321d234f272993d1414a2b39bd83750ccf9bb2ae03119df958a",
    "40000921fb54442d18469898cc51701b839a252049c1114cf98e804177d4c762"))
CONSTS = [("PI", 0x40000921fb54442d18469898cc51701b839a252049c1114cf98e804177d4c762),
          ("TAU", 0x40001921fb54442d18469898cc51701b839a252049c1114cf98e804177d4c762),
          ("FRAC_3_PI_2", 0x400012d97c7f3321d234f272993d1414a2b39bd83750ccf9bb2ae03119df958a),
          ("FRAC_PI_2", 0x3ffff921fb54442d18469898cc51701b839a252049c1114cf98e804177d4c762),
          ("FRAC_PI_3", 0x3ffff0c152382d73658465bb32e0f567ad116e158680b6335109aad64fe32f97),
          ("FRAC_PI_4", 0x3fffe921fb54442d18469898cc51701b839a252049c1114cf98e804177d4c762),
          ("FRAC_PI_6", 0x3fffe0c152382d73658465bb32e0f567ad116e158680b6335109aad64fe32f97),
          ("FRAC_PI_8", 0x3fffd921fb54442d18469898cc51701b839a252049c1114cf98e804177d4c762),
          ("FRAC_1_PI", 0x3fffd45f306dc9c882a53f84eafa3ea69bb81b6c52b3278872083fca2c757bd7),
          ("FRAC_2_PI", 0x3fffe45f306dc9c882a53f84eafa3ea69bb81b6c52b3278872083fca2c757bd7),
          ("SQRT_PI", 0x3ffffc5bf891b4ef6aa79c3b0520d5db9383fe3921546f63b252dca100bd3ea1),
          ("FRAC_2_SQRT_PI", 0x3ffff20dd750429b6d11ae3a914fed7fd8688281341d7587cea2e7342b06199d),
          ("SQRT_2", 0x3ffff6a09e667f3bcc908b2fb1366ea957d3e3adec17512775099da2f590b066),
          ("FRAC_1_SQRT_2", 0x3fffe6a09e667f3bcc908b2fb1366ea957d3e3adec17512775099da2f590b066),
          ("SQRT_5", 0x400001e3779b97f4a7c15f39cc0605cedc8341082276bf3a27251f86c6a11d0c),
          ("PHI", 0x3ffff9e3779b97f4a7c15f39cc0605cedc8341082276bf3a27251f86c6a11d0c),
          ("GAMMA", 0x3fffe2788cfc6fb618f49a37c7f0202a596ad439d9875ecb980321807be68e13),
          ("E", 0x400005bf0a8b1457695355fb8ac404e7a79e3b1738b079c5a6d2b53c26c8228d)]


def tiny(x):
    return not O.iszero(x) and (x & O.ABS) >> O.FB < O.BIAS - 119


def sgnd(s, m):
    return m | (O.SIGN if s else 0)


def g_trig(r):
    k = r.randrange(8)
    if k == 0:
        return G.val(r),
    m = G.frac(r)
    e = r.choice([r.randrange(-125, 30), r.randrange(-3, 4), r.randrange(-122, -115), r.randrange(0, 300)])
    if k == 1:      # a multiple of pi/4 and its neighbours
        return (O.mul(sgnd(0, PI_4), O.from_exact(0, r.randrange(1, 40), 0)) + r.randrange(-2, 3)) | (O.SIGN if r.randrange(2) else 0),
    return ((O.BIAS + e) << O.FB) | m | (O.SIGN if r.randrange(2) else 0),


def eqz(a, b):
    return a == b or O.iszero(a) and O.iszero(b) or O.isnan(a) and O.isnan(b)


def c_trig(a, e, g):
    x = a[0]
    if g.count(":") != 8:
        return "bad"
    s, sm, c, cm, t, s2, c2, q = [ph(v) for v in g.split(" ")]
    if O.isnan(x) or O.isinf(x):
        return "ok" if all(O.isnan(v) for v in (s, sm, c, cm, t, s2, c2)) else "bad"
    if O.iszero(x):
        return "ok" if all(O.iszero(v) for v in (s, sm, t, s2)) and c == cm == c2 == O.ONE else "bad"
    if tiny(x):
        return "ok" if s == t == s2 == x and sm == x ^ O.SIGN and c2 == O.ONE and c == cm else "bad"
    good = not O.isnan(s) and not O.isnan(c) and eqz(sm, s ^ O.SIGN) and eqz(c, cm) and eqz(s, s2) and eqz(c, c2) and eqz(t, q)
    return "ok" if good else "bad"


def special(f):
    """only the arguments for which f gives a value are looked at (sign of zero not pinned)"""
    return lambda a, e, g: ("bad" if ":" not in g else "ok") if e is None else cmp_zs(e, g)


def e_atan(x):
    if O.isnan(x):
        return "nan"
    if O.iszero(x) or tiny(x):
        return x
    m, s = x & O.ABS, x >> 255
    return sgnd(s, PI_4) if m == O.ONE else sgnd(s, PI_2) if m >> O.FB >= O.BIAS + 237 else None


def e_asin(x):
    m = x & O.ABS
    if O.isnan(x) or m > O.ONE:
        return "nan"
    return x if m == 0 or tiny(x) else sgnd(x >> 255, PI_2) if m == O.ONE else None


def e_acos(x):
    m = x & O.ABS
    if O.isnan(x) or m > O.ONE:
        return "nan"
    return (PI_1 if x >> 255 else 0) if m == O.ONE else None


def e_atan2(y, x):
    if O.isnan(x) or O.isnan(y):
        return "nan"
    s, n = y >> 255, x >> 255
    my, mx = y & O.ABS, x & O.ABS
    if my == 0 and mx == 0:
        return 0
    if my == 0 or mx == O.INF and my != O.INF:
        return sgnd(s and my != 0, PI_1) if n else 0
    if mx == 0 or my == O.INF and mx != O.INF:
        return sgnd(s, PI_2)
    if mx == my:
        return sgnd(s, PI_34 if n else PI_4)
    if not n and (my >> O.FB) + 120 < mx >> O.FB:
        return O.div(y, x)
    return None


def g_atan2(r):
    k = r.randrange(6)
    x, y = G.val(r), G.val(r)
    if k == 0:
        y = x ^ (O.SIGN if r.randrange(2) else 0)
    elif k == 1:
        e = min(max(((x & O.ABS) >> O.FB) + r.randrange(-260, 260), 0), O.EMAX - 1)
        y = (e << O.FB) | G.frac(r) | (O.SIGN if r.randrange(2) else 0)
    elif k == 2:
        y = r.choice([0, O.SIGN, O.INF, O.INF | O.SIGN])
    elif k == 3:
        x = r.choice([0, O.SIGN, O.INF, O.INF | O.SIGN])
    return y, x


def c_logs(a, e, g):
    x = a[0]
    if g.count(":") != 3:
        return "bad"
    dom = not O.isnan(x) and not x >> 255 and 0 < x < O.INF
    for v in g.split(" "):
        v = ph(v)
        if O.isnan(v) == dom or O.isinf(v):
            return "bad"
    return "ok"


def c_consts(a, e, g):
    return "ok" if [ph(v) for v in g.split(" ")] == [v for _, v in CONSTS] else "bad"


def c_forms(a, e, g):
    """only the agreement of the forms of an operation is looked at"""
    return "bad" if g.startswith(("VARIANT", "BADOP")) else "ok"


ops = {
    "cls": Op(g_cls, e_cls, c_any(cmp_text)),
    "bytes": Op(g_cls, e_bytes, c_any(cmp_text)),
    "dec": Op(g_fin, e_dec, c_dec),
    "enc": Op(g_enc, lambda s, t, c: O.from_exact(s, c, t), c_any(cmp_bits), line_enc),
    "eq": Op(pairs_eq, e_eq, c_any(cmp_text)),
    "tcmp": Op(pairs_eq, e_tcmp, c_tcmp),
    "pcmp": Op(pairs_eq, e_pcmp, c_pcmp),
    "max": Op(pairs_eq, mm(1), c_mm(1)),
    "min": Op(pairs_eq, mm(-1), c_mm(-1)),
    "clamp": Op(g_clamp, e_clamp, c_clamp),
    "neg": Op(g_cls, lambda x: x ^ O.SIGN, lambda a, e, g: cmp_bits("nan" if O.isnan(a[0]) else e, g)),
    "abs": Op(g_cls, lambda x: x & O.ABS, lambda a, e, g: cmp_bits("nan" if O.isnan(a[0]) else e, g)),
    "add": Op(G.pair, O.add, c_any(cmp_bits)),
    "sub": Op(G.pair, O.sub, c_any(cmp_bits)),
    "mul": Op(G.mulpair, O.mul, c_any(cmp_bits)),
    "square": Op(lambda r: (G.sospair(r)[0],), O.square, c_any(cmp_bits)),
    "div": Op(G.divpair, O.div, c_any(cmp_bits)),
    "recip": Op(lambda r: (G.divpair(r)[1],), lambda x: O.div(O.ONE, x), c_any(cmp_bits)),
    "rem": Op(G.rempair, O.rem, c_any(cmp_zs)),
    "fma": Op(G.triple, O.fma, c_any(cmp_bits)),
    "sqadd": Op(lambda r: (lambda t: (t[0], t[2]))(G.triple(r)), lambda x, z: O.fma(x, x, z), c_any(cmp_bits)),
    "sos": Op(G.sospair, O.sos, c_any(cmp_bits)),
    "sqrt": Op(t1(G.sqrtarg), O.sqrt, c_any(cmp_bits)),
    "mul2": Op(t1(G.val), lambda x: O.pow2(x, 1), c_any(cmp_bits)),
    "div2": Op(t1(G.val), lambda x: O.pow2(x, -1), c_any(cmp_bits)),
    "mulp2": Op(g_p2, lambda x, n: O.pow2(x, n), c_any(cmp_bits), line_p2),
    "divp2": Op(g_p2, lambda x, n: O.pow2(x, -n), c_any(cmp_bits), line_p2),
    "trunc": Op(t1(G.intarg), integral("trunc"), c_any(cmp_zs)),
    "ceil": Op(t1(G.intarg), integral("ceil"), c_any(cmp_zs)),
    "floor": Op(t1(G.intarg), integral("floor"), c_any(cmp_zs)),
    "round": Op(t1(G.intarg), integral("round"), c_any(cmp_zs)),
    "rte": Op(t1(G.intarg), integral("rte"), c_any(cmp_zs)),
    "fract": Op(t1(G.intarg), O.fract, c_fract),
    "split": Op(t1(G.intarg), e_split, c_split),
    "ulp": Op(t1(G.val), O.ulp, c_any(cmp_bits)),
    "todeg": Op(t1(G.val), e_deg(False), c_deg),
    "torad": Op(t1(G.val), e_deg(True), c_deg),
    "parse": Op(g_lit, e_parse, c_parse, line_parse),
    "junk": Op(g_junk, e_parse, c_parse, line_parse),
    "radix": Op(g_junk, e_radix, c_parse, lambda n, a: "radix 10 " + a[0]),
    "trig": Op(g_trig, lambda x: None, c_trig),
    "atan": Op(g_trig, e_atan, special(e_atan)),
    "asin": Op(g_trig, e_asin, special(e_asin)),
    "acos": Op(g_trig, e_acos, special(e_acos)),
    "atan2": Op(g_atan2, e_atan2, special(e_atan2)),
    "logs": Op(t1(G.val), lambda x: None, c_logs),
    "consts": Op(lambda r: (), lambda: "nearest data", c_consts, lambda n, a: n),
    "nt": Op(g_cls, e_nt, c_any(cmp_text)),
    "vsq": Op(lambda r: (lambda t: (t[0], t[2]))(G.triple(r)), lambda *a: "all forms agree", c_forms),
    "ff32": Op(g_flt(8, 23), e_flt(8, 23), c_any(cmp_bits), line_flt),
    "ff64": Op(g_flt(11, 52), e_flt(11, 52), c_any(cmp_bits), line_flt),
}
for _b in (8, 16, 32, 64, 128):
    ops["fu%d" % _b] = Op(g_int(_b, 0), e_int, c_any(cmp_bits), line_int)
    ops["fi%d" % _b] = Op(g_int(_b, 1), e_int, c_any(cmp_bits), line_int)
for _n in ("add", "sub", "mul", "div", "rem"):
    ops["v" + _n] = Op(ops[_n].gen, lambda *a: "all forms agree", c_forms, lambda n, a: n[1:] + " " + " ".join(h(x) for x in a))
# "cmp" callables take (args, expected, got)


def run(drv, lines, timeout=120):
    p = subprocess.run([drv], input="\n".join(lines) + "\n", capture_output=True, text=True, timeout=timeout)
    return p.stdout.split("\n")[:-1]


def evaluate(drv, cases, bad, known, limit=20):
    """cases: [(op, args)]"""
    cs = [(n, a, ops[n].line(n, a)) for n, a in cases]
    cs = [c for c in cs if "\n" not in c[2] and "\r" not in c[2]]
    try:
        out = run(drv, [c[2] for c in cs])
    except subprocess.TimeoutExpired:
        out = None
    if out is None or len(out) != len(cs):
        # crash or hang of the driver process: isolate it
        out = []
        for c in cs[:2000]:
            try:
                o = run(drv, [c[2]], 10)
                o = o[0] if len(o) == 1 else "CRASH"
            except subprocess.TimeoutExpired:
                o = "HANG"
            out.append(o)
            if o in ("CRASH", "HANG"):
                break
        cs = cs[:len(out)]
    for (n, a, l), g in zip(cs, out):
        e = ops[n].exp(*a)
        if g in ("CRASH", "HANG"):
            v = "bad"
        elif g == "PANIC":
            v = ops[n].cmp(a, e, "PANIC") if n == "clamp" or n[0] == "v" else "bad"
        else:
            v = ops[n].cmp(a, e, g)
        if v == "bad" and len(bad) < limit:
            bad.append({"op": n, "line": l[:3000], "got": g, "expected": e if isinstance(e, str) else h(e) if isinstance(e, int) else str(e)})
        elif v == "known":
            known[n] = known.get(n, 0) + 1
    return len(cs)


def search(drv, seed, seconds, names, batch=600, stop=True):
    r = random.Random(int(seed) * 1000003 + 17)
    t0 = time.time()
    bad, known, n, per = [], {}, 0, {}
    while time.time() - t0 < seconds:
        for nm in names:
            b = batch // 6 if nm in ("parse", "junk", "radix") else batch
            k = evaluate(drv, [(nm, ops[nm].gen(r)) for _ in range(b)], bad, known)
            n += k
            per[nm] = per.get(nm, 0) + k
            if bad and stop:
                break
            if time.time() - t0 > seconds and len(per) == len(names):
                break
        if bad and stop:
            break
    return {"evals": n, "per_op": per, "known": known, "bad": bad, "wall_s": round(time.time() - t0, 2)}


if __name__ == "__main__":
    print(json.dumps(search(sys.argv[1], sys.argv[2], float(sys.argv[3]), sys.argv[4].split(","))))
