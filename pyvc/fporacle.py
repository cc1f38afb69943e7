"""Exact floating-point arithmetic on rationals: the oracle of the concrete checks.

A number is ('nan',), ('inf', neg), ('zero', neg) or ('num', Fraction != 0)."""
from fractions import Fraction
from math import isqrt
import gmpy2

NAN = ('nan',)
RNE, RNA, RTP, RTN, RTZ, AWAY = 'RNE', 'RNA', 'RTP', 'RTN', 'RTZ', 'AWAY'


def inf(neg):
    return ('inf', bool(neg))


def zero(neg):
    return ('zero', bool(neg))


def num(q, neg=False):
    q = Fraction(q)
    return ('num', q) if q else zero(neg)


def neg_of(x):
    return x[1] < 0 if x[0] == 'num' else x[1] if x[0] != 'nan' else None


class Fmt:
    """e exponent bits, m mantissa bits"""

    def __init__(self, e, m, ieee, mode):
        self.e, self.m, self.ieee, self.mode = e, m, ieee, mode
        self.bias = (1 << (e - 1)) - 1
        self.emin, self.emax = 1 - self.bias, self.bias       # exponents of normal numbers
        self.max = (2 - Fraction(1, 1 << m)) * Fraction(2) ** self.emax

    # ---- bit patterns
    def fields(self, b):
        return b >> (self.e + self.m) & 1, b >> self.m & ((1 << self.e) - 1), b & ((1 << self.m) - 1)

    def decode(self, b):
        s, ef, mf = self.fields(b)
        if ef == (1 << self.e) - 1:
            return inf(s) if mf == 0 else NAN
        if ef == 0:
            q = Fraction(mf) * Fraction(2) ** (self.emin - self.m)
        else:
            q = Fraction((1 << self.m) + mf) * Fraction(2) ** (ef - self.bias - self.m)
        return num(-q if s else q, s)

    # ---- one rounding
    def quantum(self, a):
        """spacing of the format's numbers around a > 0"""
        x = expo(a)
        if x < self.emin:
            if not self.ieee:
                return Fraction(2) ** self.emin     # zero, then the smallest normal
            x = self.emin
        return Fraction(2) ** (x - self.m)

    def round(self, q, cmp=0, mode=None):
        """the format's number for the exact value q + epsilon*cmp (q truncated toward zero finely
        enough when cmp says that something was cut off)"""
        mode = mode or self.mode
        if q == 0 and cmp == 0:
            raise ValueError
        neg, a = q < 0, abs(q)
        u = self.quantum(a)
        k, r = divmod(a, u)
        k = int(k)
        half = (r > u / 2) - (r < u / 2)
        if half == 0 and cmp:
            half = 1
        inexact = r != 0 or cmp
        up = False
        if inexact:
            if mode == RNE:
                up = half > 0 or half == 0 and k & 1
            elif mode == RNA:
                up = half >= 0
            elif mode == RTP:
                up = not neg
            elif mode == RTN:
                up = neg
            elif mode == AWAY:
                up = True
        a2 = (k + up) * u
        if a2 > self.max:
            if mode in (RNE, RNA, AWAY) or (mode == RTP and not neg) or (mode == RTN and neg):
                return inf(neg)
            return num(-self.max if neg else self.max)
        return num(-a2 if neg else a2, neg)

    def allowed(self, q, cmp=0):
        """acceptable results; gmpy2 offers no ties-away, see the known finding of C25"""
        out = [self.round(q, cmp)]
        if self.mode == RNA:
            out.append(self.round(q, cmp, AWAY))
        return out


def expo(a):
    """floor(log2 a)"""
    x = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** x > a:
        x -= 1
    elif Fraction(2) ** (x + 1) <= a:
        x += 1
    return x


# ------------------------------------------------------------------ operations: lists of acceptable results
def exact(f, q, negzero=False):
    return [zero(negzero)] if q == 0 else f.allowed(q)


def op_add(f, a, b):
    if a == NAN or b == NAN:
        return [NAN]
    if a[0] == 'inf' or b[0] == 'inf':
        if a[0] == b[0]:
            return [a] if a[1] == b[1] else [NAN]
        return [a if a[0] == 'inf' else b]
    if a[0] == 'zero' and b[0] == 'zero':
        return [a if a[1] == b[1] else zero(f.mode == RTN)]
    q = val(a) + val(b)
    return exact(f, q, f.mode == RTN)


def val(a):
    return a[1] if a[0] == 'num' else Fraction(0)


def op_neg(f, a):
    if a == NAN:
        return [NAN]
    return [num(-a[1]) if a[0] == 'num' else (a[0], not a[1])]


def op_abs(f, a):
    if a == NAN:
        return [NAN]
    return [num(abs(a[1])) if a[0] == 'num' else (a[0], False)]


def op_sub(f, a, b):
    return op_add(f, a, op_neg(f, b)[0])


def op_mul(f, a, b):
    if a == NAN or b == NAN:
        return [NAN]
    s = neg_of(a) != neg_of(b)
    ks = {a[0], b[0]}
    if 'inf' in ks:
        return [NAN] if 'zero' in ks else [inf(s)]
    if 'zero' in ks:
        return [zero(s)]
    return f.allowed(a[1] * b[1])


def op_div(f, a, b):
    if a == NAN or b == NAN:
        return [NAN]
    s = neg_of(a) != neg_of(b)
    if a[0] == 'inf':
        return [NAN] if b[0] == 'inf' else [inf(s)]
    if b[0] == 'inf':
        return [zero(s)]
    if b[0] == 'zero':
        return [NAN] if a[0] == 'zero' else [inf(s)]
    if a[0] == 'zero':
        return [zero(s)]
    return f.allowed(a[1] / b[1])


def op_fma(f, a, b, c):
    if NAN in (a, b, c):
        return [NAN]
    s = neg_of(a) != neg_of(b)
    ks = {a[0], b[0]}
    if 'inf' in ks:
        if 'zero' in ks or c[0] == 'inf' and c[1] != s:
            return [NAN]
        return [inf(s)]
    if c[0] == 'inf':
        return [c]
    p = val(a) * val(b)
    if p == 0 and c[0] == 'zero':
        return [zero(s) if s == c[1] else zero(f.mode == RTN)]
    return exact(f, p + val(c), f.mode == RTN)


def op_sqrt(f, a):
    if a == NAN or a[0] == 'zero':
        return [a]
    if neg_of(a):
        return [NAN]
    if a[0] == 'inf':
        return [a]
    q = a[1]
    k = 2 * (f.m + 8 + abs(expo(q)))
    t = q * (1 << 2 * k)
    r = isqrt(int(t))
    cmp = int(r * r != t)
    return f.allowed(Fraction(r, 1 << k), cmp)


def op_rem(f, a, b):
    if a == NAN or b == NAN or a[0] == 'inf' or b[0] == 'zero':
        return [NAN]
    if b[0] == 'inf' or a[0] == 'zero':
        return [a]
    q = a[1] / b[1]
    n = q.numerator // q.denominator
    r = q - n
    if r > Fraction(1, 2) or r == Fraction(1, 2) and n & 1:
        n += 1
    return exact(f, a[1] - n * b[1], neg_of(a))


def op_rint(f, a):
    if a[0] != 'num':
        return [a]
    q = a[1]
    out = []
    for mode in [f.mode] + ([AWAY] if f.mode == RNA else []):
        neg, x = q < 0, abs(q)
        k, r = divmod(x, 1)
        half = (r > Fraction(1, 2)) - (r < Fraction(1, 2))
        up = r != 0 and {RNE: half > 0 or half == 0 and k & 1, RNA: half >= 0, RTP: not neg, RTN: neg, RTZ: False, AWAY: True}[mode]
        k = int(k + bool(up))
        out += exact(f, Fraction(-k if neg else k), neg)
    return out


def op_min(f, a, b, big=False):
    if a == NAN or b == NAN:
        return [b if a == NAN else a]
    x, y = key(a), key(b)
    if x == y:
        return [a, b]
    return [a if (x > y) == big else b]


def op_max(f, a, b):
    return op_min(f, a, b, True)


def key(a):
    if a[0] == 'inf':
        return (-1 if a[1] else 1, Fraction(0))
    return (0, val(a))


OPS = dict(fp_add=op_add, fp_sub=op_sub, fp_mul=op_mul, fp_div=op_div, fp_fma=op_fma, fp_sqrt=op_sqrt, fp_rem=op_rem,
           fp_round_to_integral=op_rint, fp_min=op_min, fp_max=op_max, fp_neg=op_neg, fp_abs=op_abs)


def compare(op, a, b):
    if a == NAN or b == NAN:
        return False
    x, y = key(a), key(b)
    return {'fp_lt': x < y, 'fp_leq': x <= y, 'fp_gt': x > y, 'fp_geq': x >= y, 'fp_eq': x == y}[op]


def classify(f, a):
    k = a[0]
    sub = k == 'num' and abs(a[1]) < Fraction(2) ** f.emin
    return dict(fp_is_NaN=k == 'nan', fp_is_infinite=k == 'inf', fp_is_zero=k == 'zero', fp_is_subnormal=sub,
                fp_is_normal=k == 'num' and not sub, fp_is_negative=k in ('num', 'inf') and neg_of(a),
                fp_is_positive=k in ('num', 'inf') and not neg_of(a))


# ------------------------------------------------------------------ gmpy2 values
def of_mpfr(v):
    if gmpy2.is_nan(v):
        return NAN
    if gmpy2.is_infinite(v):
        return inf(gmpy2.is_signed(v))
    if gmpy2.is_zero(v):
        return zero(gmpy2.is_signed(v))
    n, d = v.as_integer_ratio()
    return ('num', Fraction(int(n), int(d)))


def to_mpfr(x):
    """an mpfr holding x exactly"""
    if x == NAN:
        return gmpy2.mpfr('nan')
    if x[0] == 'inf':
        return gmpy2.mpfr('-inf' if x[1] else 'inf')
    if x[0] == 'zero':
        return gmpy2.mpfr('-0' if x[1] else '0')
    q = x[1]
    with gmpy2.context(precision=max(q.numerator.bit_length(), 2), emin=gmpy2.get_emin_min(), emax=gmpy2.get_emax_max()):
        m = gmpy2.mpfr(q.numerator)
        return gmpy2.div_2exp(m, q.denominator.bit_length() - 1)
