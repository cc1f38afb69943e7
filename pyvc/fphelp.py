"""Shared vocabulary of the FP cases: values of a format, expected results."""
import struct
from fractions import Fraction
import gmpy2
import z3
from hwtypes import FPVector, RoundingMode, BitVector
from . import theory as T
from . import values as V
from . import smath as M
from . import fporacle as O
from .values import *
from .fpdom import FPTypes, eint, mint, MV, raw, KIND, SGN, SIG, EX, KEY, current, FloatV

MODES = list(RoundingMode)
GROUND = {RoundingMode.RNE: gmpy2.RoundToNearest, RoundingMode.RNA: gmpy2.RoundAwayZero, RoundingMode.RTP: gmpy2.RoundUp,
          RoundingMode.RTN: gmpy2.RoundDown, RoundingMode.RTZ: gmpy2.RoundToZero}


class Format:
    """e, m, mode, IEEE compliance and the class"""

    def __init__(self, E, mode=0, ieee=True, k='', elo=2, mlo=1):
        self.E, self.mode, self.ieee = E, MODES[mode], ieee
        self.e, self.m = eint(E, 'e' + k, elo), mint(E, 'm' + k, mlo)
        self.cls = FPTypes(E).cls(FPVector, self.e, self.m, self.mode, ieee)
        self.size = self.e + self.m + 1
        if E.symbolic:
            p2 = T.pow2(norm(term(self.e) - 1))
            self.bias = mkint(norm(p2 - 1))
            p = self.m + 1
            emax = mkint(p2)
            # the format: p significant bits, |x| < 2^emax, normal from 2^(1-bias); subnormals when IEEE
            lo = mkint(norm(4 - p2 - term(p))) if ieee else mkint(norm(3 - p2))
            self.key = (p, lo, emax, GROUND[self.mode], ieee)
            self.p = p
        else:
            self.bias = (1 << self.e - 1) - 1
            self.f = O.Fmt(self.e, self.m, ieee, self.mode.name)

    # ---- values
    def value(self, name, nan=True):
        """an arbitrary value of the type: (object, mathematical value)"""
        E = self.E
        if not E.symbolic:
            x = self.f.decode(E.uint(name, self.size))
            if not self.member(x) or x == O.NAN and not nan:
                E.require(False)
            return self.wrap(O.to_mpfr(x)), x
        t = z3.Int(name)
        v = MV(t, self.p, self.key)
        if not (nan and self.ieee):
            E.p.assume(KIND(t) != 3)
        v.number()
        E.inputs[name] = ('fn', lambda evl: self.pattern(evl, t))
        o = SObj(self.cls, {'_value': v})
        E.frame(o)
        return o, v

    def wrap(self, v):
        return self.cls(v)

    def member(self, x):
        return self.ieee or x != O.NAN and not (x[0] == 'num' and abs(x[1]) < Fraction(2) ** self.f.emin)

    def pattern(self, evl, t):
        """bit pattern of a value in a counter-model"""
        ev = lambda x: evl.ev(term(x) if not isinstance(x, z3.ExprRef) else x)
        e, m, k, s = ev(self.e), ev(self.m), ev(KIND(t)), ev(SGN(t))
        b = int(s) << e + m
        if k == 0:
            return b
        if k >= 2:
            return b | (1 << e) - 1 << m | (k == 3)
        sig, ex, bias = ev(SIG(t)), ev(EX(t)), (1 << e - 1) - 1
        x = ex + m
        if x < 1 - bias:
            return b | sig >> (1 - bias - x)
        return b | x + bias << m | sig & (1 << m) - 1

    # ---- results
    def raw(self, op, *args):
        """op's exact result on args, rounded once to the format"""
        return raw(op, self.key, list(args))

    def expect(self, label, out, want, oracle=None):
        """out: object of the type whose value is want (symbolic) / one of oracle() (concrete)"""
        E = self.E
        r = E.get(out)
        E.check(label + '/type', E.same_type(E.typeof(r), self.cls))
        v = E.get(E.attr(r, '_value'))
        if E.symbolic:
            if not isinstance(v, MV):
                E.check(label + '/mpfr', False)
                return
            w = want()
            same = v.t == w.t
            E.check(label + '/precision', mkbool(z3.Implies(KIND(v.t) == 1, term(v.prec) == term(self.p))))
            if self.ieee:
                E.check(label, mkbool(same))
            else:
                nan = KIND(w.t) == 3
                E.check(label, mkbool(z3.Implies(z3.Not(nan), same)))
                E.check(label + '/nan-as-infinity', mkbool(z3.Implies(nan, KIND(v.t) == 2)))
            return
        E.check(label + '/precision', not gmpy2.is_regular(v) or v.precision == self.m + 1)
        got = O.of_mpfr(v)
        want = []
        for w in oracle(self.f):
            want += [O.inf(0), O.inf(1)] if w == O.NAN and not self.ieee else [w]
        E.note(f'{label}: one of {want}', got)
        E.check(label, got in want)

    def bit(self, label, out, want):
        E = self.E
        r = E.get(out)
        from hwtypes import Bit
        E.check(label + '/type', E.isinstance(r, Bit))
        E.check(label, M.IFF(E.get(E.attr(r, '_value')), want))


# ------------------------------------------------------------------ the caller's context
def ambient(E, fn):
    """fn() under an arbitrary caller's context, which is the same afterwards"""
    if E.symbolic:
        before = current(E.p)
        snap = dict(before.fields)
        r = E.attempt(fn)
        now = E.p.cells.get('gmpctx')
        E.check('context/restored', now is before)
        for k in set(before.fields) | set(snap):
            a, b = before.fields.get(k), snap.get(k)
            E.check('context/unchanged', a is b or a is not None and b is not None and E.ip.compare('==', a, b))
        if r.kind == 'exc':
            raise PyRaise(r.value)
        return r.value
    pr = E.int('ambient!prec', 1, 200)
    emax = E.int('ambient!emax', 1, 2000)
    mode = E.int('ambient!round', 0, 4)
    sub = E.bool('ambient!sub')
    mine = gmpy2.context(precision=pr, emax=emax, emin=-emax - pr, round=mode, subnormalize=sub)
    old = gmpy2.get_context()
    gmpy2.set_context(mine)
    try:
        base = settings(gmpy2.get_context())
        r = E.attempt(fn)
        after = settings(gmpy2.get_context())
    finally:
        gmpy2.set_context(old)
    E.check('context/restored', base == after)
    if r.kind == 'exc':
        raise PyRaise(r.value)
    return r.value


FLAGS = ('underflow', 'overflow', 'inexact', 'invalid', 'erange', 'divzero')


def settings(c):
    return {k: getattr(c, k) for k in dir(c) if not k.startswith('_') and k not in FLAGS and not callable(getattr(c, k))}


def floating(E, name):
    """an arbitrary float: (value, mathematical value)"""
    if E.symbolic:
        t = z3.Int(name)
        E.inputs[name] = ('fn', lambda evl: 0)
        return FloatV(t), None
    x = struct.unpack('<d', struct.pack('<Q', E.uint(name, 64)))[0]
    if x != x:
        return x, O.NAN
    if x in (float('inf'), float('-inf')):
        return x, O.inf(x < 0)
    return x, O.num(Fraction(x), str(x).startswith('-'))
