"""C24 floating-point bit patterns round-trip."""
from fractions import Fraction
import gmpy2
from hwtypes import FPVector, BitVector, SIntVector, UIntVector
from ..spec import case, Raises
from ..fphelp import *
from .. import fporacle as O

BV = dict(BitVector=BitVector, SIntVector=SIntVector, UIntVector=UIntVector)


def pattern(E, f, base=BitVector):
    """an arbitrary pattern as the vector its three fields make up: (vector, sign, exponent field, mantissa field)"""
    if not E.symbolic:
        u = E.uint('u', f.size)
        s, ef, mf = f.f.fields(u)
        return base[f.size](u), bool(s), ef, mf, u
    x = E.bv('u', base, f.size)
    u = E.inputs['u'][1]
    e, m = term(f.e), term(f.m)
    ef, mf = T.mod2(T.shr(u, m), e), T.mod2(u, m)
    s = T.bit(u, norm(e + m))
    return x, mkbool(s), mkint(ef), mkint(mf), mkint(u)


def parts(E, f, u):
    """u is made up of its three fields"""
    e, m = term(f.e), term(f.m)
    ef, mf, h = T.mod2(T.shr(u, m), e), T.mod2(u, m), T.shr(T.shr(u, m), e)
    E.step('low', u == norm(T.shl(T.shr(u, m), m) + mf))
    E.step('high', T.shr(u, m) == norm(T.shl(h, e) + ef))
    s = E.p.decide(T.bit(u, norm(e + m)))
    E.step('top', h == (1 if s else 0))
    E.step('whole', u == norm((T.pow2(norm(e + m)) if s else z3.IntVal(0)) + T.shl(ef, m) + mf))


def coded(E, f, v, given=None):
    """arithmetic of the pattern of v: (exponent field, mantissa field), fields as terms"""
    k, sg, sig, ex = KIND(v.t), SGN(v.t), SIG(v.t), EX(v.t)
    m, bias, e = term(f.m), term(f.bias), term(f.e)
    if not E.p.decide(k == 1):
        return None
    v.number()
    neg = E.p.decide(sg)
    m1 = norm(m + 1)
    if E.p.decide(ex + m >= 1 - bias):
        ef, mf = E.p.fresh('ef'), E.p.fresh('mf')
        E.p.assume(ef == norm(ex + m + bias))
        E.p.assume(mf == norm(sig - T.pow2(m)))
        E.step('exponent', z3.And(ef >= 1, ef < T.pow2(e) - 1))
        E.step('exponent-field', T.mod2(norm(ex + m + bias), e) == ef)
        if neg:
            E.step('negated', T.mod2(norm(-sig), m1) == norm(T.pow2(m1) - sig))
        E.step('fits', T.mod2(sig, m1) == sig)
        E.step('mantissa', T.mod2(sig, m) == mf)
        return ef, mf
    K, q = E.p.fresh('K'), E.p.fresh('q')
    E.p.assume(K == norm(1 - bias - ex - m))
    E.p.assume(q == T.shr(sig, K))
    E.step('cut', K >= 1)
    if given is not None:
        E.step('scaled', sig == T.shl(given, K))
        E.step('back', T.shr(T.shl(given, K), K) == given)
        E.step('given', q == given)
    E.step('exact', T.mod2(sig, K) == 0)
    E.step('quotient', sig == T.shl(q, K))
    E.step('small-1', z3.Or(q < T.pow2(m), T.shl(q, K) >= T.pow2(norm(m + K))))
    E.step('small-2', T.pow2(norm(m + K)) >= T.pow2(m1))
    E.step('small', q < T.pow2(m))
    E.step('positive-1', z3.Or(q != 0, T.shl(q, K) == 0))
    E.step('positive', q > 0)
    if neg:
        E.step('negated-shift-1', T.shr(norm(-T.shl(q, K)), K) == -q)
        E.step('negated-shift', T.shr(norm(-sig), K) == -q)
        E.step('negated', T.mod2(norm(-q), m1) == norm(T.pow2(m1) - q))
    E.step('fits', z3.And(T.mod2(q, m1) == q, T.mod2(q, m) == q))
    return z3.IntVal(0), q


def compose(E, f, s, ef, mf):
    hi = mkint(T.pow2(term(f.e))) if E.ip.truth(s) else 0
    return mkint(norm(T.shl(norm(term(hi) + term(ef)), term(f.m)) + term(mf)))


def denoted(E, f, v, s, ef, mf):
    """v denotes the IEEE-754 value of the fields"""
    k, sg, sig, ex = KIND(v.t), SGN(v.t), SIG(v.t), EX(v.t)
    m, p, bias = term(f.m), norm(term(f.m) + 1), term(f.bias)
    s, ef, mf = bterm(s), term(ef), term(mf)
    top = norm(T.pow2(term(f.e)) - 1)
    bl = z3.Int('bl')
    yield 'nan', z3.Implies(z3.And(ef == top, mf != 0), k == 3 if f.ieee else k == 2)
    yield 'infinity', z3.Implies(z3.And(ef == top, mf == 0), z3.And(k == 2, sg == s))
    yield 'zero', z3.Implies(z3.And(ef == 0, mf == 0), z3.And(k == 0, sg == s))
    normal = z3.And(ef != 0, ef != top)
    yield 'normal', z3.Implies(normal, z3.And(k == 1, sg == s))
    yield 'normal/significand', z3.Implies(normal, sig == T.pow2(m) + mf)
    yield 'normal/exponent', z3.Implies(normal, ex == ef - bias - m)
    sub = z3.And(ef == 0, mf != 0)
    if not f.ieee:
        yield 'flushed', z3.Implies(sub, z3.And(k == 0, sg == s))
        return
    has = z3.And(sub, bl >= 1, T.pow2(norm(bl - 1)) <= mf, mf < T.pow2(bl))
    yield 'subnormal', z3.Implies(has, z3.And(k == 1, sg == s))
    yield 'subnormal/significand', z3.Implies(has, sig == T.shl(mf, norm(p - bl)))
    yield 'subnormal/exponent', z3.Implies(has, ex == 1 - bias - m - (p - bl))


@case('C24', 'value', dict(base=list(BV), mode=[0, 3], ieee=[True, False]), weight=4.0)
def value(E, base, mode, ieee):
    f = Format(E, mode, ieee)
    x, s, ef, mf, u = pattern(E, f, BV[base])
    r = E.get(ambient(E, lambda: E.get(E.call(E.get(E.attr(f.cls, 'reinterpret_from_bv')), x))))
    E.check('type', E.same_type(E.typeof(r), f.cls))
    v = E.get(E.attr(r, '_value'))
    if E.symbolic:
        for label, g in denoted(E, f, v, s, ef, mf):
            E.check(label, mkbool(g))
        return
    E.check('value', matches(f, u, O.of_mpfr(v)))


def matches(f, u, got):
    w = f.f.decode(u)
    if f.member(w):
        return got == w
    return got[0] == 'inf' if w == O.NAN else got == O.zero(O.neg_of(w))


@case('C24', 'pattern', dict(mode=[0, 1], ieee=[True, False]), weight=4.0)
def to_pattern(E, mode, ieee):
    """the pattern of a value is the IEEE-754 one"""
    f = Format(E, mode, ieee)
    x, v = f.value('x')
    r = E.get(ambient(E, lambda: E.get(E.meth(x, 'reinterpret_as_bv'))))
    E.check('type', E.same_type(E.typeof(r), E.get(E.getitem(BitVector, f.size))))
    u = E.get(E.meth(r, 'as_uint'))
    if not E.symbolic:
        s, ef, mf = f.f.fields(u)
        E.check('value', f.f.decode(u) == v)
        return
    k, sg, sig, ex = KIND(v.t), SGN(v.t), SIG(v.t), EX(v.t)
    m, bias = term(f.m), term(f.bias)
    u = term(u)
    pat = lambda ef, mf: term(compose(E, f, mkbool(sg), mkint(ef), mkint(mf)))
    top = norm(T.pow2(term(f.e)) - 1)
    c = coded(E, f, v)
    if c:
        E.check('number', mkbool(u == pat(*c)))
    E.check('zero', mkbool(z3.Implies(k == 0, u == pat(z3.IntVal(0), z3.IntVal(0)))))
    E.check('infinity', mkbool(z3.Implies(k == 2, u == pat(top, z3.IntVal(0)))))
    nan = z3.And(T.mod2(T.shr(u, m), term(f.e)) == top, T.mod2(u, m) != 0)
    E.check('nan', mkbool(z3.Implies(k == 3, nan)))


@case('C24', 'round-trip', dict(base=list(BV), mode=[0, 2, 4], ieee=[True, False]), weight=4.0)
def round_trip(E, base, mode, ieee):
    f = Format(E, mode, ieee)
    x, s, ef, mf, u = pattern(E, f, BV[base])

    seen = []

    def go():
        r = E.get(E.call(E.get(E.attr(f.cls, 'reinterpret_from_bv')), x))
        seen.append(E.get(E.attr(r, '_value')))
        return E.get(E.meth(E.get(E.meth(r, 'reinterpret_as_bv')), 'as_uint'))
    w = ambient(E, go)
    if E.symbolic:
        parts(E, f, term(u))
        coded(E, f, seen[0], term(mf))
    if not E.symbolic:
        v = f.f.decode(u)
        if f.member(v) and v != O.NAN:
            E.check('same', w == u)
        else:
            E.check('same', matches(f, u, f.f.decode(w)) if v != O.NAN or not ieee else f.f.decode(w) == O.NAN)
        return
    top = norm(T.pow2(term(f.e)) - 1)
    s, ef, mf, w, u = bterm(s), term(ef), term(mf), term(w), term(u)
    nan, sub = z3.And(ef == top, mf != 0), z3.And(ef == 0, mf != 0)
    we, wm = T.mod2(T.shr(w, term(f.m)), term(f.e)), T.mod2(w, term(f.m))
    if ieee:
        E.check('same', mkbool(z3.Implies(z3.Not(nan), w == u)))
        E.check('nan', mkbool(z3.Implies(nan, z3.And(we == top, wm != 0))))
        return
    E.check('same', mkbool(z3.Implies(z3.And(z3.Not(nan), z3.Not(sub)), w == u)))
    E.check('nan', mkbool(z3.Implies(nan, z3.And(we == top, wm == 0))))
    E.check('subnormal', mkbool(z3.Implies(sub, w == term(compose(E, f, mkbool(s), 0, 0)))))


@case('C24', 'width', dict(base=list(BV), ieee=[True, False]))
def width(E, base, ieee):
    f = Format(E, 0, ieee)
    n = E.int('n', 0, kind='width')
    E.require(n != f.size)
    x = E.bv('x', BV[base], n)
    try:
        r = ambient(E, lambda: E.get(E.call(E.get(E.attr(f.cls, 'reinterpret_from_bv')), x)))
    except PyRaise as e:
        E.check('rejects', isinstance(e.exc, TypeError))
    else:
        E.check('rejects', False)
