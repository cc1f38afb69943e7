"""C25 floating-point operations round once in the type's own format and mode."""
from fractions import Fraction
import gmpy2
from hwtypes import FPVector, RoundingMode, BitVector, Bit
from ..spec import case, Raises
from ..fphelp import *
from .. import fporacle as O

OPS = dict(fp_add='add', fp_sub='sub', fp_mul='mul', fp_div='div', fp_fma='fma', fp_sqrt='sqrt', fp_rem='remainder',
           fp_round_to_integral='rint', fp_min='minnum', fp_max='maxnum', fp_neg='neg', fp_abs='abs')
ARITY = dict(fp_fma=3, fp_sqrt=1, fp_round_to_integral=1, fp_neg=1, fp_abs=1)
BIN = [o for o in OPS if ARITY.get(o, 2) == 2]
INFIX = {'+': 'fp_add', '-': 'fp_sub', '*': 'fp_mul', '/': 'fp_div', '%': 'fp_rem'}
UN = {'-': 'fp_neg'}
CMP = dict(fp_lt='<', fp_leq='<=', fp_gt='>', fp_geq='>=', fp_eq='==')
MI = dict(mode=range(5), ieee=[True, False])


@case('C25', 'arithmetic', dict(op=list(OPS), **MI))
def arithmetic(E, op, mode, ieee):
    f = Format(E, mode, ieee)
    xs = [f.value(n) for n in 'xyz'[:ARITY.get(op, 2)]]
    r = ambient(E, lambda: E.get(E.meth(xs[0][0], op, *[o for o, _ in xs[1:]])))
    f.expect(op, r, lambda: f.raw(OPS[op], *[v for _, v in xs]), lambda g: O.OPS[op](g, *[v for _, v in xs]))


@case('C25', 'infix', dict(op=list(INFIX), **MI))
def infix(E, op, mode, ieee):
    f = Format(E, mode, ieee)
    (x, a), (y, b) = f.value('x'), f.value('y')
    r = ambient(E, lambda: E.get(E.op(op, x, y)))
    f.expect(op, r, lambda: f.raw(OPS[INFIX[op]], a, b), lambda g: O.OPS[INFIX[op]](g, a, b))


@case('C25', 'prefix', dict(op=['-', 'abs'], **MI))
def prefix(E, op, mode, ieee):
    f = Format(E, mode, ieee)
    x, a = f.value('x')
    r = ambient(E, lambda: E.get(E.uop('-', x) if op == '-' else E.builtin(abs, x)))
    n = {'-': 'neg', 'abs': 'abs'}[op]
    f.expect(op, r, lambda: f.raw(n, a), lambda g: O.OPS['fp_' + n](g, a))


def related(E, c, a, b):
    """the comparison of two values"""
    if not E.symbolic:
        return O.compare(c, a, b)
    op = CMP[c]
    if op in ('>', '>='):
        a, b, op = b, a, {'>': '<', '>=': '<='}[op]
    from ..fpdom import compare
    return compare(op, a, b)


@case('C25', 'comparison', dict(op=list(CMP), infix=[False, True], ieee=[True, False]))
def comparison(E, op, infix, ieee):
    f = Format(E, 1, ieee)
    (x, a), (y, b) = f.value('x'), f.value('y')
    r = ambient(E, lambda: E.get(E.op(CMP[op], x, y) if infix else E.meth(x, op, y)))
    f.bit(op, r, related(E, op, a, b))


@case('C25', 'different', dict(ieee=[True, False]))
def different(E, ieee):
    f = Format(E, 2, ieee)
    (x, a), (y, b) = f.value('x'), f.value('y')
    r = ambient(E, lambda: E.get(E.op('!=', x, y)))
    f.bit('!=', r, M.NOT(related(E, 'fp_eq', a, b)))


def classes(E, f, v):
    if not E.symbolic:
        return O.classify(f.f, v)
    k, s = KIND(v.t), SGN(v.t)
    sub = z3.And(k == 1, EX(v.t) + term(f.m) < 1 - term(f.bias))
    num = z3.Or(k == 1, k == 2)
    return {n: mkbool(t) for n, t in dict(
        fp_is_NaN=k == 3, fp_is_infinite=k == 2, fp_is_zero=k == 0, fp_is_subnormal=sub, fp_is_normal=z3.And(k == 1, z3.Not(sub)),
        fp_is_negative=z3.And(num, s), fp_is_positive=z3.And(num, z3.Not(s))).items()}


@case('C25', 'predicate', dict(p=['fp_is_NaN', 'fp_is_infinite', 'fp_is_zero', 'fp_is_subnormal', 'fp_is_normal', 'fp_is_negative',
                                  'fp_is_positive'], ieee=[True, False]), weight=3.0)
def predicate(E, p, ieee):
    f = Format(E, 0, ieee)
    x, a = f.value('x')
    r = ambient(E, lambda: E.get(E.meth(x, p)))
    f.bit(p, r, classes(E, f, a)[p])


# ------------------------------------------------------------------ operands
@case('C25', 'converted-int', dict(op=BIN, mode=[0, 2], ieee=[True, False]))
def converted_int(E, op, mode, ieee):
    f = Format(E, mode, ieee)
    x, a = f.value('x')
    n = E.int('n')
    r = ambient(E, lambda: E.get(E.meth(x, op, n)))
    second(E, f, op, r, a, 'of int', n, n)


@case('C25', 'converted-float', dict(op=BIN, mode=[1, 3], ieee=[True, False]))
def converted_float(E, op, mode, ieee):
    f = Format(E, mode, ieee)
    x, a = f.value('x')
    y, q = floating(E, 'y')
    r = ambient(E, lambda: E.get(E.meth(x, op, y)))
    second(E, f, op, r, a, 'of float', y, q)


@case('C25', 'converted-compare', dict(op=list(CMP), kind=['int', 'float'], ieee=[True, False]))
def converted_compare(E, op, kind, ieee):
    f = Format(E, 4, ieee)
    x, a = f.value('x')
    if kind == 'int':
        y = q = E.int('n')
    else:
        y, q = floating(E, 'y')
    r = ambient(E, lambda: E.get(E.meth(x, op, y)))
    if E.symbolic:
        w = f.raw('of ' + kind, y)
        if not ieee and E.p.decide(KIND(w.t) == 3):
            E.check('type', E.isinstance(r, Bit))
            return
        f.bit(op, r, related(E, op, a, w))
        return
    got = E.get(E.attr(r, '_value'))
    E.check(op, any(got == O.compare(op, a, b) for b in rounded(f, q)))


def rounded(f, q):
    """the values a number may convert to"""
    if not isinstance(q, tuple):
        q = O.num(q)
    if q[0] == 'num':
        return f.f.allowed(q[1])
    return [O.inf(0), O.inf(1)] if q == O.NAN and not f.ieee else [q]


def second(E, f, op, r, a, conv, t, q):
    """r = op(a, q converted to the format)"""
    if E.symbolic and not f.ieee and E.p.decide(KIND(f.raw(conv, t).t) == 3):
        E.check('type', E.same_type(E.typeof(r), f.cls))        # some infinity took the place of NaN
        return

    def want():
        return f.raw(OPS[op], a, f.raw(conv, t))
    f.expect(op, r, want, lambda g: [y for b in rounded(f, q) for y in O.OPS[op](g, a, b)])


@case('C25', 'converted-fma', dict(which=['coef', 'offset', 'both'], ieee=[True, False]))
def converted_fma(E, which, ieee):
    f = Format(E, 3, ieee)
    (x, a), (y, b) = f.value('x'), f.value('y')
    n = E.int('n')
    args = [n if which != 'offset' else y, n if which != 'coef' else y]
    r = ambient(E, lambda: E.get(E.meth(x, 'fp_fma', *args)))

    def want():
        c = f.raw('of int', n)
        return f.raw('fma', a, *[c if z is n else b for z in args])
    f.expect('fp_fma', r, want, lambda g: [v for c in rounded(f, n) for v in O.op_fma(g, a, *[c if z is n else b for z in args])])


@case('C25', 'converted-bits', dict(op=['fp_add', 'fp_div'], ieee=[True, False]))
def converted_bits(E, op, ieee):
    """a bit-vector counts as its unsigned value"""
    f = Format(E, 0, ieee)
    x, a = f.value('x')
    y = E.bv('y', BitVector, E.int('w', 1, kind='width'))
    r = ambient(E, lambda: E.get(E.meth(x, op, y)))
    u = E.get(E.meth(y, 'as_uint'))
    second(E, f, op, r, a, 'of int', u, u)


OTHER = ['e', 'm', 'mode', 'ieee']
ALL = {**{o: ARITY.get(o, 2) for o in OPS}, **{c: 2 for c in CMP}}


@case('C25', 'other-format', dict(op=[o for o, k in ALL.items() if k > 1], differ=OTHER))
def other_format(E, op, differ):
    f = Format(E, 0, True)
    g = Format(E, 1 if differ == 'mode' else 0, differ != 'ieee', 'b')
    if differ in 'em':
        E.require(getattr(f, differ) != getattr(g, differ))
    x, _ = f.value('x')
    y, _ = g.value('y')
    n = ALL[op] - 1
    for i in range(n):
        args = [x] * n
        args[i] = y
        r = attempt_ambient(E, lambda: E.get(E.meth(x, op, *args)))
        E.expect(f'argument-{i}', r, Raises(TypeError))


def attempt_ambient(E, fn):
    from ..spec import Outcome
    try:
        return Outcome('val', ambient(E, fn))
    except PyRaise as e:
        return Outcome('exc', e.exc)


@case('C25', 'bad-operand', dict(op=[o for o, k in ALL.items() if k > 1], v=['none', 'tuple', 'str']))
def bad_operand(E, op, v):
    """failing operations leave the caller's context alone as well"""
    f = Format(E, 0, True)
    x, _ = f.value('x')
    y = dict(none=None, tuple=(), str='one')[v]
    r = attempt_ambient(E, lambda: E.get(E.meth(x, op, *[y] * (ALL[op] - 1))))
    E.expect('rejects', r, Raises(ValueError if v == 'str' else TypeError))


class Other(FPVector):
    pass


@case('C25', 'same-format-class', dict(op=['fp_add', 'fp_lt', 'fp_fma'], sub=[False, True]))
def same_format_class(E, op, sub):
    """an operand of another class of the same format is accepted, the result is of the left class"""
    f = Format(E, 0, True)
    other = FPTypes(E).cls(Other, f.e, f.m, f.mode, True)
    x, a = f.value('x')
    y, b = f.value('y')
    if E.symbolic:
        y = SObj(other, {'_value': b})
    else:
        y = other(O.to_mpfr(b))
    k = f.cls
    if sub:
        x, y, k = y, x, other
        a, b = b, a
    r = ambient(E, lambda: E.get(E.meth(x, op, *[y] * (ALL[op] - 1))))
    if op == 'fp_lt':
        f.bit(op, r, related(E, op, a, b))
        return
    f.cls = k
    bs = [b] * (ALL[op] - 1)
    f.expect(op, r, lambda: f.raw(OPS[op], a, *bs), lambda g: O.OPS[op](g, a, *bs))


# ------------------------------------------------------------------ construction
@case('C25', 'construct', dict(src=['int', 'float', 'value', 'narrower', 'bits'], mode=[0, 4], ieee=[True, False]))
def construct(E, src, mode, ieee):
    f = Format(E, mode, ieee)
    if src == 'int':
        y = t = q = E.int('n')
        conv = 'of int'
    elif src == 'float':
        y, q = floating(E, 'y')
        t, conv = y, 'of float'
    elif src == 'bits':
        y = E.bv('y', BitVector, E.int('w', 1, kind='width'))
        t = q = E.get(E.meth(y, 'as_uint'))
        conv = 'of int'
    else:
        g = f if src == 'value' else Format(E, 2, True, 'b')
        y, q = g.value('y')
        conv = None
    r = ambient(E, lambda: E.get(E.call(f.cls, y)))
    if src == 'value':
        f.expect('same', r, lambda: q, lambda g: [q])
    elif conv is None:
        f.expect('rounded', r, lambda: raw('round', f.key, [q, f.p]) , lambda g: rounded(f, q))
    else:
        f.expect('rounded', r, lambda: f.raw(conv, t), lambda g: rounded(f, q))


STR = {'0.1': Fraction(1, 10), '-2.5': Fraction(-5, 2), '1e-3': Fraction(1, 1000), '1/3': Fraction(1, 3), '-0': O.zero(1), 'inf': O.inf(0),
       '-inf': O.inf(1)}


@case('C25', 'construct-text', dict(s=list(STR), mode=range(5)), bounded='decimal strings are read by gmpy2')
def construct_text(E, s, mode):
    f = Format(E, mode, E.bool('ieee'))
    q = STR[s]
    r = ambient(E, lambda: E.get(E.call(f.cls, s)))
    f.expect('rounded', r, None, lambda g: rounded(f, q))


# ------------------------------------------------------------------ RNA
@case('C25', 'rna-ties', dict(op=['fp_add']), bounded='the inputs of a known finding')
def rna_ties(E, op):
    """RNA is nearest, ties away from zero: 1 + 2^-(m+2) is nearer to 1"""
    t = FPVector[8, 7, RoundingMode.RNA, True]
    r = E.get(E.meth(t(1), op, t(Fraction_float(1, 512))))
    E.check('nearest', O.of_mpfr(E.get(E.attr(r, '_value'))) == ('num', Fraction(1)))


def Fraction_float(a, b):
    return a / b
