"""C26 SMT floats apply each operation's own function symbol to its operands in order."""
from hwtypes import SMTFPVector, RoundingMode, SMTBit, SMTBitVector
from ..spec import case, Raises
from ..fmdom import F, Fm, Sort, as_sort
from ..fpdom import FPTypes, eint, mint
from .. import smath as M

MODES = list(RoundingMode)
SAME = dict(fp_abs=1, fp_neg=1, fp_add=2, fp_sub=2, fp_mul=2, fp_div=2, fp_fma=3, fp_sqrt=1, fp_rem=2, fp_round_to_integral=1,
            fp_min=2, fp_max=2)
PRED = dict(fp_leq=2, fp_lt=2, fp_geq=2, fp_gt=2, fp_eq=2, fp_is_normal=1, fp_is_subnormal=1, fp_is_zero=1, fp_is_infinite=1,
            fp_is_NaN=1, fp_is_negative=1, fp_is_positive=1)
OPS = {**SAME, **PRED}
CONV = ['to_ubv', 'to_sbv']
INFIX = {'+': 'fp_add', '-': 'fp_sub', '*': 'fp_mul', '/': 'fp_div', '%': 'fp_rem',
         '==': 'fp_eq', '>=': 'fp_geq', '>': 'fp_gt', '<=': 'fp_leq', '<': 'fp_lt'}
MI = dict(mode=[0, 3], ieee=[True, False])


def fmt(E, k='', hi=12):
    return eint(E, 'e' + k, 1, 60), mint(E, 'm' + k, 1)


def typ(E, mode=0, ieee=True, k='', base=SMTFPVector):
    e, m = fmt(E, k)
    return FPTypes(E).cls(base, e, m, MODES[mode], ieee), e + m + 1


def val(E, t, n, name):
    f = F(E, 'smt')
    raw = f.formula(name, 'bv', n)
    x = E.get(E.call(t, raw))
    E.check('wraps', same(E, E.get(E.attr(x, '_value')), raw))
    E.frame(x)
    return x, raw


def same(E, a, b):
    """one formula: same sort and same denotation"""
    if E.symbolic:
        if not isinstance(a, Fm) or not isinstance(b, Fm) or a.lib != b.lib:
            return False
        return M.AND(a.sort.same(b.sort), M.IFF(a.den, b.den) if a.sort.kind == 'bool' else a.den == b.den)
    return a is b


def sort_is(E, s, kind, n=None):
    if E.symbolic:
        return as_sort('smt', s).same(Sort('smt', kind, n))
    return s.is_bool_type() if kind == 'bool' else s.is_bv_type() and s.width == n


def application(E, r, args, ret, n):
    """symbol of the application r, whose arguments are args; ret: (sort kind, width)"""
    A = FPTypes(E)
    v = E.get(E.attr(r, '_value'))
    s, got = A.app(v)
    E.check('application', s is not None and len(got) == len(args))
    for i, (x, y) in enumerate(zip(got, args)):
        E.check(f'argument-{i}', same(E, x, y))
    rt, ps = A.ufn_type(s)
    E.check('result-sort', sort_is(E, rt, *ret))
    for i, q in enumerate(ps):
        E.check(f'parameter-sort-{i}', sort_is(E, q, 'bv', n))
    return s


def apply(E, op, t, n, k=''):
    xs = [val(E, t, n, f'{"xyz"[i]}{k}') for i in range(OPS[op])]
    r = E.get(E.meth(xs[0][0], op, *[x for x, _ in xs[1:]]))
    if op in SAME:
        E.check('type', E.is_(E.get(E.builtin(type, r)), t))
        return r, application(E, r, [f for _, f in xs], ('bv', n), n)
    E.check('type', E.is_(E.get(E.builtin(type, r)), SMTBit))
    return r, application(E, r, [f for _, f in xs], ('bool',), n)


@case('C26', 'operation', dict(op=list(OPS), **MI))
def operation(E, op, mode, ieee):
    t, n = typ(E, mode, ieee)
    _, s = apply(E, op, t, n)
    _, s2 = apply(E, op, t, n, '2')
    E.check('one-symbol', E.is_(s, s2))


@case('C26', 'distinct-operations', dict(op=list(OPS)))
def distinct_operations(E, op):
    t, n = typ(E)
    _, s = apply(E, op, t, n)
    for o in OPS:
        if o != op:
            _, s2 = apply(E, o, t, n)
            E.check(f'not-{o}', M.NOT(E.is_(s, s2)))
    k = E.int('k', 1, kind='width')
    x, _ = val(E, t, n, 'x')
    for c in CONV:
        s2, _ = FPTypes(E).app(E.get(E.attr(E.get(E.meth(x, c, k)), '_value')))
        E.check(f'not-{c}', M.NOT(E.is_(s, s2)))


@case('C26', 'distinct-types', dict(op=list(OPS), other=['format', 'mode', 'ieee']))
def distinct_types(E, op, other):
    t, n = typ(E)
    if other == 'format':
        u, k = typ(E, k='2')
        if n == k and E.get(E.op('==', E.get(E.attr(t, 'exponent_size')), E.get(E.attr(u, 'exponent_size')))):
            return
    else:
        e, m = E.get(E.attr(t, 'exponent_size')), E.get(E.attr(t, 'mantissa_size'))
        u, k = FPTypes(E).cls(SMTFPVector, e, m, MODES[1 if other == 'mode' else 0], other != 'ieee'), n
    _, s = apply(E, op, t, n)
    _, s2 = apply(E, op, u, k, '2')
    E.check('distinct', M.NOT(E.is_(s, s2)))


@case('C26', 'conversion', dict(op=CONV, **MI))
def conversion(E, op, mode, ieee):
    t, n = typ(E, mode, ieee)
    k, j = E.int('k', 1, kind='width'), E.int('j', 1, kind='width')
    x, f = val(E, t, n, 'x')
    y, g = val(E, t, n, 'y')
    r = E.get(E.meth(x, op, k))
    E.check('type', E.same_type(E.get(E.builtin(type, r)), E.get(E.getitem(SMTBitVector, k))))
    s = application(E, r, [f], ('bv', k), n)
    r = E.get(E.meth(y, op, j))
    E.check('type', E.same_type(E.get(E.builtin(type, r)), E.get(E.getitem(SMTBitVector, j))))
    s2 = application(E, r, [g], ('bv', j), n)
    E.check('symbol-per-size', M.IFF(E.is_(s, s2), k == j))
    o, = [c for c in CONV if c != op]
    s3 = application(E, E.get(E.meth(x, o, k)), [f], ('bv', k), n)
    E.check('own-symbol', M.NOT(E.is_(s, s3)))


@case('C26', 'conversion-types', dict(op=CONV))
def conversion_types(E, op):
    t, n = typ(E)
    u, n2 = typ(E, 1, k='2')
    k, j = E.int('k', 1, kind='width'), E.int('j', 1, kind='width')
    x, f = val(E, t, n, 'x')
    y, g = val(E, u, n2, 'y')
    s = application(E, E.get(E.meth(x, op, k)), [f], ('bv', k), n)
    s2 = application(E, E.get(E.meth(y, op, j)), [g], ('bv', j), n2)
    E.check('distinct', M.NOT(E.is_(s, s2)))


@case('C26', 'infix', dict(op=list(INFIX)))
def infix(E, op):
    t, n = typ(E)
    x, f = val(E, t, n, 'x')
    y, g = val(E, t, n, 'y')
    a = E.get(E.op(op, x, y))
    b = E.get(E.meth(x, INFIX[op], y))
    E.check('same-type', E.is_(E.get(E.builtin(type, a)), E.get(E.builtin(type, b))))
    E.check('same-formula', same(E, E.get(E.attr(a, '_value')), E.get(E.attr(b, '_value'))))


@case('C26', 'prefix', dict(op=['-', 'abs']))
def prefix(E, op):
    t, n = typ(E)
    x, f = val(E, t, n, 'x')
    a = E.get(E.uop('-', x) if op == '-' else E.builtin(abs, x))
    b = E.get(E.meth(x, 'fp_neg' if op == '-' else 'fp_abs'))
    E.check('same-formula', same(E, E.get(E.attr(a, '_value')), E.get(E.attr(b, '_value'))))


@case('C26', 'not-equal')
def not_equal(E):
    t, n = typ(E)
    x, f = val(E, t, n, 'x')
    y, g = val(E, t, n, 'y')
    a, b = E.get(E.op('!=', x, y)), E.get(E.op('==', x, y))
    E.check('type', E.is_(E.get(E.builtin(type, a)), SMTBit))
    a, b = E.get(E.attr(a, '_value')), E.get(E.attr(b, '_value'))
    if E.symbolic:
        E.check('negation', M.IFF(a.den, M.NOT(b.den)))
    else:
        E.check('negation', a.is_not() and a.arg(0) is b)


@case('C26', 'reinterpret', dict(**MI))
def reinterpret(E, mode, ieee):
    t, n = typ(E, mode, ieee)
    x, f = val(E, t, n, 'x')
    r = E.get(E.meth(x, 'reinterpret_as_bv'))
    E.check('bv-type', E.same_type(E.get(E.builtin(type, r)), E.get(E.getitem(SMTBitVector, n))))
    E.check('bv-formula', same(E, E.get(E.attr(r, '_value')), f))
    b = E.get(E.meth(t, 'reinterpret_from_bv', r))
    E.check('fp-type', E.is_(E.get(E.builtin(type, b)), t))
    E.check('fp-formula', same(E, E.get(E.attr(b, '_value')), f))


@case('C26', 'construct', dict(arg=['formula', 'instance', 'bool', 'float', 'none', 'str']))
def construct(E, arg):
    t, n = typ(E)
    F_ = F(E, 'smt')
    if arg == 'formula':
        k = E.int('k', 1, kind='width')
        f = F_.formula('f', 'bv', k)
        o = E.call(t, f)
        if k == n:
            E.check('formula', same(E, E.get(E.attr(E.get(o), '_value')), f))
        else:
            E.expect('width', o, Raises(TypeError))
    elif arg == 'instance':
        x, f = val(E, t, n, 'x')
        E.check('formula', same(E, E.get(E.attr(E.get(E.call(t, x)), '_value')), f))
    else:
        v = {'bool': F_.formula('f', 'bool'), 'float': 1.0, 'none': None, 'str': '1'}[arg]
        E.expect('rejects', E.call(t, v), Raises(TypeError))
