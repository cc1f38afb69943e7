"""C10 polymorphic ite results."""
from ..spec import case, Raises, BitList
from ..bvdom import BASES, UBIN, CMPS, sp_not, sp_neg, sp_getitem, sp_zext, sp_sext, sp_ext, sp_adc, sp_concat, sp_repeat, polyclass
from ..helpers import SubVector, SubBit, const_fn
from .. import smath as M
from .c08 import INF, CINF, NAMED, infix_spec, spec_of
from hwtypes import bit_vector as BVM, bit_vector_util as UTIL
from hwtypes.bit_vector import Bit, BitVector, UIntVector, SIntVector
from hwtypes.bit_vector_abc import InconsistentSizeError, AbstractBitVector

PAIRS = [(a, b) for a in BASES for b in BASES if a is not b]
PN = {f'{a.__name__}|{b.__name__}': (a, b) for a, b in PAIRS}


def poly(E, pair, sel, name, n, v=None):
    """a value that ite made from branches of two types: selected value u"""
    a, b = PN[pair]
    if E.symbolic:
        return E.mkbv(polyclass(a, b, sel), n, E.uint(name, n)), (a if sel else b)
    u = E.uint(name, n)
    w = E.src.uint(name + '_other', n)
    t, f = (u, w) if sel else (w, u)
    return Bit(sel).ite(a[n](t), b[n](f)), (a if sel else b)


@case('C10', 'select', dict(pair=list(PN)))
def select(E, pair):
    """the result denotes the selected value and is an instance of every common base"""
    a, b = PN[pair]
    n = E.int('n', 1, kind='width')
    s, t, f = E.bit('s'), E.bv('t', a, n), E.bv('f', b, n)
    r = E.get(E.meth(s, 'ite', t, f))
    u = E.ite(E.b(s), E.u(t), E.u(f))
    E.check('isbv', E.isbv(r))
    E.expect('size', E.attr(r, 'size'), n)
    E.expect('value', E.meth(r, 'as_uint'), u)
    for c in BASES:
        if issubclass(a, c) and issubclass(b, c):
            E.check(f'subclass/{c.__name__}', E.isinstance(r, c))


@case('C10', 'select-by-vector', dict(pair=list(PN)))
def select_bv(E, pair):
    a, b = PN[pair]
    n, m = E.int('n', 1, kind='width'), E.int('m', 1, kind='width')
    s, t, f = E.bv('s', BitVector, m), E.bv('t', a, n), E.bv('f', b, n)
    r = E.get(E.meth(s, 'ite', t, f))
    E.expect('value', E.meth(r, 'as_uint'), E.ite(E.u(s) != 0, E.u(t), E.u(f)))


@case('C10', 'infix', dict(op=list(INF) + list(CINF), pair=list(PN), sel=[False, True], kind=['same', 'int', 'first', 'second']))
def infix(E, op, pair, sel, kind):
    n = E.int('n', 1, kind='width')
    x, base = poly(E, pair, sel, 'x', n)
    if kind == 'same':
        y = E.mkbv(E.base(x), n, E.uint('y', n))
    elif kind == 'int':
        y = E.int('y')
    else:
        y = E.bv('y', PN[pair][kind == 'second'], n)
    yy = E.mkbv(E.base(x), n, E.u(y)) if kind != 'int' else E.mkbv(E.base(x), n, M.mod2(y, n))
    if kind in ('first', 'second'):
        # the method itself: python may prefer a reflected method for subclasses
        E.expect(op, E.meth(x, DUNDER[op], y), infix_spec(base, op)(E, x, yy))
    else:
        E.expect(op, E.op(op, x, y), infix_spec(base, op)(E, x, yy))


DUNDER = {'&': '__and__', '|': '__or__', '^': '__xor__', '+': '__add__', '-': '__sub__', '*': '__mul__', '//': '__floordiv__',
          '%': '__mod__', '<<': '__lshift__', '>>': '__rshift__', '==': '__eq__', '!=': '__ne__', '<': '__lt__', '<=': '__le__',
          '>': '__gt__', '>=': '__ge__'}


@case('C10', 'named', dict(op=NAMED, pair=list(PN), sel=[False, True]), verifies=['poly.bv.{op}'])
def named(E, op, pair, sel):
    n = E.int('n', 1, kind='width')
    x, base = poly(E, pair, sel, 'x', n)
    y = E.mkbv(E.base(x), n, E.uint('y', n))
    E.expect(op, E.meth(x, op, y), spec_of(op)(E, x, y))


@case('C10', 'reflected', dict(op=list(INF), pair=list(PN), sel=[False, True]))
def reflected(E, op, pair, sel):
    n = E.int('n', 1, kind='width')
    x, base = poly(E, pair, sel, 'x', n)
    y = E.int('y')
    E.expect(op, E.op(op, y, x), infix_spec(base, op)(E, E.mkbv(E.base(x), n, M.mod2(y, n)), x))


@case('C10', 'unary', dict(pair=list(PN), sel=[False, True]),
      verifies=['poly.bv.bvnot', 'poly.bv.bvneg', 'poly.bv.as_uint', 'poly.bv.as_sint', 'poly.bv.bits'])
def unary(E, pair, sel):
    n = E.int('n', 1, kind='width')
    x, base = poly(E, pair, sel, 'x', n)
    E.expect('~', E.uop('~', x), sp_not(E, x))
    E.expect('-', E.uop('-', x), sp_neg(E, x))
    E.expect('as_uint', E.meth(x, 'as_uint'), E.u(x))
    E.expect('as_sint', E.meth(x, 'as_sint'), M.sgn(E.u(x), n))
    E.expect('bits', E.meth(x, 'bits'), BitList(E.u(x), n))


@case('C10', 'extend', dict(how=['zext', 'sext', 'ext', 'concat'], pair=list(PN), sel=[False, True]),
      verifies=['poly.bv.zext', 'poly.bv.sext', 'poly.bv.concat'])
def extend(E, how, pair, sel):
    n = E.int('n', 1, kind='width')
    x, base = poly(E, pair, sel, 'x', n)
    if how == 'concat':
        m = E.int('m', 1, kind='width')
        y = E.mkbv(E.base(x), m, E.uint('y', m))
        E.expect('concat', E.meth(x, 'concat', y), sp_concat(E, x, y))
        return
    k = E.int('k', 0, kind='amount')
    sp = {'zext': sp_zext, 'sext': sp_sext, 'ext': sp_sext if base is SIntVector else sp_zext}[how]
    E.expect(how, E.meth(x, how, k), sp(E, x, k))


@case('C10', 'index', dict(pair=list(PN), sel=[False, True]), verifies=['poly.bv.__getitem__'])
def index(E, pair, sel):
    n = E.int('n', 1, kind='width')
    x, base = poly(E, pair, sel, 'x', n)
    i = E.int('i', kind='amount')
    E.expect('[]', E.getitem(x, i), sp_getitem(E, x, i))


@case('C10', 'slice', dict(lo=['None', 'int'], hi=['None', 'int'], pair=list(PN), sel=[False, True]), verifies=['poly.bv.__getitem__'],
      weight=2)
def slices(E, lo, hi, pair, sel):
    n = E.int('n', 1, kind='width')
    x, base = poly(E, pair, sel, 'x', n)
    i = slice(None if lo == 'None' else E.int('lo', kind='amount'), None if hi == 'None' else E.int('hi', kind='amount'))
    E.expect('[:]', E.getitem(x, i), sp_getitem(E, x, i))


@case('C10', 'nested', dict(op=['<', '>>', '+', '//'], pair=['UIntVector|SIntVector', 'SIntVector|BitVector']),
      bounded='polymorphic type of a polymorphic type: class creation by metaclass')
def nested(E, op, pair):
    a, b = PN[pair]
    n = E.int('n', 1, kind='width')
    s1, s2 = E.bit('s1'), E.bit('s2')
    x, y, z = E.bv('x', a, n), E.bv('y', b, n), E.bv('z', BitVector if b is not BitVector else UIntVector, n)
    r = E.get(E.meth(s2, 'ite', E.get(E.meth(s1, 'ite', x, y)), z))
    v = (x if E.b(s1) else y) if E.b(s2) else z
    base = E.base(v)
    w = E.int('w')
    rr = E.get(E.op(op, r, w))
    e = infix_spec(base, op)(E, v, E.mkbv(base, n, M.mod2(w, n)))
    if E.isbit(rr):
        E.expect(op, E.b(rr), E.b(e))
    else:
        E.expect(op, E.u(rr), E.u(e))


@case('C10', 'types', dict(pair=list(PN), sel=[False, True]), verifies=['poly.getitem'],
      bounded='class creation by metaclass: PolyType.__getitem__ run on every pair at bounded widths')
def types_(E, pair, sel):
    a, b = PN[pair]
    n = E.int('n', 1, kind='width')
    T = UTIL.PolyVector[a[n], b[n], Bit(sel)]
    E.check('size', T.size == n)
    E.check('unsized', T.unsized_t[n + 1].size == n + 1 and T.unsized_t[n] is T)
    for c in common(a[n], b[n]):
        E.check('common base', issubclass(T, c) or issubclass(T, c.unsized_t))
    E.check('tag', issubclass(T, UTIL.PolyBase))
    p4 = UTIL.PolyVector[a[4], b[4], Bit(sel)]
    ks = {k for c in T.unsized_t.__mro__[:1] for k in c.__dict__}
    E.check('members do not depend on the width', ks == set(p4.unsized_t.__dict__))


def common(a, b):
    return [c for c in a.__mro__ if c in b.__mro__ and issubclass(c, AbstractBitVector)]


@case('C10', 'user-types', dict(op=['bvadd', 'bvult', '__or__', '__mul__', 'bvsub', 'bvxor', '__and__'], first=[False, True],
                                sel=[False, True]))
def user_types(E, op, first, sel):
    """a user's subclass as one branch: the selected type's own method, declined when either declines"""
    n = E.int('n', 1, kind='width')
    a, b = (SubVector, BitVector) if first else (BitVector, SubVector)
    if E.symbolic:
        x = E.mkbv(polyclass(a, b, sel), n, E.uint('x', n))
    else:
        u = E.uint('x', n)
        w = E.src.uint('x_other', n)
        x = Bit(sel).ite(a[n](u if sel else w), b[n](w if sel else u))
    y = E.mkbv(E.base(x), n, E.uint('y', n))
    own = {'bvadd': 'bvsub', 'bvult': 'bvugt', '__mul__': 'bvor'}
    plain = {'__mul__': 'bvmul', '__and__': 'bvand'}
    r = E.meth(x, op, y)
    if op == '__or__':
        E.expect(op, r, NotImplemented)
    elif sel == first:
        E.expect(op, r, spec_of(own.get(op, plain.get(op, op)))(E, x, y))
    else:
        E.expect(op, r, spec_of(plain.get(op, op))(E, x, y))


@case('C10', 'user-bits', dict(op=['&', '|', '^', '~'], first=[False, True]), bounded='class creation by metaclass (PolyBit)')
def user_bits(E, op, first):
    sel = E.bool('sel')
    u, w, y = E.bool('u'), E.bool('w'), E.bool('y')
    a, b = (SubBit, Bit) if first else (Bit, SubBit)
    x = Bit(sel).ite(a(u), b(w))
    v = u if sel else w
    own = (sel == first)
    E.check('value', bool(x) == v)
    E.check('subclass', isinstance(x, Bit))
    if op == '~':
        E.check('~', bool(~x) == (v if own else not v))
    elif op == '^':
        E.check('declined', type(x).__xor__(x, type(x)(y)) is NotImplemented)
    elif op == '&':
        E.check('&', bool(x & type(x)(y)) == ((v or y) if own else (v and y)))
    else:
        E.check('|', bool(x | type(x)(y)) == (v or y))


@case('C10', 'vcall', dict(n0=[False, True], n1=[False, True], kind=['bit', 'bv']))
def vcall(E, n0, n1, kind):
    """build_VCall: declined when either declines, else the selected result, for any two methods"""
    s = E.bit('s')
    n = E.int('n', 1, kind='width')
    mk = (lambda nm: E.bit(nm)) if kind == 'bit' else (lambda nm: E.bv(nm, BitVector, n))
    v0 = NotImplemented if n0 else mk('v0')
    v1 = NotImplemented if n1 else mk('v1')
    m0, m1 = E.get(E.call(const_fn, v0)), E.get(E.call(const_fn, v1))
    w = E.get(E.call(UTIL.build_VCall, s, m0, m1))
    r = E.call(E.get(E.meth(w, '__get__', object())), 3)
    if n0 or n1:
        E.expect('declined', r, NotImplemented)
    elif kind == 'bit':
        E.expect('selected', r, E.mkbit(M.OR(M.AND(E.b(s), E.b(v0)), M.AND(M.NOT(E.b(s)), E.b(v1)))))
    else:
        E.expect('selected', r, E.mkbv(BitVector, n, E.ite(E.b(s), E.u(v0), E.u(v1))))


@case('C10', 'vcall-same')
def vcall_same(E):
    """one and the same method is called directly"""
    s = E.bit('s')
    f = E.get(E.call(const_fn, 7))
    w = E.get(E.call(UTIL.build_VCall, s, f, f))
    E.expect('same', E.call(w, 1), 7)


@case('C10', 'rejects-width', dict(pair=list(PN)))
def rejects_width(E, pair):
    a, b = PN[pair]
    n, m = E.int('n', 1, kind='width'), E.int('m', 1, kind='width')
    E.require(n != m)
    E.expect('rejects', E.meth(E.bit('s'), 'ite', E.bv('t', a, n), E.bv('f', b, m)), Raises(TypeError))


@case('C10', 'rejects-family', dict(base=BASES), bounded='values of other families')
def rejects_family(E, base):
    from hwtypes.smt_bit_vector import SMTBitVector, SMTBit
    from hwtypes.z3_bit_vector import z3BitVector, z3Bit
    n = E.int('n', 1, kind='width')
    s = E.bit('s')
    x = E.bv('x', base, n)
    for o in (SMTBitVector[n](1), z3BitVector[n](1)):
        E.expect('rejects', E.meth(s, 'ite', x, o), Raises(TypeError))
        E.expect('rejects', E.meth(s, 'ite', o, x), Raises(TypeError))
    for o in (SMTBit(True), z3Bit(True)):
        E.expect('rejects', E.meth(s, 'ite', E.bit('b'), o), Raises(TypeError))
        E.expect('rejects', E.meth(s, 'ite', o, E.bit('b')), Raises(TypeError))
