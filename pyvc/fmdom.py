"""Solver formulas (pysmt, z3): denotational contracts of the formula libraries,
symbolic and concrete inputs, expected values.

A formula value is its sort and its denotation under one arbitrary, fixed
assignment of the variables.  The formula libraries are external: their
constructors are assumed to mean what SMT-LIB says (listed as assumptions)."""
import types
import pysmt
import pysmt.fnode
import pysmt.shortcuts as smt
import pysmt.typing as pt
import pysmt.operators as pop
from pysmt.exceptions import PysmtTypeError, PysmtValueError
import z3
from hwtypes import smt_bit_vector as SM, z3_bit_vector as ZM, smt_int as SI, bit_vector_abc as ABC
from . import theory as T
from . import values as V
from . import smath as M
from . import spec, verify
from .values import *
from .interp import MISSING, is_symbolic
from .spec import SymE, ConE, Raises, Outcome, Skip, Violation, BitList
from .bvdom import UBIN, CMPS, rol
from .helpers import HasInt, HasBool, Plain

FNode = pysmt.fnode.FNode
Z3E = z3.Z3Exception


# ------------------------------------------------------------------ sorts, formulas
class PyFn(Opaque):
    def __init__(self, fn):
        self.fn = fn

    def x_call(self, ip, args, kwargs):
        return self.fn(*args, **kwargs)

    def x_type(self):
        return types.FunctionType

    def x_truth(self, ip):
        return True


class Sort(Opaque):
    """sort of a formula: 'bool' | 'int' | 'bv' (with width)"""

    def __init__(self, lib, kind, n=None):
        self.lib, self.kind, self.n = lib, kind, n

    def __repr__(self):
        return f'{self.kind}{"" if self.n is None else [self.n]}'

    def x_type(self):
        return type(pt.BVType(8)) if self.lib == 'smt' else z3.BitVecSortRef

    def x_isinstance(self, C):
        return issubclass(self.x_type(), C)

    def same(self, o):
        o = as_sort(self.lib, o)
        if o is None or o.kind != self.kind:
            return False
        return True if self.n is None else same_size(self.n, o.n)

    def x_is(self, o):
        return self.same(o)

    def x_binop(self, ip, op, o, reflected):
        if op == '==':
            return self.same(o)
        if op == '!=':
            return ip.not_(self.same(o))
        return NotImplemented

    def x_truth(self, ip):
        return True

    def x_getattr(self, ip, name):
        if self.lib == 'smt':
            k = {'is_bool_type': 'bool', 'is_int_type': 'int', 'is_bv_type': 'bv'}.get(name)
            if k:
                return PyFn(lambda *a: self.kind == k and (True if not a else same_size(a[0], self.n)))
            if name in ('is_real_type', 'is_function_type', 'is_array_type', 'is_string_type'):
                return PyFn(lambda *a: False)
            if name == 'width' and self.kind == 'bv':
                return self.n
        elif name == 'size' and self.kind == 'bv':
            return PyFn(lambda: self.n)
        raise Unsupported(f'attribute {name} of a sort')


def as_sort(lib, o):
    if isinstance(o, Sort):
        return o
    if o is pt.BOOL:
        return Sort('smt', 'bool')
    if o is pt.INT:
        return Sort('smt', 'int')
    if isinstance(o, z3.BoolSortRef) and not isinstance(o, z3.BitVecSortRef):
        return Sort('z3', 'bool')
    if isinstance(o, z3.BitVecSortRef):
        return Sort('z3', 'bv', o.size())
    if isinstance(o, pt.PySMTType) and o.is_bv_type():
        return Sort('smt', 'bv', o.width)
    return None


class Fm(Opaque):
    """formula: library, sort, denotation"""
    key_by_identity = True

    def __init__(self, lib, sort, den, prov=None):
        self.lib, self.sort, self.den, self.prov = lib, sort, den, prov

    def __repr__(self):
        return f'<{self.lib} formula of sort {self.sort!r}>'

    @property
    def n(self):
        return self.sort.n

    def x_type(self):
        if self.lib == 'smt':
            return FNode
        return {'bool': z3.BoolRef, 'bv': z3.BitVecRef}[self.sort.kind]

    def x_isinstance(self, C):
        C = V.CUR.E.ip.lift(C)
        if isinstance(C, SType):
            return False
        return issubclass(self.x_type(), C)

    def x_getattr(self, ip, name):
        if name == '__class__':
            return self.x_type()
        r = (smt_attr if self.lib == 'smt' else z3_attr)(ip, self, name)
        if r is MISSING:
            if not hasattr(self.x_type(), name):
                ip.raise_(AttributeError, name)
            raise Unsupported(f'{self.x_type().__name__}.{name} (no contract)')
        return r

    def x_binop(self, ip, op, o, reflected):
        return (smt_infix if self.lib == 'smt' else z3_infix)(ip, self, op, o, reflected)

    def x_unop(self, ip, op):
        k = self.sort.kind
        if op == '~' and k == 'bv':
            return OPS[self.lib]['BVNot'](ip, self)
        if op == '-' and k == 'bv':
            return OPS[self.lib]['BVNeg'](ip, self)
        if op == '~' and k == 'bool' and self.lib == 'smt':
            return OPS['smt']['Not'](ip, self)
        if op == '-' and k == 'int':
            return fint('smt', -self.den)
        if op == '+' and self.lib == 'z3' and k == 'bv':
            return self
        ip.raise_(TypeError, f'unary {op} on a formula')

    def x_getitem(self, ip, idx):
        if self.lib != 'smt' or self.sort.kind != 'bv':
            ip.raise_(TypeError, 'formula is not subscriptable')
        if isinstance(idx, slice):
            a, b = idx.start, idx.stop
            if a is None:
                a = 0
        else:
            a = b = idx
        if b is None:
            ip.raise_(TypeError, 'no end')
        return extract(ip, self, a, b)

    def x_truth(self, ip):
        if self.lib == 'smt':
            return True
        raise Unsupported('truth value of a z3 term')

    def x_is(self, o):
        if o is self:
            return True
        if isinstance(o, Fm):
            raise Unsupported('identity of formulas')
        return False

    def x_match(self, E, label, v):
        if v is self:
            return
        if not isinstance(v, Fm):
            E.p.oblige(label + '/type', False)
            return
        E.p.oblige(label + '/sort', self.sort.same(v.sort))
        if self.sort.kind == 'bool':
            E.p.oblige(label, M.IFF(v.den, self.den))
        else:
            E.p.oblige(label, mkbool(term(v.den) == term(self.den)))


def fbool(lib, b):
    if isinstance(b, z3.ExprRef):
        b = mkbool(b)
    return Fm(lib, Sort(lib, 'bool'), b)


def fbv(lib, n, u):
    return Fm(lib, Sort(lib, 'bv', n), u)


def fint(lib, v):
    return Fm(lib, Sort(lib, 'int'), v)


def fresh(lib, sort, name='sym', prov=None):
    p = V.CUR
    if sort.kind == 'bool':
        return Fm(lib, sort, mkbool(p.fresh(name, 'bool')), prov)
    x = p.fresh(name)
    if sort.kind == 'bv':
        p.assume(x >= 0)
        p.assume(x < T.pow2(term(sort.n)))
    return Fm(lib, sort, mkint(x), prov)


def bad(ip, lib, msg):
    ip.raise_(PysmtTypeError if lib == 'smt' else Z3E, msg)


def need(ip, lib, cond, msg='ill-sorted formula'):
    if not ip.truth(cond):
        bad(ip, lib, msg)


def coerce(ip, lib, x, like):
    """operand of a library call"""
    if isinstance(x, Fm) and x.lib == lib:
        return x
    if lib == 'z3':
        if like is not None and like.kind == 'bv' and isintlike(x):
            return fbv('z3', like.n, M.mod2(mkint(term(x)), like.n))
        if (like is None or like.kind == 'bool') and isinstance(x, (bool, SBool)):
            return fbool('z3', x)
    if isinstance(x, (Fm, SObj)) or x is None or isintlike(x) or isinstance(x, (str, tuple)):
        bad(ip, lib, 'not a formula')
    raise Unsupported(f'operand {x!r} of a formula constructor')


def same2(ip, lib, a, b, kind=None):
    like = a.sort if isinstance(a, Fm) else b.sort if isinstance(b, Fm) else None
    a, b = coerce(ip, lib, a, like), coerce(ip, lib, b, like)
    if kind is not None:
        need(ip, lib, a.sort.kind == kind and b.sort.kind == kind)
    need(ip, lib, a.sort.same(b.sort))
    return a, b


def intarg(ip, lib, k):
    if not isintlike(k):
        if isinstance(k, (Fm, SObj, float)) or k is None:
            bad(ip, lib, 'int expected')
        raise Unsupported('int argument of a formula constructor')
    return mkint(term(k))


def extract(ip, x, lo, hi):
    lib = x.lib
    lo, hi = intarg(ip, lib, lo), intarg(ip, lib, hi)
    exc = AssertionError if lib == 'smt' else Z3E
    if not ip.truth(M.AND(0 <= lo, lo <= hi)):
        ip.raise_(exc, 'extract bounds')
    if not ip.truth(hi < x.n):
        bad(ip, lib, 'extract beyond the width')
    w = hi - lo + 1
    return fbv(lib, w, M.mod2(M.shr(x.den, lo), w))


def tdiv(E, a, b):
    """SMT-LIB signed division of signed readings, divisor non-zero: truncating"""
    if a >= 0:
        return M.fdiv(a, b) if b > 0 else -M.fdiv(a, -b)
    return -M.fdiv(-a, b) if b > 0 else M.fdiv(-a, -b)


def smtlib_sdiv(E, a, b, n):
    x, y = M.sgn(a, n), M.sgn(b, n)
    if b == 0:
        return 1 if x < 0 else -1
    return tdiv(E, x, y)


def smtlib_srem(E, a, b, n):
    x, y = M.sgn(a, n), M.sgn(b, n)
    if b == 0:
        return a
    return x - M.mul(tdiv(E, x, y), y)


def smtlib_smod(E, a, b, n):
    if b == 0:
        return a
    return M.fmod(M.sgn(a, n), M.sgn(b, n))


BIN = {'BVAnd': UBIN['bvand'], 'BVOr': UBIN['bvor'], 'BVXor': UBIN['bvxor'], 'BVAdd': UBIN['bvadd'],
       'BVSub': UBIN['bvsub'], 'BVMul': UBIN['bvmul'], 'BVUDiv': UBIN['bvudiv'], 'BVURem': UBIN['bvurem'],
       'BVLShl': UBIN['bvshl'], 'BVLShr': UBIN['bvlshr'], 'BVAShr': UBIN['bvashr'],
       'BVSDiv': smtlib_sdiv, 'BVSRem': smtlib_srem, 'BVSMod': smtlib_smod, 'BVNand': UBIN['bvnand'],
       'BVNor': UBIN['bvnor'], 'BVXnor': UBIN['bvxnor']}
CMPN = {'BVULT': 'bvult', 'BVULE': 'bvule', 'BVUGT': 'bvugt', 'BVUGE': 'bvuge', 'BVSLT': 'bvslt', 'BVSLE': 'bvsle',
        'BVSGT': 'bvsgt', 'BVSGE': 'bvsge'}
OPS = {'smt': {}, 'z3': {}}


def bvbin(lib, f):
    def g(ip, a, b):
        a, b = same2(ip, lib, a, b, 'bv')
        n = a.n
        return fbv(lib, n, M.mod2(f(V.CUR.E, a.den, b.den, n), n))
    return g


def bvcmp(lib, f):
    def g(ip, a, b):
        a, b = same2(ip, lib, a, b, 'bv')
        return fbool(lib, f(a.den, b.den, a.n))
    return g


for _lib in OPS:
    for _k, _f in BIN.items():
        OPS[_lib][_k] = bvbin(_lib, _f)
    for _k, _f in CMPN.items():
        OPS[_lib][_k] = bvcmp(_lib, CMPS[_f])


def op(lib, *names):
    def deco(f):
        for l in ((lib,) if lib else ('smt', 'z3')):
            for n in names:
                OPS[l][n] = (lambda l: lambda ip, *a, **k: f(ip, l, *a, **k))(l)
        return f
    return deco


def one(ip, lib, x, kind):
    x = coerce(ip, lib, x, None)
    need(ip, lib, x.sort.kind == kind)
    return x


@op(None, 'BVNot')
def _bvnot(ip, lib, x):
    x = one(ip, lib, x, 'bv')
    return fbv(lib, x.n, M.pow2(x.n) - 1 - x.den)


@op(None, 'BVNeg')
def _bvneg(ip, lib, x):
    x = one(ip, lib, x, 'bv')
    return fbv(lib, x.n, V.CUR.E.ite(x.den == 0, 0, M.pow2(x.n) - x.den))


@op('smt', 'BVComp')
def _comp(ip, lib, a, b):
    a, b = same2(ip, lib, a, b, 'bv')
    return fbv(lib, 1, V.CUR.E.ite(a.den == b.den, 1, 0))


@op('smt', 'Equals')
def _eq(ip, lib, a, b):
    a, b = same2(ip, lib, a, b)
    need(ip, lib, a.sort.kind != 'bool')
    return fbool(lib, mkbool(term(a.den) == term(b.den)))


@op('smt', 'NotEquals')
def _ne(ip, lib, a, b):
    return OPS['smt']['Not'](ip, _eq(ip, lib, a, b))


@op('smt', 'EqualsOrIff')
def _eqiff(ip, lib, a, b):
    a, b = same2(ip, lib, a, b)
    return geneq(a, b)


def geneq(a, b):
    if a.sort.kind == 'bool':
        return fbool(a.lib, M.IFF(a.den, b.den))
    return fbool(a.lib, mkbool(term(a.den) == term(b.den)))


@op('smt', 'Iff')
def _iff(ip, lib, a, b):
    a, b = same2(ip, lib, a, b, 'bool')
    return fbool(lib, M.IFF(a.den, b.den))


@op(None, 'Xor')
def _xor(ip, lib, a, b):
    a, b = same2(ip, lib, a, b, 'bool')
    return fbool(lib, M.XOR(a.den, b.den))


@op(None, 'Implies')
def _implies(ip, lib, a, b):
    a, b = same2(ip, lib, a, b, 'bool')
    return fbool(lib, M.OR(M.NOT(a.den), b.den))


@op(None, 'Not')
def _not(ip, lib, a):
    return fbool(lib, M.NOT(one(ip, lib, a, 'bool').den))


def nary(ip, lib, a):
    if len(a) == 1 and not isinstance(a[0], Fm):
        a = ip.concrete_list(a[0])
    return [one(ip, lib, x, 'bool') for x in a]


@op(None, 'And')
def _and(ip, lib, *a):
    a = nary(ip, lib, a)
    return fbool(lib, M.AND(*[x.den for x in a]) if a else True)


@op(None, 'Or')
def _or(ip, lib, *a):
    a = nary(ip, lib, a)
    return fbool(lib, M.OR(*[x.den for x in a]) if a else False)


@op(None, 'Ite', 'If')
def _ite(ip, lib, c, a, b):
    c = one(ip, lib, c, 'bool')
    a, b = same2(ip, lib, a, b)
    if a.sort.kind == 'bool':
        return fbool(lib, M.OR(M.AND(c.den, a.den), M.AND(M.NOT(c.den), b.den)))
    return Fm(lib, a.sort, V.CUR.E.ite(c.den, a.den, b.den))


@op('smt', 'BVConcat')
def _concat(ip, lib, *a):
    if len(a) < 2:
        raise Unsupported('concat')
    a = [one(ip, lib, x, 'bv') for x in a]
    r = a[0]
    for y in a[1:]:
        r = fbv(lib, r.n + y.n, y.den + M.shl(r.den, y.n))
    return r


OPS['z3']['Concat'] = lambda ip, *a: _concat(ip, 'z3', *a)


def zext(ip, lib, x, k):
    x, k = one(ip, lib, x, 'bv'), intarg(ip, lib, k)
    need(ip, lib, k >= 0)
    return fbv(lib, x.n + k, x.den)


def sext(ip, lib, x, k):
    x, k = one(ip, lib, x, 'bv'), intarg(ip, lib, k)
    need(ip, lib, k >= 0)
    n, u = x.n, x.den
    return fbv(lib, n + k, V.CUR.E.ite(u >= M.pow2(n - 1), u + M.pow2(n + k) - M.pow2(n), u))


def repeat(ip, lib, x, r):
    x, r = one(ip, lib, x, 'bv'), intarg(ip, lib, r)
    if lib == 'smt':
        if r <= 1:
            return x        # the manager's loop makes no copy
    else:
        need(ip, lib, r >= 1)
    n, u = x.n, x.den
    w = M.mul(r, n)
    return fbv(lib, w, V.CUR.E.frombits(w, lambda i: M.bit(u, M.fmod(i, n))))


def rot(ip, lib, x, k, left):
    x, k = one(ip, lib, x, 'bv'), intarg(ip, lib, k)
    n = x.n
    need(ip, lib, M.AND(k >= 0, k <= n), 'rotation step')
    if k == n:
        return x
    if not left:
        k = V.CUR.E.ite(k == 0, 0, n - k)
    return fbv(lib, n, M.mod2(rol(V.CUR.E, x.den, k, n), n))


OPS['smt'].update(
    BVZExt=lambda ip, x, k: zext(ip, 'smt', x, k), BVSExt=lambda ip, x, k: sext(ip, 'smt', x, k),
    BVRepeat=lambda ip, x, k=1: repeat(ip, 'smt', x, k), BVRol=lambda ip, x, k: rot(ip, 'smt', x, k, True),
    BVRor=lambda ip, x, k: rot(ip, 'smt', x, k, False))


@op('smt', 'BVExtract')
def _extract(ip, lib, x, start=0, end=None):
    x = one(ip, lib, x, 'bv')
    return extract(ip, x, start, x.n - 1 if end is None else end)


@op('smt', 'BVToNatural')
def _nat(ip, lib, x):
    return fint(lib, one(ip, lib, x, 'bv').den)


@op('smt', 'simplify')
def _simpl(ip, lib, x):
    return coerce(ip, lib, x, None)


@op('smt', 'Symbol', 'FreshSymbol')
def _symbol(ip, lib, name=None, typename=pt.BOOL):
    s = as_sort('smt', typename)
    if s is None or not isinstance(name, (str, SStr)):
        raise Unsupported('Symbol')
    return fresh('smt', s, prov=('symbol', name))


@op('smt', 'Bool')
def _bool(ip, lib, b):
    if not isinstance(b, (bool, SBool)):
        bad(ip, lib, 'bool expected')
    return fbool(lib, b)


@op('smt', 'BV')
def _bv(ip, lib, v, width=None):
    v, n = intarg(ip, lib, v), intarg(ip, lib, width)
    if not ip.truth(M.AND(v >= 0, v < M.pow2(n))):
        ip.raise_(PysmtValueError, 'constant does not fit')
    return fbv(lib, n, v)


@op('smt', 'SBV')
def _sbv(ip, lib, v, width=None):
    v, n = intarg(ip, lib, v), intarg(ip, lib, width)
    if not ip.truth(M.AND(v >= -M.pow2(n - 1), v < M.pow2(n - 1))):
        ip.raise_(PysmtValueError, 'constant does not fit')
    return fbv(lib, n, M.mod2(v, n))


OPS['smt']['BVOne'] = lambda ip, n: fbv('smt', n, 1)
OPS['smt']['BVZero'] = lambda ip, n: fbv('smt', n, 0)


@op('smt', 'Int')
def _int(ip, lib, v):
    if isinstance(v, (bool, SBool)) or not isintlike(v):
        bad(ip, lib, 'int expected')
    return fint(lib, v)


def i2(ip, a, b):
    if isintlike(a):
        a = fint('smt', mkint(term(a)))
    if isintlike(b):
        b = fint('smt', mkint(term(b)))
    return same2(ip, 'smt', a, b, 'int')


def smt_div(ip, a, b):
    """SMT-LIB integer division (Euclidean: remainder in [0,|b|)); the value for
    divisor zero is unspecified"""
    a, b = i2(ip, a, b)
    x, y = a.den, b.den
    if y == 0:
        return fresh('smt', a.sort, 'div0')
    if y > 0:
        return fint('smt', M.fdiv(x, y))
    return fint('smt', -M.fdiv(x, -y))


OPS['smt'].update(
    Div=smt_div,
    Plus=lambda ip, *a: arith(ip, lambda x, y: x + y, *a),
    Minus=lambda ip, *a: arith(ip, lambda x, y: x - y, *a),
    Times=lambda ip, *a: arith(ip, M.mul, *a),
    LE=lambda ip, a, b: icmp(ip, '<=', a, b), LT=lambda ip, a, b: icmp(ip, '<', a, b),
    GE=lambda ip, a, b: icmp(ip, '>=', a, b), GT=lambda ip, a, b: icmp(ip, '>', a, b))


def arith(ip, f, *a):
    r = a[0]
    for b in a[1:]:
        x, y = i2(ip, r, b)
        r = fint('smt', f(x.den, y.den))
    return r


def icmp(ip, o, a, b):
    a, b = i2(ip, a, b)
    x, y = term(a.den), term(b.den)
    return fbool('smt', mkbool({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[o]))


INFIX_BV = {'+': 'BVAdd', '-': 'BVSub', '*': 'BVMul', '&': 'BVAnd', '|': 'BVOr', '^': 'BVXor', '<<': 'BVLShl',
            '>>': 'BVLShr', '%': 'BVURem', '/': 'BVUDiv', '<': 'BVULT', '<=': 'BVULE', '>': 'BVUGT', '>=': 'BVUGE'}


def smt_infix(ip, a, o, b, reflected):
    if o in ('==', '!='):
        raise Unsupported('structural comparison of formulas')
    k = a.sort.kind
    if not isinstance(b, Fm):
        if not isintlike(b):
            if isinstance(b, SObj):
                return NotImplemented
            bad(ip, 'smt', 'infix operand')
        b = _bv(ip, 'smt', b, a.n) if k == 'bv' else fint('smt', mkint(term(b))) if k == 'int' else _bool(ip, 'smt', b)
    x, y = (b, a) if reflected else (a, b)
    if k == 'bv' and o in INFIX_BV:
        return OPS['smt'][INFIX_BV[o]](ip, x, y)
    if k == 'bool' and o in '&|^':
        return OPS['smt'][{'&': 'And', '|': 'Or', '^': 'Xor'}[o]](ip, x, y)
    if k == 'int':
        if o in ('<', '<=', '>', '>='):
            return icmp(ip, o, x, y)
        f = {'+': 'Plus', '-': 'Minus', '*': 'Times', '/': 'Div'}.get(o)
        if f:
            return OPS['smt'][f](ip, x, y)
    bad(ip, 'smt', f'infix {o}')


Z_INFIX = {'+': 'BVAdd', '-': 'BVSub', '*': 'BVMul', '&': 'BVAnd', '|': 'BVOr', '^': 'BVXor', '<<': 'BVLShl',
           '>>': 'BVAShr', '%': 'BVSMod', '/': 'BVSDiv', '<': 'BVSLT', '<=': 'BVSLE', '>': 'BVSGT', '>=': 'BVSGE'}


def z3_infix(ip, a, o, b, reflected):
    if isinstance(b, (SObj, Sort)):
        bad(ip, 'z3', 'operand')
    x, y = (b, a) if reflected else (a, b)
    if o in ('==', '!='):
        x, y = same2(ip, 'z3', x, y)
        r = geneq(x, y)
        return r if o == '==' else fbool('z3', M.NOT(r.den))
    if a.sort.kind == 'bv' and o in Z_INFIX:
        return OPS['z3'][Z_INFIX[o]](ip, x, y)
    if a.sort.kind == 'bool' and o in '&|^':
        return OPS['z3'][{'&': 'And', '|': 'Or', '^': 'Xor'}[o]](ip, x, y)
    return NotImplemented


def guess_const(ip, f):
    """is the formula a constant?  either, for any formula (but the same answer each time)"""
    if not hasattr(f, '_const'):
        f._const = V.CUR.decide(V.CUR.fresh('isconst', 'bool'))
    return f._const


def smt_attr(ip, f, name):
    k = f.sort.kind
    if name == 'get_type':
        return PyFn(lambda: f.sort)
    if name == 'bv_width' and k == 'bv':
        return PyFn(lambda: f.n)
    if name == 'simplify':
        return PyFn(lambda: f)
    if name == 'substitute':
        return PyFn(lambda d, *a: fresh('smt', f.sort, 'subst', ('substitute', f, dict(d))))
    if name == 'is_constant':
        return PyFn(lambda: guess_const(ip, f))
    if name in ('is_bool_constant', 'is_bv_constant', 'is_int_constant'):
        kk = name.split('_')[1]
        return PyFn(lambda *a: False if kk != k else guess_const(ip, f) if not a else Unsupported_('constant test'))
    if name in ('is_true', 'is_false'):
        if k != 'bool':
            return PyFn(lambda: False)
        return PyFn(lambda: guess_const(ip, f) and ip.truth(f.den if name == 'is_true' else M.NOT(f.den)))
    if name in ('is_zero', 'is_one'):
        if k == 'bool':
            return PyFn(lambda: False)
        return PyFn(lambda: guess_const(ip, f) and ip.truth(f.den == int(name == 'is_one')))
    if name in ('constant_value', 'bv_unsigned_value'):
        def cv():
            if not guess_const(ip, f):
                ip.raise_(AssertionError, 'not a constant')
            return f.den
        return PyFn(cv)
    if name == 'is_symbol':
        if f.prov and f.prov[0] == 'symbol':
            return PyFn(lambda: True)
        return MISSING
    if name in ('symbol_name',) and f.prov and f.prov[0] == 'symbol':
        return PyFn(lambda: f.prov[1])
    if name in OPS['smt'] and hasattr(FNode, name):
        return PyFn(lambda *a: OPS['smt'][name](ip, f, *a))
    return MISSING


def Unsupported_(m):
    raise Unsupported(m)


def z3_attr(ip, f, name):
    if name == 'sort':
        return PyFn(lambda: f.sort)
    if name == 'size' and f.sort.kind == 'bv':
        return PyFn(lambda: f.n)
    return MISSING


# z3 functions
def z3ops():
    o = OPS['z3']

    def val(ip, v, s):
        n = s.n if isinstance(s, Sort) else s.size() if isinstance(s, z3.BitVecSortRef) else intarg(ip, 'z3', s)
        v = intarg(ip, 'z3', v)
        # widths are positive, so 0 and 1 are representable
        return fbv('z3', n, v if isinstance(v, int) and v in (0, 1) else M.mod2(v, n))

    def sym(ip, name, s):
        n = s.n if isinstance(s, Sort) else s.size() if isinstance(s, z3.BitVecSortRef) else intarg(ip, 'z3', s)
        return fresh('z3', Sort('z3', 'bv', n), prov=('symbol', name))

    def bval(ip, b):
        if isinstance(b, (bool, SBool)):
            return fbool('z3', b)
        raise Unsupported('BoolVal')

    def simplify(ip, a):
        return coerce(ip, 'z3', a, None)

    def ext_rot(left):
        def g(ip, a, b):
            a, b = same2(ip, 'z3', a, b, 'bv')
            return fbv('z3', a.n, M.mod2(UBIN['bvrol' if left else 'bvror'](V.CUR.E, a.den, b.den, a.n), a.n))
        return g

    def ex(ip, hi, lo, a):
        if isinstance(hi, Fm):
            raise Unsupported('Extract of sequences')
        return extract(ip, one(ip, 'z3', a, 'bv'), lo, hi)

    def ifz(ip, c, a, b):
        c = coerce(ip, 'z3', c, Sort('z3', 'bool'))
        return _ite(ip, 'z3', c, a, b)

    return {z3.BitVecVal: val, z3.BitVec: sym, z3.BoolVal: bval, z3.simplify: simplify,
            z3.Bool: lambda ip, name: fresh('z3', Sort('z3', 'bool'), prov=('symbol', name)),
            z3.BitVecSort: lambda ip, n: Sort('z3', 'bv', intarg(ip, 'z3', n)),
            z3.ULT: o['BVULT'], z3.ULE: o['BVULE'], z3.UGT: o['BVUGT'], z3.UGE: o['BVUGE'],
            z3.UDiv: o['BVUDiv'], z3.URem: o['BVURem'], z3.SRem: o['BVSRem'], z3.LShR: o['BVLShr'],
            z3.RotateLeft: ext_rot(True), z3.RotateRight: ext_rot(False), z3.Extract: ex, z3.Concat: o['Concat'],
            z3.If: ifz, z3.And: o['And'], z3.Or: o['Or'], z3.Not: o['Not'], z3.Xor: o['Xor'], z3.Implies: o['Implies'],
            z3.ZeroExt: lambda ip, k, a: zext(ip, 'z3', a, k), z3.SignExt: lambda ip, k, a: sext(ip, 'z3', a, k),
            z3.RepeatBitVec: lambda ip, k, a: repeat(ip, 'z3', a, k)}


class Mgr(Opaque):
    def x_getattr(self, ip, name):
        if name in OPS['smt']:
            return PyFn(lambda *a, **k: OPS['smt'][name](ip, *a, **k))
        raise Unsupported(f'formula_manager.{name}')

    def x_type(self):
        return type(smt.get_env().formula_manager)

    def x_truth(self, ip):
        return True


class Env_(Opaque):
    def x_getattr(self, ip, name):
        if name == 'formula_manager':
            return Mgr()
        raise Unsupported(f'environment.{name}')

    def x_type(self):
        return type(smt.get_env())

    def x_truth(self, ip):
        return True


def register(h):
    for n, f in OPS['smt'].items():
        g = getattr(smt, n, None)
        if g is not None:
            h.extern[g] = f
    h.extern[smt.get_env] = lambda ip: Env_()
    h.extern[pt.BVType] = lambda ip, n=32: Sort('smt', 'bv', intarg(ip, 'smt', n))
    for g, f in z3ops().items():
        h.extern[g] = f
    h.family_roots += [SM.SMTBitVector, ZM.z3BitVector]
    for m in REGISTER:
        m(h)


REGISTER = []

# ------------------------------------------------------------------ concrete evaluation of pysmt formulas
U = {pop.BV_AND: lambda a, b, n: a & b, pop.BV_OR: lambda a, b, n: a | b, pop.BV_XOR: lambda a, b, n: a ^ b,
     pop.BV_ADD: lambda a, b, n: a + b, pop.BV_SUB: lambda a, b, n: a - b, pop.BV_MUL: lambda a, b, n: a * b,
     pop.BV_UDIV: lambda a, b, n: a // b if b else -1, pop.BV_UREM: lambda a, b, n: a % b if b else a,
     pop.BV_LSHL: lambda a, b, n: a << b if b < n else 0, pop.BV_LSHR: lambda a, b, n: a >> b if b < n else 0,
     pop.BV_ASHR: lambda a, b, n: sg(a, n) >> min(b, n), pop.BV_SDIV: lambda a, b, n: smtlib_sdiv(None, a, b, n),
     pop.BV_SREM: lambda a, b, n: smtlib_srem(None, a, b, n)}


def sg(u, n):
    return u - (1 << n) if u >> (n - 1) else u


class EvalError(Exception):
    pass


def ev_smt(f, asg, memo=None):
    memo = {} if memo is None else memo
    stack = [f]
    while stack:
        g = stack[-1]
        if g in memo:
            stack.pop()
            continue
        todo = [a for a in g.args() if a not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[g] = ev1(g, [memo[a] for a in g.args()], asg)
        stack.pop()
    return memo[f]


def ev1(g, a, asg):
    t = g.node_type()
    if t == pop.SYMBOL:
        if g not in asg:
            raise EvalError(f'formula mentions the unrelated variable {g}')
        return asg[g]
    if t in (pop.BOOL_CONSTANT, pop.INT_CONSTANT):
        return bool(g.constant_value()) if t == pop.BOOL_CONSTANT else int(g.constant_value())
    if t == pop.BV_CONSTANT:
        return int(g.constant_value())
    if t == pop.AND:
        return all(a)
    if t == pop.OR:
        return any(a)
    if t == pop.NOT:
        return not a[0]
    if t == pop.IFF:
        return a[0] == a[1]
    if t == pop.IMPLIES:
        return (not a[0]) or a[1]
    if t == pop.ITE:
        return a[1] if a[0] else a[2]
    if t == pop.EQUALS:
        return a[0] == a[1]
    if t == pop.LE:
        return a[0] <= a[1]
    if t == pop.LT:
        return a[0] < a[1]
    if t == pop.PLUS:
        return sum(a)
    if t == pop.MINUS:
        return a[0] - a[1]
    if t == pop.TIMES:
        r = 1
        for x in a:
            r *= x
        return r
    if t == pop.DIV:
        if a[1] == 0:
            raise EvalError('division by zero')
        return a[0] // a[1] if a[1] > 0 else -(a[0] // -a[1])
    if t == pop.BV_TONATURAL:
        return a[0]
    n0 = g.arg(0).bv_width()
    if t == pop.BV_NOT:
        return (1 << n0) - 1 - a[0]
    if t == pop.BV_NEG:
        return -a[0] % (1 << n0)
    if t in U:
        return U[t](a[0], a[1], n0) % (1 << n0)
    if t == pop.BV_COMP:
        return int(a[0] == a[1])
    if t == pop.BV_ULT:
        return a[0] < a[1]
    if t == pop.BV_ULE:
        return a[0] <= a[1]
    if t == pop.BV_SLT:
        return sg(a[0], n0) < sg(a[1], n0)
    if t == pop.BV_SLE:
        return sg(a[0], n0) <= sg(a[1], n0)
    if t == pop.BV_CONCAT:
        return a[0] << g.arg(1).bv_width() | a[1]
    if t == pop.BV_EXTRACT:
        lo, hi = g.bv_extract_start(), g.bv_extract_end()
        return (a[0] >> lo) & ((1 << (hi - lo + 1)) - 1)
    if t == pop.BV_ZEXT:
        return a[0]
    if t == pop.BV_SEXT:
        return sg(a[0], n0) % (1 << g.bv_width())
    if t in (pop.BV_ROL, pop.BV_ROR):
        k = g.bv_rotation_step() % n0
        if t == pop.BV_ROR:
            k = (n0 - k) % n0
        return (a[0] << k | a[0] >> (n0 - k)) % (1 << n0)
    raise EvalError(f'no evaluation rule for {g}')


def ev_z3(f, asg):
    r = z3.simplify(z3.substitute(f, *asg.values()) if asg else f)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    if z3.is_bv_value(r):
        return r.as_long()
    if z3.is_bool(r) or z3.is_bv(r):
        # substituted with constants, so only the evaluator is incomplete
        s = z3.Solver()
        c = z3.Const('hv!r', r.sort())
        s.add(c == r)
        if s.check() == z3.sat:
            m = s.model()[c]
            return z3.is_true(m) if z3.is_bool(r) else m.as_long()
    raise EvalError(f'cannot evaluate {r}')


def evalf(E, lib, f):
    try:
        return ev_smt(f, E.__dict__.setdefault('asg_smt', {})) if lib == 'smt' else \
            ev_z3(f, E.__dict__.setdefault('asg_z3', {}))
    except EvalError as e:
        raise Violation('denotation', str(e))


def con_formula(E, lib, name, kind, n, v):
    """a formula whose value is v: a variable, a constant or a compound"""
    form = E.src.choice(name + '!', 3)
    E.inputs[name + '!'] = form
    sname = f'hv_{name}_{kind}{n if n is not None else ""}'
    if lib == 'smt':
        asg = E.__dict__.setdefault('asg_smt', {})
        if kind == 'bv':
            s = smt.Symbol(sname, pt.BVType(n))
            k = (0x5a5a5a5a3c6 >> (n % 5)) % (1 << n)
            asg[s] = v if form == 0 else v ^ k
            return s if form == 0 else smt.BV(v, n) if form == 1 else smt.BVXor(s, smt.BV(k, n))
        if kind == 'bool':
            s = smt.Symbol(sname, pt.BOOL)
            asg[s] = v if form == 0 else not v
            return s if form == 0 else smt.Bool(v) if form == 1 else smt.Not(s)
        s = smt.Symbol(sname, pt.INT)
        asg[s] = v if form == 0 else v - 3
        return s if form == 0 else smt.Int(v) if form == 1 else smt.Plus(s, smt.Int(3))
    asg = E.__dict__.setdefault('asg_z3', {})
    if kind == 'bv':
        s = z3.BitVec(sname, n)
        k = (0x5a5a5a5a3c6 >> (n % 5)) % (1 << n)
        asg[sname] = (s, z3.BitVecVal(v if form == 0 else v ^ k, n))
        return s if form == 0 else z3.BitVecVal(v, n) if form == 1 else s ^ z3.BitVecVal(k, n)
    s = z3.Bool(sname)
    asg[sname] = (s, z3.BoolVal(v if form == 0 else not v))
    return s if form == 0 else z3.BoolVal(v) if form == 1 else z3.Not(s)


# ------------------------------------------------------------------ families seen by specifications
class Lib:
    def __init__(self, lib, Bit, BV, UInt, SInt, Int=None):
        self.lib, self.Bit, self.BV, self.UInt, self.SInt, self.Int = lib, Bit, BV, UInt, SInt, Int
        self.bases = (BV, UInt, SInt)


SMT = Lib('smt', SM.SMTBit, SM.SMTBitVector, SM.SMTUIntVector, SM.SMTSIntVector, SI.SMTInt)
Z3 = Lib('z3', ZM.z3Bit, ZM.z3BitVector, ZM.z3UIntVector, ZM.z3SIntVector)
LIBS = {'smt': SMT, 'z3': Z3}


class Exp(Opaque):
    """expected: a bit-vector / bit / integer formula value with this denotation"""

    def __init__(self, F, kind, v, base=None, n=None):
        self.F, self.kind, self.v, self.base, self.n = F, kind, v, base, n

    def __repr__(self):
        if self.kind == 'bv':
            return f'{self.base.__name__}[{self.n}] denoting {self.v}'
        return f'{self.kind} denoting {self.v}'

    def cls(self):
        return {'bit': self.F.L.Bit, 'int': self.F.L.Int}.get(self.kind)

    def x_match(self, E, label, v):
        ob = E.p.oblige
        if not isinstance(v, SObj):
            ob(label + '/type', False)
            return
        want = SType(self.base, self.n) if self.kind == 'bv' else self.cls()
        ob(label + '/type', same_type(E.ip.lift(v.cls), want))
        f = E.ip.getattr(v, 'value')
        if not isinstance(f, Fm):
            ob(label + '/formula', False)
            return
        kind = {'bit': 'bool'}.get(self.kind, self.kind)
        ob(label + '/sort', f.sort.kind == kind if kind != 'bv' else (f.sort.kind == 'bv' and f.sort.same(Sort(f.lib, 'bv', self.n))))
        if f.sort.kind != kind:
            return
        if kind == 'bool':
            ob(label, M.IFF(f.den, self.v))
        else:
            ob(label, mkbool(term(f.den) == term(self.v)))

    def con_match(self, v):
        want = self.base[self.n] if self.kind == 'bv' else self.cls()
        if type(v) is not want:
            return False
        f = v.value
        if self.F.lib == 'smt':
            t = f.get_type()
            ok = t.is_bool_type() if self.kind == 'bit' else t.is_int_type() if self.kind == 'int' else \
                (t.is_bv_type() and t.width == self.n)
        else:
            ok = isinstance(f, z3.BoolRef) if self.kind == 'bit' else (isinstance(f, z3.BitVecRef) and f.size() == self.n)
        if not ok:
            return False
        r = evalf(self.F.E, self.F.lib, f)
        if self.kind == 'bit':
            return isinstance(r, bool) and r == bool(self.v)
        return r == int(self.v)


ConE.matchers.append((lambda e: isinstance(e, Exp), lambda v, e: e.con_match(v)))
ALLCLS = tuple(c for L in LIBS.values() for c in (L.Bit, L.BV, L.Int) if c is not None)
ConE.snapshots.append((lambda o: isinstance(o, ALLCLS), lambda o: (type(o), str(o.value), hash(o.value))))


class F:
    """E with vectors and bits of a formula library; specifications of bvdom apply unchanged"""

    def __init__(self, E, lib):
        self.E, self.L, self.lib = E, LIBS[lib], lib
        E.F = self

    def __getattr__(self, name):
        return getattr(self.E, name)

    # ---- inputs
    def formula(self, name, kind, n=None):
        E = self.E
        v = E.bool(name) if kind == 'bool' else E.uint(name, n) if kind == 'bv' else E.int(name)
        if E.symbolic:
            return Fm(self.lib, Sort(self.lib, kind, n), v)
        return con_formula(E, self.lib, name, kind, n, v)

    def bv(self, name, base, n):
        f = self.formula(name, 'bv', n)
        x = self.E.get(self.E.build(self.T(base, n), f))
        self.E.frame(x)
        return x

    def bit(self, name):
        x = self.E.get(self.E.build(self.L.Bit, self.formula(name, 'bool')))
        self.E.frame(x)
        return x

    def bit_list(self, name, n, wrap=None):
        """list of n bits with arbitrary values (and forms); wrap: a class whose
        instances hold a bit, used for an arbitrary subset of the elements"""
        E = self.E
        bs = E.bits(name, n, boolean=True)
        ws = E.bits(name + 'w', n, boolean=True) if wrap else None
        if E.symbolic:
            def el(i):
                x = E.ip.call(self.L.Bit, [Fm(self.lib, Sort(self.lib, 'bool'), bs.elem(i))])
                if wrap and E.ip.truth(ws.elem(i)):
                    x = E.ip.call(wrap, [x])
                return x
            return SSeq('list', n, el), bs
        out = []
        for i, b in enumerate(bs):
            x = E.get(E.build(self.L.Bit, con_formula(E, self.lib, f'{name}_{i}', 'bool', None, b)))
            out.append(wrap(x) if wrap and ws[i] else x)
        return out, bs

    def sint(self, name):
        x = self.E.get(self.E.build(self.L.Int, self.formula(name, 'int')))
        self.E.frame(x)
        return x

    def T(self, base, n):
        return SType(base, n) if self.E.symbolic else base[n]

    # ---- reading
    def isbv(self, x):
        if isinstance(x, Exp):
            return x.kind == 'bv'
        if isinstance(x, SObj):
            return isinstance(x.cls, SType) and issubclass(x.cls.base, self.L.BV)
        return isinstance(x, self.L.BV)

    def isbit(self, x):
        if isinstance(x, Exp):
            return x.kind == 'bit'
        if isinstance(x, SObj):
            return isinstance(x.cls, type) and issubclass(x.cls, self.L.Bit)
        return isinstance(x, self.L.Bit)

    def isint(self, x):
        if isinstance(x, SObj):
            return self.L.Int is not None and x.cls is self.L.Int
        return self.L.Int is not None and isinstance(x, self.L.Int)

    def den(self, x):
        if isinstance(x, Exp):
            return x.v
        if isinstance(x, SObj):
            f = self.E.ip.getattr(x, 'value')
            if not isinstance(f, Fm):
                raise Unsupported('value is not a formula')
            return f.den
        return evalf(self.E, self.lib, x.value)

    u = den
    b = den

    def size(self, x):
        if isinstance(x, Exp):
            return x.n
        return x.cls.size if isinstance(x, SObj) else x.size

    def base(self, x):
        if isinstance(x, Exp):
            return x.base
        return x.cls.base if isinstance(x, SObj) else type(x).unsized_t

    # ---- expected values
    def mkbv(self, base, n, u):
        return Exp(self, 'bv', u, base, n)

    def mkbit(self, b):
        return Exp(self, 'bit', b)

    def mkint(self, v):
        return Exp(self, 'int', v)

    def argkind(self, v):
        if self.isbv(v):
            return 'bv'
        if self.isbit(v):
            return 'bit'
        if self.isint(v):
            return 'sint'
        return self.E.argkind(v)

    def elem(self, x):
        """a list element as truth value"""
        if self.isbit(x):
            return self.den(x)
        return x != 0 if isintlike(x) and not isinstance(x, (bool, SBool)) else x

    def seqval(self, s):
        if isinstance(s, SSeq):
            return self.E.seqval(s)
        r = 0
        for i, x in enumerate(s):
            r = r + self.E.ite(self.elem(x), 1 << i, 0)
        return r


def construct(F_, base, n, v):
    """base[n](v) for non-formula v"""
    k = F_.argkind(v)
    if k == 'bv':
        w = F_.size(v)
        return F_.mkbv(base, n, M.mod2(F_.u(v), n))
    if k == 'bit':
        return F_.mkbv(base, n, F_.ite(F_.b(v), 1, 0))
    if k == 'seq':
        if F_.seqlen(v) != n:
            return Raises(ValueError)
        return F_.mkbv(base, n, F_.seqval(v))
    if k == 'bool' and not n < 1:
        return F_.mkbv(base, n, F_.ite(v, 1, 0))
    if k in ('int', 'bool'):
        val = v
    elif k == 'HasInt':
        val = v.attrs['v'] if isinstance(v, SObj) else v.v
    elif k == 'float':
        val = int(v)
    elif k in ('Plain', 'HasBool', 'none'):
        return Raises(TypeError)
    else:
        return MISSING
    return F_.mkbv(base, n, M.mod2(val, n))


def opnd(F_, x, v):
    """operand of a method of x"""
    if F_.isbv(v):
        if F_.size(v) == F_.size(x):
            return v
        return Raises(TypeError)
    return construct(F_, F_.base(x), F_.size(x), v)


def binop(name):
    tab = dict(UBIN)
    tab['bvsdiv'] = smtlib_sdiv
    smt_srem, z_srem = smtlib_srem, smtlib_smod

    def sp(F_, x, y):
        y = opnd(F_, x, y)
        if isinstance(y, Raises):
            return y
        n = F_.size(x)
        f = (smt_srem if F_.lib == 'smt' else z_srem) if name == 'bvsrem' else tab[name]
        return F_.mkbv(F_.base(x), n, M.mod2(f(F_, F_.u(x), F_.u(y), n), n))
    return sp


def cmpop(name):
    f = CMPS[name]

    def sp(F_, x, y):
        y = opnd(F_, x, y)
        if isinstance(y, Raises):
            return y
        return F_.mkbit(f(F_.u(x), F_.u(y), F_.size(x)))
    return sp


def bitval(F_, v):
    """Bit(v)"""
    k = F_.argkind(v)
    if k == 'bit':
        return F_.mkbit(F_.b(v))
    if k == 'bool':
        return F_.mkbit(v)
    if k == 'int':
        if v == 0:
            return F_.mkbit(False)
        if v == 1:
            return F_.mkbit(True)
        return Raises(ValueError)
    if k == 'HasBool':
        return F_.mkbit(v.attrs['v'] if isinstance(v, SObj) else v.v)
    if k == 'float':
        return F_.mkbit(bool(v))
    if k in ('Plain', 'HasInt'):
        return Raises(TypeError)
    return MISSING




def substituted(F_, v, cls, x, subs):
    """v has type cls and its formula is x's with exactly the given substitutions"""
    E = F_.E
    if not E.symbolic:
        if type(v) is not cls:
            return False
        return v.value is smt.simplify(x.value.substitute({a.value: b.value for a, b in subs}))
    if not isinstance(v, SObj) or not E.ip.truth(same_type(E.ip.lift(v.cls), E.ip.lift(cls))):
        return False
    f = lambda o: E.ip.getattr(o, 'value')
    p = getattr(f(v), 'prov', None)
    if not p or p[0] != 'substitute' or p[1] is not f(x):
        return False
    want = {}
    for a, b in subs:
        want[f(a)] = f(b)
    return set(p[2]) == set(want) and all(p[2][k] is want[k] for k in want)


def _bl(L):
    def is_(ip, v):
        return isinstance(v, SObj) and v.cls is L.Bit and isinstance(ip.getattr(v, 'value'), Fm)

    def mk(ip, b):
        return ip.call(L.Bit, [Fm(L.lib, Sort(L.lib, 'bool'), b)])
    return is_, (lambda ip, v: ip.getattr(v, 'value').den), mk


from . import loops as _loops
_loops.Loops.BITLIKE += [_bl(SMT), _bl(Z3)]

verify.EXTRA_DOMAINS.append(__import__('sys').modules[__name__])
