"""C08 coercion and dispatch (concrete family)."""
from ..spec import case, Raises
from ..bvdom import BASES, UBIN, CMPS, sp_bin, sp_cmp, sp_comp, sp_construct, sp_coerce_fn
from ..helpers import HasInt, HasBool, Plain
from .. import smath as M
from hwtypes import bit_vector as BVM
from hwtypes.bit_vector import Bit, BitVector, UIntVector, SIntVector
from hwtypes.bit_vector_abc import InconsistentSizeError
from .c02 import arg

NAMED = list(UBIN) + list(CMPS) + ['bvcomp']
INF = {'&': 'bvand', '|': 'bvor', '^': 'bvxor', '+': 'bvadd', '-': 'bvsub', '*': 'bvmul', '//': 'bvudiv',
       '%': 'bvurem', '<<': 'bvshl', '>>': 'bvlshr'}
SINF = {**INF, '//': 'bvsdiv', '%': 'bvsrem', '>>': 'bvashr'}
CINF = {'==': 'bveq', '!=': 'bvne', '<': 'bvult', '<=': 'bvule', '>': 'bvugt', '>=': 'bvuge'}
SCINF = {'==': 'bveq', '!=': 'bvne', '<': 'bvslt', '<=': 'bvsle', '>': 'bvsgt', '>=': 'bvsge'}


def spec_of(name):
    return sp_bin(name) if name in UBIN else (sp_cmp(name) if name in CMPS else sp_comp)


def infix_spec(base, op):
    t = {**(SINF if base is SIntVector else INF), **(SCINF if base is SIntVector else CINF)}
    return spec_of(t[op])


@case('C08', 'named-coerces', dict(op=NAMED, kind=['int', 'bit', 'list01', 'HasInt'], base=BASES), verifies=['bv.{op}'])
def named(E, op, kind, base):
    n = E.int('n', 1, kind='width')
    x = E.bv('x', base, n)
    v = arg(E, kind, base)
    E.expect(op, E.meth(x, op, v), spec_of(op)(E, x, sp_construct(E, base, n, v)))


@case('C08', 'named-size', dict(op=NAMED, base=BASES), verifies=['bv.{op}'])
def named_size(E, op, base):
    n, m = E.int('n', 1, kind='width'), E.int('m', 1, kind='width')
    E.require(n != m)
    x, y = E.bv('x', base, n), E.bv('y', base, m)
    E.expect(op, E.meth(x, op, y), Raises(InconsistentSizeError))


@case('C08', 'infix-coerces', dict(op=list(INF) + list(CINF), kind=['int', 'bool', 'bit', 'list01', 'HasInt'], base=BASES))
def infix(E, op, kind, base):
    n = E.int('n', 1, kind='width')
    x = E.bv('x', base, n)
    v = arg(E, kind, base)
    E.expect(op, E.op(op, x, v), infix_spec(base, op)(E, x, sp_construct(E, base, n, v)))


@case('C08', 'infix-size', dict(op=list(INF) + list(CINF), base=BASES, other=BASES))
def infix_size(E, op, base, other):
    n, m = E.int('n', 1, kind='width'), E.int('m', 1, kind='width')
    E.require(n != m)
    x, y = E.bv('x', base, n), E.bv('y', other, m)
    E.expect(op, E.op(op, x, y), Raises(InconsistentSizeError))


@case('C08', 'infix-reflected', dict(op=list(INF), kind=['int', 'bool', 'list01', 'HasInt', 'bit'], base=BASES))
def reflected(E, op, kind, base):
    if kind == 'bit' and op in '&|^':
        return E.check('n/a', True)
    n = E.int('n', 1, kind='width')
    x = E.bv('x', base, n)
    v = arg(E, kind, base)
    E.expect(op, E.op(op, v, x), infix_spec(base, op)(E, sp_construct(E, base, n, v), x))


@case('C08', 'compare-reflected', dict(op=list(CINF), kind=['int', 'list01', 'HasInt'], base=BASES))
def cmp_reflected(E, op, kind, base):
    n = E.int('n', 1, kind='width')
    x = E.bv('x', base, n)
    v = arg(E, kind, base)
    E.expect(op, E.op(op, v, x), infix_spec(base, op)(E, sp_construct(E, base, n, v), x))


def bad(E, kind):
    return E.obj(Plain) if kind == 'Plain' else {'None': None, 'dict': {}, 'complex': 2j}[kind]


@case('C08', 'infix-rejects', dict(op=list(INF) + ['<', '<=', '>', '>='], kind=['None', 'Plain', 'dict', 'complex'], base=BASES))
def rejects(E, op, kind, base):
    n = E.int('n', 1, kind='width')
    x = E.bv('x', base, n)
    E.expect(op, E.op(op, x, bad(E, kind)), Raises(TypeError))
    E.expect(op + ' reflected', E.op(op, bad(E, kind), x), Raises(TypeError))


@case('C08', 'eq-identity', dict(op=['==', '!='], kind=['None', 'Plain', 'dict'], base=BASES))
def eqid(E, op, kind, base):
    n = E.int('n', 1, kind='width')
    x = E.bv('x', base, n)
    E.expect(op, E.op(op, x, bad(E, kind)), op == '!=')
    E.expect(op + ' reflected', E.op(op, bad(E, kind), x), op == '!=')


@case('C08', 'named-rejects', dict(op=NAMED, kind=['None', 'Plain'], base=BASES))
def named_rejects(E, op, kind, base):
    n = E.int('n', 1, kind='width')
    x = E.bv('x', base, n)
    E.expect(op, E.meth(x, op, bad(E, kind)), Raises(TypeError))


@case('C08', '_coerce', dict(kind=['int', 'bool', 'bit', 'BitVector', 'UIntVector', 'SIntVector', 'list01', 'HasInt'], base=BASES),
      verifies=['bv._coerce'])
def coerce(E, kind, base):
    f = getattr(BVM, '_coerce', None)
    n = E.int('n', 0, kind='width')
    v = arg(E, kind, base)
    if f is None:
        return E.check('n/a', True)
    E.expect('_coerce', E.call(f, E.T(base, n), v), sp_coerce_fn(E, E.T(base, n), v))
