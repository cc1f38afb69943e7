"""C04 signed reading and operations."""
from ..spec import case, Raises
from ..bvdom import BASES, sp_bin, sp_cmp, sp_sint, sp_int, sp_ext
from .. import smath as M
from hwtypes.bit_vector import BitVector, UIntVector, SIntVector

SCMP = ['bvslt', 'bvsle', 'bvsgt', 'bvsge']


@case('C04', 'sint', dict(name=['as_sint', 'as_int'], base=BASES), verifies=['bv.as_sint'])
def as_sint(E, name, base):
    n = E.int('n', 1, kind='width')
    x = E.bv('x', base, n)
    u = E.u(x)
    E.expect(name, E.meth(x, name), E.ite(u >= M.pow2(n - 1), u - M.pow2(n), u))


@case('C04', 'compare', dict(op=SCMP, base=BASES), verifies=['bv.{op}'])
def compare(E, op, base):
    n = E.int('n', 1, kind='width')
    x, y = E.bv('x', base, n), E.bv('y', base, n)
    E.expect(op, E.meth(x, op, y), sp_cmp(op)(E, x, y))


@case('C04', 'divide', dict(op=['bvsdiv', 'bvsrem'], base=BASES), verifies=['bv.{op}'])
def divide(E, op, base):
    n = E.int('n', 1, kind='width')
    x, y = E.bv('x', base, n), E.bv('y', base, n)
    E.expect(op, E.meth(x, op, y), sp_bin(op)(E, x, y))


@case('C04', 'SIntVector-compare', dict(op=['<', '<=', '>', '>=', '==', '!=']))
def scmp(E, op):
    n = E.int('n', 1, kind='width')
    x, y = E.bv('x', SIntVector, n), E.bv('y', SIntVector, n)
    name = {'<': 'bvslt', '<=': 'bvsle', '>': 'bvsgt', '>=': 'bvsge', '==': 'bveq', '!=': 'bvne'}[op]
    E.expect(op, E.op(op, x, y), sp_cmp(name)(E, x, y))


@case('C04', 'SIntVector-arith', dict(op=['//', '%', '+', '-', '*', '&', '|', '^']))
def sarith(E, op):
    n = E.int('n', 1, kind='width')
    x, y = E.bv('x', SIntVector, n), E.bv('y', SIntVector, n)
    name = {'//': 'bvsdiv', '%': 'bvsrem', '+': 'bvadd', '-': 'bvsub', '*': 'bvmul', '&': 'bvand', '|': 'bvor',
            '^': 'bvxor'}[op]
    E.expect(op, E.op(op, x, y), sp_bin(name)(E, x, y))


@case('C04', 'int', dict(base=BASES), verifies=['bv.__int__'])
def toint(E, base):
    n = E.int('n', 1, kind='width')
    x = E.bv('x', base, n)
    E.expect('int', E.builtin(int, x), sp_int(E, x))


@case('C04', 'ext', dict(base=BASES), verifies=['bv.ext'])
def ext(E, base):
    n = E.int('n', 1, kind='width')
    x = E.bv('x', base, n)
    k = E.int('k', kind='amount')
    E.expect('ext', E.meth(x, 'ext', k), sp_ext(E, x, k))
