"""C06 add with carry, overflow."""
from ..spec import case, Raises
from ..bvdom import BASES, sp_adc
from .. import smath as M
from hwtypes.bit_vector import Bit, BitVector, UIntVector, SIntVector, overflow
from hwtypes import bit_vector as BVM
from hwtypes.bit_vector_abc import InconsistentSizeError


def carry(E, kind, base):
    if kind == 'bit':
        return E.bit('c')
    if kind == 'bool':
        return E.bool('c')
    if kind == 'int':
        return E.int('c', 0, 1)
    return E.bv('c', base, 1)


CK = ['bit', 'bool', 'int', 'bv']


@case('C06', 'adc', dict(base=BASES, kind=CK), verifies=['bv.adc'])
def adc(E, base, kind):
    n = E.int('n', 1, kind='width')
    x, y = E.bv('x', base, n), E.bv('y', base, n)
    c = carry(E, kind, base)
    E.expect('adc', E.meth(x, 'adc', y, c), sp_adc(E, x, y, c))


@case('C06', 'adc-sum', dict(base=BASES, kind=CK))
def adc_sum(E, base, kind):
    """s + 2^n cout = x + y + c"""
    n = E.int('n', 1, kind='width')
    x, y = E.bv('x', base, n), E.bv('y', base, n)
    c = carry(E, kind, base)
    cv = E.u(c) if kind == 'bv' else E.ite(E.b(c) if kind == 'bit' else (c if kind == 'bool' else c == 1), 1, 0)
    r = E.get(E.meth(x, 'adc', y, c))
    s, co = r
    E.check('sum', E.u(s) + E.ite(E.b(co), M.pow2(n), 0) == E.u(x) + E.u(y) + cv)


@case('C06', 'adc-int-operand', dict(base=BASES), verifies=['bv.adc'])
def adc_int(E, base):
    n = E.int('n', 1, kind='width')
    x, y = E.bv('x', base, n), E.int('y')
    c = E.bit('c')
    E.expect('adc', E.meth(x, 'adc', y, c), sp_adc(E, x, y, c))


@case('C06', 'adc-size', dict(base=BASES, kind=CK), verifies=['bv.adc'])
def adc_size(E, base, kind):
    n, m = E.int('n', 1, kind='width'), E.int('m', 1, kind='width')
    E.require(n != m)
    x, y = E.bv('x', base, n), E.bv('y', base, m)
    E.expect('rejects', E.meth(x, 'adc', y, carry(E, kind, base)), Raises(InconsistentSizeError))


@case('C06', 'adc-carry-size', dict(base=BASES), verifies=['bv.adc'])
def adc_csize(E, base):
    n, m = E.int('n', 1, kind='width'), E.int('m', 2, kind='width')
    x, y = E.bv('x', base, n), E.bv('y', base, n)
    E.expect('rejects', E.meth(x, 'adc', y, E.bv('c', base, m)), Raises(InconsistentSizeError))


@case('C06', 'overflow', dict(base=BASES))
def ovf(E, base):
    n = E.int('n', 1, kind='width')
    a, b, r = E.bv('a', base, n), E.bv('b', base, n), E.bv('r', base, n)
    h = M.pow2(n - 1)
    na, nb, nr = E.u(a) >= h, E.u(b) >= h, E.u(r) >= h
    E.expect('overflow', E.call(overflow, a, b, r), E.mkbit(E.AND(E.IFF(na, nb), E.XOR(na, nr))))


@case('C06', 'overflow-sum', dict(base=BASES))
def ovfsum(E, base):
    """overflow(a, b, a+b) iff the signed sum does not fit"""
    n = E.int('n', 1, kind='width')
    a, b = E.bv('a', base, n), E.bv('b', base, n)
    r = E.get(E.op('+', a, b))
    s = M.sgn(E.u(a), n) + M.sgn(E.u(b), n)
    h = M.pow2(n - 1)
    E.expect('overflow', E.call(overflow, a, b, r), E.mkbit(E.OR(s < -h, s >= h)))
