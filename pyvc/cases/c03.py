"""C03 shifts and rotates."""
from ..spec import case, Raises, Pred
from ..bvdom import BASES, sp_bin
from .. import smath as M
from hwtypes.bit_vector import BitVector, UIntVector, SIntVector


@case('C03', 'shift', dict(op=['bvshl', 'bvlshr', 'bvashr', 'bvrol', 'bvror'], base=BASES), verifies=['bv.{op}'])
def shift(E, op, base):
    n = E.int('n', 1, kind='width')
    x, k = E.bv('x', base, n), E.bv('k', base, n)
    E.expect(op, E.meth(x, op, k), sp_bin(op)(E, x, k))


@case('C03', 'infix', dict(op=['<<', '>>'], base=BASES))
def infix(E, op, base):
    n = E.int('n', 1, kind='width')
    x, k = E.bv('x', base, n), E.bv('k', base, n)
    name = 'bvshl' if op == '<<' else ('bvashr' if base is SIntVector else 'bvlshr')
    E.expect(op, E.op(op, x, k), sp_bin(name)(E, x, k))


@case('C03', 'rotate-inverse', dict(base=BASES))
def rotinv(E, base):
    """rol(x, k) = ror(x, n - k) for 0 <= k <= n (amounts as n-bit vectors)"""
    n = E.int('n', 1, kind='width')
    x = E.bv('x', base, n)
    k = E.int('k', 0, n, kind='amount')
    E.require(n < M.pow2(n))
    a = E.get(E.meth(x, 'bvrol', E.mkbv(base, n, M.mod2(k, n))))
    b = E.get(E.meth(x, 'bvror', E.mkbv(base, n, M.mod2(n - k, n))))
    E.expect('rol(x,k) is ror(x,n-k)', a, b)


@case('C03', 'rotate-bits', dict(op=['bvrol', 'bvror'], base=[BitVector]))
def rotbits(E, op, base):
    """bit i of the rotation is bit (i -/+ k) mod n of x"""
    n = E.int('n', 1, kind='width')
    x, k = E.bv('x', base, n), E.bv('k', base, n)
    i = E.int('i', 0, n - 1, kind='amount')
    r = E.get(E.meth(x, op, k))
    m = M.fmod(E.u(k), n)
    src = (E.ite(i >= m, i - m, i - m + n)) if op == 'bvrol' else E.ite(i + m < n, i + m, i + m - n)
    E.expect('bit', E.getitem(r, i), E.mkbit(M.bit(E.u(x), src)))


@case('C03', 'amount-as-int', dict(op=['bvshl', 'bvlshr', 'bvashr', 'bvrol', 'bvror'], base=[BitVector, SIntVector]))
def asint(E, op, base):
    n = E.int('n', 1, kind='width')
    x, k = E.bv('x', base, n), E.int('k', 0)
    E.require(k < M.pow2(n))
    E.expect(op, E.meth(x, op, k), sp_bin(op)(E, x, E.mkbv(base, n, k)))
