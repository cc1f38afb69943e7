"""C01 arithmetic, bitwise, unsigned comparisons."""
from ..spec import case
from ..bvdom import BASES, UBIN, CMPS, sp_bin, sp_cmp, sp_comp, sp_not, sp_neg
from hwtypes.bit_vector import BitVector, UIntVector

ARITH = ['bvand', 'bvor', 'bvxor', 'bvnand', 'bvnor', 'bvxnor', 'bvadd', 'bvsub', 'bvmul', 'bvudiv', 'bvurem']


@case('C01', 'binary', dict(op=ARITH, base=BASES), verifies=['bv.{op}'])
def binary(E, op, base):
    n = E.int('n', 1, kind='width')
    x, y = E.bv('x', base, n), E.bv('y', base, n)
    E.expect(op, E.meth(x, op, y), sp_bin(op)(E, x, y))


@case('C01', 'compare', dict(op=['bveq', 'bvne', 'bvult', 'bvule', 'bvugt', 'bvuge'], base=BASES), verifies=['bv.{op}'])
def compare(E, op, base):
    n = E.int('n', 1, kind='width')
    x, y = E.bv('x', base, n), E.bv('y', base, n)
    E.expect(op, E.meth(x, op, y), sp_cmp(op)(E, x, y))


@case('C01', 'comp', dict(base=BASES), verifies=['bv.bvcomp'])
def comp(E, base):
    n = E.int('n', 1, kind='width')
    x, y = E.bv('x', base, n), E.bv('y', base, n)
    E.expect('bvcomp', E.meth(x, 'bvcomp', y), sp_comp(E, x, y))


@case('C01', 'not', dict(base=BASES), verifies=['bv.bvnot'])
def bvnot(E, base):
    n = E.int('n', 1, kind='width')
    x = E.bv('x', base, n)
    E.expect('bvnot', E.meth(x, 'bvnot'), sp_not(E, x))
    E.expect('~', E.uop('~', x), sp_not(E, x))


@case('C01', 'neg', dict(base=BASES), verifies=['bv.bvneg'])
def bvneg(E, base):
    n = E.int('n', 1, kind='width')
    x = E.bv('x', base, n)
    E.expect('bvneg', E.meth(x, 'bvneg'), sp_neg(E, x))
    E.expect('-', E.uop('-', x), sp_neg(E, x))


INFIX = {'&': 'bvand', '|': 'bvor', '^': 'bvxor', '+': 'bvadd', '-': 'bvsub', '*': 'bvmul', '//': 'bvudiv',
         '%': 'bvurem'}
CINFIX = {'==': 'bveq', '!=': 'bvne', '<': 'bvult', '<=': 'bvule', '>': 'bvugt', '>=': 'bvuge'}


@case('C01', 'infix', dict(op=list(INFIX), base=[BitVector, UIntVector]))
def infix(E, op, base):
    n = E.int('n', 1, kind='width')
    x, y = E.bv('x', base, n), E.bv('y', base, n)
    E.expect(op, E.op(op, x, y), sp_bin(INFIX[op])(E, x, y))


@case('C01', 'infix-compare', dict(op=list(CINFIX), base=[BitVector, UIntVector]))
def infix_cmp(E, op, base):
    n = E.int('n', 1, kind='width')
    x, y = E.bv('x', base, n), E.bv('y', base, n)
    E.expect(op, E.op(op, x, y), sp_cmp(CINFIX[op])(E, x, y))
