"""C05 structure: concat, slices, index, update, extension, repeat."""
from ..spec import case, Raises, BitList, Pred
from ..bvdom import BASES, sp_concat, sp_getitem, sp_zext, sp_sext, sp_repeat, sp_int, sp_uint, sp_sint
from ..helpers import Plain
from .. import smath as M
from hwtypes.bit_vector import Bit, BitVector, UIntVector, SIntVector


@case('C05', 'concat', dict(base=BASES), verifies=['bv.concat'])
def concat(E, base):
    x = E.bv('x', base, E.int('n', 0, kind='width'))
    y = E.bv('y', base, E.int('m', 0, kind='width'))
    E.expect('concat', E.meth(x, 'concat', y), sp_concat(E, x, y))


@case('C05', 'concat-foreign', dict(base=BASES, other=['int', 'Bit', 'list', 'None', 'foreign']), verifies=['bv.concat'])
def concat_foreign(E, base, other):
    x = E.bv('x', base, E.int('n', 0, kind='width'))
    if other == 'int':
        y = E.int('v')
    elif other == 'Bit':
        y = E.bit('v')
    elif other == 'list':
        y = [0, 1]
    elif other == 'None':
        y = None
    else:
        B = {UIntVector: SIntVector, SIntVector: UIntVector, BitVector: None}[base]
        if B is None:
            y = E.obj(Plain)
        else:
            y = E.bv('y', B, E.int('m', 0, kind='width'))
    E.expect('rejects', E.meth(x, 'concat', y), Raises(TypeError))


@case('C05', 'index', dict(base=BASES), verifies=['bv.__getitem__'])
def index(E, base):
    n = E.int('n', 0, kind='width')
    x = E.bv('x', base, n)
    i = E.int('i', kind='amount')
    E.expect('index', E.getitem(x, i), sp_getitem(E, x, i))


@case('C05', 'index-type', dict(base=BASES, idx=[None, 1.0, '0', (0,)]), verifies=['bv.__getitem__'])
def index_type(E, base, idx):
    n = E.int('n', 0, kind='width')
    x = E.bv('x', base, n)
    E.expect('index', E.getitem(x, idx), Raises(TypeError))


SL = ['None', 'int']


@case('C05', 'slice', dict(base=BASES, lo=SL, hi=SL), verifies=['bv.__getitem__'])
def slices(E, base, lo, hi):
    n = E.int('n', 0, kind='width')
    x = E.bv('x', base, n)
    a = None if lo == 'None' else E.int('a', kind='amount')
    b = None if hi == 'None' else E.int('b', kind='amount')
    E.expect('slice', E.getitem(x, slice(a, b)), sp_getitem(E, x, slice(a, b)))


@case('C05', 'slice-step', dict(base=BASES, lo=SL, hi=SL, step=[1, 2, -1]), inline=['bv.__getitem__'])
def slicestep(E, base, lo, hi, step):
    n = E.int('n', 0, kind='width')
    x = E.bv('x', base, n)
    a = None if lo == 'None' else E.int('a', kind='amount')
    b = None if hi == 'None' else E.int('b', kind='amount')
    s = slice(a, b, step)
    E.expect('slice', E.getitem(x, s), sp_getitem(E, x, s))


@case('C05', 'slice-anystep', dict(base=BASES, lo=SL, hi=SL), verifies=['bv.__getitem__'])
def sliceanystep(E, base, lo, hi):
    n = E.int('n', 0, kind='width')
    x = E.bv('x', base, n)
    a = None if lo == 'None' else E.int('a', kind='amount')
    b = None if hi == 'None' else E.int('b', kind='amount')
    c = E.int('c', kind='amount')
    s = slice(a, b, c)
    E.expect('slice', E.getitem(x, s), sp_getitem(E, x, s))


def updated(E, u, i, b):
    """u with bit i set to b"""
    old = M.bit(u, i)
    if E.ite(old, True, False) == E.ite(b, True, False):
        return u
    return u + M.pow2(i) if E.ite(b, True, False) else u - M.pow2(i)


@case('C05', 'setitem', dict(base=BASES, kind=['bit', 'bool', 'int']))
def setitem(E, base, kind):
    n = E.int('n', 1, kind='width')
    x = E.bv('x', base, n)
    u = E.u(x)
    E.mutates(x)
    i = E.int('i', kind='amount')
    if kind == 'bit':
        v = E.bit('v')
        b = E.b(v)
    elif kind == 'bool':
        v = b = E.bool('v')
    else:
        v = E.int('v')
        if v != 0 and v != 1:
            E.expect('rejects', E.setitem(x, i, v), Raises(ValueError))
            E.expect('unchanged', x, E.mkbv(base, n, u))
            return
        b = v == 1
    r = E.setitem(x, i, v)
    if i < -n:
        E.expect('range', r, Raises(IndexError))
        E.expect('unchanged', x, E.mkbv(base, n, u))
        return
    if i >= n:
        E.expect('range', r, Raises(IndexError))
        E.expect('unchanged', x, E.mkbv(base, n, u))
        return
    E.expect('assign', r, None)
    j = E.ite(i < 0, i + n, i)
    E.expect('only bit i', x, E.mkbv(base, n, updated(E, u, j, b)))


@case('C05', 'setitem-rejects', dict(base=BASES, kind=['None', 'str', 'float', 'list', 'Plain']))
def setitem_bad(E, base, kind):
    n = E.int('n', 1, kind='width')
    x = E.bv('x', base, n)
    i = E.int('i', 0, n - 1, kind='amount')
    v = {'None': None, 'str': '1', 'float': 2.0, 'list': [1], 'Plain': None}[kind]
    if kind == 'Plain':
        v = E.obj(Plain)
    E.expect('rejects', E.setitem(x, i, v), Raises(ValueError))


@case('C05', 'extend', dict(op=['zext', 'sext'], base=BASES), verifies=['bv.{op}'])
def extend(E, op, base):
    n = E.int('n', 1, kind='width')
    x = E.bv('x', base, n)
    k = E.int('k', kind='amount')
    E.expect(op, E.meth(x, op, k), {'zext': sp_zext, 'sext': sp_sext}[op](E, x, k))


@case('C05', 'zext-empty', dict(base=BASES), verifies=['bv.zext'])
def zext0(E, base):
    x = E.bv('x', base, 0)
    k = E.int('k', 0, kind='amount')
    E.expect('zext', E.meth(x, 'zext', k), E.mkbv(base, k, 0))


@case('C05', 'extend-readings', dict(op=['zext', 'sext'], base=BASES))
def readings(E, op, base):
    """the reading is preserved"""
    n = E.int('n', 1, kind='width')
    x = E.bv('x', base, n)
    k = E.int('k', 0, kind='amount')
    y = E.get(E.meth(x, op, k))
    if op == 'zext':
        E.expect('unsigned', E.meth(y, 'as_uint'), E.get(E.meth(x, 'as_uint')))
    else:
        E.expect('signed', E.meth(y, 'as_sint'), E.get(E.meth(x, 'as_sint')))


@case('C05', 'repeat', dict(base=BASES), verifies=['bv.repeat'])
def repeat(E, base):
    n = E.int('n', 1, kind='width')
    x = E.bv('x', base, n)
    r = E.int('r', kind='amount')
    E.expect('repeat', E.meth(x, 'repeat', r), sp_repeat(E, x, r))


@case('C05', 'concat-index', dict(base=[BitVector]))
def concat_index(E, base):
    """bits of a concatenation come from x below |x| and from y above"""
    n, m = E.int('n', 1, kind='width'), E.int('m', 1, kind='width')
    x, y = E.bv('x', base, n), E.bv('y', base, m)
    i = E.int('i', 0, n + m - 1, kind='amount')
    r = E.get(E.meth(x, 'concat', y))
    if i < n:
        E.expect('low', E.getitem(r, i), E.mkbit(M.bit(E.u(x), i)))
    else:
        E.expect('high', E.getitem(r, i), E.mkbit(M.bit(E.u(y), i - n)))


@case('C05', 'concat-slices', dict(base=[BitVector, SIntVector]))
def concat_slices(E, base):
    """slicing a concatenation gives the operands back"""
    n, m = E.int('n', 1, kind='width'), E.int('m', 1, kind='width')
    x, y = E.bv('x', base, n), E.bv('y', base, m)
    r = E.get(E.meth(x, 'concat', y))
    E.expect('low', E.getitem(r, slice(None, n)), x)
    E.expect('high', E.getitem(r, slice(n, None)), y)
