"""C09 ite."""
from ..spec import case, Raises
from ..bvdom import BASES
from ..helpers import Plain, Proto1, Proto8, Proto8b, Proto33
from .. import smath as M
from hwtypes.bit_vector import Bit, BitVector, UIntVector, SIntVector

SELS = ['bit'] + list(BASES)


def select(E, sel):
    """(selector, its truth)"""
    if sel == 'bit':
        s = E.bit('s')
        return s, E.b(s)
    s = E.bv('s', sel, E.int('w', 1, kind='width'))
    return s, E.u(s) != 0


def leaf(E, kind, name, n):
    if kind == 'bit':
        return E.bit(name)
    if kind in PROTO:
        k = PROTO[kind]
        return E.obj(k, bv=E.bv(name, BitVector, k.T_.size))
    return E.bv(name, BY[kind], n)


BY = {'BV': BitVector, 'UV': UIntVector, 'SV': SIntVector, 'BVm': BitVector}
PROTO = {'P1': Proto1, 'P8': Proto8, 'P8b': Proto8b, 'P33': Proto33}


def tree(E, shape, name, n):
    if isinstance(shape, tuple):
        return tuple(tree(E, s, f'{name}_{i}', n) for i, s in enumerate(shape))
    return leaf(E, shape, name, n)


@case('C09', 'bits', dict(sel=SELS))
def bits(E, sel):
    s, c = select(E, sel)
    t, f = E.bit('t'), E.bit('f')
    E.expect('ite', E.meth(s, 'ite', t, f), E.mkbit(M.OR(M.AND(c, E.b(t)), M.AND(M.NOT(c), E.b(f)))))


@case('C09', 'vectors', dict(sel=SELS, base=BASES))
def vectors(E, sel, base):
    s, c = select(E, sel)
    n = E.int('n', 1, kind='width')
    t, f = E.bv('t', base, n), E.bv('f', base, n)
    E.expect('ite', E.meth(s, 'ite', t, f), E.mkbv(base, n, E.ite(c, E.u(t), E.u(f))))


def pick(E, c, t, f):
    if type(t) is tuple:
        return tuple(pick(E, c, a, b) for a, b in zip(t, f))
    return t if c else f


SHAPES = [(), ('bit',), ('BV',), ('SV', 'bit'), ('BV', 'UV', 'SV'), (('BV',), 'bit'), ((), 'bit', ()),
          ((('SV', 'bit'), 'UV'), ('BV', ('bit',))), (('bit', 'bit'), ('bit', 'bit')), ((((('BV',),),),),),
          ('P8', 'bit'), (('P8',), ('BV', 'P33'))]


@case('C09', 'tuples', dict(sel=['bit', BitVector], shape=SHAPES))
def tuples(E, sel, shape):
    """componentwise; shapes up to depth 5 (structure enumerated, values and widths symbolic)"""
    s, c = select(E, sel)
    n = E.int('n', 1, kind='width')
    t, f = tree(E, shape, 't', n), tree(E, shape, 'f', n)
    r = E.meth(s, 'ite', t, f)
    check(E, r, c, t, f, 'ite')


def check(E, r, c, t, f, label):
    if type(t) is tuple:
        v = E.get(r)
        E.check(label + '/tuple', type(v) is tuple and len(v) == len(t))
        for i, (a, x, y) in enumerate(zip(v, t, f)):
            check(E, a, c, x, y, f'{label}.{i}')
    elif is_proto(E, t):
        v = E.get(r)
        E.expect(label + '/type', E.typeof(v), E.typeof(t))
        E.expect(label + '/bv', E.attr(v, 'bv'), E.get(E.attr(t, 'bv')) if E.ite(c, True, False) else E.get(E.attr(f, 'bv')))
    else:
        E.expect(label, r, same_as(E, c, t, f))


def is_proto(E, t):
    return E.typeof(t) in PROTO.values()


def same_as(E, c, t, f):
    if E.isbit(t):
        return E.mkbit(M.OR(M.AND(c, E.b(t)), M.AND(M.NOT(c), E.b(f))))
    return E.mkbv(E.base(t), E.size(t), E.ite(c, E.u(t), E.u(f)))


@case('C09', 'protocol', dict(sel=SELS, kind=list(PROTO)))
def protocol(E, sel, kind):
    s, c = select(E, sel)
    t, f = leaf(E, kind, 't', 0), leaf(E, kind, 'f', 0)
    check(E, E.meth(s, 'ite', t, f), c, t, f, 'ite')


BADPAIRS = [('bit', 'BV'), ('BV', 'bit'), ('bit', ('bit',)), (('bit',), 'bit'), ('BV', ('BV',)), (('BV',), 'BV'),
            (('bit',), ('bit', 'bit')), ((), ('bit',)), (('bit', 'BV'), ('BV', 'bit')), (('bit', 'bit'), ('bit', ('bit',))),
            ((('bit',), 'BV'), (('bit', 'bit'), 'BV')), ('P8', 'BV'), ('BV', 'P8'), ('P8', 'P8b'), ('P8', ('P8',)),
            (('P8',), ('P33',)), ('bit', 'P1'), ('P1', 'bit')]


@case('C09', 'rejects-kinds', dict(sel=['bit', BitVector], pair=BADPAIRS))
def rejects(E, sel, pair):
    s, c = select(E, sel)
    n = E.int('n', 1, kind='width')
    E.expect('rejects', E.meth(s, 'ite', tree(E, pair[0], 't', n), tree(E, pair[1], 'f', n)), Raises(TypeError))


@case('C09', 'rejects-width', dict(sel=['bit', BitVector], a=BASES, b=BASES, depth=[0, 1, 2]))
def rejects_width(E, sel, a, b, depth):
    s, c = select(E, sel)
    n, m = E.int('n', 1, kind='width'), E.int('m', 1, kind='width')
    E.require(n != m)
    t, f = E.bv('t', a, n), E.bv('f', b, m)
    for _ in range(depth):
        t, f = (E.bit(f't{_}'), t), (E.bit(f'f{_}'), f)
    E.expect('rejects', E.meth(s, 'ite', t, f), Raises(TypeError))


@case('C09', 'rejects-values', dict(sel=['bit', BitVector], kind=['int', 'bool', 'None', 'str', 'list', 'Plain', 'mixed', 'intbit']))
def rejects_values(E, sel, kind):
    s, c = select(E, sel)
    t, f = {'int': lambda: (E.int('a'), E.int('b')), 'bool': lambda: (E.bool('a'), E.bool('b')), 'None': lambda: (None, None),
            'str': lambda: ('a', 'a'), 'list': lambda: ([E.bit('a')], [E.bit('b')]), 'Plain': lambda: (E.obj(Plain), E.obj(Plain)),
            'mixed': lambda: ((E.bit('a'), 1), (E.bit('b'), 1)), 'intbit': lambda: (E.bit('a'), 1)}[kind]()
    E.expect('rejects', E.meth(s, 'ite', t, f), Raises(TypeError))
