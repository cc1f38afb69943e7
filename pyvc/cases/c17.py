"""C17 Tuple and Product values are well-typed fixed records."""
from hwtypes.adt import Tuple, Product
from hwtypes.adt import AnonymousProduct
from ..spec import case, Raises
from ..adtdom import A
from ..adthelp import FA, FB, FC, P1, P2, P2s, P3, Named, Pm, Psub, AP2
from .. import smath as M


SHAPES = {'T1': Tuple[FA], 'T2': Tuple[FA, FB], 'T2s': Tuple[FA, FA], 'T3': Tuple[FB, FA, FC], 'T0': Tuple[()], 'Tn': Named, 'P1': P1,
          'P2': P2, 'P2s': P2s, 'P3': P3, 'AP2': AP2, 'Psub': Psub}
PRODUCTS = [k for k, v in SHAPES.items() if issubclass(v, AnonymousProduct)]
NONEMPTY = [k for k in SHAPES if k != 'T0']


def fields(C):
    return list(C.fields)


def allinst(a, vs, C):
    return M.AND(*[a.isinst(v, t) for v, t in zip(vs, fields(C))]) if vs else True


def typed(E, a, C, name='v'):
    vs = [a.some(f'{name}{i}', t) for i, t in enumerate(fields(C))]
    return vs, E.get(E.build(C, *vs))


def same(E, x, y):
    return E.is_(x, y)


def reads(E, C, r, vs, label=''):
    """the record r holds exactly vs"""
    for i, v in enumerate(vs):
        E.check(f'{label}item-{i}', same(E, E.get(E.getitem(r, i)), v))
    if issubclass(C, AnonymousProduct):
        for k, v in zip(C.field_dict, vs):
            E.check(f'{label}attr-{k}', same(E, E.get(E.attr(r, k)), v))
    E.check(f'{label}type', E.same_type(E.typeof(r), C))


@case('C17', 'construct', dict(shape=list(SHAPES)))
def construct(E, shape):
    a, C = A(E), SHAPES[shape]
    vs = [a.val(f'v{i}') for i, _ in enumerate(fields(C))]
    r = E.build(C, *vs)
    if allinst(a, vs, C):
        reads(E, C, E.get(r), vs)
    else:
        E.expect('rejects', r, Raises(TypeError))


@case('C17', 'arity', dict(shape=list(SHAPES), k=[0, 1, 2, 3, 4]))
def arity(E, shape, k):
    a, C = A(E), SHAPES[shape]
    vs = [a.val(f'v{i}') for i in range(k)]
    r = E.build(C, *vs)
    if k != len(fields(C)):
        E.expect('rejects', r, Raises(ValueError, TypeError))
    elif allinst(a, vs, C):
        reads(E, C, E.get(r), vs)


@case('C17', 'keywords', dict(shape=PRODUCTS, pos=[0, 1], rev=[False, True]))
def keywords(E, shape, pos, rev):
    a, C = A(E), SHAPES[shape]
    vs = [a.val(f'v{i}') for i, _ in enumerate(fields(C))]
    kw = dict(list(zip(C.field_dict, vs))[pos:])
    if rev:
        kw = dict(reversed(kw.items()))
    r = E.build(C, *vs[:pos], **kw)
    if allinst(a, vs, C):
        reads(E, C, E.get(r), vs)
    else:
        E.expect('rejects', r, Raises(TypeError))


@case('C17', 'bad-keywords', dict(shape=PRODUCTS, how=['missing', 'extra', 'twice']))
def bad_keywords(E, shape, how):
    a, C = A(E), SHAPES[shape]
    vs = [a.some(f'v{i}', t) for i, t in enumerate(fields(C))]
    kw = dict(zip(C.field_dict, vs))
    args = []
    if how == 'missing':
        kw.popitem()
    elif how == 'extra':
        kw['zz'] = vs[0]
    else:
        args = [vs[0]]
    E.expect('rejects', E.build(C, *args, **kw), Raises(TypeError, ValueError))


@case('C17', 'setitem', dict(shape=NONEMPTY, i=[0, 1, 2, -1]))
def setitem(E, shape, i):
    a, C = A(E), SHAPES[shape]
    n = len(fields(C))
    vs, r = typed(E, a, C)
    E.mutates(r)
    w = a.val('w')
    o = E.setitem(r, i, w)
    if not -n <= i < n:
        E.expect('rejects', o, Raises(IndexError))
    elif a.isinst(w, fields(C)[i]):
        E.get(o)
        vs[i] = w
    else:
        E.expect('rejects', o, Raises(TypeError))
    reads(E, C, r, vs, 'after-')
    r2 = E.get(E.build(C, *vs))
    E.check('equals-fresh', E.get(E.op('==', r, r2)))
    E.check('same-hash', E.get(E.op('==', E.get(E.builtin(hash, r)), E.get(E.builtin(hash, r2)))))


@case('C17', 'setattr', dict(shape=PRODUCTS, i=[0, 1, 2]))
def setattr_(E, shape, i):
    a, C = A(E), SHAPES[shape]
    n = len(fields(C))
    i = min(i, n - 1)
    vs, r = typed(E, a, C)
    E.mutates(r)
    w = a.val('w')
    o = E.setattr(r, list(C.field_dict)[i], w)
    if a.isinst(w, fields(C)[i]):
        E.get(o)
        vs[i] = w
    else:
        E.expect('rejects', o, Raises(TypeError))
    reads(E, C, r, vs, 'after-')
    r2 = E.get(E.build(C, *vs))
    E.check('equals-fresh', E.get(E.op('==', r, r2)))
    E.check('same-hash', E.get(E.op('==', E.get(E.builtin(hash, r)), E.get(E.builtin(hash, r2)))))


@case('C17', 'two-assignments', dict(shape=['T2', 'P2', 'P3', 'AP2']))
def two(E, shape):
    a, C = A(E), SHAPES[shape]
    vs, r = typed(E, a, C)
    E.mutates(r)
    for j, i in enumerate((1, 0, 1)):
        w = a.some(f'w{j}', fields(C)[i])
        E.get(E.setitem(r, i, w))
        vs[i] = w
    reads(E, C, r, vs)


@case('C17', 'equality', dict(shape=list(SHAPES)))
def equality(E, shape):
    a, C = A(E), SHAPES[shape]
    vs, r = typed(E, a, C, 'v')
    ws, s = typed(E, a, C, 'w')
    want = M.AND(*[a.eq(v, w) for v, w in zip(vs, ws)]) if vs else True
    E.check('eq', M.IFF(E.get(E.op('==', r, s)), want))
    E.check('ne', M.IFF(E.get(E.op('!=', r, s)), M.NOT(want)))
    if want:
        E.check('hash', E.get(E.op('==', E.get(E.builtin(hash, r)), E.get(E.builtin(hash, s)))))


@case('C17', 'foreign-equality', dict(pair=[('T2', 'T2s'), ('P2', 'P2s'), ('T3', 'T2'), ('P2', 'AP2'), ('T1', 'P2'), ('AP2', 'P3'), ('P3', 'T1')]))
def foreign(E, pair):
    """records of unrelated types are not equal"""
    a = A(E)
    _, r = typed(E, a, SHAPES[pair[0]], 'v')
    _, s = typed(E, a, SHAPES[pair[1]], 'w')
    E.check('eq', M.NOT(E.get(E.op('==', r, s))))
    E.check('ne', E.get(E.op('!=', r, s)))


@case('C17', 'compatible-equality', dict(pair=[('T2', 'P2'), ('T2', 'Tn'), ('AP2', 'T2')], flip=[False, True]))
def compatible(E, pair, flip):
    """types related by inheritance compare by their fields"""
    a = A(E)
    C, D = SHAPES[pair[0]], SHAPES[pair[1]]
    vs, r = typed(E, a, C, 'v')
    ws, s = typed(E, a, D, 'w')
    want = M.AND(*[a.eq(v, w) for v, w in zip(vs, ws)])
    if flip:
        r, s = s, r
    E.check('eq', M.IFF(E.get(E.op('==', r, s)), want))
    E.check('ne', M.IFF(E.get(E.op('!=', r, s)), M.NOT(want)))
    if want:
        E.check('hash', E.get(E.op('==', E.get(E.builtin(hash, r)), E.get(E.builtin(hash, s)))))


@case('C17', 'value-dict', dict(shape=list(SHAPES)))
def value_dict(E, shape):
    a, C = A(E), SHAPES[shape]
    vs, r = typed(E, a, C)
    d = E.get(E.attr(r, 'value_dict'))
    keys = list(C.field_dict)
    E.check('keys', E.get(E.call(list, d)) == keys)
    for k, v in zip(keys, vs):
        E.check(f'value-{k}', same(E, E.get(E.getitem(d, k)), v))
    r2 = E.get(E.call(C.from_values, d))
    reads(E, C, r2, vs, 'back-')
    E.check('equal', E.get(E.op('==', r, r2)))


@case('C17', 'from-values', dict(shape=list(SHAPES), rev=[False, True]))
def from_values(E, shape, rev):
    a, C = A(E), SHAPES[shape]
    vs = [a.val(f'v{i}') for i, _ in enumerate(fields(C))]
    d = dict(zip(C.field_dict, vs))
    if rev:
        d = dict(reversed(d.items()))
    r = E.call(C.from_values, d)
    if allinst(a, vs, C):
        r = E.get(r)
        reads(E, C, r, vs)
        d2 = E.get(E.attr(r, 'value_dict'))
        for k, v in zip(C.field_dict, vs):
            E.check(f'value-{k}', same(E, E.get(E.getitem(d2, k)), v))
    else:
        E.expect('rejects', r, Raises(TypeError))


@case('C17', 'from-values-keys', dict(shape=NONEMPTY, how=['missing', 'extra', 'other']))
def from_values_keys(E, shape, how):
    a, C = A(E), SHAPES[shape]
    vs = [a.some(f'v{i}', t) for i, t in enumerate(fields(C))]
    d = dict(zip(C.field_dict, vs))
    k = next(iter(d))
    if how != 'extra':
        v = d.pop(k)
    if how != 'missing':
        d['zz'] = vs[0]
    E.expect('rejects', E.call(C.from_values, d), Raises(ValueError, TypeError))


@case('C17', 'infer', dict(k=[1, 2, 3]))
def infer(E, k):
    """calling the unbound Tuple gives the record of the values' own classes"""
    a = A(E)
    vs = [E.obj(t) if E.symbolic else t(i) for i, t in enumerate((FA, FB, FC)[:k])]
    r = E.get(E.build(Tuple, *vs))
    E.check('type', E.same_type(E.typeof(r), Tuple[(FA, FB, FC)[:k]]))
    for i, v in enumerate(vs):
        E.check(f'item-{i}', same(E, E.get(E.getitem(r, i)), v))
