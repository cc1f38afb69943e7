"""C21 ADT types are determined by their definition."""
import gc
import itertools
from hwtypes.adt import Tuple, Product, AnonymousProduct, Sum, TaggedUnion, Enum, new_instruction
from hwtypes.adt_meta import ReservedNameError, RESERVED_NAMES, RESERVED_SUNDERS
from hwtypes import BitVector
from ..spec import case, Raises
from ..adthelp import FA, FB, FC, FA2
from ..adtgen import Gen
from ..binddom import Bd
from .. import smath as M

F = [FA, FB, FC, BitVector[2]]
BOUND = 'histories of at most 6 requests of at most 9 fields over 4 field types, 9 field names and 2 class names, with drops and collections'
GET = {'tuple': Tuple, 'sum': Sum, 'anon': AnonymousProduct}
ATTR = {'product': Product, 'union': TaggedUnion, 'enum': Enum}


class MyTuple(Tuple):
    pass


class MySum(Sum):
    pass


class MyProduct(Product):
    pass


class MyUnion(TaggedUnion):
    pass


SUBS = {'tuple': MyTuple, 'sum': MySum, 'product': MyProduct, 'union': MyUnion}


def request(g, kinds):
    """a definition, as plain data"""
    k = g.pick(kinds)
    sub = k in SUBS and g.pick([0, 0, 1])
    n = g.pick([1, 2, 3, 1, 2, 3, 4, 5, 6, 9])
    pool = [0, 1, 2, 3, 40] if k == 'enum' else F
    pool = pool if g.pick([1, 1, 0]) else [g.pick(pool)]
    vals = [g.pick(pool) for _ in range(n)]
    if k in ('tuple', 'sum'):
        return (k, sub, tuple(vals))
    names = list('abc' if n <= 3 else 'abcdefghi'[:n])
    keys = [names.pop(g.pick(range(len(names)))) for _ in range(n)]
    fs = tuple(zip(keys, vals))
    if k == 'anon':
        return (k, 0, fs)
    how = g.pick(['class', 'from_fields'])
    attrs = g.pick(ATTR_SETS) if how == 'class' else ()
    return (k, sub, fs, g.pick(['Ca', 'Cb']), attrs, g.pick([True, True, False]), how)


def near(g, d):
    """a definition that differs from d in one place"""
    what = g.pick(['field', 'less'] + (['base'] if d[0] in SUBS else []) + (['name', 'attrs', 'attrs', 'attrs', 'how'] if d[0] in ATTR else []))
    d = list(d)
    i = g.pick(range(len(d[2])))
    fs = list(d[2])
    if what == 'base':
        d[1] = not d[1]
    elif what == 'name':
        d[3] = g.pick(['Ca', 'Cb'])
    elif what == 'attrs' and d[6] == 'class':
        d[4] = g.pick(ATTR_SETS)
    elif what == 'how' and not d[4]:
        d[6] = g.pick(['class', 'from_fields'])
    elif what == 'less' and len(fs) > 1:
        del fs[i]
    elif d[0] in ('tuple', 'sum'):
        fs[i] = g.pick(F)
    else:
        fs[i] = (fs[i][0], g.pick([0, 1, 2] if d[0] == 'enum' else F))
    d[2] = tuple(fs)
    return tuple(d)


ATTR_SETS = [(), (), ('extra',), ('extra2',), ('extra3',), ('call1',), ('call2',), ('doc',)]
ATTRS = {'extra': ('extra', 'attribute'), 'extra2': ('extra', 'another'), 'extra3': ('extra', 3.5), 'call1': ('__call__', lambda self: 1), 'call2': ('__call__', lambda self: 2), 'doc': ('__doc__', 'text')}


def base(d):
    return (SUBS if d[1] else {**GET, **ATTR})[d[0]]


def make(d):
    B = base(d)
    if d[0] in ('tuple', 'sum'):
        return B[d[2]] if len(d[2]) > 1 else B[d[2][0]]
    if d[0] == 'anon':
        return B[dict(d[2])]
    k, _, fs, name, attrs, cache, how = d
    if how == 'from_fields':
        return B.from_fields(name, dict(fs), cache=None if cache else False)
    ns = dict(fs)
    for a in attrs:
        ns[ATTRS[a][0]] = ATTRS[a][1]
    return type(B)(name, (B,), ns, **({} if cache else {'cache': False}))


def key(d):
    """the identity of the definition; None for a type that is always new"""
    k = d[0]
    if k == 'sum':
        return (k, d[1], frozenset(d[2]))
    if k in ('tuple', 'anon'):
        return d[:3]
    if not d[5]:
        return None
    fs = d[2] if k == 'product' else frozenset(d[2])
    return (k, d[1], fs, d[3], tuple(a for a in d[4] if a != 'doc'))


def describe(E, T, d):
    """fields, field_dict and unbound_t say what was declared"""
    k, B = d[0], base(d)
    E.check('bound', T.is_bound and not B.is_bound)
    E.check('unbound', T.unbound_t is B)
    E.check('subclass', issubclass(T, B) and T is not B and issubclass(T, {**GET, **ATTR}[k]))
    if k == 'tuple':
        E.check('fields', tuple(T.fields) == d[2] and dict(T.field_dict) == dict(enumerate(d[2])) and list(T.field_dict) == list(range(len(d[2]))))
        E.check('index', all(T[i] is t for i, t in enumerate(d[2])))
    elif k == 'sum':
        E.check('fields', set(T.fields) == set(d[2]) and len(list(T.fields)) == len(set(d[2])))
        E.check('dict', dict(T.field_dict) == {t: t for t in d[2]})
        E.check('contains', all(t in T and T[t] is t for t in d[2]) and all((t in T) == (t in d[2]) for t in F))
    elif k == 'enum':
        m = T.field_dict
        E.check('members', {x: y._value_ for x, y in m.items()} == dict(d[2]) and set(T.fields) == set(m.values()) and len(T.fields) == len(m))
        E.check('names', T.__name__ == d[3] and all(y.name == x and type(y) is T and getattr(T, x) is y for x, y in m.items()))
    else:
        want = list(d[2])
        got = list(T.field_dict.items())
        if k == 'union':
            E.check('dict', dict(got) == dict(want) and len(got) == len(want))
            E.check('fields', set(T.fields) == {t for _, t in want})
        else:
            E.check('dict', got == want)
            E.check('fields', tuple(T.fields) == tuple(t for _, t in want))
        E.check('attr', all(getattr(T, x) is t for x, t in want))
        if k != 'anon':
            E.check('name', T.__name__ == d[3])
    if k in ATTR:
        E.check('cached', T.is_cached == d[5])
        E.check('extra', all(T.__dict__[ATTRS[a][0]] is ATTRS[a][1] for a in d[4] if a != 'doc') and any(a.startswith('extra') for a in d[4]) == hasattr(T, 'extra'))


@case('C21', 'history', dict(kinds=['get', 'attr', 'all']), bounded=BOUND)
def history(E, kinds):
    g = Gen(E, [])
    ks = list({'get': GET, 'attr': ATTR, 'all': {**GET, **ATTR}}[kinds])
    alive = []
    reqs = []
    for i in range(g.pick([2, 3, 4, 6])):
        if reqs and g.pick([0, 1]):
            d = g.pick(reqs)
            if d[0] in ('sum',) and g.pick([0, 1]):
                d = (d[0], d[1], d[2][::-1])
            elif d[0] in ('union', 'enum') and g.pick([0, 1]):
                d = (d[0], d[1], d[2][::-1], *d[3:])
            elif g.pick([0, 1, 1]):
                d = near(g, d)
        else:
            d = request(g, ks)
        reqs.append(d)
        T = make(d)
        E.note('request', repr(d))
        describe_loose(E, T, d, alive)
        for d2, T2 in alive:
            same = key(d) is not None and key(d) == key(d2)
            E.check('same-iff-same-definition', (T is T2) == same)
            E.check('equality', (T == T2) == same)
        alive.append((d, T))
        if g.pick([0, 0, 0, 1]):
            alive.pop(g.pick(range(len(alive))))
            T = None
            if g.pick([0, 0, 0, 0, 0, 0, 0, 1]):
                gc.collect()


def describe_loose(E, T, d, alive):
    """an unordered declaration may have been made first in another order"""
    if d[0] == 'union':
        fs = dict(d[2])
        d = (*d[:2], tuple((k, fs[k]) for k in T.field_dict if k in fs) + tuple((k, v) for k, v in d[2] if k not in T.field_dict), *d[3:])
    describe(E, T, d)


@case('C21', 'order', dict(k=['tuple', 'anon', 'product', 'sum', 'union', 'enum']), bounded='every permutation of three fields')
def order(E, k):
    g = Gen(E, [])
    p, q = (g.pick(list(itertools.permutations(range(3)))) for _ in range(2))
    ts = [FA, FB, FC]
    mk = {'tuple': lambda p: Tuple[tuple(ts[i] for i in p)], 'sum': lambda p: Sum[tuple(ts[i] for i in p)],
          'anon': lambda p: AnonymousProduct[{'abc'[i]: ts[i] for i in p}],
          'product': lambda p: Product.from_fields('Ord', {'abc'[i]: ts[i] for i in p}),
          'union': lambda p: TaggedUnion.from_fields('Ord', {'abc'[i]: ts[i] for i in p}),
          'enum': lambda p: Enum.from_fields('Ord', {'abc'[i]: i for i in p})}[k]
    A, B = mk(p), mk(q)
    E.check('identity', (A is B) == (p == q or k in ('sum', 'union', 'enum')))


@case('C21', 'rebinding-rejected', {}, bounded='bound types of every kind')
def rebinding(E):
    g = Gen(E, [])
    d = request(g, ['tuple', 'sum', 'anon', 'product', 'union', 'enum'])
    T = make(d)
    E.note('type', repr(d))
    if d[0] in ('tuple', 'sum', 'anon'):
        for f in (lambda: T._from_idx((FA,)), lambda: T[(FA2,)]):
            try:
                f()
                E.check('rejected', False)
            except (TypeError, KeyError):
                pass
    else:
        try:
            T.from_fields('X', {'a': FA} if d[0] != 'enum' else {'a': 0})
            E.check('rejected', False)
        except TypeError:
            pass
        if d[0] in ('product', 'union'):
            try:
                base(d)[FA]
                E.check('getitem-rejected', False)
            except TypeError:
                pass


@case('C21', 'reserved', dict(name=sorted(RESERVED_NAMES) + sorted(RESERVED_SUNDERS), k=['product', 'union', 'enum'], how=['class', 'from_fields']),
      bounded='every reserved name, every declaration form')
def reserved(E, name, k, how):
    B = ATTR[k]
    v, w = (0, 1) if k == 'enum' else (FA, FB)
    fs = {'a': w, name: v} if E.pick('first', [0, 1]) else {name: v, 'a': w}
    try:
        if how == 'class':
            type(B)('R', (B,), fs)
        else:
            B.from_fields('R', fs)
        E.check('rejected', False)
    except ReservedNameError:
        pass


@case('C21', 'subtyping', {}, bounded='one chain of unbound types a kind')
def subtyping(E):
    g = Gen(E, [])
    ts = tuple(g.pick(F) for _ in range(g.pick([1, 2, 3])))

    class Deep(MyTuple):
        pass
    E.check('tuple', issubclass(MyTuple[ts], Tuple[ts]) and issubclass(Deep[ts], MyTuple[ts]) and issubclass(Deep[ts], Tuple[ts]) and issubclass(Deep[ts], Deep))
    us = tuple(g.pick(F) for _ in range(g.pick([1, 2, 3])))
    E.check('tuple-other', issubclass(Deep[ts], Tuple[us]) == (ts == us) and not issubclass(Tuple[ts], MyTuple[ts]) and not issubclass(MyTuple[ts], Deep))
    E.check('sum', issubclass(MySum[ts], Sum[ts]) and issubclass(MySum[ts], Sum[us]) == (set(ts) == set(us)) and not issubclass(Sum[ts], MySum))
    fs = dict(zip('abc', ts))
    P = Product.from_fields('Sub', fs)
    E.check('product', issubclass(P, AnonymousProduct[fs]) and issubclass(P, Tuple[ts]) and issubclass(P, Tuple[us]) == (ts == us))
    E.check('anon', issubclass(AnonymousProduct[fs], Tuple[ts]) and not issubclass(Tuple[ts], AnonymousProduct))
    Q = MyProduct.from_fields('Sub', fs)
    E.check('my-product', issubclass(Q, MyProduct) and issubclass(Q, AnonymousProduct[fs]) and Q is not P and not issubclass(P, MyProduct))
    U = TaggedUnion.from_fields('Sub', fs)
    E.check('union', issubclass(U, Sum[ts]) and issubclass(U, Sum[us]) == (set(ts) == set(us)))


@case('C21', 'auto', {}, bounded='enums with automatic values')
def auto(E):
    def mk():
        class Au(Enum):
            a = new_instruction()
            b = new_instruction()
        return Au
    A, B = mk(), mk()
    E.check('new-values-new-type', A is not B and A.a != B.a and A.a != A.b)


# ------------------------------------------------------------------ any field types
POOL = [FA, FB, FA2, BitVector[2], Tuple[FA], FC]
BASES = {'tuple': Tuple, 'my-tuple': MyTuple, 'sum': Sum, 'my-sum': MySum, 'anon': AnonymousProduct, 'product': Product, 'my-product': MyProduct,
         'union': TaggedUnion, 'my-union': MyUnion}
BIND = ['tuple', 'my-tuple', 'sum', 'my-sum', 'anon']
NAMES = 'abcdef'


def index(k, ts, names=NAMES):
    return dict(zip(names, ts)) if k == 'anon' else tuple(ts)


def member(E, t, ts):
    return M.OR(*[E.is_(t, u) for u in ts]) if ts else False


def set_eq(E, xs, ys):
    return M.AND(*[member(E, x, ys) for x in xs], *[member(E, y, xs) for y in ys])


def seq_eq(E, xs, ys):
    return len(xs) == len(ys) and M.AND(*[E.is_(x, y) for x, y in zip(xs, ys)])


def described(E, k, T, ts, names=NAMES):
    B = BASES[k]
    E.check('unbound', E.is_(E.get(E.attr(T, 'unbound_t')), B))
    E.check('bound', E.get(E.attr(T, 'is_bound')))
    E.check('subclass', E.get(E.issubclass(T, B)))
    E.check('cached', E.get(E.attr(T, 'is_cached')))
    fs = list(E.get(E.attr(T, 'fields')))
    fd = E.get(E.attr(T, 'field_dict'))
    items = Bd(E).items(fd)
    keys, vals = [x for x, _ in items], [y for _, y in items]
    if k in ('sum', 'my-sum'):
        E.check('fields', set_eq(E, fs, ts))
        E.check('distinct', M.AND(*[M.NOT(E.is_(x, y)) for x, y in itertools.combinations(fs, 2)]))
        E.check('dict', M.AND(len(keys) == len(fs), set_eq(E, keys, fs), seq_eq(E, keys, vals)))
        E.check('getitem', M.AND(*[E.is_(E.get(E.getitem(T, t)), t) for t in ts]))
    else:
        E.check('fields', seq_eq(E, fs, ts))
        E.check('keys', keys == (list(names[:len(ts)]) if k == 'anon' else list(range(len(ts)))))
        E.check('values', seq_eq(E, vals, ts))
        E.check('getitem', M.AND(*[E.is_(E.get(E.getitem(T, i)), t) for i, t in enumerate(ts)]))
        if k == 'anon':
            E.check('attrs', M.AND(*[E.is_(E.get(E.attr(T, x)), t) for x, t in zip(names, ts)]))


@case('C21', 'bind', dict(k=BIND, n=[1, 2, 3, 6]), when=lambda k, n: n < 6 or k == 'anon')
def bind(E, k, n):
    b = Bd(E)
    ts = [b.type(f't{i}', POOL) for i in range(n)]
    T = E.get(E.getitem(BASES[k], index(k, ts)))
    described(E, k, T, ts)
    E.check('again', E.is_(E.get(E.getitem(BASES[k], index(k, ts))), T))


REQ = ['tuple', 'my-tuple', 'sum', 'my-sum', 'anon', 'anon-bca']


def pair_ok(k1, n1, k2, n2):
    return max(n1, n2) <= (2 if k1 != k2 or 'sum' in k1 else 3)


@case('C21', 'requests', dict(k1=REQ, n1=[1, 2, 3], k2=REQ, n2=[1, 2, 3]), when=pair_ok)
def requests(E, k1, n1, k2, n2):
    """two requests yield the same type exactly when they have the same base and the same fields"""
    b = Bd(E)
    ts = [b.type(f't{i}', POOL) for i in range(n1)]
    us = [b.type(f'u{i}', POOL) for i in range(n2)]
    x, y = k1.split('-b')[0], k2.split('-b')[0]
    nx, ny = ('bca' if k == 'anon-bca' else 'abc' for k in (k1, k2))
    T = E.get(E.getitem(BASES[x], index(x, ts, nx)))
    U = E.get(E.getitem(BASES[y], index(y, us, ny)))
    if x != y or (x == 'anon' and nx[:n1] != ny[:n2]):
        same = False
    elif x in ('sum', 'my-sum'):
        same = set_eq(E, ts, us)
    else:
        same = seq_eq(E, ts, us)
    E.check('same-iff', M.IFF(E.is_(T, U), same))
    E.check('equal-iff', M.IFF(E.get(E.op('==', T, U)), same))
    E.check('again', E.is_(E.get(E.getitem(BASES[x], index(x, ts, nx))), T))
    described(E, y, U, us, ny)


DECL = ['product', 'my-product', 'union', 'my-union']


def declare(E, k, name, names, ts, how='class', attrs=(), cache=True):
    B = BASES[k]
    if how == 'from_fields':
        return E.get(E.meth(B, 'from_fields', name, dict(zip(names, ts)), cache=None if cache else False))
    ns = {'__module__': 'm', '__qualname__': name, **dict(zip(names, ts))}
    for a in attrs:
        ns[ATTRS[a][0]] = ATTRS[a][1]
    return E.get(E.call(type(B), name, (B,), ns, **({} if cache else {'cache': False})))


def declared(E, k, T, name, names, ts, attrs=(), cache=True):
    B = BASES[k]
    names = names[:len(ts)]
    E.check('unbound', E.is_(E.get(E.attr(T, 'unbound_t')), B))
    E.check('bound', E.get(E.attr(T, 'is_bound')))
    E.check('subclass', E.get(E.issubclass(T, B)))
    E.check('cached', E.get(E.attr(T, 'is_cached')) == cache)
    E.check('name', E.get(E.attr(T, '__name__')) == name)
    items = Bd(E).items(E.get(E.attr(T, 'field_dict')))
    fs = list(E.get(E.attr(T, 'fields')))
    if 'union' in k:
        E.check('dict', sorted(x for x, _ in items) == sorted(names) and M.AND(*[E.is_(y, ts[names.index(x)]) for x, y in items]))
        E.check('fields', set_eq(E, fs, ts))
    else:
        E.check('dict', [x for x, _ in items] == list(names) and seq_eq(E, [y for _, y in items], ts))
        E.check('fields', seq_eq(E, fs, ts))
    E.check('attrs', M.AND(*[E.is_(E.get(E.attr(T, x)), t) for x, t in zip(names, ts)]))
    for a in attrs:
        if a != 'doc':
            E.check('extra', E.get(E.attr(T, '__dict__'))[ATTRS[a][0]] is ATTRS[a][1])


@case('C21', 'declare', dict(k=DECL, n=[1, 2, 3, 6], how=['class', 'from_fields', 'extra', 'call1', 'doc'], cache=[True, False]),
      when=lambda k, n, how, cache: n < 6 or 'product' in k)
def declare_(E, k, n, how, cache):
    b = Bd(E)
    ts = [b.type(f't{i}', POOL) for i in range(n)]
    how, attrs = ('class', (how,)) if how in ATTRS else (how, ())
    mk = lambda: declare(E, k, 'Ca', 'bacfed', ts, how, attrs, cache)
    T = mk()
    declared(E, k, T, 'Ca', 'bacfed', ts, attrs, cache)
    E.check('again', M.IFF(E.is_(mk(), T), cache))


VAR = {'plain': ('Ca', 'abc', 'class', (), True), 'name': ('Cb', 'abc', 'class', (), True), 'order': ('Ca', 'bac', 'class', (), True),
       'other': ('Ca', 'acb', 'class', (), True), 'from': ('Ca', 'abc', 'from_fields', (), True), 'extra': ('Ca', 'abc', 'class', ('extra',), True),
       'extra2': ('Ca', 'abc', 'class', ('extra2',), True), 'call1': ('Ca', 'abc', 'class', ('call1',), True),
       'call2': ('Ca', 'abc', 'class', ('call2',), True), 'doc': ('Ca', 'abc', 'class', ('doc',), True),
       'nocache': ('Ca', 'abc', 'class', (), False), 'from-nocache': ('Ca', 'abc', 'from_fields', (), False)}
VARS = list(VAR)


def decl_ok(k1, v1, n1, k2, v2, n2):
    if k1 != k2:
        return k1 < k2 and v1 == v2 == 'plain' and n1 == n2
    return VARS.index(v1) <= VARS.index(v2) and (n1 == n2 == 2 or v1 == v2 == 'plain')


@case('C21', 'declarations', dict(k1=DECL, v1=VARS, n1=[1, 2], k2=DECL, v2=VARS, n2=[1, 2]), when=decl_ok)
def declarations(E, k1, v1, n1, k2, v2, n2):
    """two declarations yield the same type exactly when both are cached and base, name, fields and attributes coincide"""
    b = Bd(E)
    ts = [b.type(f't{i}', POOL) for i in range(n1)]
    us = [b.type(f'u{i}', POOL) for i in range(n2)]
    (m1, x1, h1, a1, c1), (m2, x2, h2, a2, c2) = VAR[v1], VAR[v2]
    T = declare(E, k1, m1, x1, ts, h1, a1, c1)
    U = declare(E, k2, m2, x2, us, h2, a2, c2)
    keyed = lambda a: [x for x in a if x != 'doc']
    if k1 != k2 or m1 != m2 or keyed(a1) != keyed(a2) or n1 != n2 or not (c1 and c2):
        same = False
    elif 'union' in k1:
        same = sorted(x1[:n1]) == sorted(x2[:n2]) and M.AND(*[E.is_(t, us[x2.index(x)]) for x, t in zip(x1, ts)])
    else:
        same = x1[:n1] == x2[:n2] and seq_eq(E, ts, us)
    E.check('same-iff', M.IFF(E.is_(T, U), same))
    E.check('equal-iff', M.IFF(E.get(E.op('==', T, U)), same))
    declared(E, k2, U, m2, x2, us, a2, c2)
    again = declare(E, k1, m1, x1, ts, h1, a1, c1)
    E.check('again', M.IFF(E.is_(again, T), c1))


class DeepTuple(MyTuple):
    pass


class DeepSum(MySum):
    pass


class DeepProduct(MyProduct):
    pass


class DeepUnion(MyUnion):
    pass


CHAIN = {'tuple': [Tuple, MyTuple, DeepTuple], 'sum': [Sum, MySum, DeepSum], 'product': [Product, MyProduct, DeepProduct],
         'union': [TaggedUnion, MyUnion, DeepUnion]}


def bound(E, B, k, ts):
    if k in ATTR:
        return E.get(E.call(type(B), 'Ca', (B,), {'__module__': 'm', '__qualname__': 'Ca', **dict(zip('abc', ts))}))
    return E.get(E.getitem(B, tuple(ts)))


@case('C21', 'below', dict(k=list(CHAIN), i=[0, 1, 2], j=[0, 1, 2], n=[1, 2]))
def below(E, k, i, j, n):
    """subtyping follows that of the unbound types at equal fields"""
    b = Bd(E)
    ts = [b.type(f't{m}', POOL) for m in range(n)]
    us = [b.type(f'u{m}', POOL) for m in range(n)]
    S, R = CHAIN[k][i], CHAIN[k][j]
    s = bound(E, S, k, ts)
    r = E.get(E.getitem(R, tuple(us))) if k in ('tuple', 'sum') else bound(E, R, k, us)
    if k in ('tuple', 'sum'):
        same = seq_eq(E, ts, us) if k == 'tuple' else set_eq(E, ts, us)
        E.check('below-iff', M.IFF(E.get(E.issubclass(s, r)), M.AND(same, i >= j)))
    else:
        same = seq_eq(E, ts, us)
        E.check('below-iff', M.IFF(E.get(E.issubclass(s, r)), M.AND(same, i == j)))
        up = AnonymousProduct if k == 'product' else Sum
        x = E.get(E.getitem(up, dict(zip('abc', us)) if k == 'product' else tuple(us)))
        E.check('structure', M.IFF(E.get(E.issubclass(s, x)), same if k == 'product' else set_eq(E, ts, us)))
        if k == 'product':
            E.check('tuple', M.IFF(E.get(E.issubclass(s, E.get(E.getitem(Tuple, tuple(us))))), same))
    E.check('unbound', E.get(E.issubclass(s, R)) is (i >= j))


@case('C21', 'bound-again', dict(k=BIND + DECL, n=[1, 2]))
def bound_again(E, k, n):
    """a bound type cannot be bound"""
    b = Bd(E)
    ts = [b.type(f't{m}', POOL) for m in range(n)]
    u = b.type('u', POOL)
    if k in BIND:
        T = E.get(E.getitem(BASES[k], index(k, ts)))
        i = {'u': u} if k == 'anon' else (u,)
        E.expect('getitem', E.getitem(T, i), Raises(TypeError, KeyError))
        E.expect('bind', E.meth(T, '_from_idx', tuple(ts)), Raises(TypeError)) if k in ('tuple', 'sum') else None
    else:
        T = declare(E, k, 'Ca', 'abc', ts)
        E.expect('from_fields', E.meth(T, 'from_fields', 'X', {'a': u}), Raises(TypeError))
        E.expect('getitem', E.getitem(BASES[k], u), Raises(TypeError))
    E.check('kept', E.get(E.attr(T, 'is_bound')))


@case('C21', 'reserved-name', dict(name=sorted(RESERVED_NAMES) + sorted(RESERVED_SUNDERS), k=['product', 'union'], how=['class', 'from_fields'], first=[False, True]))
def reserved_name(E, name, k, how, first):
    b = Bd(E)
    t, u = b.type('t', POOL), b.type('u', POOL)
    B = BASES[k]
    fs = {name: t, 'a': u} if first else {'a': u, name: t}
    if how == 'class':
        E.expect('rejected', E.call(type(B), 'R', (B,), {'__module__': 'm', **fs}), Raises(ReservedNameError))
    else:
        E.expect('rejected', E.meth(B, 'from_fields', 'R', fs), Raises(ReservedNameError))


EVAR = {'plain': ('Ca', 'abc', 'class', True), 'name': ('Cb', 'abc', 'class', True), 'order': ('Ca', 'bac', 'class', True), 'other': ('Ca', 'acb', 'class', True),
        'from': ('Ca', 'abc', 'from_fields', True), 'nocache': ('Ca', 'abc', 'class', False)}


def enum(E, v, vals):
    name, names, how, cache = EVAR[v]
    if how == 'from_fields':
        return E.get(E.meth(Enum, 'from_fields', name, dict(zip(names, vals)), cache=None if cache else False))
    return E.get(E.call(type(Enum), name, (Enum,), {'__module__': 'm', '__qualname__': name, **dict(zip(names, vals))}, **({} if cache else {'cache': False})))


@case('C21', 'enums', dict(v1=list(EVAR), v2=list(EVAR), n1=[1, 2], n2=[1, 2]),
      when=lambda v1, v2, n1, n2: list(EVAR).index(v1) <= list(EVAR).index(v2) and (n1 == n2 == 2 or v1 == v2 == 'plain'))
def enums(E, v1, v2, n1, n2):
    """enumerations with any values"""
    b = Bd(E)
    xs = [E.int(f'x{i}') for i in range(n1)]
    ys = [E.int(f'y{i}') for i in range(n2)]
    T, U = enum(E, v1, xs), enum(E, v2, ys)
    (m1, a1, _, c1), (m2, a2, _, c2) = EVAR[v1], EVAR[v2]
    same = m1 == m2 and c1 and c2 and sorted(a1[:n1]) == sorted(a2[:n2]) and M.AND(*[x == ys[a2.index(a)] for a, x in zip(a1, xs)])
    E.check('same-iff', M.IFF(E.is_(T, U), same))
    items = b.items(E.get(E.attr(U, 'field_dict')))
    E.check('names', sorted(k for k, _ in items) == sorted(a2[:n2]))
    fs = E.get(E.attr(U, 'fields'))
    E.check('fields', len(fs) == len(items) and all(any(E.is_(f, v) is True for f in fs) for _, v in items))
    for k, v in items:
        E.check('value', E.get(E.op('==', E.get(E.attr(v, '_value_')), ys[a2.index(k)])))
        E.check('member-name', E.get(E.attr(v, 'name')) == k)
        E.check('member', E.is_(E.get(E.attr(U, k)), v))
        E.check('type', E.is_(E.typeof(v), U))
    E.check('state', E.get(E.attr(U, 'is_cached')) == c2 and E.is_(E.get(E.attr(U, 'unbound_t')), Enum) is True)
    E.check('again', M.IFF(E.is_(enum(E, v1, xs), T), c1))


@case('C21', 'any-number', dict(k=['tuple', 'my-tuple']))
def any_number(E, k):
    """a tuple type of any number of fields"""
    b = Bd(E)
    ts = b.types('t', POOL)
    T = E.get(E.getitem(BASES[k], ts))
    E.check('again', E.is_(E.get(E.getitem(BASES[k], ts)), T))
    E.check('unbound', E.is_(E.get(E.attr(T, 'unbound_t')), BASES[k]))
    E.check('cached', E.get(E.attr(T, 'is_cached')))
    b.seq_is('fields', E.get(E.attr(T, 'fields')), ts)


@case('C21', 'any-two', dict(k=['tuple', 'my-tuple']))
def any_two(E, k):
    """two tuple types of any number of fields are the same exactly when the fields are"""
    b = Bd(E)
    ts, us = b.types('t', POOL, 3), b.types('u', POOL, 3)
    T, U = E.get(E.getitem(BASES[k], ts)), E.get(E.getitem(BASES[k], us))
    E.check('same-iff', M.IFF(E.is_(T, U), E.get(E.op('==', ts, us))))
    b.seq_is('fields', E.get(E.attr(U, 'fields')), us)
    E.check('again', E.is_(E.get(E.getitem(BASES[k], ts)), T))


@case('C21', 'auto-enums', dict(v1=['plain', 'order', 'from'], v2=['plain', 'name', 'order', 'other', 'nocache'], xs=['01', '00', '0i', 'i0'], ys=['01', '10', '02', '0i', '1i', 'i0']))
def auto_enums(E, v1, v2, xs, ys):
    """enumerations with automatic values"""
    Bd(E)
    pool = {x: E.get(E.call(new_instruction)) for x in '012'}
    mk = lambda l, n: [E.int(f'{n}{i}') if x == 'i' else pool[x] for i, x in enumerate(l)]
    vs, ws = mk(xs, 'v'), mk(ys, 'w')
    T, U = enum(E, v1, vs), enum(E, v2, ws)
    (m1, a1, _, c1), (m2, a2, _, c2) = EVAR[v1], EVAR[v2]
    eq = lambda i, j: (vs[i] == ws[j] if xs[i] == 'i' else True) if xs[i] == ys[j] else False
    same = m1 == m2 and c1 and c2 and sorted(a1[:2]) == sorted(a2[:2]) and M.AND(*[eq(i, a2.index(a1[i])) for i in (0, 1)])
    E.check('same-iff', M.IFF(E.is_(T, U), same))
    E.check('again', M.IFF(E.is_(enum(E, v1, vs), T), c1))
    for i in (0, 1):
        v = E.get(E.attr(E.get(E.attr(U, a2[i])), '_value_'))
        E.check('value', v == ws[i] if ys[i] == 'i' else E.is_(v, ws[i]))
