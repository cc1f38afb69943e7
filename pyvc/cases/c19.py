"""C19 Enum members are a closed set of distinct named values."""
import itertools
from hwtypes.adt import Enum, new_instruction
from ..spec import case, Raises
from ..adtgen import Gen
from ..adthelp import EBase as Base
from ..binddom import Bd
from .. import smath as M

BOUND = 'enums of at most 4 members with values of small and large absolute value and automatic values'
NAMES = ['a', 'b', 'foo', 'zz']


def declare(g, cls=None):
    n = g.pick([1, 2, 3, 4])
    names = list(g.pick(list(itertools.permutations(NAMES, n))))
    vals = [g.pick([0, 1, 2, -1, 7, 2 ** 70, -2 ** 70, True, new_instruction]) for _ in names]
    vals = [v() if v is new_instruction else v for v in vals]
    how = g.pick(['class', 'class', 'from_fields', 'uncached'])
    name = g.pick(['En', 'Em'])
    base = g.pick([Enum, Enum, Base])
    fs = dict(zip(names, vals))
    if how == 'class':
        T = type(Enum)(name, (base,), {**fs, 'helper': lambda self: 5})
    else:
        T = base.from_fields(name, fs, cache=how == 'from_fields')
    return T, base, fs


def raises(f, *ex):
    try:
        f()
    except ex:
        return True
    return False


@case('C19', 'members', {}, bounded=BOUND)
def members(E):
    g = Gen(E, [])
    T, base, fs = declare(g)
    E.note('fields', repr(fs))
    ms = {k: getattr(T, k) for k in fs}
    E.check('closed', dict(T.field_dict) == ms and set(T.field_dict) == set(fs) and len(T.fields) == len(fs)
            and all(any(m is x for x in ms.values()) for m in T.fields) and all(any(m is x for x in T.fields) for m in ms.values()))
    E.check('enumerate', sorted(map(id, T.enumerate())) == sorted(map(id, ms.values())))
    E.check('names', all(m.name == k and repr(m) == f'{T.__name__}.{k}' for k, m in ms.items()))
    E.check('instances', all(type(m) is T and isinstance(m, T) and isinstance(m, base) and isinstance(m, Enum) for m in ms.values()))
    E.check('values', all(m._value_ is fs[k] or m._value_ == fs[k] for k, m in ms.items()))
    E.check('single', all(getattr(T, k) is m for k, m in ms.items()) and len(set(map(id, ms.values()))) == len(ms))
    for (j, x), (k, y) in itertools.product(ms.items(), repeat=2):
        E.check('eq', (x == y) is (fs[j] == fs[k]) and (x != y) is (fs[j] != fs[k]))
        E.check('hash', fs[j] != fs[k] or hash(x) == hash(y))
    for k, m in ms.items():
        E.check('through', all(raises(lambda: getattr(m, j), AttributeError) for j in fs))
        E.check('identity-call', T(m) is m)
        E.check('not-value', (m == fs[k]) is False and (m != fs[k]) is True)


@case('C19', 'by-value', {}, bounded=BOUND)
def by_value(E):
    g = Gen(E, [])
    T, base, fs = declare(g)
    U, _, _ = declare(g)
    for v in [*fs.values(), *fs, 0, 1, 5, None, 'a', T, object()]:
        E.check('rejects', raises(lambda: T(v), TypeError))
    if not issubclass(U, T):
        for v in U.field_dict.values():
            E.check('rejects-other', raises(lambda: T(v), TypeError))
    E.check('rejects-none', raises(lambda: T(), TypeError) and raises(lambda: T(0, 1), TypeError))


@case('C19', 'foreign', {}, bounded=BOUND)
def foreign(E):
    g = Gen(E, [])
    T, _, fs = declare(g)
    U, _, gs = declare(g)
    if T is U:
        return
    for x in T.field_dict.values():
        for y in U.field_dict.values():
            E.check('unequal', (x == y) is False and (x != y) is True)


@case('C19', 'auto', {}, bounded='up to 20 automatic values')
def auto(E):
    vs = [new_instruction() for _ in range(E.pick('n', range(2, 21)))]
    E.check('distinct', all((x == y) == (i == j) for i, x in enumerate(vs) for j, y in enumerate(vs)))
    E.check('not-ints', all(x != i and x != -i for x in vs for i in range(300)))
    T = type(Enum)('Au', (Enum,), {f'm{i}': v for i, v in enumerate(vs)})
    ms = list(T.fields)
    E.check('members', len(ms) == len(vs) and all((x == y) == (x is y) for x in ms for y in ms))


# ---------------------------------------------------- whole declarations, for every declared value

def value(E, k, name):
    return E.int(name) if k == 'i' else E.get(E.call(new_instruction))


def declares(E, how, base, name, names, vals):
    fs = dict(zip(names, vals))
    if how == 'class':
        return E.get(E.call(type(Enum), name, (base,), {'__module__': 'm', '__qualname__': name, **fs}))
    return E.get(E.meth(base, 'from_fields', name, fs, cache=None if how == 'from_fields' else False))


def eq_values(E, k, v, l, w, same):
    return M.AND(k == l, v == w) if k == l == 'i' else same


@case('C19', 'declared', dict(kinds=['i', 'ii', 'iii', 'A', 'iA', 'AA', 'AiA'], how=['class', 'from_fields', 'uncached'], base=['enum', 'base']))
def declared(E, kinds, how, base):
    """the members of any enumeration"""
    b = Bd(E)
    names = ['b', 'zz', 'a'][:len(kinds)]
    vals = [value(E, k, f'v{i}') for i, k in enumerate(kinds)]
    B = Base if base == 'base' else Enum
    T = declares(E, how, B, 'En', names, vals)
    items = b.items(E.get(E.attr(T, 'field_dict')))
    E.check('names', sorted(k for k, _ in items) == sorted(names))
    ms = dict(items)
    fs = list(E.get(E.attr(T, 'fields')))
    w = E.int('w')
    al = b.list(E.get(E.meth(T, 'enumerate')))
    for l, label in ((fs, 'fields'), (al, 'enumerate')):
        E.check(label, len(l) == len(names) and all(sum(E.is_(x, m) is True for x in l) == 1 for m in ms.values()))
    for i, n in enumerate(names):
        m = ms[n]
        E.check('member', E.is_(E.get(E.attr(T, n)), m))
        E.check('member-name', E.get(E.attr(m, 'name')) == n)
        E.check('type', E.is_(E.typeof(m), T))
        E.check('instance', M.AND(E.get(E.isinstance(m, T)), E.get(E.isinstance(m, B)), E.get(E.isinstance(m, Enum))))
        E.check('value', E.get(E.op('==', E.get(E.attr(m, '_value_')), vals[i])) if kinds[i] == 'i' else E.is_(E.get(E.attr(m, '_value_')), vals[i]))
        E.check('member-call', E.is_(E.get(E.call(T, m)), m))
        E.expect('value-call', E.call(T, vals[i]), Raises(TypeError))
        E.expect('name-call', E.call(T, n), Raises(TypeError))
        E.check('not-value', M.NOT(E.get(E.op('==', m, vals[i]))))
        for j in names:
            E.expect('through', E.attr(m, j), Raises(AttributeError))
        for j, o in enumerate(names):
            want = eq_values(E, kinds[i], vals[i], kinds[j], vals[j], i == j)
            E.check('eq', M.IFF(E.get(E.op('==', m, ms[o])), want))
            E.check('ne', M.IFF(E.get(E.op('!=', m, ms[o])), M.NOT(want)))
            E.check('single', M.IFF(E.is_(m, ms[o]), i == j))
            if want:
                E.check('hash', E.get(E.op('==', E.get(E.builtin(hash, m)), E.get(E.builtin(hash, ms[o])))))
        for x in (w, None, n):
            E.check('not-other', M.AND(M.NOT(E.get(E.op('==', m, x))), E.get(E.op('!=', m, x))))
            E.check('not-other-flipped', M.AND(M.NOT(E.get(E.op('==', x, m))), E.get(E.op('!=', x, m))))
            E.expect('other-call', E.call(T, x), Raises(TypeError))
    E.expect('no-argument', E.call(T), Raises(TypeError))


@case('C19', 'two-enums', dict(kinds=['i', 'ii', 'iA', 'A'], more=['i', 'ii', 'A'], name=['En', 'Em'], names=['ab', 'ba', 'xy']))
def two_enums(E, kinds, more, name, names):
    """members of different enumerations are unequal, and neither is accepted by the other"""
    b = Bd(E)
    vs = [value(E, k, f'v{i}') for i, k in enumerate(kinds)]
    ws = [value(E, k, f'w{i}') for i, k in enumerate(more)]
    T = declares(E, 'class', Enum, 'En', 'ab', vs)
    U = declares(E, 'class', Enum, name, names, ws)
    if E.is_(T, U):
        return
    for _, x in b.items(E.get(E.attr(T, 'field_dict'))):
        for _, y in b.items(E.get(E.attr(U, 'field_dict'))):
            E.check('unequal', M.AND(M.NOT(E.get(E.op('==', x, y))), E.get(E.op('!=', x, y))))
            E.check('distinct', M.NOT(E.is_(x, y)))
            E.expect('call', E.call(U, x), Raises(TypeError))
            E.expect('call-back', E.call(T, y), Raises(TypeError))
