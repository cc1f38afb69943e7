"""Bounded generation of algebraic data types from plain descriptions.

A description is ('leaf', T) | ('tuple', d…) | ('anon', (k, d)…) | ('product', name, (k, d)…)
| ('sum', d…) | ('union', name, (k, d)…) | ('enum', name, (k, value)…) | ('mod', M, d); the expected facts are
computed from the description, the actual ones read from the class hwtypes makes of it."""
import itertools
from hwtypes.adt import Tuple, Product, AnonymousProduct, Sum, TaggedUnion, Enum
from . import adthelp as AH

KEYS = 'abcdef'


class Gen:
    def __init__(self, E, leaves, kinds=('tuple', 'anon', 'product', 'sum', 'union', 'enum'), maxf=3, mods=()):
        self.mods = mods
        self.E, self.leaves, self.kinds, self.maxf = E, leaves, kinds, maxf
        self.n = 0
        self.seen = []          # inner nodes generated so far

    def pick(self, options):
        self.n += 1
        return self.E.pick(f'g{self.n}', options)

    def desc(self, depth, top=True, used=()):
        d = self.desc_(depth, top, used)
        if d[0] not in ('leaf', 'mod') and not top and d not in self.seen and "('mod'" not in str(d):
            self.seen.append(d)
        return d

    def desc_(self, depth, top, used):
        kinds = list(self.kinds)
        if depth == 0:
            kinds = [k for k in kinds if k == 'enum']
        free = [m for m in self.mods if m not in used]
        if free and not self.pick([1, 1, 0]):
            m = self.pick(free)
            return ('mod', m, self.desc(depth, top, (*used, m)))
        again = [x for x in self.seen if height(x) <= depth]
        k = self.pick((kinds if top else ['leaf', 'leaf'] + kinds + ['again'] * bool(again)) or ['leaf'])
        if k == 'again':
            return self.pick(again)
        if k == 'leaf':
            return ('leaf', self.pick(self.leaves))
        n = self.pick([*range(1, self.maxf + 1), *([6] if top and depth == 1 else [])])
        if k == 'enum':
            return ('enum', self.pick(['En', 'Em']), *[(KEYS[i], self.pick([i, i + 1, 0])) for i in range(n)])
        if k in ('tuple', 'sum'):
            if k == 'tuple':
                n -= self.pick([0, 0, 0, 0, 0, 1])
            return (k, *[self.desc(depth - 1, False) for _ in range(n)])
        keys = self.pick(list(itertools.permutations(KEYS[:n])))
        fs = [(x, self.desc(depth - 1, False)) for x in keys]
        return (k, *fs) if k == 'anon' else (k, self.pick(['Pa', 'Pb']), *fs)


def height(d):
    return 0 if d[0] in ('leaf', 'enum') else 1 + max([height(y) for _, y in fields(d)] + [0])


def fields(d):
    """[(key, description)] of an inner node; keys of tuples are indices"""
    if d[0] == 'tuple':
        return list(enumerate(d[1:]))
    if d[0] == 'sum':
        return [(None, x) for x in dedup(d[1:])]
    if d[0] == 'anon':
        return list(d[1:])
    if d[0] in ('product', 'union'):
        return list(d[2:])
    return []


def norm(d):
    """a hashable key: two descriptions denote the same type iff their keys are equal"""
    k = d[0]
    if k == 'leaf':
        return d
    if k == 'mod':
        return (k, d[1], norm(d[2]))
    if k == 'tuple':
        return (k, *map(norm, d[1:]))
    if k == 'sum':
        return (k, frozenset(map(norm, d[1:])))
    if k == 'anon':
        return (k, *[(x, norm(y)) for x, y in d[1:]])
    if k == 'product':
        return (k, d[1], *[(x, norm(y)) for x, y in d[2:]])
    if k == 'union':
        return (k, d[1], frozenset((x, norm(y)) for x, y in d[2:]))
    return (k, d[1], frozenset(d[2:]))


def dedup(ds):
    out, seen = [], set()
    for d in ds:
        if norm(d) not in seen:
            seen.add(norm(d))
            out.append(d)
    return out


def build(d):
    k = d[0]
    if k == 'leaf':
        return d[1]
    if k == 'mod':
        return d[1](build(d[2]))
    if k == 'tuple':
        return Tuple[tuple(build(x) for x in d[1:])]
    if k == 'sum':
        return Sum[tuple(build(x) for x in d[1:])]
    if k == 'anon':
        return AnonymousProduct[{x: build(y) for x, y in d[1:]}]
    if k == 'enum':
        return Enum.from_fields(d[1], dict(d[2:]))
    B = Product if k == 'product' else TaggedUnion
    return B.from_fields(d[1], {x: build(y) for x, y in d[2:]})


def kind(T):
    for k, B in (('enum', Enum), ('product', Product), ('anon', AnonymousProduct), ('tuple', Tuple), ('union', TaggedUnion), ('sum', Sum)):
        if isinstance(T, type) and issubclass(T, B):
            return k
    return 'leaf'


def read(T):
    """the description of a type, read through its public attributes"""
    k = kind(T)
    if k == 'leaf':
        return ('leaf', T)
    if k == 'enum':
        return (k, T.__name__, *[(x, m._value_) for x, m in T.field_dict.items()])
    fs = [(x, read(y)) for x, y in T.field_dict.items()]
    if k in ('tuple', 'sum'):
        return (k, *[y for _, y in fs])
    return (k, *fs) if k == 'anon' else (k, T.__name__, *fs)


def subst(d, f):
    """apply f to every description bottom-up (f returns None to keep)"""
    r = f(d)
    if r is not None:
        return r
    k = d[0]
    if k in ('leaf', 'enum'):
        return d
    if k == 'mod':
        return (k, d[1], subst(d[2], f))
    return children(d, lambda x: subst(x, f))


def children(d, g):
    """the same node with g applied to every field"""
    k = d[0]
    if k in ('leaf', 'enum'):
        return d
    if k in ('tuple', 'sum'):
        return (k, *[g(x) for x in d[1:]])
    if k == 'anon':
        return (k, *[(x, g(y)) for x, y in d[1:]])
    return (k, d[1], *[(x, g(y)) for x, y in d[2:]])


def encode(v, d):
    """a value of the described type as plain data, read through the public interface"""
    k = d[0]
    if k == 'leaf':
        return ('leaf', type(v), v)
    if k == 'enum':
        return ('enum', v.name, v._value_)
    if k in ('tuple',):
        return (k, *[encode(v[i], x) for i, x in enumerate(d[1:])])
    if k in ('anon', 'product'):
        return ('rec', *[(x, encode(getattr(v, x), y)) for x, y in fields(d)])
    if k == 'sum':
        hits = [(x, y) for x, y in v.value_dict.items() if y is not None]
        (T, y), = hits
        dd, = [x for _, x in fields(d) if build(x) is T]
        return ('sum', norm(dd), encode(y, dd))
    hits = [(x, getattr(v, x)) for x, _ in fields(d)]
    (x, m), = [(x, m) for x, m in hits if m.match]
    return ('union', x, encode(m.value, dict(fields(d))[x]))


def values(d, default=lambda T: T(0)):
    """every value of the described type, leaves at their default, as plain data"""
    k = d[0]
    if k == 'leaf':
        return [('leaf', d[1], default(d[1]))]
    if k == 'enum':
        return [('enum', x, y) for x, y in d[2:]]
    if k == 'tuple':
        return [(k, *c) for c in itertools.product(*[values(x) for x in d[1:]])]
    if k in ('anon', 'product'):
        return [('rec', *c) for c in itertools.product(*[[(x, w) for w in values(y)] for x, y in fields(d)])]
    if k == 'sum':
        return [('sum', norm(x), w) for _, x in fields(d) for w in values(x)]
    return [('union', x, w) for x, y in fields(d) for w in values(y)]


def unrelated(d):
    """no Sum in the description has alternatives related by inheritance"""
    if d[0] == 'sum':
        ts = [build(x) for _, x in fields(d)]
        if any(a is not b and issubclass(a, b) for a in ts for b in ts):
            return False
    return all(unrelated(x) for _, x in fields(d))
