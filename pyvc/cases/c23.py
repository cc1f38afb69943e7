"""C23 Modifiers wrap and unwrap types losslessly."""
import gc
from hwtypes import BitVector, SIntVector, Bit
from hwtypes.adt import Tuple, Product, Sum, Enum
from hwtypes.modifiers import (make_modifier, is_modified, is_modifier, get_modifier, get_unmodified, get_all_modifiers,
                               unwrap_modifier, wrap_modifier, strip_modifiers, push_modifiers, AbstractModifier)
from ..spec import case, Raises
from ..typedom import TD
from ..moddom import Md
from .. import smath as M
from ..adtgen import Gen, build, children, norm, read
from ..adthelp import FA, FB, FA2, Val, M1, M2, M3, P2, U2

BOUND = 'type trees of depth at most 2, at most 3 modifiers a node, enumerated from the smallest up and then sampled'
MODS = (M1, M2, M3)


class En(Enum):
    a = 0
    b = 1


class FA3(FA2):
    pass


class FD(Val):
    pass


class FAD(FA2, FD):
    pass


POOL = [Val, FA, FA2, FA3, FAD, FD, BitVector, BitVector[3], SIntVector[3], SIntVector, Bit, int, Tuple[FA, FB], Tuple[()], P2, U2, Sum[FA, FB], En,
        Tuple, Product]


def mods_of(g, k=3):
    ms = []
    for _ in range(g.pick(range(k + 1))):
        ms.append(g.pick([m for m in MODS if m not in ms]))
    return ms


def facts(E, T, ms, W):
    """W is T wrapped by ms, in that order"""
    cur = T
    chain = [T]
    for m in ms:
        cur = m(cur)
        chain.append(cur)
    E.check('unique', cur is W)
    for i, X in enumerate(chain):
        E.check('is-modified', is_modified(X) == (i > 0))
        E.check('unwrap', unwrap_modifier(X) == (T, ms[:i]) and unwrap_modifier(X)[0] is T)
        E.check('all-modifiers', list(get_all_modifiers(X)) == ms[:i])
        for m in MODS:
            E.check('issubclass-modifier', issubclass(X, m) == (i > 0 and ms[i - 1] is m))
        for m in ms[i:i + 1]:
            E.check('subclass', issubclass(m(X), X) and issubclass(m(X), m) and m(X) is not X)
            E.check('get', get_modifier(m(X)) is m and get_unmodified(m(X)) is X)
    for f in (get_modifier, get_unmodified):
        try:
            f(T)
            E.check('unmodified-rejected', False)
        except TypeError:
            pass


@case('C23', 'wrap', {}, bounded='twenty types, at most 3 modifiers each')
def wrap(E):
    g = Gen(E, [])
    T = g.pick(POOL)
    ms = mods_of(g)
    E.note('what', repr((T, ms)))
    W = wrap_modifier(T, ms)
    facts(E, T, ms, W)
    E.check('rewrap', wrap_modifier(*unwrap_modifier(W)) is W)
    E.check('again', wrap_modifier(T, ms) is W)


@case('C23', 'duplicates', {}, bounded='twenty types, at most 3 modifiers each')
def duplicates(E):
    g = Gen(E, [])
    T = g.pick(POOL)
    ms = mods_of(g)
    E.require(ms)
    bad = list(ms)
    bad.insert(g.pick(range(len(ms) + 1)), g.pick(ms))
    try:
        wrap_modifier(T, bad)
        E.check('rejects', False)
    except TypeError:
        pass


@case('C23', 'subclassing', {}, bounded='pairs of twenty types, at most 2 modifiers')
def subclassing(E):
    g = Gen(E, [])
    S, T = g.pick(POOL), g.pick(POOL)
    ms = mods_of(g, 2)
    E.note('what', repr((S, T, ms)))
    MS, MT = wrap_modifier(S, ms), wrap_modifier(T, ms)
    E.check('follows', issubclass(MS, MT) == issubclass(S, T))
    if ms:
        E.check('base', issubclass(MS, T) == issubclass(S, T))
        E.check('not-up', not issubclass(S, MT))
        E.check('distinct', (MS is MT) == (S is T))


@case('C23', 'instances', {}, bounded='values of three classes, at most 3 modifiers')
def instances(E):
    g = Gen(E, [])
    T = g.pick([FA, FA2, BitVector[3], FAD])
    ms = mods_of(g)
    W = wrap_modifier(T, ms)
    w, t = W(1), T(1)
    E.check('type', type(w) is W and isinstance(w, T))
    for m in MODS:
        E.check('isinstance', isinstance(w, m) == (bool(ms) and ms[-1] is m))
        E.check('plain', not isinstance(t, m))
        E.check('foreign', not isinstance(3, m) and not isinstance(W, m))


@case('C23', 'factory', dict(cache=[False, True]), bounded='two names')
def factory(E, cache):
    g = Gen(E, [])
    n = g.pick(['Foo', 'Bar'])
    a, b = make_modifier(n, cache=cache), make_modifier(n, cache=cache)
    c = make_modifier(n + 'x', cache=cache)
    E.check('cached', (a is b) == cache)
    E.check('distinct', a is not c and b is not c)
    E.check('is-modifier', is_modifier(a) and is_modifier(c) and a.__name__ == n)
    E.check('applies', get_modifier(a(FA)) is a and get_unmodified(a(FA)) is FA)
    if not cache:
        E.check('independent', a(FA) is not b(FA) and not issubclass(a(FA), b) and not issubclass(b(FA), a))
    E.check('other', not issubclass(a(FA), c))
    try:
        AbstractModifier(FA)
        E.check('abstract', False)
    except TypeError:
        pass


@case('C23', 'recreate', {}, bounded='types made, dropped and made again')
def recreate(E):
    g = Gen(E, [])
    T = type('Tmp', (FA,), {})
    m = g.pick(MODS)
    for _ in range(2):
        X = m(T)
        E.check('made', get_modifier(X) is m and get_unmodified(X) is T and m(T) is X and X.__name__ == m.__name__ + 'Tmp')
        del X
        if g.pick([0, 0, 0, 0, 1]):
            gc.collect()


def stripped(d):
    if d[0] == 'mod':
        return stripped(d[2])
    return children(d, stripped)


def pushed(d, ms=()):
    if d[0] == 'mod':
        return pushed(d[2], (d[1],) + ms)
    if d[0] in ('leaf', 'enum'):
        if len(set(ms)) != len(ms):
            raise TypeError
        for m in ms:
            d = ('mod', m, d)
        return d
    return children(d, lambda x: pushed(x, ms))


@case('C23', 'strip', {}, bounded=BOUND)
def strip(E):
    g = Gen(E, [FA, FB, BitVector[3], Bit], mods=MODS, maxf=2)
    d = g.desc(g.pick([1, 2]), g.pick([True, True, False]))
    E.note('type', repr(d))
    T = build(d)
    E.check('stripped', strip_modifiers(T) is build(stripped(d)))
    E.check('original', build(d) is T)


@case('C23', 'push', {}, bounded=BOUND)
def push(E):
    g = Gen(E, [FA, FB, BitVector[3], Bit], mods=MODS, maxf=2)
    d = g.desc(g.pick([1, 2]), g.pick([True, True, False]))
    E.note('type', repr(d))
    T = build(d)
    try:
        want = build(pushed(d))
    except TypeError:
        want = None
    try:
        got = push_modifiers(T)
    except TypeError:
        got = None
    E.check('pushed', got is want)
    E.check('again', want is None or push_modifiers(T) is want)


NODE = ['tuple', 'anon', 'product', 'sum', 'union', 'enum', 'leaf']


def any_type(t, kind, wrapped):
    """(an unmodified type of this kind, the same type wrapped by any modifiers, the list of these)"""
    U = t.leaf('T') if kind == 'leaf' else t.bound(kind)
    if not wrapped:
        return U, U, None
    W = t.modified('T', base=U)
    return U, W, W.mods


@case('C23', 'strip-node', dict(kind=NODE, wrapped=[False, True]))
def strip_node(E, kind, wrapped):
    """one level of any type with any number of arbitrary fields; below it, the induction hypothesis"""
    if not E.symbolic:
        return strip(E)
    t = TD(E)
    U, W, ms = any_type(t, kind, wrapped)
    out = E.call(strip_modifiers, W)
    if kind in ('enum', 'leaf'):
        E.check('same', E.is_(E.get(out), U))
        return
    t.node('strip', out, U, t.strip)
    t.node('again', E.call(strip_modifiers, E.get(out)), U, t.strip)


@case('C23', 'push-node', dict(kind=NODE, wrapped=[False, True], outer=[False, True]))
def push_node(E, kind, wrapped, outer):
    """the modifiers of this level end up inside those that come from outside"""
    if not E.symbolic:
        return push(E)
    t = TD(E)
    U, W, ms = any_type(t, kind, wrapped)
    above = t.mods('above') if outer else None
    out = E.call(push_modifiers, W, *([above] if outer else []))
    if kind in ('enum', 'leaf'):
        E.check('wrapped', t.same(out, t.covered(U, t.cat(ms, above))))
    else:
        t.node('push', out, U, lambda f: t.push(f, ms, above))


# ------------------------------------------------------------------ any types
ANY = POOL + [type('Own', (FA,), {}), type('Own2', (FA2, FD), {}), object]


def mod(E, name):
    return E.get(E.call(make_modifier, name))


def is_mod_of(E, X, m, U, others=()):
    """X is what m made of U"""
    E.check('is-modified', E.get(E.call(is_modified, X)) is True)
    E.check('get-modifier', E.is_(E.get(E.call(get_modifier, X)), m))
    E.check('get-unmodified', E.is_(E.get(E.call(get_unmodified, X)), U))
    E.check('subclass', E.get(E.issubclass(X, U)))
    E.check('subclass-modifier', E.get(E.issubclass(X, m)))
    E.check('not-the-type', M.NOT(E.is_(X, U)))
    E.check('up', M.NOT(E.get(E.issubclass(U, X))))
    for n in others:
        E.check('foreign', M.NOT(E.get(E.issubclass(X, n))))
    E.check('again', E.is_(E.get(E.call(m, U)), X))
    md = Md(E)
    x = md.instance(X)
    E.check('isinstance', E.get(E.isinstance(x, m)))
    E.check('isinstance-type', E.get(E.isinstance(x, U)))
    for n in others:
        E.check('isinstance-foreign', M.NOT(E.get(E.isinstance(x, n))))
    E.check('type-no-instance', M.NOT(E.get(E.isinstance(X, m))))


def is_plain(E, U, ms):
    """U is no modified type"""
    E.check('plain', E.get(E.call(is_modified, U)) is False)
    for f in (get_modifier, get_unmodified):
        E.expect('plain-rejected', E.call(f, U), Raises(TypeError))
    u, r = E.get(E.call(unwrap_modifier, U))
    E.check('plain-unwrap', M.AND(E.is_(u, U), len(r) == 0))
    E.check('plain-all', len(Md(E).list(E.get(E.call(get_all_modifiers, U)))) == 0)
    for m in ms:
        E.check('plain-foreign', M.NOT(E.get(E.issubclass(U, m))))
        E.check('plain-instance', M.NOT(E.get(E.isinstance(Md(E).instance(U), m))))
    E.check('plain-wrap', E.is_(E.get(E.call(wrap_modifier, U, [])), U))


def unwraps(E, W, U, ms):
    u, r = E.get(E.call(unwrap_modifier, W))
    E.check('unwrap', E.is_(u, U))
    r = Md(E).list(r)
    E.check('unwrap-list', len(r) == len(ms) and M.AND(*[E.is_(x, y) for x, y in zip(r, ms)]))
    r = Md(E).list(E.get(E.call(get_all_modifiers, W)))
    E.check('all-modifiers', len(r) == len(ms) and M.AND(*[E.is_(x, y) for x, y in zip(r, ms)]))
    E.check('rewrap', E.is_(E.get(E.call(wrap_modifier, U, list(ms))), W))


@case('C23', 'apply', dict(n=[0, 1, 2, 3]))
def apply_(E, n):
    """a modifier applied to any type"""
    md = Md(E)
    a, b = mod(E, 'Ma'), mod(E, 'Mb')
    U = md.type('U', n, ANY)
    is_plain(E, U, [a, b])
    X = E.get(E.call(a, U))
    is_mod_of(E, X, a, U, [b])
    is_plain(E, U, [a, b])
    unwraps(E, X, U, [a])
    E.check('is-modifier', E.get(E.call(is_modifier, a)) is True)
    D = md.derive(X)
    E.check('derived', E.get(E.issubclass(D, U)))
    is_plain(E, D, [a, b])
    is_mod_of(E, E.get(E.call(b, D)), b, D, [a])
    is_mod_of(E, X, a, U, [b])
    E.expect('twice', E.call(a, X), Raises(TypeError))


@case('C23', 'applications', dict(other=[False, True], n=[0, 1, 2], m=[0, 1, 2]))
def applications(E, other, n, m):
    """two applications yield the same type exactly when modifier and type coincide"""
    md = Md(E)
    a, b = mod(E, 'Ma'), mod(E, 'Mb')
    c = b if other else a
    U, T = md.type('U', n, ANY), md.type('T', m, ANY)
    X = E.get(E.call(a, U))
    Y = E.get(E.call(c, T))
    E.check('same-iff', M.IFF(E.is_(X, Y), M.AND(not other, E.is_(U, T))))
    is_mod_of(E, X, a, U, [b])
    is_mod_of(E, Y, c, T, [a if other else b])
    E.check('not-the-type', M.NOT(M.OR(E.is_(X, T), E.is_(Y, U))))
    if not other:
        E.check('follows', M.IFF(E.get(E.issubclass(X, Y)), E.get(E.issubclass(U, T))))
        E.check('base', M.IFF(E.get(E.issubclass(X, T)), E.get(E.issubclass(U, T))))
    else:
        E.check('unrelated', M.NOT(E.get(E.issubclass(X, Y))))
    E.check('not-up', M.NOT(E.get(E.issubclass(U, Y))))


@case('C23', 'wrapping', dict(ms=['a', 'b', 'ab', 'ba', 'abc', 'cab', 'aa', 'aba', 'aab', 'baa', 'abcb', 'abcd'], n=[0, 1, 2]), when=lambda ms, n: len(ms) + n < 5)
def wrapping(E, ms, n):
    """wrapping by a list of modifiers applies them in order, without duplicates"""
    md = Md(E)
    pool = {x: mod(E, 'M' + x) for x in 'abcd'}
    l = [pool[x] for x in ms]
    U = md.type('U', n, ANY)
    out = E.call(wrap_modifier, U, l)
    E.check('list-kept', len(l) == len(ms) and all(x is pool[k] for x, k in zip(l, ms)))
    if len(set(ms)) != len(ms):
        E.expect('duplicates', out, Raises(TypeError))
        return
    W = E.get(out)
    cur = U
    for i, m in enumerate(l):
        prev, cur = cur, E.get(E.call(m, cur))
        is_mod_of(E, cur, m, prev, [x for x in pool.values() if x is not m])
        unwraps(E, cur, U, l[:i + 1])
    E.check('nested', E.is_(cur, W))
    is_plain(E, U, list(pool.values()))


@case('C23', 'wrapped-below', dict(ms=['a', 'ab'], ns=['a', 'ab', 'ba', 'b'], n=[1, 2]))
def wrapped_below(E, ms, ns, n):
    """wrapped types follow the subclassing of the types"""
    md = Md(E)
    pool = {x: mod(E, 'M' + x) for x in 'ab'}
    U, T = md.type('U', n, ANY), md.type('T', 1, ANY)
    X = E.get(E.call(wrap_modifier, U, [pool[x] for x in ms]))
    Y = E.get(E.call(wrap_modifier, T, [pool[x] for x in ns]))
    rest = iter(ms)
    E.check('follows', M.IFF(E.get(E.issubclass(X, Y)), M.AND(all(x in rest for x in ns), E.get(E.issubclass(U, T)))))
    E.check('base', M.IFF(E.get(E.issubclass(X, T)), E.get(E.issubclass(U, T))))
    E.check('same-iff', M.IFF(E.is_(X, Y), M.AND(ms == ns, E.is_(U, T))))


@case('C23', 'made', dict(c1=[False, True], c2=[False, True], same=[False, True]))
def made(E, c1, c2, same):
    """modifiers by name: one for each name when cached, a new one each time when not"""
    md = Md(E)
    x, y = 'Foo', 'Foo' if same else 'Bar'
    a = E.get(E.call(make_modifier, x, cache=c1))
    b = E.get(E.call(make_modifier, y, cache=c2))
    E.check('same-iff', (a is b) == (c1 and c2 and same))
    U = md.type('U', 1, ANY)
    X = E.get(E.call(a, U))
    is_mod_of(E, X, a, U, [] if a is b else [b])
    E.check('name', E.get(E.attr(a, '__name__')) == x)
    E.check('again', E.is_(E.get(E.call(make_modifier, x, cache=True)), E.get(E.call(make_modifier, x, cache=True))))
    E.check('kept', not c1 or E.is_(E.get(E.call(make_modifier, x, cache=True)), a))
    E.expect('abstract', E.call(AbstractModifier, U), Raises(TypeError))
