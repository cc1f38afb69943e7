"""C27 Frozen dictionaries and typed properties keep their contracts."""
import itertools
import types
from collections import OrderedDict, UserDict
from hwtypes.util import FrozenDict, OrderedFrozenDict
from ..spec import case, Raises
from ..adtdom import A
from ..adthelp import FA, FB, Holder, SubHolder
from ..adtgen import Gen
from .. import smath as M

CLS = {'plain': FrozenDict, 'ordered': OrderedFrozenDict}
KEYS = {'0': (), '1': ('a',), '2': ('a', 'b'), '3': ('b', 'a', 'c'), 'mixed': (1, 'x', FA, None)}


def filled(a, keys, p):
    return {k: a.val(f'{p}{i}') for i, k in enumerate(keys)}


def build(E, C, d, how='dict'):
    if how == 'pairs':
        return E.build(C, [(k, v) for k, v in d.items()])
    if how == 'kw':
        return E.build(C, **d)
    return E.build(C, d)


@case('C27', 'read', dict(cls=list(CLS), keys=list(KEYS), how=['dict', 'pairs', 'kw']), when=lambda cls, keys, how: how != 'kw' or keys != 'mixed')
def read(E, cls, keys, how):
    a, C, ks = A(E), CLS[cls], KEYS[keys]
    d = filled(a, ks, 'v')
    f = E.get(build(E, C, d, how))
    E.check('len', E.get(E.builtin(len, f)) == len(ks))
    for k in ks:
        E.check('item', E.is_(E.get(E.getitem(f, k)), d[k]))
        E.check('contains', E.get(E.contains(f, k)))
    E.check('iter', E.get(E.call(list, f)) == list(ks))
    E.expect('missing', E.getitem(f, 'zz'), Raises(KeyError))
    E.check('not-contains', M.NOT(E.get(E.contains(f, 'zz'))))


@case('C27', 'independent', dict(cls=list(CLS)))
def independent(E, cls):
    """later changes of the source mapping do not show"""
    a, C = A(E), CLS[cls]
    d = filled(a, 'ab', 'v')
    v = d['a']
    f = E.get(build(E, C, d))
    d['a'] = a.val('w')
    d['c'] = a.val('x')
    E.check('len', E.get(E.builtin(len, f)) == 2)
    E.check('item', E.is_(E.get(E.getitem(f, 'a')), v))


@case('C27', 'immutable', dict(cls=list(CLS), how=['set', 'new', 'del', 'attr-update', 'attr-pop']))
def immutable(E, cls, how):
    a, C = A(E), CLS[cls]
    d = filled(a, 'ab', 'v')
    f = E.get(build(E, C, d))
    w = a.val('w')
    if how in ('set', 'new'):
        E.expect('rejects', E.setitem(f, 'a' if how == 'set' else 'z', w), Raises(TypeError))
    elif how == 'del':
        E.expect('rejects', E.meth(f, '__delitem__', 'a'), Raises(AttributeError, TypeError))
    else:
        E.expect('rejects', E.attr(f, how[5:]), Raises(AttributeError))
    E.check('len', E.get(E.builtin(len, f)) == 2)
    for k in 'ab':
        E.check('item', E.is_(E.get(E.getitem(f, k)), d[k]))


PERMS = [('a',), ('a', 'b'), ('b', 'a'), ('a', 'c'), ('a', 'b', 'c'), ('c', 'a', 'b')]


@case('C27', 'equality', dict(c1=list(CLS), c2=list(CLS), k1=range(6), k2=range(6)))
def equality(E, c1, c2, k1, k2):
    a = A(E)
    x, y = PERMS[k1], PERMS[k2]
    d, e = filled(a, x, 'v'), filled(a, y, 'w')
    f, g = E.get(build(E, CLS[c1], d)), E.get(build(E, CLS[c2], e))
    want = set(x) == set(y)
    if c1 == c2 == 'ordered':
        want = x == y
    if want:
        want = M.AND(*[a.eq(d[k], e[k]) for k in x])
    r = E.get(E.op('==', f, g))
    E.check('eq', M.IFF(r, want))
    E.check('ne', M.IFF(E.get(E.op('!=', f, g)), M.NOT(want)))
    if want:
        E.check('hash', E.get(E.op('==', E.get(E.builtin(hash, f)), E.get(E.builtin(hash, g)))))


@case('C27', 'equals-mapping', dict(cls=list(CLS), k1=range(6), k2=range(6), flip=[False, True]))
def equals_mapping(E, cls, k1, k2, flip):
    a = A(E)
    x, y = PERMS[k1], PERMS[k2]
    d, e = filled(a, x, 'v'), filled(a, y, 'w')
    f, g = E.get(build(E, CLS[cls], d)), e
    if flip:
        f, g = g, f
    want = set(x) == set(y)
    if want:
        want = M.AND(*[a.eq(d[k], e[k]) for k in x])
    E.check('eq', M.IFF(E.get(E.op('==', f, g)), want))
    E.check('ne', M.IFF(E.get(E.op('!=', f, g)), M.NOT(want)))


@case('C27', 'other-mappings', dict(cls=list(CLS)), bounded='dictionaries of at most 3 small keys and values, five mapping types')
def other_mappings(E, cls):
    g = Gen(E, [])
    d, e = ({k: g.pick([0, 1, 'x']) for k in g.pick(list(itertools.permutations('abc', n)))} for n in (g.pick([1, 2, 3]), g.pick([1, 2, 3])))
    f = CLS[cls](d)
    same = d == e
    for wrap in (dict, types.MappingProxyType, UserDict):
        E.check('eq', (f == wrap(e)) is same and (wrap(e) == f) is same and (f != wrap(e)) is (not same))
    od = same and (cls == 'plain' or list(d) == list(e))
    E.check('ordered', (f == OrderedDict(e)) is od)
    h = CLS[cls](list(e.items()))
    E.check('hash', (f == h) is od and (not od or hash(f) == hash(h)))
    E.check('views', list(f.items()) == list(d.items()) and list(f.keys()) == list(d) and list(f.values()) == list(d.values()) and f.get('zz') is None)
    E.check('key', {f: 1}[CLS[cls](d)] == 1)
    E.check('unhashable', unhashable(CLS[cls]))


def unhashable(C):
    try:
        C(a=[1])
        return False
    except TypeError:
        return True


# ------------------------------------------------------------------ typed properties
@case('C27', 'property-class', dict(C=[0, 1]))
def prop_class(E, C):
    C = [Holder, SubHolder][C]
    E.check('type', E.get(E.attr(C, 'foo')) is FA)
    E.check('read-only', E.get(E.attr(C, 'ro')) is FB)
    E.check('write-only', E.get(E.attr(C, 'wo')) is FB)


@case('C27', 'property-get', dict(C=[0, 1]))
def prop_get(E, C):
    a, C = A(E), [Holder, SubHolder][C]
    v = a.val('v')
    o = E.obj(C, x=v)
    E.check('value', E.is_(E.get(E.attr(o, 'foo')), v))
    E.check('value-ro', E.is_(E.get(E.attr(o, 'ro')), v))
    E.expect('write-only', E.attr(o, 'wo'), Raises(AttributeError))
    E.expect('empty', E.attr(o, 'none'), Raises(AttributeError))


@case('C27', 'property-set', dict(C=[0, 1], p=['foo', 'wo', 'ro', 'none']))
def prop_set(E, C, p):
    a, C = A(E), [Holder, SubHolder][C]
    v, w = a.val('v'), a.val('w')
    o = E.obj(C, x=v)
    E.mutates(o)
    r = E.setattr(o, p, w)
    T = {'foo': FA, 'wo': FB, 'ro': FB, 'none': FA}[p]
    if p in ('ro', 'none'):
        E.expect('no-setter', r, Raises(AttributeError))
        E.check('kept', E.is_(E.get(E.attr(o, 'x')), v))
    elif a.isinst(w, T):
        E.get(r)
        E.check('stored', E.is_(E.get(E.attr(o, 'x')), w))
        E.check('read', E.is_(E.get(E.attr(o, 'ro')), w))
    else:
        E.expect('wrong-type', r, Raises(TypeError))
        E.check('kept', E.is_(E.get(E.attr(o, 'x')), v))


@case('C27', 'property-delete', {}, bounded='one class')
def prop_delete(E):
    for C in (Holder, SubHolder):
        o = C(FA(1))
        for p in ('ro', 'wo', 'none'):
            try:
                delattr(o, p)
                E.check('no-deleter', False)
            except AttributeError:
                E.check('kept', o.x == FA(1))
        del o.foo
        E.check('deleted', o.x is None)
        E.check('doc', C.__dict__.get('foo', Holder.__dict__['foo']).__doc__ == 'the foo')
