"""C20 enumerate lists every value exactly once."""
from collections import Counter
from hwtypes import BitVector
from ..spec import case
from ..typedom import TD
from ..adtgen import Gen, build, values, encode, unrelated
from ..adthelp import FA, FB

LEAVES = [FA, FB, BitVector[3], BitVector[1]]


def exactly_once(E, d):
    E.require(unrelated(d))
    T = build(d)
    want = Counter(values(d))
    if sum(want.values()) > 3000:
        return
    got = Counter()
    E.note('type', repr(d))
    for v in T.enumerate():
        E.check('instance', isinstance(v, T))
        got[encode(v, d)] += 1
    E.note('missing', repr(list((want - got).items())[:3]))
    E.note('extra', repr(list((got - want).items())[:3]))
    E.check('exactly-once', got == want)
    again = Counter(encode(v, d) for v in T.enumerate())
    E.check('repeatable', again == got)


BOUND = 'type trees of depth at most {}, at most 3 fields a node (6 in flat types), enumerated from the smallest up and then sampled'


@case('C20', 'flat', dict(kind=['tuple', 'anon', 'product', 'sum', 'union', 'enum']), bounded=BOUND.format(1))
def flat(E, kind):
    g = Gen(E, LEAVES, [kind, 'enum'])
    d = g.desc(1)
    E.require(d[0] == kind)
    exactly_once(E, d)


@case('C20', 'nested', dict(kind=['tuple', 'anon', 'product', 'sum', 'union'], depth=[2, 3]), bounded=BOUND.format(3))
def nested(E, kind, depth):
    g = Gen(E, LEAVES)
    k = g.pick([1, 2])
    sub = [g.desc(depth - 1, False) for _ in range(k)]
    d = {'tuple': ('tuple', *sub), 'sum': ('sum', *sub)}.get(kind)
    if d is None:
        fs = tuple(zip('xyz', sub))
        d = ('anon', *fs) if kind == 'anon' else (kind, 'Top', *fs)
    exactly_once(E, d)


@case('C20', 'node', dict(kind=['tuple', 'anon', 'product', 'sum', 'union', 'enum']))
def node(E, kind):
    """one level of any type with any number of arbitrary fields; below it, the induction hypothesis"""
    if not E.symbolic:
        return flat(E, kind)
    t = TD(E)
    T = t.bound(kind)
    t.enumerated('enumerate', E.meth(T, 'enumerate'), T)
