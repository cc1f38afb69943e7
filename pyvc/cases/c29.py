"""C29 ADT visitors reach every component exactly once through its own handler."""
from hwtypes import BitVector, Bit
from hwtypes.adt_util import ADTVisitor, ADTInstVisitor
from ..spec import case
from ..typedom import TD
from ..adtgen import Gen, build, fields, unrelated
from ..adthelp import FA, FB

LEAVES = [FA, FB, BitVector[3], Bit]
KINDS = ('tuple', 'anon', 'product', 'sum', 'union', 'enum')
HANDLER = {'enum': 'Enum', 'product': 'Product', 'tuple': 'Tuple', 'anon': 'Tuple', 'union': 'TaggedUnion', 'sum': 'Sum', 'leaf': 'leaf'}
BOUND = 'type trees of depth at most 3, at most 3 fields a node (6 in flat types), enumerated from the smallest up and then sampled'
NAMES = ('leaf', 'Enum', 'Product', 'Tuple', 'TaggedUnion', 'Sum')


def recorder(base, log, override):
    """a visitor whose handlers record the call, then do what the default handler does"""
    ns = {}
    for h in NAMES:
        def go(self, x, h=h):
            log.append((h, x))
            return getattr(base, 'visit_' + h)(self, x)
        if h in override:
            ns['visit_' + h] = go
    return type('Rec', (base,), ns)()


def walk_type(d, T):
    """expected handler calls, in order; the alternatives of a Sum or TaggedUnion (not ordered) in the type's own order"""
    out = [(HANDLER[d[0]], T)]
    if d[0] in ('leaf', 'enum'):
        return out
    fs = list(fields(d))
    if d[0] == 'sum':
        sub = [(next(y for _, y in fs if build(y) is t), t) for t in T.fields]
    else:
        if d[0] == 'union':
            fs.sort(key=lambda f: list(T.field_dict).index(f[0]))
        sub = [(y, T.field_dict[k]) for k, y in fs]
    for y, t in sub:
        out += walk_type(y, t)
    return out


@case('C29', 'types', dict(full=[True, False]), bounded=BOUND)
def types_(E, full):
    g = Gen(E, LEAVES)
    d = g.desc(g.pick([1, 2, 3]), g.pick([True, True, False]))
    T = build(d)
    E.note('type', repr(d))
    over = NAMES if full else [h for h in NAMES if g.pick([0, 1])]
    log = []
    recorder(ADTVisitor, log, over).visit(T)
    want = [(h, t) for h, t in walk_type(d, T) if h in over]
    E.note('visited', repr(log))
    E.check('handlers', len(log) == len(want) and all(a == b and x is y for (a, x), (b, y) in zip(log, want)))


def value(g, d):
    """some value of the described type, with the calls expected when visiting it"""
    k = d[0]
    if k == 'leaf':
        v = d[1](g.pick([0, 1]))
        return v, [('leaf', v)]
    T = build(d)
    if k == 'enum':
        v = T.field_dict[g.pick([x for x, _ in d[2:]])]
        return v, [('Enum', v)]
    fs = fields(d)
    if k in ('sum', 'union'):
        x, y = g.pick(fs)
        w, calls = value(g, y)
        v = T(w) if k == 'sum' else T(**{x: w})
        return v, [(HANDLER[k], v)] + calls
    ws, calls = [], []
    for x, y in fs:
        w, c = value(g, y)
        ws.append(w)
        calls += c
    v = T(*ws)
    return v, [(HANDLER[k], v)] + calls


@case('C29', 'values', dict(full=[True, False]), bounded=BOUND)
def values_(E, full):
    g = Gen(E, LEAVES)
    d = g.desc(g.pick([1, 2, 3]), g.pick([True, True, False]))
    E.require(unrelated(d))
    v, want = value(g, d)
    E.note('type', repr(d))
    over = NAMES if full else [h for h in NAMES if g.pick([0, 1])]
    log = []
    recorder(ADTInstVisitor, log, over).visit(v)
    want = [(h, t) for h, t in want if h in over]
    E.note('visited', repr(log))
    E.check('handlers', len(log) == len(want) and all(a == b and x is y for (a, x), (b, y) in zip(log, want)))


@case('C29', 'leaves', dict(x=[0, 1, 2, 3, 4, 5]), bounded='six things that are no ADT types')
def leaves(E, x):
    x = [int, 3, None, 'abc', BitVector[4], (FA, FB)][x]
    for base in (ADTVisitor, ADTInstVisitor):
        log = []
        recorder(base, log, NAMES).visit(x)
        E.check('leaf', len(log) == 1 and log[0][0] == 'leaf' and log[0][1] is x)


ALL = tuple('visit_' + h for h in NAMES)


@case('C29', 'dispatch', dict(kind=list(KINDS) + ['leaf'], what=['type', 'value']))
def dispatch(E, kind, what):
    """visit calls exactly the handler of the kind, once, with the object itself"""
    if not E.symbolic:
        return (types_ if what == 'type' else values_)(E, True)
    t = TD(E)
    if kind == 'leaf':
        x = t.leaf('x') if what == 'type' else t.value('leaf')
    else:
        x = t.bound(kind) if what == 'type' else t.value(kind)
    v = t.visitor(ADTVisitor if what == 'type' else ADTInstVisitor, ALL)
    E.get(E.meth(v, 'visit', x))
    t.handled('handler', 'visit_' + HANDLER[kind], x)


@case('C29', 'descend', dict(kind=[k for k in KINDS if k != 'enum'], what=['type', 'value']))
def descend(E, kind, what):
    """the default handler visits every field in order (every value present), whatever their number"""
    if not E.symbolic:
        return (types_ if what == 'type' else values_)(E, False)
    t = TD(E)
    x = t.bound(kind) if what == 'type' else t.value(kind)
    v = t.visitor(ADTVisitor if what == 'type' else ADTInstVisitor, ('visit',))
    E.get(E.meth(v, 'visit_' + HANDLER[kind], x))
    t.each('children', 'visit', x.n, x.elem, **({} if what == 'type' else dict(skip=lambda y: y.x_is(None))))


@case('C29', 'stop', dict(h=['visit_leaf', 'visit_Enum'], what=['type', 'value']))
def stop(E, h, what):
    """leaves and members have nothing below them"""
    if not E.symbolic:
        return leaves(E, E.src.choice('x!', 6))
    t = TD(E)
    v = t.visitor(ADTVisitor if what == 'type' else ADTInstVisitor, ('visit',))
    x = t.leaf('x')
    E.get(E.meth(v, h, x))
    E.check('nothing', not E.p.cells['trace'])
