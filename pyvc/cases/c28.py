"""C28 formula constructors denote conjunction, disjunction and implication."""
from hwtypes import smt_utils as U
from ..spec import case, Raises
from ..fmdom import F, SMT
from ..helpers import Node, Plain
from ..adtgen import Gen
from hwtypes import SMTBit
from .. import smath as M

OPS = {'And': (U.And, M.AND, True), 'Or': (U.Or, M.OR, False)}


def node(E, f, name, how):
    """an argument and its value: a bit, or any constructor that denotes a bit"""
    b = f.bit(name)
    return (b if how == 'bit' else E.get(E.build(Node, b))), f.b(b)


@case('C28', 'any-list', dict(op=list(OPS), wrap=[False, True]))
def any_list(E, op, wrap):
    """a list of any length of bits and constructors"""
    f = F(E, 'smt')
    n = E.int('n', 0, kind='width')
    l, bs = f.bit_list('v', n, Node if wrap else None)
    c = E.get(E.build(OPS[op][0], l))
    r = E.get(E.meth(c, 'to_hwtypes'))
    E.check('type', E.same_type(E.typeof(r), SMT.Bit))
    want = E.every(bs) if op == 'And' else M.NOT(E.every(bs, negate=True))
    E.check('value', M.IFF(f.b(r), want))


@case('C28', 'list', dict(op=list(OPS), kinds=[(), ('bit',), ('node',), ('bit', 'bit'), ('node', 'bit'), ('bit', 'node'),
                                               ('node', 'node', 'bit'), ('bit', 'bit', 'bit', 'node'), ('bit',) * 6]))
def lists(E, op, kinds):
    f = F(E, 'smt')
    cls, comb, unit = OPS[op]
    args = [node(E, f, f'v{i}', k) for i, k in enumerate(kinds)]
    c = E.get(E.build(cls, [a for a, _ in args]))
    E.expect('value', E.meth(c, 'to_hwtypes'), f.mkbit(comb(*[b for _, b in args]) if args else unit))


INNER = {'bit': 'x', 'and0': ('And',), 'and1': ('And', 'x'), 'and2': ('And', 'x', 'x'), 'or0': ('Or',), 'or2': ('Or', 'x', 'x'), 'implies': ('Implies', 'x', 'x'),
         'deep': ('Or', ('Implies', 'x', ('And', 'x', 'x')), 'x')}


@case('C28', 'position', dict(op=['And', 'Or', 'Implies'], k=list(INNER), length=[1, 2, 3, 4], at=[0, 1, 2, 3], fill=['bit', 'implies', 'and2']),
      when=lambda op, k, length, at, fill: at < length and (op != 'Implies' or length == 2) and (length < 4 or fill == 'bit'))
def position(E, op, k, length, at, fill):
    """a constructor of every kind at every place among others"""
    f = F(E, 'smt')
    c, v = build(E, f, (op,) + tuple(INNER[k if i == at else fill] for i in range(length)), [0])
    E.expect('value', E.meth(c, 'to_hwtypes'), f.mkbit(v))
    E.expect('again', E.meth(c, 'to_hwtypes'), f.mkbit(v))


def any_tree(g, depth):
    k = g.pick(['x', 'And', 'Or', 'Implies']) if depth else 'x'
    if k == 'x':
        return 'x'
    return (k,) + tuple(any_tree(g, depth - 1) for _ in range(2 if k == 'Implies' else g.pick([0, 1, 2, 3, 4, 5])))


@case('C28', 'random-tree', dict(depth=[2, 3]), bounded='formula trees of depth at most 3 with at most 5 members a node, sampled')
def random_tree(E, depth):
    g = Gen(E, [])
    t = any_tree(g, depth)
    E.note('tree', repr(t))
    vals = []

    def mk(t):
        if t == 'x':
            vals.append(g.pick([False, True]))
            return SMTBit(vals[-1]), vals[-1]
        args = [mk(s) for s in t[1:]]
        if t[0] == 'Implies':
            (a, x), (b, y) = args
            return U.Implies(a, b), (not x) or y
        return OPS[t[0]][0]([a for a, _ in args]), (all if t[0] == 'And' else any)(b for _, b in args)
    c, v = mk(t)
    r = (c if t == 'x' else c.to_hwtypes()).value
    E.check('value', r.simplify().constant_value() is v)
    if t != 'x':
        E.check('again', c.to_hwtypes().value is r)


@case('C28', 'repeat', dict(op=list(OPS)))
def repeat(E, op):
    """the same arguments again, after the first conversion"""
    f = F(E, 'smt')
    cls, comb, unit = OPS[op]
    args = [node(E, f, f'v{i}', k) for i, k in enumerate(('bit', 'node', 'bit'))]
    c = E.get(E.build(cls, [a for a, _ in args]))
    E.get(E.meth(c, 'to_hwtypes'))
    E.expect('value', E.meth(c, 'to_hwtypes'), f.mkbit(comb(*[b for _, b in args])))


@case('C28', 'implies', dict(p=['bit', 'node'], q=['bit', 'node']))
def implies(E, p, q):
    f = F(E, 'smt')
    (a, x), (b, y) = node(E, f, 'p', p), node(E, f, 'q', q)
    c = E.get(E.build(U.Implies, a, b))
    E.expect('value', E.meth(c, 'to_hwtypes'), f.mkbit(M.OR(M.NOT(x), y)))


def build(E, f, t, n):
    """formula tree and its value"""
    if t == 'x':
        b = f.bit(f'x{n[0]}')
        n[0] += 1
        return b, f.b(b)
    if t[0] == 'Implies':
        (a, x), (b, y) = build(E, f, t[1], n), build(E, f, t[2], n)
        return E.get(E.build(U.Implies, a, b)), M.OR(M.NOT(x), y)
    cls, comb, unit = OPS[t[0]]
    args = [build(E, f, s, n) for s in t[1:]]
    return E.get(E.build(cls, [a for a, _ in args])), comb(*[b for _, b in args]) if args else unit


TREES = [('And', ('Or', 'x', 'x'), ('Implies', 'x', ('And', 'x', ('Or',)))), ('Implies', ('Implies', 'x', 'x'), ('Or', ('And',), 'x')),
         ('Or', ('And', ('Or', ('And', 'x', 'x'), 'x'), 'x'), 'x'), ('Implies', ('And',), ('Or',)), ('And', ('And', ('And', 'x'))),
         ('Or', ('Implies', ('Or', 'x', 'x'), ('And', 'x', 'x')), ('Implies', 'x', ('Implies', 'x', 'x')))]


@case('C28', 'tree', dict(t=TREES))
def tree(E, t):
    f = F(E, 'smt')
    c, v = build(E, f, t, [0])
    E.expect('value', E.meth(c, 'to_hwtypes'), f.mkbit(v))


@case('C28', 'no-alias', dict(op=list(OPS), how=['append', 'setitem', 'clear']))
def alias(E, op, how):
    f = F(E, 'smt')
    cls, comb, unit = OPS[op]
    (a, x), (b, y), (c, z) = [node(E, f, n, 'bit') for n in 'abc']
    l = [a, b]
    o = E.get(E.build(cls, l))
    if how == 'append':
        l.append(c)
    elif how == 'setitem':
        l[0] = c
    else:
        l.clear()
    E.expect('value', E.meth(o, 'to_hwtypes'), f.mkbit(comb(x, y)))


def foreign(E, f, k):
    n = E.int('n', 1, kind='width')
    return {'True': lambda: True, 'int': lambda: E.int('k'), 'Plain': lambda: E.obj(Plain), 'None': lambda: None, 'str': lambda: 'x',
            'vector': lambda: f.bv('v', SMT.BV, n), 'formula': lambda: f.formula('v', 'bool'), 'list': lambda: [f.bit('v')],
            'class': lambda: U.And}[k]()


FOREIGN = ['True', 'int', 'Plain', 'None', 'str', 'vector', 'formula', 'list', 'class']


@case('C28', 'rejects', dict(op=list(OPS), k=FOREIGN, at=[0, 1, 2]))
def rejects(E, op, k, at):
    f = F(E, 'smt')
    l = [f.bit('a'), E.get(E.build(Node, f.bit('b')))]
    l.insert(at, foreign(E, f, k))
    E.expect('rejects', E.build(OPS[op][0], l), Raises(ValueError))


@case('C28', 'implies-rejects', dict(k=FOREIGN, at=[0, 1]))
def implies_rejects(E, k, at):
    f = F(E, 'smt')
    l = [f.bit('a')]
    l.insert(at, foreign(E, f, k))
    E.expect('rejects', E.build(U.Implies, *l), Raises(ValueError))
