"""C22 Rebinding replaces exactly the requested types."""
from hwtypes import AbstractBitVector, AbstractBit, BitVector, UIntVector, SIntVector, SMTSIntVector, Bit, SMTBitVector, SMTBit, z3BitVector
from hwtypes.adt import Tuple, Product, TaggedUnion, Enum
from hwtypes.adt_util import rebind_bitvector, rebind_keep_modifiers, rebind_type
from ..spec import case
from .. import smath as M
from ..typedom import TD
from ..adtgen import Gen, build, subst, children, norm, read, fields
from ..adthelp import FA, FB, FC, FA2, M1, M2

LEAVES = [FA, FB, FA2, BitVector[3], int]
BOUND = 'type trees of depth at most 3, at most 3 fields a node (6 in flat types), enumerated from the smallest up and then sampled'


def rebound(d, A, B, sub, rec):
    """what d.rebind(A, B, sub, rec) denotes (A, B descriptions)"""
    if d[0] == 'enum':
        return d

    def one(f):
        T, a = build(f), build(A)
        if T == a or (sub and issubclass(T, a)):
            return B
        if rec and f[0] != 'leaf':
            return rebound(f, A, B, sub, True)
        return f
    return children(d, one)


def depth_pick(g):
    return g.desc(g.pick([1, 2, 3]))


@case('C22', 'rebind', dict(sub=[False, True], rec=[True, False], target=['leaf', 'inner']), bounded=BOUND)
def rebind(E, sub, rec, target):
    g = Gen(E, LEAVES)
    d = depth_pick(g)
    T = build(d)
    if target == 'leaf':
        A = ('leaf', g.pick([FA, FB, BitVector[3], FC]))
        B = ('leaf', g.pick([FC, FA2, FA, BitVector[4]]))
        B = g.pick([B, B, ('tuple', A), ('anon', ('x', A))])
    else:
        inner = [f for f in all_nodes(d) if f is not d]
        A = g.pick(inner or [('leaf', FA)])
        B = g.pick([('leaf', FC), ('tuple', ('leaf', FC)), ('enum', 'En', ('a', 0)), ('tuple', A), *inner])
    E.note('type', repr(d))
    E.note('A', repr(A))
    E.note('B', repr(B))
    before = norm_read(T)
    want = build(rebound(d, A, B, sub, rec))
    got = T.rebind(build(A), build(B), sub, rec)
    E.note('got', repr(read(got)))
    E.check('result', got is want)
    E.check('original', norm_read(T) == before)
    E.check('original-same', build(d) is T)


FAM = [BitVector, SMTBitVector, z3BitVector]
LEAF = [AbstractBitVector, BitVector, UIntVector, SIntVector, SMTBitVector, SMTSIntVector, z3BitVector]
NODE = ['tuple', 'anon', 'product', 'sum', 'union', 'enum']


@case('C22', 'rebind-node', dict(kind=NODE, sub=[False, True], rec=[False, True]))
def rebind_node(E, kind, sub, rec):
    """one level of any type with any number of arbitrary fields; below it, the induction hypothesis"""
    if not E.symbolic:
        return rebind(E, sub, rec, 'leaf')
    t = TD(E)
    T = t.bound(kind)
    A, B = t.comp('A'), t.comp('B')
    out = E.meth(T, 'rebind', A, B, sub, rec)
    if kind == 'enum':
        E.check('enum', E.is_(E.get(out), T))
        return
    t.node('rebind', out, T, lambda f: t.rebound(f, A, B, sub, rec), cached=T.cached)


@case('C22', 'bitvector-node', dict(kind=NODE, pair=[0, 1, 2], keep=[False, True]), verifies=['rebind_bitvector.node'])
def bitvector_node(E, kind, pair, keep):
    if not E.symbolic:
        return keep_mods(E, 'bitvector') if keep else bitvector(E, pair)
    t = TD(E)
    T = t.bound(kind)
    b0, b1 = PAIR[pair]
    out = E.call(rebind_bitvector, T, b0, b1, keep)
    if kind == 'enum':
        E.check('enum', E.is_(E.get(out), T))
    else:
        t.node('rebind', out, T, lambda f: t.rbv(f, b0, b1, keep), cached=T.cached)


@case('C22', 'bitvector-modified', dict(pair=[0, 1, 2]))
def bitvector_modified(E, pair):
    if not E.symbolic:
        return keep_mods(E, 'bitvector')
    t = TD(E)
    T = t.modified('T')
    b0, b1 = PAIR[pair]
    E.check('wrapped', t.same(E.call(rebind_bitvector, T, b0, b1, True), t.wrapped(T, lambda x: t.rbv(x, b0, b1, True))))


@case('C22', 'bitvector-other', dict(pair=[0, 1, 2], keep=[False, True]))
def bitvector_other(E, pair, keep):
    """types that are neither algebraic nor below the bit-vector type"""
    b0, b1 = PAIR[pair]
    if not E.symbolic:
        x = [int, FA, 3, 'a', None, En][E.src.choice('x!', 6)]
        return E.check('same', rebind_bitvector(x, b0, b1, keep) is x)
    t = TD(E)
    T = t.leaf('T')
    E.require(M.NOT(t.below(T, b0)))
    E.check('same', E.is_(E.get(E.call(rebind_bitvector, T, b0, b1, keep)), T))


@case('C22', 'bitvector-sized', dict(L=range(7), pair=[0, 1, 2], keep=[False, True]), inline=['meta.getitem'])
def bitvector_sized(E, L, pair, keep):
    """a vector type of any size"""
    L = LEAF[L]
    b0, b1 = PAIR[pair]
    n = E.int('n', lo=0)
    T = E.get(E.getitem(L, n))
    r = E.get(E.call(rebind_bitvector, T, b0, b1, keep))
    want = E.get(E.getitem(b1, n)) if issubclass(L, b0) else T
    E.check('result', E.is_(r, want))
    E.check('again', E.is_(E.get(E.call(rebind_bitvector, r, b0, b1, keep)), r))
    u = E.get(E.call(rebind_bitvector, L, b0, b1, keep))
    E.check('unsized', E.is_(u, b1 if issubclass(L, b0) else L))


@case('C22', 'family-node', dict(kind=NODE[:-1], fam=[0, 1, 2]))
def family_node(E, kind, fam):
    """first the vectors of every field, then the bits"""
    if not E.symbolic:
        return family(E, fam)
    t, F = TD(E), FAM[fam].get_family()
    T = t.bound(kind)
    out = E.call(rebind_type, T, F)
    t.node('rebind', out, T, lambda f: t.rebound_t(t.rbv(f, AbstractBitVector, F.BitVector, False), AbstractBit, F.Bit, True, True), cached=T.cached)


@case('C22', 'family-modified', dict(fam=[0, 1, 2]))
def family_modified(E, fam):
    if not E.symbolic:
        return family(E, fam)
    t, F = TD(E), FAM[fam].get_family()
    T = t.modified('T', True)
    E.check('wrapped', t.same(E.call(rebind_type, T, F), t.wrapped(T, lambda x: t.family(x, F))))


@case('C22', 'family-sized', dict(L=range(7), fam=[0, 1, 2]), inline=['meta.getitem'])
def family_sized(E, L, fam):
    L, F = LEAF[L], FAM[fam].get_family()
    n = E.int('n', lo=0)
    T = E.get(E.getitem(L, n))
    E.check('result', E.is_(E.get(E.call(rebind_type, T, F)), E.get(E.getitem(F.BitVector, n))))
    E.check('unsized', E.is_(E.get(E.call(rebind_type, L, F)), F.BitVector))


@case('C22', 'family-bit', dict(B=[0, 1, 2], fam=[0, 1, 2]))
def family_bit(E, B, fam):
    F = FAM[fam].get_family()
    E.check('result', E.is_(E.get(E.call(rebind_type, FAM[B].get_family().Bit, F)), F.Bit))


@case('C22', 'family-other', dict(fam=[0, 1, 2]))
def family_other(E, fam):
    F = FAM[fam].get_family()
    if not E.symbolic:
        x = [int, FA, 3, 'a', None, En][E.src.choice('x!', 6)]
        return E.check('same', rebind_type(x, F) is x)
    t = TD(E)
    T = t.leaf('T')
    E.require(M.NOT(t.below(T, AbstractBitVector)))
    E.require(M.NOT(t.below(T, AbstractBit)))
    E.check('same', E.is_(E.get(E.call(rebind_type, T, F)), T))


@case('C22', 'keep-node', dict(kind=NODE))
def keep_node(E, kind):
    if not E.symbolic:
        return keep_mods(E, 'type')
    t = TD(E)
    T = t.bound(kind)
    A, B = t.comp('A'), t.comp('B')
    E.require(M.NOT(t.under(T, A)))
    out = E.call(rebind_keep_modifiers, T, A, B)
    if kind == 'enum':
        E.check('enum', E.is_(E.get(out), T))
    else:
        t.node('rebind', out, T, lambda f: t.keep(f, A, B), cached=T.cached)


@case('C22', 'keep-hit', dict(kind=NODE + ['leaf']))
def keep_hit(E, kind):
    """a type at or below A becomes B, whatever it is made of"""
    if not E.symbolic:
        return E.check('hit', rebind_keep_modifiers(*[(FA2, FA, FC), (FA, FA, FC), (FA2, FA2, Tuple[FA2])][E.src.choice('x!', 3)]) is not FA2)
    t = TD(E)
    T = t.leaf('T') if kind == 'leaf' else t.bound(kind)
    A, B = t.comp('A'), t.comp('B')
    E.require(t.under(T, A))
    E.check('hit', E.is_(E.get(E.call(rebind_keep_modifiers, T, A, B)), B))


@case('C22', 'keep-modified', {})
def keep_modified(E):
    if not E.symbolic:
        return keep_mods(E, 'type')
    t = TD(E)
    T = t.modified('T')
    A, B = t.comp('A'), t.comp('B')
    E.check('wrapped', t.same(E.call(rebind_keep_modifiers, T, A, B), t.wrapped(T, lambda x: t.keep(x, A, B))))


@case('C22', 'keep-other', {})
def keep_other(E):
    if not E.symbolic:
        x = [int, FA, 3, 'a', None, En][E.src.choice('x!', 6)]
        return E.check('same', rebind_keep_modifiers(x, FC, FB) is x)
    t = TD(E)
    T = t.leaf('T')
    A, B = t.comp('A'), t.comp('B')
    E.require(M.NOT(t.under(T, A)))
    E.check('same', E.is_(E.get(E.call(rebind_keep_modifiers, T, A, B)), T))


def norm_read(T):
    return norm(read(T))


def all_nodes(d):
    out = [d]
    for _, f in fields(d):
        out += all_nodes(f)
    return out


@case('C22', 'absent', dict(rec=[True, False]), bounded=BOUND)
def absent(E, rec):
    g = Gen(E, [FA, FB, BitVector[3]])
    d = depth_pick(g)
    T = build(d)
    E.note('type', repr(d))
    E.check('same', T.rebind(FC, FA2, g.pick([False, True]), rec) is T)
    E.check('identity', T.rebind(FA, FA, False, rec) is T)


class Meth(Product):
    x = FA
    y = Tuple[FA, FB]

    def size(self):
        return 2


class MethU(TaggedUnion):
    x = FA
    y = Tuple[FA, FB]

    def size(self):
        return 2


class En(Enum):
    a = 0
    b = 1


@case('C22', 'declared', dict(T=[0, 1, 2, 3, 4]), bounded='five declared types')
def declared(E, T):
    """classes written out with methods, and uncached ones"""
    un = type(Product)('Un', (Product,), {'x': FA, 'y': Tuple[FA, FB]}, cache=False)
    unu = type(TaggedUnion)('Un', (TaggedUnion,), {'x': FA, 'y': Tuple[FA, FB]}, cache=False)
    C = [Meth, MethU, En, un, unu][T]
    E.check('absent', C.rebind(FC, FA2) is C)
    if C is En:
        E.check('enum', C.rebind(FA, FB) is C and C.rebind(int, FB, True) is C)
        return
    R = C.rebind(FA, FC)
    E.check('fields', list(R.field_dict.items()) == [('x', FC), ('y', Tuple[FC, FB])])
    E.check('original', list(C.field_dict.items()) == [('x', FA), ('y', Tuple[FA, FB])])
    E.check('name', R.__name__ == C.__name__ and R.unbound_t is C.unbound_t and R is not C)
    E.check('flat', list(C.rebind(FA, FC, rebind_recursive=False).field_dict.items()) == [('x', FC), ('y', Tuple[FA, FB])])


BVL = [BitVector[3], BitVector[8], SIntVector[3], BitVector, SMTBitVector[3], SMTBitVector[5], Bit, FA]


def bv_leaf(T, b0, b1):
    if isinstance(T, type) and issubclass(T, b0):
        return b1[T.size] if T.is_sized else b1
    return T


PAIR = [(BitVector, SMTBitVector), (AbstractBitVector, z3BitVector), (SMTBitVector, BitVector)]


@case('C22', 'bitvector', dict(pair=[0, 1, 2]), bounded=BOUND)
def bitvector(E, pair):
    b0, b1 = PAIR[pair]
    g = Gen(E, BVL)
    d = g.desc(g.pick([1, 2, 3]), g.pick([True, True, True, False]))
    T = build(d)
    E.note('type', repr(d))
    want = build(subst(d, lambda x: ('leaf', bv_leaf(x[1], b0, b1)) if x[0] == 'leaf' else None))
    E.check('result', rebind_bitvector(T, b0, b1) is want)
    E.check('original', build(d) is T)


def keep(d, leaf):
    if d[0] == 'mod':
        return ('mod', d[1], keep(d[2], leaf))
    if d[0] == 'leaf':
        return leaf(d[1])
    return children(d, lambda x: keep(x, leaf))


@case('C22', 'keep-modifiers', dict(how=['bitvector', 'type']), bounded=BOUND)
def keep_mods(E, how):
    g = Gen(E, [FA, FA2, FB] if how == 'type' else BVL, mods=(M1, M2), maxf=2)
    d = g.desc(g.pick([1, 2]), g.pick([True, True, True, False]))
    E.note('type', repr(d))
    T = build(d)
    if how == 'bitvector':
        got = rebind_bitvector(T, BitVector, SMTBitVector, True)
        want = build(keep(d, lambda x: ('leaf', bv_leaf(x, BitVector, SMTBitVector))))
    else:
        B = g.pick([('leaf', FC), ('tuple', ('leaf', FA), ('leaf', FB)), ('tuple', ('leaf', FA))])
        E.note('B', repr(B))
        got = rebind_keep_modifiers(T, FA, build(B))
        want = build(keep(d, lambda x: B if issubclass(x, FA) else ('leaf', x)))
    E.check('result', got is want)
    E.check('original', build(d) is T)


@case('C22', 'family', dict(fam=[0, 1, 2]), bounded=BOUND)
def family(E, fam):
    F = [BitVector, SMTBitVector, z3BitVector][fam].get_family()
    g = Gen(E, [BitVector[3], BitVector[8], SMTBitVector[3], SIntVector[4], Bit, SMTBit, FA, int])
    d = g.desc(g.pick([1, 2, 3]), g.pick([True, True, True, False]))
    mods = [m for m in (M1, M2) if not g.pick([1, 0])]
    E.note('type', repr(d))

    def leaf(x):
        if x[0] != 'leaf':
            return None
        if issubclass(x[1], AbstractBitVector):
            return ('leaf', F.BitVector[x[1].size])
        return ('leaf', F.Bit if issubclass(x[1], AbstractBit) else x[1])
    T, want = build(d), build(subst(d, leaf))
    for m in mods:
        T, want = m(T), m(want)
    E.check('result', rebind_type(T, F) is want)


@case('C22', 'family-foreign', {}, bounded='values and types outside the ADT and bit-vector worlds')
def foreign(E):
    F = SMTBitVector.get_family()
    for x in (int, FA, 3, 'a', None, En):
        E.check('same', rebind_type(x, F) is x)
        E.check('bv', rebind_bitvector(x, BitVector, SMTBitVector) is x)
