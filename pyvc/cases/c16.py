"""C16 Sized bit-vector types are unique, correctly sized and covariant."""
import gc
import hwtypes.bit_vector_abc as BA
from hwtypes import (AbstractBitVector, BitVector, UIntVector, SIntVector, SMTBitVector, SMTUIntVector, SMTSIntVector,
                     z3BitVector, z3UIntVector, z3SIntVector, RoundingMode, FPVector, SMTFPVector, AbstractFPVector)
from ..spec import case, Raises
from ..clsdom import Classes
from ..fpdom import eint, mint
from ..adthelp import SubBV, SubSub, Mixed, SubFP, SubFP2
from ..adtgen import Gen
from .. import smath as M

MCS = BA.AbstractBitVectorMeta
TYPES = {t.__name__: t for t in (AbstractBitVector, BitVector, UIntVector, SIntVector, SMTBitVector, SMTUIntVector, SMTSIntVector,
                                 z3BitVector, z3UIntVector, z3SIntVector, SubBV, SubSub, Mixed)}
GET = ['meta.getitem']


def bases_of(T, mcs=MCS):
    return [B for B in T.__mro__[1:] if isinstance(B, mcs)]


def right(E, T, n, t, mcs=MCS):
    """t is T[n]"""
    E.check('size', E.get(E.op('==', E.get(E.attr(t, 'size')), n)))
    E.check('is-sized', E.get(E.attr(t, 'is_sized')))
    E.check('unsized', E.is_(E.get(E.attr(t, 'unsized_t')), T))
    E.check('below', E.get(E.issubclass(t, T)))
    if not E.symbolic and n < 2 ** 31:
        E.check('len', len(t) == n)
    for B in bases_of(T):
        b = E.get(E.getitem(B, n))
        E.check(f'covariant-{B.__name__}', E.get(E.issubclass(t, b)))
        E.check(f'not-below-{B.__name__}', M.NOT(E.get(E.issubclass(b, t))))
        E.check(f'below-{B.__name__}', E.get(E.issubclass(t, B)))


@case('C16', 'bind', dict(T=list(TYPES)), verifies=GET)
def bind(E, T):
    C, T = Classes(E), TYPES[T]
    n = E.int('n')
    o = E.getitem(T, n)
    if n >= 0:
        t = E.get(o)
        right(E, T, n, t)
        E.check('same', E.is_(E.get(E.getitem(T, n)), t))
        C.invariant()
    else:
        E.expect('negative', o, Raises(ValueError))


@case('C16', 'distinct', dict(T=list(TYPES)), inline=GET)
def distinct(E, T):
    T = TYPES[T]
    n, m = E.int('n', lo=0), E.int('m', lo=0)
    t, u = E.get(E.getitem(T, n)), E.get(E.getitem(T, m))
    E.check('same-iff-size', M.IFF(E.is_(t, u), n == m))
    E.check('again', E.is_(E.get(E.getitem(T, n)), t))


@case('C16', 'distinct-bases', dict(S=list(TYPES), T=list(TYPES)), inline=GET, when=lambda S, T: S != T)
def distinct_bases(E, S, T):
    S, T = TYPES[S], TYPES[T]
    n = E.int('n', lo=0)
    s, t = E.get(E.getitem(S, n)), E.get(E.getitem(T, n))
    E.check('distinct', M.NOT(E.is_(s, t)))
    E.check('covariant', M.IFF(E.get(E.issubclass(s, t)), issubclass(S, T)))


BAD = {'float': 8.0, 'str': '8', 'none': None, 'tuple': (8,), 'type': int}


@case('C16', 'bad-index', dict(T=list(TYPES), i=list(BAD)), verifies=GET)
def bad_index(E, T, i):
    E.get(E.getitem(TYPES[T], 8)) if not E.symbolic else None
    E.expect('rejects', E.getitem(TYPES[T], BAD[i]), Raises(TypeError))


@case('C16', 'resize', dict(T=list(TYPES)), verifies=GET)
def resize(E, T):
    """an already sized type cannot be sized"""
    T = TYPES[T]
    n, m = E.int('n', lo=0), E.int('m', lo=0)
    t = E.get(E.getitem(T, n))
    E.expect('rejects', E.getitem(t, m), Raises(TypeError))
    E.check('kept', E.get(E.op('==', E.get(E.attr(t, 'size')), n)))


@case('C16', 'subclass-sized', dict(T=list(TYPES)), inline=GET)
def subclass_sized(E, T):
    T = TYPES[T]
    n = E.int('n', lo=0)
    t = E.get(E.getitem(T, n))
    s = E.get(E.call(type(T), 'Sub', (t,), {}))
    E.check('size', E.get(E.op('==', E.get(E.attr(s, 'size')), n)))
    E.check('is-sized', E.get(E.attr(s, 'is_sized')))
    E.check('below', E.get(E.issubclass(s, t)))
    E.check('new', M.NOT(E.is_(s, t)))
    E.expect('no-unsized', E.attr(s, 'unsized_t'), Raises(AttributeError))
    E.expect('resize', E.getitem(s, n), Raises(TypeError))
    E.check('original', E.is_(E.get(E.getitem(T, n)), t))


PAIRS = [('BitVector', 'AbstractBitVector'), ('UIntVector', 'BitVector'), ('SIntVector', 'BitVector'), ('SubSub', 'SubBV'), ('Mixed', 'SubBV'),
         ('SMTSIntVector', 'SMTBitVector')]


@case('C16', 'mixing-sizes', dict(pair=range(len(PAIRS)), flip=[False, True]), inline=GET)
def mixing(E, pair, flip):
    S, T = (TYPES[x] for x in PAIRS[pair])
    n, m = E.int('n', lo=0), E.int('m', lo=0)
    s, t = E.get(E.getitem(S, n)), E.get(E.getitem(T, m))
    if n == m and not flip:
        u = E.get(E.call(type(S), 'Sub', (s, t), {}))
        E.check('size', E.get(E.op('==', E.get(E.attr(u, 'size')), n)))
    elif n != m:
        E.expect('rejects', E.call(type(S), 'Sub', (t, s) if flip else (s, t), {}), Raises(TypeError))


@case('C16', 'reserved', dict(T=['BitVector', 'SMTBitVector']), inline=GET)
def reserved(E, T):
    T = TYPES[T]
    n = E.int('n', lo=0)
    t = E.get(E.getitem(T, n))
    E.expect('rejects', E.call(type(T), 'Sub', (t,), {'_info_': (T, n)}), Raises(TypeError))


@case('C16', 'unsized-subclass', dict(T=list(TYPES)), inline=GET)
def unsized_subclass(E, T):
    """a new unsized subclass is covariant with its base"""
    T = TYPES[T]
    n = E.int('n', lo=0)
    S = type(T)('Fresh', (T,), {})
    E.check('unsized', not S.is_sized and S.unsized_t is S and S.size is None)
    s, t = E.get(E.getitem(S, n)), E.get(E.getitem(T, n))
    E.check('below', E.get(E.issubclass(s, t)))
    E.check('size', E.get(E.op('==', E.get(E.attr(s, 'size')), n)))
    E.check('distinct', M.NOT(E.is_(s, t)))


# ------------------------------------------------------------------ floating-point types
FPT = {t.__name__: t for t in (AbstractFPVector, FPVector, SMTFPVector, SubFP, SubFP2)}
FMCS = type(AbstractFPVector)
MODES = list(RoundingMode)



@case('C16', 'fp-bind', dict(T=list(FPT), mode=[0, 4], ieee=[True, False]))
def fp_bind(E, T, mode, ieee):
    C, T = Classes(E), FPT[T]
    e, m = eint(E), mint(E)
    mode = MODES[mode % len(MODES)]
    o = E.getitem(T, (e, m, mode, ieee))
    if e >= 1 and m >= 1:
        t = E.get(o)
        E.check('exponent', E.get(E.op('==', E.get(E.attr(t, 'exponent_size')), e)))
        E.check('mantissa', E.get(E.op('==', E.get(E.attr(t, 'mantissa_size')), m)))
        E.check('mode', E.get(E.attr(t, 'mode')) is mode)
        E.check('ieee', E.get(E.attr(t, 'ieee_compliance')) is ieee)
        E.check('size', E.get(E.op('==', E.get(E.attr(t, 'size')), e + m + 1)))
        E.check('unbound', E.is_(E.get(E.attr(t, 'unbound_t')), T))
        E.check('bound', E.get(E.attr(t, 'is_bound')))
        E.check('below', E.get(E.issubclass(t, T)))
        for B in bases_of(T, FMCS):
            b = E.get(E.getitem(B, (e, m, mode, ieee)))
            E.check(f'covariant-{B.__name__}', E.get(E.issubclass(t, b)))
        E.check('same', E.is_(E.get(E.getitem(T, (e, m, mode, ieee))), t))
        E.expect('rebind', E.getitem(t, (e, m, mode, ieee)), Raises(TypeError))
        C.invariant()
    else:
        E.expect('rejects', o, Raises(ValueError))


@case('C16', 'fp-distinct', dict(T=list(FPT), other=['same', 'mode', 'ieee']))
def fp_distinct(E, T, other):
    T = FPT[T]
    e, m, e2, m2 = eint(E, 'e', 1), mint(E, 'm', 1), eint(E, 'e2', 1), mint(E, 'm2', 1)
    t = E.get(E.getitem(T, (e, m, MODES[0], True)))
    u = E.get(E.getitem(T, (e2, m2, MODES[other == 'mode'], other != 'ieee')))
    E.check('same-iff-binding', M.IFF(E.is_(t, u), M.AND(e == e2, m == m2) if other == 'same' else False))


@case('C16', 'fp-bad', dict(T=list(FPT), i=range(7)))
def fp_bad(E, T, i):
    T = FPT[T]
    n = eint(E, 'n', 1)
    E.get(E.getitem(T, (1, n, MODES[0], True)))
    bad = [(n, 8, MODES[0]), (8, n, True, MODES[0]), (8.0, n, MODES[0], True), (8, n, MODES[0], 1), (8, n, None, True), (True, n, MODES[0], True), (8, n, 1, True)][i]
    E.expect('rejects', E.getitem(T, bad), Raises(IndexError, TypeError, ValueError))


def sub_name(E, e, m):
    # SMTFPVector names its function symbols after the class: one name per format
    return 'Sub' if E.symbolic else f'Sub_{e}_{m}'


@case('C16', 'fp-mixing', dict(pair=[('FPVector', 'AbstractFPVector'), ('SubFP', 'FPVector'), ('SMTFPVector', 'AbstractFPVector')], flip=[False, True],
                              other=['same', 'mode', 'ieee', 'both']))
def fp_mixing(E, pair, flip, other):
    """a class below two formats: the formats have to agree in every component"""
    S, T = FPT[pair[0]], FPT[pair[1]]
    e, m, e2, m2 = eint(E, 'e', 1), mint(E, 'm', 1), eint(E, 'e2', 1), mint(E, 'm2', 1)
    s = E.get(E.getitem(S, (e, m, MODES[0], True)))
    t = E.get(E.getitem(T, (e2, m2, MODES[other in ('mode', 'both')], other not in ('ieee', 'both'))))
    if other == 'same' and e == e2 and m == m2:
        if not flip:
            u = E.get(E.call(type(S), sub_name(E, e, m), (s, t), {}))
            E.check('exponent', E.get(E.op('==', E.get(E.attr(u, 'exponent_size')), e)))
            E.check('mantissa', E.get(E.op('==', E.get(E.attr(u, 'mantissa_size')), m)))
    else:
        E.expect('rejects', E.call(type(S), 'Sub', (t, s) if flip else (s, t), {}), Raises(TypeError))


@case('C16', 'fp-subclass', dict(T=list(FPT), mode=[0, 4], ieee=[True, False]))
def fp_subclass(E, T, mode, ieee):
    """a class below a format has the format"""
    T, mode = FPT[T], MODES[mode % len(MODES)]
    e, m = eint(E, 'e', 1), mint(E, 'm', 1)
    t = E.get(E.getitem(T, (e, m, mode, ieee)))
    s = E.get(E.call(type(T), sub_name(E, e, m), (t,), {}))
    E.check('exponent', E.get(E.op('==', E.get(E.attr(s, 'exponent_size')), e)))
    E.check('mantissa', E.get(E.op('==', E.get(E.attr(s, 'mantissa_size')), m)))
    E.check('mode', E.get(E.attr(s, 'mode')) is mode)
    E.check('ieee', E.get(E.attr(s, 'ieee_compliance')) is ieee)
    E.check('bound', E.get(E.attr(s, 'is_bound')))
    E.check('below', E.get(E.issubclass(s, t)))
    E.check('new', M.NOT(E.is_(s, t)))
    E.expect('no-unbound', E.attr(s, 'unbound_t'), Raises(AttributeError))
    E.expect('rebind', E.getitem(s, (e, m, mode, ieee)), Raises(TypeError))
    E.check('original', E.is_(E.get(E.getitem(T, (e, m, mode, ieee))), t))


# ------------------------------------------------------------------ histories of creation
@case('C16', 'history', dict(k=[0, 1, 2]), bounded='histories of at most 8 requests over thirteen types and five sizes, with drops and collections')
def history(E, k):
    g = Gen(E, [])
    names = list(TYPES)
    names = [names[:4], names[4:8], names[8:]][k]
    Top = type(BitVector)('Top', (TYPES[g.pick(names)],), {})
    ts = [TYPES[x] for x in names] + [Top]
    alive = {}
    for _ in range(g.pick([3, 5, 8])):
        T, n = g.pick(ts), g.pick([0, 1, 2, 8, 33])
        t = T[n]
        E.check('sized', t.size == n and t.unsized_t is T and issubclass(t, T) and len(t) == n and t.is_sized)
        for (T2, n2), t2 in alive.items():
            E.check('unique', (t is t2) == (T is T2 and n == n2))
            E.check('covariant', issubclass(t, t2) == (issubclass(T, T2) and n == n2) and issubclass(t2, t) == (issubclass(T2, T) and n == n2))
        alive[T, n] = t
        if g.pick([0, 0, 1]):
            alive.pop(g.pick(list(alive)))
            t = None
            if g.pick([0] * 9 + [1]):
                gc.collect()
        if g.pick([0, 0, 1]):
            for bad, ex in ((-1, ValueError), (8.0, TypeError), ('x', TypeError)):
                try:
                    T[bad]
                    E.check('rejected', False)
                except ex:
                    pass
