"""C18 Sum and TaggedUnion values hold exactly one well-typed alternative."""
from ..spec import case, Raises
from ..adtdom import A
from ..adthelp import FA, FB, FC, S1, S2, S3, NamedSum, U1, U2, U2s, U3, Usub, Um
from .. import smath as M

SUMS = {'S1': S1, 'S2': S2, 'S3': S3, 'named': NamedSum}
UNIONS = {'U1': U1, 'U2': U2, 'U2s': U2s, 'U3': U3, 'sub': Usub, 'method': Um}
OTHER = {'S1': FB, 'S2': FC, 'named': FC}


def flds(C):
    """the alternatives of a Sum in a fixed order"""
    return [t for t in (FA, FB, FC) if t in C.fields]


def exact(a, v, C):
    """type(v) is one of the alternatives"""
    return M.OR(*[a.is_type(v, t) for t in flds(C)])


def of(E, a, name, T):
    """any value whose own class is T"""
    v = a.some(name, T)
    E.require(a.is_type(v, T))
    return v


def unreadable(E, label, m):
    E.expect(label, E.attr(m, 'value'), Raises(TypeError))


def holds_sum(E, a, C, s, T, v, label=''):
    """the Sum s holds v as its alternative T, and nothing else"""
    for t in flds(C):
        m = E.get(E.getitem(s, t))
        if t is T:
            E.check(f'{label}match-{t.__name__}', E.get(E.attr(m, 'match')))
            E.check(f'{label}value-{t.__name__}', E.is_(E.get(E.attr(m, 'value')), v))
        else:
            E.check(f'{label}no-match-{t.__name__}', M.NOT(E.get(E.attr(m, 'match'))))
            unreadable(E, f'{label}unreadable-{t.__name__}', m)
    E.check(f'{label}type', E.same_type(E.typeof(s), C))


def dict_sum(E, C, s, T, v, label=''):
    d = E.get(E.attr(s, 'value_dict'))
    E.check(label + 'dict-keys', set(E.get(E.call(list, d))) == set(C.fields))
    for t in flds(C):
        x = E.get(E.getitem(d, t))
        E.check(f'{label}dict-{t.__name__}', E.is_(x, v if t is T else None))
    return d


def holds_union(E, C, u, k, v, label=''):
    for name in C.field_dict:
        m = E.get(E.attr(u, name))
        if name == k:
            E.check(f'{label}match-{name}', E.get(E.attr(m, 'match')))
            E.check(f'{label}value-{name}', E.is_(E.get(E.attr(m, 'value')), v))
        else:
            E.check(f'{label}no-match-{name}', M.NOT(E.get(E.attr(m, 'match'))))
            unreadable(E, f'{label}unreadable-{name}', m)
    E.check(f'{label}type', E.same_type(E.typeof(u), C))


def dict_union(E, C, u, k, v, label=''):
    d = E.get(E.attr(u, 'value_dict'))
    E.check(label + 'dict-keys', E.get(E.call(list, d)) == list(C.field_dict))
    for name in C.field_dict:
        E.check(f'{label}dict-{name}', E.is_(E.get(E.getitem(d, name)), v if name == k else None))
    return d


def sum_ok(shape, i, j=0, **k):
    return max(i, j) < len(SUMS[shape].fields)


def union_ok(shape, i, j=0, **k):
    return max(i, j) < len(UNIONS[shape].field_dict)


def sum_two(shape, how):
    return how != 'two' or shape != 'S1'


def union_two(shape, how):
    return how != 'two' or shape != 'U1'


# ------------------------------------------------------------------ Sum
@case('C18', 'sum-construct', dict(shape=list(SUMS)))
def sum_construct(E, shape):
    a, C = A(E), SUMS[shape]
    v = a.val('v')
    s = E.build(C, v)
    if exact(a, v, C):
        s = E.get(s)
        for t in flds(C):
            if a.is_type(v, t):
                holds_sum(E, a, C, s, t, v)
                dict_sum(E, C, s, t, v)
    else:
        E.expect('rejects', s, Raises(TypeError))


@case('C18', 'sum-arity', dict(shape=list(SUMS), k=[0, 2]))
def sum_arity(E, shape, k):
    a, C = A(E), SUMS[shape]
    E.expect('rejects', E.build(C, *[a.val(f'v{i}') for i in range(k)]), Raises(TypeError, ValueError))


@case('C18', 'sum-foreign-alternative', dict(shape=list(OTHER), how=['get', 'set']))
def sum_foreign(E, shape, how):
    a, C, T = A(E), SUMS[shape], OTHER[shape]
    F = flds(C)[0]
    v = of(E, a, 'v', F)
    s = E.get(E.build(C, v))
    E.mutates(s)
    if how == 'get':
        E.expect('rejects', E.getitem(s, T), Raises(TypeError))
    else:
        E.expect('rejects', E.setitem(s, T, a.val('w')), Raises(TypeError))
    holds_sum(E, a, C, s, F, v, 'after-')


@case('C18', 'sum-assign', dict(shape=list(SUMS), i=[0, 1, 2], j=[0, 1, 2]), when=sum_ok)
def sum_assign(E, shape, i, j):
    a, C = A(E), SUMS[shape]
    fs = flds(C)
    v = of(E, a, 'v', fs[i])
    s = E.get(E.build(C, v))
    E.mutates(s)
    w = a.val('w')
    o = E.setitem(s, fs[j], w)
    if a.is_type(w, fs[j]):
        E.get(o)
        holds_sum(E, a, C, s, fs[j], w, 'after-')
        s2 = E.get(E.build(C, w))
        E.check('equals-fresh', E.get(E.op('==', s, s2)))
        E.check('same-hash', E.get(E.op('==', E.get(E.builtin(hash, s)), E.get(E.builtin(hash, s2)))))
    elif not a.isinst(w, fs[j]):
        E.expect('rejects', o, Raises(TypeError))
        holds_sum(E, a, C, s, fs[i], v, 'kept-')


@case('C18', 'sum-two-assigns', dict(shape=['S2', 'S3']))
def sum_two_assigns(E, shape):
    a, C = A(E), SUMS[shape]
    fs = flds(C)
    s = E.get(E.build(C, of(E, a, 'v', fs[0])))
    E.mutates(s)
    E.get(E.setitem(s, fs[1], of(E, a, 'w', fs[1])))
    x = of(E, a, 'x', fs[0])
    E.get(E.setitem(s, fs[0], x))
    holds_sum(E, a, C, s, fs[0], x)


@case('C18', 'sum-equality', dict(shape=list(SUMS), i=[0, 1, 2], j=[0, 1, 2]), when=sum_ok)
def sum_equality(E, shape, i, j):
    a, C = A(E), SUMS[shape]
    fs = flds(C)
    v, w = of(E, a, 'v', fs[i]), of(E, a, 'w', fs[j])
    r, s = E.get(E.build(C, v)), E.get(E.build(C, w))
    e = E.get(E.op('==', r, s))
    if i == j:
        E.check('eq', M.IFF(e, a.eq(v, w)))
    else:
        # values of different alternatives are equal only if the values themselves are
        E.check('eq', M.OR(M.NOT(e), a.eq(v, w)))
    E.check('ne', M.IFF(E.get(E.op('!=', r, s)), M.NOT(e)))
    if e:
        E.check('hash', E.get(E.op('==', E.get(E.builtin(hash, r)), E.get(E.builtin(hash, s)))))


@case('C18', 'sum-dict', dict(shape=list(SUMS), i=[0, 1, 2]), when=sum_ok)
def sum_dict(E, shape, i):
    a, C = A(E), SUMS[shape]
    fs = flds(C)
    v = of(E, a, 'v', fs[i])
    s = E.get(E.build(C, v))
    d = dict_sum(E, C, s, fs[i], v)
    r = E.get(E.call(C.from_values, d))
    holds_sum(E, a, C, r, fs[i], v, 'back-')
    E.check('equal', E.get(E.op('==', r, s)))


@case('C18', 'sum-from-values', dict(shape=list(SUMS), i=[0, 1, 2], rev=[False, True]), when=sum_ok)
def sum_from_values(E, shape, i, rev):
    a, C = A(E), SUMS[shape]
    fs = flds(C)
    v = a.val('v')
    E.require(M.NOT(E.is_(v, None)))
    d = {t: (v if t is fs[i] else None) for t in (reversed(fs) if rev else fs)}
    o = E.call(C.from_values, d)
    if a.is_type(v, fs[i]):
        s = E.get(o)
        holds_sum(E, a, C, s, fs[i], v)
        dict_sum(E, C, s, fs[i], v, 'back-')
    elif not a.isinst(v, fs[i]):
        E.expect('rejects', o, Raises(TypeError))


@case('C18', 'sum-from-values-bad', dict(shape=list(SUMS), how=['none', 'two', 'missing', 'extra', 'other']), when=sum_two)
def sum_from_values_bad(E, shape, how):
    a, C = A(E), SUMS[shape]
    fs = flds(C)
    d = {t: None for t in fs}
    d[fs[0]] = of(E, a, 'v', fs[0])
    if how == 'none':
        d[fs[0]] = None
    elif how == 'two':
        d[fs[1]] = of(E, a, 'w', fs[1])
    if how in ('missing', 'other'):
        d.pop(fs[-1])
    if how in ('extra', 'other'):
        d[int] = None
    E.expect('rejects', E.call(C.from_values, d), Raises(ValueError, TypeError))


# ------------------------------------------------------------------ TaggedUnion
@case('C18', 'union-construct', dict(shape=list(UNIONS), i=[0, 1, 2]), when=union_ok)
def union_construct(E, shape, i):
    a, C = A(E), UNIONS[shape]
    fs = list(C.field_dict)
    v = a.val('v')
    o = E.build(C, **{fs[i]: v})
    if a.isinst(v, C.field_dict[fs[i]]):
        u = E.get(o)
        holds_union(E, C, u, fs[i], v)
        dict_union(E, C, u, fs[i], v)
    else:
        E.expect('rejects', o, Raises(TypeError))


@case('C18', 'union-bad', dict(shape=list(UNIONS), how=['none', 'two', 'unknown', 'positional', 'one-unknown']), when=union_two)
def union_bad(E, shape, how):
    a, C = A(E), UNIONS[shape]
    fs = list(C.field_dict)
    v = a.some('v', C.field_dict[fs[0]])
    args, kw = [], {fs[0]: v}
    if how == 'none':
        kw = {}
    elif how == 'two':
        kw[fs[1]] = a.some('w', C.field_dict[fs[1]])
    elif how == 'unknown':
        kw = {'zz': v}
    elif how == 'one-unknown':
        kw['zz'] = v
    else:
        args, kw = [v], {}
    E.expect('rejects', E.build(C, *args, **kw), Raises(ValueError, TypeError))


@case('C18', 'union-assign', dict(shape=list(UNIONS), i=[0, 1, 2], j=[0, 1, 2]), when=union_ok)
def union_assign(E, shape, i, j):
    a, C = A(E), UNIONS[shape]
    fs = list(C.field_dict)
    v = a.some('v', C.field_dict[fs[i]])
    u = E.get(E.build(C, **{fs[i]: v}))
    E.mutates(u)
    w = a.val('w')
    o = E.setattr(u, fs[j], w)
    if a.isinst(w, C.field_dict[fs[j]]):
        E.get(o)
        holds_union(E, C, u, fs[j], w, 'after-')
        u2 = E.get(E.build(C, **{fs[j]: w}))
        E.check('equals-fresh', E.get(E.op('==', u, u2)))
        E.check('same-hash', E.get(E.op('==', E.get(E.builtin(hash, u)), E.get(E.builtin(hash, u2)))))
    else:
        E.expect('rejects', o, Raises(TypeError))
        holds_union(E, C, u, fs[i], v, 'kept-')


@case('C18', 'union-setitem', dict(shape=list(UNIONS)))
def union_setitem(E, shape):
    """assignment by type is not offered: the tag alone decides"""
    a, C = A(E), UNIONS[shape]
    fs = list(C.field_dict)
    v = a.some('v', C.field_dict[fs[0]])
    u = E.get(E.build(C, **{fs[0]: v}))
    E.mutates(u)
    w = a.val('w')
    E.expect('rejects', E.setitem(u, C.field_dict[fs[-1]], w), Raises(TypeError))
    holds_union(E, C, u, fs[0], v, 'kept-')


@case('C18', 'union-equality', dict(shape=list(UNIONS), i=[0, 1, 2], j=[0, 1, 2]), when=union_ok)
def union_equality(E, shape, i, j):
    a, C = A(E), UNIONS[shape]
    fs = list(C.field_dict)
    v, w = a.some('v', C.field_dict[fs[i]]), a.some('w', C.field_dict[fs[j]])
    r, s = E.get(E.build(C, **{fs[i]: v})), E.get(E.build(C, **{fs[j]: w}))
    want = a.eq(v, w) if i == j else False
    E.check('eq', M.IFF(E.get(E.op('==', r, s)), want))
    E.check('ne', M.IFF(E.get(E.op('!=', r, s)), M.NOT(want)))
    if want:
        E.check('hash', E.get(E.op('==', E.get(E.builtin(hash, r)), E.get(E.builtin(hash, s)))))


@case('C18', 'union-dict', dict(shape=list(UNIONS), i=[0, 1, 2]), when=union_ok)
def union_dict(E, shape, i):
    a, C = A(E), UNIONS[shape]
    fs = list(C.field_dict)
    v = a.some('v', C.field_dict[fs[i]])
    u = E.get(E.build(C, **{fs[i]: v}))
    d = dict_union(E, C, u, fs[i], v)
    r = E.get(E.call(C.from_values, d))
    holds_union(E, C, r, fs[i], v, 'back-')
    E.check('equal', E.get(E.op('==', r, u)))


@case('C18', 'union-from-values', dict(shape=list(UNIONS), i=[0, 1, 2], rev=[False, True]), when=union_ok)
def union_from_values(E, shape, i, rev):
    a, C = A(E), UNIONS[shape]
    fs = list(C.field_dict)
    v = a.val('v')
    E.require(M.NOT(E.is_(v, None)))
    d = {k: (v if k == fs[i] else None) for k in (reversed(fs) if rev else fs)}
    o = E.call(C.from_values, d)
    if a.isinst(v, C.field_dict[fs[i]]):
        u = E.get(o)
        holds_union(E, C, u, fs[i], v)
        dict_union(E, C, u, fs[i], v, 'back-')
    else:
        E.expect('rejects', o, Raises(TypeError))


@case('C18', 'union-from-values-bad', dict(shape=list(UNIONS), how=['none', 'two', 'missing', 'extra', 'other']), when=union_two)
def union_from_values_bad(E, shape, how):
    a, C = A(E), UNIONS[shape]
    fs = list(C.field_dict)
    d = {k: None for k in fs}
    d[fs[0]] = a.some('v', C.field_dict[fs[0]])
    if how == 'none':
        d[fs[0]] = None
    elif how == 'two':
        d[fs[1]] = a.some('w', C.field_dict[fs[1]])
    if how in ('missing', 'other'):
        d.pop(fs[-1])
    if how in ('extra', 'other'):
        d['zz'] = None
    E.expect('rejects', E.call(C.from_values, d), Raises(ValueError, TypeError))
