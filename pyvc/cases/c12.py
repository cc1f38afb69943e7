"""C12 SMT bits denote the Boolean algebra."""
from ..spec import case, Raises, Pred
from ..fmdom import F, SMT, Exp, bitval, substituted
from ..helpers import HasInt, HasBool, Plain
from .. import smath as M

OPS = {'&': M.AND, '|': M.OR, '^': M.XOR, '==': M.IFF, '!=': M.XOR}


@case('C12', 'binary', dict(op=list(OPS)))
def binary(E, op):
    f = F(E, 'smt')
    x, y = f.bit('x'), f.bit('y')
    E.expect(op, E.op(op, x, y), f.mkbit(OPS[op](f.b(x), f.b(y))))


@case('C12', 'same-operand', dict(op=list(OPS)))
def same(E, op):
    f = F(E, 'smt')
    x = f.bit('x')
    E.expect(op, E.op(op, x, x), f.mkbit(OPS[op](f.b(x), f.b(x))))


@case('C12', 'literal', dict(op=list(OPS), side=['right', 'left'], lit=[True, False, 0, 1, 'bool', 'HasBool']))
def literal(E, op, side, lit):
    f = F(E, 'smt')
    x = f.bit('x')
    k = E.bool('k') if lit == 'bool' else E.obj(HasBool, v=E.bool('k')) if lit == 'HasBool' else lit
    v = f.b(bitval(f, k))
    r = E.op(op, x, k) if side == 'right' else E.op(op, k, x)
    E.expect(op, r, f.mkbit(OPS[op](f.b(x), v)))


@case('C12', 'bad-literal', dict(op=list(OPS), side=['right', 'left']))
def bad_int(E, op, side):
    f = F(E, 'smt')
    x, k = f.bit('x'), E.int('k')
    E.require(k != 0)
    E.require(k != 1)
    r = E.op(op, x, k) if side == 'right' else E.op(op, k, x)
    E.expect('rejects', r, Raises(ValueError))


@case('C12', 'foreign', dict(op=['&', '|', '^'], side=['right', 'left'], arg=['Plain', 'HasInt']))
def foreign(E, op, side, arg):
    f = F(E, 'smt')
    x = f.bit('x')
    k = E.obj(Plain) if arg == 'Plain' else E.obj(HasInt, v=E.int('k'))
    r = E.op(op, x, k) if side == 'right' else E.op(op, k, x)
    E.expect('rejects', r, Raises(TypeError))


@case('C12', 'invert')
def invert(E):
    f = F(E, 'smt')
    x = f.bit('x')
    E.expect('~', E.uop('~', x), f.mkbit(M.NOT(f.b(x))))


@case('C12', 'no-truth-value', dict(how=['bool', 'not']))
def truth(E, how):
    f = F(E, 'smt')
    x = f.bit('x')
    r = E.builtin(bool, x) if how == 'bool' else E.attempt(lambda: E.ip.unop('not', x)) if E.symbolic else \
        E.attempt(lambda: not x)
    E.expect('rejects', r, Raises(TypeError))


@case('C12', 'construct', dict(arg=['bit', 'bool', 'int', 'HasBool', 'HasInt', 'Plain', 'None']))
def construct(E, arg):
    f = F(E, 'smt')
    v = {'bit': lambda: f.bit('v'), 'bool': lambda: E.bool('v'), 'int': lambda: E.int('v'),
         'HasBool': lambda: E.obj(HasBool, v=E.bool('v')), 'HasInt': lambda: E.obj(HasInt, v=E.int('v')),
         'Plain': lambda: E.obj(Plain), 'None': lambda: None}[arg]()
    if arg == 'None':
        E.expect('construct', E.build(SMT.Bit, v), f.mkbit(False))
    else:
        E.expect('construct', E.build(SMT.Bit, v), bitval(f, v))


@case('C12', 'construct-from-formula', dict(kind=['bool', 'bv', 'int']))
def from_formula(E, kind):
    f = F(E, 'smt')
    n = E.int('n', 1, kind='width') if kind == 'bv' else None
    v = f.formula('v', kind, n)
    r = E.build(SMT.Bit, v)
    E.expect('construct', r, f.mkbit(v.den if E.symbolic else E.inputs['v']) if kind == 'bool' else Raises(TypeError))


@case('C12', 'construct-from-vector')
def from_vector(E):
    f = F(E, 'smt')
    v = f.bv('v', SMT.BV, E.int('n', 1, kind='width'))
    E.expect('rejects', E.build(SMT.Bit, v), Raises(TypeError))


# ite
def pick(f, c, t, e):
    if type(t) is tuple:
        return tuple(pick(f, c, a, b) for a, b in zip(t, e))
    if f.isbit(t):
        return f.mkbit(M.OR(M.AND(c, f.b(t)), M.AND(M.NOT(c), f.b(e))))
    return f.mkbv(f.base(t), f.size(t), f.ite(c, f.u(t), f.u(e)))


def tree(f, shape, name, n):
    if isinstance(shape, tuple):
        return tuple(tree(f, s, f'{name}_{i}', n) for i, s in enumerate(shape))
    return f.bit(name) if shape == 'bit' else f.bv(name, {'BV': SMT.BV, 'UV': SMT.UInt, 'SV': SMT.SInt}[shape], n)


SHAPES = ['bit', 'BV', 'UV', 'SV', ('bit',), ('BV',), ('SV', 'bit'), ('BV', 'UV', 'SV'), (('BV',), 'bit'), ((), 'bit', ()),
          ((('SV', 'bit'), 'UV'), ('BV', ('bit',))), (('bit', 'bit'), ('bit', 'bit')), ((((('BV',),),),),)]


@case('C12', 'ite', dict(sel=['bit', 'BV'], shape=SHAPES))
def ite(E, sel, shape):
    f = F(E, 'smt')
    n = E.int('n', 1, kind='width')
    if sel == 'bit':
        s = f.bit('s')
        c = f.b(s)
    else:
        s = f.bv('s', SMT.BV, E.int('w', 1, kind='width'))
        c = f.u(s) != 0
    t, e = tree(f, shape, 't', n), tree(f, shape, 'e', n)
    E.expect('ite', E.meth(s, 'ite', t, e), pick(f, c, t, e))


BAD = [('bit', 'BV'), ('BV', 'bit'), ('bit', ('bit',)), (('bit',), 'bit'), (('bit',), ('bit', 'bit')), ((), ('bit',)),
       (('bit', 'BV'), ('BV', 'bit')), ((('bit',), 'BV'), (('bit', 'bit'), 'BV'))]


@case('C12', 'ite-rejects', dict(pair=BAD))
def ite_rejects(E, pair):
    f = F(E, 'smt')
    n = E.int('n', 1, kind='width')
    s = f.bit('s')
    E.expect('rejects', E.meth(s, 'ite', tree(f, pair[0], 't', n), tree(f, pair[1], 'e', n)), Raises(TypeError))


@case('C12', 'ite-rejects-width')
def ite_width(E):
    f = F(E, 'smt')
    n, m = E.int('n', 1, kind='width'), E.int('m', 1, kind='width')
    E.require(n != m)
    s = f.bit('s')
    E.expect('rejects', E.meth(s, 'ite', f.bv('t', SMT.BV, n), f.bv('e', SMT.BV, m)), Raises(TypeError))


@case('C12', 'substitute', dict(k=[0, 1, 2, 3]))
def substitute(E, k):
    """exactly the given pairs are handed to the formula library, on this bit's formula"""
    f = F(E, 'smt')
    x = f.bit('x')
    subs = [(f.bit(f'a{i}'), f.bit(f'b{i}')) for i in range(k)]
    r = E.meth(x, 'substitute', *subs)
    E.expect('substitute', r, Pred('the substituted formula', lambda E, v: substituted(f, v, SMT.Bit, x, subs)))


@case('C12', 'substitute-vector', dict(k=[1, 2]))
def substitute_vec(E, k):
    f = F(E, 'smt')
    n, m = E.int('n', 1, kind='width'), E.int('m', 1, kind='width')
    x = f.bv('x', SMT.BV, n)
    subs = [(f.bv(f'a{i}', SMT.BV, m), f.bv(f'b{i}', SMT.BV, m)) for i in range(k)]
    r = E.meth(x, 'substitute', *subs)
    E.expect('substitute', r, Pred('the substituted formula', lambda E, v: substituted(f, v, f.T(SMT.BV, n), x, subs)))
