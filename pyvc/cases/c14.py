"""C14 SMT integers."""
from ..spec import case, Raises
from ..fmdom import F, SMT, Exp
from ..helpers import HasInt, HasBool, Plain
from .. import smath as M
from .. import values as V

AR = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': M.mul}
CM = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
      '==': lambda a, b: a == b, '!=': lambda a, b: a != b}


def operands(E, f, kinds):
    return [f.sint(n) if k == 'SMTInt' else E.int(n) if k == 'int' else E.bool(n) if k == 'bool' else
            f.bv(n, SMT.BV, E.int('n', 1, kind='width')) if k == 'bv' else E.obj(HasInt, v=E.int(n))
            for n, k in zip('xy', kinds)]


def val(E, f, x):
    if f.isint(x) or f.isbv(x):
        return f.den(x)
    k = E.argkind(x)
    if k == 'bool':
        return E.ite(x, 1, 0)
    if k == 'HasInt':
        return x.attrs['v'] if E.symbolic else x.v
    return x


KINDS = [('SMTInt', 'SMTInt'), ('SMTInt', 'int'), ('int', 'SMTInt'), ('SMTInt', 'bool'), ('bool', 'SMTInt'), ('SMTInt', 'HasInt')]


@case('C14', 'arith', dict(op=list(AR), kinds=KINDS))
def arith(E, op, kinds):
    f = F(E, 'smt')
    x, y = operands(E, f, kinds)
    E.expect(op, E.op(op, x, y), f.mkint(AR[op](val(E, f, x), val(E, f, y))))


@case('C14', 'mixed', dict(op=list(AR)))
def mixed(E, op):
    """a bit-vector on the right is read as a natural number"""
    f = F(E, 'smt')
    x, y = operands(E, f, ('SMTInt', 'bv'))
    E.expect(op, E.op(op, x, y), f.mkint(AR[op](val(E, f, x), val(E, f, y))))


@case('C14', 'compare', dict(op=list(CM), kinds=KINDS))
def compare(E, op, kinds):
    f = F(E, 'smt')
    x, y = operands(E, f, kinds)
    E.expect(op, E.op(op, x, y), f.mkbit(CM[op](val(E, f, x), val(E, f, y))))


@case('C14', 'floordiv', dict(kinds=KINDS))
def floordiv(E, kinds):
    f = F(E, 'smt')
    x, y = operands(E, f, kinds)
    b = val(E, f, y)
    E.require(b > 0)
    E.expect('//', E.op('//', x, y), f.mkint(M.fdiv(val(E, f, x), b)))


@case('C14', 'neg')
def neg(E):
    f = F(E, 'smt')
    x = f.sint('x')
    E.expect('-', E.uop('-', x), f.mkint(-f.den(x)))


@case('C14', 'foreign', dict(op=['+', '-', '*', '//', '<', '>='], side=['left', 'right']))
def foreign(E, op, side):
    f = F(E, 'smt')
    x, k = f.sint('x'), E.obj(Plain)
    E.expect('rejects', E.op(op, x, k) if side == 'right' else E.op(op, k, x), Raises(TypeError))


@case('C14', 'construct', dict(arg=['SMTInt', 'int', 'bool', 'bv', 'uv', 'sv', 'HasInt', 'Plain', 'None', 'str', 'bit', 'list']))
def construct(E, arg):
    f = F(E, 'smt')
    n = E.int('n', 1, kind='width')
    v = {'SMTInt': lambda: f.sint('v'), 'int': lambda: E.int('v'), 'bool': lambda: E.bool('v'),
         'bv': lambda: f.bv('v', SMT.BV, n), 'uv': lambda: f.bv('v', SMT.UInt, n), 'sv': lambda: f.bv('v', SMT.SInt, n),
         'HasInt': lambda: E.obj(HasInt, v=E.int('v')), 'Plain': lambda: E.obj(Plain), 'None': lambda: None,
         'str': lambda: 'x', 'bit': lambda: f.bit('v'), 'list': lambda: [1]}[arg]()
    if arg in ('Plain', 'None', 'str', 'bit', 'list'):
        E.expect('construct', E.build(SMT.Int, v), Raises(TypeError))
    else:
        E.expect('construct', E.build(SMT.Int, v), f.mkint(val(E, f, v)))


@case('C14', 'construct-from-formula', dict(kind=['int', 'bv', 'bool']))
def from_formula(E, kind):
    f = F(E, 'smt')
    n = E.int('n', 1, kind='width') if kind == 'bv' else None
    v = f.formula('v', kind, n)
    r = E.build(SMT.Int, v)
    E.expect('construct', r, Raises(TypeError) if kind == 'bool' else f.mkint(v.den if E.symbolic else E.inputs['v']))


@case('C14', 'as-uint', dict(base=SMT.bases))
def as_uint(E, base):
    f = F(E, 'smt')
    x = f.bv('x', base, E.int('n', 1, kind='width'))
    E.expect('as_uint', E.meth(x, 'as_uint'), f.mkint(f.u(x)))


@case('C14', 'as-sint', dict(base=SMT.bases))
def as_sint(E, base):
    f = F(E, 'smt')
    n = E.int('n', 1, kind='width')
    x = f.bv('x', base, n)
    E.expect('as_sint', E.meth(x, 'as_sint'), f.mkint(M.sgn(f.u(x), n)))


@case('C14', 'no-wrap')
def nowrap(E):
    """(x*y + x) - y over unbounded integers"""
    f = F(E, 'smt')
    x, y = f.sint('x'), f.sint('y')
    r = E.op('-', E.get(E.op('+', E.get(E.op('*', x, y)), x)), y)
    a, b = f.den(x), f.den(y)
    E.expect('value', r, f.mkint(M.mul(a, b) + a - b))
