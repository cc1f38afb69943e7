"""Cases shared by the formula back ends (C11: pysmt, C13: z3)."""
from .spec import case, Raises, Pred
from .fmdom import F, LIBS, Exp, binop, cmpop, construct, opnd, bitval, Fm, Sort
from .bvdom import UBIN, CMPS, sp_getitem, sp_concat, sp_zext, sp_sext, sp_repeat, sp_not, sp_neg, rol
from .helpers import HasInt, HasBool, Plain
from .interp import MISSING
from . import smath as M
from hwtypes.bit_vector_abc import InconsistentSizeError

ROT = ('bvrol', 'bvror')
METHS = [m for m in UBIN if m not in ROT]
INFIX = {'&': 'bvand', '|': 'bvor', '^': 'bvxor', '<<': 'bvshl', '>>': 'bvlshr', '+': 'bvadd', '-': 'bvsub',
         '*': 'bvmul', '//': 'bvudiv', '%': 'bvurem', '<': 'bvult', '<=': 'bvule', '>': 'bvugt', '>=': 'bvuge',
         '==': 'bveq', '!=': 'bvne'}
SIGNED = {'>>': 'bvashr', '//': 'bvsdiv', '%': 'bvsrem', '<': 'bvslt', '<=': 'bvsle', '>': 'bvsgt', '>=': 'bvsge'}


def opname(L, base, op):
    return SIGNED.get(op, INFIX[op]) if base is L.SInt else INFIX[op]


def spec_of(name):
    return cmpop(name) if name in CMPS else binop(name)


def define(prop, lib):
    L = LIBS[lib]
    B3 = L.bases
    zero_div_unclaimed = {'bvsrem', '%'} if lib == 'z3' else set()

    def pre(f, name, n, d):
        if lib == 'z3' and name == 'bvsrem':
            f.require(d != 0)

    @case(prop, 'binary', dict(op=METHS, base=B3))
    def binary(E, op, base):
        f = F(E, lib)
        n = E.int('n', 1, kind='width')
        x, y = f.bv('x', base, n), f.bv('y', base, n)
        pre(f, op, n, f.u(y))
        E.expect(op, E.meth(x, op, y), binop(op)(f, x, y))

    @case(prop, 'compare', dict(op=list(CMPS), base=B3))
    def compare(E, op, base):
        f = F(E, lib)
        n = E.int('n', 1, kind='width')
        x, y = f.bv('x', base, n), f.bv('y', base, n)
        E.expect(op, E.meth(x, op, y), cmpop(op)(f, x, y))

    @case(prop, 'comp', dict(base=B3))
    def comp(E, base):
        f = F(E, lib)
        n = E.int('n', 1, kind='width')
        x, y = f.bv('x', base, n), f.bv('y', base, n)
        E.expect('bvcomp', E.meth(x, 'bvcomp', y), f.mkbv(base, 1, E.ite(f.u(x) == f.u(y), 1, 0)))

    @case(prop, 'unary', dict(op=['bvnot', 'bvneg', '~', '-'], base=B3))
    def unary(E, op, base):
        f = F(E, lib)
        n = E.int('n', 1, kind='width')
        x = f.bv('x', base, n)
        r = E.uop(op, x) if op in '~-' else E.meth(x, op)
        E.expect(op, r, (sp_not if op in ('bvnot', '~') else sp_neg)(f, x))

    @case(prop, 'infix', dict(op=list(INFIX), base=B3))
    def infix(E, op, base):
        f = F(E, lib)
        n = E.int('n', 1, kind='width')
        x, y = f.bv('x', base, n), f.bv('y', base, n)
        name = opname(L, base, op)
        pre(f, name, n, f.u(y))
        E.expect(op, E.op(op, x, y), spec_of(name)(f, x, y))

    @case(prop, 'infix-int', dict(op=list(INFIX), base=[L.BV, L.SInt]))
    def infix_int(E, op, base):
        """an int operand on the right stands for the vector of its residue"""
        f = F(E, lib)
        n = E.int('n', 1, kind='width')
        x, k = f.bv('x', base, n), E.int('k')
        name = opname(L, base, op)
        pre(f, name, n, M.mod2(k, n))
        E.expect(op, E.op(op, x, k), spec_of(name)(f, x, k))

    @case(prop, 'method-operand', dict(op=['bvadd', 'bvult', 'bvand', 'bvshl', 'bvcomp', 'bvsdiv'], arg=['other', 'bit', 'bool', 'Plain']))
    def method_operand(E, op, arg):
        """operands of another vector type of the same width, bits and bools are
        converted; anything without a value is a TypeError"""
        f = F(E, lib)
        n = E.int('n', 1, kind='width')
        x = f.bv('x', L.BV, n)
        y = f.bv('y', L.UInt, n) if arg == 'other' else f.bit('y') if arg == 'bit' else E.bool('y') if arg == 'bool' \
            else E.obj(Plain)
        if op == 'bvcomp':
            v = opnd(f, x, y)
            exp = v if isinstance(v, Raises) else f.mkbv(L.BV, 1, E.ite(f.u(x) == f.u(v), 1, 0))
        else:
            exp = spec_of(op)(f, x, y)
        E.expect(op, E.meth(x, op, y), exp)

    @case(prop, 'size-mismatch', dict(op=['bvadd', 'bveq', 'bvlshr', 'bvcomp', 'adc']))
    def mismatch(E, op):
        f = F(E, lib)
        n, m = E.int('n', 1, kind='width'), E.int('m', 1, kind='width')
        E.require(n != m)
        x, y = f.bv('x', L.BV, n), f.bv('y', L.BV, m)
        r = E.meth(x, op, y, f.bit('c')) if op == 'adc' else E.meth(x, op, y)
        E.expect('rejected', r, Raises(InconsistentSizeError if lib == 'smt' else TypeError))

    if lib == 'smt':
        @case(prop, 'reflected-int', dict(op=[o for o in INFIX], base=[L.BV, L.SInt]))
        def reflected(E, op, base):
            f = F(E, lib)
            n = E.int('n', 1, kind='width')
            k, x = E.int('k'), f.bv('x', base, n)
            v = f.mkbv(base, n, M.mod2(k, n))
            E.expect(op, E.op(op, k, x), spec_of(opname(L, base, op))(f, v, x))

        @case(prop, 'rotate', dict(op=ROT, base=[L.BV, L.SInt]))
        def rotate(E, op, base):
            f = F(E, lib)
            n = E.int('n', 1, kind='width')
            x, k = f.bv('x', base, n), E.int('k', 0, kind='amount')
            E.require(k <= n)
            m = M.fmod(k, n) if op == 'bvrol' else M.fmod(n - M.fmod(k, n), n)
            E.expect(op, E.meth(x, op, k), f.mkbv(base, n, M.mod2(rol(E, f.u(x), m, n), n)))

        @case(prop, 'infix-size-mismatch', dict(op=['+', '==', '<', '>>', '%'], base=[L.BV, L.SInt]))
        def infix_mismatch(E, op, base):
            f = F(E, lib)
            n, m = E.int('n', 1, kind='width'), E.int('m', 1, kind='width')
            E.require(n != m)
            E.expect('rejected', E.op(op, f.bv('x', base, n), f.bv('y', base, m)), Raises(InconsistentSizeError))
    else:
        @case(prop, 'rotate', dict(op=ROT, base=[L.BV, L.SInt]))
        def zrotate(E, op, base):
            f = F(E, lib)
            n = E.int('n', 1, kind='width')
            x, k = f.bv('x', base, n), f.bv('k', base, n)
            E.expect(op, E.meth(x, op, k), binop(op)(f, x, k))

    @case(prop, 'concat', dict(base=B3))
    def concat(E, base):
        f = F(E, lib)
        x = f.bv('x', base, E.int('n', 1, kind='width'))
        y = f.bv('y', base, E.int('m', 1, kind='width'))
        E.expect('concat', E.meth(x, 'concat', y), sp_concat(f, x, y))

    @case(prop, 'concat-foreign', dict(other=['int', 'bit', 'None']))
    def concat_foreign(E, other):
        f = F(E, lib)
        x = f.bv('x', L.BV, E.int('n', 1, kind='width'))
        y = E.int('v') if other == 'int' else f.bit('v') if other == 'bit' else None
        E.expect('rejects', E.meth(x, 'concat', y), Raises(TypeError))

    @case(prop, 'index', dict(base=B3))
    def index(E, base):
        f = F(E, lib)
        n = E.int('n', 1, kind='width')
        x, i = f.bv('x', base, n), E.int('i', kind='amount')
        E.expect('index', E.getitem(x, i), sp_getitem(f, x, i))

    SL = ['None', 'int']

    @case(prop, 'slice', dict(base=B3, lo=SL, hi=SL))
    def slices(E, base, lo, hi):
        f = F(E, lib)
        n = E.int('n', 1, kind='width')
        x = f.bv('x', base, n)
        a = None if lo == 'None' else E.int('a', kind='amount')
        b = None if hi == 'None' else E.int('b', kind='amount')
        for v in (a, b):
            if v is not None:
                E.require(v >= -n)
                E.require(v <= n)
        st, _, cnt = E.slice(n, slice(a, b))
        E.require(cnt > 0)
        E.expect('slice', E.getitem(x, slice(a, b)), sp_getitem(f, x, slice(a, b)))

    @case(prop, 'slice-step', dict(base=[L.BV]))
    def slice_step(E, base):
        f = F(E, lib)
        n = E.int('n', 1, kind='width')
        x, s = f.bv('x', base, n), E.int('s', kind='amount')
        E.require(s != 1)
        E.expect('rejects', E.getitem(x, slice(None, None, s)), Raises(IndexError))

    @case(prop, 'setitem', dict(base=B3, arg=['bit', 'bool', 'int']))
    def setitem(E, base, arg):
        f = F(E, lib)
        n = E.int('n', 1, kind='width')
        x, i = f.bv('x', base, n), E.int('i', kind='amount')
        v = f.bit('v') if arg == 'bit' else E.bool('v') if arg == 'bool' else E.int('v')
        u = f.u(x)
        E.mutates(x)
        r = E.setitem(x, i, v)
        if arg == 'int':
            if not E.ite(E.OR(v == 0, v == 1), True, False):
                E.expect('rejects', r, Raises(ValueError))
                E.expect('unchanged', x, f.mkbv(base, n, u))
                return
            b = v == 1
        else:
            b = f.b(v) if arg == 'bit' else v
        if i < 0:
            i = i + n
        if i < 0 or i >= n:
            E.expect('rejects', r, Raises(IndexError))
            E.expect('unchanged', x, f.mkbv(base, n, u))
            return
        w = E.ite(M.bit(u, i), u - M.pow2(i), u)
        E.expect('no exception', r, None)
        E.expect('updated', x, f.mkbv(base, n, E.ite(b, w + M.pow2(i), w)))

    @case(prop, 'extension', dict(op=['zext', 'sext', 'ext'], base=B3))
    def extension(E, op, base):
        f = F(E, lib)
        n = E.int('n', 1, kind='width')
        x, k = f.bv('x', base, n), E.int('k', kind='amount')
        signed = op == 'sext' or (op == 'ext' and lib == 'smt' and base is L.SInt)
        if lib == 'z3' and op == 'ext' and base is L.SInt:
            E.require(k < 0)        # ext of z3SIntVector is not claimed
        E.expect(op, E.meth(x, op, k), (sp_sext if signed else sp_zext)(f, x, k))

    @case(prop, 'repeat', dict(base=[L.BV, L.SInt]))
    def repeat(E, base):
        f = F(E, lib)
        n = E.int('n', 1, kind='width')
        x, k = f.bv('x', base, n), E.int('k', kind='amount')
        E.expect('repeat', E.meth(x, 'repeat', k), sp_repeat(f, x, k))

    @case(prop, 'adc', dict(base=B3, carry=['bit', 'vector', 'bool']))
    def adc(E, base, carry):
        f = F(E, lib)
        n = E.int('n', 1, kind='width')
        x, y = f.bv('x', base, n), f.bv('y', base, n)
        c = f.bit('c') if carry == 'bit' else f.bv('c', base, 1) if carry == 'vector' else E.bool('c')
        cv = E.ite(f.b(c), 1, 0) if carry == 'bit' else f.u(c) if carry == 'vector' else E.ite(c, 1, 0)
        s = f.u(x) + f.u(y) + cv
        over = s >= M.pow2(n)
        E.expect('adc', E.meth(x, 'adc', y, c), (f.mkbv(base, n, E.ite(over, s - M.pow2(n), s)), f.mkbit(over)))

    @case(prop, 'ite', dict(base=B3))
    def ite(E, base):
        f = F(E, lib)
        n, m = E.int('n', 1, kind='width'), E.int('m', 1, kind='width')
        c = f.bv('c', L.BV, m)
        x, y = f.bv('x', base, n), f.bv('y', base, n)
        E.expect('ite', E.meth(c, 'ite', x, y), f.mkbv(base, n, E.ite(f.u(c) != 0, f.u(x), f.u(y))))

    @case(prop, 'bit-ite', dict(base=B3))
    def bitite(E, base):
        f = F(E, lib)
        n = E.int('n', 1, kind='width')
        c = f.bit('c')
        x, y = f.bv('x', base, n), f.bv('y', base, n)
        E.expect('ite', E.meth(c, 'ite', x, y), f.mkbv(base, n, E.ite(f.b(c), f.u(x), f.u(y))))

    @case(prop, 'construct', dict(arg=['int', 'bool', 'bit', 'HasInt', 'Plain', 'None', 'HasBool'], base=B3))
    def construct_(E, arg, base):
        f = F(E, lib)
        n = E.int('n', 1, kind='width')
        v = {'int': lambda: E.int('v'), 'bool': lambda: E.bool('v'), 'bit': lambda: f.bit('v'),
             'HasInt': lambda: E.obj(HasInt, v=E.int('v')), 'HasBool': lambda: E.obj(HasBool, v=E.bool('v')),
             'Plain': lambda: E.obj(Plain), 'None': lambda: None}[arg]()
        E.expect('construct', E.build(f.T(base, n), v), construct(f, base, n, v))

    @case(prop, 'construct-from-vector', dict(base=B3, other=B3))
    def from_vector(E, base, other):
        """another vector is zero-extended or truncated"""
        f = F(E, lib)
        n, m = E.int('n', 1, kind='width'), E.int('m', 1, kind='width')
        v = f.bv('v', other, m)
        E.expect('construct', E.build(f.T(base, n), v), construct(f, base, n, v))

    @case(prop, 'construct-from-formula', dict(base=B3, kind=['bv', 'bool'] + (['int'] if lib == 'smt' else [])))
    def from_formula(E, base, kind):
        f = F(E, lib)
        n = E.int('n', 1, kind='width')
        m = E.int('m', 1, kind='width') if kind == 'bv' else None
        v = f.formula('v', kind, m)
        val = v.den if E.symbolic else E.inputs['v']
        r = E.build(f.T(base, n), v)
        if kind == 'bv':
            E.expect('construct', r, f.mkbv(base, n, val) if n == m else Raises(TypeError))
        elif kind == 'bool' and lib == 'z3':
            E.expect('construct', r, f.mkbv(base, n, E.ite(val, 1, 0)))
        else:
            E.expect('construct', r, Raises(TypeError))

    @case(prop, 'construct-from-list', dict(k=[1, 2, 3, 5], kind=['list', 'tuple'], elems=['int', 'bool', 'bit']))
    def from_list(E, k, kind, elems):
        """bit lists, least significant bit first; a list of another length is a ValueError"""
        f = F(E, lib)
        n = E.int('n', 1, kind='width')
        base = L.UInt if elems == 'bool' else L.BV
        e = [f.bit(f'v{i}') if elems == 'bit' else E.bool(f'v{i}') if elems == 'bool' else E.ite(E.bool(f'v{i}'), 1, 0)
             for i in range(k)]
        s = e if kind == 'list' else tuple(e)
        E.expect('construct', E.build(f.T(base, n), s), construct(f, base, n, s))

    @case(prop, 'make-constant', dict(base=B3, sized=[True, False]))
    def make_constant(E, base, sized):
        f = F(E, lib)
        n, m, v = E.int('n', 1, kind='width'), E.int('m', 1, kind='width'), E.int('v')
        r = E.meth(f.T(base, n), 'make_constant', v) if sized else E.meth(f.T(base, n), 'make_constant', v, m)
        E.expect('constant', r, construct(f, base, n if sized else m, v))

    @case(prop, 'length', dict(base=B3))
    def length(E, base):
        f = F(E, lib)
        n = E.int('n', 1, kind='width')
        x = f.bv('x', base, n)
        E.expect('len', E.builtin(len, x), n)
        E.expect('size', E.attr(x, 'size'), n)
        E.expect('num_bits', E.attr(x, 'num_bits'), n)
