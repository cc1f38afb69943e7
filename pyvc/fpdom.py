"""Floating-point types: contracts of gmpy2 and of pysmt function symbols.

gmpy2 is external.  Its contract: an operation yields a value that is a function
of its operands and of the settings of the current context (the operation
rounded once to that context); local_context(c) makes a copy of c current and
restores the previous context on every exit; a value obtained under a context is
representable in it and setting it to the same precision leaves it as it is;
mpfr values are NaN, an infinity, a signed zero, or sign * sig * 2^exp with sig
an integer of exactly the precision's bits; mpz results behave as int."""
import types
import weakref
import z3
import gmpy2
import pysmt.shortcuts as smt
import pysmt.typing as pt
from pysmt.exceptions import PysmtTypeError
from hwtypes import smt_fp_vector as SF, fp_vector as FP, RoundingMode
from . import theory as T
from . import values as V
from . import smath as M
from . import verify
from .values import *
from .interp import MISSING, is_symbolic
from .hooks import BUILTINS, norm_str
from .fmdom import Sort, as_sort, Fm, fresh, PyFn
from .clsdom import NClass, ClassCache, PRIOR, caches
from .engine import Infeasible
from .namedom import Fn

MPFR = type(gmpy2.mpfr(0))
DEFAULTS = {k: getattr(gmpy2.context(), k) for k in dir(gmpy2.context()) if not k.startswith('_') and
            not callable(getattr(gmpy2.context(), k))}
FOLLOW = {'real_prec': 'precision', 'imag_prec': 'precision', 'real_round': 'round', 'imag_round': 'round'}
KEY = ('precision', 'emin', 'emax', 'round', 'subnormalize')
LIMITS = {'precision': (1, gmpy2.get_max_precision()), 'emax': (gmpy2.get_emin_min(), gmpy2.get_emax_max()),
          'emin': (gmpy2.get_emin_min(), gmpy2.get_emax_max())}


# ------------------------------------------------------------------ contexts
class GCtx(Opaque):
    """a gmpy2 context: its settings"""

    def __init__(self, fields):
        self.fields = dict(fields)

    def x_type(self):
        return gmpy2.context

    def x_isinstance(self, C):
        return isinstance(C, type) and issubclass(gmpy2.context, C)

    def x_is(self, o):
        return self is o

    def x_truth(self, ip):
        return True

    def setting(self, k):
        f = FOLLOW.get(k)
        if k not in self.fields and f:
            return self.fields.get(f, DEFAULTS[f])
        return self.fields.get(k, DEFAULTS[k])

    def key(self):
        return tuple(self.setting(k) for k in KEY)

    def x_getattr(self, ip, name):
        if name in DEFAULTS:
            return self.setting(name)
        if name == 'copy':
            return Fn(lambda: GCtx(self.fields))
        if hasattr(gmpy2.context, name):
            if name in GM:
                return Fn(lambda *a: gm(ip, name, a, self))
            raise Unsupported(f'context.{name}')
        ip.raise_(AttributeError, name)

    def x_setattr(self, ip, name, val):
        if name not in DEFAULTS:
            ip.raise_(AttributeError, name)
        self.fields[name] = val


def context(ip, *a, **kw):
    f = dict(a[0].fields) if a and isinstance(a[0], GCtx) else {}
    if a and not isinstance(a[0], GCtx) or len(a) > 1:
        raise Unsupported('gmpy2.context arguments')
    for k, v in kw.items():
        if k not in DEFAULTS:
            ip.raise_(ValueError, 'invalid keyword arguments for context')
        if k in LIMITS:
            if not isintlike(v):
                ip.raise_(ValueError, 'invalid keyword arguments for context')
            lo, hi = LIMITS[k]
            if not ip.truth(M.AND(v >= lo, v <= hi)):
                ip.raise_(ValueError, f'invalid value for {k}')
        f[k] = v
    return GCtx(f)


def current(p=None):
    """the context in force; the caller's is arbitrary"""
    p = p or V.CUR
    if 'gmpctx' not in p.cells:
        f = {k: SInt(p.fresh(f'caller!{k}')) for k in ('precision', 'emin', 'emax', 'round')}
        f['subnormalize'] = SBool(p.fresh('caller!subnormalize', 'bool'))
        p.cells['gmpctx'] = p.cells['gmpctx0'] = GCtx(f)
        p.cells['gmpctx0f'] = dict(f)
    return p.cells['gmpctx']


class Local(Opaque):
    def __init__(self, new):
        self.new = new

    def x_type(self):
        return type(gmpy2.local_context())

    def x_enter(self, ip):
        self.old = current()
        V.CUR.cells['gmpctx'] = self.new
        return self.new

    def x_exit(self, ip, e):
        V.CUR.cells['gmpctx'] = self.old
        return False

    def x_getattr(self, ip, name):
        raise Unsupported('local context protocol')


def local_context(ip, c=None, **kw):
    c = current() if c is None else c
    if not isinstance(c, GCtx):
        raise Unsupported('local_context of something else')
    return Local(context(ip, c, **kw))


def set_context(ip, c):
    V.CUR.cells['gmpctx'] = context(ip, c)


# ------------------------------------------------------------------ function symbols
class FnSort(Opaque):
    def __init__(self, ret, params):
        self.ret, self.params = as_sort('smt', ret), [as_sort('smt', x) for x in params]
        if self.ret is None or None in self.params:
            raise Unsupported('function type')


class UFn(Opaque):
    """an uninterpreted function symbol: its name and type.  Symbols of one name are one symbol."""

    def __init__(self, name, sort):
        self.name, self.sort = name, sort

    def x_type(self):
        return type(smt.TRUE())

    def x_is(self, o):
        if not isinstance(o, UFn):
            return False
        return V.CUR.E.ip.compare('==', self.name, o.name)

    def x_binop(self, ip, op, o, reflected):
        if op in ('==', '!='):
            r = self.x_is(o)
            return r if op == '==' else ip.not_(r)
        return NotImplemented

    def x_truth(self, ip):
        return True

    def x_call(self, ip, args, kwargs):
        if kwargs or len(args) != len(self.sort.params):
            ip.raise_(PysmtTypeError, 'arguments of a function')
        for a, s in zip(args, self.sort.params):
            if not isinstance(a, Fm) or a.lib != 'smt':
                raise Unsupported('function applied to something else')
            if not ip.truth(a.sort.same(s)):
                ip.raise_(PysmtTypeError, 'argument sort')
        r = fresh('smt', self.sort.ret, prov=('app', self, list(args)))
        # one symbol has one interpretation
        apps = V.CUR.cells.setdefault('applications', [])
        for q in apps:
            u, xs = q.prov[1], q.prov[2]
            if len(xs) != len(args) or q.sort.kind != r.sort.kind:
                continue
            same = ip.compare('==', u.name, self.name)
            if same is not False:
                d = M.IFF(q.den, r.den) if r.sort.kind == 'bool' else q.den == r.den
                e = M.AND(same, *[x.den == y.den for x, y in zip(xs, args)])
                V.CUR.assume(z3.Implies(bterm(e), bterm(d)))
        apps.append(r)
        return r


def symbol(ip, old, name=None, typename=pt.BOOL):
    if isinstance(typename, FnSort):
        if not isinstance(name, (str, SStr)):
            raise Unsupported('symbol name')
        return UFn(name, typename)
    return old(ip, name, typename)


class Sizes(Opaque):
    """dict from sizes to conversion symbols: those asked for earlier, then ours"""

    def __init__(self, mk):
        self.mk = mk            # size -> symbol the code would have stored
        self.known = []         # (size, symbol or None)

    def slot(self, ip, k, decide=True):
        for e in reversed(self.known):
            if ip.truth(ip.compare('==', e[0], k)):
                return e
        e = [k, None]
        self.known.append(e)
        if V.CUR.decide(V.CUR.fresh('sized before', 'bool')):
            e[1] = self.mk(k)
        return e

    def x_contains(self, ip, k):
        return self.slot(ip, k)[1] is not None

    def x_getitem(self, ip, k):
        v = self.slot(ip, k)[1]
        if v is None:
            ip.raise_(KeyError, 'size')
        return v

    def x_setitem(self, ip, k, v):
        self.slot(ip, k)[1] = v

    def x_getattr(self, ip, name):
        if name == 'get':
            return Fn(lambda k, d=None: d if self.slot(ip, k)[1] is None else self.slot(ip, k)[1])
        if name == 'setdefault':
            def sd(k, v):
                e = self.slot(ip, k)
                if e[1] is None:
                    e[1] = v
                return e[1]
            return Fn(sd)
        raise Unsupported(f'symbol table.{name}')


class UfTable(Opaque):
    """WeakKeyDictionary: class -> its symbols"""

    def __init__(self, p):
        self.d = []

    def find(self, k):
        for c, v in self.d:
            if c is k:
                return v
        return MISSING

    def x_getitem(self, ip, k):
        v = self.find(k)
        if v is MISSING:
            ip.raise_(KeyError, 'class')
        return v

    def x_setitem(self, ip, k, v):
        self.d = [e for e in self.d if e[0] is not k] + [(k, v)]

    def x_contains(self, ip, k):
        return self.find(k) is not MISSING

    def x_getattr(self, ip, name):
        if name == 'setdefault':
            def sd(k, v):
                if self.find(k) is MISSING:
                    self.x_setitem(ip, k, v)
                return self.find(k)
            return Fn(sd)
        if name == 'get':
            return Fn(lambda k, d=None: d if self.find(k) is MISSING else self.find(k))
        raise Unsupported(f'table.{name}')


def later(ip, v):
    """conversion symbols an earlier class may have gained since"""
    for k, t in list(V.CUR.cells.items()):
        if isinstance(k, tuple) and k[0] == 'uftable':
            ufs = t.find(v)
            if not isinstance(ufs, dict):
                continue
            for name, d in list(ufs.items()):
                if isinstance(d, dict) and not d:
                    def mk(size, name=name, ufs=ufs):
                        mine, ufs[name] = ufs[name], Sizes(None)
                        ufs[name].known.append([size, None])
                        try:
                            x = SObj(v, {'_value': fresh('smt', Sort('smt', 'bv', ip.getattr(v, 'size')))})
                            ip.call(ip.getattr(x, name), [size])
                            (k, s), = ufs[name].known
                        except PyRaise:
                            raise Infeasible()
                        finally:
                            ufs[name] = mine
                        if s is None:
                            raise Unsupported('conversion symbols')
                        return s
                    ufs[name] = Sizes(mk)


PRIOR.append(later)


class FPTypes:
    """adapter: an arbitrary existing floating-point type"""

    def __init__(self, E):
        self.E = E

    def cls(self, T, e, m, mode, ieee):
        E = self.E
        if not E.symbolic:
            return T[e, m, mode, ieee]
        mcs = type(T)
        if isinstance(T, type):
            for v, mm in caches():
                if mm is mcs:
                    return E.ip.h.global_state[id(v)](E.p).prior(E.ip, T, (e, m, mode, ieee))
        raise Unsupported('class cache')

    def app(self, f):
        """symbol and arguments of an application"""
        if self.E.symbolic:
            if isinstance(f, Fm) and f.prov and f.prov[0] == 'app':
                return f.prov[1], f.prov[2]
            return None, ()
        if f.is_function_application():
            return f.function_name(), list(f.args())
        return None, ()

    def ufn_type(self, s):
        if self.E.symbolic:
            return s.sort.ret, s.sort.params
        t = s.symbol_type()
        return t.return_type, list(t.param_types)


EMAX, MMAX = 60, 1 << 40        # formats gmpy2 and memory allow


def eint(E, name='e', lo=None, hi=EMAX):
    """exponent width"""
    x = E.int(name, lo=lo, hi=hi if E.symbolic else min(hi, 14), kind='width')
    if E.symbolic:
        t = term(x)
        # 2^(e-1) grows with e
        E.p.assume(z3.Implies(z3.And(t >= 1, t <= hi), z3.And(T.pow2(t - 1) >= 1, T.pow2(t - 1) <= 2 ** (hi - 1))))
    return x


def mint(E, name='m', lo=None, hi=MMAX):
    """mantissa width"""
    return E.int(name, lo=lo, hi=hi if E.symbolic else min(hi, 120), kind='width')


# ------------------------------------------------------------------ mpfr values
MpfrSort = z3.IntSort()          # handles; everything known of a value is what these say
KIND = z3.Function('mpfr!kind', MpfrSort, z3.IntSort())      # 0 zero, 1 nonzero number, 2 infinity, 3 NaN
SGN = z3.Function('mpfr!signed', MpfrSort, z3.BoolSort())
SIG = z3.Function('mpfr!sig', MpfrSort, z3.IntSort())
EX = z3.Function('mpfr!exp', MpfrSort, z3.IntSort())
_ufs = {}


def uf(name, args, ret):
    k = (name, tuple(str(a.sort()) for a in args), str(ret))
    if k not in _ufs:
        _ufs[k] = z3.Function(f'gmpy2!{name}', *[a.sort() for a in args], ret)
    return _ufs[k](*args)


def zkey(key):
    out = []
    for k, v in zip(KEY, key):
        out.append(bterm(v) if k == 'subnormalize' else term(v))
    return out


class MV(Opaque):
    """an mpfr: term, precision, settings of a context it is representable in"""
    key_by_identity = True

    def __init__(self, t, prec, key=None):
        self.t, self.prec, self.keys = t, prec, [] if key is None else [key]
        V.CUR.assume(z3.And(KIND(t) >= 0, KIND(t) <= 3))

    def __repr__(self):
        return f'<mpfr {self.t}>'

    def x_type(self):
        return MPFR

    def x_isinstance(self, C):
        C = V.CUR.E.ip.lift(C)
        return isinstance(C, type) and issubclass(MPFR, C)

    def x_truth(self, ip):
        return V.CUR.decide(KIND(self.t) != 0)

    def x_is(self, o):
        if not isinstance(o, MV):
            return False
        if o is self:
            return True
        raise Unsupported('identity of mpfr values')

    def number(self):
        """facts about a nonzero number"""
        if getattr(self, '_num', False):
            return self
        self._num = True
        p, t = term(self.prec), self.t
        f = [SIG(t) >= T.pow2(p - 1), SIG(t) < T.pow2(p)]
        for key in self.keys:
            q, lo, hi, _, sub = zkey(key)
            e = EX(t) + p
            f += [e >= lo, e <= hi]
            # a subnormal has fewer significant bits
            f.append(z3.Implies(z3.And(sub, e < lo + q - 1), T.mod2(SIG(t), norm(p - (e - lo + 1))) == 0))
        V.CUR.assume(z3.Implies(KIND(t) == 1, z3.And(*f)))
        return self

    def x_binop(self, ip, op, o, reflected):
        name = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}.get(op)
        if name:
            o = as_mv(ip, o)
            return gm(ip, name, [o, self] if reflected else [self, o])
        if op in ('<', '<=', '>', '>=', '==', '!='):
            if not isinstance(o, MV) and not isinstance(o, int):
                if o is None or isinstance(o, (str, tuple, SObj)):
                    return NotImplemented
            a, b = self, as_mv(ip, o)
            if reflected:
                a, b = b, a
            if op in ('>', '>='):
                a, b, op = b, a, {'>': '<', '>=': '<='}[op]
            r = compare(op if op != '!=' else '==', a, b)
            return ip.not_(r) if op == '!=' else r
        if op in ('//', '%', '**'):
            raise Unsupported(f'mpfr {op}')
        return NotImplemented

    def x_unop(self, ip, op):
        if op == 'abs':
            return gm(ip, 'abs', [self])
        if op == '-':
            return gm(ip, 'neg', [self])
        if op == '+':
            return gm(ip, 'plus', [self])
        raise Unsupported(f'mpfr {op}')

    def x_getattr(self, ip, name):
        if name == 'precision':
            return self.prec
        if name == 'as_mantissa_exp':
            return Fn(lambda: mantissa_exp(ip, self))
        if name in PREDS:
            return Fn(lambda: PREDS[name](self))
        if name == '__class__':
            return MPFR
        if name == 'rc':
            raise Unsupported('ternary value')
        if hasattr(gmpy2.mpfr(0), name):
            raise Unsupported(f'mpfr.{name}')
        ip.raise_(AttributeError, name)


def const(kind, signed, name):
    t = z3.Const(f'mpfr!{name}', MpfrSort)
    V.CUR.assume(z3.And(KIND(t) == kind, SGN(t) == signed))
    return MV(t, current().setting('precision'))


def const_of(s):
    """mpfr of a special literal"""
    s = s.strip().lower()
    neg = s.startswith('-')
    b = s.lstrip('+-')
    if b in ('inf', 'infinity'):
        return const(2, neg, '-inf' if neg else 'inf')
    if b == 'nan':
        return const(3, False, 'nan')
    if b and set(b) <= set('0.'):
        return const(0, neg, '-0' if neg else '0')
    return None


def as_mv(ip, o):
    if isinstance(o, MV):
        return o
    if isinstance(o, bool) or not isinstance(o, int):
        raise Unsupported('mixed mpfr arithmetic')
    if o == 0:
        return const(0, False, '0')
    t = z3.Const(f'mpfr!int{o}', MpfrSort)
    V.CUR.assume(z3.And(KIND(t) == 1, SGN(t) == (o < 0)))
    return MV(t, current().setting('precision'))


def compare(op, a, b):
    """value comparison; false on NaN"""
    p = V.CUR
    ka, kb = KIND(a.t), KIND(b.t)
    pos = lambda x: z3.And(KIND(x.t) != 0, KIND(x.t) != 3, z3.Not(SGN(x.t)))
    neg = lambda x: z3.And(KIND(x.t) != 0, KIND(x.t) != 3, SGN(x.t))
    za, zb = str(a.t) in ('mpfr!0', 'mpfr!-0'), str(b.t) in ('mpfr!0', 'mpfr!-0')
    if zb:
        return mkbool({'<': neg(a), '<=': z3.Or(ka == 0, neg(a)), '==': ka == 0}[op])
    if za:
        return mkbool({'<': pos(b), '<=': z3.Or(kb == 0, pos(b)), '==': kb == 0}[op])
    r = uf({'<': 'less', '<=': 'lessequal', '==': 'equal'}[op], [a.t, b.t], z3.BoolSort())
    if op == '==':
        p.assume(r == uf('equal', [b.t, a.t], z3.BoolSort()))
    if op == '<=':
        p.assume(r == z3.Or(uf('less', [a.t, b.t], z3.BoolSort()), uf('equal', [a.t, b.t], z3.BoolSort())))
    p.assume(z3.Implies(z3.Or(ka == 3, kb == 3), z3.Not(r)))
    return mkbool(r)


def raw(name, key, args, prec=None):
    """the value gmpy2 gives for an operation under settings key"""
    ts = []
    for a in args:
        ts.append(a if isinstance(a, z3.ExprRef) else a.t if isinstance(a, Opaque) else term(a))
    t = uf(name, zkey(key) + ts, MpfrSort)
    r = MV(t, key[0] if prec is None else prec, key)
    if name in ('of int', 'of rational'):
        V.CUR.assume(KIND(t) != 3)
        if name == 'of int':
            V.CUR.assume(z3.Implies(KIND(t) != 0, SGN(t) == (ts[0] < 0)))
    if name == 'round':
        # nothing to round for a value of the same format
        x, q = args
        for k in x.keys:
            same = [bterm(u) == bterm(v) if n == 'subnormalize' else term(u) == term(v)
                    for n, u, v in zip(KEY, k, key) if n != 'round']
            V.CUR.assume(z3.Implies(z3.And(term(q) == term(key[0]), *same), t == x.t))
    if name in ('add', 'mul', 'minnum', 'maxnum'):
        V.CUR.assume(t == uf(name, zkey(key) + ts[::-1], MpfrSort))
    if name in ('fma', 'fms'):
        V.CUR.assume(t == uf(name, zkey(key) + [ts[1], ts[0], ts[2]], MpfrSort))
    if name == 'sub':
        V.CUR.assume(t == uf('add', zkey(key) + [ts[0], uf('neg', zkey(key) + [ts[1]], MpfrSort)], MpfrSort))
    if name in ('neg', 'abs'):
        x, = args
        if any(same_key(k, key) for k in x.keys):
            V.CUR.assume(z3.And(KIND(t) == KIND(x.t), SIG(t) == SIG(x.t), EX(t) == EX(x.t)))
            V.CUR.assume(z3.Implies(KIND(t) != 3, SGN(t) == (z3.BoolVal(False) if name == 'abs' else z3.Not(SGN(x.t)))))
    return r


def equal_terms(x, y):
    """known to be equal"""
    d = norm(term(x) - term(y))
    n = T.num(d)
    return n == 0 if n is not None else V.CUR.known(d == 0)


def same_key(k, q):
    """known to be the same format (rounding direction aside)"""
    for n, x, y in zip(KEY, k, q):
        if n == 'round':
            continue
        if n == 'subnormalize':
            if not V.CUR.known(bterm(x) == bterm(y)):
                return False
        elif not equal_terms(x, y):
            return False
    return True


ARITY = dict(fma=3, fms=3, sqrt=1, rint=1, rint_floor=1, rint_ceil=1, rint_trunc=1, rint_round=1, trunc=1, floor=1, ceil=1,
             rec_sqrt=1, square=1, neg=1, plus=1, abs=1)


def gm(ip, name, args, ctx=None):
    ctx = ctx or current()
    name = GM.get(name, name)
    if len(args) != ARITY.get(name, 2):
        ip.raise_(TypeError, f'{name}() arguments')
    if any(isinstance(a, SObj) or a is None for a in args):
        ip.raise_(TypeError, f'{name}() arguments')
    other = {k: v for k, v in ctx.fields.items() if k not in KEY and not (k not in FOLLOW and v is DEFAULTS[k])
             and not (k == 'allow_complex' and v is False)}
    for k, v in other.items():
        if k in FOLLOW and T.num(norm(term(v) - term(ctx.setting(FOLLOW[k])))) == 0:
            continue
        name += f' {k}={v!r}'       # other settings may change the outcome
    return raw(name, ctx.key(), [as_mv(ip, a) for a in args])


def mpfr(ip, n=0, precision=0, base=10, context=None):
    ctx = context if isinstance(context, GCtx) else current()
    key = ctx.key()
    if isinstance(n, MV):
        if isinstance(precision, int) and precision == 0:
            precision = key[0]      # the context's
        elif not isintlike(precision) or isinstance(precision, int) and precision == 1:
            raise Unsupported('precision of a copy')
        if equal_terms(precision, key[0]) and any(same_key(k, key) for k in n.keys):
            return n            # representable already
        return raw('round', key, [n, precision], precision)
    if not isintlike(precision):
        ip.raise_(TypeError, 'precision')
    if not (isinstance(precision, int) and precision == 0) and not equal_terms(precision, key[0]):
        raise Unsupported('mpfr with another precision')
    if isinstance(n, str) and not is_symbolic(base):
        c = const_of(n)
        if c is not None:
            c.keys.append(key)
            return c
        try:
            gmpy2.mpfr(n, 0, base)
        except ValueError as e:
            raise PyRaise(e)
        return raw(f'str {n!r} base {base}', key, [])
    if isinstance(n, SStr):
        return parse(ip, n, key, base)
    if isinstance(n, (bool, SBool)):
        n = SInt(term(n)) if isinstance(n, SBool) else int(n)
    if isinstance(n, (int, SInt)):
        if isinstance(n, int) and n == 0:
            c = const(0, False, '0')
            c.keys.append(key)
            return c
        return raw('of int', key, [n])
    if isinstance(n, FloatV):
        return raw('of float', key, [n])
    if isinstance(n, QV):
        return raw('of rational', key, [n])
    if isinstance(n, (float, type(gmpy2.mpq(0)))):
        return raw(f'of {n!r}', key, [])
    if n is None or isinstance(n, (tuple, list, dict, SObj, SSeq)) or type(n) is object:
        ip.raise_(TypeError, 'mpfr() requires numeric or string argument')
    raise Unsupported(f'mpfr of {type(n).__name__}')


class FloatV(Opaque):
    """an arbitrary float"""

    def __init__(self, t):
        self.t = t

    def x_type(self):
        return float

    def x_isinstance(self, C):
        return isinstance(C, type) and issubclass(float, C)

    def x_truth(self, ip):
        raise Unsupported('truth of a float')


class QV(FloatV):
    """an arbitrary mpq"""

    def x_type(self):
        return type(gmpy2.mpq(0))

    def x_isinstance(self, C):
        return isinstance(C, type) and issubclass(type(gmpy2.mpq(0)), C)


def parse(ip, s, key, base):
    """[-]d.<bits>e<int> in base 2: the number is d.bits * 2^int; exact when it fits the context"""
    ps = norm_str(s)
    if base != 2 or len(ps) < 3:
        raise Unsupported('mpfr of a built string')
    if isinstance(ps[-1], str):
        x = ps[-1].lstrip('e')
        if not ps[-1].startswith('e'):
            raise Unsupported('mpfr of a built string')
        ps = ps[:-1] + ['e', ('int', int(x))]
    if len(ps) != 4 or ps[0] not in ('0.', '-0.', '1.', '-1.') or not isinstance(ps[1], tuple) or ps[1][0] != 'bits' or \
            ps[1][1].prefix or ps[2] != 'e' or not isinstance(ps[3], tuple) or ps[3][0] != 'int':
        raise Unsupported('mpfr of a built string')
    neg, lead = ps[0].startswith('-'), '1' in ps[0]
    n, u, x = term(ps[1][1].n), term(ps[1][1].u), term(ps[3][1])
    p, lo, hi, _, sub = zkey(key)
    c = V.CUR
    val = norm(u + T.pow2(n)) if lead else u
    t = c.fresh('parsed')
    r = MV(t, key[0], key)
    c.assume(SGN(t) == neg)
    if lead:
        bl = norm(n + 1)            # u >= 0 and 2^n > 0
        sane = val != 0
    else:
        bl = c.fresh('bits')
        c.assume(z3.Implies(val == 0, KIND(t) == 0))
        c.assume(z3.Implies(val != 0, z3.And(bl >= 1, T.pow2(bl - 1) <= val, val < T.pow2(bl))))
        sane = val != 0
    ex = norm(x - n + bl)           # |v| = 0.1... * 2^ex
    # exact when the digits fit; a subnormal has fewer of them.  Otherwise rounded, overflown or
    # underflown: only the sign is known
    keep = norm(ex - lo + 1)
    room = z3.Or(z3.Not(sub), ex >= lo + p - 1, bl <= keep, T.mod2(val, norm(bl - keep)) == 0)
    fits = z3.And(sane, bl <= p, ex >= lo, ex <= hi, room)
    c.assume(z3.Implies(fits, z3.And(KIND(t) == 1, SIG(t) == T.shl(val, norm(p - bl)), EX(t) == norm(ex - p))))
    return r


def mantissa_exp(ip, v):
    if not V.CUR.decide(KIND(v.t) == 1):
        if V.CUR.decide(KIND(v.t) == 0):
            return (0, 1)
        ip.raise_(OverflowError if V.CUR.decide(KIND(v.t) == 2) else ValueError, 'no integer ratio')
    v.number()
    if V.CUR.decide(SGN(v.t)):
        return (mkint(norm(-SIG(v.t))), SInt(EX(v.t)))
    return (SInt(SIG(v.t)), SInt(EX(v.t)))


PREDS = {
    'is_nan': lambda v: mkbool(KIND(v.t) == 3), 'is_infinite': lambda v: mkbool(KIND(v.t) == 2),
    'is_zero': lambda v: mkbool(KIND(v.t) == 0), 'is_finite': lambda v: mkbool(KIND(v.t) <= 1),
    'is_regular': lambda v: mkbool(KIND(v.t) == 1), 'is_signed': lambda v: mkbool(SGN(v.t)),
}
# gmpy2 functions of mpfr operands: name in gmpy2 -> name of the operation
GM = {'add': 'add', 'sub': 'sub', 'mul': 'mul', 'div': 'div', 'fma': 'fma', 'sqrt': 'sqrt', 'remainder': 'remainder', 'rint': 'rint',
      'minnum': 'minnum', 'maxnum': 'maxnum', 'plus': 'plus', 'minus': 'neg', 'fms': 'fms', 'fmod': 'fmod', 'rint_floor': 'rint_floor',
      'rint_ceil': 'rint_ceil', 'rint_trunc': 'rint_trunc', 'rint_round': 'rint_round', 'trunc': 'trunc', 'floor': 'floor',
      'ceil': 'ceil', 'rec_sqrt': 'rec_sqrt', 'square': 'square'}



def mpz(ip, *a):
    if any(is_symbolic(x) for x in a):
        raise Unsupported('mpz of a symbolic value')
    try:
        return gmpy2.mpz(*a)
    except Exception as e:
        raise PyRaise(e)


def mpq(ip, *a):
    if any(is_symbolic(x) or isinstance(x, Opaque) for x in a):
        raise Unsupported('mpq of a symbolic value')
    try:
        return gmpy2.mpq(*a)
    except Exception as e:
        raise PyRaise(e)


def register(h):
    h.extern[gmpy2.mpz] = mpz
    h.extern[gmpy2.mpq] = mpq
    h.extern[gmpy2.context] = context
    h.extern[gmpy2.local_context] = local_context
    h.extern[gmpy2.get_context] = lambda ip: current()
    h.extern[gmpy2.set_context] = set_context
    old = h.extern[smt.Symbol]
    h.extern[smt.Symbol] = lambda ip, *a, **k: symbol(ip, old, *a, **k)
    h.extern[gmpy2.mpfr] = mpfr
    for n in GM:
        if hasattr(gmpy2, n):
            h.extern[getattr(gmpy2, n)] = lambda ip, *a, n=n: gm(ip, n, a)
    for n in PREDS:
        h.extern[getattr(gmpy2, n)] = lambda ip, v, n=n: PREDS[n](as_mv(ip, v))
    h.extern[pt.FunctionType] = lambda ip, r, ps: FnSort(r, ps)
    for v in vars(SF).values():
        if isinstance(v, weakref.WeakKeyDictionary):
            h.global_state[id(v)] = lambda p, v=v: p.cells.setdefault(('uftable', id(v)), UfTable(p))


verify.EXTRA_DOMAINS.append(__import__('sys').modules[__name__])
