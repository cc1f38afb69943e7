"""Contract language: cases are run symbolically (all inputs, obligations to the
solver) and concretely (replay of counter-models, run-time cross-check)."""
import sys
import types
import warnings
sys.set_int_max_str_digits(0)
import z3
from . import theory as T
from . import values as V
from . import smath as M
from .values import *
from .interp import Interp, MISSING, is_symbolic, Infeasible_
from .hooks import Hooks, SHash, struct_eq, char_bit
from .engine import Infeasible


class Raises:
    def __init__(self, *excs, exact=False):
        self.excs = excs
        self.exact = exact

    def __repr__(self):
        return f'raises {"/".join(e.__name__ for e in self.excs)}'


class Outcome:
    def __init__(self, kind, value):
        self.kind, self.value = kind, value

    def __repr__(self):
        return f'{self.value!r}' if self.kind == 'val' else f'raised {type(self.value).__name__}: {self.value}'


class Skip(BaseException):
    """inputs outside the precondition"""


class Violation(BaseException):
    def __init__(self, label, detail):
        self.label, self.detail = label, detail


class Any:
    """expected: any value"""


ANY = Any()


class BitList:
    """expected list of bits of u, index 0 first (n elements)"""

    def __init__(self, u, n, kind='list', boolean=False):
        self.u, self.n, self.kind, self.boolean = u, n, kind, boolean


class BitString:
    """expected string of the n bits of u, most significant first, after prefix"""

    def __init__(self, u, n, prefix=''):
        self.u, self.n, self.prefix = u, n, prefix


class Pred:
    """expected: value satisfying fn(E, value) -> bool"""

    def __init__(self, text, fn):
        self.text, self.fn = text, fn

    def __repr__(self):
        return self.text


# ------------------------------------------------------------------ registries
CASES = []          # Case objects
CONTRACTS = {}      # name -> Contract


class Case:
    def __init__(self, prop, name, fn, params, verifies=(), bounded=None, weight=1.0, targets=()):
        self.prop, self.name, self.fn, self.params = prop, name, fn, params
        self.verifies = tuple(verifies)
        self.inline = ()
        self.bounded = bounded      # reason why only checked boundedly
        self.weight = weight
        self.targets = targets

    @property
    def id(self):
        p = ','.join(getattr(v, '__name__', str(v)) for v in self.params.values())
        return f'{self.prop}/{self.name}' + (f'[{p}]' if p else '')


def case(prop, name, params=None, verifies=(), bounded=None, weight=1.0, when=None, inline=()):
    """verifies: contracts this case proves (the body is used); inline: contracts not relied on"""
    """params: dict name -> list of alternatives (cartesian product)"""
    def deco(fn):
        combos = [{}]
        for k, vs in (params or {}).items():
            combos = [{**c, k: v} for c in combos for v in vs]
        for c in combos:
            if when is not None and not when(**c):
                continue
            ver = [v.format(**{k: getattr(x, '__name__', x) for k, x in c.items()}) for v in verifies]
            CASES.append(Case(prop, name, fn, c, ver, bounded, weight))
            CASES[-1].inline = tuple(inline)
        return fn
    return deco


class Contract:
    """name; target() -> function object(s) or class key; spec(E, *args) -> expected
    value / Raises / MISSING when the precondition does not hold."""

    def __init__(self, name, targets, spec):
        self.name, self.targets, self.spec = name, targets, spec

    def summary(self, ip, *a, **k):
        if k:
            return MISSING
        E = V.CUR.E
        try:
            r = self.spec(E, *a)
        except TypeError:
            raise
        return realise(ip, r)


def realise(ip, r):
    if isinstance(r, Raises):
        raise PyRaise(r.excs[0]('contract'))
    if isinstance(r, BitList):
        E = V.CUR.E
        u, n, b = r.u, r.n, r.boolean
        el = (lambda i: M.bit(u, i)) if b else (lambda i: mkint(T.mod2(T.shr(term(u), term(i)), 1)))
        s = SSeq(r.kind, n, el)
        k = T.num(term(n))
        if k is not None and k <= 64:
            l = [s.elem(i) for i in range(k)]
            return l if r.kind == 'list' else tuple(l)
        return s
    if isinstance(r, BitString):
        return SStr(r.prefix, ('bits', r)) if r.prefix else SStr(('bits', r))
    return r


def mro_get(cls, name):
    for k in cls.__mro__:
        if name in k.__dict__:
            return k.__dict__[name]
    return None


def underlying(a):
    """function object behind a descriptor"""
    if isinstance(a, (classmethod, staticmethod)):
        return a.__func__
    if isinstance(a, property):
        return a.fget
    if isinstance(a, types.FunctionType):
        return a
    m = getattr(a, 'm', None)       # hwtypes.util.Method
    if isinstance(m, types.FunctionType):
        return m
    return None


# ------------------------------------------------------------------ symbolic mode
class SymE:
    symbolic = True

    def __init__(self, ip, path, params):
        self.ip, self.p, self.params = ip, path, params
        self.inputs = {}
        self.frames = []
        self.prefix = ''
        self.fam = None
        self.vac = 0

    # ---- math
    AND = staticmethod(M.AND)
    OR = staticmethod(M.OR)
    NOT = staticmethod(M.NOT)
    XOR = staticmethod(M.XOR)
    IFF = staticmethod(M.IFF)

    def require(self, cond):
        """precondition"""
        if isinstance(cond, SBool):
            self.p.assume(cond.t)
        elif not cond:
            raise Infeasible()

    def int(self, name, lo=None, hi=None, kind='int'):
        x = z3.Int(name)
        self.inputs[name] = ('int', x)
        if lo is not None:
            self.p.assume(x >= term(lo))
        if hi is not None:
            self.p.assume(x <= term(hi))
        if kind in ('width', 'amount'):
            self.p.small.append(x)
        return SInt(x)

    def uint(self, name, n):
        """int in [0, 2^n)"""
        x = z3.Int(name)
        self.inputs[name] = ('int', x)
        self.p.assume(x >= 0)
        self.p.assume(x < T.pow2(term(n)))
        return SInt(x)

    def bool(self, name):
        x = z3.Bool(name)
        self.inputs[name] = ('bool', x)
        return SBool(x)

    def bits(self, name, n, kind='list', boolean=False):
        """sequence of n bits"""
        f = z3.Function(name, z3.IntSort(), z3.BoolSort())
        self.inputs[name] = ('bits', f, n)
        if boolean:
            return SSeq(kind, n, lambda i: mkbool(f(term(i))))

        def el(i):
            b = f(term(i))
            return 1 if V.CUR.decide(b) else 0
        s = SSeq(kind, n, el)
        s.truth = lambda i: f(term(i))
        return s

    # ---- actions
    def every(self, bs, negate=False):
        """all the booleans of the sequence are true (false)"""
        want = (lambda i: V.mkbool(z3.Not(bterm(bs.elem(i))))) if negate else bs.elem
        p = self.p
        g = p.fresh('every', 'bool')
        j = p.fresh('j')
        n = term(bs.length)
        if p.decide(g):
            p.universals.append((z3.IntVal(0), n, lambda i: bterm(want(SInt(i)))))
            return True
        p.assume(j >= 0)
        p.assume(j < n)
        p.assume(z3.Not(bterm(want(SInt(j)))))
        p.witness = p.witness + [j]
        return False

    def attempt(self, fn):
        try:
            return Outcome('val', fn())
        except PyRaise as e:
            return Outcome('exc', e.exc)

    def get(self, r):
        """value of an outcome that must not raise"""
        if isinstance(r, Outcome):
            if r.kind == 'exc':
                raise PyRaise(r.value)
            return r.value
        return r

    def call(self, f, *a, **k):
        return self.attempt(lambda: self.ip.call(f, list(a), k))

    def build(self, T_, *a, **k):
        return self.attempt(lambda: self.ip.call(T_, list(a), k))

    def meth(self, o, name, *a, **k):
        return self.attempt(lambda: self.ip.call(self.ip.getattr(o, name), list(a), k))

    def op(self, op, a, b):
        return self.attempt(lambda: self.ip.binop(op, a, b) if op not in CMP else self.ip.compare(op, a, b))

    def uop(self, op, a):
        return self.attempt(lambda: self.ip.unop(op, a))

    def attr(self, o, name):
        return self.attempt(lambda: self.ip.getattr(o, name))

    def getitem(self, o, i):
        return self.attempt(lambda: self.ip.getitem(o, i))

    def setitem(self, o, i, v):
        return self.attempt(lambda: self.ip.setitem(o, i, v))

    def setattr(self, o, name, v):
        return self.attempt(lambda: self.ip.setattr(o, name, v))

    def builtin(self, f, *a):
        return self.attempt(lambda: self.ip.call(f, list(a)))

    def contains(self, c, x):
        return self.attempt(lambda: self.ip.contains(c, x))

    def isinstance(self, v, C):
        return self.ip.isinst(v, C)

    def issubclass(self, v, C):
        return self.ip.issub(v, C)

    def same_type(self, a, b):
        return same_type(self.ip.lift(a), self.ip.lift(b))

    def typeof(self, v):
        return self.ip.typeof(v)

    def is_(self, a, b):
        return self.ip.is_(a, b)

    # ---- checks
    def check(self, label, cond):
        if not isinstance(cond, (bool, SBool)):
            raise Unsupported('check of a non-boolean')
        self.p.oblige(label, cond)

    def step(self, label, fact):
        """intermediate assertion: proved here, known from here on"""
        self.p.oblige('step/' + label, fact)
        self.p.assume(fact)

    def expect(self, label, out, exp):
        if not isinstance(out, Outcome):
            out = Outcome('val', out)
        if isinstance(exp, Outcome):
            if exp.kind == 'exc':
                exp = Raises(type(exp.value))
            else:
                exp = exp.value
        if isinstance(exp, Raises):
            ok = out.kind == 'exc' and any(
                (type(out.value) is e) if exp.exact else isinstance(out.value, e) for e in exp.excs)
            self.p.oblige(label + '/raises', ok)
            return
        if out.kind == 'exc':
            self.p.notes.append(f'{label}: raised {out.value!r}')
            self.p.oblige(label + '/no-exception', False)
            return
        self.match(label, out.value, exp)

    def match(self, label, v, exp):
        ob = self.p.oblige
        if exp is ANY:
            return
        if isinstance(exp, Pred):
            ob(label, exp.fn(self, v))
            return
        if isinstance(exp, BitList):
            self.match_bits(label, v, exp)
            return
        if isinstance(exp, BitString):
            self.match_string(label, v, exp)
            return
        if isinstance(exp, (tuple, list)) and type(exp) in (tuple, list):
            if type(v) is not type(exp) or len(v) != len(exp):
                ob(label + '/shape', False)
                return
            for i, (x, y) in enumerate(zip(v, exp)):
                self.match(f'{label}.{i}', x, y)
            return
        if isinstance(exp, (bool, SBool)):
            if not isinstance(v, (bool, SBool)):
                ob(label + '/type', False)
                return
            ob(label, self.ip.compare('==', v, exp))
            return
        if isintlike(exp):
            if not isintlike(v):
                ob(label + '/type', False)
                return
            ob(label, mkbool(term(v) == term(exp)))
            return
        if isinstance(exp, SObj):
            if not isinstance(v, SObj):
                ob(label + '/type', False)
                return
            ob(label + '/type', same_type(self.ip.lift(v.cls), self.ip.lift(exp.cls)))
            self.match_attrs(label, v, exp)
            return
        if isinstance(exp, Opaque):
            exp.x_match(self, label, v)
            return
        if isinstance(exp, (SType, type)):
            ob(label, same_type(self.ip.lift(v), self.ip.lift(exp)) if isinstance(v, (SType, type)) else False)
            return
        if isinstance(exp, SStr) or isinstance(exp, str):
            if not isinstance(v, (str, SStr)):
                ob(label + '/type', False)
                return
            ob(label, self.ip.h.str_eq(self.ip, v, exp))
            return
        if exp is None or exp is NotImplemented:
            ob(label, v is exp)
            return
        if not is_symbolic(v) and not is_symbolic(exp):
            ob(label, v is exp or (type(v) is type(exp) and bool(v == exp)))
            return
        ob(label, v is exp)

    def match_attrs(self, label, v, exp):
        if set(v.attrs) != set(exp.attrs):
            self.p.notes.append(f'{label}: attributes {sorted(v.attrs)} instead of {sorted(exp.attrs)}')
            raise Unsupported(f'object state of {v!r}')
        for k in exp.attrs:
            a, b = v.attrs[k], exp.attrs[k]
            if a is b:
                continue
            self.match(f'{label}/value', a, b)

    def match_bits(self, label, v, exp):
        ob = self.p.oblige
        kind = {'list': list, 'tuple': tuple}[exp.kind]
        if isinstance(v, SSeq):
            if v.kind != exp.kind:
                ob(label + '/type', False)
                return
        elif type(v) is not kind:
            ob(label + '/type', False)
            return
        ob(label + '/length', self.ip.compare('==', self.ip.length(v), exp.n))
        if isinstance(v, SSeq):
            i = self.p.fresh('at')
            self.p.assume(i >= 0)
            self.p.assume(i < term(exp.n))
            self.p.assume(i < term(v.length))
            r = self.attempt(lambda: v.elem(SInt(i)))
            self.match_bit(label, r, SInt(i), exp)
        else:
            n = len(v)
            for j in range(n):
                self.match_bit(label, Outcome('val', v[j]), j, exp)

    def match_bit(self, label, r, i, exp):
        ob = self.p.oblige
        if r.kind == 'exc':
            ob(label + '/element', False)
            return
        x = r.value
        b = M.bit(exp.u, i)
        if exp.boolean:
            if not isinstance(x, (bool, SBool)):
                ob(label + '/element-type', False)
                return
            ob(label + '/element', M.IFF(x, b))
            return
        if not isintlike(x):
            ob(label + '/element-type', False)
            return
        if isinstance(x, (bool, SBool)):
            ob(label + '/element', M.IFF(x, b))
            return
        t = term(x)
        ob(label + '/element', mkbool(z3.And(z3.Implies(bterm(b), t == 1), z3.Implies(z3.Not(bterm(b)), t == 0))))

    def match_string(self, label, v, exp):
        ob = self.p.oblige
        if isinstance(v, str):
            n = T.num(term(exp.n))
            if n is None:
                ob(label + '/length', self.ip.compare('==', len(v) - len(exp.prefix), exp.n))
                n = len(v) - len(exp.prefix)
            if not v.startswith(exp.prefix):
                ob(label, False)
                return
            body = v[len(exp.prefix):]
            for j, c in enumerate(body):
                ob(label + '/element', M.IFF(char_bit(self.ip, c), M.bit(exp.u, n - 1 - j)))
            return
        if isinstance(v, SStr) and any(isinstance(q, tuple) and q[0] == 'bits' for q in v.parts):
            from .hooks import norm_str
            ps = norm_str(v)
            q = ps[-1]
            if len(ps) > 2 or not isinstance(q, tuple) or q[0] != 'bits' or len(ps) == 2 and not isinstance(ps[0], str):
                raise Unsupported('string shape')
            ob(label + '/prefix', (ps[0] if len(ps) == 2 else '') + q[1].prefix == exp.prefix)
            ob(label + '/length', self.ip.compare('==', q[1].n, exp.n))
            ob(label + '/bits', mkbool(term(q[1].u) == term(exp.u)))
            return
        if isinstance(v, SStr):
            ps = v.parts
            if exp.prefix and isinstance(ps[0], str) and len(ps) == 2 and isinstance(ps[1], SSeq):
                ob(label + '/prefix', ps[0] == exp.prefix)
                v = ps[1]
            else:
                # concretely many characters
                if exp.prefix:
                    if not isinstance(ps[0], str) or not ps[0].startswith(exp.prefix):
                        raise Unsupported('string shape')
                    ps = [ps[0][len(exp.prefix):]] + ps[1:]
                chars = []
                for q in ps:
                    if isinstance(q, str):
                        chars.extend(q)
                    else:
                        chars.append(SStr(q))
                ob(label + '/length', self.ip.compare('==', len(chars), exp.n))
                for j, c in enumerate(chars):
                    ob(label + '/element', M.IFF(char_bit(self.ip, c), M.bit(exp.u, len(chars) - 1 - j)))
                return
        elif exp.prefix:
            ob(label + '/prefix', False)
            return
        if not (isinstance(v, SSeq) and v.kind == 'str'):
            ob(label + '/type', False)
            return
        ob(label + '/length', self.ip.compare('==', self.ip.length(v), exp.n))
        i = self.p.fresh('at')
        self.p.assume(i >= 0)
        self.p.assume(i < term(exp.n))
        self.p.assume(i < term(v.length))
        r = self.attempt(lambda: char_bit(self.ip, v.elem(SInt(i))))
        if r.kind == 'exc':
            ob(label + '/element', False)
            return
        ob(label + '/element', M.IFF(r.value, M.bit(exp.u, mkint(term(exp.n) - 1 - i))))

    # ---- frames
    def frame(self, o):
        self.frames.append((o, dict(o.attrs)))

    def end(self):
        for o, snap in self.frames:
            if getattr(o, 'mutated_ok', False):
                continue
            same = set(snap) == set(o.attrs)
            if same:
                for k in snap:
                    if snap[k] is not o.attrs[k]:
                        self.match('frame/operand-unchanged', o.attrs[k], snap[k])
            else:
                self.p.oblige('frame/operand-unchanged', False)

    def mutates(self, o):
        if isinstance(o, SObj):
            o.mutated_ok = True

    # helpers for specs
    def ite(self, c, a, b):
        return a if self.ip.truth(c) else b

    def kind(self, v):
        """'bool','int','str','seq','none','obj', ... of an argument"""
        return None


CMP = ('<', '<=', '>', '>=', '==', '!=')
import operator as _op
PY2 = {'+': _op.add, '-': _op.sub, '*': _op.mul, '//': _op.floordiv, '%': _op.mod, '&': _op.and_,
       '|': _op.or_, '^': _op.xor, '<<': _op.lshift, '>>': _op.rshift, '/': _op.truediv, '**': _op.pow,
       '<': _op.lt, '<=': _op.le, '>': _op.gt, '>=': _op.ge, '==': _op.eq, '!=': _op.ne}


# ------------------------------------------------------------------ concrete mode
class ConE:
    symbolic = False
    AND = staticmethod(M.AND)
    OR = staticmethod(M.OR)
    NOT = staticmethod(M.NOT)
    XOR = staticmethod(M.XOR)
    IFF = staticmethod(M.IFF)
    prefix = ''

    def __init__(self, source, params):
        self.src = source           # chooser
        self.params = params
        self.inputs = {}
        self.frames = []
        self.log = []
        self.checks = 0
        self.fam = None

    def require(self, cond):
        if not cond:
            raise Skip()

    def pick(self, name, options):
        """one of finitely many things (bounded cases)"""
        options = list(options)
        i = self.src.choice(name, len(options))
        self.inputs[name] = i
        return options[i]

    def int(self, name, lo=None, hi=None, kind='int'):
        v = self.src.int(name, lo, hi, kind)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        self.inputs[name] = v
        return v

    def uint(self, name, n):
        v = self.src.uint(name, n)
        if not 0 <= v < 1 << n:
            raise Skip()
        self.inputs[name] = v
        return v

    def bool(self, name):
        v = bool(self.src.bool(name))
        self.inputs[name] = v
        return v

    def bits(self, name, n, kind='list', boolean=False):
        v = self.src.bits(name, n)
        self.inputs[name] = v
        l = [bool(v >> i & 1) if boolean else v >> i & 1 for i in range(n)]
        return l if kind == 'list' else tuple(l)

    def every(self, bs, negate=False):
        return not any(bs) if negate else all(bs)

    def attempt(self, fn):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return Outcome('val', fn())
        except MemoryError:
            raise Skip()
        except Exception as e:
            return Outcome('exc', e)

    def get(self, r):
        if isinstance(r, Outcome):
            if r.kind == 'exc':
                raise PyRaise(r.value)
            return r.value
        return r

    def note(self, text, r):
        self.log.append(f'{text} -> {r!r}')
        return r

    def call(self, f, *a, **k):
        return self.note(f'{getattr(f, "__name__", f)}{a!r}', self.attempt(lambda: f(*a, **k)))

    def build(self, T_, *a, **k):
        return self.note(f'{T_!r}{a!r}{k or ""}', self.attempt(lambda: T_(*a, **k)))

    def meth(self, o, name, *a, **k):
        before = repr(o)
        return self.note(f'{before}.{name}{a!r}', self.attempt(lambda: getattr(o, name)(*a, **k)))

    def op(self, op, a, b):
        return self.note(f'{a!r} {op} {b!r}', self.attempt(lambda: PY2[op](a, b)))

    def uop(self, op, a):
        f = {'-': _op.neg, '~': _op.invert, '+': _op.pos, 'not': _op.not_}[op]
        return self.note(f'{op}{a!r}', self.attempt(lambda: f(a)))

    def attr(self, o, name):
        return self.note(f'{o!r}.{name}', self.attempt(lambda: getattr(o, name)))

    def getitem(self, o, i):
        return self.note(f'{o!r}[{i!r}]', self.attempt(lambda: o[i]))

    def setitem(self, o, i, v):
        def go():
            o[i] = v
        b = repr(o)
        return self.note(f'{b}[{i!r}] = {v!r}', self.attempt(go))

    def setattr(self, o, name, v):
        b = repr(o)
        return self.note(f'{b}.{name} = {v!r}', self.attempt(lambda: setattr(o, name, v)))

    def builtin(self, f, *a):
        return self.note(f'{f.__name__}{a!r}', self.attempt(lambda: f(*a)))

    def contains(self, c, x):
        return self.note(f'{x!r} in {c!r}', self.attempt(lambda: x in c))

    def isinstance(self, v, C):
        return isinstance(v, C)

    def issubclass(self, v, C):
        return issubclass(v, C)

    def same_type(self, a, b):
        return a is b

    def typeof(self, v):
        return type(v)

    def is_(self, a, b):
        return a is b

    def check(self, label, cond):
        self.checks += 1
        if not cond:
            raise Violation(label, f'condition is false')

    def expect(self, label, out, exp):
        if not isinstance(out, Outcome):
            out = Outcome('val', out)
        if isinstance(exp, Outcome):
            exp = Raises(type(exp.value)) if exp.kind == 'exc' else exp.value
        self.checks += 1
        if isinstance(exp, Raises):
            ok = out.kind == 'exc' and any((type(out.value) is e) if exp.exact else isinstance(out.value, e)
                                           for e in exp.excs)
            if not ok:
                raise Violation(label + '/raises', f'expected {exp!r}, got {out!r}')
            return
        if out.kind == 'exc':
            raise Violation(label + '/no-exception', f'expected {self.show(exp)}, {out!r}')
        self.match(label, out.value, exp)

    def show(self, exp):
        if isinstance(exp, BitList):
            return f'{exp.kind} of the {exp.n} bits of {exp.u}'
        if isinstance(exp, BitString):
            return f'bit string of {exp.u} ({exp.n} bits)'
        return repr(exp)

    def match(self, label, v, exp):
        def bad(what='value'):
            raise Violation(label, f'expected {self.show(exp)} ({what}), got {v!r} of type {type(v).__name__}')
        if exp is ANY:
            return
        if isinstance(exp, Pred):
            if not exp.fn(self, v):
                bad()
            return
        if isinstance(exp, BitList):
            kind = {'list': list, 'tuple': tuple}[exp.kind]
            if type(v) is not kind:
                bad('type')
            want = [(exp.u >> i) & 1 for i in range(exp.n)]
            if len(v) != exp.n:
                bad('length')
            for x, y in zip(v, want):
                if exp.boolean:
                    if x is not bool(y):
                        bad()
                elif not isinstance(x, int) or int(x) != y:
                    bad()
            return
        if isinstance(exp, BitString):
            w = exp.prefix + ''.join(str((exp.u >> i) & 1) for i in reversed(range(exp.n)))
            if v != w:
                bad()
            return
        if type(exp) in (tuple, list):
            if type(v) is not type(exp) or len(v) != len(exp):
                bad('shape')
            for i, (x, y) in enumerate(zip(v, exp)):
                self.match(f'{label}.{i}', x, y)
            return
        if isinstance(exp, bool):
            if not isinstance(v, bool) or v != exp:
                bad()
            return
        if type(exp) is int:
            if not isinstance(v, int) or int(v) != exp:
                bad()
            return
        f = self.matcher(exp)
        if f is not None:
            if not f(v, exp):
                bad()
            return
        if isinstance(exp, type) or exp is None or exp is NotImplemented:
            if v is not exp:
                bad()
            return
        if isinstance(exp, str):
            if not isinstance(v, str) or v != exp:
                bad()
            return
        if not (v is exp or (type(v) is type(exp) and bool(v == exp))):
            bad()

    matchers = []

    def matcher(self, exp):
        for test, f in ConE.matchers:
            if test(exp):
                return f
        return None

    snapshots = []

    def frame(self, o):
        for test, snap in ConE.snapshots:
            if test(o):
                self.frames.append((o, snap(o), snap))
                return

    def mutates(self, o):
        self.frames = [f for f in self.frames if f[0] is not o]

    def end(self):
        for o, s, snap in self.frames:
            t = snap(o)
            self.checks += 1
            if t != s:
                raise Violation('frame/operand-unchanged', f'operand changed from {s} to {t}')

    def ite(self, c, a, b):
        return a if c else b
