"""Symbolic values of the verification-condition generator."""
import z3
from . import theory as T
from .theory import norm, num, zi

CUR = None          # current Path (set by engine.explore)


def cur():
    return CUR


class Unsupported(Exception):
    """The construct is outside the verifier's reach (the function is then checked boundedly)."""


class PyRaise(BaseException):
    """An exception of the program under verification."""

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return f'PyRaise({self.exc!r})'


def term(x):
    """z3 Int term of an int-like value"""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBool):
        if z3.is_true(x.t):
            return z3.IntVal(1)
        if z3.is_false(x.t):
            return z3.IntVal(0)
        # keep arithmetic free of if-then-else: decide
        return z3.IntVal(1 if CUR.decide(x.t) else 0)
    raise Unsupported(f'not an integer: {type(x).__name__}')


def bterm(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SBool):
        return x.t
    if z3.is_bool(x):
        return x
    if isinstance(x, (int, SInt)):
        return term(x) != 0
    raise Unsupported(f'not a bool: {type(x).__name__}')


def mkint(t):
    """SInt or Python int of a z3 term"""
    if isinstance(t, int):
        return t
    t = norm(t)
    v = num(t)
    return v if v is not None else SInt(t)


def mkbool(t):
    if isinstance(t, bool):
        return t
    t2 = t
    if z3.is_true(t2):
        return True
    if z3.is_false(t2):
        return False
    t2 = z3.simplify(t) if not z3.is_const(t) else t
    if z3.is_true(t2):
        return True
    if z3.is_false(t2):
        return False
    return SBool(t)


def isintlike(x):
    return isinstance(x, (int, SInt, SBool))


def _cmp(f):
    def g(a, b):
        if not isintlike(b):
            return NotImplemented
        x, y = norm(term(a)), norm(term(b))
        d = num(norm(x - y))
        if d is not None:
            return bool(z3.is_true(z3.simplify(f(z3.IntVal(d), z3.IntVal(0)))))
        return mkbool(f(x, y))
    return g


def _arith(f):
    def g(a, b):
        if not isintlike(b):
            return NotImplemented
        return mkint(f(term(a), term(b)))
    return g


def _rarith(f):
    def g(a, b):
        if not isintlike(b):
            return NotImplemented
        return mkint(f(term(b), term(a)))
    return g


class SInt:
    """A symbolic Python int (unbounded, mathematical)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SInt({self.t})'

    __add__ = _arith(lambda a, b: a + b)
    __radd__ = _rarith(lambda a, b: a + b)
    __sub__ = _arith(lambda a, b: a - b)
    __rsub__ = _rarith(lambda a, b: a - b)
    __mul__ = _arith(T.mul)
    __rmul__ = _rarith(T.mul)
    __floordiv__ = _arith(T.fdiv)
    __rfloordiv__ = _rarith(T.fdiv)
    __mod__ = _arith(T.fmod)
    __rmod__ = _rarith(T.fmod)
    __and__ = _arith(T.band)
    __rand__ = _rarith(T.band)
    __or__ = _arith(T.bor)
    __ror__ = _rarith(T.bor)
    __xor__ = _arith(T.bxor)
    __rxor__ = _rarith(T.bxor)
    __lshift__ = _arith(T.shl)
    __rlshift__ = _rarith(T.shl)
    __rshift__ = _arith(T.shr)
    __rrshift__ = _rarith(T.shr)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)
    __eq__ = _cmp(lambda a, b: a == b)
    __ne__ = _cmp(lambda a, b: a != b)

    def __neg__(self):
        return mkint(-self.t)

    def __pos__(self):
        return self

    def __invert__(self):
        return mkint(-self.t - 1)

    def __abs__(self):
        return self if CUR.decide(self.t >= 0) else mkint(-self.t)

    def __bool__(self):
        return CUR.decide(self.t != 0)

    def __hash__(self):
        raise Unsupported('hash of a symbolic int')

    def __index__(self):
        raise Unsupported('symbolic int used where a concrete one is needed')


class SBool:
    """A symbolic Python bool."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SBool({self.t})'

    def __bool__(self):
        return CUR.decide(self.t)

    def __hash__(self):
        raise Unsupported('hash of a symbolic bool')

    def __index__(self):
        raise Unsupported('symbolic bool used where a concrete int is needed')


def sbool_bitop(op, a, b):
    x, y = bterm(a), bterm(b)
    if op == '&':
        return mkbool(z3.And(x, y))
    if op == '|':
        return mkbool(z3.Or(x, y))
    return mkbool(x != y)


class SType:
    """base[size] for a real unsized type `base` and a symbolic or concrete size."""
    __slots__ = ('base', 'size')

    def __init__(self, base, size):
        self.base, self.size = base, size

    def __repr__(self):
        return f'{self.base.__name__}[{self.size}]'

    def __hash__(self):
        raise Unsupported('hash of a symbolic type')

    def __eq__(self, o):
        return same_type(self, o)


class SObj:
    """A symbolic instance: class (SType or real class) and attributes."""

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}

    def __repr__(self):
        return f'<{self.cls} {self.attrs}>'

    def __hash__(self):
        raise Unsupported('hash of a symbolic object')

    def __bool__(self):
        raise Unsupported('truth of a symbolic object outside the interpreter')

    def __eq__(self, o):
        raise Unsupported('equality of a symbolic object outside the interpreter')


class SStr:
    """An opaque string built from parts (structural identity)."""

    def __init__(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, SStr):
                out.extend(p.parts)
            else:
                out.append(p)
        self.parts = out

    def __repr__(self):
        return f'SStr({self.parts})'

    def __hash__(self):
        raise Unsupported('hash of a symbolic string')


class SSeq:
    """A sequence of symbolic length; elem(i: int|SInt) -> value."""
    _n = 0

    def __init__(self, kind, length, elem, label=None):
        self.kind, self.length, self.elem = kind, length, elem
        self.label = label

    def __repr__(self):
        return f'SSeq({self.kind}, {self.length})'

    def __hash__(self):
        raise Unsupported('hash of a symbolic sequence')


class SIter:
    """An iterator object over Python generator `gen` or a symbolic sequence."""

    def __init__(self, gen=None, seq=None):
        self.gen, self.seq = gen, seq


class Each:
    """part of what a generator yields: items (of iteration k) for k = 0 … n-1"""

    def __init__(self, n, k, items):
        self.n, self.k, self.items = n, k, items


class SFunc:
    """A function object created by interpreted code."""

    def __init__(self, node, env, name, qualname, defaults, kwdefaults, module_globals):
        self.node, self.env, self.name, self.qualname = node, env, name, qualname
        self.defaults, self.kwdefaults, self.globals = defaults, kwdefaults, module_globals
        self.attrs = {}


class SMethod:
    def __init__(self, func, self_):
        self.func, self.self = func, self_


class Opaque:
    """Values of external libraries with an assumed contract."""
    def x_getattr(self, ip, name):
        raise Unsupported(f'attribute {name} of {type(self).__name__}')

    def x_type(self):
        raise Unsupported(f'type of {type(self).__name__}')

    def x_isinstance(self, C):
        raise Unsupported(f'isinstance of {type(self).__name__}')

    def x_binop(self, ip, op, other, reflected):
        return NotImplemented

    def x_unop(self, ip, op):
        raise Unsupported(f'{op} on {type(self).__name__}')

    def x_getitem(self, ip, idx):
        raise Unsupported(f'indexing {type(self).__name__}')

    def x_truth(self, ip):
        raise Unsupported(f'truth of {type(self).__name__}')

    def x_call(self, ip, args, kwargs):
        raise Unsupported(f'call of {type(self).__name__}')

    def x_is(self, other):
        """identity with another value: bool / SBool"""
        return self is other


class YSeq(Opaque):
    """what a generator yields: values and Each parts, in order"""

    def __init__(self, items):
        self.items = items


def same_size(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return a == b     # SInt comparison


def same_type(a, b):
    """identity of two types (bool or SBool)"""
    if isinstance(a, SType) and isinstance(b, SType):
        if a.base is not b.base:
            return False
        return same_size(a.size, b.size)
    if isinstance(a, SType) or isinstance(b, SType):
        return False
    return a is b
