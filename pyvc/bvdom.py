"""Concrete bit-vectors and bits: domain of values, contracts."""
import sys
import types
import typing as tp
import z3
import hwtypes
from hwtypes import bit_vector as BVM, bit_vector_abc as ABC, bit_vector_util as UTIL
from hwtypes.bit_vector import Bit, BitVector, UIntVector, SIntVector
from hwtypes.bit_vector_abc import InconsistentSizeError
from . import theory as T
from . import values as V
from . import smath as M
from . import spec
from .values import *
from .interp import MISSING, is_symbolic, Interp
from .engine import explore
from .spec import (SymE, ConE, Raises, Outcome, Contract, CONTRACTS, BitList, BitString, Pred, ANY, mro_get,
                   underlying)
from . import helpers
from .helpers import HasInt, HasBool, Plain

BASES = (BitVector, UIntVector, SIntVector)


class Template:
    def __init__(self, attrs, uattr):
        self.attrs, self.uattr = attrs, uattr


def isfam(cls):
    return isinstance(cls, SType) and isinstance(cls.base, type) and issubclass(cls.base, BitVector)


# ------------------------------------------------------------------ representation
def discover(ip, cls, arg, hyps, small=()):
    """attributes of cls(arg) under hyps, as {name: 'arg' | constant}; the arg
    must be stored (up to proof) in some attribute"""
    from .engine import Path
    h = ip.h
    old = set(h.disabled)
    h.disabled |= {'bv.construct', 'bit.construct'}
    sub = Interp(h)
    found = []

    def run(p):
        for x in hyps:
            p.assume(x)
        p.E = SymE(sub, p, {})
        try:
            o = sub.construct(cls, [arg], {})
        except PyRaise as e:
            raise Unsupported(f'construction of {cls} raises {e.exc!r}')
        if not isinstance(o, SObj):
            raise Unsupported('construction')
        d = {}
        for k, v in o.attrs.items():
            if isintlike(v) and isinstance(arg, SInt):
                from .engine import Obligation
                ob = Obligation('rep', p.pc, term(v) == arg.t, p)
                if p.prove(ob, timeout=10, cegar=0).status == 'proved':
                    d[k] = 'arg'
                    continue
            if isinstance(v, (bool, SBool)) and isinstance(arg, SBool):
                from .engine import Obligation
                ob = Obligation('rep', p.pc, bterm(v) == arg.t, p)
                if p.prove(ob, timeout=10, cegar=0).status == 'proved':
                    d[k] = 'arg'
                    continue
            if not is_symbolic(v):
                d[k] = ('const', v)
                continue
            raise Unsupported(f'representation of {cls}: attribute {k} = {v!r}')
        found.append(d)
    saved = V.CUR
    try:
        explore(run, 40)
    finally:
        V.CUR = saved
        h.disabled = old
    if not found or any(d != found[0] for d in found):
        raise Unsupported(f'representation of {cls}')
    d = found[0]
    u = [k for k, v in d.items() if v == 'arg']
    if not u:
        raise Unsupported(f'representation of {cls}: value not stored')
    return Template(d, u[0])


def template(ip, base):
    c = ip.h.__dict__.setdefault('_templates', {})
    if base not in c:
        try:
            if base is Bit:
                c[base] = discover(ip, Bit, SBool(z3.Bool('rep!b')), [])
            else:
                n, u = z3.Int('rep!n'), z3.Int('rep!u')
                c[base] = discover(ip, SType(base, SInt(n)), SInt(u), [n >= 0, u >= 0, u < T.pow2(n)])
        except Unsupported as e:
            c[base] = e
    r = c[base]
    if isinstance(r, Unsupported):
        raise r
    return r


def mk(ip, cls, base, v):
    t = template(ip, base)
    return SObj(cls, {k: (v if x == 'arg' else x[1]) for k, x in t.attrs.items()})


# ------------------------------------------------------------------ E methods
def s_T(E, base, n):
    return SType(base, n)


def s_mkbv(E, base, n, u):
    if isinstance(u, z3.ExprRef):
        u = mkint(u)
    if isinstance(u, SBool):
        u = mkint(term(u))
    return mk(E.ip, SType(base, n), base, u)


def s_mkbit(E, b):
    if isinstance(b, z3.ExprRef):
        b = mkbool(b)
    return mk(E.ip, Bit, Bit, b)


def s_bv(E, name, base, n):
    u = E.uint(name, n)
    x = s_mkbv(E, base, n, u)
    E.frame(x)
    return x


def s_bit(E, name):
    x = s_mkbit(E, E.bool(name))
    E.frame(x)
    return x


def s_isbv(E, x):
    return isinstance(x, SObj) and isfam(x.cls)


def s_isbit(E, x):
    return isinstance(x, SObj) and isinstance(x.cls, type) and issubclass(x.cls, Bit)


def s_u(E, x):
    t = template(E.ip, x.cls.base)
    v = x.attrs[t.uattr]
    return v if not isinstance(v, SBool) else mkint(term(v))


def s_b(E, x):
    return x.attrs[template(E.ip, Bit).uattr]


def s_size(E, x):
    return x.cls.size


def s_base(E, x):
    return x.cls.base


def s_obj(E, cls, **attrs):
    return SObj(cls, dict(attrs))


def s_slice(E, n, sl):
    a, b, c = E.ip.slice_indices(sl, n)
    return mkint(a), mkint(b), mkint(c)


def s_frombits(E, n, truth):
    """integer whose bit i is truth(i) for 0 <= i < n"""
    n = mkint(term(n))
    if isinstance(n, int) and n <= 64:
        r = 0
        for i in range(n):
            if E.ip.truth(truth(i)):
                r += 1 << i
        return r
    key = object()
    E.p.keep = getattr(E.p, 'keep', []) + [key]
    info = E.p.seqint(key, truth, n)
    return mkint(info.B(term(n)))


def s_seqval(E, s):
    """value of a bit sequence (element i has weight 2^i)"""
    ip = E.ip
    if isinstance(s, SSeq):
        if isinstance(s.length, int) and s.length <= 64:
            return s_seqval(E, [s.elem(i) for i in range(s.length)])
        info = E.p.seqint(s, lambda i: ip.boolval(s.elem(i)), s.length)
        return mkint(info.B(term(s.length)))
    r = 0
    for i, x in enumerate(s):
        b = ip.boolval(x)
        if isinstance(b, SBool):
            b = E.ip.truth(b)
        r += (1 << i) if b else 0
    return r


def s_seqlen(E, s):
    return E.ip.length(s)


def s_argkind(E, v):
    if isinstance(v, (bool, SBool)):
        return 'bool'
    if isinstance(v, (int, SInt)):
        return 'int'
    if isinstance(v, SObj):
        if isfam(v.cls):
            return 'bv'
        if isinstance(v.cls, type) and issubclass(v.cls, Bit):
            return 'bit'
        if v.cls in (HasInt, HasBool, Plain):
            return v.cls.__name__
        return 'unknown'
    if isinstance(v, SSeq):
        return 'seq' if v.kind in ('list', 'tuple', 'range') else 'unknown'
    if type(v) in (list, tuple):
        return 'seq'
    if isinstance(v, float):
        return 'float'
    if v is None or isinstance(v, (complex, dict, set)) or v is object or isinstance(v, type) or v is NotImplemented:
        return 'none'
    return 'unknown'


for _n, _f in dict(T=s_T, mkbv=s_mkbv, mkbit=s_mkbit, bv=s_bv, bit=s_bit, isbv=s_isbv, isbit=s_isbit, u=s_u, b=s_b,
                   size=s_size, base=s_base, obj=s_obj, slice=s_slice, frombits=s_frombits, seqval=s_seqval,
                   seqlen=s_seqlen, argkind=s_argkind).items():
    setattr(SymE, _n, _f)


def c_mkbv(E, base, n, u):
    return base[n](int(u))


def c_bv(E, name, base, n):
    x = base[n](E.uint(name, n))
    E.frame(x)
    return x


def c_bit(E, name):
    x = Bit(E.bool(name))
    E.frame(x)
    return x


def c_obj(E, cls, **attrs):
    o = cls.__new__(cls)
    o.__dict__.update(attrs)
    return o


def c_slice(E, n, sl):
    a, b, c = sl.indices(n)
    return a, c, len(range(a, b, c))


def c_argkind(E, v):
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, BitVector):
        return 'bv'
    if isinstance(v, Bit):
        return 'bit'
    if type(v) in (HasInt, HasBool, Plain):
        return type(v).__name__
    if isinstance(v, float):
        return 'float'
    if type(v) in (list, tuple, range):
        return 'seq'
    if v is None or isinstance(v, (complex, dict, set)) or v is object or isinstance(v, type) or v is NotImplemented:
        return 'none'
    return 'unknown'


for _n, _f in dict(T=lambda E, b, n: b[n], mkbv=c_mkbv, mkbit=lambda E, b: Bit(bool(b)), bv=c_bv, bit=c_bit,
                   isbv=lambda E, x: isinstance(x, BitVector), isbit=lambda E, x: isinstance(x, Bit),
                   u=lambda E, x: x.as_uint(), b=lambda E, x: bool(x), size=lambda E, x: x.size,
                   base=lambda E, x: type(x).unsized_t, obj=c_obj, slice=c_slice,
                   frombits=lambda E, n, truth: sum(1 << i for i in range(n) if truth(i)),
                   seqval=lambda E, s: sum(1 << i for i, x in enumerate(s) if x),
                   seqlen=lambda E, s: len(s), argkind=c_argkind).items():
    setattr(ConE, _n, _f)


def _same_bv(v, exp):
    return type(v) is type(exp) and type(v.as_uint()) in (int, bool) and v.as_uint() == exp.as_uint()


ConE.matchers.append((lambda e: isinstance(e, BitVector), _same_bv))
ConE.matchers.append((lambda e: isinstance(e, Bit), lambda v, e: type(v) is type(e) and bool(v) == bool(e)))
ConE.snapshots.append((lambda o: isinstance(o, BitVector), lambda o: (type(o), o.as_uint(), o.size)))
ConE.snapshots.append((lambda o: isinstance(o, Bit), lambda o: (type(o), bool(o))))
ConE.snapshots.append((lambda o: isinstance(o, (list, dict)), lambda o: (type(o), list(o))))


# ------------------------------------------------------------------ specifications
def sp_construct(E, base, n, v):
    """base[n](v)"""
    k = E.argkind(v)
    if k == 'bv':
        val = E.u(v)
    elif k == 'bit':
        val = 1 if E.b(v) else 0
    elif k in ('int', 'bool'):
        val = v
    elif k == 'seq':
        val = E.seqval(v)
    elif k == 'HasInt':
        val = v.attrs['v'] if isinstance(v, SObj) else v.v
    elif k == 'float':
        val = int(v)
    elif k in ('Plain', 'HasBool', 'none'):
        return Raises(TypeError)
    else:
        return MISSING
    return E.mkbv(base, n, M.mod2(val, n))


def sp_bit(E, v):
    """Bit(v)"""
    k = E.argkind(v)
    if k == 'bit':
        return E.mkbit(E.b(v))
    if k == 'bool':
        return E.mkbit(v)
    if k == 'int':
        if v == 0:
            return E.mkbit(False)
        if v == 1:
            return E.mkbit(True)
        return Raises(ValueError)
    if k == 'HasBool':
        return E.mkbit(v.attrs['v'] if isinstance(v, SObj) else v.v)
    if k == 'bv':
        return E.mkbit(E.u(v) != 0)
    if k == 'float':
        return E.mkbit(bool(v))
    if k in ('Plain', 'HasInt'):
        return Raises(TypeError)
    return MISSING


def sp_coerce(E, x, v):
    """operand v converted for the receiver x: BV or Raises or MISSING"""
    if E.isbv(v):
        if E.size(v) == E.size(x):
            return v
        return Raises(InconsistentSizeError)
    return sp_construct(E, E.base(x), E.size(x), v)


UBIN = {
    'bvand': lambda E, a, b, n: M.band(a, b),
    'bvor': lambda E, a, b, n: M.bor(a, b),
    'bvxor': lambda E, a, b, n: M.bxor(a, b),
    'bvnand': lambda E, a, b, n: -M.band(a, b) - 1,
    'bvnor': lambda E, a, b, n: -M.bor(a, b) - 1,
    'bvxnor': lambda E, a, b, n: -M.bxor(a, b) - 1,
    'bvadd': lambda E, a, b, n: a + b,
    'bvsub': lambda E, a, b, n: a - b,
    'bvmul': lambda E, a, b, n: M.mul(a, b),
    'bvudiv': lambda E, a, b, n: E.ite(b == 0, M.pow2(n) - 1, M.fdiv(a, b)),
    'bvurem': lambda E, a, b, n: E.ite(b == 0, a, M.fmod(a, b)),
    'bvshl': lambda E, a, b, n: E.ite(b >= n, 0, M.shl(a, M.clampk(b, n))),
    'bvlshr': lambda E, a, b, n: E.ite(b >= n, 0, M.shr(a, M.clampk(b, n))),
    'bvashr': lambda E, a, b, n: E.ite(b >= n, E.ite(a >= M.pow2(n - 1), -1, 0), M.shr(M.sgn(a, n), M.clampk(b, n))),
    'bvrol': lambda E, a, b, n: rol(E, a, M.fmod(b, n), n),
    'bvror': lambda E, a, b, n: rol(E, a, M.fmod(n - M.fmod(b, n), n), n),
    'bvsdiv': lambda E, a, b, n: E.ite(b == 0, M.pow2(n) - 1, M.fdiv(M.sgn(a, n), M.sgn(b, n))),
    'bvsrem': lambda E, a, b, n: E.ite(b == 0, a, M.fmod(M.sgn(a, n), M.sgn(b, n))),
}
M.clampk = lambda b, n: b if isinstance(b, (SInt, SBool)) or isinstance(n, (SInt, SBool)) else min(b, n)


def rol(E, a, k, n):
    """rotate left by 0 <= k < n: low n-k bits move up by k, top k bits come down"""
    if k == 0:
        return a
    return M.shl(M.mod2(a, n - k), k) + M.shr(a, n - k)


CMPS = {
    'bveq': lambda a, b, n: a == b, 'bvne': lambda a, b, n: a != b,
    'bvult': lambda a, b, n: a < b, 'bvule': lambda a, b, n: a <= b,
    'bvugt': lambda a, b, n: a > b, 'bvuge': lambda a, b, n: a >= b,
    'bvslt': lambda a, b, n: M.sgn(a, n) < M.sgn(b, n), 'bvsle': lambda a, b, n: M.sgn(a, n) <= M.sgn(b, n),
    'bvsgt': lambda a, b, n: M.sgn(a, n) > M.sgn(b, n), 'bvsge': lambda a, b, n: M.sgn(a, n) >= M.sgn(b, n),
}


def sp_bin(name):
    f = UBIN[name]

    def sp(E, x, y):
        if not E.isbv(x):
            return MISSING
        y = sp_coerce(E, x, y)
        if isinstance(y, Raises) or y is MISSING:
            return y
        n = E.size(x)
        return E.mkbv(E.base(x), n, M.mod2(f(E, E.u(x), E.u(y), n), n))
    return sp


def sp_cmp(name):
    f = CMPS[name]

    def sp(E, x, y):
        if not E.isbv(x):
            return MISSING
        y = sp_coerce(E, x, y)
        if isinstance(y, Raises) or y is MISSING:
            return y
        return E.mkbit(f(E.u(x), E.u(y), E.size(x)))
    return sp


def sp_comp(E, x, y):
    if not E.isbv(x):
        return MISSING
    y = sp_coerce(E, x, y)
    if isinstance(y, Raises) or y is MISSING:
        return y
    return E.mkbv(E.base(x), 1, E.ite(E.u(x) == E.u(y), 1, 0))


def onbv(f):
    def sp(E, x, *a):
        if not E.isbv(x):
            return MISSING
        return f(E, x, *a)
    return sp


@onbv
def sp_not(E, x):
    n = E.size(x)
    return E.mkbv(E.base(x), n, M.pow2(n) - 1 - E.u(x))


@onbv
def sp_neg(E, x):
    n = E.size(x)
    return E.mkbv(E.base(x), n, E.ite(E.u(x) == 0, 0, M.pow2(n) - E.u(x)))


@onbv
def sp_uint(E, x):
    return E.u(x)


@onbv
def sp_sint(E, x):
    if E.size(x) == 0:
        return Raises(IndexError)
    return M.sgn(E.u(x), E.size(x))


@onbv
def sp_int(E, x):
    if issubclass(E.base(x), SIntVector):
        return sp_sint(E, x)
    return E.u(x)


@onbv
def sp_bool(E, x):
    if issubclass(E.base(x), SIntVector) and E.size(x) == 0:
        return MISSING
    return E.u(x) != 0


@onbv
def sp_bits(E, x):
    return BitList(E.u(x), E.size(x))


@onbv
def sp_boollist(E, x):
    return BitList(E.u(x), E.size(x), boolean=True)


@onbv
def sp_binstr(E, x):
    return BitString(E.u(x), E.size(x))


@onbv
def sp_getitem(E, x, i):
    n, u = E.size(x), E.u(x)
    if isinstance(i, slice):
        if not all(a is None or isintlike(a) for a in (i.start, i.stop, i.step)):
            return MISSING
        if i.step is not None and i.step == 0:
            return Raises(ValueError)
        a, st, cnt = E.slice(n, i)
        if isinstance(st, int) and st == 1:
            if cnt == 0:
                return E.mkbv(E.base(x), 0, 0)
            return E.mkbv(E.base(x), cnt, M.mod2(M.shr(u, a), cnt))
        return E.mkbv(E.base(x), cnt, E.frombits(cnt, lambda j: M.bit(u, a + M.mul(st, j))))
    if not isintlike(i):
        return Raises(TypeError) if E.argkind(i) in ('none', 'Plain', 'float', 'seq') or isinstance(i, str) else MISSING
    if isinstance(i, (bool, SBool)):
        return MISSING
    if i < 0:
        i = i + n
    if i < 0:
        return Raises(IndexError)
    if i >= n:
        return Raises(IndexError)
    return E.mkbit(M.bit(u, i))


@onbv
def sp_concat(E, x, y):
    if not E.isbv(y):
        return Raises(TypeError)
    if not issubclass(E.base(y), E.base(x)):
        return Raises(TypeError)
    n = E.size(x)
    return E.mkbv(E.base(x), n + E.size(y), E.u(x) + M.shl(E.u(y), n))


@onbv
def sp_zext(E, x, k):
    if E.argkind(k) != 'int':
        return MISSING
    if k < 0:
        return Raises(ValueError)
    return E.mkbv(E.base(x), E.size(x) + k, E.u(x))


@onbv
def sp_sext(E, x, k):
    if E.argkind(k) != 'int':
        return MISSING
    if k < 0:
        return Raises(ValueError)
    n = E.size(x)
    if n == 0:
        return MISSING
    return E.mkbv(E.base(x), n + k, E.ite(E.u(x) >= M.pow2(n - 1), E.u(x) + M.pow2(n + k) - M.pow2(n), E.u(x)))


@onbv
def sp_ext(E, x, k):
    return sp_sext(E, x, k) if issubclass(E.base(x), SIntVector) else sp_zext(E, x, k)


@onbv
def sp_repeat(E, x, r):
    if E.argkind(r) != 'int':
        return MISSING
    if r <= 0:
        return Raises(ValueError)
    n, u = E.size(x), E.u(x)
    if n == 0:
        return E.mkbv(E.base(x), 0, 0)
    w = M.mul(r, n)
    return E.mkbv(E.base(x), w, E.frombits(w, lambda i: M.bit(u, M.fmod(i, n))))


@onbv
def sp_adc(E, x, y, c):
    n = E.size(x)
    if n == 0:
        return MISSING
    y = sp_coerce(E, x, y)
    if isinstance(y, Raises) or y is MISSING:
        return y
    if E.isbv(c):
        if E.size(c) != 1:
            return Raises(InconsistentSizeError)
        cv = E.u(c)
    else:
        k = E.argkind(c)
        if k == 'bit':
            cv = 1 if E.b(c) else 0
        elif k in ('bool', 'int'):
            cv = M.mod2(c, 1)
        elif k in ('none', 'Plain'):
            return Raises(TypeError)
        else:
            return MISSING
    s = E.u(x) + E.u(y) + cv
    over = s >= M.pow2(n)
    return (E.mkbv(E.base(x), n, E.ite(over, s - M.pow2(n), s)), E.mkbit(over))


def sp_coerce_fn(E, T_, v):
    """_coerce(T, val)"""
    if not isinstance(T_, SType) and not (isinstance(T_, type) and getattr(T_, 'is_sized', False)):
        return MISSING
    base, n = (T_.base, T_.size) if isinstance(T_, SType) else (T_.unsized_t, T_.size)
    if E.isbv(v):
        return v if E.size(v) == n else Raises(InconsistentSizeError)
    return sp_construct(E, base, n, v)


def sp_seq2int(E, l):
    if E.argkind(l) != 'seq':
        return MISSING
    return E.seqval(l)


def sp_int2seq(E, v, n):
    if E.argkind(v) != 'int' or E.argkind(n) != 'int':
        return MISSING
    return BitList(v, n if n >= 0 else 0)


def sp_metaget(E, T_, n):
    """unsized_type[n]"""
    if not E.symbolic:
        return MISSING
    sized = isinstance(T_, SType) or getattr(T_, 'is_sized', False)
    k = E.argkind(n)
    if k == 'bool':
        return MISSING
    if k != 'int':
        return Raises(TypeError) if k in ('none', 'float', 'seq', 'bv', 'bit', 'Plain') or isinstance(n, str) else MISSING
    if n < 0:
        return Raises(ValueError)
    if sized:
        return Raises(TypeError)
    if T_ not in BASES and not any(issubclass(T_, b) for b in E.ip.h.family_roots):
        return MISSING
    return SType(T_, n)


_polys = {}


def polyclass(b0, b1, sel):
    """the unsized class behind PolyVector[b0[n], b1[n], sel], made by the real code"""
    k = (b0, b1, bool(sel))
    if k not in _polys:
        _polys[k] = UTIL.PolyVector[b0[4], b1[4], Bit(bool(sel))].unsized_t
    return _polys[k]


def sp_polyget(E, cls, args):
    """PolyVector[T0, T1, select] for two vector types of one width"""
    if not E.symbolic or cls is not UTIL.PolyVector or type(args) is not tuple or len(args) != 3:
        return MISSING
    a, b, s = args
    if not (isinstance(a, SType) and isinstance(b, SType) and a.base in BASES and b.base in BASES and a.base is not b.base
            and E.isbit(s)):
        return MISSING
    if a.size != b.size:
        return Raises(InconsistentSizeError)
    return SType(polyclass(a.base, b.base, True if E.b(s) else False), a.size)


# Bit operators
def sp_bitop(f):
    def sp(E, x, y):
        if not E.isbit(x):
            return MISSING
        r = sp_bit(E, y)
        if r is MISSING:
            return MISSING
        if isinstance(r, Raises):
            if r.excs[0] is TypeError:
                return NotImplemented
            return r
        return E.mkbit(f(E.b(x), E.b(r)))
    return sp


BITOPS = {'__and__': M.AND, '__or__': M.OR, '__xor__': M.XOR, '__eq__': M.IFF, '__ne__': M.XOR,
          '__rand__': M.AND, '__ror__': M.OR, '__rxor__': M.XOR}


def onbit(f):
    def sp(E, x, *a):
        if not E.isbit(x):
            return MISSING
        return f(E, x, *a)
    return sp


POLYOK = {'bv.' + m for m in [*UBIN, *CMPS, 'bvcomp', 'as_uint', 'as_sint', 'bits', '__getitem__', 'concat', 'zext', 'sext',
                              'bvnot', 'bvneg']}


def register(h):
    """attach the contracts to the live function objects"""
    h.families = (ABC.AbstractBitVectorMeta,)
    h.family_roots = list(BASES)
    h.helper_modules.add(helpers.__name__)

    def add(name, specf, *targets):
        def guarded(E, *a):
            # verified for the library's own classes only: subclasses may override what a method calls
            # (a class made by PolyVector has its own cases, verifying 'poly.<name>')
            if name.startswith('bv.') and a and E.isbv(a[0]) and E.base(a[0]) not in BASES:
                if name not in POLYOK or not E.symbolic or E.base(a[0]) not in _polys.values() or 'poly.' + name in h.disabled \
                        or (len(a) > 1 and isinstance(a[1], slice) and a[1].step is not None):
                    return MISSING
                E.ip.used_contracts.add('poly.' + name)
            if name.startswith('bit.') and a and E.isbit(a[0]) and E.typeof(a[0]) is not Bit:
                return MISSING
            return specf(E, *a)
        c = CONTRACTS.setdefault(name, Contract(name, [], guarded))
        for t in targets:
            f = underlying(t) if t is not None else None
            if f is not None:
                h.contracts[f] = c
                c.targets.append(f)

    def meth(name, specf, m, classes=BASES):
        add(name, specf, *[mro_get(b, m) for b in classes])
    for m in UBIN:
        meth('bv.' + m, sp_bin(m), m)
    for m in CMPS:
        meth('bv.' + m, sp_cmp(m), m)
    meth('bv.bvcomp', sp_comp, 'bvcomp')
    for m, s in dict(bvnot=sp_not, bvneg=sp_neg, as_uint=sp_uint, as_sint=sp_sint, __int__=sp_int, __bool__=sp_bool,
                     bits=sp_bits, as_bool_list=sp_boollist, __getitem__=sp_getitem, concat=sp_concat, zext=sp_zext,
                     sext=sp_sext, binary_string=sp_binstr, ext=sp_ext, repeat=sp_repeat, adc=sp_adc).items():
        meth('bv.' + m, s, m)
    add('bv._coerce', sp_coerce_fn, getattr(BVM, '_coerce', None))
    add('bv.seq2int', sp_seq2int, getattr(BVM, 'seq2int', None))
    add('bv.int2seq', sp_int2seq, getattr(BVM, 'int2seq', None))
    add('meta.getitem', sp_metaget, mro_get(ABC.AbstractBitVectorMeta, '__getitem__'))
    add('poly.getitem', sp_polyget, mro_get(UTIL.PolyType, '__getitem__'))
    for m, f in BITOPS.items():
        add('bit.' + m, sp_bitop(f), mro_get(Bit, m))
    add('bit.__invert__', onbit(lambda E, x: E.mkbit(M.NOT(E.b(x)))), mro_get(Bit, '__invert__'))
    add('bit.__bool__', onbit(lambda E, x: E.b(x)), mro_get(Bit, '__bool__'))
    CONTRACTS['bv.construct'] = Contract('bv.construct', [mro_get(BitVector, '__init__')], None)
    CONTRACTS['bit.construct'] = Contract('bit.construct', [mro_get(Bit, '__init__')], None)

    def construct(ip, cls, args, kw):
        if kw or len(args) > 1:
            return MISSING
        E = V.CUR.E
        if isinstance(cls, SType) and issubclass(cls.base, BASES) and cls.base in BASES:
            if 'bv.construct' in h.disabled:
                return MISSING
            r = sp_construct(E, cls.base, cls.size, args[0] if args else 0)
            name = 'bv.construct'
        elif cls is Bit and len(args) == 1:
            if 'bit.construct' in h.disabled:
                return MISSING
            r = sp_bit(E, args[0])
            name = 'bit.construct'
        else:
            return MISSING
        if r is MISSING:
            return MISSING
        ip.used_contracts.add(name)
        return spec.realise(ip, r)
    h.constructs.append(construct)

    def lifter(v):
        if type(v) is Bit:
            b = bool(v)
            return mk(V.CUR.E.ip, Bit, Bit, b) if V.CUR is not None else v
        if isinstance(v, BitVector):
            t = type(v)
            if t._info_[0] in BASES and V.CUR is not None:
                return mk(V.CUR.E.ip, SType(*t._info_), t._info_[0], v.as_uint())
        return MISSING
    h.lifters.append(lifter)
