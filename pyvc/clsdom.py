"""Classes created by metaclass code under verification.

type.__new__ is an assumed contract: it yields a new class with the given name,
bases and namespace, whose attributes are looked up in the namespace, then in
the bases, then in the metaclass.  A class cache (WeakValueDictionary) holds,
before the verified code runs, arbitrary live entries satisfying the cache
invariant: the entry of key (T, i) is a class that T[i] would have created for
that key (info (T, i), bases T and the live B[i] of every base B of T)."""
import types
import weakref
import z3
import hwtypes.bit_vector_abc as BA
import hwtypes.fp_vector_abc as FA
from . import theory as T
from . import values as V
from . import verify
from .values import *
from .interp import MISSING, is_symbolic, SSuper
from .hooks import BUILTINS
from .engine import Infeasible
from .namedom import Fn


class NClass(Opaque):
    """a class made by type.__new__(mcs, name, bases, ns)"""
    key_by_identity = True

    def __init__(self, mcs, name, bases, ns):
        self.mcs, self.name, self.bases = mcs, name, tuple(bases) or (object,)
        self.attrs = dict(ns)
        self.prior = None

    def __repr__(self):
        return f'<class {self.name} bases {self.bases}>'

    def x_type(self):
        return self.mcs

    def x_isinstance(self, C):
        return isinstance(C, type) and issubclass(self.mcs, C)

    def x_is(self, o):
        return o is self

    def x_binop(self, ip, op, o, reflected):
        if op in ('==', '!='):
            return (o is self) == (op == '==')
        return NotImplemented

    def x_truth(self, ip):
        return True

    def x_hash(self, ip):
        raise Unsupported('hash of a class')

    def up(self):
        """method resolution order (C3)"""
        seqs = [b.up() if isinstance(b, NClass) else list(b.__mro__) for b in self.bases] + [list(self.bases)]
        out = [self]
        while any(seqs):
            for q in seqs:
                if q and not any(any(q[0] is x for x in r[1:]) for r in seqs):
                    c = q[0]
                    break
            else:
                raise PyRaise(TypeError('Cannot create a consistent method resolution order'))
            out.append(c)
            seqs = [r[1:] if r and r[0] is c else r for r in seqs]
        return out

    def x_issub(self, ip, c, C):
        if c is self:
            return any(x is C for x in self.up())
        return False        # an older class is never below a newer one

    def lookup(self, name, skip=0):
        for c in self.up()[skip:]:
            d = c.attrs if isinstance(c, NClass) else c.__dict__
            if name in d:
                return d[name]
        return MISSING

    def x_getattr(self, ip, name):
        m = ip.find(self.mcs, name)
        if isinstance(m, property):
            return ip.call(m.fget, [self])
        if name in ('__name__', '__qualname__'):
            return self.name
        if name == '__bases__':
            return self.bases
        if name == '__dict__':
            return types.MappingProxyType(self.attrs)
        if name == '__class__':
            return self.mcs
        a = self.lookup(name)
        if a is not MISSING and not (isinstance(m, types.FunctionType) and a is getattr(type, name, a)):
            return ip.bind(a, MISSING, self)
        if isinstance(m, types.FunctionType):
            return SMethod(m, self)
        if m is not MISSING and isinstance(m, type.__dict__['__call__'].__class__):
            raise Unsupported(f'type.{name}')
        ip.raise_(AttributeError, name)

    x_find = lookup

    def x_rep(self):
        raise Unsupported('method resolution of a created class')

    def x_call(self, ip, args, kwargs):
        if isinstance(ip.find(self.mcs, '__call__'), types.FunctionType):
            return ip.call(ip.find(self.mcs, '__call__'), [self] + list(args), kwargs)
        return ip.type_call(self, list(args), kwargs)

    def x_setattr(self, ip, name, val):
        m = ip.find(self.mcs, name)
        if isinstance(m, property):
            if m.fset is None:
                ip.raise_(AttributeError, "can't set attribute")
            ip.call(m.fset, [self, val])
            return
        if name in ('__name__', '__qualname__'):
            self.name = val
            return
        self.attrs[name] = val

    def x_contains(self, ip, x):
        m = ip.find(self.mcs, '__contains__')
        if m is MISSING:
            raise Unsupported('containment in a class')
        return ip.truth(ip.call(m, [self, x]))

    def x_getitem(self, ip, i):
        m = ip.find(self.mcs, '__getitem__')
        if m is MISSING:
            ip.raise_(TypeError, 'type is not subscriptable')
        return ip.call(m, [self, i])


def type_new(h, ip, mcs, name, bases, ns, /, **kw):
    mcs = ip.lift(mcs)
    bases = tuple(bases)
    for b in bases:
        if not isinstance(b, (type, NClass)):
            raise Unsupported('class with unusual bases')
    if kw:
        raise Unsupported('class keyword arguments')
    c = NClass(mcs, name, bases, ns)
    for k, v in list(c.attrs.items()):
        if isinstance(v, SObj):
            f = ip.find(v.cls, '__set_name__')
            if f is not MISSING:
                ip.call(ip.bind(f, v, v.cls), [c, k])
    init = c.lookup('__init_subclass__', skip=1)
    if isinstance(init, classmethod) and isinstance(init.__func__, types.FunctionType):
        ip.call(init.__func__, [c])
    return c


class ClassCache(Opaque):
    """weak mapping (class, index) -> class"""

    def __init__(self, p, native, mcs):
        self.native, self.mcs = native, mcs
        self.entries = []       # (class, index, value): known live, in order
        self.absent = []
        self.writes = []
        self.creating = False
        self.n = 0

    def x_isinstance(self, C):
        return issubclass(weakref.WeakValueDictionary, C)

    def same(self, ip, i, j):
        if isinstance(i, tuple) != isinstance(j, tuple):
            return False
        if isinstance(i, tuple):
            return len(i) == len(j) and all(ip.truth(ip.compare('==', x, y)) for x, y in zip(i, j))
        return ip.truth(ip.compare('==', i, j))

    def key(self, ip, k):
        if not (isinstance(k, tuple) and len(k) == 2):
            raise Unsupported('cache key of another shape')
        return k

    def find(self, ip, c, i):
        for c2, j, v in reversed(self.entries):
            if c2 is c and self.same(ip, i, j):
                return v
        return MISSING

    def valid(self, ip, i):
        """what the index of a live entry satisfies"""
        if self.mcs is BA.AbstractBitVectorMeta:
            return M_ge(i, 0)
        return isinstance(i, tuple) and len(i) == 4 and M_ge(i[0], 1) and M_ge(i[1], 1)

    def prior(self, ip, c, i):
        """the live entry of (c, i), by the invariant"""
        v = self.find(ip, c, i)
        if v is MISSING:
            if self.mcs is BA.AbstractBitVectorMeta:
                bases = [c] + [self.prior(ip, b, i) for b in c.__bases__ if isinstance(b, self.mcs)]
                v = NClass(self.mcs, SStr(('obj', object())), bases, {'_info_': (c, i)})
                v.prior = True
                self.entries.append((c, i, v))
            else:
                # made by an earlier run of the creation code
                old, self.creating, n = self.creating, True, len(self.writes)
                try:
                    v = ip.call(ip.find(self.mcs, '__getitem__'), [c, i])
                except PyRaise:
                    raise Infeasible()
                finally:
                    self.creating = old
                    del self.writes[n:]
                if not isinstance(v, NClass):
                    raise Unsupported('class creation')
                v.prior = True
                for f in PRIOR:
                    f(ip, v)
        return v

    def x_getitem(self, ip, k):
        c, i = self.key(ip, k)
        v = self.find(ip, c, i)
        if v is not MISSING:
            return v
        if isinstance(c, type) and not sized(c) and not any(c2 is c and self.same(ip, i, j) for c2, j in self.absent):
            if self.creating:
                pass
            elif self.valid(ip, i):
                self.n += 1
                if V.CUR.decide(z3.Bool(f'live!{self.mcs.__name__}!{self.n}')):
                    return self.prior(ip, c, i)
            if not self.creating:
                self.absent.append((c, i))
        ip.raise_(KeyError, 'cache')

    def x_setitem(self, ip, k, v):
        c, i = self.key(ip, k)
        self.entries.append((c, i, v))
        self.writes.append((c, i, v))

    def x_contains(self, ip, k):
        try:
            self.x_getitem(ip, k)
            return True
        except PyRaise as e:
            if isinstance(e.exc, KeyError):
                return False
            raise

    def x_getattr(self, ip, name):
        if name == 'get':
            return Fn(lambda k, d=None: self.x_getitem(ip, k) if self.x_contains(ip, k) else d)
        if name == 'setdefault':
            def sd(k, v):
                if self.x_contains(ip, k):
                    return self.x_getitem(ip, k)
                self.x_setitem(ip, k, v)
                return v
            return Fn(sd)
        if name == '__getitem__':
            return Fn(lambda k: self.x_getitem(ip, k))
        if name == '__setitem__':
            return Fn(lambda k, v: self.x_setitem(ip, k, v))
        raise Unsupported(f'cache.{name}')


def M_ge(i, k):
    return V.CUR.decide(term(i) >= k) if isinstance(i, SInt) else i >= k


def sized(c):
    return getattr(c, 'is_sized', False) or getattr(c, 'is_bound', False)




def caches():
    """(native cache, metaclass) of the class caches under the invariant"""
    out = []
    for m in (BA.AbstractBitVectorMeta, FA.AbstractFPVectorMeta):
        for k, v in vars(m).items():
            if not k.startswith('__') and isinstance(v, (weakref.WeakValueDictionary, dict)):
                out.append((v, m))
    return out


def register(h):
    for v, m in caches():
        def f(p, v=v, m=m):
            d = p.cells.setdefault('classcaches', {})
            if id(v) not in d:
                d[id(v)] = ClassCache(p, v, m)
            return d[id(v)]
        h.global_state[id(v)] = f
    import abc
    BUILTINS[type.__new__] = lambda h, ip, *a, **k: type_new(h, ip, *a, **k) if is_symbolic(a) or is_symbolic(k) or V.CUR.cells.get('binding') else \
        ip.native(type.__new__, *a, **k)

    def abc_new(ip, *a, **k):
        if is_symbolic(a) or is_symbolic(k):
            return type_new(h, ip, *a, **k)
        return ip.native(abc.ABCMeta.__new__, *a, **k)
    h.extern[abc.ABCMeta.__new__] = abc_new


PRIOR = []      # later state kept for an earlier class


class Classes:
    """adapter: the cache invariant, as a specification sees it"""

    def __init__(self, E):
        self.E = E

    def invariant(self, label='cache'):
        """every entry recorded is the class its key denotes"""
        E = self.E
        if E.symbolic:
            for c in E.p.cells.get('classcaches', {}).values():
                for T, i, v in c.writes:
                    self.entry(label, T, i, v, c.mcs)
        else:
            for d, m in caches():
                for (T, i), v in list(d.items()):
                    if isinstance(T, m):
                        self.entry(label, T, i, v, m)

    def entry(self, label, T, i, v, mcs):
        E = self.E
        info = E.get(E.attr(v, '_info_'))
        E.check(label + '-info', E.is_(info[0], T))
        E.check(label + '-index', E.get(E.op('==', info[1], i)))
        bases = E.get(E.attr(v, '__bases__'))
        want = [T] + [E.get(E.getitem(b, i)) for b in T.__bases__ if isinstance(b, mcs)]
        E.check(label + '-bases', len(bases) == len(want) and all(E.is_(x, y) is True for x, y in zip(bases, want)))


verify.EXTRA_DOMAINS.append(__import__('sys').modules[__name__])
