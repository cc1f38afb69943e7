"""Modifiers applied to arbitrary types.

A TypeT is any class: its identity, its bases and what it is below are unknown (the subclass relation is an arbitrary
relation that follows the bases).  Classes made by the code are clsdom's, by the contract of type.__new__.  The registries
start without entries of the applications made; what an earlier equal application left there is what an earlier run of the
same code made (the case `applications` makes two arbitrary ones).  A modifier applied to a base of a TypeT (the recursive
call) runs the same code; its result's place in the subclass relation is the induction hypothesis (over the class
hierarchy): M(b) is below M(c) exactly when b is below c."""
import builtins
import inspect
import types
import weakref
import z3
import hwtypes.modifiers as MO
from . import values as V
from . import verify
from . import clsdom
from .values import *
from .adtdom import fact
from .binddom import FieldT
from .typedom import CType, term_of
from .interp import MISSING, is_symbolic, STATEFUL
from .hooks import BUILTINS
from .namedom import Fn

META = type(MO.AbstractModifier)
WEAK = (weakref.WeakValueDictionary, weakref.WeakKeyDictionary, weakref.WeakSet)


def active():
    return V.CUR is not None and V.CUR.cells.get('modding')


def same(a, b):
    ip = V.CUR.E.ip
    return bool(ip.truth(ip.compare('==', a, b) if isinstance(a, (str, SStr)) else ip.is_(a, b)))


class WMap(Opaque):
    """a weak mapping or set; while a class is in use its entry is there"""

    def __init__(self, kind, items=()):
        self.kind, self.entries = kind, list(items)

    def x_type(self):
        return self.kind

    def x_isinstance(self, C):
        return isinstance(C, type) and issubclass(self.kind, C)

    def find(self, k):
        for k2, v in self.entries:
            if same(k, k2):
                return v
        return MISSING

    def put(self, k, v):
        for i, (k2, _) in enumerate(self.entries):
            if same(k, k2):
                self.entries[i] = (k2, v)
                return
        self.entries.append((k, v))

    def drop(self, k):
        n = len(self.entries)
        self.entries = [(k2, v) for k2, v in self.entries if not same(k, k2)]
        return len(self.entries) < n

    def x_contains(self, ip, k):
        return self.find(k) is not MISSING

    def x_len(self, ip):
        return len(self.entries)

    def x_iter(self, ip):
        return [k for k, _ in self.entries]

    def x_getitem(self, ip, k):
        v = MISSING if self.kind is weakref.WeakSet else self.find(k)
        if v is MISSING:
            ip.raise_(KeyError, 'registry')
        return v

    def x_setitem(self, ip, k, v):
        if self.kind is weakref.WeakSet:
            raise Unsupported('item of a set')
        self.put(k, v)

    def x_delitem(self, ip, k):
        if not self.drop(k):
            ip.raise_(KeyError, 'registry')

    def x_getattr(self, ip, name):
        if self.kind is weakref.WeakSet:
            f = {'add': lambda k: self.put(k, k), 'discard': lambda k: self.drop(k) and None,
                 'update': lambda ks: [self.put(k, k) for k in ip.concrete_list(ks)] and None}.get(name)
        else:
            def setdefault(k, v=None):
                old = self.find(k)
                if old is not MISSING:
                    return old
                self.put(k, v)
                return v

            def pop(k, *d):
                v = self.find(k)
                if v is MISSING:
                    if d:
                        return d[0]
                    ip.raise_(KeyError, 'registry')
                self.drop(k)
                return v
            f = {'get': lambda k, d=None: (lambda v: d if v is MISSING else v)(self.find(k)), 'setdefault': setdefault, 'pop': pop,
                 'keys': lambda: [k for k, _ in self.entries], 'values': lambda: [v for _, v in self.entries],
                 'items': lambda: list(self.entries), '__getitem__': lambda k: self.x_getitem(ip, k),
                 '__setitem__': lambda k, v: self.put(k, v), '__contains__': lambda k: self.x_contains(ip, k)}.get(name)
        if f is None:
            raise Unsupported(f'weak container.{name}')
        return Fn(f)


class TypeT(FieldT):
    """any class, with these bases (None: they do not matter)"""

    def __init__(self, t, bases=None):
        super().__init__(t)
        self.bases = bases
        self.told = []
        for i, b in enumerate(bases or ()):
            fact(V.CUR, b.t != t)
            for c in bases[:i]:
                fact(V.CUR, b.t != c.t)

    __hash__ = FieldT.__hash__

    def __eq__(self, o):
        if isinstance(o, clsdom.NClass):
            return False
        return super().__eq__(o)

    def x_isinstance(self, C):
        # a class may have any metaclass, but its instances of a modifier class are the modifiers
        if C is META:
            return False
        return super().x_isinstance(C)

    def x_getattr(self, ip, name):
        if name == '__bases__':
            return tuple(self.bases or ())
        if name == '__mro__' or name == 'mro':
            raise Unsupported('method resolution order of an arbitrary class')
        return super().x_getattr(ip, name)

    def x_issub(self, ip, c, C):
        if isinstance(C, clsdom.NClass):
            return below(ip, c, C)
        r = super().x_issub(ip, c, C)
        if self.bases is not None and isinstance(C, TypeT) and not any(x is C for x in self.told):
            self.told.append(C)
            ups = [zb(below(ip, b, C)) for b in self.bases]
            fact(V.CUR, zb(r) == z3.Or(self.t == C.t, *ups))
        return r


def zb(r):
    return z3.BoolVal(r) if isinstance(r, bool) else r.t if isinstance(r, SBool) else r


def or_(xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    return mkbool(z3.Or(*map(zb, xs))) if xs else False


def below(ip, c, C):
    """class c is C or below it, in the real subclass relation"""
    if c is C:
        return True
    if isinstance(c, clsdom.NClass):
        m, n = getattr(c, 'of', None), getattr(C, 'of', None)
        out = [below(ip, b, C) for b in c.bases]
        if m is not None and n is not None and m[2] and m[0] is n[0]:
            out.append(below(ip, m[1], n[1]))           # induction hypothesis
        return or_(out)
    if isinstance(C, clsdom.NClass):
        return False            # an older class is never below a newer one
    if isinstance(c, TypeT):
        return c.x_issub(ip, c, C)
    if isinstance(c, type) and isinstance(C, type):
        return type.__subclasscheck__(C, c)
    if isinstance(c, type) and isinstance(C, TypeT):
        if c is object or c is MO.AbstractModifier:
            return False
    raise Unsupported('subclass relation')


class ModClass(clsdom.NClass):
    """a class made over arbitrary ones, or a modifier"""
    native_key = True

    def x_issub(self, ip, c, C):
        return below(ip, c, C)

    def x_isinstance(self, C):
        if isinstance(C, clsdom.NClass):
            return below(V.CUR.E.ip, self.mcs, C)
        return super().x_isinstance(C)

    def up(self):
        if any(isinstance(b, TypeT) or isinstance(b, ModClass) and b.open_up for b in self.bases):
            raise Unsupported('method resolution order over an arbitrary class')
        return super().up()

    open_up = property(lambda self: any(isinstance(b, TypeT) or isinstance(b, ModClass) and b.open_up for b in self.bases))

    def lookup(self, name, skip=0):
        if self.open_up and not (name in self.attrs and not skip):
            raise Unsupported(f'attribute {name} of a class over an arbitrary one')
        return super().lookup(name, skip)

    x_find = lookup

    def x_getattr(self, ip, name):
        if name in ('__name__', '__qualname__'):
            return self.name
        if name == '__bases__':
            return self.bases
        return super().x_getattr(ip, name)

    def x_call(self, ip, args, kwargs):
        if self.open_up:
            return Inst(self)
        out = super().x_call(ip, args, kwargs)
        if self.mcs is META and len(args) == 1 and not kwargs and isinstance(out, ModClass):
            if getattr(out, 'of', None) is None:
                x = args[0]
                out.of = (self, x, opened(x))
        return out


def opened(x):
    return isinstance(x, TypeT) and x.bases is None or isinstance(x, ModClass) and x.of is not None and x.of[2]


ModClass.of = None


class Inst(Opaque):
    """an instance of a class"""

    def __init__(self, c):
        self.c = c

    def x_type(self):
        return self.c

    def x_isinstance(self, C):
        return below(V.CUR.E.ip, self.c, C) if not isinstance(C, tuple) else or_([self.x_isinstance(x) for x in C])


def create(h, ip, cls, args, kwargs):
    """metaclass calls"""
    if not active() or not (isinstance(cls, type) and issubclass(cls, type)):
        return MISSING
    if kwargs or len(args) != 3:
        if cls is type and len(args) == 1:
            return MISSING
        raise Unsupported('class creation')
    name, bases, ns = args
    bases = tuple(bases)
    for f in ('__new__', '__init__', '__prepare__'):
        if isinstance(ip.find(cls, f), (types.FunctionType, staticmethod, classmethod)) and f in vars(cls):
            raise Unsupported('metaclass of its own')
    for i, b in enumerate(bases):
        if any(b is c or isinstance(b, TypeT) and isinstance(c, TypeT) and same(b, c) for c in bases[:i]):
            ip.raise_(TypeError, 'duplicate base class')
    c = ModClass(cls, name, bases, ns)
    if not c.open_up:
        init = c.lookup('__init_subclass__', skip=1)
        if isinstance(init, classmethod) and isinstance(init.__func__, types.FunctionType):
            ip.call(init.__func__, [c])
    return c


def check(ip, C, name, x):
    """isinstance(x, C), issubclass(x, C): the metaclass decides; MISSING if it does not"""
    if not active():
        return MISSING
    mcs = C.mcs if isinstance(C, clsdom.NClass) else type(C) if isinstance(C, type) else None
    if mcs is None:
        return MISSING
    f = ip.find(mcs, name)
    if isinstance(f, types.FunctionType):
        return ip.call(f, [C, x])
    return MISSING


def register(h):
    h.class_check = check
    h.constructs.append(lambda ip, cls, args, kwargs: create(h, ip, cls, args, kwargs))
    for k in WEAK:
        def mk(ip, *a, k=k, old=h.extern_classes.get(k), **kw):
            if not active():
                return MISSING if old is None else old(ip, *a, **kw)
            if a or kw:
                raise Unsupported('weak container of something')
            return WMap(k)
        h.extern_classes[k] = mk
    seen = set()
    for d in (vars(MO), vars(META), vars(MO.AbstractModifier)):
        for v in d.values():
            if isinstance(v, WEAK) and id(v) not in seen:
                seen.add(id(v))

                def f(p, v=v):
                    if not p.cells.get('modding'):
                        return v
                    return p.cells.setdefault('registries', {}).setdefault(id(v), WMap(type(v)))
                h.global_state[id(v)] = f
    for name, sub in (('__subclasscheck__', True), ('__instancecheck__', False)):
        def b(h, ip, C, x, sub=sub):
            if not active():
                return ip.native(type.__subclasscheck__ if sub else type.__instancecheck__, C, x)
            return below(ip, x if sub else ip.typeof(x), C)
        BUILTINS[getattr(type, name)] = b


class Md:
    """what a specification sees"""

    def __init__(self, E):
        self.E = E
        if E.symbolic:
            E.p.cells['binding'] = E.p.cells['modding'] = True

    def type(self, name, n, pool):
        """any class with n bases"""
        E = self.E
        if not E.symbolic:
            return pool[E.src.choice(name + '!', len(pool))]
        return TypeT(z3.Int(name), tuple(TypeT(z3.Int(f'{name}!base{i}')) for i in range(n)))

    def instance(self, T):
        if self.E.symbolic:
            return Inst(T)
        for b in (object, int):
            try:
                return b.__new__(T)
            except TypeError:
                pass

    def list(self, s):
        return list(self.E.ip.concrete_list(s)) if self.E.symbolic else list(s)

    def derive(self, T):
        """a class below T"""
        E = self.E
        return E.get(E.call(type, 'Derived', (T,), {}))


verify.EXTRA_DOMAINS.append(__import__('sys').modules[__name__])
