"""Making algebraic types: binding and declaring with arbitrary component types.

A FieldT is any class used as a field type; only its identity matters (types compare by identity).  The class cache starts
without entries of the requests made: what an earlier, equal request left there is the class an earlier run of the same
code made (the case `requests` makes two arbitrary requests).  Classes are made by clsdom's contract of type.__new__."""
import builtins
import itertools
import types
import weakref
import ast
import z3
import hwtypes.adt_meta as AM
from hwtypes.adt_meta import BoundMeta
from hwtypes.util import FrozenDict
from . import values as V
from . import verify
from . import clsdom
from .values import *
from .adtdom import AType, CLS, fact
from .typedom import CType, ISCLASS, term_of, I
from .interp import MISSING, is_symbolic, Env
from .hooks import BUILTINS
from .namedom import Fn


class FieldT(CType):
    """any class"""
    native_key = True

    def __init__(self, t):
        super().__init__(t)
        fact(V.CUR, ISCLASS(t))

    def __hash__(self):
        return 1

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, FieldT):
            return V.CUR.decide(self.t == o.t)
        if isinstance(o, (type, Opaque)):
            return bool(V.CUR.E.ip.truth(self.x_is(o)))
        return NotImplemented

    def x_isinstance(self, C):
        return True if C is type or C is object else super().x_isinstance(C)

    def x_hash(self, ip):
        return SHash(self)

    def x_getattr(self, ip, name):
        if name in ('__get__', '__set__', '__delete__', '__set_name__'):
            ip.raise_(AttributeError, name)
        return super().x_getattr(ip, name)


class BindCache(Opaque):
    """BoundMeta._class_cache; entries are those of the requests of this path"""

    def __init__(self, p):
        self.entries = []

    def x_isinstance(self, C):
        return isinstance(C, type) and issubclass(weakref.WeakValueDictionary, C)

    def same(self, ip, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(ip, x, y) for x, y in zip(a, b))
        if isinstance(a, (types.FunctionType, str, type)) and isinstance(b, (types.FunctionType, str, type)):
            return a == b
        return bool(ip.truth(ip.compare('==', a, b)))

    def find(self, ip, k):
        for k2, v in self.entries:
            if self.same(ip, k, k2):
                return v
        return MISSING

    def x_getitem(self, ip, k):
        v = self.find(ip, k)
        if v is MISSING:
            ip.raise_(KeyError, 'class cache')
        return v

    def x_setitem(self, ip, k, v):
        if not isinstance(v, clsdom.NClass):
            raise Unsupported('cache entry')
        self.entries = [(k2, v2) for k2, v2 in self.entries if not self.same(ip, k, k2)] + [(k, v)]

    def x_contains(self, ip, k):
        return self.find(ip, k) is not MISSING

    def x_getattr(self, ip, name):
        if name == 'get':
            return Fn(lambda k, d=None: (lambda v: d if v is MISSING else v)(self.find(ip, k)))
        if name == 'setdefault':
            def sd(k, v):
                old = self.find(ip, k)
                if old is not MISSING:
                    return old
                self.x_setitem(ip, k, v)
                return v
            return Fn(sd)
        if name == '__getitem__':
            return Fn(lambda k: self.x_getitem(ip, k))
        if name == '__setitem__':
            return Fn(lambda k, v: self.x_setitem(ip, k, v))
        raise Unsupported(f'cache.{name}')


def literal(part):
    """a part of source text that is the repr of some string"""
    if isinstance(part, tuple) and part[0] == 'repr' and isinstance(part[1], SStr):
        return "'any'"
    raise Unsupported('generated source from unknown text')


def exec_(h, ip, text, gs=None, ls=None, /):
    """run generated definitions; an unknown string occurs in the text only as a literal"""
    if not isinstance(text, (str, SStr)) or gs is None or ls is None:
        raise Unsupported('exec')
    if isinstance(text, SStr):
        text = ''.join(p if isinstance(p, str) else literal(p) for p in text.parts)
    env = Env(None, dict(gs), {})
    body = ast.parse(text).body
    if not all(isinstance(s, ast.FunctionDef) for s in body):
        raise Unsupported('exec of statements')
    for s in body:
        ip.exec(s, env)
    ls.update(env.vars)


class Proxy(Opaque):
    """a read-only view of an immutable mapping object"""

    def __init__(self, o):
        self.o = o

    def x_type(self):
        return types.MappingProxyType

    def x_isinstance(self, C):
        return isinstance(C, type) and issubclass(types.MappingProxyType, C)

    def ks(self, ip):
        return ip.concrete_list(self.o)

    def x_iter(self, ip):
        return self.ks(ip)

    def x_len(self, ip):
        return len(self.ks(ip))

    def x_truth(self, ip):
        return len(self.ks(ip)) > 0

    def x_getitem(self, ip, k):
        return ip.getitem(self.o, k)

    def x_contains(self, ip, k):
        return ip.contains(self.o, k)

    def x_getattr(self, ip, name):
        f = {'keys': lambda: self.ks(ip), 'values': lambda: [ip.getitem(self.o, k) for k in self.ks(ip)],
             'items': lambda: [(k, ip.getitem(self.o, k)) for k in self.ks(ip)],
             'get': lambda k, d=None: ip.getitem(self.o, k) if ip.contains(self.o, k) else d}.get(name)
        if f is None:
            raise Unsupported(f'mappingproxy.{name}')
        return Fn(f)


def register(h):
    old = h.extern_classes.get(types.MappingProxyType)

    def proxy(ip, *a, **k):
        if len(a) == 1 and not k and isinstance(a[0], SObj) and isinstance(a[0].cls, type) and issubclass(a[0].cls, FrozenDict):
            return Proxy(a[0])
        return MISSING if old is None else old(ip, *a, **k)
    h.extern_classes[types.MappingProxyType] = proxy

    c = BoundMeta.__dict__.get('_class_cache')
    if isinstance(c, (weakref.WeakValueDictionary, dict)):
        def f(p):
            if not p.cells.get('binding'):
                return c
            if 'bindcache' not in p.cells:
                p.cells['bindcache'] = BindCache(p)
            return p.cells['bindcache']
        h.global_state[id(c)] = f
    for f in {builtins.exec, getattr(AM, 'exec', builtins.exec)}:
        h.extern[f] = lambda ip, *a: exec_(h, ip, *a)


class Bd:
    """what a specification sees"""

    def __init__(self, E):
        self.E = E
        if E.symbolic:
            E.p.cells['binding'] = True

    def type(self, name, pool):
        E = self.E
        if E.symbolic:
            return FieldT(z3.Int(name))
        return pool[E.src.choice(name + '!', len(pool))]


    def types(self, name, pool, maxn=6):
        """any number of any types"""
        E = self.E
        if not E.symbolic:
            return tuple(pool[E.src.choice(f'{name}{i}!', len(pool))] for i in range(E.src.choice(f'{name}!n', maxn + 1)))
        f, n = z3.Function(f'{name}!field', I, I), z3.Int(f'{name}!n')
        V.CUR.assume(n >= 0)
        return SSeq('tuple', mkint(n), lambda i: FieldT(f(term(i))))

    def seq_is(self, label, s, ts):
        """the sequence s consists of exactly the types ts"""
        E = self.E
        if not E.symbolic:
            return E.check(label, len(s) == len(ts) and all(x is y for x, y in zip(s, ts)))
        s = E.ip.as_seq(s)
        if not isinstance(s, SSeq):
            raise Unsupported('a sequence')
        E.check(label + '-length', mkbool(term(s.length) == term(ts.length)))
        i = V.CUR.fresh('at')
        V.CUR.assume(z3.And(i >= 0, i < term(ts.length)))
        V.CUR.witness = V.CUR.witness + [i]
        E.check(label + '-each', E.is_(s.elem(SInt(i)), ts.elem(SInt(i))))

    def list(self, s):
        return list(self.E.ip.concrete_list(s)) if self.E.symbolic else list(s)

    def items(self, fd):
        """the entries of a mapping, in order"""
        E = self.E
        return [tuple(x) for x in (E.get(E.meth(fd, 'items')) if E.symbolic else fd.items())]


verify.EXTRA_DOMAINS.append(__import__('sys').modules[__name__])
