"""Domain hooks of the interpreter: builtins, lifting of the repository's types,
contracts, external functions."""
import builtins
import functools
import operator
import random
import re
import types
import typing as tp
import warnings
import weakref
import collections
import z3
from . import theory as T
from . import values as V
from . import smath as M
from .values import *
from .interp import (Interp, MISSING, BoundBuiltin, SSuper, is_symbolic, native_key, PYOP, REPN, SOURCES, Infeasible_)
from .loops import Loops


class SHash(Opaque):
    """hash(key): an unknown function of the key: equal keys have equal hashes, different keys may."""

    def __init__(self, key):
        self.key = key
        self.h = None

    def value(self, ip):
        """the hash as an int, related to the hashes compared so far"""
        p = V.CUR
        if self.h is None:
            self.h = p.fresh('hash')
        seen = p.cells.setdefault('hashes', [])
        if not any(x is self for x in seen):
            for x in list(seen):
                r = struct_eq(ip, self.key, x.key)
                if r is not False:
                    p.assume(z3.Implies(bterm(r), self.h == x.h))
            seen.append(self)
        return self.h

    def x_type(self):
        return int

    def x_isinstance(self, C):
        return issubclass(int, C)

    def x_binop(self, ip, op, other, reflected):
        if op in ('==', '!=') and isinstance(other, SHash):
            a, b = self.value(ip), other.value(ip)
            r = True if self is other else mkbool(a == b)
            return r if op == '==' else ip.not_(r)
        if op in ('+', '-', '*', '^', '|', '&', '%') and (isinstance(other, SHash) or isintlike(other)):
            # some integer determined by the operands
            return SHash((('arith', op) + ((other, self) if reflected else (self, other))))
        raise Unsupported('arithmetic on a hash')


from collections.abc import Mapping as _Mapping
import os as _os
SOURCES.override['<frozen _collections_abc>'] = open(_os.path.join(_os.path.dirname(_os.__file__), '_collections_abc.py')).read()
MIXINS = {_Mapping.__contains__, _Mapping.get}      # interpreted library code


class SPairs(Opaque):
    """frozenset of (key, value) pairs with distinct concrete keys"""

    def __init__(self, pairs):
        self.d = dict(pairs)

    def x_type(self):
        return frozenset

    def x_isinstance(self, C):
        return isinstance(C, type) and issubclass(frozenset, C)

    def x_binop(self, ip, op, o, reflected):
        if op in ('==', '!=') and isinstance(o, (SPairs, frozenset, set)):
            if not isinstance(o, SPairs):
                r = False if len(o) != len(self.d) else None
                if r is None:
                    raise Unsupported('comparison of sets')
            else:
                r = ip.compare('==', self.d, o.d)
            return r if op == '==' else ip.not_(r)
        raise Unsupported('operation on a set')


def struct_eq(ip, a, b):
    """structural equality (bool/SBool) of hashed keys / string parts"""
    if isinstance(a, SHash) and isinstance(b, SHash):
        return struct_eq(ip, a.key, b.key)
    if isinstance(a, SStr) or isinstance(b, SStr):
        return ip.h.str_eq(ip, a, b)
    if isinstance(a, frozenset) and isinstance(b, frozenset) and all(map(native_key, a | b)):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return M.AND(*[struct_eq(ip, x, y) for x, y in zip(a, b)]) if a else True
    if isintlike(a) and isintlike(b):
        return ip.compare('==', a, b)
    if isinstance(a, (SType, type)) and isinstance(b, (SType, type)):
        return same_type(ip.lift(a), ip.lift(b))
    if isinstance(a, SObj) and isinstance(b, SObj):
        if a.attrs.keys() != b.attrs.keys():
            return False
        c = [same_type(ip.lift(a.cls), ip.lift(b.cls))]
        if c[0] is False:
            return False
        c += [struct_eq(ip, a.attrs[k], b.attrs[k]) for k in a.attrs]
        return M.AND(*c)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        r = ip.compare('==', a, b)
        return r
    if is_symbolic(a) or is_symbolic(b):
        if type(a) is not type(b):
            return False
        raise Unsupported('structural equality')
    try:
        return a is b or bool(a == b)
    except Exception:
        return a is b


class FreshClass:
    pass


class Hooks:
    prefixes = ('hwtypes',)

    def __init__(self):
        self.contracts = {}         # function object -> Contract
        self.disabled = set()       # names of disabled contracts
        self.extern = {}            # function object -> handler(ip, *args, **kw)
        self.extern_classes = {}    # class -> handler
        self.helper_modules = set()
        self.lifters = []           # fn(v) -> value or MISSING
        self.class_check = None     # fn(ip, class, protocol method, argument) -> answer or MISSING
        self.constructs = []        # fn(ip, cls, args, kw) -> value or MISSING
        self.global_state = {}      # (id(globals), name) -> fn(path) -> value
        self.loops = Loops()
        self._rep = {}
        self.families = ()          # metaclasses of sized types to lift
        from collections.abc import Mapping
        self.extern[Mapping.items] = lambda ip, m: [(k, ip.getitem(m, k)) for k in ip.concrete_list(m)]
        self.extern[Mapping.keys] = lambda ip, m: list(ip.concrete_list(m))
        self.extern[Mapping.values] = lambda ip, m: [ip.getitem(m, k) for k in ip.concrete_list(m)]
        self.extern[warnings.warn] = lambda ip, *a, **k: None

        def getrandbits(ip, n):
            x = V.CUR.fresh('rand')
            V.CUR.assume(x >= 0)
            V.CUR.assume(x < T.pow2(term(n)))
            return mkint(x)

        def randint(ip, a, b):
            x = V.CUR.fresh('rand')
            if V.CUR.decide(term(a) > term(b)):
                ip.raise_(ValueError, 'empty range')
            V.CUR.assume(x >= term(a))
            V.CUR.assume(x <= term(b))
            return mkint(x)
        self.extern[random.getrandbits] = getrandbits
        self.extern[random.randint] = randint

    # ------------------------------------------------------------ lifting
    def lift(self, v):
        if isinstance(v, (int, str, float, SInt, SBool, SObj, SType)) or v is None:
            if isinstance(v, int) and not isinstance(v, (bool,)) and type(v) is not int:
                return v
            return v
        if isinstance(v, type):
            if isinstance(v, self.families):
                info = getattr(v, '_info_', None)
                if isinstance(info, tuple) and len(info) == 2 and info[0] is not None and info[1] is not None:
                    return SType(info[0], info[1])
            return v
        for f in self.lifters:
            r = f(v)
            if r is not MISSING:
                return r
        return v

    def rep(self, cls):
        if isinstance(cls, SType):
            r = self._rep.get(cls.base)
            if r is None:
                r = self._rep[cls.base] = cls.base[REPN]
            return r
        if isinstance(cls, Opaque):
            return cls.x_rep()
        return cls

    # ------------------------------------------------------------ classification
    def is_repo_class(self, c):
        if isinstance(c, SType):
            return True
        m = getattr(c, '__module__', None)
        return isinstance(m, str) and (m.split('.')[0] in self.prefixes or m in self.helper_modules)

    def is_repo_instance(self, v):
        if isinstance(v, (SInt, SBool, SObj, SType, SStr, SSeq, SIter, SFunc, SMethod, Opaque, int, str)):
            return False
        return self.is_repo_class(type(v))

    def interpretable(self, f):
        m = f.__module__
        if f.__code__.co_filename.startswith('<generated ') or f in MIXINS:
            return True
        if m is None:
            m = f.__globals__.get('__name__', '')
        return m.split('.')[0] in self.prefixes or m in self.helper_modules or \
            f.__globals__.get('__name__', '').split('.')[0] in self.prefixes

    def pure_native(self, f):
        return f.__module__ in ('functools', 'inspect', 'itertools', 'collections', 'types', 'typing', 'copyreg',
                                'collections.abc', 'abc', '_collections_abc', 'weakref', 'contextlib', 'gmpy2')

    # ------------------------------------------------------------ contracts
    def contract(self, ip, f, args, kwargs):
        try:
            c = None if isinstance(f, (SType, SObj, Opaque)) else self.contracts.get(f)
        except TypeError:
            return None
        if c is None or c.name in self.disabled:
            return None

        def go(*a, **k):
            r = c.summary(ip, *a, **k)
            if r is not MISSING:
                ip.used_contracts.add(c.name)
            return r
        return go

    def external(self, ip, f, args, kwargs):
        try:
            h = None if isinstance(f, (SType, SObj, Opaque)) else self.extern.get(f)
        except TypeError:
            return MISSING
        if h is None:
            return MISSING
        r = h(ip, *args, **kwargs)
        if r is not MISSING:
            ip.used_externals.add(f'{getattr(f, "__module__", "")}.{getattr(f, "__qualname__", f)}')
        return r

    def construct_hook(self, ip, cls, args, kwargs):
        if isinstance(cls, type) and issubclass(cls, BaseException):
            a = [x if not is_symbolic(x) and not self.is_repo_instance(x) else repr(type(x)) for x in args]
            try:
                return cls(*a)
            except Exception as e:
                raise PyRaise(e)
        if isinstance(cls, type) and cls in self.extern_classes:
            r = self.extern_classes[cls](ip, *args, **kwargs)
            if r is not MISSING:
                return r
        for f in self.constructs:
            r = f(ip, cls, args, kwargs)
            if r is not MISSING:
                return r
        return MISSING

    # ------------------------------------------------------------ object protocol fallbacks
    def real_getattr(self, ip, v, name):
        return MISSING

    def real_getitem(self, ip, v, idx):
        return MISSING

    def real_setitem(self, ip, v, idx, val):
        return MISSING

    def real_contains(self, ip, c, x):
        return MISSING

    def global_read(self, ip, env, name, v):
        if self.global_state:
            try:
                f = self.global_state.get(id(v))
            except TypeError:
                f = None
            if f is not None:
                return f(V.CUR)
        return v

    def as_kwargs(self, ip, d):
        raise Unsupported('** of a symbolic mapping')

    def star(self, ip, f, seq):
        raise Unsupported('symbolic-length sequence where a concrete one is needed')

    def dict_of_seq(self, ip, r):
        raise Unsupported('dict of a symbolic sequence')

    def seq_contains(self, ip, c, x):
        raise Unsupported('containment in a symbolic sequence')

    def context_manager(self, ip, cm):
        if isinstance(cm, Opaque) and hasattr(cm, 'x_enter'):
            return lambda: cm.x_enter(ip), lambda e: cm.x_exit(ip, e)
        t = ip.typeof(cm)
        en, ex = ip.find(t, '__enter__'), ip.find(t, '__exit__')
        if en is MISSING or ex is MISSING:
            raise Unsupported('context manager')

        def exit_(e):
            if e is None:
                ip.call(ip.bind(ex, cm, t), [None, None, None])
                return False
            return ip.truth(ip.call(ip.bind(ex, cm, t), [type(e), e, None]))
        return (lambda: ip.call(ip.bind(en, cm, t), [])), exit_

    # ------------------------------------------------------------ strings
    def fmt(self, ip, x, conversion):
        if conversion == 114:
            return self.do_repr(ip, x)
        return self.do_str(ip, x)

    def do_str(self, ip, x):
        if isinstance(x, (str, SStr)):
            return x
        if isinstance(x, (bool, int)):
            return str(x)
        if isinstance(x, SInt):
            return SStr(('int', x))
        if isinstance(x, SBool):
            return 'True' if ip.truth(x) else 'False'
        if isinstance(x, SObj):
            for n in ('__str__', '__repr__'):
                f = ip.find(x.cls, n)
                if isinstance(f, types.FunctionType):
                    return ip.call(ip.bind(f, x, x.cls), [])
            return SStr(('obj', x))
        if isinstance(x, SType):
            f = ip.find(type(x.base), '__repr__')
            if isinstance(f, types.FunctionType):
                return ip.call(f, [x])
            return SStr(('obj', x))
        if is_symbolic(x):
            return SStr(('obj', x))
        return str(x)

    def do_repr(self, ip, x):
        if isinstance(x, (SObj, SType)):
            t = ip.typeof(x)
            f = ip.find(t, '__repr__')
            if isinstance(f, types.FunctionType):
                return ip.call(f, [x])
            return SStr(('obj', x))
        if isinstance(x, SInt):
            return SStr(('int', x))
        if isinstance(x, SBool):
            return self.do_str(ip, x)
        if is_symbolic(x):
            return SStr(('repr', x))
        return repr(x)

    def str_eq(self, ip, a, b):
        pa = norm_str(a)
        pb = norm_str(b)
        ta, tb = tokens(pa), tokens(pb)
        if ta is not None and tb is not None and any(isinstance(x, tuple) for x in pa + pb):
            if len(ta) != len(tb):
                return False
            conds = []
            for x, y in zip(ta, tb):
                if isinstance(x, str) or isinstance(y, str):
                    if not (isinstance(x, str) and isinstance(y, str) and x == y):
                        return False
                else:
                    conds.append(mkbool(term(x[0]) == term(y[0])))
            return M.AND(*conds) if conds else True
        if any(isinstance(p, tuple) and p[0] == 'atom' for p in pa + pb):
            from .namedom import code
            return mkbool(code(a) == code(b))
        if len(pa) != len(pb):
            if any(isinstance(p, tuple) for p in pa + pb):
                raise Unsupported('equality of differently shaped opaque strings')
            return False
        conds = []
        for x, y in zip(pa, pb):
            if isinstance(x, str) or isinstance(y, str):
                if isinstance(x, str) and isinstance(y, str):
                    if x != y:
                        if any(isinstance(p, tuple) for p in pa + pb):
                            raise Unsupported('equality of differently shaped opaque strings')
                        return False
                    continue
                raise Unsupported('equality of differently shaped opaque strings')
            if x[0] == 'int' and y[0] == 'int':
                conds.append(ip.compare('==', x[1], y[1]))
            elif x[0] == y[0]:
                conds.append(struct_eq(ip, x[1], y[1]))
            else:
                raise Unsupported('equality of opaque strings')
        return M.AND(*conds) if conds else True

    # ------------------------------------------------------------ builtins
    def builtin(self, ip, f, args, kw):
        name = getattr(f, '__name__', None)
        if f is type.__call__:
            return ip.type_call(ip.lift(args[0]), args[1:], kw)
        h = BUILTINS.get(f)
        if h is not None:
            return h(self, ip, *args, **kw)
        if isinstance(f, types.WrapperDescriptorType) or isinstance(f, types.MethodDescriptorType):
            o = f.__objclass__
            if args:
                s = args[0]
                if o is object:
                    return self.object_method(ip, name, args, kw)
                if o is type:
                    return self.type_method(ip, f, name, args, kw)
                if is_symbolic(s) or any(is_symbolic(a) for a in args):
                    return self.builtin_method(ip, s, name, args[1:], kw)
        if any(is_symbolic(a) for a in args) or any(is_symbolic(a) for a in kw.values()) or \
                any(self.is_repo_instance(a) for a in args):
            if isinstance(f, types.BuiltinFunctionType) and f.__self__ is not None and \
                    isinstance(f.__self__, (list, dict, set)):
                return self.builtin_method(ip, f.__self__, f.__name__, args, kw)
            if f.__class__.__name__ in ('builtin_function_or_method', 'method-wrapper') and not \
                    any(is_symbolic(a) for a in args) and getattr(f, '__module__', None) in ('builtins',):
                return ip.native(f, *args, **kw)
            raise Unsupported(f'builtin {f} on symbolic arguments')
        return ip.native(f, *args, **kw)

    def object_method(self, ip, name, args, kw):
        s = args[0]
        if name == '__init__':
            return None
        if name == '__new__':
            return SObj(ip.lift(s))
        if name == '__eq__':
            r = ip.truth(ip.is_(s, args[1]))
            return True if r else NotImplemented
        if name == '__ne__':
            r = ip.call_dunder(s, '__eq__', args[1])
            return r if r is NotImplemented else ip.not_(r)
        if name == '__hash__':
            return SHash(('id', s))
        if name in ('__repr__', '__str__'):
            return SStr(('obj', s))
        if name == '__setattr__':
            return ip.setattr(*args)
        if name == '__getattribute__':
            if isinstance(s, SObj):
                return ip.obj_getattr(s, args[1])
            return ip.getattr(*args)
        if not any(is_symbolic(a) for a in args):
            return ip.native(getattr(object, name), *args, **kw)
        raise Unsupported(f'object.{name}')

    def type_method(self, ip, f, name, args, kw):
        s = args[0]
        if name == '__call__':
            return ip.type_call(s, args[1:], kw)
        if name in ('__instancecheck__',):
            return ip.isinst(args[1], s)
        if name in ('__subclasscheck__',):
            return ip.issub(args[1], s)
        if name == '__repr__':
            return SStr(('obj', s))
        if name == '__hash__':
            return SHash(('id', s))
        if name == '__eq__':
            r = ip.truth(ip.is_(s, args[1]))
            return True if r else NotImplemented
        if name in ('__getattribute__',):
            return ip.getattr(*args)
        if not any(is_symbolic(a) for a in args):
            return ip.native(f, *args, **kw)
        raise Unsupported(f'type.{name}')

    def to_int(self, ip, x):
        if isinstance(x, (SInt,)):
            return x
        if isinstance(x, SBool):
            return mkint(term(x))
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, SObj):
            for n in ('__int__', '__index__'):
                f = ip.find(x.cls, n)
                if f is not MISSING and f is not None:
                    r = ip.call(ip.bind(f, x, x.cls), [])
                    if not isintlike(r):
                        ip.raise_(TypeError, f'{n} returned non-int')
                    return self.to_int(ip, r)
            ip.raise_(TypeError, 'int() argument must be a string or a number')
        if isinstance(x, Opaque):
            if hasattr(x, 'x_int'):
                return x.x_int(ip)
            ip.raise_(TypeError, 'int() argument must be a string or a number')
        if isinstance(x, SStr):
            raise Unsupported('int of an opaque string')
        if isinstance(x, SSeq) and x.kind == 'str':
            raise Unsupported('int of a symbolic string')
        if is_symbolic(x):
            ip.raise_(TypeError, 'int() argument must be a string or a number')
        return ip.native(int, x)

    def builtin_type(self, ip, cls, args, kw):
        if cls is int:
            if not args:
                return 0
            if len(args) > 1 or kw:
                if isinstance(args[0], SSeq) and args[0].kind == 'str' and args[1] == 2:
                    return self.int_of_bitstring(ip, args[0])
                return ip.native(int, *args, **kw)
            return self.to_int(ip, args[0])
        if cls is bool:
            return ip.boolval(args[0]) if args else False
        if cls is str:
            return self.do_str(ip, args[0]) if args else ''
        if cls in (list, tuple):
            if not args:
                return cls()
            s = ip.as_seq(args[0])
            if isinstance(s, SSeq):
                kind = 'list' if cls is list else 'tuple'
                if s.kind == 'iter':
                    ip.check_elem(s, kind)
                return SSeq(kind, s.length, s.elem, s.label)
            return cls(ip.lift(x) for x in s)
        if cls in (set, frozenset):
            if not args:
                return cls()
            v = ip.concrete_list(args[0])
            if any(is_symbolic(x) for x in v) and not all(map(native_key, v)):
                if cls is frozenset and all(isinstance(x, tuple) and len(x) == 2 and not is_symbolic(x[0]) for x in v) and \
                        len({x[0] for x in v}) == len(v):
                    return SPairs(v)
                raise Unsupported('symbolic set')
            return cls(v)
        if cls in (dict, collections.OrderedDict):
            d = cls()
            if args:
                a = args[0]
                if isinstance(a, (dict, types.MappingProxyType)) and not self.is_repo_instance(a):
                    d.update(a)
                else:
                    for kv in ip.concrete_list(a):
                        k, v = ip.concrete_list(kv)
                        if is_symbolic(k):
                            raise Unsupported('symbolic dict key')
                        d[k] = v
            d.update(kw)
            return d
        if cls is range:
            a = list(args)
            for x in a:
                if not isintlike(x):
                    if isinstance(x, SObj):
                        f = ip.find(x.cls, '__index__')
                        if f is not MISSING:
                            raise Unsupported('__index__ in range')
                    ip.raise_(TypeError, 'range() integer expected')
            if not any(is_symbolic(x) for x in a):
                return range(*a)
            if len(a) == 1:
                lo, hi, st = 0, a[0], 1
            elif len(a) == 2:
                lo, hi, st = a[0], a[1], 1
            else:
                lo, hi, st = a
            if is_symbolic(st):
                raise Unsupported('range with a symbolic step')
            if st == 0:
                ip.raise_(ValueError, 'range() arg 3 must not be zero')
            l, h = term(lo), term(hi)
            if st > 0:
                if V.CUR.decide(l >= h):
                    return range(0)
                cnt = h - l if st == 1 else T.fdiv(norm(h - l - 1), z3.IntVal(st)) + 1
            else:
                if V.CUR.decide(l <= h):
                    return range(0)
                cnt = l - h if st == -1 else T.fdiv(norm(l - h - 1), z3.IntVal(-st)) + 1
            return SSeq('range', mkint(cnt), lambda i: mkint(l + z3.IntVal(st) * term(i)))
        if cls is enumerate:
            s = ip.as_seq(args[0])
            start = args[1] if len(args) > 1 else kw.get('start', 0)
            if isinstance(s, SSeq):
                return SSeq('iter', s.length, lambda i: (mkint(term(i) + term(start)), s.elem(i)))
            return SIter(gen=((start + i, x) for i, x in enumerate(s)))
        if cls is zip:
            ss = [ip.as_seq(a) for a in args]
            if any(isinstance(s, SSeq) for s in ss):
                n = None
                for s in ss:
                    if not isinstance(s, SSeq) and not hasattr(s, '__len__'):
                        s = list(s)
                    l = ip.length(s)
                    if n is None:
                        n = l
                    elif not ip.truth(ip.compare('<=', n, l)):
                        n = l
                ss = [s if isinstance(s, SSeq) or hasattr(s, '__len__') else list(s) for s in ss]
                return SSeq('iter', n, lambda i: tuple(ip.seq_index(s, i) if not isinstance(s, SSeq) else s.elem(i)
                                                       for s in ss))
            return SIter(gen=iter([tuple(t) for t in zip(*ss)]))
        if cls is map:
            f, *rest = args
            ss = [ip.as_seq(a) for a in rest]
            if len(ss) == 1 and isinstance(ss[0], SSeq):
                s = ss[0]
                return SSeq('iter', s.length, lambda i: ip.call(f, [s.elem(i)]))
            if any(isinstance(s, SSeq) for s in ss):
                raise Unsupported('map over several symbolic sequences')
            return SIter(gen=(ip.call(f, list(t)) for t in zip(*ss)))
        if cls is filter:
            s = ip.as_seq(args[1])
            if isinstance(s, SSeq):
                raise Unsupported('filter over a symbolic sequence')
            f = args[0]
            return SIter(gen=(x for x in s if ip.truth(x if f is None else ip.call(f, [x]))))
        if cls is reversed:
            s = args[0]
            if isinstance(s, SSeq) and s.kind != 'iter':
                n = s.length
                return SSeq('iter', n, lambda i: s.elem(mkint(term(n) - 1 - term(i))))
            if isinstance(s, SSeq) or isinstance(s, SIter):
                ip.raise_(TypeError, 'object is not reversible')
            if isinstance(s, SObj):
                raise Unsupported('reversed of an object')
            return SIter(gen=reversed(s))
        if cls is type:
            if len(args) == 1:
                return ip.typeof(args[0])
            raise Unsupported('dynamic class creation')
        if cls is super and len(args) == 2:
            c, o = args
            mro = ip.rep(o if isinstance(o, (SType, type)) else ip.typeof(o)).__mro__
            if c not in mro and not (isinstance(o, (SType, type)) and c in ip.rep(ip.typeof(o)).__mro__):
                ip.raise_(TypeError, 'super(type, obj): obj must be an instance or subtype of type')
            return SSuper(c, o)
        if cls is slice:
            return slice(*args)
        if cls is object:
            return SObj(object)
        if cls is types.MethodType:
            return SMethod(args[0], args[1])
        if cls is types.MappingProxyType and isinstance(args[0], dict):
            return types.MappingProxyType(args[0])
        if cls is property:
            return property(*args)
        if cls in (staticmethod, classmethod):
            return cls(*args)
        if cls is functools.partial:
            return functools.partial(*args, **kw)
        if not any(is_symbolic(a) for a in args) and not any(is_symbolic(a) for a in kw.values()):
            return ip.native(cls, *args, **kw)
        raise Unsupported(f'construction of {cls.__name__} from symbolic values')

    def int_of_bitstring(self, ip, s):
        """int(s, 2) of a string of '0'/'1' characters, most significant first"""
        n = term(s.length)
        if V.CUR.decide(n == 0):
            ip.raise_(ValueError, 'invalid literal for int()')
        iv = V.CUR.fresh('ch')
        hy = [iv >= 0, iv < n]
        outs = V.CUR.sub_explore(lambda: char_bit(ip, s.elem(SInt(iv))), hy)
        if any(k != 'val' for _, k, _ in outs):
            raise Unsupported('characters are not bits')
        info = V.CUR.seqint(s, lambda i: char_bit(ip, s.elem(mkint(n - 1 - term(i)))), s.length)
        return mkint(info.B(norm(n)))

    def builtin_method(self, ip, obj, name, args, kw):
        if isinstance(obj, (SInt, SBool)) or (isinstance(obj, int) and any(is_symbolic(a) for a in args)):
            if name == 'bit_length':
                return mkint(T.blen(term(obj)))
            if name in ('__int__', '__index__', '__trunc__', '__pos__', 'conjugate', '__floor__', '__ceil__'):
                return self.to_int(ip, obj)
            if name == '__bool__':
                return ip.boolval(obj)
            if name == '__hash__':
                return SHash(obj)
            if name in ('__neg__', '__invert__'):
                return ip.unop('-' if name == '__neg__' else '~', obj)
            if name in ('__str__', '__repr__'):
                return self.do_str(ip, obj)
            for op, d in OPD.items():
                if name == f'__{d}__':
                    return ip.binop(op, obj, args[0]) if isintlike(args[0]) else NotImplemented
                if name == f'__r{d}__':
                    return ip.binop(op, args[0], obj) if isintlike(args[0]) else NotImplemented
            for op, d in CMPN.items():
                if name == d:
                    return ip.compare(op, obj, args[0]) if isintlike(args[0]) else NotImplemented
            raise Unsupported(f'int.{name}')
        if isinstance(obj, (str, SStr)) or isinstance(obj, SSeq) and obj.kind == 'str':
            return self.str_method(ip, obj, name, args, kw)
        if isinstance(obj, SSeq):
            if name in ('copy', '__iter__'):
                return SSeq(obj.kind if name == 'copy' else 'iter', obj.length, obj.elem)
            if name == '__len__':
                return ip.length(obj)
            if name == '__getitem__':
                return ip.getitem(obj, args[0])
            raise Unsupported(f'{obj.kind}.{name} on a symbolic sequence')
        if isinstance(obj, list):
            if ip.havoc:
                raise Unsupported('list method in a loop')
            if name not in ('copy', '__getitem__', 'index', 'count', '__iter__', '__len__', '__contains__'):
                ip.mutating(obj)
            if name == 'append':
                obj.append(args[0])
                return None
            if name == 'extend':
                obj.extend(ip.concrete_list(args[0]))
                return None
            if name == 'insert' and not is_symbolic(args[0]):
                obj.insert(*args)
                return None
            if name == 'pop' and not is_symbolic(args):
                return ip.native(obj.pop, *args)
            if name in ('reverse', 'copy', 'clear'):
                return getattr(obj, name)()
            if name == '__getitem__':
                return ip.getitem(obj, args[0])
            if name in ('index', 'count', 'remove', 'sort'):
                if is_symbolic(obj) or is_symbolic(args):
                    raise Unsupported(f'list.{name}')
        if isinstance(obj, tuple) and type(obj) is tuple:
            if name == '__getitem__':
                return ip.getitem(obj, args[0])
            if name in ('index', 'count') and (is_symbolic(obj) or is_symbolic(args)):
                raise Unsupported(f'tuple.{name}')
            if name == '__len__':
                return len(obj)
        if isinstance(obj, (dict, types.MappingProxyType)):
            if args and is_symbolic(args[0]) and not native_key(args[0]) and name in ('get', 'pop', 'setdefault', '__getitem__', '__contains__',
                                                          '__setitem__'):
                raise Unsupported('symbolic dict key')
            if name in ('get', 'pop', 'setdefault', 'items', 'keys', 'values', 'copy', 'update', '__getitem__',
                        '__contains__', '__setitem__', 'clear', 'popitem', '__iter__', '__len__', 'move_to_end'):
                if name in ('pop', 'setdefault', 'update', '__setitem__', 'clear', 'popitem', 'move_to_end'):
                    ip.mutating(obj)
                if name == 'keys':
                    return obj.keys()
                if name in ('items', 'values'):
                    return list(getattr(obj, name)())
                return ip.native(getattr(obj, name), *args, **kw)
        if isinstance(obj, (set, frozenset)):
            if any(is_symbolic(a) and not native_key(a) for a in args):
                raise Unsupported('symbolic set element')
            if name in ('add', 'update', 'discard', 'remove', 'pop', 'clear'):
                ip.mutating(obj)
            args = [ip.concrete_list(a) if isinstance(a, (SIter, types.GeneratorType)) else a for a in args]
            return ip.native(getattr(obj, name), *args, **kw)
        if not is_symbolic(obj) and not any(is_symbolic(a) for a in args):
            return ip.native(getattr(obj, name), *args, **kw)
        raise Unsupported(f'{type(obj).__name__}.{name}')

    def str_method(self, ip, obj, name, args, kw):
        if isinstance(obj, str):
            if name == 'join':
                s = ip.as_seq(args[0])
                if isinstance(s, SSeq):
                    iv = V.CUR.fresh('ch')
                    if obj != '':
                        if any(k != 'val' or not v for _, k, v in V.CUR.sub_explore(
                                lambda: isinstance(s.elem(SInt(iv)), (str, SStr)), [iv >= 0, iv < term(s.length)])):
                            raise Unsupported('join of unknown things')
                        return SStr(('join', obj, s))
                    for c, k, v in V.CUR.sub_explore(lambda: char_bit(ip, s.elem(SInt(iv))),
                                                     [iv >= 0, iv < term(s.length)]):
                        if k != 'val':
                            raise Unsupported('join of unknown strings')
                    return SSeq('str', s.length, s.elem)
                parts = [ip.lift(x) for x in s]
                for x in parts:
                    if not isinstance(x, (str, SStr)):
                        ip.raise_(TypeError, 'sequence item: expected str instance')
                if all(isinstance(x, str) for x in parts):
                    return obj.join(parts)
                out = []
                for i, x in enumerate(parts):
                    if i and obj:
                        out.append(obj)
                    out.append(x)
                return SStr(*out)
            if name == 'format':
                if not any(is_symbolic(a) or self.is_repo_instance(a) for a in list(args) + list(kw.values())):
                    return ip.native(obj.format, *args, **kw)
                return self.format_str(ip, obj, args, kw)
            if not any(is_symbolic(a) for a in args):
                return ip.native(getattr(obj, name), *args, **kw)
        raise Unsupported(f'str.{name}')

    def format_str(self, ip, s, args, kw):
        import string
        out = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                out.append(lit)
            if field is None:
                continue
            if field == '':
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                raise Unsupported('format field')
            if spec:
                raise Unsupported('format specification')
            out.append(self.fmt(ip, v, 114 if conv == 'r' else -1))
        if all(isinstance(x, str) for x in out):
            return ''.join(out)
        return SStr(*out)


def norm_str(s):
    """parts with literal strings merged"""
    parts = [s] if isinstance(s, str) else list(s.parts)
    out = []
    for p in parts:
        if isinstance(p, tuple) and p[0] == 'int' and isinstance(p[1], int):
            p = str(p[1])
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return out


def tokens(parts):
    """maximal digit runs (as numbers) and the text between them, when the string is text and
    nonnegative numbers apart from one another: two such strings are equal exactly when their
    tokens are"""
    out = []
    for k, p in enumerate(parts):
        if isinstance(p, tuple):
            if p[0] != 'int' or not isinstance(p[1], SInt):
                return None
            if k and isinstance(parts[k - 1], tuple) or out and not isinstance(out[-1], str) or out and out[-1][-1:] == '-':
                return None
            if k + 1 < len(parts) and isinstance(parts[k + 1], str) and parts[k + 1][0].isdigit():
                return None
            if V.CUR.decide(p[1].t < 0):
                return None
            out.append((p[1],))
        else:
            for q in re.findall(r'[0-9]+|[^0-9]+', p):
                if q[0].isdigit() and q.isascii():
                    if len(q) > 1 and q[0] == '0':
                        return None
                    out.append((int(q),))
                else:
                    out.append(q)
    return out


def char_bit(ip, c):
    """truth of a character '0'/'1' as bool value"""
    if c == '0':
        return False
    if c == '1':
        return True
    if isinstance(c, SStr) and len(c.parts) == 1 and isinstance(c.parts[0], tuple) and c.parts[0][0] == 'int':
        t = term(c.parts[0][1])
        if V.CUR.decide(t == 0):
            return False
        if V.CUR.decide(t == 1):
            return True
    raise PyRaise(ValueError('not a bit character'))


OPD = {'+': 'add', '-': 'sub', '*': 'mul', '//': 'floordiv', '%': 'mod', '&': 'and', '|': 'or', '^': 'xor',
       '<<': 'lshift', '>>': 'rshift', '**': 'pow'}
CMPN = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__', '==': '__eq__', '!=': '__ne__'}


# ------------------------------------------------------------ builtin functions
BUILTINS = {}


def bi(*fs):
    def deco(g):
        for f in fs:
            BUILTINS[f] = g
        return g
    return deco


@bi(len)
def _len(h, ip, x):
    return ip.length(x)


@bi(isinstance)
def _isinstance(h, ip, v, C):
    return ip.isinst(v, C)


@bi(issubclass)
def _issubclass(h, ip, c, C):
    return ip.issub(c, C)


@bi(hasattr)
def _hasattr(h, ip, v, name):
    if is_symbolic(name):
        raise Unsupported('symbolic attribute name')
    return ip.getattr(v, name, MISSING_ATTR) is not MISSING_ATTR


MISSING_ATTR = object()


@bi(getattr)
def _getattr(h, ip, v, name, *d):
    if is_symbolic(name):
        raise Unsupported('symbolic attribute name')
    return ip.getattr(v, name, *d)


@bi(setattr)
def _setattr(h, ip, v, name, val):
    ip.setattr(v, name, val)


@bi(callable)
def _callable(h, ip, v):
    if isinstance(v, (SFunc, SMethod, SType)):
        return True
    if isinstance(v, SObj):
        return ip.find(v.cls, '__call__') is not MISSING
    if isinstance(v, Opaque):
        return hasattr(v, 'x_call')
    if is_symbolic(v):
        return False
    return callable(v)


@bi(repr)
def _repr(h, ip, v):
    return h.do_repr(ip, v)


@bi(format)
def _format(h, ip, v, spec=''):
    if spec == '':
        return h.do_str(ip, v)
    if isinstance(v, SInt):
        raise Unsupported('format specification')
    return ip.native(format, v, spec)


@bi(hash)
def _hash(h, ip, v):
    if isinstance(v, SObj):
        f = ip.find(v.cls, '__hash__')
        if f is None:
            ip.raise_(TypeError, 'unhashable type')
        if isinstance(f, types.FunctionType):
            return ip.call(ip.bind(f, v, v.cls), [])
        return SHash(('id', v))
    if isinstance(v, (SSeq, list, dict)):
        if isinstance(v, (list, dict)) or v.kind == 'list':
            ip.raise_(TypeError, 'unhashable type')
        raise Unsupported('hash of a symbolic sequence')
    if isinstance(v, tuple) and type(v) is tuple:
        return SHash(tuple(_hash(h, ip, x) for x in v))
    if isinstance(v, frozenset):
        if any(is_symbolic(x) for x in v) and not all(map(native_key, v)):
            raise Unsupported('hash of a symbolic set')
    return SHash(v)


@bi(abs)
def _abs(h, ip, v):
    if isinstance(v, SBool):
        v = mkint(term(v))
    if isinstance(v, SInt):
        return abs(v)
    if isinstance(v, (SObj, Opaque)):
        if isinstance(v, Opaque):
            return v.x_unop(ip, 'abs')
        f = ip.find(v.cls, '__abs__')
        if f is MISSING:
            ip.raise_(TypeError, 'bad operand type for abs()')
        return ip.call(ip.bind(f, v, v.cls), [])
    return ip.native(abs, v)


@bi(divmod)
def _divmod(h, ip, a, b):
    if isintlike(a) and isintlike(b):
        return ip.binop('//', a, b), ip.binop('%', a, b)
    raise Unsupported('divmod')


@bi(pow)
def _pow(h, ip, a, b, *m):
    if m:
        return ip.binop('%', ip.binop('**', a, b), m[0])
    return ip.binop('**', a, b)


def _minmax(op):
    def g(h, ip, *args, **kw):
        if kw:
            if not any(is_symbolic(a) for a in args):
                return ip.native({'<': min, '>': max}[op], *args, **kw)
            raise Unsupported('min/max with key')
        xs = list(args) if len(args) > 1 else ip.concrete_list(args[0])
        if not xs:
            ip.raise_(ValueError, 'empty sequence')
        r = xs[0]
        for x in xs[1:]:
            if ip.truth(ip.compare(op, x, r)):
                r = x
        return r
    return g


BUILTINS[min] = _minmax('<')
BUILTINS[max] = _minmax('>')


@bi(all)
def _all(h, ip, x):
    s = ip.as_seq(x)
    if isinstance(s, SSeq):
        return h.loops.forall(ip, s, True)
    for v in s:
        if not ip.truth(v):
            return False
    return True


@bi(any)
def _any(h, ip, x):
    s = ip.as_seq(x)
    if isinstance(s, SSeq):
        return ip.not_(h.loops.forall(ip, s, False))
    for v in s:
        if ip.truth(v):
            return True
    return False


@bi(sum)
def _sum(h, ip, x, start=0):
    s = ip.as_seq(x)
    if isinstance(s, SSeq):
        return h.loops.sum_seq(ip, s, start)
    r = start
    for v in s:
        r = ip.binop('+', r, v)
    return r


@bi(functools.reduce)
def _reduce(h, ip, f, x, *init):
    s = ip.as_seq(x)
    if isinstance(s, SSeq):
        return h.loops.reduce_seq(ip, f, s, init[0] if init else MISSING)
    it = [ip.lift(v) for v in s]
    if init:
        r = init[0]
    else:
        if not it:
            ip.raise_(TypeError, 'reduce() of empty iterable with no initial value')
        r = it.pop(0)
    for v in it:
        r = ip.call(f, [r, v])
    return r


@bi(iter)
def _iter(h, ip, x, *a):
    if a:
        raise Unsupported('iter with sentinel')
    s = ip.as_seq(x)
    if isinstance(s, SSeq):
        return SSeq('iter', s.length, s.elem)
    return SIter(gen=iter(s))


@bi(next)
def _next(h, ip, x, *d):
    if isinstance(x, SIter) and x.gen is not None:
        try:
            return ip.lift(next(x.gen))
        except StopIteration:
            if d:
                return d[0]
            ip.raise_(StopIteration)
    if isinstance(x, SSeq):
        raise Unsupported('next on a symbolic iterator')
    if isinstance(x, Opaque) and hasattr(x, 'x_next'):
        return x.x_next(ip, *d)
    if hasattr(x, '__next__') and not is_symbolic(x):
        return ip.native(next, x, *d)
    if isinstance(x, SObj):
        f = ip.find(x.cls, '__next__')
        if f is not MISSING:
            return ip.call(ip.bind(f, x, x.cls), [])
    ip.raise_(TypeError, 'not an iterator')


@bi(sorted)
def _sorted(h, ip, x, **kw):
    v = ip.concrete_list(x)
    if any(is_symbolic(a) for a in v) or kw.get('key') is not None and is_symbolic(kw['key']):
        raise Unsupported('sorting symbolic values')
    return ip.native(sorted, v, **kw)


@bi(print)
def _print(h, ip, *a, **k):
    return None


@bi(id)
def _id(h, ip, v):
    return SHash(('id', v))


@bi(bin)
def _bin(h, ip, v):
    if isinstance(v, SInt):
        raise Unsupported('bin of a symbolic int')
    return ip.native(bin, v)


@bi(functools.wraps)
def _wraps(h, ip, f, *a, **k):
    # metadata only
    return _Identity()


class _Identity(Opaque):
    def x_call(self, ip, args, kwargs):
        return args[0]


for _o, _f in PYOP.items():
    if _o in OPD:
        BUILTINS[_f] = (lambda o: lambda h, ip, a, b: ip.binop(o, a, b))(_o)
    elif _o in CMPN:
        BUILTINS[_f] = (lambda o: lambda h, ip, a, b: ip.compare(o, a, b))(_o)
BUILTINS[operator.neg] = lambda h, ip, a: ip.unop('-', a)
BUILTINS[operator.invert] = lambda h, ip, a: ip.unop('~', a)
BUILTINS[operator.not_] = lambda h, ip, a: ip.not_(a)
BUILTINS[operator.truth] = lambda h, ip, a: ip.boolval(a)
BUILTINS[operator.getitem] = lambda h, ip, a, b: ip.getitem(a, b)
BUILTINS[operator.index] = lambda h, ip, a: h.to_int(ip, a)
BUILTINS[object.__new__] = lambda h, ip, c, /, *a, **k: SObj(ip.lift(c))
for _n in ('__lt__', '__le__', '__gt__', '__ge__'):
    BUILTINS[getattr(object, _n)] = lambda h, ip, a, b: NotImplemented
