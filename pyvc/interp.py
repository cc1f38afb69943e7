"""Symbolic interpreter for the real Python functions of the repository.

The code is the AST of the live function objects (located through their code
objects in the source file the Python interpreter itself loaded); names are
resolved through the functions' own globals and closure cells, methods through
the real classes' MROs.  Nothing is transcribed by hand."""
import ast
import builtins
import functools
import inspect
import operator
import types
import weakref
import typing as tp
import collections
import collections.abc
import z3
from . import theory as T
from . import values as V
from .values import *

REPN = 8            # width of the class representing base[n] for class-level questions


# --------------------------------------------------------------- source access
class SourceIndex:
    def __init__(self):
        self.files = {}
        self.override = {}      # pseudo filename -> source (for exec-generated code)

    def load(self, filename):
        if filename not in self.files:
            if filename in self.override:
                src = self.override[filename]
            else:
                try:
                    with open(filename) as f:
                        src = f.read()
                except OSError:
                    raise Unsupported(f'no source for {filename}')
            tree = ast.parse(src)
            idx = {}
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    ln = n.lineno
                    if isinstance(n, ast.FunctionDef) and n.decorator_list:
                        ln = min(ln, n.decorator_list[0].lineno)
                    name = n.name if isinstance(n, ast.FunctionDef) else '<lambda>'
                    idx.setdefault((ln, name), []).append(n)
            self.files[filename] = (src, idx)
        return self.files[filename]

    def node(self, fn):
        code = fn.__code__
        src, idx = self.load(code.co_filename)
        c = idx.get((code.co_firstlineno, code.co_name), [])
        if len(c) > 1:
            c = [n for n in c if [a.arg for a in n.args.posonlyargs + n.args.args] ==
                 list(code.co_varnames[:code.co_argcount])]
        if len(c) != 1:
            raise Unsupported(f'source of {fn.__qualname__} not found')
        return c[0]

    def text(self, fn):
        src, _ = self.load(fn.__code__.co_filename)
        return ast.get_source_segment(src, self.node(fn))


SOURCES = SourceIndex()


class ReturnEx(BaseException):
    def __init__(self, v):
        self.v = v


class BreakEx(BaseException):
    pass


class ContinueEx(BaseException):
    pass


MISSING = object()


class Env:
    def __init__(self, parent=None, globals_=None, cells=None, func=None):
        self.vars = {}
        self.parent = parent
        self.globals = globals_ if globals_ is not None else parent.globals
        self.cells = cells if cells is not None else (parent.cells if parent else {})
        self.func = func if func is not None else (parent.func if parent else None)
        self.locals = None
        self.nonlocals = set()
        self.globaldecl = set()
        self.yields = None
        self.first = None

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            if e.locals is not None and name in e.locals and name not in e.nonlocals and name not in e.globaldecl:
                raise PyRaise(UnboundLocalError(name))
            e = e.parent
        if name in self.cells:
            try:
                return self.cells[name].cell_contents
            except ValueError:
                raise PyRaise(NameError(name))
        if name in self.globals:
            return self.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError(f"name '{name}' is not defined"))

    def assign(self, name, v):
        if name in self.globaldecl:
            raise Unsupported('assignment to a global')
        if name in self.nonlocals:
            e = self.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
            raise Unsupported('nonlocal of a real closure')
        self.vars[name] = v


class _Poison(Opaque):
    """unknown value of a variable that must be assigned before it is read"""


POISON = _Poison()


def memoryless(loop):
    """no variable the loop assigns is read in the body before it is assigned there"""
    names = local_names(loop.body)
    done = set()

    def loads(n):
        return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
    for st in loop.body:
        bad = (loads(st) & names) - done
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            if st.value is not None and (loads(st.value) & names) - done:
                return False
            if (loads(st) & names) - done:
                return False
            done |= local_names([st])
            continue
        if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id not in done:
            return False
        if bad:
            return False
    return True


def local_names(node):
    """names assigned in a function body (its own scope)"""
    out = set()

    def targets(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                targets(x)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def walk(n):
        for c in ast.iter_child_nodes(n):
            visit(c)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    targets(c.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                targets(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            targets(n.target)
        elif isinstance(n, ast.For):
            targets(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    targets(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.NamedExpr):
            targets(n.target)
        walk(n)
    for s in node:
        visit(s)
    return out


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Mod: '%', ast.BitAnd: '&',
          ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.Div: '/', ast.Pow: '**',
          ast.MatMult: '@'}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '//': 'floordiv', '%': 'mod', '&': 'and', '|': 'or', '^': 'xor',
          '<<': 'lshift', '>>': 'rshift', '/': 'truediv', '**': 'pow', '@': 'matmul'}
PYOP = {'+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv, '%': operator.mod,
        '&': operator.and_, '|': operator.or_, '^': operator.xor, '<<': operator.lshift, '>>': operator.rshift,
        '/': operator.truediv, '**': operator.pow,
        '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}
OPFN = {v: k for k, v in PYOP.items()}
CMPOPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}
CMPD = {'<': ('__lt__', '__gt__'), '<=': ('__le__', '__ge__'), '>': ('__gt__', '__lt__'), '>=': ('__ge__', '__le__'),
        '==': ('__eq__', '__eq__'), '!=': ('__ne__', '__ne__')}


class BoundBuiltin:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class SSuper:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


def is_symbolic(v, depth=3):
    if isinstance(v, (SInt, SBool, SObj, SType, SStr, SSeq, SIter, SFunc, SMethod, Opaque, BoundBuiltin, SSuper)):
        return True
    if depth and isinstance(v, (list, tuple, set, frozenset)):
        return any(is_symbolic(x, depth - 1) for x in v)
    if depth and isinstance(v, (dict, types.MappingProxyType)):
        return any(is_symbolic(x, depth - 1) for x in v.values()) or any(is_symbolic(x, depth - 1) for x in v.keys())
    if isinstance(v, slice):
        return any(is_symbolic(x) for x in (v.start, v.stop, v.step))
    return False


def native_key(x):
    """usable in native sets and dicts: equality of such keys is decided on the path"""
    if isinstance(x, tuple):
        return all(map(native_key, x))
    return getattr(type(x), 'native_key', False) or not is_symbolic(x)


STATEFUL = (weakref.WeakValueDictionary, weakref.WeakKeyDictionary, weakref.WeakSet, dict)
DICTS = (dict, types.MappingProxyType)
CONTAINERS = (set, frozenset, dict, types.MappingProxyType)


class Interp:
    def __init__(self, hooks):
        self.h = hooks           # domain hooks: lift, rep, externals, contracts
        self.depth = 0
        self.fresh_classes = __import__('weakref').WeakSet()   # classes created while interpreting
        self.used_functions = set()
        self.used_contracts = set()
        self.used_externals = set()
        self.exc_stack = []

    # ------------------------------------------------------------ helpers
    def lift(self, v):
        return self.h.lift(v)

    def rep(self, cls):
        return self.h.rep(cls)

    def raise_(self, E, *args):
        raise PyRaise(E(*args))

    def native(self, f, *args, **kw):
        try:
            return self.lift(f(*args, **kw))
        except (Unsupported, PyRaise):
            raise
        except RecursionError:
            raise Unsupported('recursion')
        except Exception as e:
            raise PyRaise(e)

    def typeof(self, v):
        if isinstance(v, SInt):
            return int
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SObj):
            return v.cls
        if isinstance(v, SStr):
            return str
        if isinstance(v, SSeq):
            return {'list': list, 'tuple': tuple, 'range': range, 'str': str}.get(v.kind, types.GeneratorType)
        if isinstance(v, SType):
            return type(v.base)
        if isinstance(v, SFunc):
            return types.FunctionType
        if isinstance(v, SMethod):
            return types.MethodType
        if isinstance(v, SIter):
            return types.GeneratorType
        if isinstance(v, BoundBuiltin):
            return types.BuiltinMethodType
        if isinstance(v, Opaque):
            return v.x_type()
        return self.lift(type(v))

    def issub(self, c, C):
        """issubclass(c, C) as bool / SBool"""
        if isinstance(C, tuple):
            for x in C:
                r = self.issub(c, x)
                if self.truth(r):
                    return True
            return False
        if self.h.class_check is not None:
            r = self.h.class_check(self, C, '__subclasscheck__', c)
            if r is not MISSING:
                return r
        C = self.lift(C)
        c = self.lift(c)
        if isinstance(c, Opaque) or isinstance(C, Opaque):
            return (c if isinstance(c, Opaque) else C).x_issub(self, c, C)
        if isinstance(C, SType):
            if isinstance(c, SType):
                if issubclass(self.rep(c), C.base):
                    return same_size(c.size, C.size)
                return False
            if isinstance(c, type):
                # an unsized or foreign class is never below a sized one, except
                # subclasses of sized classes
                if getattr(c, 'is_sized', False):
                    if issubclass(c, C.base):
                        return same_size(c.size, C.size)
                    return False
                return False
            self.raise_(TypeError, 'issubclass() arg 1 must be a class')
        if not isinstance(c, (SType, type)):
            return self.native(issubclass, c, C)
        return self.native(issubclass, self.rep(c), C)

    def isinst(self, v, C):
        if isinstance(C, tuple):
            for x in C:
                if self.truth(self.isinst(v, x)):
                    return True
            return False
        if self.h.class_check is not None:
            r = self.h.class_check(self, C, '__instancecheck__', v)
            if r is not MISSING:
                return r
        if isinstance(v, Opaque):
            return v.x_isinstance(C)
        if isinstance(v, SType):
            C = self.lift(C)
            if isinstance(C, SType):
                return False
            return self.native(isinstance, self.rep(v), C)
        if is_symbolic(v):
            return self.issub(self.typeof(v), C)
        C = self.lift(C)
        if isinstance(C, SType):
            return False if not isinstance(v, type) else False
        if isinstance(C, Opaque):
            return self.issub(self.typeof(v), C)
        return self.native(isinstance, v, C)

    def find(self, cls, name):
        """attribute in the MRO of a class value (raw, unbound)"""
        if isinstance(cls, Opaque) and hasattr(cls, 'x_find'):
            return cls.x_find(name)
        r = self.rep(cls)
        for k in r.__mro__:
            if name in k.__dict__:
                if isinstance(cls, SType) and name == '_info_':
                    return (cls.base, cls.size)
                return k.__dict__[name]
        return MISSING

    def bind(self, attr, obj, cls):
        if isinstance(attr, (types.FunctionType, SFunc)):
            return attr if obj is MISSING else SMethod(attr, obj)
        if isinstance(attr, property):
            if obj is MISSING:
                return attr
            if attr.fget is None:
                self.raise_(AttributeError, 'unreadable attribute')
            return self.call(attr.fget, [obj])
        if isinstance(attr, classmethod):
            return SMethod(attr.__func__, cls)
        if isinstance(attr, staticmethod):
            return attr.__func__
        if isinstance(attr, (types.WrapperDescriptorType, types.MethodDescriptorType)):
            return attr if obj is MISSING else SMethod(attr, obj)
        if isinstance(attr, types.MemberDescriptorType):
            if obj is MISSING:
                return attr
            n = attr.__name__
            if isinstance(obj, SObj) and n in obj.attrs:
                return obj.attrs[n]
            self.raise_(AttributeError, n)
        g = self.find_on_type(attr, '__get__')
        if g is not MISSING:
            if isinstance(g, types.FunctionType):
                return self.call(g, [attr, None if obj is MISSING else obj, cls])
            if not is_symbolic(attr) and isinstance(attr, (types.BuiltinFunctionType,)):
                return attr
            raise Unsupported(f'descriptor {type(attr)}')
        return self.lift(attr)

    def find_on_type(self, v, name):
        if isinstance(v, (Opaque, SIter, BoundBuiltin, SSuper)):
            return MISSING
        t = self.typeof(v)
        if isinstance(t, Opaque):
            return MISSING
        return self.find(t, name)

    def is_data_descriptor(self, attr):
        if isinstance(attr, property):
            return True
        if isinstance(attr, types.MemberDescriptorType):
            return True
        if isinstance(attr, (types.FunctionType, SFunc, classmethod, staticmethod, SInt, SBool, SObj, SType)):
            return False
        return self.find_on_type(attr, '__set__') is not MISSING

    def getattr(self, v, name, default=MISSING):
        try:
            r = self._getattr(v, name)
            if isinstance(r, STATEFUL):
                return self.h.global_read(self, None, name, r)
            return r
        except PyRaise as e:
            if default is not MISSING and isinstance(e.exc, AttributeError):
                return default
            raise

    def _getattr(self, v, name):
        if isinstance(v, SSuper):
            return self.super_getattr(v, name)
        if isinstance(v, SObj):
            ga = self.find(v.cls, '__getattribute__')
            if isinstance(ga, types.FunctionType):
                return self.call(ga, [v, name])
            return self.obj_getattr(v, name)
        if isinstance(v, SType):
            return self.type_getattr(v, name)
        if isinstance(v, Opaque):
            return v.x_getattr(self, name)
        if isinstance(v, SFunc):
            if name == '__name__':
                return v.name
            if name == '__qualname__':
                return v.qualname
            if name in v.attrs:
                return v.attrs[name]
            if name == '__doc__':
                return ast.get_docstring(v.node, clean=False) if isinstance(v.node, ast.FunctionDef) else None
            self.raise_(AttributeError, name)
        if isinstance(v, SMethod):
            if name == '__func__':
                return v.func
            if name == '__self__':
                return v.self
            return self._getattr(v.func, name)
        if isinstance(v, (SInt, SBool)):
            if hasattr(int, name):
                return BoundBuiltin(v, name)
            self.raise_(AttributeError, name)
        if isinstance(v, SSeq):
            t = {'list': list, 'tuple': tuple, 'range': range, 'str': str}.get(v.kind)
            if t is not None and hasattr(t, name):
                return BoundBuiltin(v, name)
            self.raise_(AttributeError, name)
        if isinstance(v, (SStr,)):
            if hasattr(str, name):
                return BoundBuiltin(v, name)
            self.raise_(AttributeError, name)
        if isinstance(v, (list, dict, tuple, set, str, bytes, frozenset)) and not (isinstance(v, tuple) and type(v) is not tuple):
            if hasattr(type(v), name):
                return BoundBuiltin(v, name)
            self.raise_(AttributeError, name)
        if isinstance(v, slice):
            return getattr(v, name)
        if isinstance(v, (int, float)) and not isinstance(v, bool) or isinstance(v, bool):
            return self.native(getattr, v, name)
        if isinstance(v, type):
            mc = self.find(type(v), name)
            if isinstance(mc, property) and isinstance(mc.fget, types.FunctionType) and mc.fget in self.h.contracts:
                return self.call(mc.fget, [v])
        h = self.h.real_getattr(self, v, name)
        if h is not MISSING:
            return h
        return self.native(getattr, v, name)

    def obj_getattr(self, v, name):
        a = self.find(v.cls, name)
        if a is not MISSING and self.is_data_descriptor(a):
            return self.bind(a, v, v.cls)
        if name in v.attrs:
            return v.attrs[name]
        if name == '__class__':
            return v.cls
        if a is not MISSING:
            return self.bind(a, v, v.cls)
        g = self.find(v.cls, '__getattr__')
        if g is not MISSING:
            return self.call(g, [v, name])
        self.raise_(AttributeError, f'{name}')

    def type_getattr(self, v, name):
        mcs = type(v.base)
        for k in mcs.__mro__:
            if name in k.__dict__:
                ma = k.__dict__[name]
                break
        else:
            ma = MISSING
        if name in ('__name__', '__qualname__'):
            return SStr(v.base.__name__, '[', ('int', v.size), ']')
        if name == '__bases__':
            raise Unsupported('bases of a symbolic type')
        if name in ('__dict__', '__mro__'):
            raise Unsupported(name)
        if name == '__module__':
            return v.base.__module__
        if ma is not MISSING and self.is_data_descriptor(ma) and not isinstance(ma, types.GetSetDescriptorType):
            return self.bind(ma, v, mcs)
        a = self.find(v, name)
        if a is not MISSING:
            if name == '_info_':
                return a
            return self.bind(a, MISSING, v)
        if ma is not MISSING:
            return self.bind(ma, v, mcs)
        self.raise_(AttributeError, name)

    def super_getattr(self, s, name):
        obj = s.obj
        made = hasattr(obj, 'up') and s.cls in obj.up()
        if made or isinstance(obj, SObj) and hasattr(obj.cls, 'up'):
            c = obj if made else obj.cls
            for k in c.up()[c.up().index(s.cls) + 1:]:
                d = k.attrs if hasattr(k, 'up') else k.__dict__
                if name in d:
                    a = d[name]
                    if not made:
                        return self.bind(a, obj, c)
                    if isinstance(a, classmethod):
                        return SMethod(a.__func__, obj)
                    if isinstance(a, staticmethod):
                        return a.__func__
                    return a if isinstance(a, types.FunctionType) else self.bind(a, MISSING, obj)
            self.raise_(AttributeError, name)
        if isinstance(obj, SType) or isinstance(obj, type):
            t = self.typeof(obj)
            rt = self.rep(t)
            if s.cls in rt.__mro__:
                mro, o, c = rt.__mro__, obj, t
            else:
                rr = self.rep(obj)
                if s.cls not in rr.__mro__:
                    raise Unsupported('super')
                mro, o, c = rr.__mro__, MISSING, obj
                start = mro.index(s.cls)
                for k in mro[start + 1:]:
                    if name in k.__dict__:
                        a = k.__dict__[name]
                        if isinstance(a, classmethod):
                            return SMethod(a.__func__, obj)
                        if isinstance(a, staticmethod):
                            return a.__func__
                        return a if isinstance(a, types.FunctionType) else self.bind(a, MISSING, obj)
                self.raise_(AttributeError, name)
        else:
            t = self.typeof(obj)
            mro, o, c = self.rep(t).__mro__, obj, t
        start = mro.index(s.cls)
        for k in mro[start + 1:]:
            if name in k.__dict__:
                return self.bind(k.__dict__[name], o, c)
        self.raise_(AttributeError, name)

    def setattr(self, v, name, val):
        if self.havoc:
            raise Unsupported('attribute assignment in a loop')
        self.mutating(v)
        if isinstance(v, SObj):
            a = self.find(v.cls, name)
            if a is not MISSING:
                if isinstance(a, property):
                    if a.fset is None:
                        self.raise_(AttributeError, "can't set attribute")
                    self.call(a.fset, [v, val])
                    return
                if not isinstance(a, (types.FunctionType, types.MemberDescriptorType)):
                    s = self.find_on_type(a, '__set__')
                    if isinstance(s, types.FunctionType):
                        self.call(s, [a, v, val])
                        return
            v.attrs[name] = val
            return
        if isinstance(v, SFunc):
            v.attrs[name] = val
            return
        if isinstance(v, Opaque):
            return v.x_setattr(self, name, val)
        if isinstance(v, type) and v in self.fresh_classes and not is_symbolic(val):
            self.native(setattr, v, name, val)
            return
        raise Unsupported(f'setattr on {type(v).__name__}')

    # ------------------------------------------------------------ operators
    def truth(self, v):
        if isinstance(v, bool) or v is None:
            return bool(v)
        if isinstance(v, (SBool, SInt)):
            return bool(v)
        if isinstance(v, SObj):
            f = self.find(v.cls, '__bool__')
            if f is not MISSING:
                r = self.call(self.bind(f, v, v.cls), [])
                if not isinstance(r, (bool, SBool)):
                    self.raise_(TypeError, '__bool__ should return bool')
                return self.truth(r)
            f = self.find(v.cls, '__len__')
            if f is not MISSING:
                return self.truth(self.call(self.bind(f, v, v.cls), []))
            return True
        if isinstance(v, SSeq):
            if v.kind in ('list', 'tuple', 'range', 'str'):
                return V.CUR.decide(term(v.length) != 0)
            return True
        if isinstance(v, SStr):
            if v.parts and not any(isinstance(q, str) and q or isinstance(q, tuple) and q[0] == 'int' for q in v.parts):
                from .namedom import code
                return not V.CUR.decide(code(v) == code(''))
            return True if v.parts else False
        if isinstance(v, Opaque):
            return v.x_truth(self)
        if isinstance(v, (SType, SFunc, SMethod, SIter, BoundBuiltin)):
            return True
        return self.native(bool, v)

    def boolval(self, v):
        """bool(v) as a value, without forking for int-likes"""
        if isinstance(v, (bool, SBool)):
            return v
        if isinstance(v, SInt):
            return mkbool(v.t != 0)
        if isinstance(v, SObj):
            f = self.find(v.cls, '__bool__')
            if f is not MISSING:
                r = self.call(self.bind(f, v, v.cls), [])
                if not isinstance(r, (bool, SBool)):
                    self.raise_(TypeError, '__bool__ should return bool')
                return r
        if isinstance(v, Opaque):
            return v.x_bool(self) if hasattr(v, 'x_bool') else self.truth(v)
        return self.truth(v)

    def int_binop(self, op, a, b):
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)) and op in '&|^':
            if isinstance(a, bool) and isinstance(b, bool):
                return PYOP[op](a, b)
            return sbool_bitop(op, a, b)
        if not is_symbolic(a) and not is_symbolic(b):
            if op == '<<' and b > 100000:
                raise Unsupported('huge shift')
            return self.native(PYOP[op], a, b)
        x, y = term(a), term(b)
        if op in ('<<', '>>'):
            if V.CUR.decide(y < 0):
                self.raise_(ValueError, 'negative shift count')
            return mkint(T.shl(x, y) if op == '<<' else T.shr(x, y))
        if op in ('//', '%'):
            if V.CUR.decide(y == 0):
                self.raise_(ZeroDivisionError, 'integer division or modulo by zero')
            return mkint(T.fdiv(x, y) if op == '//' else T.fmod(x, y))
        if op == '+':
            return mkint(x + y)
        if op == '-':
            return mkint(x - y)
        if op == '*':
            return mkint(T.mul(x, y))
        if op == '&':
            return mkint(T.band(x, y))
        if op == '|':
            return mkint(T.bor(x, y))
        if op == '^':
            return mkint(T.bxor(x, y))
        if op == '**':
            xv, yv = T.num(x), T.num(y)
            if xv == 2:
                if V.CUR.decide(y < 0):
                    raise Unsupported('negative power')
                return mkint(T.pow2(y))
            if yv is not None and 0 <= yv <= 4:
                r = z3.IntVal(1)
                for _ in range(yv):
                    r = T.mul(r, x)
                return mkint(r)
        raise Unsupported(f'int operator {op}')

    def binop(self, op, a, b):
        if isintlike(a) and isintlike(b):
            return self.int_binop(op, a, b)
        sa, sb = is_symbolic(a), is_symbolic(b)
        if not sa and not sb and not self.h.is_repo_instance(a) and not self.h.is_repo_instance(b):
            return self.native(PYOP[op], a, b)
        strs = [isinstance(x, (str, SStr)) or (isinstance(x, SSeq) and x.kind == 'str') for x in (a, b)]
        if any(strs):
            if op == '+' and all(strs):
                return SStr(*[x for x in (a, b) if not (isinstance(x, str) and x == '')])
            if op == '%' and isinstance(a, (str, SStr)):
                return SStr(a, '%', b)
        seqa = isinstance(a, (list, tuple, SSeq)) and not self.h.is_repo_instance(a)
        seqb = isinstance(b, (list, tuple, SSeq)) and not self.h.is_repo_instance(b)
        if op == '+' and seqa and seqb:
            return self.seq_concat(a, b)
        if op == '*' and ((seqa and isintlike(b)) or (seqb and isintlike(a))):
            return self.seq_repeat(a, b) if seqa else self.seq_repeat(b, a)
        if any(isinstance(x, (SStr, SSeq, SIter)) for x in (a, b)) and not \
                any(isinstance(x, SObj) or isinstance(x, Opaque) for x in (a, b)):
            raise Unsupported(f'{op} on {a!r} and {b!r}')
        if isinstance(a, CONTAINERS) and isinstance(b, CONTAINERS) and not self.h.is_repo_instance(a) and not self.h.is_repo_instance(b):
            if all(native_key(x) for c in (a, b) for x in c):
                return self.native(PYOP[op], a, b)
            raise Unsupported(f'{op} on {type(a).__name__}')
        d = DUNDER[op]
        ln, rn = f'__{d}__', f'__r{d}__'
        return self.dunder(op, a, b, ln, rn)

    def has_dunder(self, v, name):
        if isinstance(v, Opaque):
            return True
        t = self.typeof(v)
        f = self.find(t, name)
        return f

    def call_dunder(self, v, name, other):
        """type(v).name(v, other) or NotImplemented"""
        if isinstance(v, SObj) or self.h.is_repo_instance(v):
            t = self.typeof(v)
            f = self.find(t, name)
            if f is MISSING or f is None:
                return NotImplemented
            return self.call(self.bind(f, v, t), [other])
        return NotImplemented

    def sametype(self, a, b):
        ta, tb = self.typeof(a), self.typeof(b)
        return same_type(ta, tb)

    def dunder(self, op, a, b, ln, rn):
        if isinstance(a, Opaque):
            r = a.x_binop(self, op, b, False)
            if r is not NotImplemented:
                return r
            if isinstance(b, SObj):
                r = self.call_dunder(b, rn, a)
                if r is not NotImplemented:
                    return r
            if isinstance(b, Opaque):
                r = b.x_binop(self, op, a, True)
                if r is not NotImplemented:
                    return r
            self.raise_(TypeError, f'unsupported operand type(s) for {op}')
        if isinstance(b, Opaque):
            r = self.call_dunder(a, ln, b)
            if r is not NotImplemented:
                return r
            r = b.x_binop(self, op, a, True)
            if r is not NotImplemented:
                return r
            self.raise_(TypeError, f'unsupported operand type(s) for {op}')
        obja = isinstance(a, SObj) or self.h.is_repo_instance(a)
        objb = isinstance(b, SObj) or self.h.is_repo_instance(b)
        st = False
        do_other = objb
        if obja and objb:
            st = self.truth(self.sametype(a, b))
            do_other = not st
            if not st:
                ta, tb = self.typeof(a), self.typeof(b)
                if self.truth(self.issub(tb, ta)):
                    fa, fb = self.find(ta, rn), self.find(tb, rn)
                    if fb is not MISSING and fb is not fa:
                        r = self.call_dunder(b, rn, a)
                        if r is not NotImplemented:
                            return r
                        do_other = False
        if obja:
            r = self.call_dunder(a, ln, b)
            if r is not NotImplemented:
                return r
        if do_other:
            r = self.call_dunder(b, rn, a)
            if r is not NotImplemented:
                return r
        self.raise_(TypeError, f'unsupported operand type(s) for {op}')

    def compare(self, op, a, b):
        if isintlike(a) and isintlike(b):
            if not is_symbolic(a) and not is_symbolic(b):
                return PYOP[op](a, b)
            if op in ('==', '!=') and isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                x, y = bterm(a), bterm(b)
                return mkbool(x == y if op == '==' else x != y)
            x, y = mkint(term(a)), mkint(term(b))
            return PYOP[op](x, y)
        sa, sb = is_symbolic(a), is_symbolic(b)
        ra, rb = self.h.is_repo_instance(a), self.h.is_repo_instance(b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            x, y, rev = (a, b, False) if isinstance(a, Opaque) else (b, a, True)
            o = op
            if rev:
                o = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                if isinstance(a, SObj):
                    r = self.call_dunder(a, CMPD[op][0], b)
                    if r is not NotImplemented:
                        return r
            r = x.x_binop(self, o, y, False)
            if r is not NotImplemented:
                return r
            if isinstance(y, SObj):
                r = self.call_dunder(y, CMPD[o][1], x)
                if r is not NotImplemented:
                    return r
            if op in ('==', '!='):
                i = self.is_(a, b)
                return i if op == '==' else self.not_(i)
            self.raise_(TypeError, f'{op} not supported')
        if not sa and not sb and not ra and not rb:
            return self.native(PYOP[op], a, b)
        if isinstance(a, (SType, type)) and isinstance(b, (SType, type)) and op in ('==', '!='):
            r = same_type(self.lift(a), self.lift(b))
            return r if op == '==' else self.not_(r)
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and not ra and not rb and \
                all(map(native_key, a)) and all(map(native_key, b)):
            return self.native(PYOP[op], a, b)
        if type(a) in (list, tuple) and type(b) in (list, tuple) and op in ('==', '!='):
            if type(a) is not type(b):
                return op == '!='
            r = len(a) == len(b)
            if r:
                for x, y in zip(a, b):
                    if not self.same_or_eq(x, y):
                        r = False
                        break
            return r if op == '==' else not r
        if isinstance(a, DICTS) and isinstance(b, DICTS) and not ra and not rb and op in ('==', '!='):
            r = list(a) == list(b) if isinstance(a, collections.OrderedDict) and isinstance(b, collections.OrderedDict) else \
                a.keys() == b.keys()
            if r:
                for k in a:
                    if not self.same_or_eq(a[k], b[k]):
                        r = False
                        break
            return r if op == '==' else not r
        obja, objb = isinstance(a, SObj) or ra, isinstance(b, SObj) or rb
        if obja or objb:
            ln, rn = CMPD[op]
            first_reflected = False
            if obja and objb:
                ta, tb = self.typeof(a), self.typeof(b)
                st = self.truth(self.sametype(a, b))
                if not st and self.truth(self.issub(tb, ta)):
                    first_reflected = True
            tried = False
            if first_reflected:
                r = self.call_dunder(b, rn, a)
                if r is not NotImplemented:
                    return r
                tried = True
            if obja:
                r = self.call_dunder(a, ln, b)
                if r is not NotImplemented:
                    return r
            if objb and not tried:
                r = self.call_dunder(b, rn, a)
                if r is not NotImplemented:
                    return r
            if op in ('==', '!='):
                i = self.is_(a, b)
                return i if op == '==' else self.not_(i)
            self.raise_(TypeError, f'{op} not supported')
        if isinstance(a, SStr) or isinstance(b, SStr):
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and op in ('==', '!='):
                r = self.h.str_eq(self, a, b)
                return r if op == '==' else self.not_(r)
            if op in ('==', '!='):
                return op == '!='
        if op in ('==', '!='):
            if isinstance(a, SSeq) or isinstance(b, SSeq):
                r = self.seq_eq(a, b)
                return r if op == '==' else self.not_(r)
            i = self.is_(a, b)
            return i if op == '==' else self.not_(i)
        raise Unsupported(f'comparison {op} of {type(a).__name__} and {type(b).__name__}')

    def seq_eq(self, a, b):
        if a is b:
            return True
        if not (isinstance(a, SSeq) and isinstance(b, SSeq) and a.kind == b.kind and a.kind in ('tuple', 'list')) or self.h.loops is None:
            raise Unsupported('sequence equality')
        if not V.CUR.decide(term(a.length) == term(b.length)):
            return False
        return self.h.loops.forall(self, SSeq('iter', a.length, lambda i: self.compare('==', a.elem(i), b.elem(i))), True)

    def not_(self, v):
        if isinstance(v, SBool):
            return mkbool(z3.Not(v.t))
        return not self.truth(v)

    def same_or_eq(self, x, y):
        """element equality of containers"""
        if isintlike(x) and isintlike(y):
            return self.truth(self.compare('==', x, y))
        return self.truth(self.is_(x, y)) or self.truth(self.compare('==', x, y))

    def is_(self, a, b):
        a, b = self.lift(a), self.lift(b)
        if isinstance(a, SType) or isinstance(b, SType):
            return same_type(a, b)
        if isinstance(a, Opaque):
            return a.x_is(b)
        if isinstance(b, Opaque):
            return b.x_is(a)
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            x, y = bterm(a), bterm(b)
            return mkbool(x == y)
        if isinstance(a, SInt) or isinstance(b, SInt):
            if not isinstance(a, (SInt, int)) or not isinstance(b, (SInt, int)):
                return False
            raise Unsupported('identity of ints')
        if isinstance(a, SBool) or isinstance(b, SBool):
            return False
        return a is b

    def unop(self, op, v):
        if op == 'not':
            return self.not_(v)
        if isinstance(v, (SBool, bool)) and not isinstance(v, bool):
            v = mkint(term(v))
        if isinstance(v, (int, SInt)):
            return {'-': operator.neg, '+': operator.pos, '~': operator.invert}[op](v)
        if isinstance(v, SObj):
            n = {'-': '__neg__', '+': '__pos__', '~': '__invert__'}[op]
            f = self.find(v.cls, n)
            if f is MISSING:
                self.raise_(TypeError, f'bad operand type for unary {op}')
            return self.call(self.bind(f, v, v.cls), [])
        if isinstance(v, Opaque):
            return v.x_unop(self, op)
        if is_symbolic(v):
            raise Unsupported(f'unary {op}')
        return self.native({'-': operator.neg, '+': operator.pos, '~': operator.invert}[op], v)

    # ------------------------------------------------------------ sequences
    def as_seq(self, v):
        """SSeq, or a Python iterable of values for concretely shaped things"""
        if isinstance(v, SSeq):
            n = T.num(term(v.length))
            if n is not None and n <= 64:
                return [v.elem(i) for i in range(n)]
            return v
        if isinstance(v, SIter):
            return v.seq if v.gen is None else v.gen
        if isinstance(v, (set, frozenset)) and len(v) > 1 and is_symbolic(v) and not self.h.is_repo_instance(v):
            return self.any_order(v)
        if isinstance(v, (list, tuple, range, dict, set, frozenset, str, types.GeneratorType)) and not self.h.is_repo_instance(v):
            return v
        if isinstance(v, (type({}.keys()), type({}.values()), type({}.items()), zip, map, enumerate, types.MappingProxyType,
                          collections.abc.KeysView)):
            return list(v)
        if isinstance(v, SObj):
            f = self.find(v.cls, '__iter__')
            if f is not MISSING:
                return self.as_seq(self.call(self.bind(f, v, v.cls), []))
            f = self.find(v.cls, '__getitem__')
            if f is not MISSING:
                ln = self.find(v.cls, '__len__')
                raise Unsupported('iteration through __getitem__')
            self.raise_(TypeError, 'not iterable')
        if isinstance(v, Opaque) and hasattr(v, 'x_iter'):
            return v.x_iter(self)
        if is_symbolic(v):
            if isinstance(v, (SInt, SBool)):
                self.raise_(TypeError, 'int is not iterable')
            raise Unsupported(f'iteration over {type(v).__name__}')
        return self.native(iter, v)

    def any_order(self, v):
        """the elements of a set, in an order of the path's choice (the same one every time)"""
        d = V.CUR.cells.setdefault('setorder', {})
        if id(v) not in d or len(d[id(v)][1]) != len(v):
            left, out = list(v), []
            while left:
                k = 0
                while k < len(left) - 1 and not V.CUR.decide(V.CUR.fresh('order', 'bool')):
                    k += 1
                out.append(left.pop(k))
            d[id(v)] = (v, out)
        return list(d[id(v)][1])

    def concrete_list(self, v):
        s = self.as_seq(v)
        if isinstance(s, SSeq):
            raise Unsupported('symbolic-length sequence where a concrete one is needed')
        return [self.lift(x) for x in s]

    def length(self, v):
        if isinstance(v, SSeq):
            return mkint(term(v.length))
        if isinstance(v, SObj):
            f = self.find(v.cls, '__len__')
            if f is MISSING:
                self.raise_(TypeError, 'object has no len()')
            return self.call(self.bind(f, v, v.cls), [])
        if isinstance(v, SType):
            f = None
            for k in type(v.base).__mro__:
                if '__len__' in k.__dict__:
                    f = k.__dict__['__len__']
                    break
            if f is None:
                self.raise_(TypeError, 'no len')
            return self.call(f, [v])
        if isinstance(v, Opaque):
            return v.x_len(self)
        if isinstance(v, SStr):
            raise Unsupported('length of an opaque string')
        if isinstance(v, (SInt, SBool)):
            self.raise_(TypeError, 'int has no len()')
        if isinstance(v, (SFunc, SMethod)):
            self.raise_(TypeError, 'no len')
        return self.native(len, v)

    def slice_indices(self, sl, n):
        """start, step, count for slicing a sequence of length n (CPython's slice.indices)"""
        dec = V.CUR.decide
        step = 1 if sl.step is None else sl.step
        for x in (sl.start, sl.stop, step):
            if x is not None and not isintlike(x):
                if isinstance(x, SObj) and self.find(x.cls, '__index__') is not MISSING:
                    raise Unsupported('__index__ in a slice')
                self.raise_(TypeError, 'slice indices must be integers or None or have an __index__ method')
        N, st = term(n), term(step)
        if dec(st == 0):
            self.raise_(ValueError, 'slice step cannot be zero')
        pos = dec(st > 0)
        lower = z3.IntVal(0) if pos else z3.IntVal(-1)
        upper = N if pos else norm(N - 1)

        def clamp(x, default):
            if x is None:
                return default
            x = term(x)
            if dec(x < 0):
                x = norm(x + N)
                return lower if dec(x < lower) else x
            return upper if dec(x > upper) else x
        start = clamp(sl.start, lower if pos else upper)
        stop = clamp(sl.stop, upper if pos else lower)
        if pos:
            if dec(start >= stop):
                return start, st, z3.IntVal(0)
            if T.num(st) == 1:
                return start, st, norm(stop - start)
            return start, st, norm(T.fdiv(norm(stop - start - 1), st) + 1)
        if dec(stop >= start):
            return start, st, z3.IntVal(0)
        if T.num(st) == -1:
            return start, st, norm(start - stop)
        return start, st, norm(T.fdiv(norm(start - stop - 1), norm(-st)) + 1)

    def seq_slice(self, s, sl):
        if not isinstance(s, SSeq) and not is_symbolic(sl):
            return s[sl]
        n = self.length(s)
        start, step, cnt = self.slice_indices(sl, n)
        if isinstance(s, SSeq):
            el = s.elem
            kind = s.kind
        else:
            raise Unsupported('symbolic slice of a concrete sequence')
        return SSeq(kind, mkint(cnt), lambda i: el(mkint(start + T.mul(step, term(i)))))

    def seq_index(self, s, i):
        n = term(self.length(s))
        t = term(i)
        if V.CUR.decide(t < 0):
            t = norm(t + n)
            if V.CUR.decide(t < 0):
                self.raise_(IndexError, 'index out of range')
        if V.CUR.decide(t >= n):
            self.raise_(IndexError, 'index out of range')
        if isinstance(s, SSeq):
            return s.elem(mkint(t))
        v = T.num(t)
        if v is not None:
            return self.lift(s[v])
        for j in range(len(s)):
            if V.CUR.decide(t == j):
                return self.lift(s[j])
        raise Infeasible_()

    def seq_repeat(self, s, r):
        if not isinstance(s, SSeq) and not is_symbolic(r):
            return s * int(r)
        n = self.length(s)
        rt, nt = term(r), term(n)
        if V.CUR.decide(rt <= 0):
            return SSeq(s.kind, 0, lambda i: None) if isinstance(s, SSeq) else type(s)()
        if isinstance(s, SSeq):
            if V.CUR.decide(nt == 0):
                return SSeq(s.kind, 0, s.elem)
            el = s.elem
            kind = s.kind
            return SSeq(kind, mkint(T.mul(rt, nt)), lambda i: el(mkint(T.fmod(term(i), nt))))
        if len(s) == 0:
            return type(s)()
        L = len(s)
        kind = 'list' if isinstance(s, list) else 'tuple'
        vals = list(s)

        def el(i):
            if L == 1:
                return vals[0]
            j = T.fmod(term(i), z3.IntVal(L))
            for q in range(L - 1):
                if V.CUR.decide(j == q):
                    return vals[q]
            return vals[L - 1]
        return SSeq(kind, mkint(rt * L), el)

    def seq_concat(self, a, b):
        ka = a.kind if isinstance(a, SSeq) else ('list' if isinstance(a, list) else 'tuple')
        kb = b.kind if isinstance(b, SSeq) else ('list' if isinstance(b, list) else 'tuple')
        if ka != kb:
            self.raise_(TypeError, 'can only concatenate sequences of one kind')
        if not isinstance(a, SSeq) and not isinstance(b, SSeq):
            return a + b
        na, nb = term(self.length(a)), term(self.length(b))

        def el(i):
            t = term(i)
            if V.CUR.decide(t < na):
                return self.seq_index(a, mkint(t))
            return self.seq_index(b, mkint(t - na))
        return SSeq(ka, mkint(na + nb), el)

    def getitem(self, v, idx):
        if isinstance(v, SObj):
            f = self.find(v.cls, '__getitem__')
            if f is MISSING:
                self.raise_(TypeError, 'object is not subscriptable')
            return self.call(self.bind(f, v, v.cls), [idx])
        if isinstance(v, Opaque):
            return v.x_getitem(self, idx)
        if isinstance(v, SType) or isinstance(v, type):
            mt = type(v.base) if isinstance(v, SType) else type(v)
            for k in mt.__mro__:
                if '__getitem__' in k.__dict__:
                    f = k.__dict__['__getitem__']
                    if isinstance(f, types.FunctionType):
                        return self.call(f, [v, idx])
                    break
            if isinstance(v, SType):
                self.raise_(TypeError, 'not subscriptable')
            return self.native(operator.getitem, v, idx)
        if isinstance(v, (list, tuple, SSeq)) and not self.h.is_repo_instance(v):
            if isinstance(idx, slice):
                return self.seq_slice(v, idx)
            if isintlike(idx):
                if not isinstance(v, SSeq) and not is_symbolic(idx):
                    return self.native(operator.getitem, v, idx)
                return self.seq_index(v, idx)
            self.raise_(TypeError, 'indices must be integers or slices')
        if isinstance(v, (dict, types.MappingProxyType)):
            if is_symbolic(idx):
                raise Unsupported('dict lookup with a symbolic key')
            return self.native(operator.getitem, v, idx)
        if isinstance(v, (SInt, SBool)):
            self.raise_(TypeError, 'int is not subscriptable')
        if is_symbolic(v):
            raise Unsupported(f'indexing {type(v).__name__}')
        h = self.h.real_getitem(self, v, idx)
        if h is not MISSING:
            return h
        if is_symbolic(idx):
            raise Unsupported('symbolic index into a real object')
        return self.native(operator.getitem, v, idx)

    def setitem(self, v, idx, val):
        if self.havoc and not isinstance(v, Opaque):
            raise Unsupported('item assignment in a loop')
        self.mutating(v)
        if isinstance(v, SObj):
            f = self.find(v.cls, '__setitem__')
            if f is MISSING:
                self.raise_(TypeError, 'object does not support item assignment')
            self.call(self.bind(f, v, v.cls), [idx, val])
            return
        if isinstance(v, Opaque):
            v.x_setitem(self, idx, val)
            return
        if isinstance(v, dict) and (not is_symbolic(idx) or getattr(idx, 'key_by_identity', False)) and type(v) in (dict, __import__('collections').OrderedDict):
            v[idx] = val
            return
        if isinstance(v, list):
            t = term(idx)
            n = T.num(t)
            if n is not None:
                self.native(operator.setitem, v, n, val)
                return
        h = self.h.real_setitem(self, v, idx, val)
        if h is not MISSING:
            return
        if isinstance(v, (__import__('weakref').WeakValueDictionary, __import__('weakref').WeakKeyDictionary)) and not is_symbolic(idx) \
                and not is_symbolic(val):
            self.native(operator.setitem, v, idx, val)
            return
        raise Unsupported(f'item assignment on {type(v).__name__}')

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        self.depth += 1
        if self.depth > 120:
            self.depth -= 1
            raise Unsupported('interpretation too deep')
        try:
            return self._call(f, list(args), kwargs)
        finally:
            self.depth -= 1

    def _call(self, f, args, kwargs):
        if isinstance(f, SMethod):
            return self.call(f.func, [f.self] + args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [self.lift(f.__self__)] + args, kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + args, {**f.keywords, **kwargs})
        c = self.h.contract(self, f, args, kwargs)
        if c is not None:
            r = c(*args, **kwargs)
            if r is not MISSING:
                return r
        x = self.h.external(self, f, args, kwargs)
        if x is not MISSING:
            return x
        if isinstance(f, types.FunctionType):
            if not self.h.interpretable(f):
                if not any(is_symbolic(a) for a in args) and not any(is_symbolic(a) for a in kwargs.values()):
                    if self.h.pure_native(f):
                        return self.native(f, *args, **kwargs)
                raise Unsupported(f'call of {f.__module__}.{f.__qualname__} (no contract)')
            return self.call_function(f, args, kwargs)
        if isinstance(f, SFunc):
            return self.call_sfunc(f, args, kwargs)
        if isinstance(f, Opaque):
            return f.x_call(self, args, kwargs)
        if isinstance(f, SType) or isinstance(f, type):
            return self.construct(f, args, kwargs)
        if isinstance(f, BoundBuiltin):
            return self.h.builtin_method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, types.WrapperDescriptorType) or isinstance(f, types.MethodDescriptorType) or \
                isinstance(f, types.BuiltinFunctionType) or isinstance(f, types.MethodWrapperType) \
                or isinstance(f, (operator.attrgetter, operator.itemgetter)):
            return self.h.builtin(self, f, args, kwargs)
        if isinstance(f, SObj):
            g = self.find(f.cls, '__call__')
            if g is MISSING:
                self.raise_(TypeError, 'object is not callable')
            return self.call(self.bind(g, f, f.cls), args, kwargs)
        g = self.find_on_type(f, '__call__')
        if isinstance(g, types.FunctionType):
            return self.call(g, [f] + args, kwargs)
        if f in (None, NotImplemented) or isintlike(f) or isinstance(f, (str, list, tuple, dict, SStr, SSeq)):
            self.raise_(TypeError, 'object is not callable')
        return self.h.builtin(self, f, args, kwargs)

    def construct(self, cls, args, kwargs):
        cls = self.lift(cls)
        h = self.h.construct_hook(self, cls, args, kwargs)
        if h is not MISSING:
            return h
        if isinstance(cls, type) and not self.h.is_repo_class(cls):
            return self.h.builtin_type(self, cls, args, kwargs)
        mt = type(self.rep(cls))
        for k in mt.__mro__:
            if '__call__' in k.__dict__:
                f = k.__dict__['__call__']
                break
        if isinstance(f, types.FunctionType):
            return self.call(f, [cls] + args, kwargs)
        return self.type_call(cls, args, kwargs)

    def type_call(self, cls, args, kwargs):
        if isinstance(cls, type) and issubclass(cls, type):
            if not is_symbolic(args) and not is_symbolic(kwargs):
                t = self.native(cls, *args, **kwargs)
                self.fresh_classes.add(t)
                return t
            if not isinstance(self.find(cls, '__new__'), (types.FunctionType, staticmethod)) or \
                    isinstance(self.find(cls, '__init__'), types.FunctionType):
                raise Unsupported('class creation')
        new = self.find(cls, '__new__')
        if isinstance(new, staticmethod):
            new = new.__func__
        if isinstance(new, types.FunctionType):
            o = self.call(new, [cls] + args, kwargs)
            if not self.truth(self.isinst(o, cls)):
                return o
        else:
            o = SObj(cls)
        init = self.find(cls, '__init__')
        if isinstance(init, (types.FunctionType, SFunc)):
            r = self.call(init, [o] + args, kwargs)
            if r is not None:
                self.raise_(TypeError, '__init__ should return None')
        elif args or kwargs:
            if not isinstance(new, types.FunctionType):
                self.raise_(TypeError, f'{cls} takes no arguments')
        return o

    def bind_args(self, a, defaults, kwdefaults, args, kwargs, name):
        """Python argument binding; returns dict"""
        out = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        for i, p in enumerate(pos):
            if i < len(args):
                out[p] = args[i]
        if len(args) > len(pos):
            if a.vararg is None:
                self.raise_(TypeError, f'{name}() takes {len(pos)} positional arguments but {len(args)} were given')
            out[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        npos = len(a.posonlyargs)
        for p in pos[npos:]:
            if p in kwargs:
                if p in out:
                    self.raise_(TypeError, f'{name}() got multiple values for argument {p}')
                out[p] = kwargs.pop(p)
        nd = len(defaults)
        for i, p in enumerate(pos):
            if p not in out:
                j = i - (len(pos) - nd)
                if j < 0:
                    self.raise_(TypeError, f'{name}() missing required argument {p}')
                out[p] = defaults[j]
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                out[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                out[x.arg] = kwdefaults[x.arg]
            else:
                self.raise_(TypeError, f'{name}() missing keyword argument {x.arg}')
        if a.kwarg is not None:
            out[a.kwarg.arg] = kwargs
        elif kwargs:
            self.raise_(TypeError, f'{name}() got an unexpected keyword argument {list(kwargs)}')
        return out

    def call_function(self, fn, args, kwargs):
        node = SOURCES.node(fn)
        self.used_functions.add(fn)
        cells = dict(zip(fn.__code__.co_freevars, fn.__closure__ or ()))
        env = Env(None, fn.__globals__, cells, func=fn)
        b = self.bind_args(node.args, fn.__defaults__ or (), fn.__kwdefaults__ or {}, args, kwargs, fn.__name__)
        return self.run_body(node, env, b)

    def call_sfunc(self, f, args, kwargs):
        env = Env(f.env, f.globals, f.env.cells, func=f)
        b = self.bind_args(f.node.args, f.defaults, f.kwdefaults, args, kwargs, f.name)
        return self.run_body(f.node, env, b)

    def run_body(self, node, env, bound):
        env.vars.update({k: self.lift(v) for k, v in bound.items()})
        pos = [x.arg for x in node.args.posonlyargs + node.args.args]
        env.first = pos[0] if pos else None
        if isinstance(node, ast.Lambda):
            env.locals = set(bound)
            return self.ev(node.body, env)
        env.locals = set(bound) | local_names(node.body)
        isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_scope(node.body))
        if isgen:
            env.yields = []
        for n in walk_scope(node.body):
            if isinstance(n, ast.Nonlocal):
                env.nonlocals.update(n.names)
            elif isinstance(n, ast.Global):
                env.globaldecl.update(n.names)
        try:
            self.exec_block(node.body, env)
        except ReturnEx as r:
            if not isgen:
                return r.v
        if isgen and any(isinstance(y, Each) for y in env.yields):
            return YSeq(env.yields)
        if isgen:
            return SIter(gen=iter(env.yields))
        return None

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for s in body:
            self.exec(s, env)

    def exec(self, s, env):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__}')
        m(s, env)

    def x_Pass(self, s, env):
        pass

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def x_Return(self, s, env):
        raise ReturnEx(self.ev(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env):
        raise BreakEx()

    def x_Continue(self, s, env):
        raise ContinueEx()

    def x_Global(self, s, env):
        pass

    x_Nonlocal = x_Global

    def x_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            self.raise_(AssertionError, 'assertion failed')

    def x_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def x_AugAssign(self, s, env):
        op = BINOPS[type(s.op)]
        if isinstance(s.target, ast.Name):
            old = env.lookup(s.target.id)
            put = lambda v: env.assign(s.target.id, v)
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, env)
            old = self.getattr(o, s.target.attr)
            put = lambda v: self.setattr(o, s.target.attr, v)
        else:
            o = self.ev(s.target.value, env)
            i = self.ev(s.target.slice, env)
            old = self.getitem(o, i)
            put = lambda v: self.setitem(o, i, v)
        rhs = self.ev(s.value, env)
        if isinstance(old, list) and op == '+':
            old.extend(self.concrete_list(rhs))
            put(old)
            return
        if isinstance(old, (set, dict)):
            raise Unsupported('in-place set/dict operator')
        if isinstance(old, SObj):
            f = self.find(old.cls, f'__i{DUNDER[op]}__')
            if f is not MISSING:
                r = self.call(self.bind(f, old, old.cls), [rhs])
                if r is not NotImplemented:
                    put(r)
                    return
        put(self.binop(op, old, rhs))

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.assign(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.concrete_list(v)
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                i = stars[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    self.raise_(ValueError, 'not enough values to unpack')
                for x, y in zip(t.elts[:i], vals[:i]):
                    self.assign(x, y, env)
                self.assign(t.elts[i].value, vals[i:len(vals) - after], env)
                for x, y in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(x, y, env)
                return
            if len(vals) != len(t.elts):
                self.raise_(ValueError, 'wrong number of values to unpack')
            for x, y in zip(t.elts, vals):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        else:
            raise Unsupported(f'assignment target {type(t).__name__}')

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.lookup(t.id)
                env.vars.pop(t.id, None)
            else:
                raise Unsupported('del')

    def x_Raise(self, s, env):
        if s.exc is None:
            if not self.exc_stack:
                self.raise_(RuntimeError, 'No active exception to reraise')
            raise PyRaise(self.exc_stack[-1])
        e = self.ev(s.exc, env)
        if s.cause is not None:
            self.ev(s.cause, env)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.call(e, [])
        if isinstance(e, BaseException):
            raise PyRaise(e)
        if isinstance(e, SObj) and issubclass(self.rep(e.cls), BaseException):
            raise PyRaise(e.attrs.get('__native__', None) or self.rep(e.cls)())
        self.raise_(TypeError, 'exceptions must derive from BaseException')

    def x_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyRaise as pr:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        C = self.ev(h.type, env)
                        ok = isinstance(pr.exc, C)
                    if ok:
                        if h.name:
                            env.assign(h.name, pr.exc)
                        self.exc_stack.append(pr.exc)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.exc_stack.pop()
                            if h.name:
                                env.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            if s.finalbody:
                self.exec_block(s.finalbody, env)
            raise
        else:
            if s.finalbody:
                self.exec_block(s.finalbody, env)

    def x_With(self, s, env):
        self.with_items(s.items, s.body, env)

    def with_items(self, items, body, env):
        if not items:
            self.exec_block(body, env)
            return
        it = items[0]
        cm = self.ev(it.context_expr, env)
        enter, exit_ = self.h.context_manager(self, cm)
        v = enter()
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            self.with_items(items[1:], body, env)
        except PyRaise as e:
            if exit_(e.exc):
                return
            raise
        except (ReturnEx, BreakEx, ContinueEx):
            exit_(None)
            raise
        else:
            exit_(None)

    def x_FunctionDef(self, s, env):
        f = self.make_func(s, env, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, env), [f])
        env.assign(s.name, f)

    def make_func(self, node, env, name):
        defaults = tuple(self.ev(d, env) for d in node.args.defaults)
        kwd = {a.arg: self.ev(d, env) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        return SFunc(node, env, name, name, defaults, kwd, env.globals)

    def x_Import(self, s, env):
        import importlib
        for a in s.names:
            m = self.native(importlib.import_module, a.name)
            if a.asname:
                env.assign(a.asname, m)
            else:
                env.assign(a.name.split('.')[0], importlib.import_module(a.name.split('.')[0]))

    def x_ImportFrom(self, s, env):
        import importlib
        pkg = env.globals.get('__package__') or env.globals.get('__name__', '').rpartition('.')[0]
        name = ('.' * s.level + (s.module or '')) if s.level else s.module
        m = self.native(importlib.import_module, name, pkg)
        for a in s.names:
            if not hasattr(m, a.name):
                self.raise_(ImportError, a.name)
            env.assign(a.asname or a.name, getattr(m, a.name))

    def x_ClassDef(self, s, env):
        raise Unsupported('class definition inside a function')

    def x_While(self, s, env):
        n = 0
        forks = 0
        while True:
            k = len(V.CUR.dec)
            c = self.ev(s.test, env)
            if not self.truth(c):
                break
            n += 1
            if n > 70:
                raise Unsupported('loop without invariant')
            if len(V.CUR.dec) > k and self.h.loops is not None and not memoryless(s) and self.h.loops.while_closed(self, s, env):
                break
            if forks >= 2 and memoryless(s):
                if self.memoryless_while(s, env):
                    return
                break
            try:
                self.exec_block(s.body, env)
            except BreakEx:
                return
            except ContinueEx:
                continue
            finally:
                forks += len(V.CUR.dec) > k
        self.exec_block(s.orelse, env)

    def memoryless_while(self, s, env):
        """A loop whose iterations do not depend on earlier ones (every variable
        the body assigns is assigned before it is read; no writes to the heap):
        after some further iteration the state is that after one iteration from
        an unknown state.  True: left by break, False: the test failed."""
        names = local_names(s.body) | local_names([ast.Expr(value=s.test)])
        for x in names:
            env.assign(x, POISON)
        old = self.havoc
        self.havoc = True
        try:
            self.exec_block(s.body, env)
        except BreakEx:
            return True
        except ContinueEx:
            pass
        finally:
            self.havoc = old
        if self.truth(self.ev(s.test, env)):
            raise Infeasible_()
        return False

    havoc = False
    guards = ()

    def mutating(self, o):
        """o is about to change: not inside an iteration that stands for all, unless o belongs to the iteration"""
        for g in self.guards:
            if id(o) in g:
                raise Unsupported('change, in a loop, of an object that outlives the iteration')

    def generic(self, roots, fn, allowed=()):
        """fn() for an iteration that stands for all: the objects reachable from roots stay as they are"""
        seen = {}
        todo = list(roots)
        while todo:
            x = todo.pop()
            if id(x) in seen:
                continue
            if isinstance(x, Env):
                e = x
                while e is not None and id(e) not in seen:
                    seen[id(e)] = e
                    todo.extend(e.vars.values())
                    e = e.parent
                continue
            if isinstance(x, (list, tuple, set)):
                seen[id(x)] = x
                todo.extend(x)
            elif isinstance(x, dict):
                seen[id(x)] = x
                todo.extend(x.values())
            elif isinstance(x, (SObj, SFunc)):
                seen[id(x)] = x
                todo.extend(x.attrs.values())
                if isinstance(x, SFunc) and getattr(x, 'env', None) is not None:
                    todo.append(x.env)
            elif isinstance(x, SMethod):
                seen[id(x)] = x
                todo += [x.func, x.self]
            if len(seen) > 4000:
                raise Unsupported('too many objects around a loop')
        for x in allowed:
            seen.pop(id(x), None)
        old = self.guards
        self.guards = old + (seen,)
        try:
            return fn()
        finally:
            self.guards = old

    def x_For(self, s, env):
        it = self.as_seq(self.ev(s.iter, env))
        if isinstance(it, SSeq):
            if self.h.loops is None:
                raise Unsupported('loop over a symbolic sequence')
            self.h.loops.for_loop(self, s, env, it)
            return
        for v in it:
            self.assign(s.target, self.lift(v), env)
            try:
                self.exec_block(s.body, env)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.exec_block(s.orelse, env)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.lift(self.h.global_read(self, env, e.id, env.lookup(e.id)))

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), self.mangle(e.attr, env))

    def mangle(self, name, env):
        return name

    def e_Subscript(self, e, env):
        return self.getitem(self.ev(e.value, env), self.ev(e.slice, env))

    def e_Slice(self, e, env):
        f = lambda x: None if x is None else self.ev(x, env)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_BinOp(self, e, env):
        return self.binop(BINOPS[type(e.op)], self.ev(e.left, env), self.ev(e.right, env))

    def e_UnaryOp(self, e, env):
        op = {ast.Not: 'not', ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(e.op)]
        return self.unop(op, self.ev(e.operand, env))

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            if isinstance(v, SBool) and self.pure_rest(e.values[i + 1:]):
                # keep purely boolean connectives symbolic
                vals = [v]
                rest = e.values[i + 1:]
                try:
                    sub = [self.ev_pure_bool(y, env, vals, isand) for y in rest]
                except Unsupported:
                    sub = None
                if sub is not None:
                    ts = [bterm(v)] + sub
                    return mkbool(z3.And(*ts) if isand else z3.Or(*ts))
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, SBool) else False
            if not isand and t:
                return v if not isinstance(v, SBool) else True
        return v

    def pure_rest(self, nodes):
        return False

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = None
        acc = []
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env)
            res = self.cmp1(op, left, right)
            if i < len(e.ops) - 1:
                if not self.truth(res):
                    return res if not isinstance(res, SBool) else False
            left = right
        return res

    def cmp1(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.not_(self.is_(a, b))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else self.not_(r)
        return self.compare(CMPOPS[type(op)], a, b)

    def contains(self, c, x):
        if isinstance(c, SObj) or isinstance(c, SType) or (isinstance(c, type) and not isinstance(c, SObj)):
            t = self.typeof(c)
            f = self.find(t, '__contains__')
            if f is not MISSING:
                return self.boolval(self.call(self.bind(f, c, t), [x]))
            raise Unsupported('containment')
        if isinstance(c, Opaque):
            return c.x_contains(self, x)
        if isinstance(c, SSeq):
            return self.h.seq_contains(self, c, x)
        if isinstance(c, (set, frozenset, dict, list, tuple, types.MappingProxyType)) and not self.h.is_repo_instance(c):
            if not is_symbolic(x) and not is_symbolic(c) and not self.h.is_repo_instance(x):
                return self.native(operator.contains, c, x)
            if isintlike(x) and all(isintlike(y) for y in c):
                if isinstance(x, (SInt, SBool)) or is_symbolic(c):
                    return mkbool(z3.Or(*[term(x) == term(y) for y in c]) if len(c) else False)
            for y in c:
                if self.same_or_eq(x, y):
                    return True
            return False
        h = self.h.real_contains(self, c, x)
        if h is not MISSING:
            return h
        if is_symbolic(c) or is_symbolic(x):
            raise Unsupported('containment with symbolic values')
        return self.native(operator.contains, c, x)

    def e_IfExp(self, e, env):
        return self.ev(e.body, env) if self.truth(self.ev(e.test, env)) else self.ev(e.orelse, env)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return self.elts(e.elts, env)

    def e_Set(self, e, env):
        v = self.elts(e.elts, env)
        if any(is_symbolic(x) for x in v):
            return tuple(v)     # only membership is meaningful
        return set(v)

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_list(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                kk = self.ev(k, env)
                if is_symbolic(kk) and not getattr(kk, 'key_by_identity', False):
                    raise Unsupported('symbolic dict key')
                d[kk] = self.ev(v, env)
        return d

    def e_Lambda(self, e, env):
        return self.make_func(e, env, '<lambda>')

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        if f is super and not e.args:
            first = env
            while first.first is None and first.parent is not None:
                first = first.parent
            cls = env.lookup('__class__')
            return SSuper(cls, first.vars[first.first])
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.as_seq(self.ev(a.value, env))
                args.extend([self.h.star(self, f, v)] if isinstance(v, SSeq) else [self.lift(x) for x in v])
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if isinstance(d, types.MappingProxyType):
                    d = dict(d)
                if not isinstance(d, dict):
                    h = self.h.as_kwargs(self, d)
                    d = h
                kwargs.update(d)
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kwargs)

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                parts.append(self.h.fmt(self, x, v.conversion))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return SStr(*parts)

    def e_FormattedValue(self, e, env):
        return self.h.fmt(self, self.ev(e.value, env), e.conversion)

    def comp_env(self, env):
        return Env(env)

    def comprehension(self, e, env, elt):
        """Python generator of values, or SSeq for one symbolic generator"""
        gens = e.generators
        it0 = self.as_seq(self.ev(gens[0].iter, env))
        if isinstance(it0, SSeq):
            if len(gens) > 1 or gens[0].ifs:
                raise Unsupported('filtered/nested comprehension over a symbolic sequence')
            src = it0

            def el(i):
                ce = Env(env)

                def go():
                    self.assign(gens[0].target, src.elem(i), ce)
                    return elt(ce)
                return self.generic([env], go)
            return SSeq('iter', src.length, el)

        def run():
            def rec(k, ce):
                if k == len(gens):
                    yield elt(ce)
                    return
                g = gens[k]
                it = it0 if k == 0 else self.as_seq(self.ev(g.iter, ce))
                if isinstance(it, SSeq):
                    raise Unsupported('nested comprehension over a symbolic sequence')
                for v in it:
                    c2 = Env(ce)
                    self.assign(g.target, self.lift(v), c2)
                    if all(self.truth(self.ev(c, c2)) for c in g.ifs):
                        yield from rec(k + 1, c2)
            yield from rec(0, Env(env))
        return run()

    def check_elem(self, s, what):
        """Eagerly evaluated comprehension: no element may raise."""
        p = V.CUR
        iv = p.fresh('ce')
        res = p.sub_explore(lambda: s.elem(SInt(iv)), [iv >= 0, iv < term(s.length)])
        for conds, k, v in res:
            if k == 'exc':
                raise Unsupported(f'{what}: element evaluation may raise {v!r}')
        return s

    def e_ListComp(self, e, env):
        r = self.comprehension(e, env, lambda ce: self.ev(e.elt, ce))
        if isinstance(r, SSeq):
            return SSeq('list', r.length, self.check_elem(r, 'list comprehension').elem)
        return list(r)

    def e_GeneratorExp(self, e, env):
        r = self.comprehension(e, env, lambda ce: self.ev(e.elt, ce))
        if isinstance(r, SSeq):
            return r
        return SIter(gen=r)

    def e_SetComp(self, e, env):
        r = self.comprehension(e, env, lambda ce: self.ev(e.elt, ce))
        if isinstance(r, SSeq):
            raise Unsupported('set comprehension over a symbolic sequence')
        v = list(r)
        if any(is_symbolic(x) for x in v):
            raise Unsupported('symbolic set')
        return set(v)

    def e_DictComp(self, e, env):
        r = self.comprehension(e, env, lambda ce: (self.ev(e.key, ce), self.ev(e.value, ce)))
        if isinstance(r, SSeq):
            return self.h.dict_of_seq(self, r)
        d = {}
        for k, v in r:
            if is_symbolic(k) and not getattr(k, 'key_by_identity', False):
                raise Unsupported('symbolic dict key')
            d[k] = v
        return d

    def e_Starred(self, e, env):
        raise Unsupported('starred expression')

    def e_Yield(self, e, env):
        en = env
        while en.yields is None and en.parent is not None:
            en = en.parent
        en.yields.append(self.ev(e.value, env) if e.value is not None else None)
        return None

    def e_YieldFrom(self, e, env):
        en = env
        while en.yields is None and en.parent is not None:
            en = en.parent
        v = self.ev(e.value, env)
        if isinstance(v, YSeq):
            en.yields.extend(v.items)
            return None
        v = self.as_seq(v)
        if isinstance(v, SSeq):
            self.each(env, term(v.length), lambda i: en.yields.append(v.elem(i)))
        else:
            en.yields.extend(self.lift(x) for x in v)
        return None

    def each(self, env, n, fn):
        """what a generator yields in fn(0) … fn(n-1), shown by an arbitrary one of them"""
        en = env
        while en.yields is None and en.parent is not None:
            en = en.parent
        p = V.CUR
        if not p.decide(n > 0):
            return
        k = p.fresh('e')
        p.assume(k >= 0)
        p.assume(k < n)
        p.witness = p.witness + [k]
        saved, en.yields = en.yields, []
        try:
            fn(SInt(k))
            got = en.yields
        finally:
            en.yields = saved
        en.yields.append(Each(n, k, got))


def Infeasible_():
    from .engine import Infeasible
    return Infeasible()


def walk_scope(body):
    """nodes of a function body without nested function scopes"""
    st = list(body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            pass
        st.extend(ast.iter_child_nodes(n))
