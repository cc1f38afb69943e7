"""Values of arbitrary type inside algebraic data types.

An AVal is any Python object: its class, what it is an instance of and what it
equals are unknown (isinstance is an arbitrary relation consistent with the
real subclass relation of the classes involved, == an arbitrary equivalence,
hash a function of it).  The record and union classes themselves are the real
ones, created by the real metaclasses over the field classes of adthelp."""
import builtins
import z3
import hwtypes.adt_meta as AM
from . import theory as T
from . import values as V
from . import verify
from .values import *
from .interp import SOURCES

I = T.I
CLS = z3.Function('cls', I, I)              # value id -> class id
EQV = z3.Function('eqv', I, I)              # value id -> equality class
HASH = z3.Function('hashof', I, I)
SUB = z3.Function('issub', I, I, z3.BoolSort())
IDS = {}
KEEP = []


def class_id(c):
    if id(c) not in IDS:
        IDS[id(c)] = len(IDS)
        KEEP.append(c)
    return IDS[id(c)]


class AType(Opaque):
    """the class of a value"""

    def __init__(self, t):
        self.t = t

    def x_type(self):
        return type

    def x_isinstance(self, C):
        if C is type or C is object:
            return True
        return mkbool(z3.Bool(f'metaclass!{class_id(C)}'))

    def eq(self, o):
        if isinstance(o, AType):
            return mkbool(self.t == o.t)
        if isinstance(o, SType):
            return mkbool(z3.BoolVal(False))
        if isinstance(o, type):
            known(o)
            return mkbool(self.t == class_id(o))
        return False

    x_is = eq

    def x_binop(self, ip, op, o, reflected):
        if op == '==':
            return self.eq(o)
        if op == '!=':
            return ip.not_(self.eq(o))
        return NotImplemented

    def x_getattr(self, ip, name):
        if name in ('__name__', '__qualname__', '__module__'):
            return SStr(('obj', self))
        raise Unsupported(f'attribute {name} of an unknown class')

    def x_issub(self, ip, c, C):
        if c is self and isinstance(C, type):
            return inst_of_class(self.t, C)
        raise Unsupported('subclass of an unknown class')


def fact(p, f):
    """something true whatever the path"""
    p.pc.append(f)
    p.cells.setdefault('facts', []).append(f)


def known(C):
    """facts about the real class C"""
    p = V.CUR
    d = p.cells.setdefault('classes', {})
    if id(C) in d:
        return
    d[id(C)] = C
    c = class_id(C)
    for D in list(d.values()):
        k = class_id(D)
        for a, b, x, y in ((c, k, C, D), (k, c, D, C)):
            f = SUB(z3.IntVal(a), z3.IntVal(b))
            fact(p, f if issubclass(x, y) else z3.Not(f))
    for t in p.cells.setdefault('atypes', []):
        relate(p, t, c)


def relate(p, t, c):
    """what holds of the subclass relation between an unknown class t and the known ones"""
    d = p.cells['classes']
    C = next(x for x in d.values() if class_id(x) == c)
    for D in d.values():
        k = class_id(D)
        # equality with a known class determines everything
        fact(p, z3.Implies(t == k, SUB(t, z3.IntVal(c)) == z3.BoolVal(issubclass(D, C))))
        if D is C:
            continue
        fact(p, z3.Implies(t == c, SUB(t, z3.IntVal(k)) == z3.BoolVal(issubclass(C, D))))
        for A, B in ((C, D), (D, C)):
            if issubclass(A, B):
                fact(p, z3.Implies(SUB(t, z3.IntVal(class_id(A))), SUB(t, z3.IntVal(class_id(B)))))


def inst_of_class(t, C):
    if C is object:
        return True
    known(C)
    return mkbool(SUB(t, z3.IntVal(class_id(C))))


class AVal(Opaque):
    key_by_identity = True

    def __init__(self, name):
        self.name = name
        self.t = z3.Int(name)
        p = V.CUR
        c = CLS(self.t)
        d = p.cells.setdefault('atypes', [])
        if not any(x.eq(c) for x in d):
            d.append(c)
            for C in list(p.cells.setdefault('classes', {}).values()):
                relate(p, c, class_id(C))

    def __repr__(self):
        return self.name

    def x_type(self):
        return AType(CLS(self.t))

    def x_isinstance(self, C):
        C = V.CUR.E.ip.lift(C)
        if isinstance(C, SType):
            return mkbool(z3.Bool(f'inst!{self.name}!{C.base.__name__}'))
        return inst_of_class(CLS(self.t), C)

    def x_is(self, o):
        if o is self:
            return True
        if isinstance(o, AVal):
            return mkbool(self.t == o.t)
        if o is None:
            known(type(None))
            return mkbool(CLS(self.t) == class_id(type(None)))
        return False

    def eq(self, o):
        if isinstance(o, AVal):
            V.CUR.pc.append(z3.Implies(self.t == o.t, EQV(self.t) == EQV(o.t)))
            return mkbool(EQV(self.t) == EQV(o.t))
        return None

    def x_binop(self, ip, op, o, reflected):
        if op in ('==', '!='):
            r = self.eq(o)
            if r is None:
                if o is None:
                    r = False
                else:
                    return NotImplemented
            return r if op == '==' else ip.not_(r)
        return NotImplemented

    def x_truth(self, ip):
        return V.CUR.decide(z3.Bool(f'truthy!{self.name}'))

    def x_hash(self, ip):
        return SInt(HASH(EQV(self.t)))

    def x_getattr(self, ip, name):
        raise Unsupported(f'attribute {name} of an arbitrary value')


_n = [0]


def recording_exec(src, gs=None, ls=None):
    """exec that keeps the text of generated functions for the verifier"""
    if isinstance(src, str):
        _n[0] += 1
        fn = f'<generated {_n[0]}>'
        SOURCES.override[fn] = src
        src = compile(src, fn, 'exec')
    builtins.exec(src, gs, ls)


AM.exec = recording_exec
from . import adthelp as AH     # after recording_exec: its classes have generated methods


class A:
    """adapter: arbitrary values for specifications"""

    def __init__(self, E):
        self.E = E
        self.objects = self.pool()           # one pool a run: values may be one and the same object, or equal ones

    def val(self, name):
        """any object; concretely one of a pool"""
        return self.pick(name)

    def pick(self, name, C=object):
        E = self.E
        if E.symbolic:
            return AVal(name)
        pool = [v for v in self.objects if isinstance(v, C)]
        i = E.src.choice(name + '!', len(pool))
        E.inputs[name + '!'] = i
        return pool[i % len(pool)]

    @staticmethod
    def pool():
        return [AH.FA(0), AH.FA(1), AH.FB(0), AH.FB(1), AH.FC(0), AH.FC(1), AH.FA2(0), AH.FA2(1), AH.Val(0), 3, 'x', None, AH.FA(0), AH.FB(1), AH.FA(-1), AH.FA(-2), AH.FB(-1), AH.FB(-2), -1, -2]

    def isinst(self, v, C):
        return v.x_isinstance(C) if self.E.symbolic else isinstance(v, C)

    def is_type(self, v, C):
        """type(v) is C"""
        return v.x_type().eq(C) if self.E.symbolic else type(v) is C

    def eq(self, v, w):
        return v.eq(w) if self.E.symbolic else v == w

    def some(self, name, C):
        """any instance of C"""
        v = self.pick(name, C)
        self.E.require(self.isinst(v, C))
        return v


def register(h):
    h.helper_modules.add(AH.__name__)


verify.EXTRA_DOMAINS.append(__import__('sys').modules[__name__])
