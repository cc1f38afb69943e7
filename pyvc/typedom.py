"""Types built from types, for arbitrary components and any number of fields.

A CType is any type (or other object) used as a component: what it is a subclass of, an instance of, and what
rebinding/stripping/pushing makes of it are unknown functions of it.  A BType is any bound type of one kind
(Tuple, AnonymousProduct, Product, Sum, TaggedUnion, Enum) with an arbitrary list of fields.  Recursive calls on a
component are the unknown functions: the case that uses them proves the step of an induction on nesting."""
import collections
import inspect
import itertools
import types
import z3
import hwtypes.adt_util as AU
import hwtypes.modifiers as MO
from hwtypes.adt_meta import BoundMeta
from hwtypes.adt import Tuple, Product, AnonymousProduct, Sum, TaggedUnion, Enum
from . import theory as T
from . import values as V
from . import verify
from . import smath as M
from .values import *
from .adtdom import AType, AVal, SUB, CLS, known, fact, relate, inst_of_class, class_id
from . import adthelp as AH
from . import clsdom
from .namedom import Fn
from .interp import MISSING
from .loops import Loops
from .theory import norm

I = T.I
B = z3.BoolSort()
ISCLASS = z3.Function('isclass', I, B)
# what the recursive calls return
REBIND = z3.Function('rebind', I, I, I, I, I, I)       # component, A, B, sub-types?, recursive?
RBV = z3.Function('rebind_bitvector', I, I, I, I, I)
RTYPE = z3.Function('rebind_type', I, I, I)            # component, family
RKEEP = z3.Function('rebind_keep_modifiers', I, I, I, I)
STRIP = z3.Function('strip_modifiers', I, I)
PUSH = z3.Function('push_modifiers', I, I, I)
WRAP = z3.Function('wrap_modifier', I, I, I)
CAT = z3.Function('list-cat', I, I, I)
KINDS = {'tuple': Tuple[AH.FA], 'anon': AnonymousProduct[{'x': AH.FA}], 'product': AH.P1, 'sum': Sum[AH.FA], 'union': AH.U1, 'enum': AH.E2}
ROOT = {'tuple': Tuple, 'anon': AnonymousProduct, 'product': Product, 'sum': Sum, 'union': TaggedUnion, 'enum': Enum}
NAMED = ('anon', 'product', 'union')                  # field_dict has names


def term_of(x):
    """the identity of a type"""
    if isinstance(x, (CType, BType, MType)):
        return x.t
    if isinstance(x, type):
        known(x)
        return z3.IntVal(class_id(x))
    raise Unsupported(f'identity of {type(x).__name__}')


def track(t):
    """t takes part in the subclass relation with the known classes"""
    p = V.CUR
    d = p.cells.setdefault('atypes', [])
    if not any(x.eq(t) for x in d):
        d.append(t)
        for C in list(p.cells.setdefault('classes', {}).values()):
            relate(p, t, class_id(C))


def flag(x):
    return z3.If(bterm(x), z3.IntVal(1), z3.IntVal(0))


class CType(Opaque):
    key_by_identity = True

    def __init__(self, t):
        self.t = t
        track(t)
        track(CLS(t))

    def __repr__(self):
        return f'<{self.t}>'

    def x_type(self):
        return AType(CLS(self.t))

    def x_isinstance(self, C):
        if C is type:
            return mkbool(ISCLASS(self.t))
        return inst_of_class(CLS(self.t), C) if isinstance(C, type) else mkbool(SUB(CLS(self.t), term_of(C)))

    def x_issub(self, ip, c, C):
        if not V.CUR.decide(ISCLASS(term_of(c))):
            ip.raise_(TypeError, 'issubclass() arg 1 must be a class')
        if C is object or C is c:
            return True
        if isinstance(C, type) and not isinstance(c, type):
            if hasattr(type(C), '__subclasscheck__') and type(C).__subclasscheck__ is not type.__subclasscheck__ and not isinstance(C, __import__('abc').ABCMeta):
                raise Unsupported('subclass check of its own')
            return inst_of_class(term_of(c), C)
        return mkbool(z3.Or(term_of(c) == term_of(C), SUB(term_of(c), term_of(C))))

    def eq(self, o):
        if isinstance(o, (CType, BType, MType)):
            return mkbool(self.t == o.t)
        if isinstance(o, type):
            return mkbool(self.t == term_of(o))
        return None

    def x_is(self, o):
        if o is self:
            return True
        r = self.eq(o)
        return False if r is None else r

    def x_binop(self, ip, op, o, reflected):
        if op in ('==', '!='):
            r = self.eq(o)
            if r is None:
                return NotImplemented
            return r if op == '==' else ip.not_(r)
        return NotImplemented

    def x_truth(self, ip):
        raise Unsupported('truth of an arbitrary type')

    def x_call(self, ip, args, kwargs):
        return Inst(self, args, kwargs)

    def x_getattr(self, ip, name):
        if name == 'enumerate':
            def enum():
                ip.used_contracts.add('induction.enumerate')
                return enumeration(self.t)
            return Fn(enum)
        if name == 'rebind':
            def rebind(A, B, rebind_sub_types=False, rebind_recursive=True):
                ip.used_contracts.add('induction.rebind')
                return CType(REBIND(self.t, term_of(A), term_of(B), flag(rebind_sub_types), flag(rebind_recursive)))
            return Fn(rebind)
        if name in ('__name__', '__qualname__', '__module__'):
            return SStr(('obj', self))
        raise Unsupported(f'attribute {name} of an arbitrary type')


class EVal(Opaque):
    """the i-th value of a component type"""

    def __init__(self, t, i):
        self.t, self.i = t, term(i)


def enumeration(t):
    n = z3.Function('enumerate-len', I, I)(t)
    V.CUR.assume(n >= 0)
    return SSeq('iter', mkint(n), lambda i: EVal(t, i))


class StarArgs(Opaque):
    """*seq for a sequence of any length"""

    def __init__(self, seq):
        self.seq = seq


class Combo(Opaque):
    """the i-th tuple of itertools.product(*seq)"""

    def __init__(self, seq, i):
        self.seq, self.i = seq, term(i)

    def x_iter(self, ip):
        s = self.seq
        r = SSeq('tuple', s.length, lambda j: self.pick(ip, j))
        r.combo = self
        return r

    def pick(self, ip, j):
        raise Unsupported('entry of a combination')


def product(ip, *a, **k):
    if len(a) == 1 and isinstance(a[0], StarArgs) and not k:
        n = V.CUR.fresh('combos')
        V.CUR.assume(n >= 0)
        s = a[0].seq
        return SSeq('iter', mkint(n), lambda i: Combo(s, i))
    return MISSING


class LType(CType):
    """any type that is no algebraic data type"""

    def x_isinstance(self, C):
        if isinstance(C, type) and (issubclass(C, type) and C is not type or C.__module__.startswith('hwtypes')):
            if any(isinstance(R, C) for R in list(ROOT.values()) + list(KINDS.values())):
                return False
        return super().x_isinstance(C)

    def x_issub(self, ip, c, C):
        if c is self and isinstance(C, type) and any(issubclass(C, R) for R in ROOT.values()):
            return False
        return super().x_issub(ip, c, C)

    def x_getattr(self, ip, name):
        if name in ('unbound_t', 'fields', 'field_dict', 'is_bound', 'rebind', '_fields_', '_field_table_', '_unbound_base_', 'from_fields', '_syntax_'):
            ip.raise_(AttributeError, name)
        return super().x_getattr(ip, name)


class Member(LType):
    """a member of an enumerated type"""

    def x_isinstance(self, C):
        return False if C is type else super().x_isinstance(C)

    def x_issub(self, ip, c, C):
        if c is self:
            ip.raise_(TypeError, 'issubclass() arg 1 must be a class')
        return super().x_issub(ip, c, C)


class Key(Opaque):
    """name of the i-th field"""
    key_by_identity = True

    def __init__(self, i):
        self.i = term(i)

    def x_type(self):
        return str

    def x_isinstance(self, C):
        return isinstance(C, type) and issubclass(str, C)

    def x_binop(self, ip, op, o, reflected):
        if op in ('==', '!=') and isinstance(o, Key):
            r = mkbool(self.i == o.i)
            return r if op == '==' else ip.not_(r)
        return NotImplemented

    def x_is(self, o):
        return mkbool(self.i == o.i) if isinstance(o, Key) else False


class AMap(Opaque):
    """a mapping with n entries: Key(0) … Key(n-1) in this order"""

    def __init__(self, n, elem, indexed=False):
        self.n, self.elem, self.indexed = n, elem, indexed

    def key(self, i):
        return mkint(term(i)) if self.indexed else Key(i)

    def seq(self, f):
        return SSeq('iter', mkint(self.n), f)

    def x_type(self):
        return types.MappingProxyType

    def x_isinstance(self, C):
        return isinstance(C, type) and issubclass(types.MappingProxyType, C)

    def x_iter(self, ip):
        return self.seq(self.key)

    def x_len(self, ip):
        return mkint(self.n)

    def x_truth(self, ip):
        return V.CUR.decide(self.n > 0)

    def x_getitem(self, ip, k):
        if self.indexed and isintlike(k):
            if not V.CUR.decide(z3.And(term(k) >= 0, term(k) < self.n)):
                ip.raise_(KeyError, 'index')
            return self.elem(k)
        if not self.indexed and isinstance(k, Key):
            return self.elem(mkint(k.i))
        raise Unsupported('lookup of another key')

    def x_contains(self, ip, k):
        if not self.indexed and isinstance(k, Key):
            return True
        raise Unsupported('containment')

    def x_getattr(self, ip, name):
        if name == 'items':
            return Fn(lambda: self.seq(lambda i: (self.key(i), self.elem(i))))
        if name == 'values':
            return Fn(lambda: self.seq(self.elem))
        if name == 'keys':
            return Fn(lambda: self.seq(self.key))
        if name == 'get':
            return Fn(lambda k, d=None: self.x_getitem(ip, k))
        if name == 'copy':
            return Fn(lambda: self)
        raise Unsupported(f'mapping.{name}')

    def x_binop(self, ip, op, o, reflected):
        if op in ('==', '!=') and isinstance(o, AMap):
            if o.indexed != self.indexed or not o.n.eq(self.n):
                raise Unsupported('comparison of unrelated mappings')
            r = ip.h.loops.forall(ip, SSeq('iter', mkint(self.n), lambda i: ip.compare('==', self.elem(i), o.elem(i))), True)
            return r if op == '==' else ip.not_(r)
        return NotImplemented


def as_map(m):
    if isinstance(m, AMap):
        return m
    if isinstance(m, dict) and not m:
        return AMap(z3.IntVal(0), None)
    raise Unsupported('concrete fields')


class UType(Opaque):
    """the unbound type a BType was made from"""

    def __init__(self, kind, name):
        self.kind, self.name = kind, name

    def x_type(self):
        return type(KINDS[self.kind])

    def x_getitem(self, ip, idx):
        if self.kind == 'enum' or self.kind in ('product', 'union'):
            ip.raise_(TypeError, 'bound with getitem')
        if self.kind == 'anon':
            idx = as_map(idx)
            if idx.indexed:
                raise Unsupported('fields of an anonymous product')
            return Made(self, idx)
        idx = ip.as_seq(idx)
        if isinstance(idx, SSeq):
            return Made(self, AMap(term(idx.length), idx.elem, True))
        if isinstance(idx, (tuple, list)) and not idx:
            return Made(self, AMap(z3.IntVal(0), None, True))
        raise Unsupported('binding a concrete list of fields')

    def x_getattr(self, ip, name):
        if name == 'from_fields' and self.kind in ('product', 'union'):
            def ff(name, fields, cache=None):
                fields = as_map(fields)
                if fields.indexed:
                    raise Unsupported('fields')
                return Made(self, fields, name, True if cache is None else cache)
            return Fn(ff)
        if name == '__getitem__':
            return Fn(lambda i: self.x_getitem(ip, i))
        raise Unsupported(f'unbound type .{name}')


class Made(Opaque):
    """the type that binding u to these fields makes (unique: C21)"""

    def __init__(self, u, fields, name=None, cache=None):
        self.u, self.map, self.name, self.cache = u, fields, name, cache

    def x_is(self, o):
        return self is o

    def view(self):
        """the same type, by its fields"""
        if not hasattr(self, 'v'):
            k = next(_made)
            self.v = BType(self.u.kind, f'made{k}', self.map.elem, self.map.n, self.u, self.name, self.cache)
        return self.v

    def x_getattr(self, ip, name):
        return self.view().x_getattr(ip, name)

    def x_isinstance(self, C):
        return self.view().x_isinstance(C)

    def x_type(self):
        return self.view().x_type()

    def x_issub(self, ip, c, C):
        return self.view().x_issub(ip, self.view() if c is self else c, self.view() if C is self else C)


_made = __import__('itertools').count()


class BType(Opaque):
    """a bound type of the given kind with any fields"""
    key_by_identity = True

    def __init__(self, kind, name='T', elem=None, n=None, u=None, ename=None, cached=None):
        self.kind, self.name = kind, name
        self.rep = KINDS[kind]
        self.t = z3.Int(f'{name}!id')
        self.u = u or UType(kind, name)
        if n is None:
            n = z3.Int(f'{name}!n')
            V.CUR.assume(n >= (1 if kind in ('product', 'union', 'enum') else 0))    # without fields they are unbound
        f = z3.Function(f'{name}!field', I, I)
        self.n = n
        self.elem = elem or (lambda i: CType(f(term(i))))
        self.ename = SStr(('obj', self)) if ename is None else ename
        self.cached = mkbool(z3.Bool(f'{name}!cached')) if cached is None else cached

    @property
    def map(self):
        return AMap(self.n, self.elem, self.kind not in NAMED)

    def x_type(self):
        return type(self.rep)

    def x_isinstance(self, C):
        return isinstance(self.rep, C) if isinstance(C, type) else mkbool(z3.Bool(f'metatype!{C.t}'))

    def x_issub(self, ip, c, C):
        if c is not self:
            return mkbool(z3.Or(term_of(c) == self.t, SUB(term_of(c), self.t)))
        if C is self or C is object:
            return True
        if isinstance(C, type):
            return issubclass(self.rep, C)
        return mkbool(z3.Or(self.t == term_of(C), SUB(self.t, term_of(C))))

    def x_is(self, o):
        return mkbool(self.t == o.t) if isinstance(o, CType) else self is o

    def x_binop(self, ip, op, o, reflected):
        if op in ('==', '!=') and isinstance(o, (CType, BType, MType, type)):
            r = self.x_is(o)
            return r if op == '==' else ip.not_(r)
        return NotImplemented

    def x_getattr(self, ip, name):
        if name == 'fields':
            f = z3.Function(f'{self.name}!member', I, I)
            return SSeq('tuple', mkint(self.n), self.elem if self.kind != 'enum' else lambda i: Member(f(term(i))))
        if name == 'field_dict' and self.kind not in ('enum', 'sum'):
            return self.map
        if name == 'field_dict' and self.kind == 'sum':
            return SumMap(self)
        if name == 'unbound_t':
            return self.u
        if name in ('__name__', '__qualname__'):
            return self.ename
        if name == 'is_cached':
            return self.cached
        if name == 'is_bound':
            return True
        mcs = type(self.rep)
        f = ip.find(mcs, name)
        if isinstance(f, types.FunctionType):
            return ip.bind(f, self, mcs)
        if isinstance(f, property):
            return ip.call(f.fget, [self])
        raise Unsupported(f'attribute {name} of a bound type')

    def x_call(self, ip, args, kwargs):
        return Inst(self, args, kwargs)


class SumMap(AMap):
    """field_dict of a Sum: the fields themselves are the keys"""

    def __init__(self, S):
        super().__init__(S.n, S.elem)

    def key(self, i):
        return self.elem(i)

    def x_getitem(self, ip, k):
        raise Unsupported('lookup by type')

    def x_binop(self, ip, op, o, reflected):
        raise Unsupported('comparison of mappings')


class Inst(Opaque):
    """a value made by calling an abstract type"""

    def __init__(self, T_, args, kwargs):
        self.T, self.args, self.kwargs = T_, args, kwargs


class MList(Opaque):
    """a list of modifiers; the list 0 is the empty one"""
    empty = property(lambda self: z3.is_int_value(self.t) and self.t.as_long() == 0)

    def __init__(self, t):
        self.t = t

    def x_type(self):
        return list

    def x_isinstance(self, C):
        return isinstance(C, type) and issubclass(list, C)

    def x_binop(self, ip, op, o, reflected):
        if op == '+' and isinstance(o, MList) and self.empty:
            return o
        if op == '+' and isinstance(o, MList) and not o.empty:
            return MList(CAT(o.t, self.t) if reflected else CAT(self.t, o.t))
        if op == '+' and (isinstance(o, list) and not o or isinstance(o, MList)):
            return MList(self.t)
        if op in ('==', '!='):
            raise Unsupported('comparison of modifier lists')
        return NotImplemented


class MType(Opaque):
    """base wrapped by a nonempty list of modifiers"""
    key_by_identity = True

    def __init__(self, base, mods):
        self.base, self.mods = base, mods
        self.t = WRAP(term_of(base), mods.t)

    def x_isinstance(self, C):
        if C is type or C is object:
            return True
        raise Unsupported('metatype of a modified type')

    def x_is(self, o):
        return mkbool(self.t == o.t) if isinstance(o, (CType, MType)) else self is o

    def x_binop(self, ip, op, o, reflected):
        if op in ('==', '!=') and isinstance(o, (CType, MType)):
            r = mkbool(self.t == o.t)
            return r if op == '==' else ip.not_(r)
        return NotImplemented


class Contract:
    def __init__(self, name, summary):
        self.name, self.summary = name, summary


def is_modified(ip, x):
    if isinstance(x, MType):
        return True
    if V.CUR.cells.get('modding'):
        return MISSING
    if isinstance(x, (BType, LType, Made, SType, clsdom.NClass)):
        return False
    return MISSING


def get_modifier(ip, x):
    return x.mods if isinstance(x, MType) and isinstance(x.mods, Mod) else MISSING


def get_unmodified(ip, x):
    return x.base if isinstance(x, MType) else MISSING


class Mod(Opaque):
    """a modifier: applied to a type it gives the type of that modifier and type"""

    def __init__(self, t):
        self.t = t

    def x_call(self, ip, args, kwargs):
        if len(args) != 1 or kwargs:
            raise Unsupported('call of a modifier')
        x = args[0]
        return CType(WRAP(x.t, self.t)) if isinstance(x, CType) else Wrapped(x, self)


def unwrap(ip, x):
    if isinstance(x, MType):
        return x.base, x.mods
    if isinstance(x, (BType, LType)):
        return x, MList(z3.IntVal(0))
    return MISSING


def wrap(ip, x, mods):
    if isinstance(mods, MList) and mods.empty:
        return x
    if isinstance(mods, MList) and isinstance(x, (CType, BType, Made, MType)):
        if isinstance(x, Made):
            return Wrapped(x, mods)
        return CType(WRAP(x.t, mods.t))
    return MISSING


class Wrapped(Opaque):
    """a made type wrapped by modifiers"""

    def __init__(self, base, mods):
        self.base, self.mods = base, mods


def component(*fs):
    """recursive call on a component: the unknown function"""
    def deco(g):
        def summary(ip, x, *a, **k):
            if isinstance(x, CType) and not isinstance(x, LType):
                r = g(ip, x, *a, **k)
                return r
            return MISSING
        return summary
    return deco


@component()
def c_strip(ip, x):
    fact(V.CUR, STRIP(STRIP(x.t)) == STRIP(x.t))
    return CType(STRIP(x.t))


@component()
def c_push(ip, x, mods=[]):
    if isinstance(mods, list) and not mods:
        mods = MList(z3.IntVal(0))
    if not isinstance(mods, MList):
        raise Unsupported('modifiers that are no abstract list')
    return CType(PUSH(x.t, mods.t))


@component()
def c_rbv(ip, x, a, b, keep_modifiers=False):
    f = lambda t: RBV(t, term_of(a), term_of(b), flag(keep_modifiers))
    fact(V.CUR, f(f(x.t)) == f(x.t))        # rebinding twice is rebinding once
    return CType(f(x.t))


@component()
def c_family(ip, x, family):
    return CType(RTYPE(x.t, family_id(family)))


def node_rbv(ip, x, a, b, keep_modifiers=False):
    """what the bitvector-node case proves"""
    if isinstance(x, BType) and x.kind == 'enum':
        return x
    if isinstance(x, BType):
        ip.used_contracts.add('rebind_bitvector.node')
        f = x.elem
        return BType(x.kind, f'rbv{next(_made)}', lambda i: c_rbv(ip, f(i), a, b, keep_modifiers), x.n, x.u, x.ename, x.cached)
    return MISSING


def family_id(f):
    if isinstance(f, tuple) and hasattr(f, '_fields'):
        return z3.IntVal(class_id(f.BitVector))
    raise Unsupported('family')


@component()
def c_keep(ip, x, A, B):
    return CType(RKEEP(x.t, term_of(A), term_of(B)))


def register(h):
    for f, name, s in ((MO.is_modified, 'modifiers.is_modified', is_modified), (MO.unwrap_modifier, 'modifiers.unwrap', unwrap),
                       (MO.wrap_modifier, 'modifiers.wrap', wrap),
                       (MO.get_modifier, 'modifiers.get', get_modifier), (MO.get_unmodified, 'modifiers.get_unmodified', get_unmodified),
                       (AU.rebind_type, 'induction.rebind_type', c_family), (MO.strip_modifiers, 'induction.strip', c_strip),
                       (MO.push_modifiers, 'induction.push', c_push), (AU.rebind_bitvector, 'induction.rebind_bitvector', c_rbv),
                       (AU.rebind_keep_modifiers, 'induction.rebind_keep_modifiers', c_keep)):
        h.contracts[f] = Contract(name, s)
    rbv = h.contracts[AU.rebind_bitvector]
    rec = rbv.summary

    def both(ip, x, *a, **k):
        r = rec(ip, x, *a, **k)
        return node_rbv(ip, x, *a, **k) if r is MISSING and 'rebind_bitvector.node' not in h.disabled else r
    rbv.summary = both
    h.extern[itertools.product] = product

    def star(ip, f, seq):
        if f is itertools.product or isinstance(f, BType):
            return StarArgs(seq)
        raise Unsupported('symbolic-length sequence where a concrete one is needed')
    h.star = star
    h.extern[inspect.isclass] = lambda ip, x: ip.isinst(x, type)

    def mapping(ip, *a, **k):
        if len(a) == 1 and isinstance(a[0], AMap) and not k:
            return a[0]
        if len(a) == 1 and isinstance(a[0], SSeq) and not k:
            return dict_of_seq(ip, a[0])
        return MISSING
    for c in (dict, collections.OrderedDict, types.MappingProxyType):
        old = h.extern_classes.get(c)
        h.extern_classes[c] = mapping if old is None else (lambda ip, *a, old=old, **k: (lambda r: old(ip, *a, **k) if r is MISSING else r)(mapping(ip, *a, **k)))
    old_dos = type(h).dict_of_seq
    h.dict_of_seq = lambda ip, r: dict_of_seq(ip, r)


def dict_of_seq(ip, r):
    """the mapping made of (key, value) pairs whose i-th key is the i-th field name"""
    p = V.CUR
    n = term(r.length)
    iv = p.fresh('dk')
    ks = p.sub_explore(lambda: ip.concrete_list(r.elem(SInt(iv)))[0], [iv >= 0, iv < n])
    for conds, k, v in ks:
        if k == 'exc':
            raise Unsupported('an entry may raise')
        if not (isinstance(v, Key) and v.i.eq(iv)):
            raise Unsupported('keys that are not the field names in order')
    return AMap(n, lambda i: ip.concrete_list(r.elem(i))[1])


def type_fold(loops, ip, step, n, T0):
    """acc = T0; for k < n: acc = step(k, acc), where every step rebuilds the type field by field.  Invariant after
    k steps: field i is f(i) or g(i), and g(i) for i < k; g is what step k makes of field k of T0."""
    from .loops import LoopShape
    p = V.CUR
    if not n.eq(T0.n):
        raise LoopShape('loop over something else than the fields')
    kv = p.fresh('k')
    hy = [kv >= 0, kv < n]

    def shape(r):
        r = r.view() if isinstance(r, Made) else r
        if not isinstance(r, BType) or r.u is not T0.u or not r.n.eq(T0.n):
            raise LoopShape('accumulator becomes another kind of type')
        return r

    if all(kd == 'val' and v for _, kd, v in p.sub_explore(lambda: step(SInt(kv), T0) is T0, hy)):
        return T0
    cands = []
    for conds, kd, v in p.sub_explore(lambda: term_of(shape(step(SInt(kv), T0)).elem(SInt(kv))), hy):
        if kd != 'val':
            raise LoopShape('an iteration may raise')
        if not any(c.eq(v) for c in cands):
            cands.append(v)
    f = lambda i: term_of(T0.elem(SInt(i)))
    cands.sort(key=lambda c: c.eq(f(kv)))
    for c in cands:
        g = lambda i: T.subst(c, kv, i)
        X = p.freshfun('x', I, I)
        inv = lambda k, i, x: z3.And(z3.Or(x == f(i), x == g(i)), z3.Implies(i < k, x == g(i)))
        iv = p.fresh('i')
        p.sub_explore(lambda: step(SInt(iv), T0), [iv >= 0, iv < n])      # what the recursive call says of field i
        hyp = hy + [iv >= 0, iv < n, inv(kv, iv, X(iv)), inv(kv, kv, X(kv))]
        old = p.witness
        p.witness = old + [iv, kv]
        try:
            acc = BType(T0.kind, f'acc{next(_made)}', lambda i: CType(X(term(i))), T0.n, T0.u, T0.ename, T0.cached)

            def go():
                r = shape(step(SInt(kv), acc))
                if T0.kind in ('product', 'union') and r is not acc and (r.ename is not T0.ename or r.cached is not T0.cached):
                    raise LoopShape('the accumulator is renamed')
                return term_of(r.elem(SInt(iv)))
            outs = p.sub_explore(go, hyp)
            ok = all(kd == 'val' for _, kd, _ in outs) and all(
                loops.oblige_now(p, 'loop-fields-step', inv(norm(kv + 1), iv, v), hyp + list(conds)) for conds, _, v in outs)
        finally:
            p.witness = old
        if ok:
            return BType(T0.kind, f'acc{next(_made)}', lambda i: CType(g(term(i))), T0.n, T0.u, T0.ename, T0.cached)
    raise LoopShape('no invariant template fits the loop')


Loops.FOLDS.append((lambda v: isinstance(v, BType), type_fold))


class Visitor(Opaque):
    """an instance of a subclass of cls that overrides `own`; calls of the methods in `events` are recorded"""

    def __init__(self, cls, events):
        self.cls, self.events = cls, events
        V.CUR.cells['trace'] = []

    def x_type(self):
        return self.cls

    def x_isinstance(self, C):
        return isinstance(C, type) and issubclass(self.cls, C)

    def x_getattr(self, ip, name):
        if name in self.events:
            return Fn(lambda x: V.CUR.cells['trace'].append((name, x)))
        f = ip.find(self.cls, name)
        if isinstance(f, types.FunctionType):
            return ip.bind(f, self, self.cls)
        if isinstance(f, staticmethod):
            return f.__func__
        raise Unsupported(f'attribute {name} of a visitor')


class Maybe(Opaque):
    """any object, or None"""

    def __init__(self, t):
        self.t = t
        self.none = z3.Function('is-none', I, B)(t)

    def x_is(self, o):
        if o is None:
            return mkbool(self.none)
        return mkbool(self.t == o.t) if isinstance(o, Maybe) else False

    def x_truth(self, ip):
        raise Unsupported('truth of an arbitrary value')


class Val(Opaque):
    """a value of any type of the given kind, with any number of entries"""

    def __init__(self, kind):
        self.kind, self.rep = kind, KINDS.get(kind)
        self.n = z3.Int('v!n')
        V.CUR.assume(self.n >= 0)
        f = z3.Function('v!entry', I, I)
        self.elem = lambda i: Maybe(f(term(i)))

    def x_type(self):
        return SType(self.rep)

    def x_isinstance(self, C):
        if not isinstance(C, type):
            raise Unsupported('isinstance')
        if self.kind == 'leaf':
            if C is object or not C.__module__.startswith('hwtypes.adt'):
                raise Unsupported('isinstance of any value')
            return False
        return issubclass(self.rep, C)

    def x_getattr(self, ip, name):
        if name == 'value_dict' and self.kind not in ('enum', 'leaf'):
            return AMap(self.n, self.elem, self.kind == 'tuple')
        raise Unsupported(f'attribute {name} of a value')


class Mismatch(Exception):
    pass


def is_true(x):
    return x if isinstance(x, bool) else True


class TD:
    """what a specification sees"""

    def __init__(self, E):
        self.E = E

    def comp(self, name):
        return CType(z3.Int(name))

    def leaf(self, name):
        return LType(z3.Int(name))

    def bound(self, kind, name='T'):
        return BType(kind, name)

    def mods(self, name):
        return MList(z3.Int(name))

    def under(self, T, A):
        """T is the class A or one below it"""
        r = z3.Or(T.t == A.t, SUB(T.t, A.t))
        return mkbool(r if isinstance(T, BType) else z3.And(ISCLASS(T.t), r))

    def below(self, T, C):
        """T is a class below C"""
        return mkbool(z3.And(ISCLASS(T.t), bterm(inst_of_class(T.t, C))))

    def rebound(self, f, A, B, sub, rec):
        return self.rebound_t(f.t, A, B, sub, rec)

    def rebound_t(self, t, A, B, sub, rec):
        """the field that rebinding A to B makes of the type t"""
        a, b = term_of(A), term_of(B)
        hit = t == a
        if sub:
            hit = z3.Or(hit, z3.And(ISCLASS(t), SUB(t, a)))
        known(BoundMeta)
        inner = z3.If(SUB(CLS(t), z3.IntVal(class_id(BoundMeta))), REBIND(t, a, b, flag(sub), z3.IntVal(1)), t) if rec else t
        return z3.If(hit, b, inner)

    def rbv(self, f, a, b, keep):
        return RBV(f.t, term_of(a), term_of(b), flag(keep))

    def keep(self, f, A, B):
        return RKEEP(f.t, term_of(A), term_of(B))

    def visitor(self, cls, events):
        return Visitor(cls, events)

    def value(self, kind):
        return Val(kind)

    def handled(self, label, name, x):
        """the one event so far is name(x)"""
        tr = V.CUR.cells['trace']
        self.E.check(label, len(tr) == 1 and tr[0][0] == name and tr[0][1] is x)

    def each(self, label, name, n, f, skip=lambda x: False):
        """the events are name(f(0)) … name(f(n-1)), without those to skip"""
        E, p = self.E, V.CUR
        tr = p.cells['trace']
        if not p.decide(n > 0):
            E.check(f'{label}-none', not tr)
            return
        E.check(f'{label}-loop', len(tr) == 1 and tr[0][0] == 'each')
        if len(tr) != 1 or tr[0][0] != 'each':
            return
        E.check(f'{label}-count', mkbool(tr[0][1] == n))
        j = p.fresh('j')
        p.assume(j >= 0)
        p.assume(j < n)
        ev = tr[0][2](SInt(j))
        x = f(SInt(j))
        if p.decide(bterm(skip(x))):
            E.check(f'{label}-skipped', not ev)
            return
        E.check(f'{label}-once', len(ev) == 1 and ev[0][0] == name)
        if len(ev) == 1:
            E.check(f'{label}-field', mkbool(ev[0][1].t == x.t))

    def enumerated(self, label, out, T):
        """out yields every value of T exactly once, given the values of its fields"""
        try:
            self.enumerated_(label, out, T)
        except Mismatch:
            pass

    def need(self, label, ok):
        self.E.check(label, ok)
        if not is_true(ok):
            raise Mismatch

    def enumerated_(self, label, out, T):
        E, p = self.E, V.CUR
        r = E.get(out)
        items = r.items if isinstance(r, YSeq) else E.ip.concrete_list(r)
        n = T.n
        if T.kind in ('tuple', 'anon', 'product'):
            if not items:        # no combination
                return
            self.need(f'{label}-loop', len(items) == 1)
            e = items[0]
            if isinstance(e, Inst):
                E.check(f'{label}-empty', e.T is T and not e.args and not e.kwargs and mkbool(n == 0))
                return
            self.need(f'{label}-loop', isinstance(e, Each))
            self.need(f'{label}-once', len(e.items) == 1 and isinstance(e.items[0], Inst))
            v = e.items[0]
            ok = v.T is T and not v.kwargs and len(v.args) == 1 and isinstance(v.args[0], StarArgs) and hasattr(v.args[0].seq, 'combo')
            self.need(f'{label}-value', ok)
            if not ok:
                return
            c = v.args[0].seq.combo
            E.check(f'{label}-combination', mkbool(c.i == e.k))
            E.check(f'{label}-fields', mkbool(term(c.seq.length) == n))
            if not p.decide(n > 0):
                return
            j = p.fresh('j')
            p.assume(j >= 0)
            p.assume(j < n)
            f = T.elem(SInt(j))
            s = E.ip.as_seq(c.seq.elem(SInt(j)))
            self.all_of(f'{label}-component', s, f)
            return
        if not p.decide(n > 0):
            E.check(f'{label}-none', not items)
            return
        self.need(f'{label}-loop', len(items) == 1 and isinstance(items[0], Each))
        e = items[0]
        E.check(f'{label}-count', mkbool(e.n == n))
        if T.kind == 'enum':
            E.check(f'{label}-member', len(e.items) == 1 and mkbool(e.items[0].t == z3.Function(f'{T.name}!member', I, I)(e.k)))
            return
        f = T.elem(SInt(e.k))

        def payload(v):
            self.need(f'{label}-value', isinstance(v, Inst) and v.T is T)
            if T.kind == 'sum':
                self.need(f'{label}-payload', len(v.args) == 1 and not v.kwargs)
                return v.args[0]
            self.need(f'{label}-payload', len(v.kwargs) == 1 and not v.args)
            (k, x), = v.kwargs.items()
            self.need(f'{label}-tag', isinstance(k, Key) and mkbool(k.i == e.k))
            return x
        if self.is_bound_type(f):
            m = term(enumeration(f.t).length)
            if not p.decide(m > 0):
                E.check(f'{label}-empty', not e.items)
                return
            self.need(f'{label}-inner', len(e.items) == 1 and isinstance(e.items[0], Each))
            e2 = e.items[0]
            E.check(f'{label}-inner-count', mkbool(e2.n == m))
            self.need(f'{label}-inner-once', len(e2.items) == 1)
            x = payload(e2.items[0])
            E.check(f'{label}-inner-value', isinstance(x, EVal) and mkbool(z3.And(x.t == f.t, x.i == e2.k)))
        else:
            self.need(f'{label}-leaf', len(e.items) == 1)
            self.leaf_value(f'{label}-leaf-value', payload(e.items[0]), f)

    def is_bound_type(self, f):
        known(BoundMeta)
        return V.CUR.decide(SUB(CLS(f.t), z3.IntVal(class_id(BoundMeta))))

    def leaf_value(self, label, x, f):
        ok = isinstance(x, Inst) and isinstance(x.T, CType) and not x.kwargs and list(x.args) in ([], [0])
        self.E.check(label, ok and mkbool(x.T.t == f.t))

    def all_of(self, label, s, f):
        """the sequence s: every value of the field f once"""
        E, p = self.E, V.CUR
        if not self.is_bound_type(f):
            s = list(s) if not isinstance(s, SSeq) else None
            self.need(f'{label}-leaf', s is not None and len(s) == 1)
            if s:
                self.leaf_value(f'{label}-leaf-value', s[0], f)
            return
        m = term(enumeration(f.t).length)
        E.check(f'{label}-sequence', isinstance(s, SSeq) and mkbool(term(s.length) == m))
        if not isinstance(s, SSeq) or not p.decide(m > 0):
            return
        k = p.fresh('j')
        p.assume(k >= 0)
        p.assume(k < m)
        x = s.elem(SInt(k))
        E.check(f'{label}-all', isinstance(x, EVal) and mkbool(z3.And(x.t == f.t, x.i == k)))

    def strip(self, f):
        return STRIP(f.t)

    def push(self, f, *mods):
        """the modifiers of each list in turn pushed into f"""
        return PUSH(f.t, self.cat(*mods).t)

    def cat(self, *mods):
        out = MList(z3.IntVal(0))
        for m in mods:
            if m is not None:
                out = m if out.empty else MList(CAT(out.t, m.t))
        return out

    def modified(self, name, one=False, base=None):
        """any type wrapped by any modifiers (by one)"""
        return MType(base or CType(z3.Int(name + '!base')), Mod(z3.Int(name + '!mod')) if one else MList(z3.Int(name + '!mods')))

    def same(self, out, term_):
        r = self.E.get(out)
        return mkbool(term_of(r) == term_)

    def covered(self, T, mods):
        return T.t if mods.empty else WRAP(T.t, mods.t)

    def wrapped(self, T, f):
        """T's modifiers around f(the type below)"""
        return WRAP(f(T.base), T.mods.t)

    def family(self, f, F):
        return RTYPE(f.t, family_id(F))

    def node(self, label, out, T0, f, named=True, cached=None):
        """out is the type of T0's kind whose j-th field is f(j-th field of T0)"""
        E, p = self.E, V.CUR
        r = E.get(out)
        if isinstance(r, BType):
            E.check(f'{label}-kind', r.u is T0.u)
        else:
            E.check(f'{label}-kind', isinstance(r, Made) and r.u is T0.u)
        if not isinstance(r, (Made, BType)):
            return
        E.check(f'{label}-count', mkbool(r.map.n == T0.n))
        E.check(f'{label}-names', r.map.indexed == T0.map.indexed)
        if isinstance(r, Made) and T0.kind in ('product', 'union'):
            E.check(f'{label}-name', r.name is T0.ename)
            if cached is not None:
                E.check(f'{label}-cached', E.ip.compare('==', r.cache, cached))
        if not p.decide(r.map.n > 0):
            return
        j = p.fresh('j')
        p.assume(j >= 0)
        p.assume(j < T0.n)
        p.assume(j < r.map.n)
        p.witness = p.witness + [j]
        got = r.map.elem(SInt(j))
        E.check(f'{label}-field', mkbool(term_of(got) == f(T0.elem(SInt(j)))))


verify.EXTRA_DOMAINS.append(__import__('sys').modules[__name__])
