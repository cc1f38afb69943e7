"""Names of SMT variables: strings as abstract codes, the registry of live names and
the per-prefix counters as abstract state with contracts for the standard library
containers they are (WeakValueDictionary, defaultdict of itertools.count)."""
import collections
import itertools
import re
import weakref
import z3
import hwtypes.smt_bit_vector as SM
import hwtypes.smt_int as SI
from . import theory as T
from . import values as V
from . import verify
from .values import *
from .hooks import norm_str

I = T.I
CAT = z3.Function('strcat', I, I, I)
ITOA = z3.Function('itoa', I, I)
LITS = {}


class Atom(Opaque):
    """an arbitrary string"""

    def __init__(self, t):
        self.t = t

    def x_binop(self, ip, op, o, reflected):
        if op in ('==', '!=') and isinstance(o, Atom):
            r = mkbool(self.t == o.t)
            return r if op == '==' else ip.not_(r)
        return NotImplemented


def code(s):
    """integer code of a string; different literals have different codes, of
    everything else only congruence is known"""
    r = None
    for p in norm_str(s):
        if isinstance(p, str):
            c = z3.IntVal(LITS.setdefault(p, -1 - len(LITS)))
        elif p[0] == 'atom':
            c = p[1].t
        elif p[0] == 'int':
            c = ITOA(term(p[1]))
        else:
            raise Unsupported('code of an opaque string')
        r = c if r is None else CAT(r, c)
    return z3.IntVal(LITS.setdefault('', -1 - len(LITS))) if r is None else r


class Fn(Opaque):
    def __init__(self, f):
        self.f = f

    def x_call(self, ip, a, k):
        return self.f(*a, **k)


class Table(Opaque):
    """WeakValueDictionary from names to live values: arbitrary entries, then
    the recorded writes"""

    def __init__(self, p, n):
        self.live = z3.Function(f'live!{n}', I, z3.BoolSort())
        self.writes = []

    def x_isinstance(self, C):
        return issubclass(weakref.WeakValueDictionary, C)

    def has(self, c, writes=None):
        w = self.writes if writes is None else writes
        return z3.Or(self.live(c), *[c == x for x, _, _ in w])

    def key(self, ip, k):
        k = ip.lift(k)
        if not isinstance(k, (str, SStr)):
            raise Unsupported('key that is not a string')
        return code(k)

    def x_contains(self, ip, k):
        return mkbool(self.has(self.key(ip, k)))

    def x_setitem(self, ip, k, v):
        if ip.havoc or V.CUR is not V.CUR.E.p:
            raise Unsupported('registration inside a loop')
        self.writes.append((self.key(ip, k), k, v))

    def x_getitem(self, ip, k):
        c = self.key(ip, k)
        for x, _, v in reversed(self.writes):
            if V.CUR.decide(c == x):
                return v
        if V.CUR.decide(self.live(c)):
            raise Unsupported('a live value')
        ip.raise_(KeyError, 'name')

    def x_getattr(self, ip, name):
        if name == '__contains__':
            return Fn(lambda k: self.x_contains(ip, k))
        if name == '__setitem__':
            return Fn(lambda k, v: self.x_setitem(ip, k, v))
        if name == 'setdefault':
            def sd(k, v=None):
                if V.CUR.decide(self.has(self.key(ip, k))):
                    return Opaque()
                self.x_setitem(ip, k, v)
                return v
            return Fn(sd)
        if name == 'get':
            def get(k, d=None):
                if V.CUR.decide(self.has(self.key(ip, k))):
                    return LiveValue()
                return d
            return Fn(get)
        raise Unsupported(f'table.{name}')


class LiveValue(Opaque):
    """some object that is not None"""

    def x_truth(self, ip):
        return True


class Counters(Opaque):
    """defaultdict(itertools.count)"""

    def x_getitem(self, ip, k):
        return Counter()


class Counter(Opaque):
    """itertools.count(): some nonnegative number"""

    def x_next(self, ip, *d):
        p = V.CUR
        c = p.fresh('count')
        p.assume(c >= 0)
        return SInt(c)


class Pattern(Opaque):
    """compiled regular expression; an arbitrary string matches or not"""

    def __init__(self, r):
        self.r = r

    def x_getattr(self, ip, name):
        if name not in ('fullmatch', 'match', 'search'):
            raise Unsupported(f'pattern.{name}')

        def m(s):
            if isinstance(s, str):
                return ip.native(getattr(self.r, name), s)
            if not isinstance(s, SStr):
                ip.raise_(TypeError, 'expected string')
            return LiveValue() if V.CUR.decide(V.CUR.fresh('matches', 'bool')) else None
        return Fn(m)


def tables():
    """the WeakValueDictionaries and counters in the globals of the two modules"""
    ts, cs = {}, {}
    for m in (SM, SI):
        for v in vars(m).values():
            if isinstance(v, weakref.WeakValueDictionary):
                ts[id(v)] = v
            elif type(v) is collections.defaultdict and v.default_factory is itertools.count:
                cs[id(v)] = v
    return ts, cs


def register(h):
    ts, cs = tables()

    def table(i, n):
        def f(p):
            d = p.cells.setdefault('nametables', {})
            if i not in d:
                d[i] = Table(p, n)
            return d[i]
        return f
    for n, i in enumerate(ts):
        h.global_state[i] = table(i, n)
    for m in (SM, SI):
        for v in vars(m).values():
            if isinstance(v, re.Pattern):
                h.global_state[id(v)] = lambda p, v=v: Pattern(v)
    for i in cs:
        h.global_state[i] = lambda p: Counters()


class Names:
    """what a specification sees: live names before, registrations since"""

    def __init__(self, E):
        self.E = E
        ts, _ = tables()
        if len(ts) != 1:
            raise Unsupported('not one registry of live names')
        i, = ts
        self.table = E.ip.h.global_state[i](E.p)

    def arbitrary(self, name):
        c = z3.Int(name)
        self.E.inputs[name] = ('name', c)
        return SStr(('atom', Atom(c)))

    def code(self, s):
        return code(s)


verify.EXTRA_DOMAINS.append(__import__('sys').modules[__name__])
