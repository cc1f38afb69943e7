"""C15 distinct live symbolic values have distinct variables."""
import itertools
import re
import warnings
from pysmt.environment import reset_env
from ..spec import case, Raises, Skip
from ..values import *
from ..fmdom import F, SMT, Fm
from ..namedom import Names, code
from ..helpers import HasInt, Plain
from .. import smath as M
from .. import values as V
import z3

KINDS = ['bit', 'BV', 'UV', 'SV', 'int']
HOW = ['auto', 'prefix', 'name']
salt = itertools.count()


class World:
    """arbitrary earlier creations and destructions, and what happens to the registry after them.
    Deductively: an arbitrary set of live names; concretely: a random history."""

    def __init__(self, E):
        self.E, self.f = E, F(E, 'smt')
        if E.symbolic:
            self.names = Names(E)
            self.table = self.names.table
        else:
            reset_env()
            self.live = []
            self.pool = self.make_pool()
            for j in range(self.pick('hist!', 7)):
                self.random_step(j)

    # ---- concrete history
    def pick(self, name, k):
        i = self.E.src.choice(name, k)
        self.E.inputs[name] = i
        return i

    def make_pool(self):
        s = next(salt)
        probe = [SMT.Bit() for _ in range(8)][-1]     # beyond what earlier runs may still hold
        m = re.fullmatch(r'(.*?)(\d+)', probe.value.symbol_name())
        near = [m[1] + str(int(m[2]) + d) for d in range(1, 7)] if m else []
        base = [f'p{s}', f'q{s}', f'p{s}_0', f'p{s}_1', f'p{s}_2', f'q{s}_0', f'p{s}_0_0', f'p{s}_']
        return near + base

    def random_step(self, j):
        E = self.E
        act = self.pick(f'act{j}!', 8)
        if act == 0 and self.live:
            self.live.pop(self.pick(f'del{j}!', len(self.live)))
            return
        kw = {} if act < 2 else {'prefix': self.pool[self.pick(f'nm{j}!', len(self.pool))]} if act < 4 else \
            {'name': self.pool[self.pick(f'nm{j}!', len(self.pool))]}
        kd = KINDS[self.pick(f'kd{j}!', len(KINDS))]
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.live.append(self.cls(kd, 4)(**kw))
        except ValueError:
            pass
        except Exception as e:
            if 'redefine' in str(e) or 'type' in str(e).lower():
                raise Skip()
            raise

    def string(self, name):
        if self.E.symbolic:
            return self.names.arbitrary(name)
        i = self.pick(name + '!', len(self.pool))
        return self.pool[i]

    # ---- both
    def cls(self, kind, n):
        return {'bit': lambda: SMT.Bit, 'int': lambda: SMT.Int, 'BV': lambda: self.f.T(SMT.BV, n),
                'UV': lambda: self.f.T(SMT.UInt, n), 'SV': lambda: self.f.T(SMT.SInt, n)}[kind]()

    def create(self, kind, how, text=None):
        """outcome of creating a symbolic value"""
        E = self.E
        kw = {} if how == 'auto' else {how: text if text is not None else self.string('s')}
        self.kw = kw
        self.before = list(self.table.writes) if E.symbolic else None
        C = self.cls(kind, E.int('n', 1, kind='width') if kind in ('BV', 'UV', 'SV') else None)
        r = E.build(C, **kw)
        if not E.symbolic and r.kind == 'exc' and 'redefine' in str(r.value):
            raise Skip()     # a dead value of another sort had the name
        return r

    def used(self, s):
        """the name belongs to a value that was alive before the creation"""
        if self.E.symbolic:
            return mkbool(self.table.has(code(s), self.before))
        return any(v.value.symbol_name() == s for v in self.live)

    def var(self, v):
        """name of the variable v is"""
        f = self.E.ip.getattr(v, 'value') if self.E.symbolic else v.value
        if self.E.symbolic:
            if not isinstance(f, Fm) or not f.prov or f.prov[0] != 'symbol':
                return None
            return f.prov[1]
        return f.symbol_name() if f.is_symbol() else None

    def unchanged(self):
        if self.E.symbolic:
            return len(self.table.writes) == len(self.before)
        return True

    def registered(self, v, s):
        """from now on the name counts as that of the live value v, nothing else changed"""
        if self.E.symbolic:
            w = self.table.writes[len(self.before):]
            return len(w) == 1 and w[0][2] is v and mkbool(w[0][0] == code(s))
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                SMT.Bit(name=s)
        except ValueError:
            return True
        except Exception:
            return False
        return False

    def starts(self, s, prefix):
        if self.E.symbolic:
            return isinstance(s, SStr) and isinstance(prefix, SStr) and s.parts[:len(prefix.parts)] == prefix.parts
        return s.startswith(prefix)

    def same(self, a, b):
        return mkbool(code(a) == code(b)) if self.E.symbolic else a == b

    def fresh_check(self, r, how, label=''):
        E = self.E
        v = E.get(r)
        s = self.var(v)
        E.check(label + 'is-variable', s is not None)
        if s is None:
            return None, None
        E.check(label + 'not-in-use', M.NOT(self.used(s)))
        E.check(label + 'registered', self.registered(v, s))
        if how == 'prefix':
            E.check(label + 'starts-with-prefix', self.starts(s, self.kw['prefix']))
        if how == 'name':
            E.check(label + 'has-name', self.same(s, self.kw['name']))
        return v, s


@case('C15', 'create', dict(kind=KINDS, how=['auto', 'prefix']))
def create(E, kind, how):
    w = World(E)
    w.fresh_check(w.create(kind, how), how)


@case('C15', 'create-named', dict(kind=KINDS))
def create_named(E, kind):
    w = World(E)
    r = w.create(kind, 'name')
    if w.used(w.kw['name']):
        E.expect('rejects', r, Raises(ValueError))
        E.check('unchanged', w.unchanged())
    else:
        w.fresh_check(r, 'name')


@case('C15', 'reuse', dict(k1=KINDS, h1=HOW, k2=['bit', 'BV', 'int']))
def reuse(E, k1, h1, k2):
    """the name of a value just created, of any class, is in use"""
    w = World(E)
    r = w.create(k1, h1)
    if h1 == 'name':
        E.require(M.NOT(w.used(w.kw['name'])))
    v = E.get(r)
    if not E.symbolic:
        w.live.append(v)
    E.expect('rejects', w.create(k2, 'name', w.var(v)), Raises(ValueError))
    E.check('unchanged', w.unchanged())


@case('C15', 'two', dict(k1=['bit', 'BV', 'int'], h1=HOW, k2=['bit', 'SV', 'int'], h2=['auto', 'prefix']))
def two(E, k1, h1, k2, h2):
    w = World(E)
    r = w.create(k1, h1, w.string('t'))
    if h1 == 'name':
        E.require(M.NOT(w.used(w.kw['name'])))
    v = E.get(r)
    if not E.symbolic:
        w.live.append(v)
    a = w.var(v)
    v2, b = w.fresh_check(w.create(k2, h2), h2, 'second-')
    if b is not None:
        E.check('distinct', M.NOT(w.same(a, b)))


def values(E, f, kind):
    n = E.int('n', 1, kind='width')
    T = {'bit': SMT.Bit, 'int': SMT.Int}.get(kind) or f.T({'BV': SMT.BV, 'UV': SMT.UInt, 'SV': SMT.SInt}[kind], n)
    fk = {'bit': 'bool', 'int': 'int'}.get(kind, 'bv')
    return T, lambda v: {'literal': lambda: E.bool('v') if kind == 'bit' else E.int('v'),
                         'formula': lambda: f.formula('v', fk, n if fk == 'bv' else None),
                         'value': lambda: f.bit('v') if kind == 'bit' else f.sint('v') if kind == 'int' else f.bv('v', SMT.BV, n),
                         'HasInt': lambda: E.obj(HasInt, v=E.int('v')), 'none': lambda: None}[v]()


@case('C15', 'named-value', dict(kind=KINDS, v=['literal', 'formula', 'value', 'HasInt', 'none'], how=['name', 'prefix', 'both', 'bad-name']))
def named_value(E, kind, v, how):
    w = World(E)
    T, mk = values(E, w.f, kind)
    x = mk(v)
    kw = {'name': dict(name='s'), 'prefix': dict(prefix='s'), 'both': dict(name='s', prefix='t'), 'bad-name': dict(name=3)}[how]
    kw = {k: w.string(z) if isinstance(z, str) else z for k, z in kw.items()}
    w.before = list(w.table.writes) if E.symbolic else None
    E.expect('rejects', E.build(T, x, **kw), Raises(TypeError))
    E.check('unchanged', w.unchanged())


@case('C15', 'name-and-prefix', dict(kind=KINDS, name=['str', 'int', 'None']))
def both(E, kind, name):
    w = World(E)
    T, _ = values(E, w.f, kind)
    w.before = list(w.table.writes) if E.symbolic else None
    s = {'str': lambda: w.string('s'), 'int': lambda: 3, 'None': lambda: None}[name]()
    E.expect('rejects', E.build(T, name=s, prefix=w.string('t')), Raises(ValueError))
    E.check('unchanged', w.unchanged())


@case('C15', 'bad-name', dict(kind=KINDS, name=['int', 'None', 'tuple', 'Plain', 'bytes', 'sym-int']))
def bad_name(E, kind, name):
    w = World(E)
    T, _ = values(E, w.f, kind)
    s = {'int': lambda: 7, 'None': lambda: None, 'tuple': lambda: ('a',), 'Plain': lambda: E.obj(Plain), 'bytes': lambda: b'a',
         'sym-int': lambda: E.int('k')}[name]()
    w.before = list(w.table.writes) if E.symbolic else None
    E.expect('rejects', E.build(T, name=s), Raises(TypeError))
    E.check('unchanged', w.unchanged())


@case('C15', 'plain-value', dict(kind=KINDS, v=['literal', 'formula', 'value']))
def plain_value(E, kind, v):
    """values that are not variables take no name"""
    w = World(E)
    T, mk = values(E, w.f, kind)
    x = mk(v)
    if kind == 'bit' and v == 'literal':
        pass
    w.before = list(w.table.writes) if E.symbolic else None
    E.get(E.build(T, x))
    E.check('unchanged', w.unchanged())


@case('C15', 'derived')
def derived(E):
    """the name stays reserved while the value lives, whatever is computed from it"""
    w = World(E)
    v = E.get(w.create('bit', 'auto'))
    s = w.var(v)
    u = E.get(E.op('&', v, True))
    E.get(E.uop('~', v))
    if not E.symbolic:
        w.live.append(v)
    E.expect('rejects', w.create('bit', 'name', s), Raises(ValueError))
