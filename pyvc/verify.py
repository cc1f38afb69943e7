"""Symbolic verification of cases, concrete sweeps and replays."""
import random
import signal
import time
import traceback
import z3
from . import theory as T
from . import values as V
from . import spec, solve
from .values import *
from .engine import explore, Infeasible, Path
from .hooks import Hooks
from .interp import Interp, SOURCES
from .spec import SymE, ConE, Skip, Violation, CASES, CONTRACTS


class Timeout(BaseException):
    pass


class time_limit:
    def __init__(self, secs):
        self.secs = secs

    def __enter__(self):
        def h(*a):
            raise Timeout()
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, max(self.secs, 0.01))

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class CaseResult:
    def __init__(self, case):
        self.case = case
        self.status = None          # 'proved' | 'failed' | 'undecided' | 'bounded'
        self.obligations = 0
        self.discharged = 0
        self.by = {}
        self.failed = []            # (label, status, inputs or None, reason)
        self.reason = None
        self.paths = 0
        self.secs = 0.0
        self.functions = set()
        self.contracts = set()
        self.externals = set()
        self.invariants = 0
        self.evals = 0


def make_hooks():
    from . import bvdom
    h = Hooks()
    bvdom.register(h)
    for m in EXTRA_DOMAINS:
        m.register(h)
    return h


EXTRA_DOMAINS = []


def decode_inputs(E, res):
    """values of the case inputs from a counter-model"""
    model = res.model or {}
    out = {}
    for name, spec_ in E.inputs.items():
        kind = spec_[0]
        if kind == 'int':
            v = model.get(name)
            if v is None:
                v = res.evl.ev(spec_[1]) if getattr(res, 'evl', None) else 0
            out[name] = int(v)
        elif kind == 'bool':
            v = model.get(name)
            if v is None:
                v = res.evl.ev(spec_[1]) if getattr(res, 'evl', None) else False
            out[name] = bool(v)
        elif kind == 'fn':
            out[name] = spec_[1](res.evl)
        elif kind == 'bits':
            n = spec_[2]
            n = res.evl.ev(term(n)) if isinstance(n, SInt) else n
            b = 0
            for i in range(n):
                if res.evl.ev(spec_[1](z3.IntVal(i))):
                    b |= 1 << i
            out[name] = b
    return out


def verify_case(case, h, timeout=20, disable=(), budget=240):
    """run one case symbolically"""
    r = CaseResult(case)
    t0 = time.time()
    h.disabled = set(case.verifies) | set(case.inline) | set(disable)
    ips = []

    def run(p):
        ip = Interp(h)
        ips.append(ip)
        E = SymE(ip, p, case.params)
        p.E = E
        try:
            case.fn(E, **case.params)
            E.end()
        except PyRaise as e:
            p.notes.append(f'uncaught {e.exc!r}')
            p.oblige('no-exception', False)
    try:
        with time_limit(budget):
            paths = explore(run)
            r.paths = len(paths)
            for p in paths:
                r.obligations += len(getattr(p, 'invariants', []))
                r.discharged += len(getattr(p, 'invariants', []))
                r.invariants += len(getattr(p, 'invariants', []))
                for ob in p.obls:
                    r.obligations += 1
                    res = p.prove(ob, timeout=timeout)
                    if res.status == 'proved':
                        r.discharged += 1
                        r.by[res.backend] = r.by.get(res.backend, 0) + 1
                    else:
                        inp = None
                        if res.status == 'cex':
                            try:
                                inp = decode_inputs(p.E, res)
                            except Exception as e:
                                inp = None
                        r.failed.append((f'{case.id}/{ob.name}', res.status, inp, res.reason, list(p.notes), str(ob.goal)[:600]))
            # reachability: at least one completed path is satisfiable
            if not paths:
                r.status, r.reason = 'undecided', 'no reachable path (vacuous precondition)'
    except Unsupported as e:
        r.status, r.reason = 'undecided', f'outside the verifier\'s reach: {e}'
    except Timeout:
        r.status, r.reason = 'undecided', 'time budget'
    except RecursionError:
        r.status, r.reason = 'undecided', 'recursion'
    except Exception as e:
        r.status, r.reason = 'undecided', f'engine: {e!r} ' + traceback.format_exc()[-800:]
    V.CUR = None
    for ip in ips:
        r.functions |= ip.used_functions
        r.contracts |= ip.used_contracts
        r.externals |= ip.used_externals
    r.secs = time.time() - t0
    if r.status is None:
        r.status = 'failed' if r.failed else 'proved'
        if not r.obligations:
            r.status, r.reason = 'undecided', 'no obligations generated'
    return r


# ------------------------------------------------------------------ concrete inputs
class Given:
    """inputs of a replay"""

    def __init__(self, d):
        self.d = d

    def int(self, name, lo, hi, kind):
        if name in self.d:
            return int(self.d[name])
        return lo if lo is not None else (hi if hi is not None and hi < 0 else 0)

    def uint(self, name, n):
        return int(self.d.get(name, 0))

    def bool(self, name):
        return bool(self.d.get(name, False))

    def bits(self, name, n):
        return int(self.d.get(name, 0)) & ((1 << n) - 1)

    def choice(self, name, k):
        return int(self.d.get(name, 0)) % k


WIDTHS = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256]


class Rand:
    fresh = ()          # int literals of the code under test that the pinned commit does not have

    def __init__(self, rng, consts=()):
        self.r = rng
        self.consts = list(consts)
        self.last = []

    def near(self, lo, hi):
        """a value next to a literal that is new in the code"""
        if not self.fresh or self.r.random() >= .3:
            return None
        x = self.r.choice(self.fresh)
        x = self.r.choice([x, x, x + 1, x - 1, x + 2, 2 * x, x + self.r.randint(1, 9)])
        return x if (lo is None or x >= lo) and (hi is None or x <= hi) else None

    def int(self, name, lo, hi, kind):
        r = self.r
        x = self.near(lo, hi)
        if x is not None and (kind != 'width' or 0 <= x <= 1200) and (kind != 'amount' or abs(x) <= 3000):
            self.last.append(x if abs(x) < 4096 else 1)
            return x
        if kind == 'width':
            c = [w for w in WIDTHS + [x for x in self.consts if 0 <= x <= 600]
                 if (lo is None or w >= lo) and (hi is None or w <= hi)]
            if lo == 0 and r.random() < .08:
                return 0
            if r.random() < .35:
                return r.randint(max(lo, 1) if lo is not None else 1, min(hi, 12) if hi is not None else 12)
            return r.choice(c) if c else lo
        if kind == 'amount':
            lo_ = lo if lo is not None else -70
            hi_ = hi if hi is not None else 140
            if r.random() < .5:
                hi_ = max(lo_, min(hi_, max(lo_, 0) + 10))
            if lo is None and r.random() < .3:
                lo_ = -12
            return r.randint(lo_, hi_)
        pool = [0, 1, -1, 2, 3, -2]
        pool += [x + d for x in self.consts for d in (0, 1, -1)]
        for w in self.last[-3:]:
            pool += [w, w - 1, w + 1, -w]
        w = r.choice([1, 2, 3, 4, 8, 16, 32, 64, 65, 130])
        pool += [r.randint(-(1 << w), 1 << w), (1 << w), (1 << w) - 1, -(1 << w)]
        pool = [x for x in pool if (lo is None or x >= lo) and (hi is None or x <= hi)]
        if lo is not None and hi is not None:
            pool += [lo, hi, r.randint(lo, hi), r.randint(lo, hi)]
        elif lo is not None:
            pool += [lo, lo + 1, lo + r.randint(0, 20)]
        if not pool:
            return lo if lo is not None else hi
        v = r.choice(pool)
        self.last.append(v if abs(v) < 4096 else 1)
        return v

    def uint(self, name, n):
        r = self.r
        if n == 0:
            return 0
        m = (1 << n) - 1
        x = self.near(None, None)
        if x is not None:
            return x & m
        k = r.random()
        if k < .35:
            return r.getrandbits(n)
        pool = [0, 1, m, m >> 1, (m >> 1) + 1, m - 1, 2 & m, 3 & m, n & m, (n - 1) & m, (n + 1) & m,
                (m >> 1) - 1 if n > 1 else 0, 1 << r.randrange(n), m ^ (1 << r.randrange(n)), r.getrandbits(n) & r.getrandbits(n),
                r.randint(0, min(m, 2 * n + 2)), r.randint(0, min(m, 2 * n + 2))]
        for c in self.consts:
            for d in (0, 1, -1):
                pool.append((c + d) & m)
        for w in self.last[-2:]:
            pool += [w & m, -w & m, w & m]
        v = r.choice(pool)
        self.last.append(v)
        return v

    def bool(self, name):
        return self.r.random() < .5

    def bits(self, name, n):
        return self.uint(name, n) if n else 0

    def choice(self, name, k):
        return self.r.randrange(k)


class Enum_:
    """exhaustive enumeration of small inputs by depth-first prefix"""

    def __init__(self, maxw, amount=None):
        self.maxw = maxw
        self.prefix = []
        self.pos = 0
        self.amount = amount if amount is not None else maxw + 2

    def pick(self, k):
        if k <= 0:
            raise Skip()
        if self.pos == len(self.prefix):
            self.prefix.append([0, k])
        v = self.prefix[self.pos]
        v[1] = k
        self.pos += 1
        return v[0]

    def next(self):
        while self.prefix:
            self.prefix = self.prefix[:max(self.pos, 0)] if self.pos < len(self.prefix) else self.prefix
            if not self.prefix:
                return False
            v = self.prefix[-1]
            if v[0] + 1 < v[1]:
                v[0] += 1
                self.pos = 0
                return True
            self.prefix.pop()
            self.pos = len(self.prefix)
        return False

    def int(self, name, lo, hi, kind):
        if kind == 'width':
            a, b = (lo if lo is not None else 0), self.maxw
            b = min(b, hi) if hi is not None else b
        else:
            m = self.amount
            a = lo if lo is not None else -m
            b = hi if hi is not None else m
            a, b = max(a, -m) if lo is None else a, b
            if b - a > 2 * m + 2:
                b = a + 2 * m + 2
        return a + self.pick(b - a + 1)

    def uint(self, name, n):
        return self.pick(1 << n)

    def bool(self, name):
        return bool(self.pick(2))

    def bits(self, name, n):
        return self.pick(1 << n)

    def choice(self, name, k):
        return self.pick(k)


def run_concrete(case, source):
    """None | (label, detail, inputs, log); raises Skip through"""
    E = ConE(source, case.params)
    try:
        case.fn(E, **case.params)
        E.end()
    except MemoryError:
        raise Skip()
    except Violation as v:
        return (v.label, v.detail, dict(E.inputs), list(E.log)), E
    except PyRaise as e:
        return ('no-exception', f'unexpected {e.exc!r}', dict(E.inputs), list(E.log)), E
    except (Skip, Unsupported):
        raise
    except Exception as e:
        if not case.bounded:
            raise
        return ('no-exception', f'unexpected {e!r}', dict(E.inputs), list(E.log)), E
    return None, E


LAST_SAMPLE = None


def sweep(case, rng, count, consts=(), secs=10.0, maxw=2):
    """bounded run-time check of a case; -> (violation or None, evaluations)"""
    n = 0
    t0 = time.time()
    en = Enum_(maxw)
    distinct = set()

    def one(src):
        nonlocal n
        try:
            v, E = run_concrete(case, src)
        except Skip:
            return None
        n += 1
        distinct.add(tuple(sorted((k, str(x)) for k, x in E.inputs.items())))
        global LAST_SAMPLE
        LAST_SAMPLE = dict(E.inputs)
        return v
    # exhaustive at tiny widths (capped)
    k = 0
    while k < count:
        en.pos = 0
        v = one(en)
        if v:
            return v, n, len(distinct)
        k += 1
        if time.time() - t0 > secs / 2 or not en.next():
            break
    for _ in range(count):
        if time.time() - t0 > secs:
            break
        v = one(Rand(rng, consts))
        if v:
            return v, n, len(distinct)
    return None, n, len(distinct)


def replay(case, inputs):
    try:
        v, E = run_concrete(case, Given(inputs))
    except Skip:
        return None
    return v
