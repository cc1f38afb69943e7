"""Discharging obligations: ground instantiation + z3 (cvc5 as second opinion),
counter-models made concrete under the true semantics (CEGAR)."""
import time, subprocess, tempfile, os
import z3
from . import theory as T
from .theory import *
from .lemmas import Instantiator

STATS = {'z3': 0.0, 'cvc5': 0.0, 'inst': 0.0, 'queries': 0, 'by': {'trivial': 0, 'z3': 0, 'cvc5': 0}}


class Result:
    def __init__(self, status, backend=None, model=None, reason=None, secs=0.0):
        self.status, self.backend, self.reason, self.secs = status, backend, reason, secs
        self.model, self.evl = model if isinstance(model, tuple) else (model, None)

    def __repr__(self):
        return f'Result({self.status}, {self.backend}, {self.reason})'


def _solver(timeout_ms):
    s = z3.SolverFor('QF_UFLIA')
    s.set('timeout', timeout_ms)
    return s


_quick_cache = {}


def feasible(fs, timeout=1500):
    """may be True when unknown; False only when proved infeasible"""
    fs = [f for f in fs if not z3.is_true(f)]
    if any(z3.is_false(f) for f in fs):
        return False
    key = frozenset(f.get_id() for f in fs)
    if key in _quick_cache:
        return _quick_cache[key]
    for f in fs:
        T._keep.append(f)
    STATS['queries'] += 1
    t0 = time.time()
    s = _solver(timeout)
    s.add(*fs)
    r = s.check()
    if r == z3.sat:
        ins = Instantiator(rounds=2, cap=900, ext=False).run(fs)
        if ins:
            s.add(*ins)
            r = s.check()
    STATS['z3'] += time.time() - t0
    _quick_cache[key] = (r != z3.unsat)
    return r != z3.unsat


def consts_of(fs):
    return [t for t in subterms(fs) if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED]


def make_evaluator(m, extra):
    def const(t):
        v = m.eval(t, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        return z3.is_true(v)

    def func(d, args):
        a = []
        for x in args:
            a.append(z3.BoolVal(x) if isinstance(x, bool) else z3.IntVal(x))
        v = m.eval(d(*a), model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        return z3.is_true(v)
    return Evaluator(const, func, extra)


def lit(v):
    return z3.BoolVal(v) if isinstance(v, bool) else z3.IntVal(v)


def discharge(pc, goal, extra_inst=None, extra_eval=None, timeout=20, rounds=3, small=(), cegar=24,
              use_cvc5=True):
    """small: list of z3 Int terms to keep small in counter-models (widths, amounts)."""
    t0 = time.time()
    STATS['queries'] += 1
    goal = z3.simplify(goal) if z3.is_bool(goal) and not z3.is_eq(goal) else goal
    if z3.is_true(goal):
        STATS['by']['trivial'] += 1
        return Result('proved', 'trivial')
    fs = list(pc) + [z3.Not(goal)]
    s = _solver(int(timeout * 1000))
    s.add(*fs)
    r = s.check()
    if r == z3.unsat:
        STATS['z3'] += time.time() - t0
        STATS['by']['z3'] += 1
        return Result('proved', 'z3', secs=time.time() - t0)
    last = None
    for rd in range(1, rounds + 1):
        ti = time.time()
        ins = Instantiator(rounds=rd).run(fs, extra_inst)
        STATS['inst'] += time.time() - ti
        s = _solver(int(timeout * 1000))
        s.add(*fs)
        s.add(*ins)
        tz = time.time()
        r = s.check()
        STATS['z3'] += time.time() - tz
        if r == z3.unsat:
            STATS['by']['z3'] += 1
            return Result('proved', 'z3', secs=time.time() - t0)
        last = r
        if rd == 1 and r == z3.sat and cegar:
            # cheap attempt at a genuine counterexample
            c = concretise(fs, ins, extra_eval, small, 3, timeout / 4)
            if c is not None:
                return Result('cex', 'z3', model=c, secs=time.time() - t0)
    if last == z3.sat and cegar:
        c = concretise(fs, ins, extra_eval, small, cegar, timeout)
        if c == 'unsat':
            STATS['by']['z3'] += 1
            return Result('proved', 'z3', secs=time.time() - t0)
        if c is not None:
            return Result('cex', 'z3', model=c, secs=time.time() - t0)
        return Result('unknown', reason='spurious counter-models (incomplete lemma instances)', secs=time.time() - t0)
    if use_cvc5:
        tz = time.time()
        v = cvc5_check(s, timeout)
        STATS['cvc5'] += time.time() - tz
        if v == 'unsat':
            STATS['by']['cvc5'] += 1
            return Result('proved', 'cvc5', secs=time.time() - t0)
    return Result('unknown', reason=str(last), secs=time.time() - t0)


def cvc5_check(s, timeout):
    txt = '(set-logic QF_UFNIA)\n' + s.to_smt2().replace('(set-logic QF_UFLIA)', '')
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(['cvc5', f'--tlimit={int(timeout * 1000)}', f.name], capture_output=True, text=True,
                           timeout=timeout + 5)
        return p.stdout.strip().split('\n')[0]
    except Exception as e:
        return f'error {e}'
    finally:
        os.unlink(f.name)


def concretise(fs, ins, extra_eval, small, tries, timeout):
    """Look for a model whose input values violate the obligation under the
    true semantics of the theory; returns dict term-name -> value, None, or
    'unsat' (the true ground facts added refute the obligation)."""
    deadline = time.time() + timeout * 1.5
    base = list(fs) + list(ins)
    facts = []
    sub = [t for t in subterms(fs)]
    uf = [t for t in sub if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED]
    exps = [t.arg(0) for t in uf if t.decl().eq(POW)] + [t.arg(1) for t in uf if t.decl().name() in ('shl', 'shr', 'mod2')]
    for bound in (6, 20, 70, 600, 5000):
        s = _solver(int(min(timeout, 8) * 1000))
        s.add(*base)
        s.add(*facts)
        for t in list(small) + exps:
            s.add(t <= bound)
        for _ in range(tries):
            if time.time() > deadline:
                return None
            r = s.check()
            if r != z3.sat:
                break
            m = s.model()
            evl = make_evaluator(m, extra_eval)
            try:
                vals = [evl.ev(f) for f in fs]
            except TooBig:
                break
            if all(vals):
                out = {}
                for c in consts_of(fs):
                    out[c.decl().name()] = evl.ev(c)
                return out, evl
            for t in uf:
                if t.decl().name() not in NAMED and t.decl().name() not in (extra_eval or {}):
                    continue
                try:
                    av = [evl.ev(a) for a in t.children()]
                    v = evl.ev(t)
                except TooBig:
                    continue
                conds = [a == lit(x) for a, x in zip(t.children(), av) if not (z3.is_int_value(a))]
                # opaque arguments of extra functions need their own environment
                if t.decl().name() in (extra_eval or {}):
                    continue
                f = z3.Implies(z3.And(*conds) if conds else z3.BoolVal(True), t == lit(v))
                facts.append(f)
                s.add(f)
    return None
