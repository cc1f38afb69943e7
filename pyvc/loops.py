"""Loops over sequences of symbolic length: invariants inferred from templates
(independent of variable names), each proved by init/step obligations."""
import ast
import z3
from . import theory as T
from . import values as V
from . import solve
from .values import *
from .theory import norm


def _interp():
    from . import interp
    return interp


class LoopShape(Unsupported):
    pass


class Loops:
    # ------------------------------------------------------------ universals
    def forall(self, ip, s, positive):
        """bool value of `all elements truthy` (positive) / `all falsy`"""
        p = V.CUR
        n = term(s.length)

        def holds(i):
            b = ip.boolval(s.elem(i))
            return b if positive else ip.not_(b)
        iv = p.fresh('q')
        tmpl = p.pure_bool(lambda: holds(SInt(iv)), [iv >= 0, iv < n])
        g = p.fresh('all', 'bool')
        if p.decide(g):
            p.universals.append((z3.IntVal(0), n, lambda i, t=tmpl, v=iv: z3.Implies(g, T.subst(t, v, i))))
            return True
        w = p.fresh('wit')
        p.assume(w >= 0)
        p.assume(w < n)
        p.assume(z3.Not(T.subst(tmpl, iv, w)))
        p.witness = p.witness + [w]
        return False

    # ------------------------------------------------------------ folds
    def oblige_now(self, p, name, goal, hyps=()):
        """prove an invariant obligation at once; recorded with the path"""
        from .engine import Obligation
        ob = Obligation(name, list(p.pc) + list(hyps), goal, p)
        r = p.prove(ob, timeout=10, cegar=0)
        if r.status == 'proved':
            p.invariants = getattr(p, 'invariants', []) + [ob]
            return True
        return False

    def fold(self, ip, step, n, init):
        """value after n steps of acc = step(k, acc) from init (int)"""
        p = V.CUR
        n = term(n)
        if not isintlike(init):
            raise LoopShape('accumulator is not an int')
        v0 = term(init)
        if T.num(v0) != 0:
            raise LoopShape('accumulator does not start at 0')
        iv = p.fresh('k')
        hy = [iv >= 0, iv < n]
        tmpl = p.pure_bool(lambda: ip.compare('!=', self._int(step(SInt(iv), 0)), 0), hy)
        key = object()
        self._keep = getattr(self, '_keep', [])
        self._keep.append(key)
        # candidate 1: acc_k = integer of the first k bits
        info = p.seqint(key, lambda i: mkbool(T.subst(tmpl, iv, term(i))), mkint(n))
        inv = lambda k: info.B(norm(k))
        if self.try_inv(ip, p, step, n, inv, 'bits'):
            return mkint(inv(n))
        # candidate 2: Horner, most significant first
        key2 = object()
        self._keep.append(key2)
        info2 = p.seqint(key2, lambda i: mkbool(T.subst(tmpl, iv, norm(n - 1 - term(i)))), mkint(n))
        inv2 = lambda k: T.shr(info2.B(norm(n)), norm(n - k))
        if self.try_inv(ip, p, step, n, inv2, 'horner'):
            return mkint(info2.B(norm(n)))
        raise LoopShape('no invariant template fits the loop')

    def _int(self, v):
        if not isintlike(v):
            raise LoopShape('accumulator is not an int')
        return v

    def try_inv(self, ip, p, step, n, inv, name):
        if not self.oblige_now(p, f'loop-{name}-init', inv(z3.IntVal(0)) == 0, [n >= 0]):
            return False
        iv = p.fresh('k')
        hy = [iv >= 0, iv < n]
        try:
            outs = p.sub_explore(lambda: self._int(step(SInt(iv), mkint(inv(iv)))), hy)
        except Unsupported:
            return False
        for conds, k, v in outs:
            if k != 'val':
                return False
            if not self.oblige_now(p, f'loop-{name}-step', term(v) == inv(norm(iv + 1)), hy + list(conds)):
                return False
        return True

    def sum_seq(self, ip, s, start):
        return ip.binop('+', start, self.fold(ip, lambda k, a: ip.binop('+', a, s.elem(k)), s.length, 0))

    # accumulators that are one-bit objects: (recognise, truth, build) triples of the domains
    BITLIKE = []

    # accumulators of other kinds: (recognise, handler) of the domains
    FOLDS = []

    def bitlike(self, ip, v):
        for is_, truth, mk in self.BITLIKE:
            if is_(ip, v):
                return truth, mk
        return None

    def fold_bits(self, ip, step, elem, n, start, i0):
        """acc = start; for k in i0..n-1: acc = step(k, acc); start/acc are bit objects,
        elem(k) the truth of the k-th element.  Invariants tried: start and
        (all|any) of the elements i0..k-1, start combined accordingly."""
        p = V.CUR
        truth, mk = self.bitlike(ip, start)
        t0 = bterm(truth(ip, start))
        jv = p.fresh('ix')
        tm = p.pure_bool(lambda: mkbool(bterm(elem(SInt(jv)))), [jv >= 0, jv < n])
        tr = lambda i: T.subst(tm, jv, i)
        A, N = p.allpred(tr), p.allpred(lambda i: z3.Not(tr(i)))
        # with i0 == 1 the starting value is the element 0 itself
        if T.num(i0) == 1:
            cands = [('all', A), ('any', lambda k: z3.Not(N(k)))]
        else:
            cands = [('all', lambda k: z3.And(t0, A(k))), ('any', lambda k: z3.Or(t0, z3.Not(N(k))))]
        for name, inv in cands:
            if not self.oblige_now(p, f'loop-{name}-init', inv(i0) == t0, [n >= i0]):
                continue
            iv = p.fresh('k')
            hy = [iv >= i0, iv < n]
            try:
                outs = p.sub_explore(lambda: step(SInt(iv), mk(ip, mkbool(inv(iv)))), hy)
            except Unsupported:
                continue
            ok = True
            for conds, kd, v in outs:
                b = self.bitlike(ip, v) if kd == 'val' else None
                if b is None or not self.oblige_now(p, f'loop-{name}-step', bterm(b[0](ip, v)) == inv(norm(iv + 1)), hy + list(conds)):
                    ok = False
                    break
            if ok:
                return mk(ip, mkbool(inv(norm(n))))
        raise LoopShape('no invariant template fits the loop')

    def reduce_seq(self, ip, f, s, init):
        if init is _interp().MISSING or self.bitlike(ip, init):
            p = V.CUR
            n = term(s.length)
            if init is _interp().MISSING:
                if p.decide(n <= 0):
                    ip.raise_(TypeError, 'reduce() of empty iterable with no initial value')
                init, i0 = s.elem(0), z3.IntVal(1)
            else:
                i0 = z3.IntVal(0)
            if self.bitlike(ip, init) is None:
                raise LoopShape('accumulator without invariant templates')

            def el(i):
                v = s.elem(i)
                b = self.bitlike(ip, v)
                if b is None:
                    raise LoopShape('element without invariant templates')
                return b[0](ip, v)
            return self.fold_bits(ip, lambda k, a: ip.call(f, [a, s.elem(k)]), el, n, init, i0)
        return self.fold(ip, lambda k, a: ip.call(f, [a, s.elem(k)]), s.length, init)

    # ------------------------------------------------------------ for statement
    def for_loop(self, ip, s, env, seq):
        I = _interp()
        if s.orelse:
            raise LoopShape('for/else over a symbolic sequence')
        p = V.CUR
        n = term(seq.length)
        targets = I.local_names([ast.Assign(targets=[s.target], value=ast.Constant(value=0))])
        mod = sorted(I.local_names(s.body) - targets)
        appends = self.append_targets(s.body)
        stores = {m for m in self.store_targets(s.body) if self.has(env, m) and isinstance(env.lookup(m), (dict, list))}
        jumps = any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for b in s.body for x in ast.walk(b))

        def run(i, vals):
            """run the body at index i with modified variables vals; -> new values"""
            saved = dict(env.vars)
            outer, e = [], env.parent
            while e is not None:
                outer.append((e, dict(e.vars)))
                e = e.parent

            def go():
                try:
                    ip.exec_block(s.body, env)
                except I.ContinueEx:
                    pass
            try:
                env.vars.update(vals)
                ip.assign(s.target, seq.elem(i), env)
                ip.generic([env], go, vals.values())
                own = targets | set(mod) | set(vals)
                for e, old in [(env, {k: v for k, v in saved.items() if k not in own})] + outer:
                    if any(e.vars.get(k) is not v for k, v in old.items()):
                        raise LoopShape('a variable changes behind the loop')
                return {m: env.vars.get(m) for m in vals}
            finally:
                env.vars.clear()
                env.vars.update(saved)
        if p.decide(n <= 0):
            return
        carried = [m for m in mod if self.has(env, m)]
        local = [m for m in mod if m not in carried]
        if stores:
            if appends or carried or len(stores) != 1 or any(isinstance(x, (ast.Break, ast.Return)) for b in s.body for x in ast.walk(b)):
                raise LoopShape('stores into a container')
            self.dict_loop(ip, env, seq, run, stores.pop(), n)
            self.leave(env, targets | set(local))
            return
        if not carried and not appends:
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in s.body for x in ast.walk(b)):
                if jumps:
                    raise LoopShape('early exit of a generator loop')
                ip.each(env, n, lambda i: run(i, {}))
            elif p.cells.get('trace') is None or not self.event_loop(seq, run, n):
                self.check_loop(ip, s, env, seq, run)
            self.leave(env, targets | set(local))
            return
        if any(isinstance(x, (ast.Break, ast.Return)) for b in s.body for x in ast.walk(b)):
            raise LoopShape('early exit from an accumulating loop')
        if appends and not carried:
            if len(appends) != 1:
                raise LoopShape('several lists')
            name, = appends
            lst = env.lookup(name)
            if not isinstance(lst, list) or lst:
                raise LoopShape('list does not start empty')

            def el(i):
                probe = []
                run(i, {name: probe})
                if len(probe) != 1:
                    raise LoopShape('not one append per iteration')
                return probe[0]
            r = I_SSeq('list', mkint(n), el)
            ip.check_elem(r, 'loop')
            env.assign(name, r)
            self.leave(env, targets | set(local))
            return
        if appends:
            raise LoopShape('list and accumulator')
        # counters and doublings have closed forms
        closed = {}
        vals0 = {m: env.lookup(m) for m in carried}
        for rec, fold in self.FOLDS:
            if len(carried) == 1 and rec(vals0[carried[0]]):
                m, = carried
                env.assign(m, fold(self, ip, lambda k, a: run(k, {m: a})[m], n, vals0[m]))
                self.leave(env, targets | set(local))
                return
        if len(carried) == 1 and self.bitlike(ip, vals0[carried[0]]):
            m, = carried

            def el(i):
                v = seq.elem(i)
                b = self.bitlike(ip, v)
                if b is None:
                    # the contribution of an element shows in one step from the neutral values
                    b = self.contribution(ip, run, m, vals0[m], i)
                return b[0](ip, v) if isinstance(b, tuple) else b
            env.assign(m, self.fold_bits(ip, lambda k, a: run(k, {m: a})[m], el, n, vals0[m], z3.IntVal(0)))
            self.leave(env, targets | set(local))
            return
        acc = list(carried)
        changed = True
        while changed:
            changed = False
            for m in list(acc):
                if not isintlike(vals0[m]):
                    raise LoopShape('carried variable is not an int')
                f = self.closed_form(ip, p, run, n, m, acc, closed, vals0)
                if f is not None:
                    closed[m] = f
                    acc.remove(m)
                    changed = True
        if len(acc) > 1:
            raise LoopShape('several accumulators')
        if acc:
            m, = acc

            def step(k, a):
                v = {c: mkint(f(term(k))) for c, f in closed.items()}
                v[m] = a
                return run(k, v)[m]
            final = self.fold(ip, step, mkint(n), vals0[m])
            env.assign(m, final)
        for c, f in closed.items():
            env.assign(c, mkint(f(n)))
        self.leave(env, targets | set(local))

    def contribution(self, ip, run, m, v0, i):
        truth, mk = self.bitlike(ip, v0)
        a = run(i, {m: mk(ip, True)})[m]
        b = run(i, {m: mk(ip, False)})[m]
        x, y = (self.bitlike(ip, o) for o in (a, b))
        if x is None or y is None:
            raise LoopShape('accumulator changes its type')
        x, y = bterm(x[0](ip, a)), bterm(y[0](ip, b))
        # and-like: (e, False); or-like: (True, e)
        return mkbool(x if z3.is_false(z3.simplify(y)) else y)

    def has(self, env, name):
        e = env
        while e is not None:
            if name in e.vars:
                return True
            e = e.parent
        return False

    def leave(self, env, names):
        # values of loop-local names after the loop are not tracked
        for x in names:
            env.vars.pop(x, None)

    def closed_form(self, ip, p, run, n, m, acc, closed, vals0):
        iv = p.fresh('k')
        xs = {a: p.fresh('v') for a in acc}
        hy = [iv >= 0, iv < n]

        def go():
            v = {c: mkint(f(iv)) for c, f in closed.items()}
            v.update({a: SInt(t) for a, t in xs.items()})
            return run(SInt(iv), v)[m]
        try:
            outs = p.sub_explore(go, hy)
        except Unsupported:
            return None
        if not outs or any(k != 'val' or not isintlike(v) for _, k, v in outs):
            return None
        d = {T.num(norm(term(v) - xs[m])) for _, _, v in outs}
        v0 = term(vals0[m])
        if len(d) == 1 and None not in d:
            c = d.pop()
            return lambda k: norm(v0 + z3.IntVal(c) * k)
        dd = {T.num(norm(term(v) - 2 * xs[m])) for _, _, v in outs}
        if dd == {0}:
            return lambda k: T.shl(v0, norm(k))
        return None

    def dict_loop(self, ip, env, seq, run, name, n):
        """one entry per iteration, in order, into an empty mapping"""
        d = env.lookup(name)
        if not isinstance(d, dict) or d:
            raise LoopShape('mapping does not start empty')

        def el(i):
            probe = {}
            run(i, {name: probe})
            if len(probe) != 1:
                raise LoopShape('not one entry per iteration')
            return next(iter(probe.items()))
        r = I_SSeq('iter', mkint(n), el)
        ip.check_elem(r, 'loop')
        env.assign(name, ip.h.dict_of_seq(ip, r))

    def store_targets(self, body):
        out = set()
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name):
                    out.add(x.value.id)
        return out

    def append_targets(self, body):
        out = set()
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) \
                        and x.func.attr in ('append', 'extend', 'insert', 'add', 'update', 'pop', 'setdefault'):
                    out.add(x.func.value.id)
        return out

    def event_loop(self, seq, run, n):
        """A loop that does nothing but cause events: those of iteration 0, then those of iteration 1, …"""
        p = V.CUR

        def body(i):
            q = V.CUR
            saved, q.cells['trace'] = q.cells['trace'], []
            try:
                run(i, {})
                return q.cells['trace']
            finally:
                q.cells['trace'] = saved
        kv = p.fresh('k')
        I = _interp()
        try:
            outs = p.sub_explore(lambda: body(SInt(kv)), [kv >= 0, kv < n])
        except (I.ReturnEx, I.BreakEx):
            raise LoopShape('early exit')
        if not any(kd == 'val' and v for _, kd, v in outs):
            return False
        if any(kd != 'val' for _, kd, _ in outs):
            raise LoopShape('an iteration may raise')
        p.cells['trace'].append(('each', n, body))
        return True

    def check_loop(self, ip, s, env, seq, run):
        """A loop without carried variables: every iteration falls through, or
        the first one that does not decides."""
        I = _interp()
        p = V.CUR
        n = term(seq.length)

        def body(i):
            try:
                run(i, {})
                return True
            except (I.ReturnEx, I.BreakEx):
                return False
            except PyRaise:
                return False
        iv = p.fresh('q')
        tmpl = p.pure_bool(lambda: body(SInt(iv)), [iv >= 0, iv < n])
        g = p.fresh('all', 'bool')
        sub = lambda i: T.subst(tmpl, iv, i)
        if p.decide(g):
            p.universals.append((z3.IntVal(0), n, lambda i: z3.Implies(g, sub(i))))
            return
        w = p.fresh('wit')
        p.assume(w >= 0)
        p.assume(w < n)
        p.universals.append((z3.IntVal(0), w, lambda i: z3.Implies(z3.Not(g), sub(i))))
        p.assume(z3.Not(sub(w)))
        p.witness = p.witness + [w]
        saved = dict(env.vars)
        try:
            ip.assign(s.target, seq.elem(mkint(w)), env)
            ip.exec_block(s.body, env)
        except I.ContinueEx:
            raise I.Infeasible_()
        except I.BreakEx:
            env.vars.clear()
            env.vars.update(saved)
            return
        raise I.Infeasible_()

    def while_closed(self, ip, s, env):
        """while loop whose test holds now and whose carried ints have closed forms after k
        iterations (x + c*k, x >> k, x << k): leaves the state after the loop in env.  The closed
        forms are invariants: true for k = 0, preserved by the body under the test (checked here);
        on exit the test failed after k iterations and held after k - 1.  Termination not proved."""
        I = _interp()
        p = V.CUR
        names = [x for x in I.local_names(s.body) if x in env.vars and isintlike(env.vars[x])]
        if set(I.local_names(s.body)) != set(names) or not names:
            return False
        saved = dict(env.vars)
        v0 = {x: term(saved[x]) for x in names}
        xs = {x: p.fresh('w') for x in names}

        def go():
            env.vars.clear()
            env.vars.update(saved)
            env.vars.update({x: SInt(t) for x, t in xs.items()})
            old, ip.havoc = ip.havoc, True
            try:
                if not ip.truth(ip.ev(s.test, env)):
                    return None
                ip.exec_block(s.body, env)
                r = tuple(env.vars[x] for x in names)
            except (I.BreakEx, I.ContinueEx, I.ReturnEx):
                raise Unsupported('jump out of a while loop')
            finally:
                ip.havoc = old
                env.vars.clear()
                env.vars.update(saved)
            if not all(isintlike(x) for x in r):
                raise Unsupported('carried value')
            return r
        try:
            outs = p.sub_explore(go, [])
        except Unsupported:
            return False
        forms = {}
        for j, x in enumerate(names):
            f = None
            for c, k, v in outs:
                if k != 'val':
                    return False
                if v is None:
                    continue
                t, w = norm(term(v[j])), xs[x]
                d = T.num(norm(t - w))
                if d is not None:
                    g = ('+', d)
                elif t.eq(norm(T.shr(w, z3.IntVal(1)))):
                    g = ('>>',)
                elif T.num(norm(t - 2 * w)) == 0:
                    g = ('<<',)
                else:
                    return False
                if f is not None and f != g:
                    return False
                f = g
            if f is None:
                return False
            forms[x] = f

        def at(k):
            out = {}
            for x, f in forms.items():
                out[x] = norm(v0[x] + z3.IntVal(f[1]) * k) if f[0] == '+' else \
                    T.shr(v0[x], norm(k)) if f[0] == '>>' else T.shl(v0[x], norm(k))
            return {x: mkint(t) for x, t in out.items()}
        k = p.fresh('iterations')
        p.assume(k >= 1)
        env.vars.update(at(k - 1))
        if not ip.truth(ip.ev(s.test, env)):
            raise I.Infeasible_()
        env.vars.update(at(k))
        if ip.truth(ip.ev(s.test, env)):
            raise I.Infeasible_()
        ip.closed_loops = getattr(ip, 'closed_loops', 0) + 1
        return True


def I_SSeq(kind, length, elem):
    return SSeq(kind, length, elem)
