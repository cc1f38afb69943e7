"""Path exploration by re-execution, obligations."""
import z3
from . import values as V
from .values import *
from . import solve
from . import theory as T


class Infeasible(BaseException):
    pass


class Obligation:
    def __init__(self, name, pc, goal, path):
        self.name, self.pc, self.goal, self.path = name, list(pc), goal, path
        self.result = None


class SeqInfo:
    """Bit-valued view of a symbolic sequence: truth(i) -> z3 Bool; the integer
    with these bits (element i has weight 2^i) up to k is B(k)."""

    def __init__(self, sid, truth):
        self.sid, self.truth = sid, truth
        self.B = z3.Function(f'B!{sid}', T.I, T.I)


class Path:
    def __init__(self, prefix, spent):
        self.prefix = prefix
        self.dec = []
        self.pc = []
        self.alts = []
        self.obls = []
        self.nfresh = {}
        self.seqs = {}
        self.alls = {}           # predicates "all elements below k are true": name -> (A, skolem, truth)
        self.witness = []
        self.notes = []
        self.spent = spent
        self.small = []
        self.universals = []     # list of (lo, hi, fn(i)->z3 Bool) facts known for all lo<=i<hi
        self.cells = {}

    def fresh(self, name, sort='int'):
        n = self.nfresh.get(name, 0)
        self.nfresh[name] = n + 1
        full = f'{name}!{n}' if n else name
        return {'int': z3.Int, 'bool': z3.Bool}[sort](full)

    def freshfun(self, name, *sorts):
        n = self.nfresh.get(name, 0)
        self.nfresh[name] = n + 1
        full = f'{name}!{n}' if n else name
        return z3.Function(full, *sorts)

    def hyps(self):
        return self.pc

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise Infeasible()
            return
        if isinstance(f, SBool):
            f = f.t
        if z3.is_false(f):
            raise Infeasible()
        if not z3.is_true(f):
            self.pc.append(f)

    def decide(self, cond):
        if isinstance(cond, bool):
            return cond
        if isinstance(cond, SBool):
            cond = cond.t
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        for p in self.pc:
            if p.eq(cond):
                return True
            if z3.is_not(p) and p.arg(0).eq(cond):
                return False
            if z3.is_not(cond) and cond.arg(0).eq(p):
                return False
        i = len(self.dec)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            h = self.hyps_for_decide()
            ft = solve.feasible(h + [cond])
            ff = solve.feasible(h + [z3.Not(cond)])
            if not ft and not ff:
                raise Infeasible()
            if ft and ff:
                v = True
                self.alts.append(self.dec + [False])
            else:
                v = ft
        self.dec.append(v)
        self.pc.append(cond if v else z3.Not(cond))
        return v

    def hyps_for_decide(self):
        return list(self.pc)

    def known(self, cond):
        """proved under the path condition (no forking)"""
        if isinstance(cond, bool):
            return cond
        if isinstance(cond, SBool):
            cond = cond.t
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return not solve.feasible(self.pc + [z3.Not(cond)])

    def oblige(self, name, goal):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        elif isinstance(goal, SBool):
            goal = goal.t
        self.obls.append(Obligation(name, self.pc, goal, self))

    def sub_explore(self, fn, hyps=()):
        """All outcomes of fn() under extra hypotheses, as (conds, kind, value);
        decisions inside do not fork this path."""
        out = []
        stack = [[]]
        n = 0
        facts = self.cells.setdefault('facts', [])
        known = len(facts)
        while stack:
            prefix = stack.pop()
            n += 1
            if n > 64:
                raise Unsupported('too many sub-paths')
            new = facts[known:]
            c = Path(prefix, self.spent)
            c.pc = list(self.pc) + new + [h for h in hyps]
            c.nfresh = self.nfresh
            c.seqs = self.seqs
            c.alls = self.alls
            c.witness = list(self.witness)
            c.universals = self.universals
            c.small = self.small
            c.cells = self.cells
            c.E = getattr(self, 'E', None)
            base = len(c.pc)
            old = V.CUR
            V.CUR = c
            try:
                try:
                    v = ('val', fn())
                except PyRaise as e:
                    v = ('exc', e.exc)
                if c.obls:
                    raise Unsupported('obligation inside a pure context')
                valid = {id(f) for f in facts}
                out.append(([f for f in c.pc[base:] if id(f) not in valid], v[0], v[1]))
            except Infeasible:
                pass
            finally:
                V.CUR = old
            stack.extend(c.alts)
        self.pc.extend(facts[known:])
        return out

    def pure_bool(self, fn, hyps=()):
        """z3 Bool of the boolean-valued fn() without forking"""
        res = self.sub_explore(fn, hyps)
        r = []
        for conds, k, v in res:
            if k == 'exc':
                raise Unsupported(f'element evaluation may raise {v!r}')
            r.append(z3.And(*conds, bterm(v)) if conds else bterm(v))
        return z3.Or(*r) if len(r) != 1 else r[0]

    # ---- sequences as integers ----
    def seqint(self, seq, elem_truth, length):
        """SeqInfo for a sequence object (memoised per object); elem_truth(i) -> bool value"""
        key = id(seq)
        if key not in self.seqs:
            iv = self.fresh('ix')
            tmpl = self.pure_bool(lambda: elem_truth(SInt(iv)), [iv >= 0, iv < term(length)])
            tr = lambda i: T.subst(tmpl, iv, term(i))
            self.seqs[key] = (SeqInfo(len(self.seqs), tr), seq)
        return self.seqs[key][0]

    def allpred(self, truth):
        """predicate A(k): truth(i) for all 0 <= i < k"""
        n = len(self.alls)
        A, w = z3.Function(f'A!{n}', T.I, z3.BoolSort()), z3.Function(f'Aw!{n}', T.I, T.I)
        self.alls[f'A!{n}'] = (A, w, truth)
        return A

    def all_facts(self, done, fs):
        """instances of the definition of the A predicates and of the known universals"""
        out = []
        idx = {}
        ks = []
        for t in T.subterms(fs):
            if z3.is_app(t) and t.num_args() == 1 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = t.decl().name()
                if n in self.alls:
                    ks.append((n, t.arg(0)))
                    k = t.arg(0)
                    w = self.alls[n][1](k)
                    for i in (norm(k - 1), k, w, norm(w + 1)):
                        idx.setdefault(i.get_id(), i)
                elif z3.is_bool(t) and t.arg(0).sort() == T.I:
                    idx.setdefault(t.arg(0).get_id(), t.arg(0))
        for w in self.witness:
            w = w if isinstance(w, z3.ExprRef) else term(w)
            for i in (w, norm(w - 1), norm(w + 1)):
                idx.setdefault(i.get_id(), i)
        idx.setdefault(z3.IntVal(0).get_id(), z3.IntVal(0))
        for n, k in ks:
            A, w, truth = self.alls[n]
            if (n, k.get_id()) not in done:
                done.add((n, k.get_id()))
                T._keep.append(k)
                wk = w(k)
                out.append(z3.Or(A(k), z3.And(wk >= 0, wk < k, z3.Not(truth(wk)))))
            for i in idx.values():
                if (n, k.get_id(), i.get_id()) not in done:
                    done.add((n, k.get_id(), i.get_id()))
                    T._keep.append(i)
                    out.append(z3.Implies(z3.And(A(k), i >= 0, i < k), truth(i)))
        for j, (lo, hi, fn) in enumerate(self.universals):
            for i in idx.values():
                if ('u', j, i.get_id()) not in done:
                    done.add(('u', j, i.get_id()))
                    T._keep.append(i)
                    out.append(z3.Implies(z3.And(lo <= i, i < hi), fn(i)))
        return out

    def seq_extra_inst(self):
        """extra instantiation hook for the lemma engine: defining facts of B"""
        infos = {f'B!{i.sid}': i for i, _ in self.seqs.values()}
        dones = {}

        def hook(ins):
            out = []
            done = dones.setdefault(id(ins), (set(), ins))[0]
            # applications B(k), bit(B(k), i)
            fs = list(ins.out) + self._base
            for t in T.subterms(fs):
                if not z3.is_app(t):
                    continue
                n = t.decl().name()
                if n in infos and t.num_args() == 1:
                    k = t.arg(0)
                    if (n, k.get_id()) in done:
                        continue
                    done.add((n, k.get_id()))
                    out.append(z3.Implies(k <= 0, t == 0))
                    out.append(t >= 0)
                    out.append(z3.Implies(k >= 0, t < T.pow2(k)))
                    T._keep.append(t)
                if n == 'bit' and z3.is_app(t.arg(0)) and t.arg(0).decl().name() in infos:
                    b = t.arg(0)
                    info = infos[b.decl().name()]
                    k, i = b.arg(0), t.arg(1)
                    key = ('bit', n, k.get_id(), i.get_id(), info.sid)
                    if key in done:
                        continue
                    done.add(key)
                    tr = info.truth(mkint(i))
                    out.append(z3.Implies(z3.And(0 <= i, i < k), t == tr))
                    out.append(z3.Implies(z3.And(i >= k, i >= 0), z3.Not(t)))
                    T._keep.append(t)
            out += self.all_facts(done, fs)
            # step facts B(k+1) = B(k) + truth(k) 2^k
            byn = {}
            for t in T.subterms(fs):
                if z3.is_app(t) and t.decl().name() in infos and t.num_args() == 1:
                    byn.setdefault(t.decl().name(), []).append(t)
            for n, ts in byn.items():
                for a in ts:
                    for b in ts:
                        if T.num(norm(b.arg(0) - a.arg(0))) == 1:
                            key = ('step', n, a.arg(0).get_id(), b.arg(0).get_id())
                            if key in done:
                                continue
                            done.add(key)
                            k = a.arg(0)
                            tr = infos[n].truth(mkint(k))
                            out.append(z3.Implies(z3.And(k >= 0, tr), b == a + T.pow2(k)))
                            out.append(z3.Implies(z3.And(k >= 0, z3.Not(tr)), b == a))
            return out
        return hook

    def seq_extra_eval(self):
        d = {}
        for info, _ in self.seqs.values():
            def f(ev, args, info=info):
                k = args[0]
                if k > 4000:
                    raise T.TooBig(k)
                r = 0
                for i in range(max(k, 0)):
                    if ev.ev(info.truth(i)):
                        r |= 1 << i
                return r
            d[f'B!{info.sid}'] = f
        for n, (A, w, truth) in self.alls.items():
            def least(ev, args, truth=truth):
                if args[0] > 4000:
                    raise T.TooBig(args[0])
                return next((i for i in range(max(args[0], 0)) if not ev.ev(truth(z3.IntVal(i)))), None)
            d[n] = lambda ev, args, f=least: f(ev, args) is None
            d[w.name()] = lambda ev, args, f=least: f(ev, args) or 0
        return d

    def prove(self, ob, timeout=20, cegar=24):
        self._base = list(ob.pc) + [ob.goal]
        old = V.CUR
        V.CUR = self
        try:
            ob.result = solve.discharge(ob.pc, ob.goal, self.seq_extra_inst() if self.seqs or self.alls or self.universals else None,
                                        self.seq_extra_eval(), timeout=timeout, small=self.small, cegar=cegar)
        finally:
            V.CUR = old
        return ob.result


def explore(run, maxpaths=600):
    """run(path) executes one path; returns the list of completed paths"""
    stack = [[]]
    paths = []
    n = 0
    while stack:
        prefix = stack.pop()
        n += 1
        if n > maxpaths:
            raise Unsupported(f'more than {maxpaths} paths')
        p = Path(prefix, n)
        old = V.CUR
        V.CUR = p
        try:
            run(p)
            p.completed = True
            paths.append(p)
        except Infeasible:
            p.completed = False
        finally:
            V.CUR = old
        stack.extend(p.alts)
    return paths
