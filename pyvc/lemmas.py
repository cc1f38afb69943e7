"""Lemma library.  Each lemma is stated once, over the polymorphic functions of
theory.py: it is instantiated on z3 terms by the triggers below, printed to
Lean for its proof (lean/Lemmas.lean proves every one of them), and evaluated
on Python ints as a cheap self-test."""
import z3
from .theory import *
from . import theory as T

LEMMAS = {}


class Lemma:
    def __init__(self, name, vars, fn):
        self.name, self.vars, self.fn = name, vars, fn

    def formula(self, *args):
        h, c = self.fn(*args)
        m = mode(*args)
        return h, c


def lemma(vars):
    def deco(fn):
        LEMMAS[fn.__name__] = Lemma(fn.__name__, vars.split(), fn)
        return fn
    return deco


# ------------------------------------------------------------- powers of two
@lemma('k')
def pow2_pos(k): return [], pow2(k) >= 1
@lemma('k')
def pow2_nonpos(k): return [k <= 0], pow2(k) == 1
@lemma('k')
def pow2_gt(k): return [], k < pow2(k)
@lemma('k')
def pow2_ge2(k): return [k >= 1], pow2(k) >= 2
@lemma('a c')
def pow2_step(a, c): return [a >= 0, c >= 0], pow2(a + c) == pow2(a) * pow2(c)
@lemma('a b')
def pow2_mono(a, b): return [0 <= a, a < b], 2 * pow2(a) <= pow2(b)
@lemma('a b')
def pow2_inj(a, b): return [a == b], pow2(a) == pow2(b)
@lemma('a b')
def shl_pow2(a, b): return [a >= 0, b >= 0], shl(pow2(a), b) == pow2(a + b)


# ------------------------------------------------------------- mod2
@lemma('x k')
def mod2_range(x, k): return [], AND(0 <= mod2(x, k), mod2(x, k) < pow2(k))
@lemma('x k')
def mod2_id(x, k): return [0 <= x, x < pow2(k)], mod2(x, k) == x
@lemma('x k')
def mod2_hi(x, k): return [pow2(k) <= x, x < 2 * pow2(k)], mod2(x, k) == x - pow2(k)
@lemma('x k')
def mod2_hi2(x, k): return [2 * pow2(k) <= x, x < 3 * pow2(k)], mod2(x, k) == x - 2 * pow2(k)
@lemma('x k')
def mod2_lo(x, k): return [-pow2(k) <= x, x < 0], mod2(x, k) == x + pow2(k)
@lemma('x k')
def mod2_lo2(x, k): return [-2 * pow2(k) <= x, x < -pow2(k)], mod2(x, k) == x + 2 * pow2(k)
@lemma('x k')
def mod2_decomp(x, k): return [], x == shl(shr(x, k), k) + mod2(x, k)
@lemma('c x j r k')
def mod2_drop_mod(c, x, j, r, k):
    return [k <= j], mod2(mul(c, mod2(x, j)) + r, k) == mod2(mul(c, x) + r, k)
@lemma('c j r k')
def mod2_drop_pow(c, j, r, k):
    return [k <= j], mod2(mul(c, pow2(j)) + r, k) == mod2(r, k)
@lemma('c y j r k')
def mod2_drop_shl(c, y, j, r, k):
    return [k <= j], mod2(mul(c, shl(y, j)) + r, k) == mod2(r, k)
@lemma('c x j b r k')
def mod2_drop_mul(c, x, j, b, r, k):
    return [k <= j], mod2(mul(c, mul(mod2(x, j), b)) + r, k) == mod2(mul(c, mul(x, b)) + r, k)
@lemma('x j k')
def mod2_shl(x, j, k): return [0 <= j, j <= k], mod2(shl(x, j), k) == shl(mod2(x, k - j), j)
@lemma('x j k')
def mod2_shr(x, j, k): return [0 <= j, 0 <= k], mod2(shr(x, j), k) == shr(mod2(x, j + k), j)
@lemma('x y k')
def mod2_cong(x, y, k): return [x == y], mod2(x, k) == mod2(y, k)


# ------------------------------------------------------------- shr
@lemma('x k')
def shr_nonneg(x, k): return [0 <= x], AND(0 <= shr(x, k), shr(x, k) <= x)
@lemma('x k')
def shr_neg(x, k): return [x < 0], AND(x <= shr(x, k), shr(x, k) <= -1)
@lemma('x k')
def shr_zero(x, k): return [0 <= x, x < pow2(k)], shr(x, k) == 0
@lemma('x k')
def shr_one(x, k): return [pow2(k) <= x, x < 2 * pow2(k)], shr(x, k) == 1
@lemma('x k')
def shr_m1(x, k): return [-pow2(k) <= x, x < 0], shr(x, k) == -1
@lemma('x k')
def shr_id(x, k): return [k <= 0], shr(x, k) == x
@lemma('x m k')
def shr_lt(x, m, k): return [0 <= k, k <= m, x < pow2(m)], shr(x, k) < pow2(m - k)
@lemma('x m k')
def shr_ge(x, m, k): return [0 <= k, k <= m, -pow2(m) <= x], -pow2(m - k) <= shr(x, k)
@lemma('x a b')
def shr_shr(x, a, b): return [0 <= a, 0 <= b], shr(shr(x, a), b) == shr(x, a + b)
@lemma('c y j r k')
def shr_drop_shl(c, y, j, r, k):
    return [0 <= k, k <= j], shr(mul(c, shl(y, j)) + r, k) == mul(c, shl(y, j - k)) + shr(r, k)
@lemma('c j r k')
def shr_drop_pow(c, j, r, k):
    return [0 <= k, k <= j], shr(mul(c, pow2(j)) + r, k) == mul(c, pow2(j - k)) + shr(r, k)
@lemma('x j k')
def shr_shl(x, j, k): return [0 <= j, j <= k], shr(shl(x, j), k) == shr(x, k - j)
@lemma('x y k')
def shr_mono(x, y, k): return [x <= y], shr(x, k) <= shr(y, k)
@lemma('x a b')
def shr_mod2(x, a, b): return [0 <= b, b <= a], shr(mod2(x, a), b) == mod2(shr(x, b), a - b)


# ------------------------------------------------------------- shl
@lemma('x k')
def shl_zero(x, k): return [x == 0], shl(x, k) == 0
@lemma('x k')
def shl_id(x, k): return [k <= 0], shl(x, k) == x
@lemma('x k')
def shl_one(x, k): return [k == 1], shl(x, k) == 2 * x
@lemma('x k')
def shl_nonneg(x, k): return [0 <= x], x <= shl(x, k)
@lemma('x k')
def shl_neg(x, k): return [x < 0], shl(x, k) <= x
@lemma('x m k')
def shl_lt(x, m, k):
    return [0 <= m, 0 <= k, x < pow2(m)], shl(x, k) + pow2(k) <= pow2(m + k)
@lemma('x m k')
def shl_ge(x, m, k): return [0 <= m, 0 <= k, -pow2(m) <= x], -pow2(m + k) <= shl(x, k)
@lemma('x y k')
def shl_mono(x, y, k): return [x < y], shl(x, k) + pow2(k) <= shl(y, k)
@lemma('x a b')
def shl_shl(x, a, b): return [0 <= a, 0 <= b], shl(shl(x, a), b) == shl(x, a + b)
@lemma('x a c')
def shl_step(x, a, c): return [0 <= a, 0 <= c], shl(x, a + c) == shl(x, a) * pow2(c)
@lemma('c x r k')
def shl_split(c, x, r, k): return [], shl(mul(c, x) + r, k) == mul(c, shl(x, k)) + shl(r, k)
@lemma('x k n')
def shl_mask(x, k, n): return [x == pow2(k) - 1, 0 <= k, 0 <= n], shl(x, n) == pow2(n + k) - pow2(n)
@lemma('x y k')
def shl_cong(x, y, k): return [x == y], shl(x, k) == shl(y, k)


# ------------------------------------------------------------- bits
@lemma('x i')
def bit_def(x, i): return [], IFF(bit(x, i), mod2(shr(x, i), 1) == 1)
@lemma('x')
def bit_zero(x): return [], IFF(bit(x, 0), mod2(x, 1) == 1)
@lemma('x k')
def bit_top(x, k): return [0 <= x, x < 2 * pow2(k)], IFF(bit(x, k), x >= pow2(k))
@lemma('x k i')
def bit_small(x, k, i): return [0 <= x, x < pow2(k), k <= i], NOT(bit(x, i))
@lemma('x k i')
def bit_small_neg(x, k, i): return [-pow2(k) <= x, x < 0, k <= i], bit(x, i)
@lemma('x k i')
def bit_mod2(x, k, i): return [0 <= i], IFF(bit(mod2(x, k), i), AND(i < k, bit(x, i)))
@lemma('x k i')
def bit_shr(x, k, i): return [0 <= i, 0 <= k], IFF(bit(shr(x, k), i), bit(x, i + k))
@lemma('x k i')
def bit_shl(x, k, i): return [0 <= i, 0 <= k], IFF(bit(shl(x, k), i), AND(k <= i, bit(x, i - k)))
@lemma('x y i')
def bit_band(x, y, i): return [], IFF(bit(band(x, y), i), AND(bit(x, i), bit(y, i)))
@lemma('x y i')
def bit_bor(x, y, i): return [], IFF(bit(bor(x, y), i), OR(bit(x, i), bit(y, i)))
@lemma('x y i')
def bit_bxor(x, y, i): return [], IFF(bit(bxor(x, y), i), NOT(IFF(bit(x, i), bit(y, i))))
@lemma('x i')
def bit_not(x, i): return [], IFF(bit(-x - 1, i), NOT(bit(x, i)))
@lemma('k i')
def bit_pow2(k, i): return [0 <= k, 0 <= i], IFF(bit(pow2(k), i), i == k)
@lemma('k i')
def bit_mask(k, i): return [0 <= k, 0 <= i], IFF(bit(pow2(k) - 1, i), i < k)
@lemma('x y k i')
def bit_join_lo(x, y, k, i):
    return [0 <= x, x < pow2(k), 0 <= i, i < k], IFF(bit(x + shl(y, k), i), bit(x, i))
@lemma('x y k i')
def bit_join_hi(x, y, k, i):
    return [0 <= x, x < pow2(k), 0 <= k, k <= i], IFF(bit(x + shl(y, k), i), bit(y, i - k))
@lemma('x y')
def bit_ext(x, y): return None, None     # x != y -> exists i >= 0, bit x i != bit y i (skolemised)
@lemma('x')
def bit_odd(x): return [], mod2(2 * x + 1, 1) == 1


# ------------------------------------------------------------- bitwise
@lemma('x y')
def band_le(x, y): return [0 <= x], AND(0 <= band(x, y), band(x, y) <= x)
@lemma('x y k')
def bitw_range(x, y, k):
    return [-pow2(k) <= x, x < pow2(k), -pow2(k) <= y, y < pow2(k)], AND(
        -pow2(k) <= band(x, y), band(x, y) < pow2(k),
        -pow2(k) <= bor(x, y), bor(x, y) < pow2(k),
        -pow2(k) <= bxor(x, y), bxor(x, y) < pow2(k))
@lemma('x y')
def band_sign(x, y): return [], IFF(band(x, y) < 0, AND(x < 0, y < 0))
@lemma('x y')
def bor_band(x, y): return [], bor(x, y) == x + y - band(x, y)
@lemma('x y')
def bxor_band(x, y): return [], bxor(x, y) == x + y - 2 * band(x, y)
@lemma('x y')
def band_comm(x, y): return [], band(x, y) == band(y, x)
@lemma('x y k')
def band_disj(x, y, k): return [0 <= x, x < pow2(k)], band(x, shl(y, k)) == 0
@lemma('x y k')
def band_mask(x, y, k): return [y == pow2(k) - 1], band(x, y) == mod2(x, k)
@lemma('x y k')
def band_nmask(x, y, k): return [y == -pow2(k)], band(x, y) == x - mod2(x, k)
@lemma('x k')
def band_pow2(x, k): return [0 <= k, bit(x, k)], band(x, pow2(k)) == pow2(k)
@lemma('x k')
def band_pow2_0(x, k): return [0 <= k, NOT(bit(x, k))], band(x, pow2(k)) == 0
@lemma('x y k')
def band_compl(x, y, k): return [0 <= x, x < pow2(k)], band(x, pow2(k) - 1 - y) == x - band(x, y)
@lemma('x y')
def band_not(x, y): return [], band(x, -1 - y) == x - band(x, y)
@lemma('x y k')
def mod2_band(x, y, k): return [], mod2(band(x, y), k) == band(mod2(x, k), mod2(y, k))


# ------------------------------------------------------------- div, mod, mul
@lemma('x y')
def fdiv_fmod(x, y): return [y != 0], x == mul(y, fdiv(x, y)) + fmod(x, y)
@lemma('x y')
def fmod_pos(x, y): return [y > 0], AND(0 <= fmod(x, y), fmod(x, y) < y)
@lemma('x y')
def fmod_neg(x, y): return [y < 0], AND(y < fmod(x, y), fmod(x, y) <= 0)
@lemma('x y')
def fdiv_nonneg(x, y): return [y > 0, 0 <= x], AND(0 <= fdiv(x, y), fdiv(x, y) <= x)
@lemma('x y')
def fdiv_neg(x, y): return [y > 0, x < 0], AND(x <= fdiv(x, y), fdiv(x, y) <= -1)
@lemma('x y')
def fdiv_flip(x, y): return [y != 0], AND(fdiv(x, y) == fdiv(-x, -y), fmod(x, y) == -fmod(-x, -y))
@lemma('x y')
def fdiv_small(x, y): return [0 <= x, x < y], AND(fdiv(x, y) == 0, fmod(x, y) == x)
@lemma('x y')
def fdiv_small1(x, y): return [0 < y, y <= x, x < 2 * y], AND(fdiv(x, y) == 1, fmod(x, y) == x - y)
@lemma('x y')
def fdiv_smalln(x, y): return [-y <= x, x < 0], AND(fdiv(x, y) == -1, fmod(x, y) == x + y)
@lemma('x')
def fdiv_one(x): return [], AND(fdiv(x, 1) == x, fdiv(x, -1) == -x, fmod(x, 1) == 0, fmod(x, -1) == 0)
@lemma('x y k')
def fdiv_pow2(x, y, k):
    return [y == pow2(k)], AND(fdiv(x, y) == shr(x, k), fmod(x, y) == mod2(x, k))
@lemma('x y k')
def mul_pow2(x, y, k): return [y == pow2(k)], mul(x, y) == shl(x, k)
@lemma('x y')
def mul_nonneg(x, y): return [0 <= x, 0 <= y], 0 <= mul(x, y)
@lemma('x y')
def mul_zero(x, y): return [x == 0], mul(x, y) == 0
@lemma('x y')
def mul_one(x, y): return [x == 1], mul(x, y) == y
@lemma('x y')
def mul_pos(x, y): return [1 <= x, 0 <= y], y <= mul(x, y)
@lemma('x z y')
def mul_mono(x, z, y): return [x < z, 0 <= y], mul(x, y) + y <= mul(z, y)
@lemma('c y r')
def fmod_drop(c, y, r):
    return [y != 0], AND(fmod(mul(c, y) + r, y) == fmod(r, y), fdiv(mul(c, y) + r, y) == c + fdiv(r, y))
@lemma('x y')
def fmod_fmod(x, y): return [y != 0], fmod(fmod(x, y), y) == fmod(x, y)

@lemma('x y')
def fmod_negate(x, y): return [y > 0, fmod(x, y) != 0], fmod(-x, y) == y - fmod(x, y)
@lemma('x y')
def fmod_negate0(x, y): return [y > 0, fmod(x, y) == 0], fmod(-x, y) == 0
@lemma('p c x r')
def mul_split(p, c, x, r): return [], mul(p, mul(c, x) + r) == mul(c, mul(p, x)) + mul(p, r)


# ------------------------------------------------------------- bit length
@lemma('x')
def blen_nonneg(x): return [], 0 <= blen(x)
@lemma('x')
def blen_lt(x): return [], AND(x < pow2(blen(x)), -x < pow2(blen(x)))
@lemma('x')
def blen_ge(x): return [x != 0], OR(pow2(blen(x) - 1) <= x, pow2(blen(x) - 1) <= -x)
@lemma('x')
def blen_zero(x): return [x == 0], blen(x) == 0


# =================================================================== triggers
_instances = {}        # (lemma, arguments) -> (key, instance or None)


class Instantiator:
    def __init__(self, rounds=3, cap=6000, ext=True):
        self.rounds, self.cap, self.ext = rounds, cap, ext
        self.skolem = {}

    def run(self, formulas, extra=None):
        self.seen = set()
        self.out = []
        self.done_terms = set()
        self.apps = {n: [] for n in NAMED}
        self.gen = {}
        self.exps = []
        self._expids = set()
        new = list(formulas)
        self.eqs = []
        self.collect(new, 0)
        self.goal_eqs(formulas)
        for r in range(1, self.rounds + 1):
            start = len(self.out)
            self.round(r)
            if extra is not None:
                for f in extra(self):
                    self._push(('extra', f.get_id()), f)
            fresh = self.out[start:]
            if not fresh or len(self.out) > self.cap:
                break
            self.collect(fresh, r)
        return self.out

    def collect(self, fs, g):
        for t in subterms(fs):
            i = t.get_id()
            if i in self.done_terms:
                continue
            self.done_terms.add(i)
            T._keep.append(t)
            if not z3.is_app(t):
                continue
            n = t.decl().name()
            if n in NAMED and t.decl().eq(NAMED[n]):
                a = t.children()
                self.apps[n].append((tuple(a), g))
                if n == 'pow2':
                    self.addexp(a[0], g)
                elif n in ('shl', 'shr', 'mod2'):
                    self.addexp(a[1], g)

    def addexp(self, k, g):
        if k.get_id() not in self._expids:
            self._expids.add(k.get_id())
            self.exps.append((k, g))

    def goal_eqs(self, fs):
        for t in subterms(fs):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_EQ and t.arg(0).sort() == I:
                self.eqs.append((norm(t.arg(0)), norm(t.arg(1))))

    def _push(self, key, f):
        if key in self.seen:
            return
        self.seen.add(key)
        if z3.is_true(f):
            return
        self.out.append(f)

    def inst(self, name, *args):
        if len(self.out) > self.cap:
            return
        args = [zi(a) for a in args]
        k0 = (name,) + tuple(a.get_id() for a in args)
        kf = _instances.get(k0)
        if kf is None:
            T._keep.extend(args)
            args = [norm(a) for a in args]
            key = (name,) + tuple(a.get_id() for a in args)
            kf = _instances[k0] = (key, self.instance(name, args))
        key, f = kf
        if f is None:
            self.seen.add(key)
        else:
            self._push(key, f)

    def instance(self, name, args):
        h, c = LEMMAS[name].fn(*args)
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        hh = [x for x in h if not (isinstance(x, bool) and x)]
        if any(isinstance(x, bool) and not x for x in hh):
            return None
        return z3.Implies(z3.And(*hh), c) if hh else c

    def round(self, g):
        X = self.inst
        A = self.apps
        exps0 = [k for k, gg in self.exps if gg <= 0][:9]
        exps1 = [k for k, gg in self.exps if gg <= 1][:14]
        nonlit = [k for k, gg in self.exps]
        for (k,), _ in list(A['pow2']):
            X('pow2_pos', k), X('pow2_nonpos', k), X('pow2_gt', k), X('pow2_ge2', k)
        # relations between exponents
        ks = [k for k, gg in self.exps if gg <= 2][:22]
        for i, a in enumerate(ks):
            for b in ks[i + 1:]:
                d = num(norm(a - b))
                if d is not None:
                    if d < 0:
                        p, c = a, -d
                    else:
                        p, c = b, d
                    if 0 < c <= 4096 and num(p) is None:
                        X('pow2_step', p, z3.IntVal(c))
                else:
                    X('pow2_mono', a, b), X('pow2_mono', b, a), X('pow2_inj', a, b)
        shls = list(A['shl'])
        for (x, k), gg in shls:
            X('shl_id', x, k), X('shl_zero', x, k), X('shl_one', x, k), X('shl_nonneg', x, k), X('shl_neg', x, k)
            if is_app(x, POW):
                X('shl_pow2', x.arg(0), k)
            if is_app(x, SHL):
                X('shl_shl', x.arg(0), x.arg(1), k)
            if gg <= 1:
                for m in exps0:
                    X('shl_lt', x, m, k), X('shl_ge', x, m, k)
                if is_app(x, MOD2):
                    X('shl_mask', x, x.arg(1), k)
                if x.decl().kind() != z3.Z3_OP_ITE:
                    d, c = lin(x)
                    if len(d) > 1 or (d and c):
                        for i in sorted(d):
                            a, co = d[i]
                            X('shl_split', co, a, norm(x - z3.IntVal(co) * a), k)
                            break
        for i, ((x, k), gx) in enumerate(shls[:30]):
            for (y, j), gy in shls[i + 1:30]:
                if k.eq(j):
                    if not x.eq(y):
                        X('shl_mono', x, y, k), X('shl_mono', y, x, k), X('shl_cong', x, y, k)
                elif x.eq(y):
                    d = num(norm(k - j))
                    if d is not None and 0 < abs(d) <= 64:
                        X('shl_step', x, (j if d > 0 else k), z3.IntVal(abs(d)))
        mods = list(A['mod2'])
        for (x, k), gg in mods:
            for n in ('mod2_range', 'mod2_id', 'mod2_hi', 'mod2_lo', 'mod2_hi2', 'mod2_lo2'):
                X(n, x, k)
            v = num(k)
            if v is not None and v <= 128:
                self._push(('natmod', x.get_id(), v), MOD2(x, k) == x % z3.IntVal(1 << v))
            if gg <= 1:
                X('mod2_decomp', x, k)
            if gg <= 2 and x.decl().kind() != z3.Z3_OP_ITE:
                d, c = lin(x)
                for i in sorted(d):
                    a, co = d[i]
                    r = norm(x - z3.IntVal(co) * a)
                    if is_app(a, MOD2):
                        X('mod2_drop_mod', co, a.arg(0), a.arg(1), r, k)
                    elif is_app(a, POW):
                        X('mod2_drop_pow', co, a.arg(0), r, k)
                    elif is_app(a, SHL):
                        X('mod2_drop_shl', co, a.arg(0), a.arg(1), r, k)
                    elif is_app(a, MUL):
                        for p, q in ((a.arg(0), a.arg(1)), (a.arg(1), a.arg(0))):
                            if is_app(p, MOD2):
                                X('mod2_drop_mul', co, p.arg(0), p.arg(1), q, r, k)
                if is_app(x, SHL):
                    X('mod2_shl', x.arg(0), x.arg(1), k)
                if is_app(x, SHR):
                    X('mod2_shr', x.arg(0), x.arg(1), k)
                if is_app(x, BAND):
                    X('mod2_band', x.arg(0), x.arg(1), k)
            if num(k) == 1:
                if is_app(x, SHR):
                    X('bit_def', x.arg(0), x.arg(1))
                X('bit_zero', x)
        if len(mods) <= 24:
            for i, ((x, k), gx) in enumerate(mods):
                for (y, j), gy in mods[i + 1:]:
                    if k.eq(j) and not x.eq(y) and gx <= 1 and gy <= 1:
                        X('mod2_cong', x, y, k)
        shrs = list(A['shr'])
        for (x, k), gg in shrs:
            for n in ('shr_nonneg', 'shr_neg', 'shr_zero', 'shr_one', 'shr_m1', 'shr_id'):
                X(n, x, k)
            v = num(k)
            if v is not None and v <= 128:
                self._push(('natdiv', x.get_id(), v), SHR(x, k) == x / z3.IntVal(1 << v))
            if gg <= 1:
                X('mod2_decomp', x, k)
                for m in exps0:
                    X('shr_lt', x, m, k), X('shr_ge', x, m, k)
            if gg <= 2 and x.decl().kind() != z3.Z3_OP_ITE:
                if is_app(x, SHR):
                    X('shr_shr', x.arg(0), x.arg(1), k)
                if is_app(x, SHL):
                    X('shr_shl', x.arg(0), x.arg(1), k)
                if is_app(x, MOD2):
                    X('shr_mod2', x.arg(0), x.arg(1), k)
                d, c = lin(x)
                for i in sorted(d):
                    a, co = d[i]
                    r = norm(x - z3.IntVal(co) * a)
                    if is_app(a, POW):
                        X('shr_drop_pow', co, a.arg(0), r, k)
                    elif is_app(a, SHL):
                        X('shr_drop_shl', co, a.arg(0), a.arg(1), r, k)
        if len(shrs) <= 12:
            for i, ((x, k), gx) in enumerate(shrs):
                for (y, j), gy in shrs[i + 1:]:
                    if k.eq(j) and not x.eq(y) and gx <= 1 and gy <= 1:
                        X('shr_mono', x, y, k), X('shr_mono', y, x, k)
        # bits
        for (x, i), gg in list(A['bit']):
            if gg > 3:
                continue
            X('bit_top', x, i)
            if x.decl().kind() == z3.Z3_OP_ITE:
                continue
            for k in exps0:
                X('bit_small', x, k, i)
                if gg <= 1:
                    X('bit_small_neg', x, k, i)
            if is_app(x, MOD2):
                X('bit_mod2', x.arg(0), x.arg(1), i)
            elif is_app(x, SHR):
                X('bit_shr', x.arg(0), x.arg(1), i)
            elif is_app(x, SHL):
                X('bit_shl', x.arg(0), x.arg(1), i)
            elif is_app(x, BAND):
                X('bit_band', x.arg(0), x.arg(1), i)
            elif is_app(x, BOR):
                X('bit_bor', x.arg(0), x.arg(1), i)
            elif is_app(x, BXOR):
                X('bit_bxor', x.arg(0), x.arg(1), i)
            elif is_app(x, POW):
                X('bit_pow2', x.arg(0), i)
            else:
                k = mask_exp(x)
                if k is not None:
                    X('bit_mask', k, i)
                d, c = lin(x)
                if d and all(co < 0 for _, co in d.values()):
                    X('bit_not', norm(-x - 1), i)
                # x = lo + shl(y, k)
                bases = {}
                for q in sorted(d):
                    a, co = d[q]
                    if is_app(a, POW):
                        bases.setdefault(a.arg(0).get_id(), [a.arg(0), []])[1].append((q, co, z3.IntVal(1)))
                    elif is_app(a, SHL):
                        bases.setdefault(a.arg(1).get_id(), [a.arg(1), []])[1].append((q, co, a.arg(0)))
                for kk, (k2, lst) in bases.items():
                    y = norm(z3.Sum(*[z3.IntVal(co) * yy for _, co, yy in lst], z3.IntVal(0)))
                    lo = x
                    for q, co, yy in lst:
                        lo = lo - z3.IntVal(co) * d[q][0]
                    lo = norm(lo)
                    X('bit_join_lo', lo, y, k2, i), X('bit_join_hi', lo, y, k2, i)
        if self.ext and g == 1:
            for x, y in self.eqs:
                key = ('ext', x.get_id(), y.get_id())
                if key in self.seen:
                    continue
                sk = z3.Int(f'sk!{len(self.skolem)}')
                self.skolem[key] = sk
                self._push(key, z3.Implies(x != y, z3.And(sk >= 0, bit(x, sk) != bit(y, sk))))
        # bitwise
        for n in ('band', 'bor', 'bxor'):
            for (x, y), gg in list(A[n]):
                if gg > 2:
                    continue
                X('band_le', x, y), X('band_le', y, x), X('band_sign', x, y)
                if n != 'band':
                    X('bor_band' if n == 'bor' else 'bxor_band', x, y)
                for k in exps0:
                    X('bitw_range', x, y, k)
                    if n == 'band':
                        for p, q in ((x, y), (y, x)):
                            if num(q) is None:
                                X('band_mask', p, q, k), X('band_nmask', p, q, k)
                for p, q in ((x, y), (y, x)):
                    if q.decl().kind() == z3.Z3_OP_ITE:
                        continue
                    d, c = lin(q)
                    qq = q.arg(0) if is_app(q, MOD2) else q
                    if is_app(qq, POW):
                        X('band_pow2', p, qq.arg(0)), X('band_pow2_0', p, qq.arg(0))
                    elif num(q) is not None and num(q) > 0 and num(q) & (num(q) - 1) == 0:
                        e = z3.IntVal(num(q).bit_length() - 1)
                        X('band_pow2', p, e), X('band_pow2_0', p, e)
                    if c == -1 and d:
                        if all(co < 0 for _, co in d.values()):
                            X('band_not', p, norm(-1 - q))
                        else:
                            for z in sorted(d):
                                a, co = d[z]
                                if co == 1 and is_app(a, POW):
                                    X('band_compl', p, norm(a - 1 - q), a.arg(0))
                    kk = None
                    y2 = z3.IntVal(0)
                    ok = c == 0 and d
                    for z in sorted(d):
                        a, co = d[z]
                        if is_app(a, POW):
                            e, yy = a.arg(0), z3.IntVal(1)
                        elif is_app(a, SHL):
                            e, yy = a.arg(1), a.arg(0)
                        else:
                            ok = False
                            break
                        if kk is not None and not kk.eq(e):
                            ok = False
                            break
                        kk = e
                        y2 = y2 + z3.IntVal(co) * yy
                    if ok:
                        X('band_disj', p, norm(y2), kk)
        # div / mod / mul
        for n in ('fdiv', 'fmod'):
            for (x, y), gg in list(A[n]):
                if gg > 2:
                    continue
                for l in ('fdiv_fmod', 'fmod_pos', 'fmod_neg', 'fdiv_nonneg', 'fdiv_neg', 'fdiv_small',
                          'fdiv_small1', 'fdiv_smalln'):
                    X(l, x, y)
                if gg <= 1:
                    X('fdiv_flip', x, y)
                v = num(y)
                if v is not None and v > 0:
                    self._push(('natd', n, x.get_id(), v),
                               (FDIV(x, y) == x / y) if n == 'fdiv' else (FMOD(x, y) == x % y))
                if v in (1, -1):
                    X('fdiv_one', x)
                if v is None:
                    for k in exps0:
                        X('fdiv_pow2', x, y, k)
                if x.decl().kind() != z3.Z3_OP_ITE:
                    d, c = lin(x)
                    for i in sorted(d):
                        a, co = d[i]
                        if i == min(d) and n == 'fmod' and c <= 0 and all(co2 < 0 for _, co2 in d.values()):
                            X('fmod_negate', norm(-x), y), X('fmod_negate0', norm(-x), y)
                        if a.eq(y):
                            X('fmod_drop', z3.IntVal(co), y, norm(x - z3.IntVal(co) * a))
                        if is_app(a, MUL):
                            for p, q in ((a.arg(0), a.arg(1)), (a.arg(1), a.arg(0))):
                                if q.eq(y):
                                    X('fmod_drop', norm(z3.IntVal(co) * p), y, norm(x - z3.IntVal(co) * a))
                if n == 'fmod' and is_app(x, FMOD) and x.arg(1).eq(y):
                    X('fmod_fmod', x.arg(0), y)
        muls = list(A['mul'])
        for (x, y), gg in muls:
            for p, q in ((x, y), (y, x)):
                X('mul_zero', p, q), X('mul_one', p, q), X('mul_pos', p, q)
                if is_app(q, POW):
                    X('mul_pow2', p, q, q.arg(0))
                elif gg <= 1:
                    for k in exps0:
                        X('mul_pow2', p, q, k)
            X('mul_nonneg', x, y)
            if gg <= 2:
                for p, q in ((x, y), (y, x)):
                    if q.decl().kind() != z3.Z3_OP_ITE:
                        d, c = lin(q)
                        if len(d) > 1 or (d and c):
                            for i in sorted(d):
                                a, co = d[i]
                                if is_app(a, POW):
                                    X('mul_split', p, co, a, norm(q - z3.IntVal(co) * a))
                                    break
        for i, ((x, y), gx) in enumerate(muls[:12]):
            for (z, w), gy in muls[i + 1:12]:
                for a, b in ((x, y), (y, x)):
                    for c, d in ((z, w), (w, z)):
                        if b.eq(d) and not a.eq(c):
                            X('mul_mono', a, c, b), X('mul_mono', c, a, b)
        for (x,), gg in list(A['blen']):
            for n in ('blen_nonneg', 'blen_lt', 'blen_ge', 'blen_zero'):
                X(n, x)


def selftest(rng, rounds=400):
    """Evaluate every lemma on Python ints."""
    bad = []
    n = 0
    for L in LEMMAS.values():
        if L.name == 'bit_ext':
            continue
        for _ in range(rounds):
            args = []
            for v in L.vars:
                small = v in ('k', 'j', 'i', 'm', 'a', 'b', 'n') or (v == 'c' and L.name in ('pow2_step', 'shl_step'))
                args.append(rng.randint(-2, 9) if small else rng.choice([rng.randint(-9, 9), rng.randint(-600, 600)]))
            h, c = L.fn(*args)
            if all(h):
                n += 1
                if not c:
                    bad.append((L.name, args))
    return n, bad
