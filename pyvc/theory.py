"""Mathematical theory of unbounded integers with powers of two, at symbolic exponents.

Every function here is polymorphic: on Python ints it computes, on z3 terms it
builds terms (uninterpreted functions + light normalisation), on Lean
expressions it prints Lean.  Lemmas are written once over these functions; see
lemmas.py (instantiation) and lean/ (proofs).

Semantics (all total, as in Lean):
   pow2 k      = 2 ^ k.toNat
   shl x k     = x * 2 ^ k.toNat
   shr x k     = floor (x / 2 ^ k.toNat)
   mod2 x k    = x mod 2 ^ k.toNat      (in [0, 2^k))
   bit x i     = bit i.toNat of the two's complement expansion of x
   band/bor/bxor = bitwise on two's complement integers (Python & | ^)
   fdiv/fmod   = Python // and %  (floor)
   mul         = product
"""
import z3

I = z3.IntSort()
BS = z3.BoolSort()
POW = z3.Function('pow2', I, I)
SHL = z3.Function('shl', I, I, I)
SHR = z3.Function('shr', I, I, I)
MOD2 = z3.Function('mod2', I, I, I)
BIT = z3.Function('bit', I, I, BS)
BAND = z3.Function('band', I, I, I)
BOR = z3.Function('bor', I, I, I)
BXOR = z3.Function('bxor', I, I, I)
FDIV = z3.Function('fdiv', I, I, I)
FMOD = z3.Function('fmod', I, I, I)
MUL = z3.Function('mul', I, I, I)
BLEN = z3.Function('blen', I, I)

NAMED = {'pow2': POW, 'shl': SHL, 'shr': SHR, 'mod2': MOD2, 'bit': BIT, 'band': BAND,
         'bor': BOR, 'bxor': BXOR, 'fdiv': FDIV, 'fmod': FMOD, 'mul': MUL, 'blen': BLEN}

MAXEXP = 1 << 14


class TooBig(Exception):
    pass


class LeanExpr:
    def __init__(self, s, boolean=False):
        self.s = s
        self.boolean = boolean

    def __str__(self):
        return self.s


def lean(x):
    if isinstance(x, LeanExpr):
        return x.s
    if isinstance(x, bool):
        return 'True' if x else 'False'
    if isinstance(x, int):
        return f'({x} : ℤ)'
    raise TypeError(x)


def _lop(op):
    def f(a, b):
        return LeanExpr(f'({lean(a)} {op} {lean(b)})')
    return f


def _lrop(op):
    def f(a, b):
        return LeanExpr(f'({lean(b)} {op} {lean(a)})')
    return f


for _n, _o in [('add', '+'), ('sub', '-'), ('mul', '*')]:
    setattr(LeanExpr, f'__{_n}__', _lop(_o))
    setattr(LeanExpr, f'__r{_n}__', _lrop(_o))
for _n, _o in [('lt', '<'), ('le', '≤'), ('gt', '>'), ('ge', '≥'), ('eq', '='), ('ne', '≠')]:
    setattr(LeanExpr, f'__{_n}__', _lop(_o))
LeanExpr.__neg__ = lambda a: LeanExpr(f'(-{lean(a)})')
LeanExpr.__hash__ = object.__hash__


def is_z(x):
    return isinstance(x, z3.ExprRef)


def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def mode(*a):
    m = 'c'
    for x in a:
        if isinstance(x, LeanExpr):
            return 'l'
        if isinstance(x, z3.ExprRef):
            m = 'z'
    return m


def num(t):
    """integer value of a literal, else None"""
    if isinstance(t, bool):
        return int(t)
    if isinstance(t, int):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    return None


# ---- linear normal form -------------------------------------------------
_lincache = {}
_keep = []


def lin(t):
    """(dict atom_id -> (atom, coef), const) of an Int term."""
    key = t.get_id()
    r = _lincache.get(key)
    if r is not None:
        return r
    out = {}
    c = 0

    def add(t, m):
        nonlocal c
        v = num(t)
        if v is not None:
            c += m * v
            return
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            for x in t.children():
                add(x, m)
        elif k == z3.Z3_OP_SUB:
            ch = t.children()
            add(ch[0], m)
            for x in ch[1:]:
                add(x, -m)
        elif k == z3.Z3_OP_UMINUS:
            add(t.arg(0), -m)
        elif k == z3.Z3_OP_MUL:
            co, rest = 1, []
            for x in t.children():
                v = num(x)
                if v is not None:
                    co *= v
                else:
                    rest.append(x)
            if len(rest) == 0:
                c += m * co
            elif len(rest) == 1:
                add(rest[0], m * co)
            else:
                p = rest[0]
                for y in rest[1:]:
                    p = mul(p, y)
                if p.decl().kind() == z3.Z3_OP_MUL:
                    raise AssertionError('nonlinear')
                add(p, m * co)
        else:
            i = t.get_id()
            a = out.get(i)
            out[i] = (t, (a[1] if a else 0) + m)
    add(t, 1)
    out = {i: a for i, a in out.items() if a[1] != 0}
    r = (out, c)
    _lincache[key] = r
    _keep.append(t)
    return r


def unlin(d, c):
    terms = []
    for i in sorted(d):
        a, co = d[i]
        terms.append(a if co == 1 else z3.IntVal(co) * a)
    if c != 0 or not terms:
        terms.append(z3.IntVal(c))
    return terms[0] if len(terms) == 1 else z3.Sum(*terms) if len(terms) > 2 else terms[0] + terms[1]


_normcache = {}


def norm(t):
    if not is_z(t):
        return zi(t)
    r = _normcache.get(t.get_id())
    if r is not None:
        return r
    if t.decl().kind() == z3.Z3_OP_ITE:
        return t
    d, c = lin(t)
    r = unlin(d, c)
    _keep.append(r)
    _keep.append(t)
    _normcache[t.get_id()] = r
    return r


def is_app(t, f):
    return z3.is_app(t) and t.decl().eq(f)


def single(t):
    """t as coef*atom+const if exactly one atom, else None"""
    d, c = lin(t)
    if len(d) == 1:
        (a, co), = d.values()
        return a, co, c
    return None


def pow_exp(t):
    """k if t is literally pow2(k) (or a literal power of two), else None"""
    v = num(t)
    if v is not None:
        if v > 0 and v & (v - 1) == 0:
            return z3.IntVal(v.bit_length() - 1)
        return None
    s = single(t)
    if s and s[2] == 0 and is_app(s[0], POW):
        co = s[1]
        if co > 0 and co & (co - 1) == 0 and co == 1:
            return s[0].arg(0)
    return None


def mask_exp(t):
    """k if t is literally pow2(k)-1"""
    v = num(t)
    if v is not None:
        if v >= 0 and (v + 1) & v == 0:
            return z3.IntVal((v + 1).bit_length() - 1)
        return None
    s = single(t)
    if s and s[1] == 1 and s[2] == -1 and is_app(s[0], POW):
        return s[0].arg(0)
    return None


def nat(k):
    if k > MAXEXP:
        raise TooBig(k)
    return max(k, 0)


def pow2(k):
    m = mode(k)
    if m == 'c':
        return 1 << nat(k)
    if m == 'l':
        return LeanExpr(f'(pow2 {lean(k)})')
    k = norm(k)
    v = num(k)
    if v is not None and v <= 2048:
        return z3.IntVal(1 << max(v, 0))
    return POW(k)


def shl(x, k):
    m = mode(x, k)
    if m == 'c':
        return x << nat(k)
    if m == 'l':
        return LeanExpr(f'(shl {lean(x)} {lean(k)})')
    x, k = norm(zi(x)), norm(zi(k))
    v = num(k)
    if v is not None and v <= 2048:
        return norm(x * z3.IntVal(1 << max(v, 0)))
    if x.decl().kind() == z3.Z3_OP_ITE:
        return SHL(x, k)
    d, c = lin(x)
    r = z3.IntVal(c) * POW(k)
    for i in sorted(d):
        a, co = d[i]
        r = r + z3.IntVal(co) * SHL(a, k)
    return norm(r)


def shr(x, k):
    m = mode(x, k)
    if m == 'c':
        if k > MAXEXP and abs(x).bit_length() < k:
            return -1 if x < 0 else 0
        return x >> max(k, 0)
    if m == 'l':
        return LeanExpr(f'(shr {lean(x)} {lean(k)})')
    x, k = norm(zi(x)), norm(zi(k))
    v, w = num(k), num(x)
    if v is not None and v <= 0:
        return x
    if v is not None and w is not None:
        return z3.IntVal(w >> v)
    if w in (0, -1):
        return x
    return SHR(x, k)


def mod2(x, k):
    m = mode(x, k)
    if m == 'c':
        return x % (1 << nat(k))
    if m == 'l':
        return LeanExpr(f'(mod2 {lean(x)} {lean(k)})')
    x, k = norm(zi(x)), norm(zi(k))
    v, w = num(k), num(x)
    if v is not None and v <= 0:
        return z3.IntVal(0)
    if v is not None and w is not None:
        return z3.IntVal(w % (1 << v))
    if w == 0:
        return x
    return MOD2(x, k)


def bit(x, i):
    m = mode(x, i)
    if m == 'c':
        return (x >> max(i, 0)) & 1 == 1 if i <= MAXEXP or abs(x).bit_length() >= i else x < 0
    if m == 'l':
        return LeanExpr(f'(bit {lean(x)} {lean(i)})', True)
    x, i = norm(zi(x)), norm(zi(i))
    w = num(x)
    if w == 0:
        return z3.BoolVal(False)
    if w == -1:
        return z3.BoolVal(True)
    v = num(i)
    if v is not None and w is not None:
        return z3.BoolVal((w >> max(v, 0)) & 1 == 1)
    return BIT(x, i)


def _ordered(f, a, b):
    if a.get_id() > b.get_id():
        a, b = b, a
    return f(a, b)


def band(x, y):
    m = mode(x, y)
    if m == 'c':
        return x & y
    if m == 'l':
        return LeanExpr(f'(band {lean(x)} {lean(y)})')
    x, y = norm(zi(x)), norm(zi(y))
    a, b = num(x), num(y)
    if a is not None and b is not None:
        return z3.IntVal(a & b)
    for p, q in ((x, y), (y, x)):
        if num(p) == 0:
            return z3.IntVal(0)
        if num(p) == -1:
            return q
        k = mask_exp(p)
        if k is not None:
            return mod2(q, k)
    if x.eq(y):
        return x
    return _ordered(BAND, x, y)


def bor(x, y):
    m = mode(x, y)
    if m == 'c':
        return x | y
    if m == 'l':
        return LeanExpr(f'(bor {lean(x)} {lean(y)})')
    x, y = norm(zi(x)), norm(zi(y))
    a, b = num(x), num(y)
    if a is not None and b is not None:
        return z3.IntVal(a | b)
    if a == 0:
        return y
    if b == 0:
        return x
    if x.eq(y):
        return x
    return _ordered(BOR, x, y)


def bxor(x, y):
    m = mode(x, y)
    if m == 'c':
        return x ^ y
    if m == 'l':
        return LeanExpr(f'(bxor {lean(x)} {lean(y)})')
    x, y = norm(zi(x)), norm(zi(y))
    a, b = num(x), num(y)
    if a is not None and b is not None:
        return z3.IntVal(a ^ b)
    if a == 0:
        return y
    if b == 0:
        return x
    if a == -1:
        return norm(-y - 1)
    if b == -1:
        return norm(-x - 1)
    if x.eq(y):
        return z3.IntVal(0)
    return _ordered(BXOR, x, y)


def fdiv(x, y):
    m = mode(x, y)
    if m == 'c':
        return x // y if y != 0 else 0
    if m == 'l':
        return LeanExpr(f'(fdiv {lean(x)} {lean(y)})')
    x, y = norm(zi(x)), norm(zi(y))
    k = pow_exp(y)
    if k is not None:
        return shr(x, k)
    a, b = num(x), num(y)
    if a is not None and b is not None and b != 0:
        return z3.IntVal(a // b)
    return FDIV(x, y)


def fmod(x, y):
    m = mode(x, y)
    if m == 'c':
        return x % y if y != 0 else x
    if m == 'l':
        return LeanExpr(f'(fmod {lean(x)} {lean(y)})')
    x, y = norm(zi(x)), norm(zi(y))
    k = pow_exp(y)
    if k is not None:
        return mod2(x, k)
    a, b = num(x), num(y)
    if a is not None and b is not None and b != 0:
        return z3.IntVal(a % b)
    return FMOD(x, y)


def _mul_atoms(a, b):
    # a, b non-literal atoms
    for p, q in ((a, b), (b, a)):
        if is_app(p, POW):
            return shl(q, p.arg(0))
    for p, q in ((a, b), (b, a)):
        if is_app(p, SHL):
            return shl(mul(p.arg(0), q), p.arg(1))
    return _ordered(MUL, a, b)


def mul(x, y):
    m = mode(x, y)
    if m == 'c':
        return x * y
    if m == 'l':
        return LeanExpr(f'({lean(x)} * {lean(y)})')
    x, y = norm(zi(x)), norm(zi(y))
    a, b = num(x), num(y)
    if a is not None or b is not None:
        return norm(x * y)
    dx, cx = lin(x)
    dy, cy = lin(y)
    r = z3.IntVal(cx * cy)
    for i in sorted(dx):
        t, co = dx[i]
        r = r + z3.IntVal(co * cy) * t
    for i in sorted(dy):
        t, co = dy[i]
        r = r + z3.IntVal(co * cx) * t
    for i in sorted(dx):
        for j in sorted(dy):
            r = r + z3.IntVal(dx[i][1] * dy[j][1]) * _mul_atoms(dx[i][0], dy[j][0])
    return norm(r)


def blen(x):
    m = mode(x)
    if m == 'c':
        return abs(x).bit_length()
    if m == 'l':
        return LeanExpr(f'(blen {lean(x)})')
    x = norm(x)
    v = num(x)
    if v is not None:
        return z3.IntVal(v.bit_length())
    return BLEN(x)


def NOT(a):
    m = mode(a)
    if m == 'c':
        return not a
    if m == 'l':
        return LeanExpr(f'(¬ {lean(a)})', True)
    return z3.Not(a)


def AND(*a):
    m = mode(*a)
    if m == 'c':
        return all(a)
    if m == 'l':
        return LeanExpr('(' + ' ∧ '.join(lean(x) for x in a) + ')', True)
    return z3.And(*a)


def OR(*a):
    m = mode(*a)
    if m == 'c':
        return any(a)
    if m == 'l':
        return LeanExpr('(' + ' ∨ '.join(lean(x) for x in a) + ')', True)
    return z3.Or(*a)


def IFF(a, b):
    m = mode(a, b)
    if m == 'c':
        return bool(a) == bool(b)
    if m == 'l':
        return LeanExpr(f'({lean(a)} ↔ {lean(b)})', True)
    return (z3.BoolVal(a) if isinstance(a, bool) else a) == (z3.BoolVal(b) if isinstance(b, bool) else b)


def IMP(a, b):
    m = mode(a, b)
    if m == 'c':
        return (not a) or b
    if m == 'l':
        return LeanExpr(f'({lean(a)} → {lean(b)})', True)
    return z3.Implies(a, b)


def XOR(a, b):
    return NOT(IFF(a, b))


# ---- concrete evaluation of z3 terms under the true semantics -----------
_PY = {'pow2': pow2, 'shl': shl, 'shr': shr, 'mod2': mod2, 'bit': bit, 'band': band, 'bor': bor,
       'bxor': bxor, 'fdiv': fdiv, 'fmod': fmod, 'mul': mul, 'blen': blen}


class Evaluator:
    """Evaluates z3 terms; constants and unknown functions come from `lookup`."""

    def __init__(self, const, func, extra=None):
        self.const = const        # name, sort -> python value
        self.func = func          # decl, args -> python value
        self.extra = extra or {}  # decl name -> python function(eval, args)
        self.cache = {}

    def ev(self, t):
        key = t.get_id()
        if key in self.cache:
            return self.cache[key]
        r = self._ev(t)
        self.cache[key] = r
        _keep.append(t)
        return r

    def _ev(self, t):
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        d = t.decl()
        k = d.kind()
        ch = t.children()
        if k == z3.Z3_OP_ITE:
            return self.ev(ch[1]) if self.ev(ch[0]) else self.ev(ch[2])
        if k == z3.Z3_OP_AND:
            return all(self.ev(c) for c in ch)
        if k == z3.Z3_OP_OR:
            return any(self.ev(c) for c in ch)
        if k == z3.Z3_OP_IMPLIES:
            return (not self.ev(ch[0])) or self.ev(ch[1])
        if k == z3.Z3_OP_NOT:
            return not self.ev(ch[0])
        v = [self.ev(c) for c in ch]
        if k == z3.Z3_OP_ADD:
            return sum(v)
        if k == z3.Z3_OP_SUB:
            r = v[0]
            for x in v[1:]:
                r -= x
            return r
        if k == z3.Z3_OP_UMINUS:
            return -v[0]
        if k == z3.Z3_OP_MUL:
            r = 1
            for x in v:
                r *= x
            return r
        if k == z3.Z3_OP_LE:
            return v[0] <= v[1]
        if k == z3.Z3_OP_LT:
            return v[0] < v[1]
        if k == z3.Z3_OP_GE:
            return v[0] >= v[1]
        if k == z3.Z3_OP_GT:
            return v[0] > v[1]
        if k == z3.Z3_OP_EQ or k == z3.Z3_OP_IFF:
            return v[0] == v[1]
        if k == z3.Z3_OP_XOR:
            return v[0] != v[1]
        if k == z3.Z3_OP_DISTINCT:
            return len(set(v)) == len(v)
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            a, b = v
            if b == 0:
                raise TooBig('div0')
            q = a // b if b > 0 else -(a // -b)
            return q if k == z3.Z3_OP_IDIV else a - b * q
        if k == z3.Z3_OP_UNINTERPRETED:
            n = d.name()
            if n in _PY:
                return _PY[n](*v)
            if n in self.extra:
                return self.extra[n](self, v)
            if not ch:
                return self.const(t)
            return self.func(d, v)
        raise TooBig(f'cannot evaluate {d.name()}')


def subterms(ts):
    seen = set()
    out = []
    st = list(ts)
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(t)
        ch = _children.get(i)
        if ch is None:
            _keep.append(t)
            ch = _children[i] = t.children()
        st.extend(ch)
    return out


_children = {}


# ---- rebuild a term through the smart constructors ------------------------
def renorm(t, memo=None):
    memo = {} if memo is None else memo
    i = t.get_id()
    if i in memo:
        return memo[i]
    if not z3.is_app(t) or t.num_args() == 0:
        memo[i] = t
        return t
    ch = [renorm(c, memo) for c in t.children()]
    d = t.decl()
    k = d.kind()
    n = d.name()
    if n in _PY and k == z3.Z3_OP_UNINTERPRETED:
        r = globals()[n](*ch)
        if isinstance(r, bool):
            r = z3.BoolVal(r)
        elif isinstance(r, int):
            r = z3.IntVal(r)
    elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
        r = norm(d(*ch))
    else:
        r = d(*ch)
    memo[i] = r
    _keep.append(t)
    _keep.append(r)
    return r


def subst(t, var, val):
    return renorm(z3.substitute(t, (var, val)))
