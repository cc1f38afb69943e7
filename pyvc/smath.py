"""Specification mathematics on int | SInt (total functions of theory.py)."""
import z3
from . import theory as T
from . import values as V
from .values import SInt, SBool, mkint, mkbool, term, bterm


def _sym(*a):
    return any(isinstance(x, (SInt, SBool)) or isinstance(x, z3.ExprRef) for x in a)


def _lift(f, boolean=False):
    def g(*a):
        if _sym(*a):
            r = f(*[x if isinstance(x, z3.ExprRef) else term(x) for x in a])
            return mkbool(r) if boolean else mkint(r)
        return f(*[int(x) for x in a])
    g.__name__ = f.__name__
    return g


pow2, shl, shr, mod2 = map(_lift, (T.pow2, T.shl, T.shr, T.mod2))
band, bor, bxor, fdiv, fmod, mul, blen = map(_lift, (T.band, T.bor, T.bxor, T.fdiv, T.fmod, T.mul, T.blen))
bit = _lift(T.bit, True)


def AND(*a):
    if _sym(*a):
        return mkbool(z3.And(*[bterm(x) for x in a]))
    return all(a)


def OR(*a):
    if _sym(*a):
        return mkbool(z3.Or(*[bterm(x) for x in a]))
    return any(a)


def NOT(a):
    if _sym(a):
        return mkbool(z3.Not(bterm(a)))
    return not a


def IFF(a, b):
    if _sym(a, b):
        return mkbool(bterm(a) == bterm(b))
    return bool(a) == bool(b)


def XOR(a, b):
    return NOT(IFF(a, b))


def sgn(u, n):
    """signed reading of the n-bit value u"""
    if u >= pow2(n - 1):
        return u - pow2(n)
    return u
