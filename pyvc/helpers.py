"""Small user-side classes handed to the code under verification (interpreted
symbolically and run concretely)."""


class HasInt:
    def __int__(self):
        return self.v


class HasBool:
    def __bool__(self):
        return self.v


class Plain:
    pass


from hwtypes.bit_vector import BitVector as _BV, Bit as _Bit
from hwtypes.bit_vector_util import BitVectorProtocol as _P, BitVectorProtocolMeta as _PM


class _ProtoMeta(_PM):
    def _bitvector_t_(cls):
        return cls.T_


class _ProtoBase(_P, metaclass=_ProtoMeta):
    """stored inverted, so that skipping a conversion shows"""

    def __init__(self, bv):
        self.bv = bv

    @classmethod
    def _from_bitvector_(cls, bv):
        return cls(~bv)

    def _to_bitvector_(self):
        return ~self.bv


class Proto1(_ProtoBase):
    T_ = _BV[1]


class Proto8(_ProtoBase):
    T_ = _BV[8]


class Proto8b(_ProtoBase):
    T_ = _BV[8]


class Proto33(_ProtoBase):
    T_ = _BV[33]


class SubVector(_BV):
    """a user's vector type with its own operations"""
    __hash__ = _BV.__hash__

    def bvadd(self, other):
        return self.bvsub(other)

    def bvult(self, other):
        return self.bvugt(other)

    def __or__(self, other):
        return NotImplemented

    def __mul__(self, other):
        return self.bvor(other)


class SubBit(_Bit):
    __hash__ = _Bit.__hash__

    def __and__(self, other):
        return _Bit.__or__(self, other)

    def __xor__(self, other):
        return NotImplemented

    def __invert__(self):
        return type(self)(self._value)


def const_fn(v):
    def f(*a, **k):
        return v
    return f


from hwtypes.smt_utils import FormulaConstructor as _FC


class Node(_FC):
    """any formula constructor: what it denotes is the bit it returns"""

    def __init__(self, bit):
        self.bit = bit

    def to_hwtypes(self):
        return self.bit

    def serialize(self, line_prefix="", indent=""):
        return line_prefix + 'node'
