"""User-side classes for algebraic data types: field types whose values compare by
a key that is independent of the class."""
from . import adtdom        # records the methods hwtypes generates for the classes below
from hwtypes.adt import Tuple, Product, AnonymousProduct, Sum, TaggedUnion, Enum, new_instruction


class Val:
    def __init__(self, k=0):
        self.k = k

    def __eq__(self, other):
        if isinstance(other, Val):
            return self.k == other.k
        return NotImplemented

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return f'{type(self).__name__}({self.k})'


class FA(Val):
    pass


class FB(Val):
    pass


class FC(Val):
    pass


class FA2(FA):
    pass


class P1(Product):
    x = FA


class P2(Product):
    x = FA
    y = FB


class P2s(Product):
    x = FA
    y = FA


class P3(Product):
    b = FB
    a = FA
    c = FC


class Named(Tuple[FA, FB]):
    pass


class Pm(Product):
    x = FA
    y = FB

    def total(self):
        return (self.x, self.y)


class Psub(Pm):
    pass


AP2 = AnonymousProduct[{'u': FA, 'v': FB}]


S1 = Sum[FA]
S2 = Sum[FA, FB]
S3 = Sum[FA, FB, FC]


class NamedSum(Sum[FA, FB]):
    pass


class U1(TaggedUnion):
    a = FA


class U2(TaggedUnion):
    a = FA
    b = FB


class U2s(TaggedUnion):
    a = FA
    b = FA


class U3(TaggedUnion):
    c = FA
    a = FB
    b = FA


class Usub(U2):
    pass


class Um(TaggedUnion):
    p = FA
    q = FB

    def other(self):
        return 1


from hwtypes.modifiers import make_modifier
M1 = make_modifier('M1')
M2 = make_modifier('M2')
M3 = make_modifier('M3')


class E2(Enum):
    a = 0
    b = 1


class Auto2(Enum):
    a = new_instruction()
    b = new_instruction()


class EBase(Enum):
    def base_helper(self):
        return 6


from hwtypes.util import TypedProperty


class Holder:
    def __init__(self, x):
        self.x = x

    @TypedProperty(FA)
    def foo(self):
        """the foo"""
        return self.x

    @foo.setter
    def foo(self, value):
        self.x = value

    @foo.deleter
    def foo(self):
        self.x = None

    @TypedProperty(FB)
    def ro(self):
        return self.x

    wo = TypedProperty(FB)()

    @wo.setter
    def wo(self, value):
        self.x = value

    none = TypedProperty(FA)()


class SubHolder(Holder):
    pass


from hwtypes import BitVector, SIntVector, FPVector


class SubBV(BitVector):
    pass


class SubSub(SubBV):
    pass


class Other(BitVector):
    pass


class Mixed(SubBV, Other):
    pass


class SubFP(FPVector):
    pass


class SubFP2(SubFP):
    pass
