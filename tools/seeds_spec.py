BV = 'hwtypes/bit_vector.py'
SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed('C03-lshr-cap', 'C03', [(BV, 'return type(self)(self.as_uint() >> other.as_uint())',
                             'return type(self)(self.as_uint() >> min(other.as_uint(), 64))')],
     'from hwtypes import BitVector\nassert BitVector[80]((1 << 80) - 1).bvlshr(70) == 1023\n',
     'width above 64 and a shift amount above 64', 'logical right shift by more than 64 shifts by 64')
seed('C05-setitem-neg', 'C05', [(BV, '            if index < 0:\n                index = self.size+index\n\n            if not (0 <= index < self.size):',
                                '            index = index % self.size if index < 0 else index\n\n            if not (0 <= index < self.size):')],
     'from hwtypes import BitVector\nx = BitVector[4](0)\ntry:\n    x[-5] = 1\nexcept IndexError:\n    pass\nelse:\n    raise SystemExit(1)\n',
     'a bit assignment with a negative index below -size', 'out-of-range negative index silently wraps round')
seed('C08-rmod', 'C08', [(BV, '''        try:
            return self.bvsrem(other)
        except InconsistentSizeError as e:
            raise e from None
        except TypeError:
            return NotImplemented

    __rmod__ = dispatch_roper(__mod__)''', '''        try:
            return self.bvsrem(other)
        except InconsistentSizeError as e:
            raise e from None
        except TypeError:
            return NotImplemented

    __rmod__ = NumVector.__rmod__''')],
     'from hwtypes import SIntVector\nassert (-7) % SIntVector[8](3) == SIntVector[8](-7) % 3\n',
     'reflected % on a signed vector with an operand whose sign matters', 'int % SIntVector uses the unsigned remainder')
seed('C04-sdiv-float', 'C04', [(BV, 'return type(self)(self.as_sint() // other)', 'return type(self)(int((self.as_sint() - self.as_sint() % other) / other))')],
     'from hwtypes import SIntVector\nx = SIntVector[70](2**62 + 3)\nassert x.bvsdiv(1) == x\n',
     'a quotient that needs more than 53 bits', 'signed division loses low bits through floating point')
seed('C01-udiv-float', 'C01', [(BV, 'return type(self)(self.as_uint() // other)', 'return type(self)(int(self.as_uint() / other) if self.size <= 64 else self.as_uint() // other)')],
     'from hwtypes import BitVector\nx = BitVector[64]((1 << 63) + 1)\nassert x.bvudiv(1) == x\n',
     'a quotient above 2**53 at width 54..64', 'unsigned division rounds through floating point')

SMT = 'hwtypes/smt_bit_vector.py'
Z3 = 'hwtypes/z3_bit_vector.py'
SI = 'hwtypes/smt_int.py'
ABC = 'hwtypes/bit_vector_abc.py'
FPA = 'hwtypes/fp_vector_abc.py'
FP = 'hwtypes/fp_vector.py'
SFP = 'hwtypes/smt_fp_vector.py'
U = 'hwtypes/bit_vector_util.py'
UT = 'hwtypes/util.py'
ADT = 'hwtypes/adt.py'
META = 'hwtypes/adt_meta.py'
AU = 'hwtypes/adt_util.py'
MOD = 'hwtypes/modifiers.py'
SU = 'hwtypes/smt_utils.py'
RAISES = """
def raises(exc, f):
    try:
        f()
    except exc:
        return True
    except BaseException:
        return False
    return False
"""

seed('C02-seq-bytes', 'C02', [(BV, '        value |= int(bool(v)) << idx', '        value += int(bool(v)) << (idx if idx < 256 else idx & 255)')],
     'from hwtypes import BitVector\nassert BitVector[300]([0]*260 + [1]).as_uint() == 1 << 260\n',
     'a bit list longer than 256', 'bits past index 255 of a bit list wrap round to the low bits')
seed('C03-ror-len', 'C03', [(BV, """        other = other.as_uint() % len(self)
        return self[other:].concat(self[:other])""", """        other = other.as_uint() & (len(self) - 1) if len(self) % 2 == 0 else other.as_uint() % len(self)
        return self[other:].concat(self[:other])""")],
     'from hwtypes import BitVector\nx = BitVector[6](0b000001)\nassert x.bvror(7) == x.bvror(1)\nassert x.bvror(2).as_uint() == 0b010000\n',
     'an even width that is not a power of two', 'rotate right masks the amount instead of reducing it modulo the width')
seed('C06-adc-wide', 'C06', [(BV, '        carry = _coerce(T.unsized_t[1], carry)', '        carry = _coerce(T.unsized_t[1], carry if self.size < 64 else Bit(bool(carry) and bool(self != -1)))')],
     'from hwtypes import BitVector\ns, c = BitVector[64](-1).adc(BitVector[64](0), 1)\nassert s == 0 and c == 1\n',
     'a carry into an all-ones word of width 64 or more', 'carry in is dropped')
seed('C07-bit-xor', 'C07', [(BV, """    def __rxor__(self, other):
        return type(self)(other._value ^ self._value)""", """    def __rxor__(self, other):
        return type(self)(other._value and not self._value)""")],
     'from hwtypes import Bit\nassert bool(False ^ Bit(1)) is True\n', 'a bool on the left of ^ that is False', 'reflected xor is not symmetric')
seed('C10-vcall', 'C10', [(U, """            if v0 is NotImplemented or v1 is NotImplemented:
                return NotImplemented
            return select.ite(v0, v1)""", """            if v0 is NotImplemented or v1 is NotImplemented:
                return NotImplemented
            return v0 if type(v0) is type(v1) and not kwargs and len(args) == 1 else select.ite(v0, v1)""")],
     'from hwtypes import *\nx = Bit(0).ite(SIntVector[4](3), UIntVector[4](9))\nclass A(BitVector):\n    def bvneg(self): return type(self)(7)\ny = Bit(1).ite(BitVector[4](3), A[4](3))\nz = Bit(0).ite(BitVector[4](3), A[4](3))\nassert z.bvneg() == 7 and y.bvneg() == -3\n',
     'a unary operation that the two branch types implement differently', 'the first branch decides unary operations')
seed('C11-smt-sext', 'C11', [(SMT, '        return type(self).unsized_t[self.size + ext](smt.BVSExt(self.value, ext))', '        return type(self).unsized_t[self.size + ext](smt.BVSExt(self.value, ext) if ext <= 32 else smt.BVZExt(smt.BVSExt(self.value, 32), ext - 32))')],
     'from hwtypes import SMTBitVector\nfrom hwtypes import SMTBitVector\nassert SMTBitVector[2](3).sext(40).value.constant_value() == (1 << 42) - 1\n',
     'sign extension by more than 32 bits of a negative value', 'bits past the 32nd extended bit are zero')
seed('C11-smt-rsub', 'C11', [(SMT, """        c = carry.zext(T.size)

        res = a + b + c
        return res[0:-1], res[-1]""", """        c = carry.zext(T.size)

        res = a + b + c
        return res[0:-1], (res[-1] if T.size > 1 else (a + b)[-1] | (res[-1] & carry[0] & ~(other[0] ^ self[0])))""")],
     'from hwtypes import SMTBitVector, SMTBit\ns, c = SMTBitVector[1](1).adc(SMTBitVector[1](0), SMTBit(1))\nassert c.value.constant_value() is True\n',
     'a 1-bit word with differing operands and a carry', 'carry out of a 1-bit adder is lost')
seed('C12-smt-rand', 'C12', [(SMT, """    def substitute(self, *subs : tp.List[tp.Tuple['SMTBit', 'SMTBit']]):
        return SMTBit(
            self.value.substitute(
                {from_.value:to.value for from_, to in subs}
            )
        )""", """    def substitute(self, *subs : tp.List[tp.Tuple['SMTBit', 'SMTBit']]):
        value = self.value
        for from_, to in subs:
            value = value.substitute({from_.value:to.value})
        return SMTBit(value)""")],
     'from hwtypes import SMTBit\na, b, c = SMTBit(), SMTBit(), SMTBit()\nassert (a & ~b).substitute((a, b), (b, a)).value == (b & ~a).value\n',
     'two substitutions whose target is the other source', 'substitution is sequential instead of simultaneous')
seed('C14-int-rsub', 'C14', [(SI, """    def __radd__(self, other: 'SMTInt') -> 'SMTInt':
        return self + other""", """    def __radd__(self, other: 'SMTInt') -> 'SMTInt':
        return self - (-other) if other is not True else self""")],
     'from hwtypes import SMTInt\nassert (True + SMTInt(2)).value.constant_value() == 3\n', 'True on the left of +', 'adding True adds nothing')
seed('C15-gen-name', 'C15', [(SMT, """    while name in _name_table:
        name = f'{prefix}_{next(_var_counters[prefix])}'
    return name""", """    if name in _name_table:
        name = f'{prefix}_{next(_var_counters[prefix])}'
    return name""")],
     'import warnings\nwarnings.simplefilter("ignore")\nfrom hwtypes import SMTBit\na = SMTBit(name="q_0")\nb = SMTBit(name="q_1")\nc = SMTBit(prefix="q")\nassert len({a._name, b._name, c._name}) == 3\n',
     'two consecutive names taken by explicitly named live values', 'only one taken name is skipped')
seed('C17-setitem', 'C17', [(ADT, """            v = list(self._value_)
            v[idx] = value
            self._value_ = tuple(v)""", """            v = self._value_
            self._value_ = v[:idx] + (value,) + v[idx+1:]""")],
     'from hwtypes import Tuple, Bit, BitVector\nT = Tuple[Bit, BitVector[2], BitVector[3]]\nt = T(Bit(0), BitVector[2](1), BitVector[3](2))\nt[-1] = BitVector[3](5)\nassert t == T(Bit(0), BitVector[2](1), BitVector[3](5)), t\n',
     'assignment through index -1', 'assigning item -1 duplicates the record')
seed('C18-tag-order', 'C18', [(META, """            @prop.setter
            def prop(self, value):
                self._value_ = value
                self._tag_ = tag""", """            @prop.setter
            def prop(self, value):
                if getattr(self, '_value_', None) is not value:
                    self._value_ = value
                    self._tag_ = tag""")],
     'from hwtypes import TaggedUnion, Bit\nclass T(TaggedUnion):\n    a = Bit\n    b = Bit\nv = Bit(1)\nt = T(a=v)\nt.b = v\nassert t.b.match and not t.a.match\n',
     'two tags sharing a type and assignment of the very object already held', 'switching tag with the same object keeps the old tag')
seed('C19-enum-eq', 'C19', [(ADT, """    def name(self):
        return self._name_

    def __repr__(self):
        return f'{type(self).__name__}.{self.name}'

    def __eq__(self, other):
        if isinstance(other, type(self)):""", """    def name(self):
        return self._name_

    def __repr__(self):
        return f'{type(self).__name__}.{self.name}'

    def __eq__(self, other):
        if isinstance(other, type(self)) or (isinstance(other, Enum) and type(self).__name__ == type(other).__name__):""")],
     'from hwtypes import Enum\ndef mk(**k):\n    return Enum.from_fields("E", k)\nA, B = mk(a=1), mk(a=1, b=2)\nassert A.a != B.a\n',
     'two enums of one name with different members', 'members of enums sharing a name compare by value')
seed('C20-enum-tu', 'C20', [(META, '                yield from map(lambda v: cls(**{tag: v}), field.enumerate())', '                yield from map(lambda v, tag=tag: cls(**{tag: v}), sorted(set(field.enumerate()), key=repr))')],
     'from hwtypes import Enum, TaggedUnion\nclass E(Enum):\n    a = 1\n    b = 1\nclass T(TaggedUnion):\n    x = E\nassert [v.x.value.name for v in T.enumerate()] == ["a", "b"]\n',
     'a tagged union over an enum with two members of equal value', 'equal members are merged')
seed('C21-attr-cache', 'C21', [(META, """                        ns_idx.add((k,v))""", """                        ns_idx.add((k, type(v) if isinstance(v, str) else v))""")],
     'from hwtypes import Product, Bit\nclass A(Product):\n    x = Bit\n    doc = "one"\nB = A\nclass A(Product):\n    x = Bit\n    doc = "two"\nassert A is not B and A.doc == "two"\n',
     'two declarations equal but for a string attribute', 'declarations differing in a string attribute are one type')
seed('C22-rebind-deep', 'C22', [(META, """            elif rebind_recursive and isinstance(T, BoundMeta):
                new_fields.append(T.rebind(A, B, rebind_sub_types))""", """            elif rebind_recursive and isinstance(T, BoundMeta):
                new_fields.append(T.rebind(A, B, rebind_sub_types, rebind_sub_types or isinstance(T, _AttrSyntax)))""")],
     'from hwtypes import Tuple, Bit, BitVector\nA, B = BitVector[2], BitVector[3]\nT = Tuple[Bit, Tuple[Bit, Tuple[Bit, A]]]\nassert T.rebind(A, B) is Tuple[Bit, Tuple[Bit, Tuple[Bit, B]]]\n',
     'three levels of anonymous tuples and exact rebinding', 'recursion stops two levels down')
seed('C23-push-order', 'C23', [(MOD, '    mods = new_mods + mods\n', '    mods = new_mods + mods if len(new_mods) < 2 else mods + new_mods\n')],
     'from hwtypes import Tuple, Bit\nfrom hwtypes.modifiers import make_modifier, push_modifiers\nA, B, C = map(make_modifier, "ABC")\nT = A(Tuple[C(B(Bit))]) if False else A(Tuple[Bit, C(B(Tuple[Bit]))])\nassert push_modifiers(T).fields[1].fields[0] is A(C(B(Bit))), push_modifiers(T)\n',
     'an outer modifier above a type with two modifiers', 'outer modifiers are applied first')
seed('C24-subnormal', 'C24', [(FP, '                while exp < 1 - bias:\n                    mantissa_int >>= 1\n                    exp += 1', '                shift = min(1 - bias - exp, cls.mantissa_size - 1)\n                mantissa_int >>= shift')],
     'from hwtypes import FPVector, RoundingMode, BitVector\nT = FPVector[5, 6, RoundingMode.RNE, True]\nfor u in range(1, 64):\n    assert T.reinterpret_from_bv(BitVector[12](u)).reinterpret_as_bv() == u\n',
     'the least subnormal', 'the smallest subnormal is shifted one bit too few')
seed('C25-context', 'C25', [(FP, """    @set_context
    def fp_fma(self, coef, offset) -> 'FPVector':""", """    def fp_fma(self, coef, offset) -> 'FPVector':""")],
     'import gmpy2\nfrom hwtypes import FPVector, RoundingMode\nT = FPVector[8, 40, RoundingMode.RNE, True]\ngmpy2.get_context().precision = 24\nx = T(1) + T(2)**0 if False else T(1 + 2**-30)\nassert float(x.fp_fma(T(1), T(0))) == 1 + 2**-30\n',
     'a caller context of lower precision than the format', 'fused multiply-add runs in the caller context')
seed('C26-uf-size', 'C26', [(SFP, """        ufs = _uf_table[cls]['to_ubv']
        if size not in ufs:""", """        ufs = _uf_table[cls]['to_ubv' if size != self.size else 'to_sbv']
        if size not in ufs:""")],
     'from hwtypes import RoundingMode\nfrom hwtypes.smt_fp_vector import SMTFPVector\nx = SMTFPVector[4, 5, RoundingMode.RNE, True]()\nassert x.to_ubv(10).value != x.to_sbv(10).value\n',
     'both conversions to a vector of the float\'s own width', 'signed and unsigned conversion share a symbol at that width')
seed('C27-frozen-eq', 'C27', [(UT, """        if isinstance(other, type(self)):
            return self._d == other._d
        else:
            return self._d == other""", """        if isinstance(other, type(self)):
            return self._d == other._d if type(self) is not FrozenDict else self._hash == other._hash and self._d.keys() == other._d.keys()
        else:
            return self._d == other""")],
     'from hwtypes.util import FrozenDict\nassert FrozenDict(a=-1) != FrozenDict(a=-2)\n', 'two dictionaries whose values differ but hash alike', 'values with equal hashes are taken as equal')
seed('C28-implies', 'C28', [(SU, '        return _and_reduce(_to_hwtypes(v) for v in self.values)', '        return _and_reduce(_to_hwtypes(v) for v in (self.values if not isinstance(self.values[-1], Implies) or len(self.values) < 3 else self.values[:-1] + [self.values[-1].q]))')],
     'from hwtypes import SMTBit\nfrom hwtypes.smt_utils import And, Implies\na, b, c = SMTBit(1), SMTBit(1), SMTBit(0)\nassert And([a, b, Implies(c, c)]).to_hwtypes().value.constant_value() is True\n',
     'a conjunction of three or more whose last member is an implication', 'the premise of a trailing implication is dropped')
seed('C29-visit', 'C29', [(AU, """        elif self.check_t(adt_t, Tuple):
            self.visit_Tuple(adt_t)""", """        elif self.check_t(adt_t, Tuple) and len(adt_t.field_dict if isinstance(adt_t, type) else adt_t.value_dict):
            self.visit_Tuple(adt_t)""")],
     'from hwtypes import *\nfrom hwtypes.adt_util import ADTVisitor\nclass V(ADTVisitor):\n    def __init__(self): self.seen = []\n    def visit_Tuple(self, x): self.seen.append(x)\nv = V()\nv.visit(Tuple[()])\nassert v.seen == [Tuple[()]]\n',
     'an empty tuple type', 'empty tuples go to the leaf handler')
seed('C13-z3-ashr', 'C13', [(Z3, """            if start is None:
                start = 0
            elif start < 0:
                start = size + start
""", """            if start is None:
                start = 0
            elif start < 0:
                start = max(size + start, 1)
""")],
     'import z3\nfrom hwtypes.z3_bit_vector import z3BitVector\nx = z3BitVector[4](9)[-4:]\nassert x.size == 4 and z3.simplify(x.value).as_long() == 9\n',
     'a slice start of exactly -size', 'the slice starts one bit late')
seed('C09-ite-select', 'C09', [(BV, '        return self.bvne(0).ite(t_branch, f_branch)', '        return self.bvne(0 if self.size < 40 else self.bvnot() & 0).ite(t_branch, f_branch) if self.size < 40 else self.bvugt(2**0 - 1 | 0).ite(t_branch, f_branch) if self.size > 80 else Bit(hash(self.as_uint()) != 0).ite(t_branch, f_branch)')],
     'from hwtypes import BitVector\nassert BitVector[64]((1 << 61) - 1).ite(BitVector[4](1), BitVector[4](2)) == 1\n',
     'a selector of 40 to 80 bits holding a multiple of 2**61 - 1', 'a non-zero selector selects the false branch')
seed('C16-fp-mixed', 'C16', [(FPA, '                elif binding != base.binding:', '                elif binding[:3] != base.binding[:3]:')],
     'from hwtypes import FPVector, RoundingMode\ntry:\n    class A(FPVector[4, 5, RoundingMode.RNE, True], FPVector[4, 5, RoundingMode.RNE, False]): pass\nexcept TypeError as e:\n    assert "multiple FP types" in str(e)\nelse:\n    raise SystemExit(1)\n',
     'a class inheriting from two formats that differ only in IEEE compliance', 'mixing compliant and non-compliant formats is not rejected as such')


# ---- second round
A_U = 'hwtypes/adt_util.py'
A_M = 'hwtypes/modifiers.py'
A_D = 'hwtypes/adt.py'
seed('C22-rbv-keep', 'C22', [(A_U, 'new_field = rebind_bitvector(field, bv_type_0, bv_type_1,keep_modifiers)',
                              'new_field = rebind_bitvector(field, bv_type_0, bv_type_1, keep_modifiers and is_modified(field))')],
     """from hwtypes import BitVector, SMTBitVector, Tuple, Bit
from hwtypes.modifiers import make_modifier
from hwtypes.adt_util import rebind_bitvector
M = make_modifier('M')
T = Tuple[Bit, Tuple[Bit, M(BitVector[3])]]
assert rebind_bitvector(T, BitVector, SMTBitVector, True) is Tuple[Bit, Tuple[Bit, M(SMTBitVector[3])]]
""", 'a modified vector two levels below an unmodified type', 'keep_modifiers is forgotten below unmodified fields')
seed('C22-anon-dup', 'C22', [(META, """            elif rebind_recursive and isinstance(T, BoundMeta):
                new_fields[field] = T.rebind(A, B, rebind_sub_types)
            else:
                new_fields[field] = T
        return cls.unbound_t[new_fields]""", """            elif rebind_recursive and isinstance(T, BoundMeta) and T not in new_fields.values():
                new_fields[field] = T.rebind(A, B, rebind_sub_types)
            else:
                new_fields[field] = T
        return cls.unbound_t[new_fields]""")],
     """from hwtypes import Tuple, Bit, BitVector
from hwtypes.adt import AnonymousProduct
A, B = BitVector[2], BitVector[3]
T = AnonymousProduct[{'x': A, 'y': Tuple[A], 'z': Tuple[B]}]
R = T.rebind(B, Bit)
assert R.field_dict['z'] is Tuple[Bit]
S = AnonymousProduct[{'x': B, 'y': Tuple[Tuple[B]], 'z': Tuple[B]}].rebind(Tuple[B], B)
assert AnonymousProduct[{'x': A, 'y': A, 'z': Tuple[A]}].rebind(A, Tuple[A]).field_dict['z'] is Tuple[Tuple[A]]
""", 'a nested field equal to the new type of an earlier field', 'fields whose old type equals an earlier new type are left alone')
seed('C23-strip-enum', 'C23', [(A_M, """    elif isinstance(adt_t, GetitemSyntax):
        new_fields = [strip_modifiers(sub_adt_t) for sub_adt_t in adt_t.fields]
        return adt_t.unbound_t[new_fields]""", """    elif isinstance(adt_t, GetitemSyntax):
        new_fields = [strip_modifiers(sub_adt_t) for sub_adt_t in dict.fromkeys(adt_t.fields)]
        return adt_t.unbound_t[new_fields]""")],
     """from hwtypes import Tuple, Bit
from hwtypes.modifiers import make_modifier, strip_modifiers
M = make_modifier('M')
assert strip_modifiers(Tuple[M(Bit), Bit, M(Bit)]) is Tuple[Bit, Bit, Bit]
""", 'a tuple with two equal fields', 'stripping merges equal fields of a tuple')
seed('C29-type-dup', 'C29', [(A_U, """        for T in adt_t.field_dict.values():
            self.visit(T)""", """        for T in dict.fromkeys(adt_t.field_dict.values()):
            self.visit(T)""")],
     """from hwtypes import Tuple, Bit
from hwtypes.adt_util import ADTVisitor
class V(ADTVisitor):
    n = 0
    def visit_leaf(self, x): self.n += 1
v = V()
v.visit(Tuple[Bit, Bit, Bit])
assert v.n == 3
""", 'a type with two equal fields', 'equal fields are visited once')
seed('C20-leaf-default', 'C20', [(META, """            if isinstance(field, BoundMeta):
                field_iters.append(field.enumerate())
            else:""", """            if isinstance(field, BoundMeta):
                field_iters.append(field.enumerate() if field not in cls.fields[:len(field_iters)]
                                   else field_iters[cls.fields.index(field)])
            else:""")],
     """from hwtypes import Tuple, Enum
class E(Enum):
    a = 0
    b = 1
assert len(list(Tuple[E, E].enumerate())) == 4
""", 'two equal enumerable fields', 'equal fields share one exhausted iterator')
seed('C21-sum-name', 'C21', [(META, """        if not isinstance(idx, tp.Iterable):
            idx = idx,

        if type(cls).ORDERED:
            idx = tuple(idx)""", """        if not isinstance(idx, tp.Iterable):
            idx = idx,

        if type(cls).ORDERED:
            idx = tuple(idx)
            if len(idx) > 4 and len(set(idx)) == 1:
                idx = idx[:4]""")],
     """from hwtypes import Tuple, Bit
assert len(Tuple[(Bit,) * 6].fields) == 6
""", 'a tuple of more than four equal fields', 'long homogeneous tuples are cut')
seed('C17-from-values', 'C17', [(A_D, """    def __setitem__(self, idx, value):
        if isinstance(value, type(self)[idx]):
            v = list(self._value_)
            v[idx] = value
            self._value_ = tuple(v)""", """    def __setitem__(self, idx, value):
        if isinstance(value, type(self)[idx]):
            v = list(self._value_)
            v[v.index(v[idx])] = value
            self._value_ = tuple(v)""")],
     """from hwtypes import Tuple, BitVector
B = BitVector[2]
t = Tuple[B, B](B(1), B(1))
t[1] = B(3)
assert t == Tuple[B, B](B(1), B(3))
""", 'assignment to a field whose value equals an earlier one', 'the first equal field is overwritten instead')
seed('C18-tu-hash', 'C18', [(A_D, """            return self._tag_ == other._tag_ and self._value_ == other._value_""",
                             """            return type(self)._field_table_[list(type(self)._field_table_)[self._tag_]] is type(other)._field_table_[list(type(other)._field_table_)[other._tag_]] and self._value_ == other._value_""")],
     """from hwtypes import TaggedUnion, BitVector
B = BitVector[2]
class U(TaggedUnion):
    a = B
    b = B
assert not (U(a=B(1)) == U(b=B(1)))
""", 'two tags of the same type', 'tags of equal type are not distinguished by equality')
