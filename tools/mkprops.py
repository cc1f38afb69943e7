#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

BV='hwtypes/bit_vector.py'; ABC='hwtypes/bit_vector_abc.py'; U='hwtypes/bit_vector_util.py'
SMT='hwtypes/smt_bit_vector.py'; Z3='hwtypes/z3_bit_vector.py'; SI='hwtypes/smt_int.py'
ADT='hwtypes/adt.py'; META='hwtypes/adt_meta.py'; AU='hwtypes/adt_util.py'; MOD='hwtypes/modifiers.py'
FP='hwtypes/fp_vector.py'; FPA='hwtypes/fp_vector_abc.py'; SFP='hwtypes/smt_fp_vector.py'; UT='hwtypes/util.py'; SU='hwtypes/smt_utils.py'

prop('C01','Bit-vector arithmetic, bitwise and unsigned compares are exact mod 2^n',
 'For every width n>=1 and all operands, the concrete bit-vector operations not/and/or/xor/nand/nor/xnor, neg/add/sub/mul, unsigned div/rem and eq/ne/comp/ult/ule/ugt/uge return the value the fixed-width unsigned (SMT-LIB) semantics gives, with division by zero giving all ones and remainder by zero giving the dividend. Each result has exactly the type of the left operand (a Bit for a comparison, a 1-bit vector for comp), and no operand is changed. The infix operators ~ & | ^ - + * // % == != < <= > >= on BitVector and UIntVector are these operations.',
 ['inputs'],'all widths n>=1 and all operand values of that width',
 'Tests draw random values at a few small widths; wide words, boundary values, zero divisors at odd widths are only sampled.',
 [BV,ABC],[('bv* methods, masking in __init__',BV),('derived compares and nand/nor/xnor',ABC)],observe=['as_uint()','type(result)'])
prop('C02','Bit-vector construction reduces mod 2^n and conversions round-trip',
 'Constructing a concrete n-bit vector (n>=0) from an integer, Bit, bool, other bit-vector, bit sequence (element i is bit i) or any object with __int__ yields the value reduced mod 2^n, and anything else raises TypeError; the stored value of every vector is an int in [0,2^n). Unsigned and signed readings, int(), bool(), the bit list, the bool list and the binary string all describe that same value (bit i of the list has weight 2^i; strings are written most significant bit first), so int(T(int(x))) == int(x) and T(x.bits()) == x. make_constant, and implicitly sized construction, choose the stated width, and equal vectors of one type hash equally.',
 ['inputs'],'all widths, all integers (any sign and magnitude), all bit sequences of any length, all convertible objects',
 'Tests sample values that mostly fit the width; negative, oversize, empty and over-long inputs at arbitrary widths are unbounded.',
 [BV,ABC],[('BitVector.__init__ masking',BV),('seq2int / int2seq',BV),('AbstractBitVectorMeta.__call__',ABC)],
 state=[('_value','unsigned value, always in [0,2^size)',BV)],observe=['as_uint()','as_sint()','int()','bits()','binary_string()'])
prop('C03','Shifts and rotates are exact for every amount',
 'For every width n>=1 and every n-bit amount, however large, left shift gives u*2^k mod 2^n (0 once k>=n), logical right shift floor(u/2^k), and arithmetic right shift floor(s/2^k) of the signed reading (sign fill once k>=n). Rotates take the amount modulo n and satisfy rol(x,k) = ror(x,n-k), a rotation of the bits that loses none. << and >> are these operations (>> is arithmetic for SIntVector, logical otherwise).',
 ['inputs'],'all widths n>=1, all values, all shift and rotate amounts including amounts >= n and >= 2^31',
 'Tests shift by amounts mostly below the width at widths up to 16; huge amounts and non power of two widths are not reached.',
 [BV],[('bvshl/bvlshr/bvashr/bvrol/bvror',BV)],observe=['as_uint()'])
prop('C04','Signed reading and signed operations follow two\'s complement',
 'For every width n>=1 the signed reading of a concrete vector is u - 2^n when the top bit is set and u otherwise; slt/sle/sgt/sge compare signed readings, and SIntVector\'s < <= > >= and int() use them. Signed division rounds toward minus infinity and signed remainder is the matching floored remainder (sign of the divisor), with division by zero giving all ones (-1) and remainder by zero the dividend; SIntVector\'s // and % are these. ext on SIntVector is sign extension, on other vectors zero extension.',
 ['inputs'],'all widths n>=1 and all pairs of values, including the most negative value and divisor -1',
 'Tests sample random operands at a few widths; most-negative/-1, zero divisors and 1-bit signed vectors are corner cases of an unbounded space.',
 [BV,ABC],[('as_sint, bvslt, bvsdiv, bvsrem',BV),('derived signed compares',ABC),('SIntVector operators',BV)],observe=['as_sint()','int()'])
prop('C05','Concat, slice, index, update, extend and repeat are bit-exact and little-endian',
 'For all widths: x.concat(y) has width |x|+|y| with x in the low bits; x[i] (also negative i) is bit i and raises IndexError out of range; x[a:b:c] has exactly the bits Python slicing of the bit list selects; x[i]=b changes bit i and no other and rejects non-bits with ValueError; zext/sext by k>=0 widen preserving the unsigned/signed reading, and raise ValueError for k<0; repeat(r), r>=1, is r copies and raises ValueError for r<=0. Result types are the operand\'s own unsized type at the new width, and concatenating a vector of a foreign type raises TypeError.',
 ['inputs'],'all widths (including empty results), values, indices, slices with any start/stop/step, extension and repeat counts',
 'Tests cover fixed examples and a few widths; start/stop/step, widths and values form an unbounded space.',
 [BV],[('concat, __getitem__, __setitem__, zext, sext, repeat, bits',BV)],observe=['bits()','size','type(result)'])
prop('C06','Add-with-carry and overflow are exact',
 'For every width n>=1, x.adc(y, c) returns (s, cout) with s an n-bit vector of x\'s type, cout a Bit, and s + 2^n*cout = x + y + c for all x, y and carry in (Bit, bool, 0/1 or 1-bit vector). overflow(a, b, r) is true exactly when a and b have equal sign bits and r has the other, so overflow(a, b, a+b) is true exactly when the signed sum does not fit in n bits. adc raises InconsistentSizeError when y has another width.',
 ['inputs'],'all widths n>=1, all operands and carries',
 'Tests use fixed widths with random operands.',[BV],[('adc',BV),('overflow',BV)],observe=['as_uint()','Bit'])
prop('C07','Bit is the Boolean algebra and rejects non-bits',
 'Bit(v) accepts Bit, bool, 0/1 and objects with __bool__, raises ValueError for any other integer and TypeError for anything else; ~ & | ^ == != on bits, with either operand a bool or 0/1 on either side, compute the Boolean function and return a Bit. bool() and int() read the value back, equal bits hash equally, and an operand not convertible to a bit makes the operators return NotImplemented (hence TypeError from infix & | ^).',
 ['inputs'],'all pairs of bits, all operand kinds on both sides, all integers',
 'Tests enumerate Bit/bool pairs but not all operand kinds on both sides nor all integers.',[BV,ABC],[('Bit, bit_cast',BV)],observe=['bool()','int()'])
prop('C08','Coercion and operator dispatch never give a wrong-sized or swapped result',
 'For a concrete or SMT n-bit vector x: a non-vector operand is first converted to x\'s type; a vector operand of another width raises InconsistentSizeError from both the named methods and the infix operators; an operand that cannot be converted makes the infix operator raise TypeError (== and != fall back to identity), never another error. A reflected operator v op x computes T(v) op x with the operands in that order, for every one of & | ^ << >> + - * // %, including those specialised by SIntVector.',
 ['inputs'],'all operators, both operand orders, all operand kinds and values, all width pairs',
 'Tests exercise a few operators with ints on the right; the operator x order x operand-kind x width matrix is not covered, and reflected operators are nearly untested.',
 [BV,SMT,UT,ABC],[('_coerce, bv_cast, dispatch_oper, dispatch_roper',BV),('same in the SMT backend',SMT),('Method descriptor',UT)],observe=['result value','exception type'])
prop('C09','ite selects exactly the chosen branch, componentwise, with a well-defined type',
 'For a concrete Bit or bit-vector selector (true when non-zero), ite(t, f) equals t when true and f when false: for two bits, two vectors of one type, a pair of equally shaped (nested) tuples componentwise, or two objects of one class implementing the bit-vector protocol (through its to/from conversions). The result has the common branch type, is the same kind for either selection, and leaves the branches unchanged. Branches of mismatched kind, tuple length, nesting or width raise TypeError regardless of the selector.',
 ['inputs'],'all selectors, branch types and widths, tuple shapes of any depth, values',
 'Tests use fixed shapes; nesting depth, mixed kinds and widths are unbounded.',[U,BV],[('build_ite, determine_return_type, push_ite, coerce_branch',U),('Bit.ite, BitVector.ite',BV)],observe=['value','type'])
prop('C10','Polymorphic ite results behave as the selected branch',
 'When ite is given two different bit-vector (or bit) types of one family and width, the result denotes the selected value and every bit- or vector-valued operation on it has the behaviour the selected branch\'s own type gives that value (for example signed comparison when a signed branch was selected), with the unselected branch\'s behaviour having no influence. The resulting type is a subclass of every common base of the branch types, and branches of different family or width are rejected with TypeError. An operation that either branch type declines (NotImplemented) is declined.',
 ['inputs'],'all selector values, branch type pairs, widths, values and operations',
 'Tests check a few comparison operators at fixed widths.',[U],[('PolyType.__getitem__, build_VCall, _get_common_bases',U)],observe=['operator results','issubclass'])
prop('C11','SMT bit-vectors denote the same function as concrete ones',
 'For every width n>=1 and every assignment to its variables, the formula SMTBitVector builds for and/or/xor/not/nand/nor/xnor, neg/add/sub/mul, udiv/urem, shl/lshr/ashr, rotates by an int amount in [0,n], comp, all signed and unsigned comparisons, eq/ne, concat, single-bit index, non-empty in-range step-1 slices, bit update, zext/sext, repeat, adc, ite and construction from an int, bool, SMTBit, bit list or another SMT vector evaluates to the value the concrete BitVector gives on the same operand values, and has the same width and unsized type. bvsdiv/bvsrem follow SMT-LIB (division truncating toward zero, remainder with the sign of the dividend). SMTSIntVector\'s >>, //, %, <, <=, >, >=, ext use the signed operations.',
 ['inputs'],'all widths n>=1, all operand formulas and all assignments',
 'Tests compare random constants at a few widths.',[SMT],[('SMTBitVector methods',SMT)],state=[('_value','pysmt formula of sort BV[size]',SMT)],observe=['formula evaluated under an assignment','sort'])
prop('C12','SMT bits denote the Boolean algebra',
 'For every pair of SMT bit formulas and every assignment, SMTBit\'s ~ & | ^ == !=, with a bool or 0/1 allowed on either side, and ite over bits, vectors and tuples evaluate to the concrete Bit result on the same values. Construction accepts exactly Boolean formulas, SMTBits, bools, 0/1 and objects with __bool__ (ValueError for other ints, TypeError otherwise), and converting an SMTBit to a Python bool raises TypeError. substitute replaces exactly the given sub-formulas.',
 ['inputs'],'all bit formulas and assignments, both operand orders',
 'Tests build a handful of formulas and compare shapes.',[SMT,U],[('SMTBit, bit_cast',SMT)],observe=['formula evaluated under an assignment'])
prop('C13','z3 bit-vectors denote the same function as concrete ones',
 'For every width n>=1 and assignment, the terms z3BitVector and z3Bit build for bitwise, arithmetic (add, sub, mul, neg, udiv, urem), shift, comparison, concat, single-bit index, non-empty in-range slices, zext/sext, repeat, adc and ite over equal-typed vectors evaluate to the concrete results on the same operand values, with the same width. bvrol/bvror rotate by the amount modulo n; signed division truncates and z3BitVector.bvsrem is the floored remainder for non-zero divisors. z3SIntVector\'s operators use the signed forms.',
 ['inputs'],'all widths n>=1, operand terms and assignments',
 'The test-suite barely exercises this backend.',[Z3],[('z3BitVector, z3Bit methods',Z3)],observe=['term evaluated under an assignment'])
prop('C14','SMT integers and bit-vector/integer conversions are exact',
 'For every assignment, SMTInt\'s + - * unary-minus, // by a positive divisor, and == != < <= > >=, with an int on either side, evaluate to the integer result, with no wrap-around. SMTInt(bv) and as_uint() denote the unsigned reading and as_sint() the signed reading of the vector. Construction accepts integer formulas, bit-vector formulas (as naturals), ints, bools and objects with __int__, and rejects anything else with TypeError.',
 ['inputs'],'all integer formulas, assignments, widths',
 'Tests check a few solver queries.',[SI,SMT],[('SMTInt',SI),('as_uint/as_sint',SMT)],observe=['formula evaluated under an assignment'])
prop('C15','Distinct live SMT values never share a variable by accident',
 'Across SMTBit, SMTBitVector and SMTInt, creating a symbolic value without a name or with a prefix always yields a variable different from that of every other symbolic value currently alive, in any creation order and mix of user-chosen, prefixed and automatic names. Explicitly reusing the name of a live value raises ValueError; giving a name to a non-symbolic value raises TypeError, giving both name and prefix raises ValueError, and a non-string name raises TypeError. A prefixed name starts with its prefix.',
 ['histories','inputs'],'all histories of creation and destruction with automatic, prefixed and explicit names',
 'Tests create a few variables; collisions need specific sequences mixing explicit names and counters.',[SMT,SI],[('_gen_name, _name_table, _var_counters',SMT),('constructors',SI)],state=[('_name_table','live name to value map',SMT),('_var_counters','per prefix counters',SMT)],observe=['variable name'])
prop('C16','Sized bit-vector types are unique, correctly sized and covariant',
 'T[n] for an unsized bit-vector type and int n>=0 always denotes one and the same type with size n, unsized_t T, subclass of T and of B[n] for every unsized base B of T, and distinct (T,n) give distinct types; the same holds for FPVector types and their binding. Sizing an already sized type raises TypeError, a negative size ValueError and a non-int size TypeError; subclassing sized types keeps the size and mixing sizes raises TypeError. These hold in any order of creation and re-creation (FPVector formats being bounded by what MPFR can represent).',
 ['histories','inputs'],'all type/size pairs in any order of requests, including after earlier requests and garbage collection',
 'Tests check a few sizes in one order; the cache makes the answer history dependent.',[ABC,FPA],[('AbstractBitVectorMeta.__getitem__/__new__',ABC),('AbstractFPVectorMeta',FPA)],state=[('_class_cache','(type,size) to sized type',ABC)],observe=['is','issubclass','size'])
prop('C17','Tuple and Product values are well-typed fixed records',
 'A bound Tuple or Product can only be constructed from exactly one value per field, each an instance of its field type (ValueError / TypeError otherwise); positional and keyword construction agree; item i / attribute k reads back exactly what was stored. Assigning a field changes that field alone, rejects a value of a wrong type with TypeError leaving the record unchanged, and keeps equality and hashing consistent. value_dict and from_values are mutually inverse, and records are equal exactly when of compatible type with all fields equal.',
 ['inputs','histories'],'all field type lists, value lists and sequences of assignments',
 'Tests use two or three field examples; arity, types and update histories are unbounded.',[ADT,META],[('Tuple.__init__/__setitem__/from_values',ADT),('AnonymousProductMeta accessors',META)],state=[('_value_','tuple of field values',ADT)],observe=['indexing','attributes','==','hash'])
prop('C18','Sum and TaggedUnion hold exactly one well-typed alternative',
 'A Sum accepts exactly values whose type is one of its fields, a TaggedUnion exactly one keyword naming a field with a value of that field\'s type; otherwise construction raises and no value results. Matching reports true for exactly the stored alternative (fields of a Sum being unrelated types; the tag, not the type, decides for a TaggedUnion even when two tags share a type), the value of an unmatched alternative is never readable, and value_dict/from_values are mutually inverse. Assigning a value of exactly an alternative\'s type switches the alternative atomically (a rejected assignment changes nothing), and equal values have equal alternatives and hashes.',
 ['inputs','histories'],'all field sets, values and assignment histories',
 'Tests use a few two-field examples.',[ADT,META],[('Sum, TaggedUnion',ADT),('TaggedUnionMeta accessors',META)],state=[('_value_','stored value',ADT),('_tag_','index of the active alternative',META)],observe=['match','value','value_dict'])
prop('C19','Enum members are a closed set of distinct named values',
 'The members of an Enum are exactly its declared names, each a single instance of the enum whose name is its declared name; equality and hash follow the declared values, distinct values are unequal, and each new_instruction() value is distinct from all others. An Enum cannot be constructed by value, members cannot be reached through members, and members of different enums are never equal.',
 ['inputs'],'all enum declarations',
 'Tests declare two or three enums.',[ADT,META],[('EnumMeta._from_fields',META),('Enum',ADT)],observe=['members','==','name'])
prop('C20','enumerate lists every value exactly once',
 'For an ADT whose leaves are enums (and other leaves at their default value), enumerate() yields every value of the type exactly once: the Cartesian product for Tuple and Product, the disjoint union over alternatives for Sum and TaggedUnion, the members for Enum, recursively; each yielded value is an instance of the type.',
 ['inputs'],'all finite nested ADTs',
 'Tests enumerate one fixed nested type.',[META],[('enumerate methods of the metaclasses',META)],observe=['enumerate()'])
prop('C21','ADT types are determined by their definition',
 'Binding an unbound Tuple/Sum/AnonymousProduct with the same fields (order significant except for Sum) yields the same type, and different fields yield different types, in any request history; Product/TaggedUnion/Enum declarations are the same type exactly when name, bases, fields (field order significant for Product) and attributes (special methods included; docstring, module and qualified name not) coincide and caching is on, and cache=False always gives a new type. A bound type cannot be bound again, reserved field names in a declaration are rejected with ReservedNameError, fields/field_dict/unbound_t describe the declaration, and subtyping follows that of the unbound types at equal fields.',
 ['histories','inputs'],'all declarations in any order, interleaved with others',
 'Tests declare a few types once.',[META],[('BoundMeta, _AttrSyntax._cache_handler, _GetitemSyntax._cache_handler',META)],state=[('_class_cache','definition to type map',META)],observe=['is','fields','issubclass'])
prop('C22','Rebinding replaces exactly the requested types',
 'rebind(A,B) on an ADT type (made by binding or by declaration) returns the type with every field equal to A (every subclass of A when asked, at every depth when recursive) replaced by B, every other field, the field names, their order and the kind of ADT unchanged, and the original type untouched. Rebinding a type not containing A gives back the same type. rebind_bitvector/rebind_type map bit-vector and bit leaves of one family to the other preserving widths, and leave enums and foreign types alone; with keep_modifiers the modifiers are preserved.',
 ['inputs'],'all ADT types, nesting depths and replacement pairs',
 'Tests rebind a few fixed types.',[META,AU],[('rebind methods',META),('rebind_bitvector, rebind_keep_modifiers, rebind_type',AU)],observe=['fields','field_dict'])
prop('C23','Modifiers wrap and unwrap types losslessly',
 'Applying a modifier M to a type T always yields one and the same type, a subclass of T and of M, for which get_modifier is M and get_unmodified is T; is_modified holds exactly for such types. unwrap_modifier and wrap_modifier are inverse, duplicates are rejected with TypeError, isinstance/issubclass against M hold exactly for types M was applied to, and modified subclasses follow the subclassing of the unmodified types. strip_modifiers removes modifiers at every level keeping the structure, push_modifiers moves them to the leaves in order.',
 ['inputs','histories'],'all types and modifier sequences in any order of application',
 'Tests use two modifiers on a few types.',[MOD],[('_ModifierMeta.__call__',MOD),('wrap/unwrap/strip/push',MOD)],state=[('_modifier_lookup','modified type to modifier',MOD),('_sub_class_cache','type to modified type',MOD)],observe=['is','issubclass','get_modifier'])
prop('C24','Floating-point bit patterns round-trip',
 'For every IEEE-compliant format MPFR can represent with at least 2 exponent bits and at least 2 mantissa bits, reinterpreting any non-NaN bit pattern as a float and back gives the same pattern, NaN patterns give NaN, and the value denoted is the IEEE-754 one (sign, subnormals, infinities, signed zeros). For non-IEEE formats subnormal patterns become the zero of the same sign and NaN patterns an infinity, all other patterns round-trip. A pattern of another width raises TypeError.',
 ['inputs','configurations'],'all formats (exponent and mantissa widths, rounding mode) and all bit patterns',
 'Tests sample a few formats with random patterns.',[FP,FPA],[('reinterpret_as_bv / reinterpret_from_bv',FP)],observe=['bit pattern','float value'])
prop('C25','Floating-point operations round once in the type\'s own format and mode',
 'For every format MPFR can represent with at least 2 exponent bits and every rounding mode, the FP operations add/sub/mul/div/sqrt/fma/rem/round-to-integral/min/max/neg/abs return the exact result rounded once to the type\'s precision, exponent range and rounding mode, (in a non-IEEE format subnormal results become zero and NaN an infinity), whatever gmpy2 context the caller has active, and leave that caller context unchanged, even on error. Comparisons and classification predicates (zero, infinite, NaN, subnormal, normal, positive, negative) agree with the value. Operands of a different FP type raise TypeError; non-FP operands are converted first.',
 ['inputs','configurations'],'all formats, modes, operands and ambient contexts',
 'Tests compare a few formats with native floats.',[FP],[('set_context, fp_cast, _ctx_',FP)],state=[('_ctx_','gmpy2 context of the type',FP)],observe=['value','gmpy2.get_context()'])
prop('C26','SMT floats apply each operation\'s own function symbol to its operands in order',
 'For every bound type SMTFPVector[exponent bits, mantissa bits, mode, IEEE flag], each operation is an application of one uninterpreted function symbol belonging to that type and operation (distinct operations, types and target sizes have distinct symbols) to the operand formulas in the given order, with a result of the declared sort: same type for arithmetic, SMTBit for predicates and comparisons, an SMT vector of the requested size for conversions. Infix operators are the corresponding named operations, != is the negation of ==, and reinterpreting to and from bit-vectors is the identity on formulas.',
 ['inputs'],'all types, operand formulas, conversion sizes',
 'Tests check a few methods.',[SFP],[('_SIGS table, _fp_method, _bit_method',SFP)],observe=['formula structure'])
prop('C27','Frozen dictionaries and typed properties keep their contracts',
 'FrozenDict is an immutable mapping equal to any mapping with the same items, hashing equally whenever equal to another FrozenDict (insertion order irrelevant), and OrderedFrozenDict likewise distinguishes order; reading returns exactly what was given. A typed property read on the class gives its type, on an instance the getter\'s value; writing passes exactly instances of the type to the setter and raises TypeError otherwise, and missing accessors raise AttributeError.',
 ['inputs','histories'],'all mappings, insertion orders, property types and values',
 'Tests check a few dictionaries.',[UT],[('FrozenDict, OrderedFrozenDict, TypedProperty',UT)],observe=['==','hash','attribute access'])
prop('C28','SMT formula constructors mean conjunction, disjunction and implication',
 'For every nesting of And, Or and Implies over SMT bits, to_hwtypes() denotes the corresponding Boolean function under every assignment, with the empty And true and the empty Or false; non-formula arguments raise ValueError, and the constructor does not alias the caller\'s list.',
 ['inputs'],'all formula trees and assignments',
 'Tests build a few trees.',[SU],[('And, Or, Implies',SU)],observe=['formula evaluated under an assignment'])
prop('C29','ADT visitors reach every component exactly once through its own handler',
 'Visiting an ADT type or value dispatches to the handler of the most specific ADT kind (Enum, Product, Tuple, TaggedUnion, Sum) and to the leaf handler for anything else, and the default handlers visit every field of a type, or every present component of a value, exactly once in the order of its fields, recursively.',
 ['inputs'],'all nested ADT types and values',
 'Tests visit one fixed type.',[AU],[('_ADTVisitor, ADTVisitor, ADTInstVisitor',AU)],observe=['sequence of handler calls'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
