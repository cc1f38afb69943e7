"""C02 construction and conversions."""
from ..spec import case, Raises, BitList, BitString
from ..bvdom import (BASES, sp_construct, sp_uint, sp_sint, sp_int, sp_bool, sp_bits, sp_boollist, sp_binstr,
                     sp_seq2int, sp_int2seq)
from ..helpers import HasInt, HasBool, Plain
from .. import smath as M
from hwtypes import bit_vector as BVM
from hwtypes.bit_vector import Bit, BitVector, UIntVector, SIntVector


def arg(E, kind, base):
    """a value of the given kind"""
    if kind == 'int':
        return E.int('v')
    if kind == 'bool':
        return E.bool('v')
    if kind == 'bit':
        return E.bit('v')
    if kind in ('BitVector', 'UIntVector', 'SIntVector'):
        return E.bv('v', {'BitVector': BitVector, 'UIntVector': UIntVector, 'SIntVector': SIntVector}[kind],
                    E.int('m', 0, kind='width'))
    if kind == 'list01':
        return E.bits('v', E.int('m', 0, kind='width'))
    if kind == 'tuple01':
        return E.bits('v', E.int('m', 0, kind='width'), kind='tuple')
    if kind == 'listbool':
        return E.bits('v', E.int('m', 0, kind='width'), boolean=True)
    if kind == 'HasInt':
        return E.obj(HasInt, v=E.int('v'))
    raise KeyError(kind)


KINDS = ['int', 'bool', 'bit', 'BitVector', 'UIntVector', 'SIntVector', 'list01', 'tuple01', 'listbool', 'HasInt']


@case('C02', 'construct', dict(kind=KINDS, base=BASES), verifies=['bv.construct'])
def construct(E, kind, base):
    n = E.int('n', 0, kind='width')
    v = arg(E, kind, base)
    r = E.build(E.T(base, n), v)
    E.expect('construct', r, sp_construct(E, base, n, v))
    E.expect('value', E.attr(E.get(r), 'value'), E.u(E.get(r)))


BAD = {'None': None, 'object': object, 'complex': 1j, 'dict': {1: 2}, 'set': {1}}


@case('C02', 'construct-rejects', dict(kind=list(BAD) + ['Plain', 'HasBool'], base=BASES), verifies=['bv.construct'])
def construct_bad(E, kind, base):
    n = E.int('n', 0, kind='width')
    if kind == 'Plain':
        v = E.obj(Plain)
    elif kind == 'HasBool':
        v = E.obj(HasBool, v=E.bool('v'))
    else:
        v = BAD[kind]
    E.expect('rejects', E.build(E.T(base, n), v), Raises(TypeError))


@case('C02', 'default', dict(base=BASES), verifies=['bv.construct'])
def default(E, base):
    n = E.int('n', 0, kind='width')
    E.expect('default', E.build(E.T(base, n)), E.mkbv(base, n, 0))


@case('C02', 'uint', dict(base=BASES), verifies=['bv.as_uint'])
def as_uint(E, base):
    x = E.bv('x', base, E.int('n', 0, kind='width'))
    E.expect('as_uint', E.meth(x, 'as_uint'), sp_uint(E, x))
    E.expect('value', E.attr(x, 'value'), sp_uint(E, x))


@case('C02', 'sint', dict(base=BASES), verifies=['bv.as_sint'])
def as_sint(E, base):
    x = E.bv('x', base, E.int('n', 1, kind='width'))
    E.expect('as_sint', E.meth(x, 'as_sint'), sp_sint(E, x))


@case('C02', 'int', dict(base=BASES), verifies=['bv.__int__'])
def to_int(E, base):
    x = E.bv('x', base, E.int('n', 1, kind='width'))
    E.expect('int', E.builtin(int, x), sp_int(E, x))


@case('C02', 'bool', dict(base=BASES), verifies=['bv.__bool__'])
def to_bool(E, base):
    x = E.bv('x', base, E.int('n', 1, kind='width'))
    E.expect('bool', E.builtin(bool, x), sp_bool(E, x))


@case('C02', 'bits', dict(base=BASES), verifies=['bv.bits', 'bv.int2seq'])
def bits(E, base):
    x = E.bv('x', base, E.int('n', 0, kind='width'))
    E.expect('bits', E.meth(x, 'bits'), sp_bits(E, x))


@case('C02', 'bool-list', dict(base=BASES), verifies=['bv.as_bool_list'])
def boollist(E, base):
    x = E.bv('x', base, E.int('n', 0, kind='width'))
    E.expect('as_bool_list', E.meth(x, 'as_bool_list'), sp_boollist(E, x))


@case('C02', 'binary-string', dict(base=BASES), verifies=['bv.binary_string'])
def binstr(E, base):
    x = E.bv('x', base, E.int('n', 0, kind='width'))
    E.expect('binary_string', E.meth(x, 'binary_string'), sp_binstr(E, x))


@case('C02', 'as-binary-string', dict(base=BASES))
def abinstr(E, base):
    n = E.int('n', 0, kind='width')
    x = E.bv('x', base, n)
    E.expect('as_binary_string', E.meth(x, 'as_binary_string'), BitString(E.u(x), n, '0b'))


@case('C02', 'size', dict(base=BASES))
def size(E, base):
    n = E.int('n', 0, kind='width')
    x = E.bv('x', base, n)
    E.expect('len', E.builtin(len, x), n)
    E.expect('size', E.attr(x, 'size'), n)
    E.expect('num_bits', E.attr(x, 'num_bits'), n)


@case('C02', 'roundtrip-int', dict(base=BASES))
def rt_int(E, base):
    n = E.int('n', 1, kind='width')
    x = E.bv('x', base, n)
    i = E.get(E.builtin(int, x))
    y = E.get(E.build(E.T(base, n), i))
    E.expect('T(int(x)) is x', y, x)
    E.expect('int(T(int(x)))', E.builtin(int, y), i)


@case('C02', 'roundtrip-bits', dict(base=BASES))
def rt_bits(E, base):
    n = E.int('n', 0, kind='width')
    x = E.bv('x', base, n)
    y = E.get(E.build(E.T(base, n), E.get(E.meth(x, 'bits'))))
    E.expect('T(x.bits())', y, x)
    E.expect('T(x.bits()) == x', E.op('==', y, x), E.mkbit(True))


@case('C02', 'roundtrip-bools', dict(base=BASES))
def rt_bools(E, base):
    n = E.int('n', 0, kind='width')
    x = E.bv('x', base, n)
    E.expect('T(x.as_bool_list())', E.build(E.T(base, n), E.get(E.meth(x, 'as_bool_list'))), x)


@case('C02', 'bits-of-list', dict(base=BASES))
def list_bits(E, base):
    """T(l).bits() lists the bits of l, index 0 first"""
    n = E.int('n', 0, kind='width')
    l = E.bits('l', n)
    x = E.get(E.build(E.T(base, n), l))
    E.expect('bits', E.meth(x, 'bits'), BitList(E.seqval(l), n))


@case('C02', 'make_constant', dict(kind=['int', 'bool', 'bit', 'BitVector', 'listbool', 'HasInt'], base=BASES))
def make_constant(E, kind, base):
    n = E.int('n', 0, kind='width')
    v = arg(E, kind, base)
    E.expect('make_constant', E.meth(E.T(base, n), 'make_constant', v), sp_construct(E, base, n, v))


@case('C02', 'make_constant-sized', dict(kind=['int', 'bool', 'bit', 'BitVector', 'listbool', 'HasInt'], base=BASES))
def make_constant_sized(E, kind, base):
    n = E.int('n', 0, kind='width')
    k = E.int('k', 0, kind='width')
    v = arg(E, kind, base)
    E.expect('make_constant', E.meth(E.T(base, n), 'make_constant', v, k), sp_construct(E, base, k, v))


@case('C02', 'make_constant-size-zero', dict(base=BASES))
def make_constant_zero(E, base):
    n = E.int('n', 0, kind='width')
    v = E.int('v')
    E.expect('make_constant', E.meth(E.T(base, n), 'make_constant', v, 0), E.mkbv(base, 0, 0))


@case('C02', 'implicit-size', dict(kind=['int', 'bool', 'bit', 'BitVector', 'SIntVector', 'list01', 'HasInt'], base=BASES))
def implicit(E, kind, base):
    v = arg(E, kind, base)
    if kind in ('int', 'HasInt', 'bool'):
        a = v if kind in ('int', 'bool') else (v.attrs['v'] if E.symbolic else v.v)
        w = M.blen(a)
        n = E.ite(w < 1, 1, w)
    elif kind == 'bit':
        n = 1
    elif kind == 'list01':
        m = E.seqlen(v)
        n = E.ite(m < 1, 1, m)
    else:
        n = E.size(v)
    E.expect('implicit', E.build(base, v), sp_construct(E, base, n, v))


@case('C02', 'implicit-size-rejects', dict(kind=list(BAD) + ['Plain', 'nothing'], base=BASES))
def implicit_bad(E, kind, base):
    if kind == 'nothing':
        E.expect('rejects', E.build(base), Raises(TypeError))
        return
    v = E.obj(Plain) if kind == 'Plain' else BAD[kind]
    E.expect('rejects', E.build(base, v), Raises(TypeError))


@case('C02', 'hash', dict(base=BASES))
def hashes(E, base):
    n = E.int('n', 0, kind='width')
    x, y = E.bv('x', base, n), E.bv('y', base, n)
    E.require(E.u(x) == E.u(y))
    E.expect('equal', E.op('==', x, y), E.mkbit(True))
    E.expect('hash', E.op('==', E.get(E.builtin(hash, x)), E.get(E.builtin(hash, y))), True)


@case('C02', 'seq2int', dict(kind=['list01', 'tuple01', 'listbool']), verifies=['bv.seq2int'])
def seq2int(E, kind):
    f = getattr(BVM, 'seq2int', None)
    if f is None:
        return
    v = arg(E, kind, BitVector)
    E.expect('seq2int', E.call(f, v), sp_seq2int(E, v))


@case('C02', 'int2seq', verifies=['bv.int2seq'])
def int2seq(E):
    f = getattr(BVM, 'int2seq', None)
    if f is None:
        return
    n = E.int('n', 0, kind='width')
    v = E.int('v')
    E.expect('int2seq', E.call(f, v, n), sp_int2seq(E, v, n))
