"""C07 Bit."""
from ..spec import case, Raises
from ..bvdom import BITOPS, sp_bit, sp_bitop
from ..helpers import HasInt, HasBool, Plain
from .. import smath as M
from hwtypes.bit_vector import Bit, BitVector, UIntVector, SIntVector


@case('C07', 'construct', dict(kind=['bit', 'bool', 'int', 'HasBool']), verifies=['bit.construct'])
def construct(E, kind):
    v = {'bit': lambda: E.bit('v'), 'bool': lambda: E.bool('v'), 'int': lambda: E.int('v'),
         'HasBool': lambda: E.obj(HasBool, v=E.bool('v'))}[kind]()
    E.expect('Bit', E.build(Bit, v), sp_bit(E, v))


@case('C07', 'construct-from-vector', dict(base=[BitVector, SIntVector]), verifies=['bit.construct'])
def construct_bv(E, base):
    """a vector has __bool__"""
    v = E.bv('v', base, E.int('n', 1, kind='width'))
    E.expect('Bit', E.build(Bit, v), sp_bit(E, v))


@case('C07', 'construct-rejects', dict(kind=['Plain', 'HasInt', 'object', 'str', 'list']), verifies=['bit.construct'])
def construct_bad(E, kind):
    v = {'Plain': lambda: E.obj(Plain), 'HasInt': lambda: E.obj(HasInt, v=E.int('v')), 'object': lambda: object,
         'str': lambda: '1', 'list': lambda: [1]}[kind]()
    E.expect('rejects', E.build(Bit, v), Raises(TypeError))


@case('C07', 'not', verifies=['bit.__invert__'])
def inv(E):
    x = E.bit('x')
    E.expect('~', E.uop('~', x), E.mkbit(M.NOT(E.b(x))))


@case('C07', 'read', verifies=['bit.__bool__'])
def read(E):
    x = E.bit('x')
    E.expect('bool', E.builtin(bool, x), E.b(x))
    E.expect('int', E.builtin(int, x), E.ite(E.b(x), 1, 0))


OPS = {'&': '__and__', '|': '__or__', '^': '__xor__', '==': '__eq__', '!=': '__ne__'}


@case('C07', 'method', dict(op=list(BITOPS), kind=['bit', 'bool', 'int', 'HasBool']), verifies=['bit.{op}'])
def method(E, op, kind):
    x = E.bit('x')
    v = {'bit': lambda: E.bit('v'), 'bool': lambda: E.bool('v'), 'int': lambda: E.int('v'),
         'HasBool': lambda: E.obj(HasBool, v=E.bool('v'))}[kind]()
    E.expect(op, E.meth(x, op, v), sp_bitop(BITOPS[op])(E, x, v))


@case('C07', 'method-declines', dict(op=list(BITOPS), kind=['Plain', 'HasInt', 'str', 'list']), verifies=['bit.{op}'])
def declines(E, op, kind):
    x = E.bit('x')
    v = {'Plain': lambda: E.obj(Plain), 'HasInt': lambda: E.obj(HasInt, v=E.int('v')), 'str': lambda: 'a',
         'list': lambda: [1]}[kind]()
    E.expect(op, E.meth(x, op, v), NotImplemented)


@case('C07', 'infix', dict(op=list(OPS), kind=['bit', 'bool', 'int']))
def infix(E, op, kind):
    x = E.bit('x')
    v = {'bit': lambda: E.bit('v'), 'bool': lambda: E.bool('v'), 'int': lambda: E.int('v', 0, 1)}[kind]()
    b = E.b(v) if kind == 'bit' else (v if kind == 'bool' else v == 1)
    E.expect(op, E.op(op, x, v), E.mkbit(BITOPS[OPS[op]](E.b(x), b)))


@case('C07', 'infix-reflected', dict(op=list(OPS), kind=['bool', 'int']))
def reflected(E, op, kind):
    x = E.bit('x')
    v = E.bool('v') if kind == 'bool' else E.int('v', 0, 1)
    b = v if kind == 'bool' else v == 1
    E.expect(op, E.op(op, v, x), E.mkbit(BITOPS[OPS[op]](b, E.b(x))))


@case('C07', 'infix-rejects', dict(op=['&', '|', '^'], kind=['Plain', 'HasInt', 'str']))
def rejects(E, op, kind):
    x = E.bit('x')
    v = {'Plain': lambda: E.obj(Plain), 'HasInt': lambda: E.obj(HasInt, v=E.int('v')), 'str': lambda: 'a'}[kind]()
    E.expect(op, E.op(op, x, v), Raises(TypeError))
    E.expect(op, E.op(op, v, x), Raises(TypeError))


@case('C07', 'hash')
def hashes(E):
    x, y = E.bit('x'), E.bit('y')
    E.require(E.IFF(E.b(x), E.b(y)))
    E.expect('hash', E.op('==', E.get(E.builtin(hash, x)), E.get(E.builtin(hash, y))), True)
