"""Contract of int_to_string with padding, used where other modules call it."""
from engine.contract import H
from engine.verify import *


def padded_summary(I, f, env):
    a = list(env.values())
    if len(a) != 2:
        return NotImplemented
    x, n = a
    if isinstance(n, T) or not isinstance(n, int) or isinstance(n, bool) or not 1 <= n <= 64 or not isinstance(x, T) or ir.is_bool(x):
        return NotImplemented
    if I.ctx.entails(ir.and_b(ir.ge(x, 0), ir.lt(x, 1 << (8 * n)))) is not True:
        return NotImplemented
    return mkstr(Seq([E(ir.mod(ir.div(x, 1 << (8 * i)), 256)) for i in reversed(range(n))]))


def int_to_string_contract(mod):
    def padded_int_to_string(V):
        V.active(mod + ':int_to_string')
        n = V.nat('n', 1, 64)
        x = V.int('x', 0, None, gen=lambda r: r.getrandbits(r.randrange(1, 200)))
        V.assume(x < V.power(256, n))
        if not V.case(x >= 1):
            x = 0

        def digit(e):
            d = V.fdiv(x, V.power(256, e))
            return ir.mod(d, 256) if V.sym else d % 256
        V.eq('octets', V.call(mod, 'int_to_string', x, n), V.run(n, lambda i: digit(n - 1 - i)))
    padded_int_to_string.__name__ = 'padded_int_to_string'
    return H(padded_int_to_string, doc='an integer below 256^n padded to n octets gives its n digits', qual=mod + ':int_to_string', summary=padded_summary, conf=5)


def xor_summary(I, f, env):
    a = list(env.values())
    if len(a) != 2 or not all(isinstance(x, (bytes, SStr)) for x in a):
        return NotImplemented
    n, m = B.length(I, a[0]), B.length(I, a[1])
    if I.ctx.entails(ir.eq(n, m)) is not True:
        return NotImplemented
    from engine.verify import SymV
    V = SymV.__new__(SymV)
    V.ctx, V.I, V.draw = I.ctx, I, None
    return V.xorb(a[0], a[1])


def xor_contract(mod):
    def xor_of_equal_lengths(V):
        V.active(mod + ':xor')
        n = V.nat('n', 0, 1 << 48)
        a, b = V.bytes('a', n), V.bytes('b', n)
        V.eq('exclusive or', V.call(mod, 'xor', a, b), V.xorb(a, b))
    return H(xor_of_equal_lengths, doc='octetwise exclusive or of strings of equal length', qual=mod + ':xor', summary=xor_summary, conf=5)
