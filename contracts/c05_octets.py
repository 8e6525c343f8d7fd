"""Integer / octet-string conversion: cipher.common, cipher.encoding, ecc.ecc."""
from engine.contract import harness
from engine.verify import *

MODULES = ['cipher.common', 'cipher.encoding', 'ecc.ecc']
FILES = ['cipher/common.py', 'cipher/encoding.py', 'ecc/ecc.py']
MODS = ['cipher.common', 'cipher.encoding', 'ecc.ecc']
ASSUME = ['strings shorter than 2^48 octets']
LEAN = ['Digits.lean']


def big(r):
    k = r.randrange(6)
    if k == 0:
        return r.randrange(300)
    if k == 1:
        return max(0, 256 ** r.randrange(1, 40) + r.randrange(-2, 3))
    return r.getrandbits(r.randrange(1, 400))


def digit(V, x, e):
    """digit of weight 256^e of x"""
    d = V.fdiv(x, V.power(256, e))
    return ir.mod(d, 256) if V.sym else d % 256


def be_string(V, x, n):
    return V.run(n, lambda i: digit(V, x, n - 1 - i))


@harness()
def to_octets_and_back(V):
    """positive integers: octets without a leading zero that convert back"""
    m = V.choice('module', MODS)
    x = V.int('x', 1, None, gen=lambda r: big(r) + 1)
    s = V.call(m, 'int_to_string', x)
    V.check('no leading zero octet', V.ne(V.at(s, 0), 0))
    n = V.len(s)
    V.pool(lambda k: V.fdiv(x, V.power(256, n - k)))
    V.eq('integer again', V.call(m, 'string_to_int', s), x)
    V.eq('octets', s, be_string(V, x, n))


@harness()
def zero_to_octets(V):
    m = V.choice('module', MODS)
    V.eq('zero', V.call(m, 'int_to_string', 0), b'\0')
    n = V.nat('n', 1)
    V.eq('padded zero', V.call(m, 'int_to_string', 0, n), V.rep(0, n))
    V.eq('no octets', V.call(m, 'string_to_int', b''), 0)


@harness()
def padded_octets(V):
    """an integer that fits in n octets gives exactly its n digits"""
    m = V.choice('module', MODS)
    n = V.nat('n', 1)
    x = V.int('x', 1, None, gen=lambda r: big(r) + 1)
    V.assume(x < V.power(256, n))
    s = V.call(m, 'int_to_string', x, n)
    V.eq('length', V.len(s), n)
    V.eq('octets', s, be_string(V, x, n))


@harness()
def too_large_for_padding(V):
    """an integer that does not fit is refused"""
    m = V.choice('module', MODS)
    n = V.nat('n', 1)
    x = V.int('x', 1, None, gen=lambda r: big(r) + 1)
    V.assume(x >= V.power(256, n))
    V.raises('refused', lambda: V.call(m, 'int_to_string', x, n))


@harness()
def negative_refused(V):
    m = V.choice('module', MODS)
    x = V.int('x', None, -1)
    V.raises('refused', lambda: V.call(m, 'int_to_string', x))


@harness()
def octets_to_integer_and_back(V):
    """any octet string is recovered from its integer and its length"""
    m = V.choice('module', MODS)
    n = V.nat('n', 1)
    s, N = V.digits('s', n)
    V.pool(lambda k: V.fdiv(N, V.power(256, n - k)))
    x = V.call(m, 'string_to_int', s)
    V.eq('value', x, N)
    V.eq('octets again', V.call(m, 'int_to_string', x, n), s)


@harness()
def xor_of_strings(V):
    """octet by octet, and applied twice it gives the first string back"""
    n = V.nat('n', 0)
    a, b = V.bytes('a', n), V.bytes('b', n)
    x = V.call('cipher.common', 'xor', a, b)
    V.eq('octets', x, V.xorb(a, b))
    V.eq('twice', V.call('cipher.common', 'xor', x, b), a)


@harness()
def xor_needs_equal_lengths(V):
    n, m = V.nat('n', 0), V.nat('m', 0)
    a, b = V.bytes('a', n), V.bytes('b', m)
    V.assume(V.ne(n, m))
    V.raises('refused', lambda: V.call('cipher.common', 'xor', a, b))


@harness()
def xor_of_the_shorter_length(V):
    n, m = V.nat('n', 0), V.nat('m', 0)
    a, b = V.bytes('a', n), V.bytes('b', m)
    k = n if V.case(n <= m) else m
    V.eq('octets', V.call('cipher.common', 'xor_min', a, b), V.xorb(V.sl(a, 0, k), V.sl(b, 0, k)))


HARNESSES = [to_octets_and_back, zero_to_octets, padded_octets, too_large_for_padding, negative_refused,
             octets_to_integer_and_back, xor_of_strings, xor_needs_equal_lengths, xor_of_the_shorter_length]
