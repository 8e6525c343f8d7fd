"""The pseudorandom function of IEEE 802.11."""
from engine.contract import harness
from engine.verify import *

MODULES = ['hash.prf_dot11']
FILES = ['hash/prf_dot11.py']
M = 'hash.prf_dot11'
ASSUME = ['HMAC-SHA1 (standard library) is an arbitrary function of key and message', 'fewer than 5120 octets are asked for (the block index is one octet)',
          'keys, labels and data shorter than 2^48 octets']


def stream(V, key, label, data, n):
    """the leading n octets of HMAC(label 0 data 0) HMAC(label 0 data 1) ..."""
    q = V.fdiv(n + 19, 20)
    return V.sl(V.blocks(q, lambda i: V.ufb('hmac_sha', 20, key, V.cat(label, bytes(1), data, V.byte(i)))), 0, n)


def inputs(V):
    return [V.bytes(x, V.nat(x + 'n', 0, 1 << 48)) for x in ('key', 'label', 'data')]


def octets(V, name):
    return V.nat(name, 0, 5119, gen=lambda g: g.choice((0, 1, 16, 19, 20, 21, 32, 39, 40, 41, 60, 64, 96, 100, g.randrange(300), g.randrange(5120))))


@harness(conf=40)
def output(V):
    """the keyed hash stream, truncated"""
    key, label, data = inputs(V)
    n = octets(V, 'n')
    V.eq('octets', V.call(M, 'PRF', key, label, data, 8 * n), stream(V, key, label, data, n))


@harness()
def named(V):
    """the functions of fixed output length"""
    key, label, data = inputs(V)
    bits = V.choice('bits', [128, 192, 256, 384, 512, 768])
    V.eq('octets', V.call(M, 'PRF_%d' % bits, key, label, data), stream(V, key, label, data, bits // 8))


@harness()
def prefix(V):
    """a shorter output is a prefix of a longer one"""
    key, label, data = inputs(V)
    n, m = octets(V, 'n'), octets(V, 'm')
    V.assume(n <= m)
    V.eq('octets', V.call(M, 'PRF', key, label, data, 8 * n), V.sl(V.call(M, 'PRF', key, label, data, 8 * m), 0, n))


@harness()
def odd_bits(V):
    """lengths that are not whole octets are refused"""
    key, label, data = inputs(V)
    n, r = octets(V, 'n'), V.nat('r', 1, 7)
    V.raises('refused', lambda: V.call(M, 'PRF', key, label, data, 8 * n + r), ['ValueError'])


HARNESSES = [output, named, prefix, odd_bits]
