"""The ChaCha20 block function is the one of RFC 7539."""
from engine.contract import harness
from contracts.chacha_spec import *

MODULES = ['cipher.chacha_poly']
FILES = ['cipher/chacha_poly.py']
M = 'cipher.chacha_poly'
ASSUME = ['octet strings are Python 2 str values; key of 32 octets, nonce of 12 octets, 32-bit counter (RFC 7539 2.3)']


def words(V, n):
    return [V.int('w%d' % i, 0, M32) for i in range(n)]


@harness(qual='cipher.chacha_poly:chacha_q_round')
def quarter_round_of_four_words(V):
    """the quarter round of RFC 7539 2.1 on any four 32-bit words"""
    a, b, c, d = words(V, 4)
    r = V.call(M, 'chacha_q_round', a, b, c, d)
    V.eq('quarter round', tuple(V.items(r)), quarter(a, b, c, d))


@harness(qual='cipher.chacha_poly:ChaCha.chacha20_block', weight=5)
def block_function(V):
    """64 octets of key stream for any key, nonce and 32-bit counter (RFC 7539 2.3)"""
    key, nonce, ctr = V.bytes('key', 32), V.bytes('nonce', 12), V.int('counter', 0, M32)
    o = V.call(M, 'ChaCha', key, ctr, nonce)
    V.eq('key stream', V.method(o, 'chacha20_block'), block(V, key, ctr, nonce))


@harness(qual='cipher.chacha_poly:ChaCha.chacha20_block', weight=4)
def block_function_repeatable(V):
    """computing a block leaves the object's state as it was"""
    key, nonce, ctr = V.bytes('key', 32), V.bytes('nonce', 12), V.int('counter', 0, M32)
    o = V.call(M, 'ChaCha', key, ctr, nonce)
    V.method(o, 'chacha20_block')
    V.eq('state unchanged', tuple(V.items(V.attr(o, 'state'))), tuple(state0(V, key, ctr, nonce)))
    V.eq('second block call', V.method(o, 'chacha20_block'), block(V, key, ctr, nonce))


@harness(qual='cipher.chacha_poly:ChaCha.initialize')
def initial_state(V):
    """constants, little-endian key words, counter, little-endian nonce words"""
    key, nonce, ctr = V.bytes('key', 32), V.bytes('nonce', 12), V.int('counter', 0, M32)
    o = V.call(M, 'ChaCha', key, counter=ctr, nonce=nonce)
    V.eq('state', tuple(V.items(V.attr(o, 'state'))), tuple(state0(V, key, ctr, nonce)))


@harness(qual='cipher.chacha_poly:ChaCha.initialize')
def wrong_sizes_refused(V):
    """keys that are not 32 octets and nonces that are not 12 octets are refused"""
    which = V.choice('which', ['key', 'nonce'])
    n = V.nat('n', 0, 1 << 20)
    V.assume(V.ne(n, 32 if which == 'key' else 12))
    if which == 'nonce':
        V.assume(n >= 1)
    key = V.bytes('key', n if which == 'key' else 32)
    nonce = V.bytes('nonce', n if which == 'nonce' else 12)
    V.raises('refused', lambda: V.call(M, 'ChaCha', key, 0, nonce))


HARNESSES = [quarter_round_of_four_words, block_function, block_function_repeatable, initial_state, wrong_sizes_refused]
