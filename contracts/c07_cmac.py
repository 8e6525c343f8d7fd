"""AES-CMAC (RFC 4493, SP 800-38B) over any block cipher with 16-octet blocks."""
from engine.contract import harness
from engine.verify import *
from contracts import octets_lib

MODULES = ['cipher.aes_cmac', 'Crypto.Cipher.AES', 'Crypto.Cipher.Other']
FILES = ['cipher/aes_cmac.py', 'cipher/encoding.py']
M = 'cipher.aes_cmac'
ASSUME = ['the block cipher is an arbitrary function of key and block (AES itself is PyCrypto, external)', 'messages shorter than 2^48 octets']
LEAN = ['Digits.lean']
SUB = 'cipher.aes_cmac:subkey'
MSB = 1 << 127
MASK = (1 << 128) - 1
CIPHERS = [('Crypto.Cipher.AES', 'aes'), ('Crypto.Cipher.Other', 'othercipher')]


def doubled(V, x):
    """multiplication by x in GF(2^128)"""
    d = (2 * x) & MASK
    return V.ite(x >= MSB, d ^ 0x87, 2 * x)


def expanded(V, ciph, key):
    el = V.be(V.ufb(ciph, 16, key, bytes(16)))
    k1 = doubled(V, el)
    return V.to_be(k1, 16), V.to_be(doubled(V, k1), 16)


def subkeys(V, ciph, key):
    return tuple(V.defined(SUB, 'cmac_%s_k%d' % (ciph, i + 1), 16, lambda k: expanded(V, ciph, k)[i], key) for i in (0, 1))


def subkey_summary(I, f, env):
    a = list(env.values())
    if len(a) != 2 or not isinstance(a[0], (bytes, SStr)):
        return NotImplemented
    ciph = dict(CIPHERS).get(getattr(a[1], 'name', None))
    if ciph is None or B.length(I, a[0]) not in (16, 24, 32):
        return NotImplemented
    return tuple(uf(I, 'cmac_%s_k%d' % (ciph, i), 16, (a[0],)) for i in (1, 2))


def step(V, ciph):
    def f(key, msg, acc, i):
        return V.ufb(ciph, 16, key, V.xorb(acc, V.sl(msg, 16 * i, 16 * i + 16)))
    return f


def chain(V, ciph, key, msg, k):
    """CBC chaining of the first k blocks"""
    return V.sfold('cbc_' + ciph, 16, step(V, ciph), lambda key, msg: V.rep(0, 16), (key, msg), k)


def masked(V, ciph, key, msg, q, r):
    """the message with its last block completed and masked; len(msg) = 16 q + r, r concrete -> (string, blocks)"""
    k1, k2 = subkeys(V, ciph, key)
    if r == 0 and not (not isinstance(q, T) and q == 0):
        return V.cat(V.sl(msg, 0, 16 * (q - 1)), V.xorb(V.sl(msg, 16 * (q - 1), 16 * q), k1)), q
    return V.cat(V.sl(msg, 0, 16 * q), V.xorb(V.cat(V.sl(msg, 16 * q, 16 * q + r), bytes([0x80]), bytes(15 - r)), k2)), q + 1


def cmac(V, ciph, key, msg, q, r):
    mp, n = masked(V, ciph, key, msg, q, r)
    return chain(V, ciph, key, mp, n)


@harness(qual=SUB, summary=subkey_summary, needs=('padded_int_to_string',))
def subkey_generation(V):
    """the two subkeys, 16 octets each"""
    V.active(SUB)
    mod, ciph = V.choice('cipher', CIPHERS)
    key = V.bytes('key', V.choice('keylen', [16, 24, 32]))
    r = V.items(V.call(M, 'subkey', key, V.module(mod)))
    k1, k2 = subkeys(V, ciph, key)
    V.eq('first', r[0], k1)
    V.eq('second', r[1], k2)


@harness(size=120, weight=5, budget=300)
def tag(V):
    """the tag of messages of every length"""
    mod, ciph = V.choice('cipher', CIPHERS + [(None, 'aes')])
    key = V.bytes('key', V.choice('keylen', [16, 24, 32]))
    r = V.choice('r', list(range(16)))
    q = V.nat('q', 0, 1 << 44, gen=lambda g: g.choice((0, 0, 1, 1, 2, 3, 5, 9)))
    if not V.case(q >= 1):
        q = 0
    msg = V.bytes('m', 16 * q + r)
    mp, n = masked(V, ciph, key, msg, q, r)
    V.pool(lambda k: chain(V, ciph, key, mp, k))
    rest = [V.module(mod)] if mod else []
    V.eq('tag', V.call(M, 'aes_cmac', key, msg, *rest), chain(V, ciph, key, mp, n))


@harness()
def default_cipher(V):
    """AES when no cipher is given"""
    key = V.bytes('key', V.choice('keylen', [16, 24, 32]))
    r = V.items(V.call(M, 'subkey', key))
    k1, k2 = subkeys(V, 'aes', key)
    V.eq('first', r[0], k1)
    V.eq('second', r[1], k2)


conv = octets_lib.int_to_string_contract('cipher.encoding')
HARNESSES = [conv, subkey_generation, tag, default_cipher]
