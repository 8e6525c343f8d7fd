"""Poly1305 (RFC 7539 2.5, 2.6) for every key and message."""
from engine.contract import harness
from engine.verify import *
from contracts.chacha_spec import *
from contracts.c02_chacha_stream import block_summary, ks, BLK

MODULES = ['cipher.chacha_poly']
FILES = ['cipher/chacha_poly.py']
M = 'cipher.chacha_poly'
ASSUME = ['messages shorter than 2^48 octets']
CL = 0x0ffffffc0ffffffc0ffffffc0fffffff


@harness()
def clamping(V):
    """the clamp clears exactly the bits RFC 7539 names"""
    r = V.int('r', 0, (1 << 128) - 1)
    V.eq('clamped', V.call(M, 'clamp', r), r & CL)


@harness()
def little_endian_number(V):
    """strings of any length up to 17 read as little-endian numbers"""
    n = V.choice('n', list(range(1, 18)))
    s = V.bytes('s', n)
    V.eq('value', V.call(M, 'le_bytes_to_num', s), V.le(s))


@harness()
def number_to_octets(V):
    """sixteen low-order octets, least significant first"""
    x = V.int('x', 0, 1 << 140)
    V.eq('octets', V.call(M, 'num_to_16_le_bytes', x), V.to_le(x, 16))


def poly_init(msg, r):
    return 0


def poly_step(V):
    def step(msg, r, acc, i):
        n = V.le(V.sl(msg, 16 * i, 16 * i + 16)) + (1 << 128)
        return ((acc + n) * r) % P1305
    return step


def poly(V, key, msg, q, r):
    """the tag; len(msg) = 16 q + r, 0 <= r < 16 (r concrete)"""
    rr = V.le(V.sl(key, 0, 16)) & CL
    s = V.le(V.sl(key, 16, 32))
    acc = V.fold('poly1305', poly_step(V), poly_init, (msg, rr), q)
    if r:
        n = V.le(V.sl(msg, 16 * q, 16 * q + r)) + (1 << (8 * r))
        acc = ((acc + n) * rr) % P1305
    return V.to_le(acc + s, 16)


@harness(size=150, weight=5, budget=300)
def tag_of_any_message(V):
    """the tag for every key and every message"""
    key = V.bytes('key', 32)
    r = V.choice('r', list(range(16)))
    q = V.nat('q', 0, 1 << 44, gen=lambda g: g.choice((0, 0, 1, 1, 2, 3, 5, 9)))
    if not V.case(q >= 1):
        q = 0
    msg = V.bytes('m', 16 * q + r)
    rr = V.le(V.sl(key, 0, 16)) & CL
    V.pool(lambda k: V.fold('poly1305', poly_step(V), poly_init, (msg, rr), k))
    V.eq('tag', V.call(M, 'poly1305_mac', msg, key), poly(V, key, msg, q, r))


@harness()
def one_time_key(V):
    """the one-time key is the first half of key stream block zero"""
    key, nonce = V.bytes('key', 32), V.bytes('nonce', 12)
    V.eq('key', V.call(M, 'poly1305_key_gen', key, nonce), V.sl(block(V, key, 0, nonce), 0, 32))


HARNESSES = [clamping, little_endian_number, number_to_octets, tag_of_any_message, one_time_key]
