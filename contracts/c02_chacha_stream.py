"""ChaCha20 stream encryption of messages of every length (RFC 7539 2.4)."""
from engine.contract import harness
from engine.verify import *
from contracts.chacha_spec import *

MODULES = ['cipher.chacha_poly']
FILES = ['cipher/chacha_poly.py']
M = 'cipher.chacha_poly'
BLK = 'cipher.chacha_poly:ChaCha.chacha20_block'
ASSUME = ['messages of at most 2^38 octets and counters that do not pass 2^32 within a message (RFC 7539 2.4)']
TOP = 1 << 32


def words_of(o):
    st = o.attrs.get('state')
    if not isinstance(st, VList) or st.items is None or len(st.items) != 16:
        return None
    return st.items


def block_summary(I, f, env):
    st = words_of(env['self'])
    if st is None or not all(isinstance(x, (int, T)) for x in st):
        return NotImplemented
    for x in st:
        if I.ctx.entails(ir.and_b(ir.ge(x, 0), ir.le(x, M32))) is not True:
            return NotImplemented
    return ks_of_state(st)


def ks_of_state(st):
    return mkstr(Seq([Run(64, ir.app('chacha_block', key_of(tuple(st)), idx(), lo=0, hi=255))]))


def ks(V, key, ctr, nonce):
    """key stream block number ctr"""
    if V.enabled(BLK):
        return ks_of_state(state0(V, key, ctr, nonce))
    return block(V, key, ctr, nonce)


@harness(qual=BLK, summary=block_summary, conf=10)
def block_contract(V):
    """chacha20_block: any 16 words in, the RFC 7539 block function of them out, state kept"""
    V.active(BLK)
    o = V.call(M, 'ChaCha', V.bytes('key', 32), 0, V.bytes('nonce', 12))
    st = [V.int('w%d' % i, 0, M32) for i in range(16)]
    V.setattr(o, 'state', V.lst(st))
    V.eq('block', V.method(o, 'chacha20_block'), block_of_state(V, st))
    V.eq('state kept', tuple(V.items(V.attr(o, 'state'))), tuple(st))


def key_stream(V, key, ctr, nonce, n):
    """the first n octets of the key stream from block ctr"""
    if V.sym:
        q, r = ir.div(n, 64), ir.mod(n, 64)
    else:
        q, r = divmod(n, 64)
    return V.cat(V.blocks(q, lambda j: ks(V, key, ctr + j, nonce)), V.sl(ks(V, key, ctr + q, nonce), 0, r))


def nblocks(n):
    return ir.div(n + 63, 64) if isinstance(n, T) else (n + 63) // 64


def setup_inputs(V):
    key, nonce = V.bytes('key', 32), V.bytes('nonce', 12)
    ctr = V.int('counter', 0, TOP - 1)
    return key, nonce, ctr


@harness(size=300)
def encrypt_any_length(V):
    """cipher text = plain text xor key stream from the initial counter, for every length"""
    key, nonce, ctr = setup_inputs(V)
    n = V.length('n', 64, 1 << 38)
    V.assume(ctr + nblocks(n) <= TOP)
    m = V.bytes('m', n)
    o = V.call(M, 'ChaCha', key, ctr, nonce)
    V.eq('cipher text', V.method(o, 'encrypt', m), V.xorb(m, key_stream(V, key, ctr, nonce, n)))


@harness(size=300)
def decrypt_any_length(V):
    """decryption is the same transformation"""
    key, nonce, ctr = setup_inputs(V)
    n = V.length('n', 64, 1 << 38)
    V.assume(ctr + nblocks(n) <= TOP)
    m = V.bytes('m', n)
    o = V.call(M, 'ChaCha', key, ctr, nonce)
    V.eq('plain text', V.method(o, 'decrypt', m), V.xorb(m, key_stream(V, key, ctr, nonce, n)))


@harness(size=300)
def successive_messages(V):
    """a second message on the same object continues at the next unused block"""
    key, nonce, ctr = setup_inputs(V)
    n1, n2 = V.length('n1', 64, 1 << 37), V.length('n2', 64, 1 << 37)
    c2 = ctr + nblocks(n1)
    V.assume(c2 + nblocks(n2) <= TOP)
    m1, m2 = V.bytes('m1', n1), V.bytes('m2', n2)
    o = V.call(M, 'ChaCha', key, ctr, nonce)
    op1, op2 = V.choice('op1', ['encrypt', 'decrypt']), V.choice('op2', ['encrypt', 'decrypt'])
    V.method(o, op1, m1)
    V.eq('second message', V.method(o, op2, m2), V.xorb(m2, key_stream(V, key, c2, nonce, n2)))


@harness(size=300)
def round_trip(V):
    """decrypting with a fresh object of the same key, counter and nonce gives the message back"""
    key, nonce, ctr = setup_inputs(V)
    n = V.length('n', 64, 1 << 38)
    V.assume(ctr + nblocks(n) <= TOP)
    m = V.bytes('m', n)
    c = V.method(V.call(M, 'ChaCha', key, ctr, nonce), 'encrypt', m)
    V.eq('message', V.method(V.call(M, 'ChaCha', key, ctr, nonce), 'decrypt', c), m)


@harness(size=300)
def split_messages(V):
    """a message cut at a block boundary and encrypted in two calls gives the same cipher text"""
    key, nonce, ctr = setup_inputs(V)
    q = V.nat("q", 0, 1 << 31, gen=lambda r: r.randrange(6))
    n = V.length('n', 64, 1 << 37)
    V.assume(ctr + q + nblocks(n) <= TOP)
    m = V.bytes('m', 64 * q + n)
    m1, m2 = V.sl(m, 0, 64 * q), V.sl(m, 64 * q, 64 * q + n)
    o = V.call(M, 'ChaCha', key, ctr, nonce)
    c1 = V.method(o, 'encrypt', m1)
    c2 = V.method(o, 'encrypt', m2)
    whole = V.method(V.call(M, 'ChaCha', key, ctr, nonce), 'encrypt', m)
    V.eq('concatenation', V.cat(c1, c2), whole)


@harness(size=100)
def object_untouched_by_others(V):
    """two cipher objects do not share state"""
    key, nonce, ctr = setup_inputs(V)
    n = V.length('n', 64, 1 << 30)
    V.assume(ctr + nblocks(n) <= TOP)
    m = V.bytes('m', n)
    o = V.call(M, 'ChaCha', key, ctr, nonce)
    p = V.call(M, 'ChaCha', V.bytes('key2', 32), V.int('counter2', 0, 1000), V.bytes('nonce2', 12))
    V.method(p, 'encrypt', V.bytes('other', V.length('k', 64, 1 << 30)))
    V.eq('cipher text', V.method(o, 'encrypt', m), V.xorb(m, key_stream(V, key, ctr, nonce, n)))


HARNESSES = [block_contract, encrypt_any_length, decrypt_any_length, successive_messages, round_trip, split_messages, object_untouched_by_others]
