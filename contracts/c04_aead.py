"""AEAD_CHACHA20_POLY1305 (RFC 7539 2.8)."""
from engine.contract import harness
from engine.verify import *
from contracts.chacha_spec import *
from contracts import c02_chacha_stream as c02, c03_poly1305 as c03
from contracts.c02_chacha_stream import key_stream, nblocks

MODULES = ['cipher.chacha_poly']
FILES = ['cipher/chacha_poly.py']
M = 'cipher.chacha_poly'
ASSUME = ['messages within the counter limit (2^32 - 1 blocks), associated data shorter than 2^48 octets', 'constant and iv together 12 octets']
ENC = 'cipher.chacha_poly:ChaCha.encrypt'
MAC = 'cipher.chacha_poly:poly1305_mac'
NMAX = 64 * ((1 << 32) - 1)


def mac_summary(I, f, env):
    msg, key = env['msg'], env['key']
    if not isinstance(msg, (bytes, SStr)) or not isinstance(key, (bytes, SStr)):
        return NotImplemented
    n = B.length(I, key)
    if isinstance(n, T) or n != 32:
        return NotImplemented
    return mac_uf(key, msg)


def mac_uf(key, msg):
    return mkstr(Seq([Run(16, ir.app('poly1305_tag', key_of(key), key_of(msg), idx(), lo=0, hi=255))]))


@harness(qual=MAC, summary=mac_summary, weight=5, budget=300, size=150)
def mac_contract(V):
    """poly1305_mac is the function specified (proved for every key and message)"""
    V.active(MAC)
    c03.tag_of_any_message.fn(V)


def tag(V, key, msg):
    n = V.len(msg)
    if V.sym:
        if V.enabled(MAC):
            return mac_uf(key, msg)
        return c03.poly(V, key, msg, ir.div(n, 16), 0)
    return c03.poly(V, key, msg, n // 16, n % 16)


def pad(V, n):
    """zeros up to a multiple of 16"""
    r = ir.mod(n, 16) if isinstance(n, T) else n % 16
    return V.rep(0, V.ite(V.eqv(r, 0), 0, 16 - r))


def inputs(V):
    key = V.bytes('key', 32)
    c = V.choice('constant', [4, 0, 8, 12])
    const, iv = V.bytes('const', c), V.bytes('iv', 12 - c)
    na = V.length('na', 16, 1 << 48)
    nm = V.length('nm', 64, NMAX)
    if not V.case(nm >= 1):
        nm = 0
    return key, const, iv, V.bytes('aad', na), V.bytes('m', nm), na, nm


def spec(V, key, const, iv, aad, m, na, nm):
    nonce = V.cat(const, iv)
    otk = V.sl(block0(V, key, nonce), 0, 32)
    ct = V.xorb(m, key_stream(V, key, 1, nonce, nm))
    return ct, tag(V, otk, V.cat(aad, pad(V, na), ct, pad(V, nm), V.to_le(na, 8), V.to_le(nm, 8)))


def block0(V, key, nonce):
    return c02.ks(V, key, 0, nonce)


@harness(qual=c02.BLK, summary=c02.block_summary, conf=5)
def block_contract(V):
    """block function contract used by the proofs below"""
    c02.block_contract.fn(V)


@harness(size=150, weight=3, budget=300)
def seal(V):
    """cipher text and tag"""
    key, const, iv, aad, m, na, nm = inputs(V)
    o = V.call(M, 'ChaCha20_AEAD', key, const)
    r = V.method(o, 'encrypt', aad, iv, m)
    ct, t = spec(V, key, const, iv, aad, m, na, nm)
    r = V.items(r)
    V.eq('cipher text', r[0], ct)
    V.eq('tag', r[1], t)


@harness(size=150, weight=3, budget=300)
def open_(V):
    """any cipher text: plain text and the tag over what was received"""
    key, const, iv, aad, c, na, nm = inputs(V)
    o = V.call(M, 'ChaCha20_AEAD', key, const)
    r = V.items(V.method(o, 'decrypt', aad, iv, c))
    nonce = V.cat(const, iv)
    otk = V.sl(block0(V, key, nonce), 0, 32)
    V.eq('plain text', r[0], V.xorb(c, key_stream(V, key, 1, nonce, nm)))
    V.eq('tag', r[1], tag(V, otk, V.cat(aad, pad(V, na), c, pad(V, nm), V.to_le(na, 8), V.to_le(nm, 8))))


@harness(size=150, weight=3, budget=300)
def seal_then_open(V):
    """opening a sealed message gives the message and the same tag"""
    key, const, iv, aad, m, na, nm = inputs(V)
    r = V.items(V.method(V.call(M, 'ChaCha20_AEAD', key, const), 'encrypt', aad, iv, m))
    p = V.items(V.method(V.call(M, 'ChaCha20_AEAD', key, const), 'decrypt', aad, iv, r[0]))
    V.eq('plain text', p[0], m)
    V.eq('tag', p[1], r[1])


@harness(size=150, weight=3, budget=300)
def combined_format(V):
    """iv, cipher text and tag in one string; opened again with the same key"""
    key, const, iv, aad, m, na, nm = inputs(V)
    s = V.method(V.call(M, 'ChaCha_Poly_AEAD', key, const), 'encrypt', aad, iv, m)
    ct, t = spec(V, key, const, iv, aad, m, na, nm)
    V.eq('sealed', s, V.cat(iv, ct, t))
    V.eq('opened', V.method(V.call(M, 'ChaCha_Poly_AEAD', key, const), 'decrypt', aad, s), m)


@harness(size=60, weight=2, budget=300)
def combined_format_refuses(V):
    """a string whose tag is not the one over its cipher text is refused"""
    key, const, iv, aad, c, na, nm = inputs(V)
    bad = V.bytes('tag', 16)
    # (the tag computed here is the one specified by open_)
    t = V.items(V.method(V.call(M, 'ChaCha20_AEAD', key, const), 'decrypt', aad, iv, c))[1]
    V.assume(V.either(*[V.ne(V.at(t, i), V.at(bad, i)) for i in range(16)]))
    V.raises('refused', lambda: V.method(V.call(M, 'ChaCha_Poly_AEAD', key, const), 'decrypt', aad, V.cat(iv, c, bad)))


HARNESSES = [block_contract, mac_contract, seal, open_, seal_then_open, combined_format, combined_format_refuses]
