"""AES-SIV (RFC 5297): S2V over any list of strings, counter mode, sealing, opening, refusal."""
from engine.contract import H, harness
from engine.verify import *
from contracts import octets_lib, c07_cmac as c07

MODULES = ['cipher.aes_siv', 'cipher.aes_cmac', 'Crypto.Cipher.AES', 'Crypto.Cipher.Other']
FILES = ['cipher/aes_siv.py', 'cipher/aes_cmac.py', 'cipher/common.py', 'cipher/encoding.py']
M = 'cipher.aes_siv'
ASSUME = ['AES is an arbitrary function of key and block (PyCrypto is external)', 'plain texts and associated strings shorter than 2^47 octets']
LEAN = ['Digits.lean']
DBL, S2V = M + ':dbl', M + ':s2v'
CM = 'cipher.aes_cmac:aes_cmac'
MASK = (1 << 128) - 1
CTR = MASK ^ (1 << 63) ^ (1 << 31)


def cmac_summary(I, f, env):
    a = list(env.values())
    if len(a) != 3 or not all(isinstance(x, (bytes, SStr)) for x in a[:2]) or getattr(a[2], 'name', None) != 'Crypto.Cipher.AES':
        return NotImplemented
    n = B.length(I, a[0])
    if isinstance(n, T) or n not in (16, 24, 32):
        return NotImplemented
    return uf(I, 'cmac_aes', 16, (a[0], a[1]))


def cmac_contract(V):
    V.active(CM)
    c07.tag.fn(V)


def cmac(V, key, msg):
    def full(key, msg):
        n = V.len(msg)
        if V.sym and isinstance(n, T):
            q, r = ir.div(n, 16), ir.mod(n, 16)
            if isinstance(r, T):
                raise Unsupported('CMAC of a string of arbitrary length')
            return c07.cmac(V, 'aes', key, msg, q, r)
        return c07.cmac(V, 'aes', key, msg, n // 16, n % 16)
    if V.sym:
        return V.defined(CM, 'cmac_aes', 16, full, key, msg)
    # one table per run: the reference is slow
    memo = V.__dict__.setdefault('cmacs', {})
    if (key, msg) not in memo:
        memo[key, msg] = full(key, msg)
    return memo[key, msg]


def dbl(V, s):
    return V.defined(DBL, 'siv_dbl', 16, lambda s: V.to_be(c07.doubled(V, V.be(s)), 16), s)


def dbl_summary(I, f, env):
    a = list(env.values())
    if len(a) != 1 or not isinstance(a[0], (bytes, SStr)) or B.length(I, a[0]) != 16:
        return NotImplemented
    return uf(I, 'siv_dbl', 16, (a[0],))


def s2v_summary(I, f, env):
    a = list(env.values())
    if len(a) < 2 or not isinstance(a[0], (bytes, SStr)) or not isinstance(a[1], VList) or any(not isinstance(x, int) or x != 16 for x in a[2:]):
        return NotImplemented
    n = B.length(I, a[0])
    if isinstance(n, T) or n not in (16, 24, 32):
        return NotImplemented
    for p in a[1].getseq().pieces:
        if not isinstance(p.v if isinstance(p, E) else getattr(p, 'body', None), (bytes, SStr)):
            return NotImplemented
    return uf(I, 'siv_s2v', 16, (a[0], a[1]))


def chain(V, key, ads, k):
    """D after k associated strings"""
    return V.sfold('s2v', 16, lambda key, ads, acc, i: V.xorb(dbl(V, acc), cmac(V, key, V.at(ads, i))),
                   lambda key, ads: cmac(V, key, bytes(16)), (key, ads), k)


def s2v(V, key, ads, n, last):
    """S2V of the n strings of ads followed by last (a string)"""
    if V.enabled(S2V):
        return uf(V.I, 'siv_s2v', 16, (key, V.op('+', ads, V.lst([last]))))
    d = chain(V, key, ads, n)
    m = V.len(last)
    if V.case(m >= 16):
        t = V.cat(V.sl(last, 0, m - 16), V.xorb(V.sl(last, m - 16, m), d))
    else:
        t = V.xorb(V.cat(last, bytes([0x80]), V.rep(0, 15 - m)), dbl(V, d))
    return cmac(V, key, t)


def stream(V, key, iv, n):
    q = V.be(iv)
    q = ir.and_(q, CTR) if isinstance(q, T) else q & CTR
    block = lambda i: V.ufb('aes', 16, key, V.to_be(q + i, 16))
    if V.sym:
        b, r = ir.div(n, 16), ir.mod(n, 16)
    else:
        b, r = divmod(n, 16)
    return V.cat(V.blocks(b, block), V.sl(block(b), 0, r))


def keys(V):
    n = V.choice('keysize', [32, 48, 64])
    key = V.bytes('key', n)
    return key, V.sl(key, 0, n // 2), V.sl(key, n // 2, n)


def any_length(V):
    q, r = V.nat('q', 0, 1 << 43, gen=lambda g: g.choice((0, 0, 1, 1, 2, 3, 5))), V.int('r', 0, 15)
    if not V.case(q >= 1):
        q = 0
    if not V.case(r >= 1):
        r = 0
    return 16 * q + r


def ad_list(V):
    n = V.nat('ads', 0, 1 << 20, gen=lambda r: r.choice((0, 1, 1, 2, 2, 3, 4)))
    if not V.case(n >= 1):
        n = 0
    ads = V.strings('ad', n)
    return n, ads


@harness(weight=4, qual=S2V, summary=s2v_summary, needs=('cmac_contract', 'doubling', 'xor_of_equal_lengths'))
def s2v_any_list(V):
    """the synthetic IV of any list of strings"""
    V.active(S2V)
    if V.choice('empty', [False, True]):
        return s2v_empty_list(V)
    key = V.bytes('key', V.choice('keysize', [16, 24, 32]))
    n, ads = ad_list(V)
    last = V.bytes('last', any_length(V))
    V.pool(lambda k: chain(V, key, ads, k))
    V.eq('s2v', V.call(M, 's2v', key, V.op('+', ads, V.lst([last]))), s2v(V, key, ads, n, last))


def s2v_empty_list(V):
    """no strings at all"""
    key = V.bytes('key', V.choice('keysize', [16, 24, 32]))
    V.eq('s2v', V.call(M, 's2v', key, V.lst([])), cmac(V, key, bytes(15) + b'\x01'))


@harness(weight=5)
def seal(V):
    """synthetic IV, then counter mode cipher text"""
    key, k1, k2 = keys(V)
    n, ads = ad_list(V)
    m = any_length(V)
    pt = V.bytes('m', m)
    V.pool(lambda k: chain(V, k1, ads, k))
    o = V.call(M, 'AES_SIV', key)
    r = V.method(o, 'encrypt', pt, ads)
    iv = s2v(V, k1, ads, n, pt)
    V.eq('sealed', r, V.cat(iv, V.xorb(pt, stream(V, k2, iv, m))))
    V.eq('list of associated strings is left alone', V.len(ads), n)


@harness(weight=5)
def opening(V):
    """the plain text comes back exactly when the recomputed IV agrees; otherwise refusal"""
    key, k1, k2 = keys(V)
    n, ads = ad_list(V)
    m = any_length(V)
    iv = V.bytes('iv', 16)
    ct = V.bytes('ct', m)
    V.pool(lambda k: chain(V, k1, ads, k))
    pt = V.xorb(ct, stream(V, k2, iv, m))
    if not V.sym and V.choice('honest', [True, False, True]):
        iv = s2v(V, k1, ads, n, ct)
        pt = ct
        ct = V.xorb(ct, stream(V, k2, iv, m))
    want = s2v(V, k1, ads, n, pt)
    o = V.call(M, 'AES_SIV', key)
    r = V.outcome(lambda: V.method(o, 'decrypt', V.cat(iv, ct), ads))
    if V.case(V.op('==', want, iv)):
        V.check('accepted', r[0] == 'ok')
        if r[0] == 'ok':
            V.eq('plain text', r[1], pt)
    else:
        V.check('refused', r[0] == 'raise')


@harness()
def too_short(V):
    """what is shorter than an IV is refused"""
    key, k1, k2 = keys(V)
    n, ads = ad_list(V)
    V.pool(lambda k: chain(V, k1, ads, k))
    s = V.bytes('s', V.choice('n', list(range(16))))
    V.raises('refused', lambda: V.call(M, 'siv_decrypt', key, s, ads))


@harness(weight=5)
def round_trip(V):
    """opening what was sealed with the same key and associated strings gives the plain text"""
    key, k1, k2 = keys(V)
    n, ads = ad_list(V)
    pt = V.bytes('m', any_length(V))
    V.pool(lambda k: chain(V, k1, ads, k))
    o = V.call(M, 'AES_SIV', key)
    c = V.method(o, 'encrypt', pt, ads)
    V.eq('plain text', V.method(o, 'decrypt', c, ads), pt)


@harness(qual=DBL, summary=dbl_summary, needs=('padded_int_to_string',))
def doubling(V):
    """multiplication by x in GF(2^128)"""
    V.active(DBL)
    s = V.bytes('s', 16)
    V.eq('dbl', V.call(M, 'dbl', s), dbl(V, s))


xor_h = octets_lib.xor_contract('cipher.common')
conv = octets_lib.int_to_string_contract('cipher.encoding')
cmac_h = H(cmac_contract, doc=c07.tag.doc, qual=CM, summary=cmac_summary, size=120, weight=5, budget=300, needs=('subkey_generation',))
HARNESSES = [conv, xor_h, c07.subkey_generation, cmac_h, doubling, s2v_any_list, seal, opening, too_short, round_trip]
