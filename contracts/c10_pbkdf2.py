"""PBKDF2 (RFC 2898 5.2) for any pseudorandom function."""
from engine.contract import harness
from engine.verify import *
from contracts import octets_lib, c09_hmac

MODULES = ['hash.pbkdf2', 'drv.prf']
FILES = ['hash/pbkdf2.py', 'hash/hmac.py', 'cipher/common.py']
M = 'hash.pbkdf2'
PB = 'hash.pbkdf2:pbkdf2'
ASSUME = ['the pseudorandom function is an arbitrary function of key and data (its class takes key= and is called with the data); the default is '
          'HMAC_SHA1 of this repository over an arbitrary SHA-1', 'salts shorter than 2^48 octets']
H1 = ('crypto.hash.sha1Hash', 'SHA1', 'sha1', 64, 20, 'predefined')
H5 = ('crypto.hash.md5Hash', 'MD5', 'md5', 64, 16, 'predefined')
# name, module and class, digest octets
PRFS = [('default', None, None, 20), ('HMAC_MD5', 'crypto.keyedHash.hmacHash', 'HMAC_MD5', 16), ('PRF48', 'drv.prf', 'PRF48', 48), ('PRF7', 'drv.prf', 'PRF7', 7)]


def prf(V, name, P, x):
    if name == 'default':
        return c09_hmac.rfc2104(V, H1, (P, 'short'), x)
    if name == 'HMAC_MD5':
        return c09_hmac.rfc2104(V, H5, (P, 'short'), x)
    return V.ufb(name.lower(), dict((p[0], p[3]) for p in PRFS)[name], P, x)


def U(V, name, L, P, S, i, k):
    """U_(k+1) of block i"""
    return V.sfold('pbkdf2_u_' + name, L, lambda P, S, i, acc, j: prf(V, name, P, acc),
                   lambda P, S, i: prf(V, name, P, V.cat(S, V.to_be(i, 4))), (P, S, i), k)


def F(V, name, L, P, S, i, k):
    """U_1 xor ... xor U_(k+1) of block i"""
    return V.sfold('pbkdf2_f_' + name, L, lambda P, S, i, acc, j: V.xorb(acc, U(V, name, L, P, S, i, j + 1)),
                   lambda P, S, i: U(V, name, L, P, S, i, 0), (P, S, i), k)


def kinds(V):
    return V.choice('prf', PRFS)


def stretched(V, name, L, P, S, c, n):
    """the leading n octets of F(1) || F(2) || ..."""
    q = V.fdiv(n + L - 1, L)
    return V.sl(V.blocks(q, lambda b: F(V, name, L, P, S, b + 1, c - 1)), 0, n)


def derived_summary(I, f, env):
    a = list(env.values())
    if len(a) != 5 or any(not isinstance(x, (bytes, SStr)) for x in a[:2]) or any(not isinstance(x, int) or isinstance(x, bool) for x in a[2:4]):
        return NotImplemented
    if getattr(a[4], 'name', None) != 'HMAC_SHA1' or not (a[2] >= 1 and 0 <= a[3] <= 10000):
        return NotImplemented
    if I.ctx.entails(ir.le(B.length(I, a[0]), 63)) is not True:
        return NotImplemented
    return uf(I, 'pbkdf2_hmac_sha1', a[3], tuple(a[:4]))


@harness(budget=300, size=60, weight=5, qual=PB, summary=derived_summary)
def derived_key(V):
    """the derived key for every password, salt, iteration count and length"""
    V.active(PB)
    name, mod, cls, L = kinds(V)
    P = V.bytes('password', V.nat('pn', 0, 63))
    S = V.bytes('salt', V.nat('sn', 0, 1 << 48))
    c = V.nat('iterations', 1, None, gen=lambda g: g.choice((1, 2, 3, 5, 9)))
    if not V.case(c >= 2):
        c = 1
    r = V.nat('r', 1, L - 1) if V.choice('whole blocks', [False, True]) is False else 0
    q = V.nat('q', 0, 10000 // L, gen=lambda g: g.choice((0, 1, 2, 3, 4)))
    n = L * q + r
    V.assume(n <= 10000)
    V.pool(lambda k, i: F(V, name, L, P, S, i, k))
    V.pool(lambda k, i: U(V, name, L, P, S, i, k))
    rest = [] if mod is None else [V.get(mod, cls)]
    V.eq('key', V.call(M, 'pbkdf2', P, S, c, n, *rest), stretched(V, name, L, P, S, c, n))


@harness()
def too_long(V):
    """over-long passwords and keys are refused"""
    name, mod, cls, L = kinds(V)
    what = V.choice('what', ['password', 'key'])
    P = V.bytes('password', V.nat('pn', 64, 1 << 48) if what == 'password' else V.nat('pm', 0, 63))
    S = V.bytes('salt', V.nat('sn', 0, 1 << 48))
    n = V.nat('keySize', 0, 10000) if what == 'password' else V.nat('longKey', 10001, 1 << 48)
    rest = [] if mod is None else [V.get(mod, cls)]
    V.raises('refused', lambda: V.call(M, 'pbkdf2', P, S, V.nat('c', 1, None, gen=lambda g: g.choice((1, 2, 3))), n, *rest))


@harness(budget=300, timeout=60, conf=2, selftest=0, needs=('derived_key',))
def pass_phrase(V):
    """pass phrase and SSID to pre-shared key"""
    P = V.bytes('password', V.nat('pn', 8, 63))
    S = V.bytes('ssid', V.nat('sn', 0, 32))
    V.eq('key', V.call(M, 'dot11PassPhraseToPSK', P, S),
         V.defined(PB, 'pbkdf2_hmac_sha1', 32, lambda P, S, c, n: stretched(V, 'default', 20, P, S, c, n), P, S, 4096, 32))


@harness()
def bad_phrase(V):
    """pass phrases outside 8..63 octets are refused"""
    n = V.nat('pn', 0, 1 << 48)
    V.assume(V.either(n < 8, n > 63))
    V.raises('refused', lambda: V.call(M, 'dot11PassPhraseToPSK', V.bytes('password', n), V.bytes('ssid', V.nat('sn', 0, 32))))


HARNESSES = [octets_lib.xor_contract('cipher.common'), derived_key, too_long, pass_phrase, bad_phrase]
REQUIRED = ('derived_key',)          # not only for the use of callers
