"""HMAC (RFC 2104) over any iterative hash."""
from engine.contract import harness
from engine.verify import *

MODULES = ['hash.hmac']
FILES = ['hash/hmac.py']
M = 'hash.hmac'
ASSUME = ['the hash is an arbitrary function of the whole message fed to it since its last reset; its class follows the crypto.hash conventions '
          '(the hash classes are not part of this repository; stand-ins backed by hashlib are used on the real code)',
          'a hash value is not longer than a hash block', 'keys and data shorter than 2^48 octets']
# module of the hash class, class, name of its function, block octets, digest octets
HASHES = [('crypto.hash.sha1Hash', 'SHA1', 'sha1', 64, 20), ('crypto.hash.md5Hash', 'MD5', 'md5', 64, 16),
          ('crypto.hash.sha384Hash', 'SHA384', 'sha384', 128, 48)]


def a_key(V, name, B):
    """a key of any length, in one of the classes RFC 2104 distinguishes"""
    how = V.choice(name + ' length', ['short', 'long'])
    if how == 'short':
        n = V.nat(name + '#n', 0, B, gen=lambda g: g.choice((0, 1, 16, 20, B - 1, B, B, g.randrange(B + 1))))
    else:
        n = V.nat(name + '#n', B + 1, 1 << 48, gen=lambda g: g.choice((B + 1, B + 1, B + 2, 2 * B, 2 * B + 1, g.randrange(B + 1, 3 * B))))
    return V.bytes(name, n), how


def rfc2104(V, h, key, data):
    (mod, cls, fn, B, L, kind), (k, how) = h, key
    if how == 'long':
        k = V.ufb(fn, L, k)
    n = V.len(k)

    def block(c):                  # the zero-padded key, exclusive-ored with c in every octet
        return V.cat(V.run(n, lambda i: V.at(k, i) ^ c), V.rep(c, B - n))
    return V.ufb(fn, L, V.cat(block(0x5c), V.ufb(fn, L, V.cat(block(0x36), data))))


KINDS = [h + (k,) for h in HASHES for k in ('generic', 'predefined') if k == 'generic' or h[2] in ('sha1', 'md5')]


def new(V, h, key=None, late=False):
    """an HMAC object; keyed at once or later"""
    name, args = ('HMAC', [V.get(h[0], h[1])]) if h[5] == 'generic' else ({'sha1': 'HMAC_SHA1', 'md5': 'HMAC_MD5'}[h[2]], [])
    if key is None:
        return V.call(M, name, *args)
    if late:
        o = V.call(M, name, *args)
        V.method(o, 'setKey', key[0])
        return o
    return V.call(M, name, *(args + [key[0]]))


@harness(weight=2)
def one_update(V):
    """digest after one update"""
    h = V.choice('hash', KINDS)
    key = a_key(V, 'key', h[3])
    data = V.bytes('data', V.nat('n', 0, 1 << 48))
    o = new(V, h, key, V.choice('late', [False, True]))
    V.method(o, 'update', data)
    V.eq('digest', V.method(o, 'digest'), rfc2104(V, h, key, data))
    V.eq('digest again', V.method(o, 'digest'), rfc2104(V, h, key, data))


@harness()
def no_update(V):
    """digest of nothing"""
    h = V.choice('hash', KINDS)
    key = a_key(V, 'key', h[3])
    o = new(V, h, key)
    V.eq('digest', V.method(o, 'digest'), rfc2104(V, h, key, b''))


@harness()
def called(V):
    """calling the object hashes exactly the argument, whatever was fed before"""
    h = V.choice('hash', KINDS)
    key = a_key(V, 'key', h[3])
    o = new(V, h, key)
    data = V.bytes('data', V.nat('n', 0, 1 << 48))
    if V.choice('before', [False, True]):
        V.method(o, 'update', V.bytes('junk', V.nat('j', 0, 1 << 48)))
    V.eq('digest', V.callobj(o, data), rfc2104(V, h, key, data))
    V.eq('once more', V.callobj(o, data), rfc2104(V, h, key, data))


def state(V, h, key, data, past):
    """the object keyed with key and fed with data; past: an earlier use (key and data) that ended with a digest"""
    o = new(V, h, past[0] if past else key)
    if past:
        V.method(o, 'update', past[1])
        V.method(o, 'digest')
        V.method(o, 'setKey', key[0])
    V.method(o, 'update', data)
    return o


@harness(weight=4, conf=60)
def any_history(V):
    """One step of the induction over call sequences: from an object keyed with k and fed with d (with or without an earlier use),
    every operation leads to the state of an object keyed and fed as the operation says, and digests never disturb it."""
    h = V.choice('hash', KINDS)
    key = a_key(V, 'key', h[3])
    d = V.bytes('d', V.nat('dn', 0, 1 << 48))
    past = (a_key(V, 'past key', h[3]), V.bytes('past', V.nat('pn', 0, 1 << 48))) if V.choice('past', [False, True]) else None
    o = state(V, h, key, d, past)
    what = V.choice('operation', ['update', 'reset', 'setKey', 'digest'])
    if what == 'update':
        x = V.bytes('x', V.nat('xn', 0, 1 << 48))
        V.method(o, 'update', x)
        d = V.cat(d, x)
        t = state(V, h, key, d, past)
    elif what == 'reset':
        V.method(o, 'reset')
        d = b''
        t = state(V, h, key, d, past)
    elif what == 'setKey':
        key = a_key(V, 'new key', h[3])
        V.method(o, 'setKey', key[0])
        d = b''
        t = state(V, h, key, d, past)
    else:
        V.eq('value', V.method(o, 'digest'), rfc2104(V, h, key, d))
        t = state(V, h, key, d, (key, d))
    V.same('state', o, t)
    V.eq('digest', V.method(o, 'digest'), rfc2104(V, h, key, d))
    y = V.bytes('y', V.nat('yn', 0, 1 << 48))
    V.method(o, 'update', y)
    V.eq('later digest', V.method(o, 'digest'), rfc2104(V, h, key, V.cat(d, y)))


@harness()
def fresh_states(V):
    """keying late, and no update at all, are the states the induction starts from"""
    h = V.choice('hash', KINDS)
    key = a_key(V, 'key', h[3])
    V.same('new', new(V, h, key), state(V, h, key, b'', None))
    V.same('keyed late', new(V, h, key, True), state(V, h, key, b'', None))


@harness()
def two_objects(V):
    """objects do not influence each other"""
    h, g = V.choice('hash', KINDS), V.choice('other hash', KINDS)
    k1, k2 = a_key(V, 'k1', h[3]), a_key(V, 'k2', g[3])
    d1, d2 = V.bytes('d1', V.nat('n1', 0, 1 << 48)), V.bytes('d2', V.nat('n2', 0, 1 << 48))
    o = new(V, h, k1)
    V.method(o, 'update', d1)
    p = new(V, g, k2)
    V.method(p, 'update', d2)
    V.eq('second', V.method(p, 'digest'), rfc2104(V, g, k2, d2))
    V.eq('first', V.method(o, 'digest'), rfc2104(V, h, k1, d1))


@harness()
def no_key(V):
    """without a key nothing is computed"""
    h = V.choice('hash', KINDS)
    o = new(V, h)
    what = V.choice('operation', ['update', 'reset', 'digest'])
    V.raises('refused', lambda: V.method(o, what, *([V.bytes('x', V.nat('n', 0, 1 << 48))] if what == 'update' else [])))


HARNESSES = [one_update, no_update, called, any_history, fresh_states, two_objects, no_key]
