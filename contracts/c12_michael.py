"""Michael and the TKIP message integrity code (IEEE 802.11i)."""
from engine.contract import harness
from engine.verify import *

MODULES = ['hash.michael', 'hash.tkip_mic']
FILES = ['hash/michael.py', 'hash/tkip_mic.py']
M = 'hash.michael'
T_ = 'hash.tkip_mic'
ASSUME = ['messages shorter than 2^48 octets']
W = 1 << 32


def rotl(x, s):
    return (x * (1 << s)) % W + (V_div(x, 1 << (32 - s)))


def V_div(x, m):
    return ir.div(x, m) if isinstance(x, T) else x // m


def xswap(x):
    """exchange the two octets of each half"""
    o = [V_div(x, 1 << (8 * i)) % 256 for i in range(4)]
    return o[1] + o[0] * (1 << 8) + o[3] * (1 << 16) + o[2] * (1 << 24)


def block(l, r):
    """the unkeyed block function of IEEE 802.11i 8.3.2.3.2"""
    r = r ^ rotl(l, 17)
    l = (l + r) % W
    r = r ^ xswap(l)
    l = (l + r) % W
    r = r ^ rotl(l, 3)
    l = (l + r) % W
    r = r ^ rotl(l, 30)                # 2 to the right
    l = (l + r) % W
    return l, r


def step(V):
    def f(key, msg, q, last, acc, i):
        l, r = acc % W, V_div(acc, W)
        w = V.ite(i < q, V.le([V.octet(msg, 4 * i + j) for j in range(4)]), V.ite(V.eqv(i, q), last, 0))
        l, r = block(l ^ w, r)
        return l + W * r
    return f


def state(V, key, msg, q, r, k):
    """l + 2^32 r after k words: the words of the message, the one with the octet 0x5a, then zeros"""
    tail = V.le(V.cat(V.sl(msg, 4 * q, 4 * q + r), b'\x5a', bytes(3 - r)))
    return V.fold('michael', step(V), lambda key, msg, q, last: V.le(key), (key, V.sl(msg, 0, 4 * q), q, tail), k, 0, W * W - 1)


def michael(V, key, msg, q, r):
    """for a message of 4 q + r octets"""
    return V.to_le(state(V, key, msg, q, r, q + 2), 8)


def message(V):
    r = V.choice('r', [0, 1, 2, 3])
    q = V.nat('q', 0, 1 << 46, gen=lambda g: g.choice((0, 0, 1, 2, 3, 4, 9)))
    return V.bytes('m', 4 * q + r), q, r


def hints(V, key, m, q, r):
    V.pool(lambda k: state(V, key, m, q, r, k) % W)
    V.pool(lambda k: V_div(state(V, key, m, q, r, k), W))


@harness()
def block_function(V):
    """b(l, r) on 32-bit words"""
    l, r = V.int('l', 0, W - 1), V.int('r', 0, W - 1)
    V.eq('words', V.call(M, 'b', l, r), block(l, r))


@harness(weight=3, budget=300)
def digest(V):
    """the value for messages of every length, through hash and through a call, with the key given at once or later"""
    key = V.bytes('key', 8)
    m, q, r = message(V)
    late = V.choice('late', [False, True])
    o = V.call(M, 'Michael') if late else V.call(M, 'Michael', key)
    if late:
        V.method(o, 'setKey', key)
    hints(V, key, m, q, r)
    V.eq('digest', V.callobj(o, m) if V.choice('call', [False, True]) else V.method(o, 'hash', m), michael(V, key, m, q, r))


@harness()
def key_length(V):
    """only keys of 8 octets"""
    n = V.nat('n', 0, 1 << 32, gen=lambda g: g.choice((0, 7, 9, 16)))
    V.assume(V.ne(n, 8))
    key = V.bytes('key', n)
    how = V.choice('how', [0, 1, 2, 3])
    cls = (M, 'Michael') if how < 2 else (T_, 'TKIP_MIC')
    if how % 2:
        V.raises('refused', lambda: V.call(cls[0], cls[1], key))
    else:
        o = V.call(cls[0], cls[1], V.bytes('k0', 8))
        V.raises('refused', lambda: V.method(o, 'setKey', key))


@harness()
def streaming(V):
    """no value is ever given for data handed over in parts: these operations are refused"""
    o = V.call(M, 'Michael', V.bytes('key', 8)) if V.choice('mic', [False, True]) else V.call(T_, 'TKIP_MIC', V.bytes('key', 8))
    V.raises('refused', lambda: V.method(o, 'digest') if op == 0 else V.method(o, ['update', 'final'][op - 1], V.bytes('d', V.nat('n', 0, 99)))) if (op := V.choice('op', [0, 1, 2])) is not None else 0


@harness(weight=3, budget=300)
def sequence(V):
    """a value depends on the key set last and not on earlier messages or keys"""
    k1, k2 = V.bytes('k1', 8), V.bytes('k2', 8)
    o = V.call(M, 'Michael', k1)
    q1 = V.nat('q1', 0, 1 << 46, gen=lambda g: g.choice((0, 1, 3)))
    m1, m2 = V.bytes('m1', 4 * q1), V.bytes('m2', 3)
    hints(V, k1, m1, q1, 0)
    V.method(o, 'hash', m1)
    if V.choice('rekey', [False, True]):
        V.method(o, 'setKey', k2)
        k1 = k2
    V.eq('digest', V.method(o, 'hash', m2), michael(V, k1, m2, 0, 3))


@harness(weight=3, budget=300)
def tkip(V):
    """Michael over destination, source, priority, three zero octets and data (D2: without priority and zeros)"""
    key, sa, da = V.bytes('key', 8), V.bytes('sa', 6), V.bytes('da', 6)
    pr = V.int('priority', 0, 15)
    m, q, r = message(V)
    d2 = V.choice('d2', [False, True])
    o = V.call(T_, 'TKIP_MIC', key, b'D2') if d2 else V.call(T_, 'TKIP_MIC', key)
    head = V.cat(da, sa) if d2 else V.cat(da, sa, V.bytes_of([pr]), bytes(3))
    full, fq = V.cat(head, m), q + (3 if d2 else 4)
    hints(V, key, full, fq, r)
    V.eq('code', V.method(o, 'hash', sa, da, pr, m), michael(V, key, full, fq, r))


@harness()
def tkip_refused(V):
    """priorities outside 0..15 and addresses of another length"""
    o = V.call(T_, 'TKIP_MIC', V.bytes('key', 8))
    sa, da, pr = V.bytes('sa', 6), V.bytes('da', 6), V.int('priority', 0, 15)
    what = V.choice('what', [0, 1, 2])
    if what == 0:
        pr = V.int('bad', -1 << 40, 1 << 40)
        V.assume(V.either(pr < 0, pr > 15))
    else:
        n = V.nat('n', 0, 1 << 32, gen=lambda g: g.choice((0, 5, 7, 12)))
        V.assume(V.ne(n, 6))
        if what == 1:
            sa = V.bytes('s', n)
        else:
            da = V.bytes('d', n)
    V.raises('refused', lambda: V.method(o, 'hash', sa, da, pr, V.bytes('m', V.nat('len', 0, 1 << 40, gen=lambda g: g.choice((0, 5))))))


HARNESSES = [block_function, digest, key_length, streaming, sequence, tkip, tkip_refused]
