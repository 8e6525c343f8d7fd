"""TKIP key mixing (IEEE 802.11i 8.3.2.5) and the mixer object that caches its first phase."""
from engine.contract import harness
from engine.verify import *
from engine import aes, seqs

MODULES = ['hash.tkip_key_mixing']
FILES = ['hash/tkip_key_mixing.py']
M = 'hash.tkip_key_mixing'
ASSUME = ['crypto.cipher.rijndael.Sbox, which this tree imports and does not contain, is the AES S-box']
W = 1 << 16


def sbox16():
    lo = []
    for s in aes.S:
        d = aes.xt(s)
        lo.append(d * 256 + (d ^ s))
    return lo, [(v % 256) * 256 + v // 256 for v in lo]


LO, HI = sbox16()


def look(t, i):
    return seqs.table_app(t, i) if isinstance(i, T) else t[i]


def div(x, m):
    return ir.div(x, m) if isinstance(x, T) else x // m


def S(x):
    return look(LO, x % 256) ^ look(HI, div(x, 256))


def ror1(x):
    return div(x, 2) ^ (x % 2) * (1 << 15)


def mk16(h, l):
    return h * 256 + l


def phase1(tk, ta, tsc):
    """TTAK from octets of the temporal key, transmitter address and sequence counter (TSC0 first)"""
    t = [mk16(tsc[3], tsc[2]), mk16(tsc[5], tsc[4]), mk16(ta[1], ta[0]), mk16(ta[3], ta[2]), mk16(ta[5], ta[4])]
    for i in range(8):
        j = 2 * (i % 2)
        for w in range(5):
            o = j + 4 * (w % 4)
            t[w] = (t[w] + S(t[w - 1] ^ mk16(tk[o + 1], tk[o])) + (i if w == 4 else 0)) % W
    return t


def phase2(tk, t, tsc):
    k = [mk16(tk[2 * i + 1], tk[2 * i]) for i in range(8)]
    p = list(t) + [(t[4] + mk16(tsc[1], tsc[0])) % W]
    for i in range(6):
        p[i] = (p[i] + S(p[i - 1] ^ k[i])) % W
    for i in range(6):
        p[i] = (p[i] + ror1(p[i - 1] ^ k[6 + i] if i < 2 else p[i - 1])) % W
    out = [tsc[1], tsc[1] % 32 + 32 + 64 * (div(tsc[1], 64) % 2), tsc[0], div(p[5] ^ k[0], 2) % 256]
    for x in p:
        out += [x % 256, div(x, 256)]
    return out


def packet_key(V, tk, ta, pn):
    tk, ta, pn = V.items(tk), V.items(ta), V.items(pn)
    return V.bytes_of(phase2(tk, phase1(tk, ta, pn), pn))


def mixer(V, *a):
    return V.call(M, 'TKIP_Mixer', *a)


def settled(V, k, a, p0, p1):
    """a mixer in the state every history ends in: key and address set, first phase last needed for p0, counter last set to p1"""
    o = mixer(V, k, a, p0)
    V.method(o, 'setPnBytes', p1)
    return o


@harness()
def mixing(V):
    """a fresh mixer"""
    k, a, p, q = V.bytes('k', 16), V.bytes('a', 6), V.bytes('p', 6), V.bytes('q', 6)
    how = V.choice('how', [0, 1, 2, 3, 4])
    if how == 0:
        o = mixer(V, k, a)
    elif how == 1:
        o = mixer(V, k, a, q)
    elif how == 2:
        o = mixer(V, None, a)
        V.method(o, 'setKey', k)
    elif how == 3:
        o = mixer(V, k)
        V.method(o, 'setTA', a)
    else:
        o = mixer(V)
        V.method(o, 'setTA', a)
        V.method(o, 'setKey', k)
    if V.choice('upper', [False, True]):
        V.assume(V.eqv(V.sl(p, 2, 6), V.sl(q, 2, 6)))
    V.eq('per-packet key', V.method(o, 'newKey', p), packet_key(V, k, a, p))


@harness()
def phases(V):
    """the two functions by themselves"""
    k, a, p = V.ints('k', 16, 0, 255), V.ints('a', 6, 0, 255), V.ints('p', 6, 0, 255)
    t = phase1(V.items(k), V.items(a), V.items(p))
    V.eq('first phase', V.call(M, 'phase1KeyMixing', k, a, p), V.lst(t))
    u = V.ints('u', 5, 0, W - 1)
    V.eq('second phase', V.call(M, 'phase2KeyMixing', k, u, p), V.bytes_of(phase2(V.items(k), V.items(u), V.items(p))))


@harness()
def induction(V):
    """every operation on a mixer with key and address leads to such a mixer again, and the keys it gives are those of the standard"""
    k, a, p0, p1 = V.bytes('k', 16), V.bytes('a', 6), V.bytes('p0', 6), V.bytes('p1', 6)
    o = settled(V, k, a, p0, p1)
    op = V.choice('op', [0, 1, 2, 3])
    if op == 0:
        k = V.bytes('k2', 16)
        V.method(o, 'setKey', k)
        p0 = p1
    elif op == 1:
        a = V.bytes('a2', 6)
        V.method(o, 'setTA', a)
        p0 = p1
    elif op == 2:
        p1 = V.bytes('p2', 6)
        V.method(o, 'setPnBytes', p1)
    else:
        p1 = V.bytes('p2', 6)
        V.eq('per-packet key', V.method(o, 'newKey', p1), packet_key(V, k, a, p1))
        p0 = p1
    V.same('state', o, settled(V, k, a, p0, p1))
    q = V.bytes('q', 6)
    V.eq('next per-packet key', V.method(o, 'newKey', q), packet_key(V, k, a, q))


@harness()
def beginning(V):
    """mixers with key or address missing: refused until both are given, and then as after giving them at once"""
    k, a, p0, p1 = V.bytes('k', 16), V.bytes('a', 6), V.bytes('p0', 6), V.bytes('p1', 6)
    have = V.choice('have', [0, 1, 2])
    o = mixer(V, *[(None, None, p0), (k, None, p0), (None, a, p0)][have])
    V.method(o, 'setPnBytes', p1)
    op = V.choice('op', [0, 1, 2, 3])
    k2, a2 = V.bytes('k2', 16), V.bytes('a2', 6)
    if op == 0:
        V.method(o, 'setKey', k2)
        k = k2
        have = [1, 1, 3][have]
    elif op == 1:
        V.method(o, 'setTA', a2)
        a = a2
        have = [2, 3, 2][have]
    elif op == 2:
        p1 = V.bytes('p2', 6)
        V.method(o, 'setPnBytes', p1)
    else:
        V.raises('refused', lambda: V.method(o, 'newKey', V.bytes('p2', 6)))
    if have == 3:
        V.same('state', o, settled(V, k, a, p1, p1))
        q = V.bytes('q', 6)
        V.eq('next per-packet key', V.method(o, 'newKey', q), packet_key(V, k, a, q))
    else:
        f = mixer(V, *[(None, None, p0), (k, None, p0), (None, a, p0)][have])
        V.method(f, 'setPnBytes', p1)
        V.same('state', o, f)


@harness(prove=False, conf=60, size=8)
def history(V):
    """operations in any order on one mixer (real code only; the proofs are the two contracts above)"""
    ks = [V.bytes('k0', 16), V.bytes('k1', 16)]
    as_ = [V.bytes('a0', 6), V.bytes('a1', 6)]
    us, ls = [V.bytes('u0', 4), V.bytes('u1', 4)], [V.bytes('l0', 2), V.bytes('l1', 2)]
    o, k, a = mixer(V), None, None
    for i, op in enumerate(V.items(V.ints('ops', 8, 0, 63))):
        x, y = div(op, 4) % 2, div(op, 8) % 2
        p = V.cat(ls[x], us[y])
        if op % 4 == 0:
            k = ks[x]
            V.method(o, 'setKey', k)
        elif op % 4 == 1:
            a = as_[x]
            V.method(o, 'setTA', a)
        elif op % 4 == 2:
            V.method(o, 'setPnBytes', p)
        elif k is not None and a is not None:
            V.eq('per-packet key %d' % i, V.method(o, 'newKey', p), packet_key(V, k, a, p))
        else:
            V.raises('refused', lambda: V.method(o, 'newKey', p))


@harness()
def lengths(V):
    """keys of 16, addresses and counters of 6 octets only"""
    what = V.choice('what', [0, 1, 2, 3])
    right = [16, 6, 6, 6][what]
    n = V.nat('n', 0, 1 << 32, gen=lambda g: g.choice((0, 5, 7, 15, 17, 32)))
    V.assume(V.ne(n, right))
    s = V.bytes('s', n)
    o = mixer(V, V.bytes('k', 16), V.bytes('a', 6))
    V.raises('refused', lambda: V.method(o, ['setKey', 'setTA', 'setPnBytes', 'newKey'][what], s))


HARNESSES = [mixing, phases, induction, beginning, history, lengths]
