"""Walsh transform of Boolean tables and the nonlinearity figures computed from it."""
from engine.contract import harness
from engine.verify import *

M = ['analysis.walshtransform', 'analysis.sbox_nonlinearity']
MODULES = M
FILES = ['analysis/walshtransform.py', 'analysis/sbox_nonlinearity.py']
ASSUME = ['the length of the table is a power of two of at most 64 for the transform, 8 for the nonlinearity (all tables of these lengths; longer ones are only run)']


def parity(x):
    return bin(x).count('1') % 2


def sgn(w, x, bit):
    """(-1) to the power bit + <w, x>"""
    return (1 - 2 * bit) if parity(w & x) == 0 else (2 * bit - 1)


def table(V, n):
    return [V.int('t%d' % i, 0, 1, gen=lambda r: r.randrange(2)) for i in range(n)]


def transform(mod, n, **kw):
    @harness(selftest=1, conf=3, **kw)
    def h(V):
        t = table(V, n)
        wt = V.call(mod, 'walshTransform', V.lst(t))
        wt = V.items(wt)
        V.check('length', len(wt) == n)
        for w in range(n):
            V.eq('sum for mask %d' % w, wt[w], sum(sgn(w, x, t[x]) for x in range(n)))
    h.name = 'transform_%s_%d' % (mod.split('.')[1], n)
    return h


def nonlinearity(mod, n, **kw):
    @harness(selftest=1, conf=6, **kw)
    def h(V):
        t = table(V, n)
        nl = V.call(mod, 'nonLinearity', V.lst(t))
        best = n
        for w in range(n):
            d = sum((t[x] if parity(w & x) == 0 else 1 - t[x]) for x in range(n))
            for dist in (d, n - d):
                best = V.ite(dist < best, dist, best)
        V.eq('distance to the affine functions', V.twice(nl), best * 2)
    h.name = 'nonlinearity_%s_%d' % (mod.split('.')[1], n)
    return h



@harness(prove=False, conf=60)
def sbox(V):
    """S-boxes are only run: the smallest and the largest figure over the nonzero output masks"""
    k = V.choice('k', [1, 2, 3, 4])
    n = 2 ** k
    perm = V.choice('perm', [0, 1])
    s = V.ints('s', n, 0, n - 1, gen=lambda r, n: r.sample(range(n), n) if perm else [r.randrange(n) for _ in range(n)])
    got = V.call(M[1], 'sboxNonlinearity', tuple(s))
    fig = []
    for c in range(1, n):
        t = [parity(c & y) for y in s]
        ds = [sum(t[x] ^ parity(w & x) for x in range(n)) for w in range(n)]
        fig.append(min(min(d, n - d) for d in ds))
    V.check('least and greatest nonlinearity', tuple(got) == (min(fig), max(fig)))


def fast(t):
    """the transform by butterflies"""
    a = [1 - 2 * b for b in t]
    h = 1
    while h < len(a):
        for i in range(0, len(a), 2 * h):
            for j in range(i, i + h):
                a[j], a[j + h] = a[j] + a[j + h], a[j] - a[j + h]
        h *= 2
    return a


def longer(mod):
    @harness(prove=False, conf=8)
    def h(V):
        """tables too long for the proof are only run"""
        n = V.choice('n', [16, 32, 64, 128, 256, 512])
        kind = V.choice('kind', [0, 1, 2])
        mask = V.int('mask', 0, n - 1)
        t = V.ints('t', n, 0, 1, gen=lambda r, n: [r.randrange(2) if kind < 2 else parity(x & mask) ^ (x == 0) for x in range(n)])
        wt = fast(t)
        V.check('transform', list(V.call(mod, 'walshTransform', V.lst(t))) == wt)
        if n <= 128:
            V.check('nonlinearity', V.twice(V.call(mod, 'nonLinearity', V.lst(t))) == n - max(abs(x) for x in wt))
    h.name = 'longer_' + mod.split('.')[1]
    return h


HARNESSES = [transform(m, n) for m in M for n in (1, 2, 4, 8, 16, 32, 64)] + [nonlinearity(m, n) for m in M for n in (2, 4, 8)] + [sbox] + [longer(m) for m in M]
