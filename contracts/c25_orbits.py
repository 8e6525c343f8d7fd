"""Orbits of permutations. Bounded: the verifier covers every permutation of at most five elements
(one path each); the real code is run on generated ones of up to 300 elements."""
import itertools
from engine.contract import harness
from engine.verify import *
from engine import ir

M = ['analysis.permutation', 'analysis.sbox_analysis']
MODULES = M
FILES = ['analysis/permutation.py', 'analysis/sbox_analysis.py']
ASSUME = ['bounded: every permutation of at most 5 elements; larger ones are only run']


def cycles(p):
    seen, out = set(), {}
    for i in range(len(p)):
        if i in seen:
            continue
        c, j = [], i
        while j not in seen:
            seen.add(j)
            c.append(j)
            j = p[j]
        out[i] = c
    return out


def agree(V, mod, p, as_tuple):
    want = cycles(p)
    arg = tuple(p) if as_tuple else V.lst(p)
    got = V.plainval(V.call(mod, 'map_orbits_of_permutation', arg))
    V.check('orbits are the cycles', {k: list(v) for k, v in got.items()} == want)
    pairs = V.plainval(V.call(mod, 'orbit_start_and_length', arg))
    V.check('starts and lengths', sorted(list(x) for x in pairs) == sorted([k, len(c)] for k, c in want.items()))


def small(mod, n):
    @harness(conf=8, selftest=2, bounded='every permutation of %d elements' % n)
    def h(V):
        p, free = [], list(range(n))
        for i in range(n):
            x = V.int('p%d' % i, 0, n - 1, gen=lambda r: r.choice(free))
            V.assume(ir.or_b(*[V.eqv(x, j) for j in free]))
            for j in list(free):
                if V.case(V.eqv(x, j)):
                    p.append(j)
                    free.remove(j)
                    break
        agree(V, mod, p, n % 2)
    h.name = 'all_%s_%d' % (mod.split('.')[1], n)
    return h


def shaped(r, n):
    """permutations with few long cycles, many short ones, or fixed points"""
    p = list(range(n))
    k = r.randrange(4)
    if k == 0:
        r.shuffle(p)
    elif k == 1 and n:
        c = r.sample(range(n), n)
        for a, b in zip(c, c[1:] + c[:1]):
            p[a] = b
    elif k == 2:
        for _ in range(r.randrange(n + 1)):
            a, b = r.randrange(n), r.randrange(n)
            p[a], p[b] = p[b], p[a]
    else:
        m = r.randrange(1, n + 1) if n else 0
        q = p[n - m:]
        r.shuffle(q)
        p[n - m:] = q
    return p


def large(mod):
    @harness(prove=False, conf=60, bounded='generated permutations of up to 300 elements')
    def h(V):
        n = V.int('n', 0, 300, gen=lambda r: r.choice([0, 1, 2, r.randrange(20), r.randrange(300), 256]))
        p = V.ints('p', n, 0, None, gen=shaped)
        V.assume(sorted(p) == list(range(n)))
        agree(V, mod, list(p), V.choice('tuple', [0, 1]))
    h.name = 'larger_' + mod.split('.')[1]
    return h


HARNESSES = [small(m, n) for m in M for n in (0, 1, 2, 3, 4, 5)] + [large(m) for m in M]
