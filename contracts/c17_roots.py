"""Square roots modulo primes: ecc.numbertheory square_root_mod_prime, modular_sqrt."""
from engine.contract import harness
from engine.verify import *
from engine import theory as N
from contracts import c15_gcd_inverse as E
from contracts import c16_jacobi as J

MODULES = ['ecc.numbertheory']
FILES = ['ecc/numbertheory.py']
M = 'ecc.numbertheory'
ASSUME = ['bounded: primes congruent 1 modulo 8 (square_root_mod_prime) and 1 modulo 4 (modular_sqrt) are only run on generated inputs']
LEAN = ['NumberTheory.lean', 'Powers.lean', 'Jacobi.lean', 'Roots.lean']
N.ROOTS.append(1)
BY8 = {k: [p for p in [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 73, 89, 97, 113, 193, 241, 257, 7681, 12289, 40961, 65537,
                       2 ** 31 - 1, 3 * 2 ** 30 + 1, 2 ** 61 - 1, 2 ** 64 - 2 ** 32 + 1, 2 ** 127 - 1, 2 ** 221 - 3, 2 ** 224 - 2 ** 96 + 1,
                       2 ** 255 - 19, 2 ** 521 - 1] if p % 8 == k and N.is_prime(p)] for k in (1, 3, 5, 7)}


def some_prime(r, k):
    c = r.random()
    if c < .5:
        return r.choice(BY8[k])
    n = r.choice([200, 3000, 1 << 20, 1 << 40, 1 << 100])
    p = r.randrange(3, n) // 8 * 8 + k
    while p < 3 or not N.is_prime(p):
        p += 8
    return p


def modulus(V, k):
    k = V.choice('p modulo 8', k) if isinstance(k, list) else k
    p = V.int('p', 3, None, gen=lambda r: some_prime(r, k))
    V.assume(V.prime(p))
    V.assume(V.eqv(V.rem(p, 2), 1))
    V.assume(V.eqv(V.rem(p, 8), k))
    return p


def root(V, f, p, a, refuse):
    s = V.jac(a, p)
    if V.case(V.eqv(s, -1)):
        return refuse()
    x = V.call(M, f, a, p)
    if V.case(V.eqv(s, 0)):
        return V.eq('zero', x, 0)
    V.check('reduced', V.both(x >= 0, x < p))
    V.check('root', V.eqv(V.rem(x * x - a, p), 0))


def root_summary(I, f, env):
    """what the contract of square_root_mod_prime promises its callers, for primes not congruent 1 modulo 8"""
    v = list(env.values())
    if len(v) != 2 or not E.ints(*v):
        return NotImplemented
    a, p = v
    if I.ctx.entails(ir.and_b(N.odd3(p), ir.eq(N.prime(p), 1), ir.ge(a, 0), ir.lt(a, p), ir.ne(ir.mod(p, 8), 1))) is not True:
        return NotImplemented
    if I.ctx.branch(ir.eq(N.jac(a, p), -1)):
        raise PyRaise('SquareRootError')
    r = ir.fresh('root', 0)
    I.ctx.push(ir.lt(r, p))
    I.ctx.push(ir.eq(ir.mod(ir.sub(ir.mul(r, r), a), p), 0))
    return r


def reference(f, k, **kw):
    @harness(**kw)
    def h(V):
        V.active(M + ':square_root_mod_prime')
        p = modulus(V, k)
        if f == 'modular_sqrt':
            a = V.int('a', None, None, gen=lambda r: r.choice([E.wide(r), E.wide(r) ** 2, 0]))
            root(V, f, p, a, lambda: V.eq('refused by zero', V.call(M, f, a, p), 0))
        else:
            a = V.int('a', 0, None, gen=lambda r: r.choice([0, 1, 4, r.randrange(p), r.randrange(p), r.randrange(p) ** 2]) % p)
            V.assume(a < p)
            root(V, f, p, a, lambda: V.raises('refused', lambda: V.call(M, f, a, p), ['SquareRootError']))
    h.name = '%s_%s' % (f, k if isinstance(k, int) else ''.join(map(str, k)))
    return h


HARNESSES = [J.symbol, J.legendre] + [reference('square_root_mod_prime', [3, 5, 7], qual=M + ':square_root_mod_prime', summary=root_summary, needs=('symbol',))] + [reference('modular_sqrt', k) for k in (3, 7)] + [
    reference('square_root_mod_prime', 1, prove=False, conf=60, bounded='generated primes congruent 1 modulo 8'),
    reference('modular_sqrt', 1, prove=False, conf=60, bounded='generated primes congruent 1 modulo 8'),
    reference('modular_sqrt', 5, prove=False, conf=40, bounded='generated primes congruent 5 modulo 8')]
REQUIRED = ('square_root_mod_prime_357',)          # not only for the use of callers
