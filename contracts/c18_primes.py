"""Primality, next prime, factorization: ecc.numbertheory and fmath.prime."""
import sympy
from engine.contract import harness
from engine.verify import *
from engine import theory as N
from contracts import c15_gcd_inverse as E

MODULES = ['ecc.numbertheory', 'fmath.prime']
FILES = ['ecc/numbertheory.py', 'fmath/prime.py']
M, P = 'ecc.numbertheory', 'fmath.prime'
LEAN = ['NumberTheory.lean', 'Powers.lean', 'Witness.lean']
N.WITNESS.append(1)


def some_prime(r, low=2):
    n = r.choice([4, 40, 300, 5000, 1 << 20, 1 << 40, 1 << 100, 1 << 300])
    p = max(low, r.randrange(2, n + 2))
    while not N.is_prime(p):
        p += 1
    return p


SMALL = [q for q in range(2, 1230) if N.is_prime(q)]
PSEUDO = [2047, 3277, 4033, 4681, 8321, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051,
          561, 1105, 1729, 41041, 825265, 321197185, 1590231231043178376951698401 % 2 ** 63]


def hard(r):
    c = r.random()
    if c < .2:
        return r.choice(PSEUDO)
    if c < .4:
        return some_prime(r) % 2 ** 64
    if c < .6:
        n = r.choice([2 ** 8, 2 ** 12, 2 ** 31])
        p, q = r.randrange(3, n) | 1, r.randrange(3, n) | 1
        while not N.is_prime(p):
            p += 2
        return p * r.choice([p, 2 * p - 1, q])% 2 ** 64
    if c < .8:
        return r.randrange(1229, 1 << r.choice([11, 12, 21, 22, 40, 63])) if c > .7 else 1229 + r.randrange(8)
    return r.randrange(2 ** 64)


def rounds(V, p):
    """what Miller-Rabin keeps"""
    V.plain()
    V.inv(2, lambda s, r: ir.and_b(ir.ge(s, 0), ir.ge(r, 1), ir.eq(ir.mul(V.power(2, s), r), ir.sub(p, 1))))
    V.inv(1, lambda y: ir.and_b(ir.ge(y, 0), ir.lt(y, p), ir.ne(y, 1)))
    V.inv(2, lambda j, y, s: s.op == 'v' and s.a[0].startswith('s!') and ir.and_b(ir.ge(j, 1), ir.le(j, s), ir.eq(V.powmod(y, V.power(2, ir.add(ir.sub(s, j), 1)), p), 1)), free=1)


@harness()
def witness(V):
    """rabin_miller never calls a prime composite"""
    p = V.int('p', 2, None, gen=some_prime)
    V.assume(V.prime(p))
    a = V.int('a', 1, None, gen=lambda r: r.randrange(1, p))
    V.assume(a < p)
    rounds(V, p)
    V.eq('prime accepted', V.call(P, 'rabin_miller', p, a), 1)


def accepted(I, f, env):
    """what next_prime uses of is_prime: it is a function of its argument and rejects even numbers above two"""
    n, = env.values()
    if not isinstance(n, T):
        return NotImplemented
    r = ir.app('accepted', n, lo=0, hi=1)
    I.ctx.push(ir.or_b(ir.ne(ir.mod(n, 2), 0), ir.le(n, 2), ir.eq(r, 0)))
    return ir.eq(r, 1)


@harness(solver_timeout=2000, budget=600)
def primality(V):
    """is_prime never rejects a prime above the table"""
    V.active(M + ':is_prime')
    p = V.int('p', 1230, None, gen=lambda r: some_prime(r, 1230))
    V.assume(V.prime(p))
    V.cut_ranges()
    rounds(V, p)
    V.check('prime accepted', V.call(M, 'is_prime', p))


@harness(qual=M + ':is_prime', summary=accepted, needs=('gcd_of_two',))
def screened(V):
    """multiples of 2, 3, 5, 7 and 11 above the table are rejected"""
    V.active(M + ':is_prime')
    n = V.int('n', 1230, None, gen=lambda r: E.wide(r) ** 2 + 1230)
    q = V.choice('factor', [2, 3, 5, 7, 11])
    V.assume(V.eqv(V.rem(n, q), 0))
    V.eq('rejected', V.call(M, 'is_prime', n), False)


def table(a, b):
    @harness(conf=1, selftest=0)
    def h(V):
        for n in range(a, b):
            V.eq('is_prime(%d)' % n, V.call(M, 'is_prime', n), N.is_prime(n))
    h.name, h.doc = 'table_%d' % b, 'is_prime is exact from %d to %d' % (a, b - 1)
    return h


@harness(prove=False, conf=150, bounded='generated numbers below two to the 64 and composites that pass some tests')
def exact(V):
    """exact below two to the 64"""
    n = V.int('n', 0, 2 ** 64, gen=hard)
    V.eq('is_prime', V.call(M, 'is_prime', n), N.is_prime(n))


@harness(prove=False, conf=60, bounded='generated odd composites')
def other_witness(V):
    """rabin_miller with the number minus one or one as witness, and agreement with the definition"""
    n = V.int('n', 3, None, gen=lambda r: hard(r) | 1)
    a = V.int('a', 1, None, gen=lambda r: r.choice([1, n - 1, 2, 3, r.randrange(1, n), r.randrange(1, n)]) % n or 1)
    V.assume(V.both(n > 2, V.both(a < n, V.eqv(V.rem(n, 2), 1))))
    s, r = 0, n - 1
    while r % 2 == 0:
        s, r = s + 1, r // 2
    V.eq('strong probable prime', V.call(P, 'rabin_miller', n, a), int(pow(a, r, n) == 1 or any(pow(a, r << i, n) == n - 1 for i in range(s))))


@harness()
def following(V):
    """next_prime: accepted, larger, and no accepted number lies between"""
    n = V.int('n', None, None, gen=lambda r: r.choice([-1, 0, 1, 2, 3, 1229, 1230, r.randrange(4000), hard(r), abs(E.wide(r))]))
    k = n + V.int('offset', 1, None, gen=lambda r: r.randrange(1, 60))
    skipped = V.call(M, 'is_prime', k)
    V.plain()
    V.inv(1, lambda x: ir.and_b(ir.gt(x, n), ir.eq(ir.mod(x, 2), 1), ir.or_b(ir.ge(k, x), ir.le(k, 2), ir.ne(ir.app('accepted', k, lo=0, hi=1), 1))))
    p = V.call(M, 'next_prime', n)
    V.check('larger', p > n)
    V.check('accepted', V.either(V.eqv(p, 2), V.call(M, 'is_prime', p)))
    if V.case(V.both(k > 2, k < p)):
        V.eq('nothing skipped', skipped, False)
    if V.case(n < 2):
        V.eq('first', p, 2)


def factors_ok(V, n, f):
    f = [tuple(x) for x in V.plainval(f)]
    V.check('increasing primes', all(N.is_prime(p) and e >= 1 for p, e in f) and [p for p, e in f] == sorted(set(p for p, e in f)))
    m = 1
    for p, e in f:
        m *= p ** e
    V.eq('product', m, max(n, 1))


def small(a, b):
    @harness(conf=1, selftest=0, bounded='numbers from %d to %d' % (a, b - 1))
    def h(V):
        for n in range(a, b):
            factors_ok(V, n, V.call(M, 'factorization', n))
    h.name, h.doc = 'factors_%d' % b, 'factorization of the numbers from %d to %d' % (a, b - 1)
    return h


@harness(prove=False, conf=120, timeout=60, bounded='products of generated primes')
def factors(V):
    """factorization of products of many small primes, of primes around the end of the table, and a large prime"""
    def product(r):
        m = 1
        for _ in range(r.randrange(4)):
            m *= r.choice([2, 2, 3, 5, 7, 11, 13, 37, 1223, 1229]) ** r.choice([1, 1, 2, 3, 7])
        m *= r.choice([1, 1, 1231, 1231, 1237, 1249, 1453, 2999, 3001]) ** r.choice([1, 2, 2, 3])
        m *= r.choice([1, 1231, 1249, 1291, 3001, 3011, 9973, 2 ** 31 - 1]) ** r.choice([0, 0, 1, 2])
        if m < 1 << 40 or r.random() < .3:
            m *= some_prime(r) if m % 1231 and m % 1249 and m % 3001 else 1
        return m
    n = V.int('n', 0, None, gen=product)
    V.assume(n >= 2)
    if ugly(n):
        V.assume(False)
    factors_ok(V, n, V.call(M, 'factorization', n))


def ugly(n):
    """the search for divisors would take long"""
    for q in SMALL:
        while n % q == 0:
            n //= q
    return n > 1 and not N.is_prime(n) and (n > 10 ** 30 or max(sympy.factorint(n)) > 10 ** 9)


HARNESSES = [E.gcd_of_two, witness, screened, primality, following, exact, other_witness, factors] + [
    table(a, min(a + 250, 1232)) for a in range(-18, 1232, 250)] + [small(a, a + 100) for a in range(0, 800, 100)] + [small(1229 * 1229 - 3, 1229 * 1229 + 4), small(1231 * 1231 - 2, 1231 * 1231 + 3)]
