"""Totient, Carmichael function, multiplicative orders: ecc.numbertheory."""
import math
import sympy
from engine.contract import harness
from engine.verify import *
from engine import theory as N
from contracts import c15_gcd_inverse as E

M = 'ecc.numbertheory'
MODULES = [M]
FILES = ['ecc/numbertheory.py']
LEAN = ['NumberTheory.lean', 'Powers.lean', 'Order.lean']
N.ORDERS.append(1)
ASSUME = ['bounded: phi, carmichael and largest_factor_relatively_prime are interpreted for every argument up to the stated bounds and run on generated larger ones',
          'order_mod: that the loop ends (a unit has some order) is not proved']


def totient(n):
    return sum(1 for k in range(1, n + 1) if math.gcd(k, n) == 1)


def exponent(n):
    """the least e with u^e = 1 for all units u"""
    if n < 3:
        return 1
    units = [u for u in range(1, n) if math.gcd(u, n) == 1]
    e, ps = 1, list(units)
    while any(p != 1 for p in ps):
        e, ps = e + 1, [p * u % n for p, u in zip(ps, units)]
    return e


def free_part(a, b):
    """the largest divisor of a prime to b"""
    return max(d for d in range(1, a + 1) if a % d == 0 and math.gcd(d, b) == 1)


@harness()
def order(V):
    """order_mod: the result is positive, x to it is one, and no smaller positive power is one"""
    m = V.int('m', 2, None, gen=lambda r: r.choice([2, 3, 4, 8, 9, 15, 16, r.randrange(2, 3000), 2 ** r.randrange(1, 14), 3 ** r.randrange(1, 8)]))
    x = V.int('x', 0, None, gen=lambda r: r.choice([1, m - 1, m + 1, abs(E.wide(r)), r.randrange(1, m), r.randrange(1, m), 2 * m + 1, 5, 3]))
    k = V.int('k', 1, None, gen=lambda r: r.randrange(1, 3 + m))
    V.assume(V.eqv(V.gcd(x, m), 1))
    V.plain()
    V.inv(2, lambda z, n: ir.and_b(ir.ge(n, 1), ir.eq(z, V.powmod(x, n, m)), ir.or_b(ir.ge(k, n), ir.ne(V.powmod(x, k, m), 1))))
    e = V.call(M, 'order_mod', x, m)
    V.check('positive', e >= 1)
    V.check('power is one', V.eqv(V.powmod(x, e, m), 1))
    if V.case(k < e):
        V.check('least', V.ne(V.powmod(x, k, m), 1))


@harness(conf=1, selftest=0)
def no_group(V):
    """moduli up to one"""
    V.eq('order modulo 1', V.call(M, 'order_mod', 5, 1), 0)


@harness()
def prime_power(V):
    """carmichael_of_ppower: (p-1) p^(a-1), and 2^(a-2) for two to the a when a is above two"""
    p = V.int('p', 2, None, gen=lambda r: r.choice([2, 2, 3, 5, 7, 11, 1231, 2 ** 61 - 1]))
    a = V.int('a', 1, None, gen=lambda r: r.randrange(1, 12))
    c = V.call(M, 'carmichael_of_ppower', (p, a))
    if V.case(V.both(V.eqv(p, 2), a > 2)):
        V.eq('two', c, V.power(2, a - 2))
    else:
        V.eq('others', c, (p - 1) * V.power(p, a - 1))


def small(a, b):
    @harness(conf=1, selftest=0, bounded='numbers from %d to %d' % (a, b - 1))
    def h(V):
        for n in range(a, b):
            V.eq('phi(%d)' % n, V.call(M, 'phi', n), totient(n))
            V.eq('carmichael(%d)' % n, V.call(M, 'carmichael', n), exponent(n))
    h.name, h.doc = 'small_%d' % b, 'phi and carmichael of the numbers from %d to %d' % (a, b - 1)
    return h


def relative(a, b):
    @harness(conf=1, selftest=0, bounded='first arguments %d to %d, second up to 40' % (a, b - 1))
    def h(V):
        for n in range(a, b):
            for k in range(1, 41):
                V.eq('factor of %d prime to %d' % (n, k), V.call(M, 'largest_factor_relatively_prime', n, k), free_part(n, k))
    h.name, h.doc = 'relative_%d' % b, 'largest factor of %d to %d prime to 1 to 40' % (a, b - 1)
    return h


@harness(conf=1, selftest=0, bounded='moduli up to 40')
def kinda(V):
    """kinda_order_mod: the order modulo the part prime to the number"""
    for m in range(1, 41):
        for x in range(1, 13):
            f = free_part(m, x)
            V.eq('kinda(%d, %d)' % (x, m), V.call(M, 'kinda_order_mod', x, m), next(e for e in range(1, f + 1) if x ** e % f == 1) if f > 1 else 0)


def product(r):
    m = 1
    for _ in range(r.randrange(4)):
        m *= r.choice([2, 2, 2, 3, 5, 7, 11, 13, 1223, 1229]) ** r.choice([1, 1, 2, 3, 7])
    if r.random() < .5:
        return m * r.choice([1, 1231, 1237, 1249, 2999, 3001]) ** r.choice([1, 2, 3])
    return m * r.choice([1, 2 ** 31 - 1, 2 ** 61 - 1, 2 ** 127 - 1])


@harness(prove=False, conf=100, bounded='generated products of primes')
def large(V):
    """totient and Carmichael function of larger numbers"""
    n = V.int('n', 1, None, gen=product)
    V.eq('phi', V.call(M, 'phi', n), int(sympy.totient(n)))
    V.eq('carmichael', V.call(M, 'carmichael', n), int(sympy.reduced_totient(n)))


@harness(prove=False, conf=100, bounded='generated products of primes')
def large_relative(V):
    """the part of a larger number prime to another"""
    n = V.int('n', 1, None, gen=product)
    k = V.int('k', 1, None, gen=lambda r: r.choice([1, 2, 6, 30, 210, product(r), product(r)]))
    d, g = n, math.gcd(n, k)
    while g > 1:
        d //= g
        g = math.gcd(d, k)
    V.eq('factor', V.call(M, 'largest_factor_relatively_prime', n, k), d)


HARNESSES = [E.gcd_of_two, order, no_group, prime_power, kinda, large, large_relative] + [small(a, a + 50) for a in range(1, 301, 50)] + [relative(a, a + 40) for a in range(1, 121, 40)]
