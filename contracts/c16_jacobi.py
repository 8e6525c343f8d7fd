"""Jacobi and Legendre symbols: ecc.numbertheory jacobi, legendre_symbol."""
from engine.contract import harness
from engine.verify import *
from engine import theory as N
from contracts import c15_gcd_inverse as E

MODULES = ['ecc.numbertheory']
FILES = ['ecc/numbertheory.py']
M = 'ecc.numbertheory'
ASSUME = []
LEAN = ['NumberTheory.lean', 'Powers.lean', 'Jacobi.lean']
PRIMES = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 41, 73, 97, 101, 257, 65537, 2 ** 31 - 1, 2 ** 61 - 1, 2 ** 127 - 1, 2 ** 255 - 19]


def odd_ge3(r):
    return r.choice([3, 5, 7, 9, 11, 13, 15, 21, 2 * abs(E.wide(r)) + 3, 2 * r.randrange(1, 200) + 1])


def prime_in(r):
    return r.choice(PRIMES)


def odd_modulus(V, name='n'):
    n = V.int(name, 3, None, gen=odd_ge3)
    V.assume(V.eqv(V.rem(n, 2), 1))
    return n


def odd_prime(V, name='p'):
    p = V.int(name, 3, None, gen=prime_in)
    V.assume(V.prime(p))
    V.assume(V.eqv(V.rem(p, 2), 1))
    return p


def jacobi_summary(I, f, env):
    a = list(env.values())
    if len(a) != 2 or not E.ints(*a) or I.ctx.entails(N.odd3(a[1])) is not True:
        return NotImplemented
    return N.jac(*a)


@harness(qual=M + ':jacobi', summary=jacobi_summary)
def symbol(V):
    """the Jacobi symbol of every integer for every odd modulus of at least three"""
    V.active(M + ':jacobi')
    n = odd_modulus(V)
    a = V.int('a', None, None, gen=E.wide)
    jacobi_invariants(V, a, n)
    V.eq('symbol', V.call(M, 'jacobi', a, n), V.jac(a, n))


def jacobi_invariants(V, a, n):
    V.plain()
    V.recursive(M + ':jacobi', lambda a, n: n, lambda a, n: N.jac(a, n))
    V.inv(1, lambda x: ir.ge(x, 1))
    V.inv(1, lambda x: ir.ge(x, 0))
    V.inv(1, lambda x: ir.ge(x, 3))
    V.inv(1, lambda x: ir.eq(ir.mod(x, 2), 1))
    V.inv(1, lambda s: ir.or_b(ir.eq(s, 1), ir.eq(s, -1)))
    J = N.jac(a, n)
    V.inv(2, lambda x, e: ir.eq(J, ir.ite(ir.eq(ir.mod(e, 2), 0), N.jac(x, n), ir.mul(N.two(n), N.jac(x, n)))))
    V.inv(2, lambda x, s: ir.eq(J, ir.mul(s, N.jac(x, n))))
    V.inv(2, lambda x, s, m: ir.eq(J, ir.mul(s, N.jac(x, m))), free=1)
    V.inv(3, lambda x, m, s: ir.eq(J, ir.mul(s, N.jac(x, m))))


@harness()
def refused(V):
    """even moduli and moduli below three are refused"""
    n = V.int('n', None, None, gen=lambda r: r.choice([0, 1, 2, -1, -3, -5, 2 * E.wide(r), r.randrange(-50, 3)]))
    a = V.int('a', None, None, gen=E.wide)
    V.assume(V.either(V.no(n >= 3), V.eqv(V.rem(n, 2), 0)))
    V.raises('refused', lambda: V.call(M, 'jacobi', a, n))


def legendre_summary(I, f, env):
    a = list(env.values())
    if len(a) != 2 or not E.ints(*a) or I.ctx.entails(ir.and_b(N.odd3(a[1]), ir.eq(N.prime(a[1]), 1))) is not True:
        return NotImplemented
    return N.jac(*a)


@harness(qual=M + ':legendre_symbol', summary=legendre_summary)
def legendre(V):
    """for an odd prime modulus legendre_symbol is the same symbol, and by theorems jac_zero_iff and
    jac_one_iff it is 0 for multiples, 1 for squares and -1 otherwise"""
    V.active(M + ':legendre_symbol')
    p = odd_prime(V)
    a = V.int('a', None, None, gen=E.wide)
    V.eq('symbol', V.call(M, 'legendre_symbol', a, p), V.jac(a, p))


@harness()
def of_squares(V):
    """squares have symbol one and multiples of the modulus zero"""
    p = odd_prime(V)
    x = V.int('x', None, None, gen=E.wide)
    k = V.int('k', -4, 4)
    f = V.choice('function', ['jacobi', 'legendre_symbol'])
    V.eq('multiple', V.call(M, f, k * p, p), 0)
    V.assume(V.ne(V.rem(x, p), 0))
    V.eq('square', V.call(M, f, x * x, p), 1)
    V.eq('square plus a multiple', V.call(M, f, V.rem(x * x, p) + k * p, p), 1)


HARNESSES = [symbol, refused, legendre, of_squares]
REQUIRED = ('symbol', 'legendre')          # not only for the use of callers
