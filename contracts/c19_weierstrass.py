"""Weierstrass curves over any prime field: addition, doubling, negation, subtraction of points."""
from engine.contract import harness
from engine.verify import *
from engine import theory as N
from contracts import c15_gcd_inverse as E
from contracts.c16_jacobi import PRIMES

MODULES = ['ecc.ecc', 'ecc.ellipticcurve', 'ecc.numbertheory', 'drv.curves']
FILES = ['ecc/ecc.py', 'ecc/ellipticcurve.py', 'ecc/numbertheory.py']
D, M = 'drv.curves', 'ecc.numbertheory'
ASSUME = ['points have coordinates between 0 and p-1']
LEAN = ['NumberTheory.lean', 'Jacobi.lean']


def small_prime(r):
    return r.choice([5, 7, 11, 13, 17, 23] if r.randrange(3) else [p for p in PRIMES if p > 3])


def prime_field(V):
    p = V.int('p', 5, None, gen=small_prime)
    V.assume(V.prime(p))
    V.assume(V.eqv(V.rem(p, 2), 1))
    V.ideal(2)
    return p


def coord(V, name, p):
    x = V.int(name, 0, None, gen=lambda r: r.choice([0, 1, p - 1, r.randrange(p), r.randrange(p)]))
    V.assume(x < p)
    return x


def solve(num, den, p):
    return num * pow(den, -1, p) % p if den % p else 0


def on(V, p, a, b, x, y):
    return V.eqv(V.rem(y * y - (x * x * x + a * x + b), p), 0)


def curve(V, p, a, b, n=7):
    if V.choice('class', ['weierstrass', 'koblitz']) == 'koblitz':
        V.assume(V.eqv(a, 0))
        return V.call(D, 'koblitz', p, b, n)
    return V.call(D, 'weierstrass', p, a, b, n)


def one_point(V):
    p = prime_field(V)
    x, y = coord(V, 'x', p), coord(V, 'y', p)
    a = V.int('a', None, None, gen=lambda r: r.choice([0, -3, p - 3, r.randrange(p)]))
    b = V.int('b', None, None, gen=lambda r: (y * y - x * x * x - a * x) % p)
    c = curve(V, p, a, b)
    V.assume(on(V, p, a, b, x, y))
    return p, a, b, c, x, y, V.method(c, 'point', x, y)


def infinity(V, c):
    return V.attr(c, 'IDENTITY')


def is_infinity(V, name, r):
    V.eq(name, V.attr(r, 'x'), None)
    V.eq(name + ' (y)', V.attr(r, 'y'), None)


def is_point(V, name, r, x, y):
    V.eq(name + ' x', V.attr(r, 'x'), x)
    V.eq(name + ' y', V.attr(r, 'y'), y)


def reduced(V, p, X, Y):
    V.check('reduced', V.both(X >= 0, X < p, Y >= 0, Y < p))


@harness(solver_timeout=1000)
def chord(V):
    """the sum and the difference of points with different x"""
    p = prime_field(V)
    x1, y1, x2, y2 = coord(V, 'x1', p), coord(V, 'y1', p), coord(V, 'x2', p), coord(V, 'y2', p)
    V.assume(V.ne(x1, x2))
    a = V.int('a', None, None, gen=lambda r: solve(y2 * y2 - y1 * y1 - x2 ** 3 + x1 ** 3, x2 - x1, p))
    b = V.int('b', None, None, gen=lambda r: (y1 * y1 - x1 ** 3 - a * x1) % p)
    c = curve(V, p, a, b)
    V.assume(on(V, p, a, b, x1, y1))
    V.assume(on(V, p, a, b, x2, y2))
    V.lemma('distinct modulo p', V.ne(V.rem(x2 - x1, p), 0))
    V.lemma('distinct modulo p (2)', V.ne(V.rem(x1 - x2, p), 0))
    P, Q = V.method(c, 'point', x1, y1), V.method(c, 'point', x2, y2)
    op = V.choice('op', ['+', '-'])
    R = V.op(op, P, Q)
    X, Y = V.attr(R, 'x'), V.attr(R, 'y')
    s = y2 if op == '+' else -y2
    reduced(V, p, X, Y)
    V.check('x', V.eqv(V.rem((X + x1 + x2) * (x2 - x1) * (x2 - x1) - (s - y1) * (s - y1), p), 0))
    V.check('y', V.eqv(V.rem((Y + y1) * (x2 - x1) - (s - y1) * (x1 - X), p), 0))
    V.check('on the curve', on(V, p, a, b, X, Y))
    is_point(V, 'left operand', P, x1, y1)
    is_point(V, 'right operand', Q, x2, y2)


@harness(solver_timeout=1000)
def tangent(V):
    """a point added to itself, doubled, or its negative subtracted"""
    p, a, b, c, x, y, P = one_point(V)
    V.assume(V.ne(y, 0))
    V.lemma('not of order two', V.ne(V.rem(2 * y, p), 0))
    how = V.choice('how', ['double', 'add', 'add equal', 'subtract negative'])
    if how == 'double':
        R = V.method(P, 'double')
    elif how == 'add':
        R = V.op('+', P, P)
    elif how == 'add equal':
        R = V.op('+', P, V.method(c, 'point', x, y))
    else:
        R = V.op('-', P, V.neg(P))
    X, Y = V.attr(R, 'x'), V.attr(R, 'y')
    t = 3 * x * x + a
    reduced(V, p, X, Y)
    V.check('x', V.eqv(V.rem((X + 2 * x) * (4 * y * y) - t * t, p), 0))
    V.check('y', V.eqv(V.rem((Y + y) * (2 * y) - t * (x - X), p), 0))
    V.check('on the curve', on(V, p, a, b, X, Y))
    is_point(V, 'operand', P, x, y)


@harness(solver_timeout=1000)
def negative(V):
    """the negative has the same x and the opposite y, reduced"""
    p, a, b, c, x, y, P = one_point(V)
    R = V.neg(P)
    V.eq('x', V.attr(R, 'x'), x)
    V.eq('y', V.attr(R, 'y'), V.rem(-y, p))
    V.check('on the curve', on(V, p, a, b, V.attr(R, 'x'), V.attr(R, 'y')))
    is_point(V, 'operand', P, x, y)
    is_point(V, 'twice', V.neg(R), x, y)


@harness()
def inverse_point(V):
    """a point plus its negative, or minus itself, is infinity; so is the double of a point of order two"""
    p, a, b, c, x, y, P = one_point(V)
    how = V.choice('how', ['negative right', 'negative left', 'difference', 'double'])
    if how == 'negative right':
        R = V.op('+', P, V.neg(P))
    elif how == 'negative left':
        R = V.op('+', V.neg(P), P)
    elif how == 'difference':
        R = V.op('-', P, P)
    else:
        V.assume(V.eqv(y, 0))
        R = V.method(P, 'double') if V.choice('call', [0, 1]) else V.op('+', P, P)
    is_infinity(V, 'infinity', R)
    is_point(V, 'operand', P, x, y)


@harness()
def neutral(V):
    """infinity is neutral on both sides and its own negative and double"""
    p, a, b, c, x, y, P = one_point(V)
    O = infinity(V, c)
    how = V.choice('how', ['right', 'left', 'minus', 'from', 'both', 'double', 'negative', 'minus itself'])
    if how == 'right':
        is_point(V, 'sum', V.op('+', P, O), x, y)
    elif how == 'left':
        is_point(V, 'sum', V.op('+', O, P), x, y)
    elif how == 'minus':
        is_point(V, 'difference', V.op('-', P, O), x, y)
    elif how == 'from':
        is_point(V, 'difference', V.op('-', O, P), x, V.rem(-y, p))
    elif how == 'both':
        is_infinity(V, 'sum', V.op('+', O, O))
    elif how == 'double':
        is_infinity(V, 'double', V.method(O, 'double'))
    elif how == 'negative':
        is_infinity(V, 'negative', V.neg(O))
    else:
        is_infinity(V, 'difference', V.op('-', O, O))
    is_infinity(V, 'infinity', O)
    is_point(V, 'operand', P, x, y)


@harness()
def membership(V):
    """exactly the solutions of the equation are accepted as points"""
    p = prime_field(V)
    x, y = V.int('x', None, None, gen=E.wide), V.int('y', None, None, gen=E.wide)
    a = V.int('a', None, None, gen=lambda r: r.choice([0, -3, p - 3, r.randrange(p)]))
    b = V.int('b', None, None, gen=lambda r: (y * y - x * x * x - a * x + r.choice([0, 0, 1, 3])) % p)
    c = curve(V, p, a, b)
    if V.case(on(V, p, a, b, x, y)):
        is_point(V, 'accepted', V.method(c, 'point', x, y), x, y)
    else:
        V.raises('refused', lambda: V.method(c, 'point', x, y))


HARNESSES = [E.inverse, E.no_inverse, chord, tangent, negative, inverse_point, neutral, membership]
