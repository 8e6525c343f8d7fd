"""Scalar multiplication of points."""
from engine.contract import harness
from engine.verify import *
from engine import theory as N, ir
from contracts import c15_gcd_inverse as E

MODULES = ['ecc.ecc', 'ecc.ellipticcurve', 'drv.curves']
FILES = ['ecc/ecc.py', 'ecc/ellipticcurve.py']
D, M = 'drv.curves', 'ecc.ecc'
LEAN = ['Bits.lean']
ASSUME = ['the points form a group under the addition of C19 and C21 (associativity), and the order n of the curve annihilates the point multiplied']


def given(V):
    n = V.int('n', 2, None, gen=lambda r: r.choice([2, 3, 7, 101, r.randrange(2, 300), 2 ** 127 - 1]))
    k = V.int('k', 0, None, gen=lambda r: r.randrange(n))
    V.assume(k < n)
    return n, k, V.int('e', None, None, gen=E.wide)


def binary(V, n, k, e):
    """right to left: the result and the remaining digits' multiple of the doubled point add up"""
    def total(r, q, s):
        if getattr(s, 'op', '') == 'div' and s.a[1] == 2:
            V.derive(V.eqv(2 * s, s.a[0]), V.eqv(2 * s + 1, s.a[0]))
        return V.eqv(V.rem(r + q * s - k * e, n), 0)
    V.inv(3, total)
    V.inv(1, lambda y: y < n)


@harness()
def weierstrass(V):
    n, k, e = given(V)
    c = V.call(D, 'group', n)
    P = V.method(c, 'point', 0, k)
    V.plain()
    V.inv(1, lambda i: V.eqv(N.pow2(i), 1))
    V.inv(1, lambda i: ir.or_b(V.eqv(N.pow2(i), 1), V.eqv(i, 0)))
    V.inv(1, lambda r, x: r <= 2 * x, free=1)
    seen, last = [], []

    def signed_digits(i, y, e3, e):
        h, g = N.hi(e3, i), N.hi(e, i)
        seen.append((i, e3, e))
        if getattr(i, 'op', '') == 'div' and i.a[1] == 2:
            j = i.a[0]
            V.derive(*[V.eqv(h, g + 2 * N.hi(e3, j) - 2 * N.hi(e, j) + b) for b in (-1, 0, 1)])
        return V.eqv(y, V.rem(k * (h - g), n))
    V.inv(2, signed_digits, free=2)
    # other orders of the digits
    binary(V, n, k, e)

    def digits(i, y, e):
        h = N.hi(e, i)
        last.append((i, e))
        if getattr(i, 'op', '') == 'div' and i.a[1] == 2:
            j = i.a[0]
            V.derive(*[V.eqv(h, 2 * N.hi(e, j) + b) for b in (0, 1)])
        return V.eqv(y, V.rem(k * h, n))
    V.inv(2, digits, free=1)
    R = V.op('*', P, e)
    for i, x, y in seen[-1:]:
        V.derive(V.eqv(N.hi(x, i), N.hi(y, i) + y))
    V.eq('multiple', V.attr(R, 'y'), V.rem(k * e, n))



def halving(V, factory, qual):
    n, k, e = given(V)
    c = V.call(D, factory, n)
    P = V.method(c, 'point', 0, k)
    V.plain()
    # recursive and iterative doubling
    V.recursive(qual, lambda curve, point, s: N.absv(s) * 2 + ir.ite(ir.lt(s, 0), 1, 0), lambda curve, point, s: V.method(curve, 'point', 0, V.rem(V.attr(point, 'y') * s, n)))
    binary(V, n, k, e)
    R = V.op('*', P, e)
    V.eq('multiple', V.attr(R, 'y'), V.rem(k * e, n))


@harness()
def edwards(V):
    halving(V, 'edwards_group', M + ':TwistedEdwardsCurveFp.scalar_multiple')


@harness()
def montgomery(V):
    halving(V, 'montgomery_group', M + ':MontgomeryCurveFp.scalar_multiple')



def on_curve_points(kind):
    @harness(prove=False)
    def h(V):
        p = V.int('p', 3, None, gen=lambda r: r.choice([5, 7, 11, 13, 17, 19, 23, 29, 31, 101]))
        a = V.int('a', 0, None, gen=lambda r: r.randrange(p))
        b = V.int('b', 0, None, gen=lambda r: r.randrange(p))
        x = V.int('x', 0, None, gen=lambda r: r.randrange(p))
        y = V.int('y', 0, None, gen=lambda r: r.randrange(p))
        e = V.int('e', None, None, gen=lambda r: r.randrange(-300, 300))
        if kind == 'weierstrass':
            V.assume((4 * a ** 3 + 27 * b ** 2) % p != 0)
            c = V.call(D, kind, p, a, b, 0)
        elif kind == 'twisted':
            V.assume(N.jac(a, p) == 1 and N.jac(b, p) == -1)
            c = V.call(D, kind, p, a, b)
        else:
            V.assume((a * a - 4) % p != 0)
            c = V.call(D, kind, p, a)
        V.check('agrees with repeated addition', V.call(D, 'multiple_agrees', c, x, y, e))
    h.name = kind + '_points'
    return h


HARNESSES = [weierstrass, edwards, montgomery] + [on_curve_points(k) for k in ('weierstrass', 'twisted', 'montgomery')]
