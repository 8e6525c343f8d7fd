"""Twisted Edwards, Edwards and Montgomery curves over any prime field."""
from engine.contract import harness
from engine.verify import *
from engine import theory as N
from contracts import c15_gcd_inverse as E
from contracts.c16_jacobi import PRIMES
from contracts.c19_weierstrass import prime_field, coord, solve, is_point, is_infinity, infinity, reduced

MODULES = ['ecc.ecc', 'ecc.ellipticcurve', 'ecc.numbertheory', 'drv.curves']
FILES = ['ecc/ecc.py', 'ecc/ellipticcurve.py', 'ecc/numbertheory.py']
D = 'drv.curves'
ASSUME = ['points have coordinates between 0 and p-1',
          'Edwards sums are stated where the denominators of the addition law are not zero modulo p (on complete curves always: theorem edwards_complete); elsewhere the call is shown to be refused']
LEAN = ['NumberTheory.lean', 'Jacobi.lean', 'Edwards.lean']


# ------------------------------------------------------------------ Edwards

def on_edwards(V, p, a, d, x, y):
    return V.eqv(V.rem(a * x * x + y * y - 1 - d * x * x * y * y, p), 0)


def edwards(V, p, x, y, two=None):
    """a curve through (x, y), and through the second point"""
    kind = V.choice('class', ['twisted', 'edwards'])
    if kind == 'twisted' and two:
        X, Y = two
        # a x^2 - d x^2 y^2 = 1 - y^2 for both points
        det = lambda: -x * x * X * X * Y * Y + X * X * x * x * y * y
        a = V.int('a', None, None, gen=lambda r: solve(-(1 - y * y) * X * X * Y * Y + (1 - Y * Y) * x * x * y * y, det(), p))
        d = V.int('d', None, None, gen=lambda r: solve(x * x * (1 - Y * Y) - X * X * (1 - y * y), det(), p))
        c = V.call(D, 'twisted', p, a, d)
    elif kind == 'twisted':
        d = V.int('d', None, None, gen=lambda r: r.randrange(p))
        a = V.int('a', None, None, gen=lambda r: solve(1 + d * x * x * y * y - y * y, x * x, p))
        c = V.call(D, 'twisted', p, a, d)
    else:
        a = 1
        d = V.int('d', None, None, gen=lambda r: solve(x * x + y * y - 1, x * x * y * y, p))
        c = V.call(D, 'edwards', p, d)
    V.assume(on_edwards(V, p, a, d, x, y))
    if two:
        V.assume(on_edwards(V, p, a, d, *two))
    return a, d, c


def point2(V, p, x, y):
    g = lambda r: r.choice([(x, y), (-x % p, y), (x, -y % p), (y, x), (-y % p, x), (0, 1), (1, 0), (0, p - 1), (r.randrange(p), r.randrange(p))])
    st = []

    def gx(r):
        st.append(g(r))
        return st[-1][0]
    X = V.int('X', 0, None, gen=gx)
    V.assume(X < p)
    Y = V.int('Y', 0, None, gen=lambda r: st[-1][1])
    V.assume(Y < p)
    return X, Y


def check_sum(V, p, a, d, R, x, y, X, Y):
    """R is the sum of (x, y) and (X, Y)"""
    e = d * x * X * y * Y
    u, v = V.attr(R, 'x'), V.attr(R, 'y')
    reduced(V, p, u, v)
    V.check('x', V.eqv(V.rem(u * (1 + e) - (x * Y + X * y), p), 0))
    V.check('y', V.eqv(V.rem(v * (1 - e) - (y * Y - a * x * X), p), 0))
    V.check('on the curve', on_edwards(V, p, a, d, u, v))


@harness(solver_timeout=1000)
def edwards_sum(V):
    """sums and differences of any two points are those of the addition law"""
    p = prime_field(V)
    x, y = coord(V, 'x', p), coord(V, 'y', p)
    X, Y = point2(V, p, x, y)
    a, d, c = edwards(V, p, x, y, (X, Y))
    e = d * x * X * y * Y
    V.assume(V.eqv(V.gcd(1 + e, p), 1))
    V.assume(V.eqv(V.gcd(1 - e, p), 1))
    P, Q = V.method(c, 'point', x, y), V.method(c, 'point', X, Y)
    op = V.choice('op', ['+', '-'])
    s = X if op == '+' else V.rem(-X, p)
    R = V.op(op, P, Q)
    check_sum(V, p, a, d, R, x, y, s, Y)
    is_point(V, 'left operand', P, x, y)
    is_point(V, 'right operand', Q, X, Y)


@harness(solver_timeout=1000)
def edwards_double(V):
    """the double of a point is the sum of the point and itself"""
    p = prime_field(V)
    x, y = coord(V, 'x', p), coord(V, 'y', p)
    a, d, c = edwards(V, p, x, y)
    e = d * x * x * y * y
    V.assume(V.eqv(V.gcd(1 + e, p), 1))
    V.assume(V.eqv(V.gcd(1 - e, p), 1))
    P = V.method(c, 'point', x, y)
    R = V.method(P, 'double') if V.choice('how', ['double', 'add']) == 'double' else V.op('+', P, P)
    check_sum(V, p, a, d, R, x, y, x, y)
    is_point(V, 'operand', P, x, y)


@harness(solver_timeout=1000)
def edwards_negative(V):
    """negatives; (0, 1) is neutral on both sides, and a point plus its negative"""
    p = prime_field(V)
    x, y = coord(V, 'x', p), coord(V, 'y', p)
    a, d, c = edwards(V, p, x, y)
    P, O = V.method(c, 'point', x, y), infinity(V, c)
    is_point(V, 'neutral element', O, 0, 1)
    how = V.choice('how', ['negative', 'right', 'left', 'minus', 'from', 'cancel', 'double'])
    if how == 'negative':
        is_point(V, 'negative', V.neg(P), V.rem(-x, p), y)
    elif how == 'right':
        is_point(V, 'sum', V.op('+', P, O), x, y)
    elif how == 'left':
        is_point(V, 'sum', V.op('+', O, P), x, y)
    elif how == 'minus':
        is_point(V, 'difference', V.op('-', P, O), x, y)
    elif how == 'from':
        is_point(V, 'difference', V.op('-', O, P), V.rem(-x, p), y)
    elif how == 'double':
        is_point(V, 'double', V.method(O, 'double'), 0, 1)
    else:
        e = d * x * x * y * y
        V.assume(V.eqv(V.gcd(1 + e, p), 1))
        V.assume(V.eqv(V.gcd(1 - e, p), 1))
        is_point(V, 'cancelled', V.op('+', P, V.neg(P)) if V.choice('call', [0, 1]) else V.op('-', P, P), 0, 1)
    is_point(V, 'operand', P, x, y)


@harness(solver_timeout=1000)
def edwards_undefined(V):
    """where a denominator of the addition law vanishes the call is refused"""
    p = prime_field(V)
    x, y = coord(V, 'x', p), coord(V, 'y', p)
    X, Y = point2(V, p, x, y)
    a, d, c = edwards(V, p, x, y, (X, Y))
    e = d * x * X * y * Y
    V.assume(V.either(V.ne(V.gcd(1 + e, p), 1), V.ne(V.gcd(1 - e, p), 1)))
    P, Q = V.method(c, 'point', x, y), V.method(c, 'point', X, Y)
    V.raises('refused', lambda: V.op('+', P, Q))


@harness(solver_timeout=1000)
def edwards_membership(V):
    """exactly the solutions of the equation are accepted as points"""
    p = prime_field(V)
    x, y = V.int('x', None, None, gen=E.wide), V.int('y', None, None, gen=E.wide)
    d = V.int('d', None, None, gen=lambda r: r.randrange(p))
    a = V.int('a', None, None, gen=lambda r: solve(1 + d * x * x * y * y - y * y, x * x, p) + r.choice([0, 0, 1]))
    c = V.call(D, 'twisted', p, a, d)
    if V.case(on_edwards(V, p, a, d, x, y)):
        is_point(V, 'accepted', V.method(c, 'point', x, y), x, y)
    else:
        V.raises('refused', lambda: V.method(c, 'point', x, y))


# ------------------------------------------------------------------ Montgomery

def on_montgomery(V, p, a, x, y):
    return V.eqv(V.rem(y * y - (x * x * x + a * x * x + x), p), 0)


def mont(V, zero_y=False):
    p = prime_field(V)
    x, y = coord(V, 'x', p), coord(V, 'y', p)
    a = V.int('a', None, None, gen=lambda r: solve(y * y - x ** 3 - x, x * x, p))
    c = V.call(D, 'montgomery', p, a)
    V.assume(on_montgomery(V, p, a, x, y))
    return p, a, c, x, y, V.method(c, 'point', x, y)


def another(p, a):
    """generator of a second point, on small fields"""
    st = []

    def gx(r):
        pts = [(0, 0)]
        if p < 300:
            sq = {}
            for t in range(p):
                sq.setdefault(t * t % p, []).append(t)
            pts = [(t, w) for t in range(p) for w in sq.get((t ** 3 + a * t * t + t) % p, ())]
        st.append(r.choice(pts))
        return st[-1][0]
    return gx, lambda r: st[-1][1]


@harness(solver_timeout=1000)
def montgomery_chord(V):
    """the sum and the difference of points with different x"""
    p, a, c, x, y, P = mont(V)
    gx, gy = another(p, a)
    X = V.int('X', 0, None, gen=gx)
    V.assume(X < p)
    Y = V.int('Y', 0, None, gen=gy)
    V.assume(Y < p)
    V.assume(on_montgomery(V, p, a, X, Y))
    V.assume(V.ne(x, X))
    V.lemma('distinct modulo p', V.ne(V.rem(X - x, p), 0))
    V.lemma('distinct modulo p (2)', V.ne(V.rem(x - X, p), 0))
    Q = V.method(c, 'point', X, Y)
    op = V.choice('op', ['+', '-'])
    s = Y if op == '+' else -Y
    R = V.op(op, P, Q)
    u, v = V.attr(R, 'x'), V.attr(R, 'y')
    reduced(V, p, u, v)
    V.check('x', V.eqv(V.rem((u + a + x + X) * (X - x) * (X - x) - (s - y) * (s - y), p), 0))
    V.check('y', V.eqv(V.rem((v + y) * (X - x) - (s - y) * (x - u), p), 0))
    V.check('on the curve', on_montgomery(V, p, a, u, v))
    is_point(V, 'left operand', P, x, y)
    is_point(V, 'right operand', Q, X, Y)


@harness(solver_timeout=1000)
def montgomery_tangent(V):
    """a point added to itself, doubled, or its negative subtracted"""
    p, a, c, x, y, P = mont(V)
    V.assume(V.ne(y, 0))
    V.lemma('not of order two', V.ne(V.rem(2 * y, p), 0))
    how = V.choice('how', ['double', 'add', 'add equal', 'subtract negative'])
    if how == 'double':
        R = V.method(P, 'double')
    elif how == 'add':
        R = V.op('+', P, P)
    elif how == 'add equal':
        R = V.op('+', P, V.method(c, 'point', x, y))
    else:
        R = V.op('-', P, V.neg(P))
    u, v = V.attr(R, 'x'), V.attr(R, 'y')
    t = 3 * x * x + 2 * a * x + 1
    reduced(V, p, u, v)
    V.check('x', V.eqv(V.rem((u + a + 2 * x) * (4 * y * y) - t * t, p), 0))
    V.check('y', V.eqv(V.rem((v + y) * (2 * y) - t * (x - u), p), 0))
    V.check('on the curve', on_montgomery(V, p, a, u, v))
    is_point(V, 'operand', P, x, y)


@harness(solver_timeout=1000)
def montgomery_negative(V):
    """negatives, infinity as the neutral element, and sums that are infinity"""
    p, a, c, x, y, P = mont(V)
    O = infinity(V, c)
    how = V.choice('how', ['negative', 'right', 'left', 'minus', 'from', 'both', 'double infinity', 'minus infinity',
                           'cancel', 'cancel left', 'difference', 'double'])
    if how == 'negative':
        is_point(V, 'negative', V.neg(P), x, V.rem(-y, p))
    elif how == 'right':
        is_point(V, 'sum', V.op('+', P, O), x, y)
    elif how == 'left':
        is_point(V, 'sum', V.op('+', O, P), x, y)
    elif how == 'minus':
        is_point(V, 'difference', V.op('-', P, O), x, y)
    elif how == 'from':
        is_point(V, 'difference', V.op('-', O, P), x, V.rem(-y, p))
    elif how == 'both':
        is_infinity(V, 'sum', V.op('+', O, O))
    elif how == 'double infinity':
        is_infinity(V, 'double', V.method(O, 'double'))
    elif how == 'minus infinity':
        is_infinity(V, 'negative', V.neg(O))
    elif how == 'cancel':
        is_infinity(V, 'sum', V.op('+', P, V.neg(P)))
    elif how == 'cancel left':
        is_infinity(V, 'sum', V.op('+', V.neg(P), P))
    elif how == 'difference':
        is_infinity(V, 'difference', V.op('-', P, P))
    else:
        V.assume(V.eqv(y, 0))
        is_infinity(V, 'double', V.method(P, 'double') if V.choice('call', [0, 1]) else V.op('+', P, P))
    is_point(V, 'operand', P, x, y)


@harness(solver_timeout=1000)
def montgomery_membership(V):
    """exactly the solutions of the equation are accepted as points"""
    p = prime_field(V)
    x, y = V.int('x', None, None, gen=E.wide), V.int('y', None, None, gen=E.wide)
    a = V.int('a', None, None, gen=lambda r: solve(y * y - x ** 3 - x, x * x, p) + r.choice([0, 0, 1]))
    c = V.call(D, 'montgomery', p, a)
    if V.case(on_montgomery(V, p, a, x, y)):
        is_point(V, 'accepted', V.method(c, 'point', x, y), x, y)
    else:
        V.raises('refused', lambda: V.method(c, 'point', x, y))


HARNESSES = [E.inverse, E.no_inverse, edwards_sum, edwards_double, edwards_negative, edwards_undefined, edwards_membership,
             montgomery_chord, montgomery_tangent, montgomery_negative, montgomery_membership]
