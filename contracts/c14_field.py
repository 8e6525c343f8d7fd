"""Prime field elements: fmath.galoisfield."""
from engine.contract import harness
from engine.verify import *
from engine import theory as N
from contracts import c15_gcd_inverse as E

MODULES = ['fmath.galoisfield']
FILES = ['fmath/galoisfield.py']
G = 'fmath.galoisfield'
ASSUME = ['division is stated for divisors coprime to the modulus (every nonzero element when the modulus is prime)']
LEAN = ['NumberTheory.lean', 'Powers.lean']
PRIMES = [2, 3, 5, 7, 11, 13, 101, 257, 65537, 2 ** 31 - 1, 2 ** 61 - 1, 2 ** 127 - 1, 2 ** 255 - 19, 2 ** 521 - 1]


def setting(V):
    p = V.int('p', 2, None, gen=lambda r: r.choice(PRIMES))
    return p, V.call(G, 'GFp', p)


def operand(V, gf, name, x):
    """an element of the field, or the plain integer"""
    return V.callobj(gf, x) if V.choice(name, ['element', 'integer']) == 'element' else x


def result(V, gf, p, name, r, want):
    V.eq(name, V.toint(r), want)
    V.eq(name + ' is in the field', V.attr(V.attr(r, 'gf'), 'p'), p)


OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b}


@harness()
def ring(V):
    """sums, differences, products and negatives, element with element or with a plain integer on either side"""
    p, gf = setting(V)
    a, b = V.int('a', None, None, gen=E.wide), V.int('b', None, None, gen=E.wide)
    op = V.choice('op', ['+', '-', '*'])
    side = V.choice('side', ['left', 'right'])
    x = V.callobj(gf, a)
    y = operand(V, gf, 'other', b)
    r = V.op(op, x, y) if side == 'left' else V.op(op, y, x)
    result(V, gf, p, 'value', r, V.rem(OPS[op](a, b) if side == 'left' else OPS[op](b, a), p))
    V.eq('left operand', V.toint(x), V.rem(a, p))
    V.eq('other operand', V.rem(V.toint(y), p) if not V.isnum(y) else V.rem(y, p), V.rem(b, p))
    n = V.neg(x)
    result(V, gf, p, 'negative', n, V.rem(-a, p))
    V.eq('operand of negation', V.toint(x), V.rem(a, p))


@harness()
def equality(V):
    """elements are equal exactly when they are congruent"""
    p, gf = setting(V)
    a, b = V.int('a', None, None, gen=E.wide), V.int('b', None, None, gen=E.wide)
    k = V.int('k', -3, 3)
    same = V.choice('same', [0, 1])
    if same:
        b = a + k * p
    x, y = V.callobj(gf, a), V.callobj(gf, b)
    V.check('equal', V.eqv(V.op('==', x, y), V.eqv(V.rem(a, p), V.rem(b, p))))
    V.check('different', V.eqv(V.op('!=', x, y), V.ne(V.rem(a, p), V.rem(b, p))))


@harness()
def power(V):
    """powers, with the exponent given as a plain integer or an element"""
    p, gf = setting(V)
    a = V.int('a', None, None, gen=E.wide)
    e = V.int('e', 0, None, gen=lambda r: r.choice([0, 1, 2, 3, 5, r.randrange(300)]))
    r = V.op('^', V.callobj(gf, a), e)
    result(V, gf, p, 'power', r, V.powmod(a, e, p))
    r = V.op('^', a, V.callobj(gf, V.rem(e, p) if not V.sym else e))
    result(V, gf, p, 'integer to the power of an element', r, V.powmod(a, V.rem(e, p), p))


@harness()
def negative_power(V):
    """a negative power is the power of the inverse"""
    p, gf = setting(V)
    a = V.int('a', None, None, gen=E.wide)
    e = V.int('e', 1, None, gen=lambda r: r.choice([1, 2, 3, 5, r.randrange(1, 300)]))
    V.assume(V.eqv(V.gcd(a, p), 1))
    egcd(V)
    z = V.method(gf, 'inverse', V.rem(a, p))
    V.lemma('inverse', V.eqv(V.rem(z * a - 1, p), 0))
    r = V.op('^', V.callobj(gf, a), -e)
    v = V.toint(r)
    V.check('reduced', V.both(v >= 0, v < p))
    V.check('value', V.eqv(V.rem(v * V.powmod(a, e, p) - 1, p), 0))


@harness()
def quotient(V):
    """division by anything coprime to the modulus: the reduced q with q*b = a"""
    p, gf = setting(V)
    a, b = V.int('a', None, None, gen=E.wide), V.int('b', None, None, gen=E.wide)
    form = V.choice('form', ['elements', 'integer below', 'integer above', 'inverse'])
    V.assume(V.eqv(V.gcd(b, p), 1))
    egcd(V)
    x, y = V.callobj(gf, a), V.callobj(gf, b)
    if form == 'elements':
        r = V.toint(V.op('/', x, y))
    elif form == 'integer below':
        r = V.toint(V.op('/', x, b))
    elif form == 'integer above':
        r = V.toint(V.op('/', a, y))
    else:
        r = V.method(gf, 'inverse', b)
        a = 1
    V.check('reduced', V.both(r >= 0, r < p))
    V.check('quotient', V.eqv(V.rem(r * b - a, p), 0))
    V.eq('operand', V.toint(x), V.rem(a, p)) if form != 'inverse' else None
    V.eq('divisor', V.toint(y), V.rem(b, p))


@harness()
def division_by_zero(V):
    """dividing by a multiple of the modulus does not return"""
    p, gf = setting(V)
    a = V.int('a', None, None, gen=E.wide)
    k = V.int('k', -5, 5)
    form = V.choice('form', ['element', 'integer'])
    egcd(V)
    V.raises('refused', lambda: V.op('/', V.callobj(gf, a), V.callobj(gf, k * p) if form == 'element' else k * p))


@harness()
def membership(V):
    """is_element holds exactly for 0..p-1"""
    p, gf = setting(V)
    x = V.int('x', None, None, gen=lambda r: r.choice([0, 1, -1, 2, E.wide(r)]))
    V.check('member', V.eqv(V.method(gf, 'is_element', x), V.both(x >= 0, x < p)))


def egcd(V):
    E.egcd_rec(V)


HARNESSES = [E.bezout, ring, equality, power, negative_power, quotient, division_by_zero, membership]
