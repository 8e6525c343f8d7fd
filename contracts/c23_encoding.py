"""Point encodings: ecc.ellipticcurve Point.encode and others, y_from_x."""
from engine.contract import harness
from engine.verify import *
from engine import theory as N
from contracts import c05_octets as O
from contracts import c15_gcd_inverse as E
from contracts import c16_jacobi as J
from contracts import c17_roots as R

D, M = 'drv.curves', 'ecc.ecc'
MODULES = ['ecc.ellipticcurve', 'ecc.ecc', 'ecc.numbertheory', D]
FILES = ['ecc/ellipticcurve.py', 'ecc/ecc.py', 'ecc/numbertheory.py']
LEAN = ['Digits.lean', 'NumberTheory.lean', 'Powers.lean', 'Jacobi.lean', 'Roots.lean']
ASSUME = ['coordinates are at most 2^48 octets long',
          'bounded: y_from_x for primes congruent 1 modulo 8 is only run on generated inputs']
CURVES = ['weierstrass', 'twisted', 'montgomery']


def some_curve(V, p=7):
    kind = V.choice('kind', CURVES)
    return V.call(D, kind, *{'weierstrass': (p, 1, 1, 5), 'twisted': (p, 1, 3), 'montgomery': (p, 3)}[kind])


def encodable(V, n, name):
    """zero or positive, below 256^n"""
    if V.choice(name + ' is zero', [0, 1]):
        return 0
    x = V.int(name, 1, None, gen=lambda r: max(1, O.big(r) % 256 ** n))
    V.assume(x < V.power(256, n))
    return x


@harness()
def raw(V):
    """both coordinates in as many octets as the field size has, for any coordinate size and coordinates that fit"""
    n = V.nat('n', 1)
    c = some_curve(V)
    V.setattr(c, 'coord_size', n)
    x, y = encodable(V, n, 'x'), encodable(V, n, 'y')
    P = V.method(c, 'point', x, y, validate=False)
    s = V.method(P, 'encode')
    V.eq('length', V.len(s), 2 * n)
    V.eq('octets', s, V.cat(O.be_string(V, x, n), O.be_string(V, y, n)))
    V.eq('x unchanged', V.attr(P, 'x'), x)
    V.eq('y unchanged', V.attr(P, 'y'), y)


@harness()
def raw_decodes(V):
    """the octets of the two halves are the coordinates"""
    n = V.nat('n', 1)
    c = some_curve(V)
    V.setattr(c, 'coord_size', n)
    a, x = V.digits('a', n)
    b, y = V.digits('b', n)
    P = V.method(c, 'point', x, y, validate=False)
    s = V.method(P, 'encode')
    V.pool(lambda k: V.fdiv(x, V.power(256, n - k)))
    V.pool(lambda k: V.fdiv(y, V.power(256, n - k)))
    V.eq('first half', V.sl(s, 0, n), a)
    V.eq('second half', V.sl(s, n, 2 * n), b)
    V.eq('x again', V.call(M, 'string_to_int', V.sl(s, 0, n)), x)
    V.eq('y again', V.call(M, 'string_to_int', V.sl(s, n, 2 * n)), y)


@harness()
def too_large(V):
    """a coordinate that does not fit is refused"""
    n = V.nat('n', 1)
    c = some_curve(V)
    V.setattr(c, 'coord_size', n)
    which = V.choice('which', [0, 1])
    x = V.int('x', 1, None, gen=lambda r: O.big(r) + 1)
    V.assume(x >= V.power(256, n))
    P = V.method(c, 'point', *([x, 0] if which else [0, x]), validate=False)
    V.raises('refused', lambda: V.method(P, 'encode'))


@harness()
def x_only(V):
    """the octets of x without leading zeros, and of x and y one after the other"""
    c = some_curve(V)
    x = V.int('x', 1, None, gen=lambda r: O.big(r) + 1)
    y = V.int('y', 1, None, gen=lambda r: O.big(r) + 1)
    P = V.method(c, 'point', x, y, validate=False)
    s = V.method(P, 'toOctets')
    n = V.len(s)
    V.check('no leading zero octet', V.ne(V.at(s, 0), 0))
    V.eq('octets', s, O.be_string(V, x, n))
    V.pool(lambda k: V.fdiv(x, V.power(256, n - k)))
    V.eq('x again', V.call(M, 'string_to_int', s), x)
    V.eq('both', V.method(P, 'to_octetstring'), V.cat(s, V.call(M, 'int_to_string', y)))


@harness()
def coordinate_size(V):
    """the coordinate size of a curve is the number of octets of its prime"""
    p = V.int('p', 1, None, gen=lambda r: O.big(r) + 1)
    n = V.attr(some_curve(V, p), 'coord_size')
    V.check('fits', p < V.power(256, n))
    V.check('no larger than needed', p >= V.power(256, n - 1))


def decompression(k, **kw):
    @harness(**kw)
    def h(V):
        p = R.modulus(V, k)
        a, b = V.int('a', None, None, gen=E.wide), V.int('b', None, None, gen=E.wide)
        x = V.int('x', None, None, gen=E.wide)
        c = V.call(D, 'weierstrass', p, a, b, 5)
        w = V.rem(x * x * x + a * x + b, p)
        if V.case(V.eqv(V.jac(w, p), -1)):
            return V.raises('refused', lambda: V.method(c, 'y_from_x', x), ['SquareRootError'])
        y = V.method(c, 'y_from_x', x)
        V.check('reduced', V.both(y >= 0, y < p))
        V.check('on the curve', V.eqv(V.rem(y * y - w, p), 0))
    h.name = 'decompression_%s' % (k if isinstance(k, int) else '357')
    return h


HARNESSES = [J.symbol, R.HARNESSES[2], raw, raw_decodes, too_large, x_only, coordinate_size] + [decompression([3, 5, 7])] + [
    decompression(1, prove=False, conf=40, bounded='generated primes congruent 1 modulo 8')]
