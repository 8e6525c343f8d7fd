"""Euclid: ecc.numbertheory gcd, lcm, inverse_mod and fmath.galoisfield inverse_mod."""
from engine.contract import harness
from engine.verify import *
from engine import theory as N

MODULES = ['ecc.numbertheory', 'fmath.galoisfield']
FILES = ['ecc/numbertheory.py', 'fmath/galoisfield.py']
M, G = 'ecc.numbertheory', 'fmath.galoisfield'
ASSUME = []
LEAN = ['NumberTheory.lean']


def wide(r):
    k = r.choice([3, 8, 30, 64, 70, 200])
    x = r.randrange(-(1 << k), 1 << k)
    return x * r.choice([1, 1, 2, 6, 30, 0])


def ints(*xs):
    return all((isinstance(x, T) and not ir.is_bool(x)) or (isinstance(x, int) and not isinstance(x, bool)) for x in xs)


def gcd2_summary(I, f, env):
    a = list(env.values())
    return N.gcd(*a) if len(a) == 2 and ints(*a) else NotImplemented


def egcd_summary(I, f, env):
    a = list(env.values())
    if len(a) != 2 or not ints(*a) or I.ctx.entails(ir.and_b(ir.ge(a[0], 0), ir.ge(a[1], 1))) is not True:
        return NotImplemented
    g, x, y = N.gcd(*a), ir.app('egcd.x', *a), ir.app('egcd.y', *a)
    I.ctx.push(ir.eq(ir.add(ir.mul(a[0], x), ir.mul(a[1], y)), g))
    return (g, x, y)


def inverse_summary(I, f, env):
    a = list(env.values())
    if len(a) != 2 or not ints(*a) or I.ctx.entails(ir.ge(a[1], 1)) is not True:
        return NotImplemented
    x, m = a
    if not I.ctx.branch(ir.eq(N.gcd(x, m), 1)):
        raise PyRaise('AssertionError')
    r = ir.fresh('inv', 0)
    I.ctx.push(ir.lt(r, m))
    I.ctx.push(ir.eq(ir.mod(ir.sub(ir.mul(x, r), 1), m), 0))
    return r


def euclid(V, a, m):
    """relations every variant of the Euclidean algorithm keeps"""
    V.inv(1, lambda x: ir.ge(x, 0))
    V.inv(2, lambda x, y: ir.and_b(ir.ge(x, 0), ir.gt(y, x)))
    V.inv(2, lambda x, y: ir.eq(N.gcd(x, y), N.gcd(a, m)))
    V.inv(2, lambda u, c: ir.eq(ir.mod(ir.sub(ir.mul(u, a), c), m), 0))
    # signs alternate, |v| d + |u| c = m, and 2 |u| <= m
    V.inv(4, lambda u, v, c, d: ir.or_b(
        ir.and_b(ir.ge(v, 0), ir.le(u, 0), ir.le(ir.mul(-2, u), m), ir.eq(ir.sub(ir.mul(v, d), ir.mul(u, c)), m)),
        ir.and_b(ir.le(v, 0), ir.ge(u, 0), ir.le(ir.mul(2, u), m), ir.eq(ir.sub(ir.mul(u, c), ir.mul(v, d)), m))))


def egcd_rec(V):
    """recursive Euclid: (g, x, y) with g = gcd and a x + b y = g"""
    def back(a, b):
        g, x, y = N.gcd(a, b), V.some('x'), V.some('y')
        V.ctx.push(ir.eq(ir.add(ir.mul(a, x), ir.mul(b, y)), g))
        return (g, x, y)
    V.recursive(G + ':egcd', lambda a, b: a, back)


@harness(qual=G + ':egcd', summary=egcd_summary)
def bezout(V):
    """Euclid with the coefficients: (g, x, y), g the gcd and a x + b y = g"""
    V.active(G + ':egcd')
    a = V.int('a', 0, None, gen=lambda r: abs(wide(r)))
    b = V.int('b', 1, None, gen=lambda r: abs(wide(r)) + 1)
    egcd_rec(V)
    g, x, y = V.items(V.call(G, 'egcd', a, b))
    V.eq('gcd', g, V.gcd(a, b))
    V.eq('combination', a * x + b * y, g)


@harness(qual=M + ':gcd2', summary=gcd2_summary)
def gcd_of_two(V):
    """Euclid's algorithm for two integers of any sign"""
    V.active(M + ':gcd2')
    a, b = V.int('a', None, None, gen=wide), V.int('b', None, None, gen=wide)
    gcd_hints(V)
    V.eq('gcd', V.call(M, 'gcd2', a, b), V.gcd(a, b))


def invert(V, mod):
    V.active(M + ':inverse_mod')
    m = V.int('m', 1, None, gen=lambda r: abs(wide(r)) + r.choice([1, 2, 3]))
    a = V.int('a', None, None, gen=wide)
    V.assume(V.eqv(V.gcd(a, m), 1))
    euclid(V, V.rem(a, m), m)
    x = V.call(mod, 'inverse_mod', a, m)
    V.check('reduced', V.both(x >= 0, x < m))
    V.check('inverse', V.eqv(V.rem(a * x - 1, m), 0))


def refuse(V, mod):
    V.active(M + ':inverse_mod')
    m = V.int('m', 1, None, gen=lambda r: abs(wide(r)) + r.choice([1, 2, 3]))
    a = V.int('a', None, None, gen=wide)
    V.assume(V.ne(V.gcd(a, m), 1))
    euclid(V, V.rem(a, m), m)
    V.raises('refused', lambda: V.call(mod, 'inverse_mod', a, m))


@harness(qual=M + ':inverse_mod', summary=inverse_summary)
def inverse(V):
    """the inverse of a number coprime to the modulus is the reduced x with a*x = 1"""
    invert(V, M)


@harness()
def no_inverse(V):
    """without an inverse the call does not return"""
    refuse(V, M)


@harness()
def field_inverse(V):
    """the same for the inverse_mod of fmath.galoisfield"""
    invert(V, G)


@harness()
def no_field_inverse(V):
    """the same for the inverse_mod of fmath.galoisfield"""
    refuse(V, G)


@harness()
def gcd_of_few(V):
    """gcd of one to four integers of any sign, as arguments or as a list"""
    n = V.choice('count', [1, 2, 3, 4])
    xs = [V.int('x%d' % i, None, None, gen=wide) for i in range(n)]
    aslist = V.choice('form', [0, 1])
    gcd_hints(V)
    want = 0
    for x in xs:
        want = V.gcd(want, x)
    r = V.call(M, 'gcd', V.lst(xs)) if aslist else V.call(M, 'gcd', *xs)
    V.eq('gcd', r, want)


def gcd_hints(V):
    V.hint(lambda loop, opq: gcd_cands(loop))


def gcd_cands(loop):
    from engine.loops import Cand
    ps = [p for p in loop.prims() if p.kind == 'int']
    for p in ps:
        for q in ps:
            if p is not q:
                a, b = p.v0, q.v0
                yield Cand('gcd', [p, q], lambda x, y, a=a, b=b: ir.eq(N.gcd(x, y), N.gcd(a, b)))


@harness()
def lcm_of_few(V):
    n = V.choice('count', [1, 2, 3])
    xs = [V.int('x%d' % i, None, None, gen=wide) for i in range(n)]
    aslist = V.choice('form', [0, 1])
    gcd_hints(V)
    want = 1
    for x in xs:
        want = V.lcm(want, x)
    r = V.call(M, 'lcm', V.lst(xs)) if aslist else V.call(M, 'lcm', *xs)
    V.eq('lcm', r, want)


def folded(V, op, xs, k):
    return V.fold('nt_' + op, lambda xs, acc, i: getattr(N, op)(acc, V.entry(xs, i)), lambda xs: 0 if op == 'gcd' else 1, (xs,), k)


@harness()
def of_list(V):
    """gcd and lcm of a list of any length"""
    op = V.choice('op', ['gcd', 'lcm'])
    n = V.nat('n', 1, 1 << 20, gen=lambda r: r.randrange(1, 6))
    xs = V.ints('xs', n, None, None, gen=lambda r, n: [wide(r) for _ in range(n)])
    V.pool(lambda k: folded(V, op, xs, k))
    V.pool(lambda k: folded(V, op, xs, k + 1))
    V.eq('value', V.call(M, op, xs), folded(V, op, xs, n))


HARNESSES = [bezout, gcd_of_two, inverse, no_inverse, field_inverse, no_field_inverse, gcd_of_few, lcm_of_few, of_list]
REQUIRED = ('gcd_of_two', 'inverse')          # not only for the use of callers
