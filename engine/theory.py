"""Number-theoretic specification functions: known to the prover only through facts, each of which
is a theorem of lean/NumberTheory.lean (checked on every run), and computed directly on concrete values."""
import math
from . import ir, solver, algebra
from .ir import T


def isT(*xs):
    return any(isinstance(x, T) for x in xs)


def absv(x):
    return ir.ite(ir.ge(x, 0), x, ir.neg(x)) if isinstance(x, T) else abs(x)


def norm_arg(x):
    """a representative of {x, -x}"""
    if not isinstance(x, T):
        return abs(x)
    if x.op == 'ite' and ir.add(x.a[1], x.a[2]) == 0:
        return norm_arg(x.a[1])
    d = ir._terms(x)
    ms = [m for m in d if m != ()]
    lead = max(ms, key=lambda m: (len(m), tuple(y.id for y in m)))
    return ir.neg(x) if d[lead] < 0 else x


# ------------------------------------------------------------------ greatest common divisor

def gcd(a, b):
    """Int.gcd"""
    if not isT(a, b):
        return math.gcd(a, b)
    a, b = algebra.strip_mods(a, b), algebra.strip_mods(b, a)       # gcd_step
    a, b = norm_arg(a), norm_arg(b)
    if not isinstance(a, T) or (isinstance(b, T) and b.id < a.id):
        a, b = b, a
    if not isinstance(b, T):
        if b == 0:
            return absv(a)              # gcd_zero
        if b == 1:
            return 1                    # gcd_one
    if a is b:
        return absv(a)                  # gcd_self
    return ir._mk('app', ('gcd', a, b), 0, ir.INF)


def gcd_facts(a, b):
    g = gcd(a, b)
    if not isinstance(g, T):
        return []
    out = [ir.or_b(ir.ne(b, 0), ir.eq(g, absv(a))), ir.or_b(ir.ne(a, 0), ir.eq(g, absv(b))),
           ir.or_b(ir.eq(a, 0), ir.ge(g, 1)), ir.or_b(ir.eq(b, 0), ir.ge(g, 1)),
           ir.or_b(ir.eq(a, 0), ir.le(g, absv(a))), ir.or_b(ir.eq(b, 0), ir.le(g, absv(b)))]
    for x, p in ((a, b), (b, a)):
        if type(p) is int and WITNESS and isinstance(x, T):
            # gcd_common
            out += [ir.or_b(ir.ne(ir.mod(x, q), 0), ir.eq(ir.mod(g, q), 0)) for q in (2, 3, 5, 7, 11, 13) if p % q == 0]
        if p in PRIMES:
            # gcd_prime
            out.append(ir.or_b(ir.ne(prime(p), 1), ir.eq(ir.mod(x, p), 0), ir.eq(g, 1)))
            out.append(ir.or_b(ir.ne(prime(p), 1), ir.ne(ir.mod(x, p), 0), ir.eq(g, p)))
    return out


def mod_expand(x, b):
    """x with its remainders y % m written y - b*(y // m), and the cases (m != b, m == 0) in which this is wrong"""
    bad = []
    for _ in range(3):
        if not isinstance(x, T):
            break
        sub = {}
        for mono in ir._terms(x):
            for y in mono:
                if y.op == 'mod':
                    sub[y] = ir.sub(y.a[0], ir.mul(b, ir._mk('div', y.a)))
                    bad += [ir.ne(y.a[1], b), ir.eq(b, 0)]
        if not sub:
            break
        parts = []
        for mono, c in ir._terms(x).items():
            t = c
            for y in mono:
                t = ir.mul(t, sub.get(y, y))
            parts.append(t)
        x = ir.add(*parts)
    return x, bad


def is_multiple(p, q):
    """p is a polynomial multiple of q, syntactically"""
    if not isinstance(p, T):
        return p == 0 or (not isinstance(q, T) and q != 0 and p % q == 0)
    if not isinstance(q, T):
        return q != 0 and all(c % q == 0 for c in ir._terms(p).values())
    return not algebra.reduce(ir._terms(p), algebra.prep([ir._terms(q)]))


def gcd_pair(u, v):
    out = []
    for a, b in (u, u[::-1]):
        for c, d in (v, v[::-1]):
            # gcd_neg: equal up to sign, equal divisor
            out.append(ir.or_b(ir.and_b(ir.ne(a, c), ir.ne(a, ir.neg(c))), ir.and_b(ir.ne(b, d), ir.ne(b, ir.neg(d))), ir.eq(gcd(a, b), gcd(c, d))))
            # gcd_add_mul: gcd(c + q*b, b) == gcd(c, b)
            for s in (1, -1):
                e, bad = mod_expand(ir.sub(a, ir.mul(s, c)), b)
                if is_multiple(e, b):
                    out.append(ir.or_b(*([ir.ne(b, d)] + bad + [ir.eq(gcd(a, b), gcd(c, d))])))
    return out


solver.FACTS['gcd'] = gcd_facts
solver.PAIRS['gcd'] = gcd_pair
ir.APP_HOOKS['gcd'] = gcd


def lcm(a, b):
    """|a*b| = gcd(a, b) * lcm(a, b)"""
    if not isT(a, b):
        return math.lcm(a, b)
    g = gcd(a, b)
    p = absv(ir.mul(a, b))
    return ir.ite(ir.eq(g, 0), 0, ir.div(p, g)) if isinstance(g, T) else (ir.div(p, g) if g else 0)


# ------------------------------------------------------------------ powers modulo m

def powm_facts(b, e, m):
    g = ir.APP_HOOKS['powm'](b, e, m)
    if not isinstance(g, T) or g.op != 'app':
        return []
    ok = ir.and_b(ir.ge(e, 0), ir.ge(m, 1))
    out = [ir.or_b(ir.not_(ok), ir.and_b(ir.ge(g, 0), ir.lt(g, m)))]
    if isinstance(m, T) and m.lo >= 1 or not isinstance(m, T):
        # one_pow
        out.append(ir.or_b(ir.not_(ok), ir.ne(ir.mod(ir.sub(b, 1), m), 0), ir.eq(ir.mod(ir.sub(g, 1), m), 0)))
    if m in PRIMES:
        # jac_euler
        out.append(ir.or_b(ir.ne(prime(m), 1), ir.lt(m, 3), ir.ne(ir.add(ir.mul(2, e), 1), m), ir.eq(ir.mod(ir.sub(g, jac(b, m)), m), 0)))
        if ROOTS:
            j = jac(b, m)
            no = [ir.ne(prime(m), 1), ir.lt(m, 3), ir.ne(j, 1), ir.lt(e, 0)]
            out.append(ir.or_b(*(no + [ir.ne(ir.mul(4, e), ir.add(m, 1)), ir.eq(ir.mod(ir.sub(ir.mul(g, g), b), m), 0)])))      # root3
            out.append(ir.or_b(*(no + [ir.ne(ir.mul(4, e), ir.sub(m, 1)), ir.eq(g, 1), ir.eq(g, ir.sub(m, 1))])))               # quarter
        if WITNESS:
            no = [ir.ne(prime(m), 1), ir.lt(e, 0)]
            # sqrt_one
            if isinstance(b, T):
                out.append(ir.or_b(ir.ne(prime(m), 1), ir.lt(b, 0), ir.ge(b, m), ir.ne(ir.mod(ir.mul(b, b), m), 1), ir.eq(b, 1), ir.eq(b, ir.sub(m, 1))))
            out.append(ir.or_b(ir.ne(prime(m), 1), ir.eq(ir.mod(b, m), 0), ir.ne(e, ir.sub(m, 1)), ir.eq(g, 1)))           # fermat
            if isinstance(e, T):
                out.append(ir.or_b(ir.ne(e, 2), ir.eq(g, ir.mod(ir.mul(b, b), m))))                 # power_two
            if isinstance(b, T) and b.op == 'app' and b.a[0] == 'powm' and b.a[3] is m:
                # fermat: b is c^f, and e f = m - 1
                c, f = b.a[1], b.a[2]
                out.append(ir.or_b(*(no + [ir.lt(f, 0), ir.eq(ir.mod(c, m), 0), ir.ne(ir.mul(e, f), ir.sub(m, 1)), ir.eq(g, 1)])))
    return out


def powm_pair(u, v):
    (b, e, m), (c, f, n) = u, v
    out = []
    if m is n and isinstance(m, T) and m.lo >= 1:
        g, h = (ir.APP_HOOKS['powm'](*x) for x in (u, v))
        bad = [ir.lt(e, 0), ir.ne(e, f)]
        # mul_pow: inverse powers of inverse bases
        out.append(ir.or_b(*(bad + [ir.ne(ir.mod(ir.sub(ir.mul(b, c), 1), m), 0), ir.eq(ir.mod(ir.sub(ir.mul(g, h), 1), m), 0)])))
        if ORDERS and b is c:
            # pow_next
            for (e1, g1), (f1, h1) in (((e, g), (f, h)), ((f, h), (e, g))):
                out.append(ir.or_b(ir.lt(e1, 0), ir.ne(f1, ir.add(e1, 1)), ir.eq(h1, ir.mod(ir.mul(g1, b), m))))
        if WITNESS and m in PRIMES:
            for (b, e, g), (c, f, h) in (((b, e, g), (c, f, h)), ((c, f, h), (b, e, g))):
                # square_power: (b^2)^f = b^(2f)
                if isinstance(b, T) and (c is ir.mul(b, b) or c is ir.mod(ir.mul(b, b), m)):
                    out.append(ir.or_b(ir.lt(e, 0), ir.lt(f, 0), ir.ne(e, ir.mul(2, f)), ir.eq(g, h)))
        if ROOTS and m in PRIMES:
            for (b, e, g), (c, f, h) in (((b, e, g), (c, f, h)), ((c, f, h), (b, e, g))):
                no = [ir.ne(prime(m), 1), ir.lt(m, 3), ir.lt(e, 0), ir.lt(f, 0)]
                # half_step
                out.append(ir.or_b(*(no + [ir.ne(ir.mod(ir.sub(b, c), m), 0), ir.ne(ir.mul(2, f), ir.add(e, 1)), ir.ne(g, 1), ir.eq(ir.mod(ir.sub(ir.mul(h, h), b), m), 0)])))
                # root5
                out.append(ir.or_b(*(no + [ir.ne(ir.mod(m, 8), 5), ir.ne(ir.mul(4, e), ir.sub(m, 1)), ir.ne(ir.add(ir.mul(2, f), 1), e), ir.ne(ir.mod(ir.sub(c, ir.mul(4, b)), m), 0),
                                           ir.ne(g, ir.sub(m, 1)), ir.and_b(ir.eq(ir.mod(ir.sub(ir.mul(4, ir.mul(ir.mul(b, b), ir.mul(h, h))), b), m), 0),
                                                    *[ir.eq(ir.mod(ir.sub(ir.mul(w, w), b), m), 0) for w in [ir.mod(ir.mul(2, ir.mul(b, h)), m)]])])))
    return out


solver.FACTS['powm'] = powm_facts
solver.PAIRS['powm'] = powm_pair


# ------------------------------------------------------------------ primes

ORDERS = []          # nonempty: contracts about multiplicative orders (lean/Order.lean)
WITNESS = []         # nonempty: contracts about Miller-Rabin (lean/Witness.lean)
ROOTS = []           # nonempty: contracts about square roots (lean/Roots.lean)
PRIMES = set()       # terms some contract calls prime
ir.APP_HOOKS['prime'] = lambda p: prime(p)


def is_prime(n):
    """exact: deterministic Miller-Rabin to 3.3e24, after that with 24 more bases (used on generated inputs and constants)"""
    if n < 2:
        return False
    small = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41)
    for q in small:
        if n % q == 0:
            return n == q
    s, r = 0, n - 1
    while r % 2 == 0:
        s, r = s + 1, r // 2
    for a in small + ((43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109) if n > 3 * 10 ** 24 else ()):
        y = pow(a, r, n)
        if y in (1, n - 1):
            continue
        for _ in range(s - 1):
            y = y * y % n
            if y == n - 1:
                break
        else:
            return False
    return True


def prime(p):
    """1 for primes, 0 for other integers"""
    if not isT(p):
        return int(is_prime(p))
    PRIMES.add(p)
    return ir._mk('app', ('prime', p), 0, 1)


def prime_facts(p):
    g = prime(p)
    return [ir.or_b(ir.ne(g, 1), ir.eq(p, 2), ir.eq(ir.mod(p, 2), 1)), ir.or_b(ir.ne(g, 1), ir.ge(p, 2))] if isinstance(g, T) else []


solver.FACTS['prime'] = prime_facts


# ------------------------------------------------------------------ Jacobi symbol

def jac_int(a, n):
    a, s = a % n, 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5):
                s = -s
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3:
            s = -s
        a %= n
    return s if n == 1 else 0


def jac(a, n):
    """jacobiSym a n, for odd n >= 1"""
    if isinstance(a, T):
        a = ir.mod(a, n)                # jac_mod
        while isinstance(a, T) and a.op == 'mod' and (a.a[1] is n or a.a[1] == n):
            a = a.a[0]
    if not isT(a, n):
        return jac_int(a, n)
    if isinstance(a, T):
        d = ir._terms(a)
        if len(d) == 1:
            (m, c), = d.items()
            if len(m) > 1 or c != 1:
                r = 1 if c == 1 else jac(c, n)      # jac_mul
                for x in m:
                    r = ir.mul(r, jac(x, n))
                return r
    return ir._mk('app', ('jac', a, n), -1, 1)


def odd3(n):
    return ir.and_b(ir.ge(n, 3), ir.eq(ir.mod(n, 2), 1))


def jac_facts(a, n):
    g = jac(a, n)
    if not isinstance(g, T) or g.op != 'app':
        return []
    bad = ir.not_(odd1(n))
    out = [ir.or_b(bad, ir.eq(n, 1), ir.ne(a, 0), ir.eq(g, 0)), ir.or_b(bad, ir.ne(a, 1), ir.eq(g, 1)),      # jac_zero, jac_one
           ir.or_b(bad, ir.eq(n, 1), ir.ne(ir.mod(a, n), 0), ir.eq(g, 0)), ir.or_b(ir.ne(n, 1), ir.eq(g, 1)), ir.or_b(bad, ir.ne(ir.mod(a, n), 1), ir.eq(g, 1))]
    if isinstance(a, T) and a.op == 'mod':
        out.append(ir.or_b(bad, ir.ne(a.a[1], n), ir.eq(g, jac(a.a[0], n))))                    # jac_mod
    if a == 2:
        out.append(ir.or_b(bad, ir.eq(g, two(n))))
    if n in PRIMES:
        out.append(ir.or_b(bad, ir.ne(prime(n), 1), ir.ne(g, 0), ir.eq(ir.mod(a, n), 0)))       # jac_zero_iff
    return out


def odd1(n):
    return ir.and_b(ir.ge(n, 1), ir.eq(ir.mod(n, 2), 1))


def two(n):
    return ir.ite(ir.or_b(ir.eq(ir.mod(n, 8), 1), ir.eq(ir.mod(n, 8), 7)), 1, -1)


def jac_pair(u, v):
    (a, n), (b, m) = u, v
    g, h = jac(a, n), jac(b, m)
    if not (isinstance(g, T) and g.op == 'app' and isinstance(h, T) and h.op == 'app'):
        return []
    out = []
    if n is m or n == m:
        bad = ir.not_(odd1(n))
        out.append(ir.or_b(bad, ir.ne(ir.mod(ir.sub(a, b), n), 0), ir.eq(g, h)))                # jac_mod
        for x, y, gx, gy in ((a, b, g, h), (b, a, h, g)):
            out.append(ir.or_b(bad, ir.ne(x, ir.mul(2, y)), ir.eq(gx, ir.mul(two(n), gy))))     # jac_mul, jac_two
    bad = ir.or_b(ir.not_(odd1(n)), ir.not_(odd1(m)), ir.ne(a, m), ir.ne(b, n))
    sw = ir.and_b(ir.eq(ir.mod(n, 4), 3), ir.eq(ir.mod(m, 4), 3))
    out.append(ir.or_b(bad, ir.eq(g, ir.ite(sw, ir.neg(h), h))))                                # jac_swap
    return out


solver.FACTS['jac'] = jac_facts
solver.PAIRS['jac'] = jac_pair
ir.APP_HOOKS['jac'] = jac


# ------------------------------------------------------------------ powers of two and bits (lean/Bits.lean)

def pow2(x):
    """1 for powers of two"""
    if not isT(x):
        return int(x > 0 and x & (x - 1) == 0)
    d = ir._terms(x)
    if len(d) == 1:
        (m, c), = d.items()
        if c > 1 and c & (c - 1) == 0 and len(m) == 1:
            return pow2(m[0])           # pow2_double
    return ir._mk('app', ('pow2', x), 0, 1)


def pow2_facts(x):
    g = pow2(x)
    if not isinstance(g, T):
        return []
    out = [ir.or_b(ir.ne(g, 1), ir.ge(x, 1)), ir.or_b(ir.ne(g, 1), ir.eq(x, 1), ir.eq(ir.mod(x, 2), 0)), ir.or_b(ir.ne(x, 1), ir.eq(g, 1))]
    if isinstance(x, T) and x.op == 'div' and x.a[1] in (2, 4):
        c, y = x.a[1], x.a[0]
        h = pow2(y)
        out.append(ir.or_b(ir.ne(h, 1), ir.lt(y, c), ir.eq(g, 1)))                              # pow2_half
        out.append(ir.or_b(ir.ne(h, 1), ir.lt(y, c), ir.eq(ir.mul(c, x), y)))                   # pow2_half
    return out


def pow2_pair(u, v):
    (x,), (y,) = u, v
    return [ir.or_b(ir.ne(a, ir.mul(2, b)), ir.eq(pow2(a), pow2(b))) for a, b in ((x, y), (y, x))]      # pow2_double


def hi(x, i):
    """the bits of x above the bit with value i; all of x for i = 0"""
    if not isT(x, i):
        return x // (2 * i) if i else x
    return ir._mk('app', ('hi', x, i), 0, ir.INF) if not isinstance(x, T) or x.lo >= 0 else ir._mk('app', ('hi', x, i), -ir.INF, ir.INF)


def hi_facts(x, i):
    g = hi(x, i)
    if not isinstance(g, T):
        return []
    bad = ir.or_b(ir.lt(i, 1), ir.lt(x, 0))
    return [ir.or_b(ir.ne(i, 0), ir.eq(g, x)), ir.or_b(bad, ir.ge(x, ir.mul(2, i)), ir.eq(g, 0)), ir.or_b(bad, ir.lt(x, ir.mul(2, i)), ir.ge(x, ir.mul(4, i)), ir.eq(g, 1)),     # hi_zero, hi_one
            ir.or_b(ir.ne(i, 1), bad, ir.eq(ir.add(ir.mul(2, g), ir.mod(x, 2)), x))] + (pow2_facts(i) if isinstance(i, T) else [])


def hi_pair(u, v):
    (x, i), (y, j) = u, v
    if x is not y and x != y:
        return []
    out = []
    for a, b in ((i, j), (j, i)):
        out.append(ir.or_b(ir.ne(a, ir.mul(2, b)), ir.ne(pow2(b), 1), ir.lt(x, 0),
                           ir.eq(hi(x, b), ir.add(ir.mul(2, hi(x, a)), ir.ite(ir.eq(ir.and_(x, a), 0), 0, 1)))))    # hi_step
        if b == 0 or isinstance(b, T) and b.lo <= 0:
            out.append(ir.or_b(ir.ne(a, 1), ir.ne(b, 0), ir.lt(x, 0),
                               ir.eq(hi(x, b), ir.add(ir.mul(2, hi(x, a)), ir.ite(ir.eq(ir.and_(x, a), 0), 0, 1)))))    # hi_last
    return out


solver.FACTS['pow2'] = pow2_facts
solver.PAIRS['pow2'] = pow2_pair
solver.FACTS['hi'] = hi_facts
solver.PAIRS['hi'] = hi_pair
ir.APP_HOOKS['pow2'] = pow2
ir.APP_HOOKS['hi'] = hi
