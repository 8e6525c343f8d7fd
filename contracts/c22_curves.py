"""Published curve parameters: ecc.curves."""
from engine.contract import harness
from engine.verify import *
from engine import theory as N

C = 'ecc.curves'
MODULES = [C, 'ecc.ecc', 'ecc.ellipticcurve', 'ecc.numbertheory']
FILES = ['ecc/curves.py', 'ecc/ecc.py', 'ecc/ellipticcurve.py']
ASSUME = ['primality of the field sizes and orders: Miller-Rabin with 41 fixed bases (exact below 3.3e24)',
          'the multiple of the base point is computed by an independent implementation of the published addition laws; the code of the repository computes it only in the runs (its scalar multiplication is C20)',
          'key pairs are only run, with the random source of the platform']
NAMES = '''SECP_192r1 SECP_224r1 SECP_256k1 SECP_256r1 SECP_384r1 SECP_521r1 NIST_P192 NIST_P224 NIST_P256 NIST_P384 NIST_P521
WAPI SWP256CCAO01 SWP256SM2 GOST2001_test GOST2001_CryptoPro_A GOST2001_CryptoPro_B GOST2001_CryptoPro_C
GOST2012_test GOST2012_tc26_A GOST2012_tc26_B GOSTmsg05975te GOSTmsg05975sw FRP256v1
BrainPoolP160r1 BrainPoolP160t1 BrainPoolP192r1 BrainPoolP192t1 BrainPoolP224r1 BrainPoolP224t1 BrainPoolP256r1 BrainPoolP256t1
BrainPoolP320r1 BrainPoolP320t1 BrainPoolP384r1 BrainPoolP384t1 BrainPoolP512r1 BrainPoolP512t1
Curve25519 Ed25519 E382 M383 Curve3617 M511 E521'''.split()
MONTGOMERY, EDWARDS = ['Curve25519', 'M383', 'M511'], ['Ed25519', 'E382', 'Curve3617', 'E521', 'GOSTmsg05975te']
RENAMED = {'NIST_P192': 'SECP_192r1', 'NIST_P224': 'SECP_224r1', 'NIST_P256': 'SECP_256r1', 'NIST_P384': 'SECP_384r1', 'NIST_P521': 'SECP_521r1'}
# field sizes as published, where they have a short form
PRIMES = {'SECP_192r1': 2 ** 192 - 2 ** 64 - 1, 'SECP_224r1': 2 ** 224 - 2 ** 96 + 1, 'SECP_256k1': 2 ** 256 - 2 ** 32 - 977,
          'SECP_256r1': 2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1, 'SECP_384r1': 2 ** 384 - 2 ** 128 - 2 ** 96 + 2 ** 32 - 1, 'SECP_521r1': 2 ** 521 - 1,
          'Curve25519': 2 ** 255 - 19, 'Ed25519': 2 ** 255 - 19, 'E382': 2 ** 382 - 105, 'M383': 2 ** 383 - 187, 'Curve3617': 2 ** 414 - 17,
          'M511': 2 ** 511 - 187, 'E521': 2 ** 521 - 1, 'GOSTmsg05975te': 2 ** 512 - 569, 'GOSTmsg05975sw': 2 ** 512 - 569}


def chord(a2, a4):
    """addition on y^2 = x^3 + a2 x^2 + a4 x + a6, None is infinity"""
    def add(P, Q, p):
        if P is None or Q is None:
            return Q if P is None else P
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            l = (3 * P[0] ** 2 + 2 * a2 * P[0] + a4) * pow(2 * P[1], -1, p)
        else:
            l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p)
        x = (l * l - a2 - P[0] - Q[0]) % p
        return x, (l * (P[0] - x) - P[1]) % p
    return add, None


def edwards(a, d):
    def add(P, Q, p):
        m = d * P[0] * P[1] * Q[0] * Q[1]
        return (P[0] * Q[1] + P[1] * Q[0]) * pow(1 + m, -1, p) % p, (P[1] * Q[1] - a * P[0] * Q[0]) * pow(1 - m, -1, p) % p
    return add, (0, 1)


def times(n, P, law, p):
    add, R = law
    while n > 0:
        if n & 1:
            R = add(R, P, p)
        P = add(P, P, p)
        n >>= 1
    return R


def constants(V, name):
    c = V.call(C, name)
    g = lambda k: V.attr(c, k)
    return c, g


def parameters(name):
    @harness(conf=1, selftest=0)
    def h(V):
        c, g = constants(V, name)
        p, n, x, y, cof = g('p'), g('n'), g('xG'), g('yG'), g('h')
        V.check('prime field', p > 3 and N.is_prime(p))
        if name in PRIMES:
            V.check('field size', p == PRIMES[name])
        V.check('reduced coordinates', 0 <= x < p and 0 <= y < p)
        if name in EDWARDS:
            a, d = g('a'), g('d')
            V.check('nonsingular', a * d * (a - d) % p != 0)
            V.check('base point on the curve', (a * x * x + y * y - 1 - d * x * x * y * y) % p == 0)
            law = edwards(a, d)
        elif name in MONTGOMERY:
            a = g('a')
            V.check('nonsingular', (a * a - 4) % p != 0)
            V.check('base point on the curve', (y * y - x ** 3 - a * x * x - x) % p == 0)
            law = chord(a, 1)
        else:
            a, b = g('a'), g('b')
            V.check('nonsingular', (4 * a ** 3 + 27 * b * b) % p != 0)
            V.check('base point on the curve', (y * y - x ** 3 - a * x - b) % p == 0)
            law = chord(0, a)
        V.check('prime order', N.is_prime(n))
        try:
            V.check('order annihilates the base point', (x, y) != law[1] and times(n, (x, y), law, p) == law[1])
        except ValueError:
            V.check('order annihilates the base point', False)
        V.check('cofactor', (cof * n - p - 1) ** 2 <= 4 * p)
        G = V.method(c, 'generator')
        V.check('generator', V.attr(G, 'x') == x and V.attr(G, 'y') == y)
        V.check('identified', isinstance(V.plainval(g('curveId')), (str, bytes)) and isinstance(g('strength'), int))
        if V.plainval(g('oid')) is not None:
            V.check('object identifier', all(isinstance(i, int) and i >= 0 for i in V.plainval(g('oid'))))
    h.name = 'parameters_' + name
    return h


@harness(conf=1, selftest=0)
def distinct(V):
    """identifiers and object identifiers of different curves differ"""
    ids, oids, eqs = {}, {}, {}
    for name in NAMES:
        if name in RENAMED:
            continue
        c, g = constants(V, name)
        k = V.plainval(g('curveId'))
        ids.setdefault(k, []).append(name)
        o = V.plainval(g('oid'))
        if o is not None:
            oids.setdefault(tuple(o), []).append(name)
        eqs.setdefault((g('p'), g('xG'), g('yG')), []).append(name)
    for d, what in ((ids, 'identifiers'), (oids, 'object identifiers'), (eqs, 'curves')):
        V.check(what + ' differ', all(len(v) == 1 for v in d.values()))


@harness(conf=1, selftest=0)
def renamed(V):
    """a NIST curve is the SECP curve it renames"""
    for n, s in RENAMED.items():
        c, d = V.call(C, n), V.call(C, s)
        V.check(n, all(V.attr(c, k) == V.attr(d, k) for k in ('p', 'a', 'b', 'xG', 'yG', 'n', 'h')))


@harness(prove=False, conf=len(NAMES), timeout=60)
def multiple(V):
    """the code itself: (n-1) G + G is the neutral element, and n-1 times G is minus G"""
    name = V.choice('name', NAMES)
    c, g = constants(V, name)
    G = V.method(c, 'generator')
    H = V.op('*', G, g('n') - 1)
    M = V.neg(G)
    V.check('one less than the order', V.attr(H, 'x') == V.attr(M, 'x') and V.attr(H, 'y') == V.attr(M, 'y'))
    V.check('order', V.attr(V.op('+', H, G), 'x') == V.attr(V.attr(c, 'IDENTITY'), 'x'))


@harness(prove=False, conf=30, timeout=60)
def key_pair(V):
    """a private key made by the curve gives a public point on the curve"""
    name = V.choice('name', [n for n in NAMES if n not in MONTGOMERY + EDWARDS])
    c, g = constants(V, name)
    k = V.method(c, 'new_private_key')
    V.check('private key', 0 <= k < 256 ** V.attr(c, 'coord_size'))
    Q = V.op('*', k, V.method(c, 'generator'))
    x, y, p = V.attr(Q, 'x'), V.attr(Q, 'y'), g('p')
    V.check('on the curve', x is None or (y * y - x ** 3 - g('a') * x - g('b')) % p == 0)


HARNESSES = [parameters(n) for n in NAMES] + [distinct, renamed, multiple, key_pair]
