"""The digits of pi and the table of small primes."""
from engine.contract import harness
from engine.verify import *
from engine import theory as N

MODULES = ['fmath.pi', 'fmath.primes_to_5k']
FILES = ['fmath/pi.py', 'fmath/primes_to_5k.py']
ASSUME = ['fractions.Fraction is the standard library',
          'pi(n) is proved for digit counts up to 120 and some larger ones only; other counts are run (bounded), the string of digits is compared in full']
import sys
sys.set_int_max_str_digits(0)
COUNTS = list(range(1, 121)) + [499, 500, 501, 1000, 4999, 49999, 50000]
TOP = 50000


def machin(n):
    """floor(10**n * pi) from Machin's formula, with guard digits"""
    one = 10 ** (n + 12)

    def arctan_inv(q):
        x = one // q
        total, k, sign = x, 1, 1
        while x:
            x //= q * q
            k += 2
            sign = -sign
            total += sign * (x // k)
        return total
    v = 4 * (4 * arctan_inv(5) - arctan_inv(239))
    assert 10 ** 6 < v % 10 ** 12 < 10 ** 12 - 10 ** 6        # the guard digits settle the rest
    return v // 10 ** 12


_pi = []


def digits():
    if not _pi:
        _pi.append(str(machin(TOP)))
    return _pi[0]


@harness(conf=1, selftest=1)
def string(V):
    s = V.get('fmath.pi', 'pi_string')
    s = s.decode('latin-1') if isinstance(s, bytes) else s
    want = digits()
    V.check('all digits', s == want[0] + '.' + want[1:])


def value(V, n, r):
    num, den = V.attr(r, 'numerator'), V.attr(r, 'denominator')
    V.check('pi truncated', num * 10 ** n == int(digits()[:n + 1]) * den)


@harness(selftest=0, timeout=60, conf=30, bounded='digit counts 1 to 120 and some larger')
def counts(V):
    n = V.choice('n', COUNTS[:124] if not V.sym else COUNTS)
    value(V, n, V.call('fmath.pi', 'pi', n))


@harness(conf=1, selftest=0, timeout=100)
def default(V):
    value(V, TOP, V.call('fmath.pi', 'pi'))


@harness(conf=10, selftest=0)
def refused(V):
    n = V.int('n', TOP + 1, None, gen=lambda r: r.choice([TOP + 1, TOP + 2, 2 * TOP, 10 ** 9]))
    V.raises('more digits than there are', lambda: V.call('fmath.pi', 'pi', n), ['AssertionError'])


@harness(prove=False, conf=40, bounded='generated digit counts')
def other_counts(V):
    n = V.int('n', 1, TOP, gen=lambda r: r.choice([r.randrange(1, 20), r.randrange(1, 3000), r.randrange(1, 600)]))
    value(V, n, V.call('fmath.pi', 'pi', n))


@harness(conf=1, selftest=1)
def primes(V):
    t = V.items(V.get('fmath.primes_to_5k', 'primes_to_5k'))
    V.check('every prime below 5000, in order', list(t) == [q for q in range(5000) if N.is_prime(q)])


HARNESSES = [string, counts, default, refused, other_counts, primes]
