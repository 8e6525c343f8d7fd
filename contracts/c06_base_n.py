"""Base 27, 85 and 94 text encodings: cipher.encoding."""
from engine.contract import harness
from engine.verify import *

MODULES = ['cipher.encoding']
FILES = ['cipher/encoding.py']
M = 'cipher.encoding'
ASSUME = ['strings shorter than 2^48 octets']
LEAN = ['Digits.lean']
A27 = b'ABCDEFGHJKMNPQRTWXYZ2346789'
A85 = b'0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~'
A94 = bytes(range(33, 127))
KINDS = [('b27encode', 'b27decode', A27), ('b85encode', 'b85decode', A85), ('b94encode', 'b94decode', A94)]


def dig(V, x, b, e):
    d = V.fdiv(x, V.power(b, e))
    return ir.mod(d, b) if V.sym else d % b


@harness()
def text(V):
    """the text is the digits of the value, most significant first, none leading zero"""
    enc, dec, al = V.choice('alphabet', KINDS)
    n = V.nat('n', 0)
    s, N = V.digits('s', n)
    b = len(al)
    V.pool(lambda k: V.fdiv(N, V.power(256, n - k)))
    t = V.call(M, enc, s)
    m = V.len(t)
    V.eq('digits', t, V.run(m, lambda i: V.pick(al, dig(V, N, b, m - 1 - i))))
    V.check('enough digits', N < V.power(b, m))
    V.check('no digit too many', V.either(V.eqv(m, 0), V.power(b, m) <= b * N))


@harness()
def round_trip(V):
    """decoding with the original length gives the octets back"""
    enc, dec, al = V.choice('alphabet', KINDS)
    n = V.nat('n', 1)
    s, N = V.digits('s', n)
    b = len(al)
    V.pool(lambda k: V.fdiv(N, V.power(256, n - k)))
    t = V.call(M, enc, s)
    m = V.len(t)
    V.pool(lambda k: V.fdiv(N, V.power(b, m - k)))
    V.eq('octets', V.call(M, dec, t, n), s)


@harness()
def foreign_character_refused(V):
    """a text with a character outside the alphabet is refused"""
    enc, dec, al = V.choice('alphabet', KINDS)
    n = V.nat('n', 0, 1 << 20)
    c = V.choice('c', [x for x in range(256)])
    V.assume(c not in al)
    V.raises('refused', lambda: V.call(M, dec, V.bytes_of([c])))


HARNESSES = [text, round_trip, foreign_character_refused]
