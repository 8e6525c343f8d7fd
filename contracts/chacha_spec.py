"""ChaCha20 / Poly1305 from RFC 7539, as executable specifications over concrete or symbolic values."""
M32 = 0xffffffff
CONST = (0x61707865, 0x3320646e, 0x79622d32, 0x6b206574)
P1305 = (1 << 130) - 5


def rotl(x, n):
    return ((x << n) & M32) | (x >> (32 - n))


def quarter(a, b, c, d):
    a = (a + b) & M32
    d = rotl(d ^ a, 16)
    c = (c + d) & M32
    b = rotl(b ^ c, 12)
    a = (a + b) & M32
    d = rotl(d ^ a, 8)
    c = (c + d) & M32
    b = rotl(b ^ c, 7)
    return a, b, c, d


ROUNDS = [(0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)]


def state0(V, key, ctr, nonce):
    return list(CONST) + [V.le(V.sl(key, 4 * i, 4 * i + 4)) for i in range(8)] + [ctr] + [V.le(V.sl(nonce, 4 * i, 4 * i + 4)) for i in range(3)]


def block_of_state(V, st):
    w = list(st)
    for _ in range(10):
        for q in ROUNDS:
            r = quarter(*[w[i] for i in q])
            for i, x in zip(q, r):
                w[i] = x
    return V.cat(*[V.to_le((x + y) & M32, 4) for x, y in zip(st, w)])


def block(V, key, ctr, nonce):
    return block_of_state(V, state0(V, key, ctr, nonce))
