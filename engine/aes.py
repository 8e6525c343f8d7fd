"""AES block encryption from FIPS 197 (reference for the concrete runs)."""
import os, runpy
_ns = runpy.run_path(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'stubs', 'crypto', 'cipher', 'rijndael.py'))
S = _ns['Sbox']


def xt(a):
    a <<= 1
    return (a ^ 0x11b) & 0xff if a & 0x100 else a


_keys = {}


def expand(key):
    k = _keys.get(key)
    if k is None:
        nk = len(key) // 4
        nr = nk + 6
        w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
        rc = 1
        for i in range(nk, 4 * (nr + 1)):
            t = list(w[i - 1])
            if i % nk == 0:
                t = [S[x] for x in t[1:] + t[:1]]
                t[0] ^= rc
                rc = xt(rc)
            elif nk > 6 and i % nk == 4:
                t = [S[x] for x in t]
            w.append([a ^ b for a, b in zip(w[i - nk], t)])
        k = [sum(w[4 * r:4 * r + 4], []) for r in range(nr + 1)]
        _keys[key] = k
    return k


def encrypt(key, block):
    if len(key) not in (16, 24, 32):
        raise ValueError('key')
    rk = expand(bytes(key))
    s = [a ^ b for a, b in zip(block, rk[0])]
    for r in range(1, len(rk)):
        s = [S[x] for x in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r != len(rk) - 1:
            o = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                t = a[0] ^ a[1] ^ a[2] ^ a[3]
                o += [a[i] ^ t ^ xt(a[i] ^ a[(i + 1) % 4]) for i in range(4)]
            s = o
        s = [a ^ b for a, b in zip(s, rk[r])]
    return bytes(s)


assert encrypt(bytes.fromhex('000102030405060708090a0b0c0d0e0f'), bytes.fromhex('00112233445566778899aabbccddeeff')).hex() == '69c4e0d86a7b0430d8cdb78070b4c55a'
