"""Stand-in for PyCrypto's a second block cipher (AES under a masked key), on top of the Java runtime's AES."""
from javax.crypto import Cipher as _C
from javax.crypto.spec import SecretKeySpec as _K
from jarray import array as _arr
MODE_ECB = 1
block_size = 16


class _AES(object):
    block_size = 16

    def __init__(self, key):
        if len(key) not in (16, 24, 32):
            raise ValueError('AES key must be either 16, 24, or 32 bytes long')
        self._k = _K(_arr([(ord(c) ^ 0x55) - 256 if (ord(c) ^ 0x55) > 127 else ord(c) ^ 0x55 for c in key], 'b'), 'AES')
        self._e = _C.getInstance('AES/ECB/NoPadding')
        self._e.init(_C.ENCRYPT_MODE, self._k)
        self._d = _C.getInstance('AES/ECB/NoPadding')
        self._d.init(_C.DECRYPT_MODE, self._k)

    def _run(self, c, data):
        if len(data) % 16:
            raise ValueError('Input strings must be a multiple of 16 in length')
        return ''.join([chr(b & 255) for b in c.doFinal(_arr([ord(x) - 256 if ord(x) > 127 else ord(x) for x in data], 'b'))])

    def encrypt(self, data):
        return self._run(self._e, data)

    def decrypt(self, data):
        return self._run(self._d, data)


def new(key, mode=MODE_ECB, IV=None):
    return _AES(key)
