"""Symbolic stand-in: AES as an uninterpreted function of key and block."""
MODE_ECB = 1
block_size = 16


class _AES(object):
    block_size = 16

    def __init__(self, key):
        if len(key) != 16 and len(key) != 24 and len(key) != 32:
            raise ValueError('AES key must be either 16, 24, or 32 bytes long')
        self._key = key

    def encrypt(self, data):
        if len(data) != 16:
            if len(data) % 16:
                raise ValueError('Input strings must be a multiple of 16 in length')
            return ''.join([__uf__('aes', 16, self._key, data[16 * i:16 * i + 16]) for i in range(len(data) // 16)])
        return __uf__('aes', 16, self._key, data)


def new(key, mode=MODE_ECB, IV=None):
    return _AES(key)
