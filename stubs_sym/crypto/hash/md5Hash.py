"""Symbolic stand-in: MD5 as an uninterpreted function of the whole message."""
from crypto.hash.hash import Hash


class MD5(Hash):
    def __init__(self):
        self.name = 'MD5'
        self.blocksize = 1
        self.raw_block_size = 64
        self.digest_size = 16
        self.strength = 0
        self.reset()

    def reset(self):
        self._data = ''

    def update(self, data):
        self._data = self._data + data

    def digest(self):
        return __uf__('md5', 16, self._data)
