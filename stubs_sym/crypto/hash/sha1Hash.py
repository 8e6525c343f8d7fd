"""Symbolic stand-in: SHA-1 as an uninterpreted function of the whole message."""
from crypto.hash.hash import Hash


class SHA1(Hash):
    def __init__(self):
        self.name = 'SHA1'
        self.blocksize = 1
        self.raw_block_size = 64
        self.digest_size = 20
        self.strength = 0
        self.reset()

    def reset(self):
        self._data = ''

    def update(self, data):
        self._data = self._data + data

    def digest(self):
        return __uf__('sha1', 20, self._data)
