"""Symbolic stand-in: SHA-384 as an uninterpreted function of the whole message."""
from crypto.hash.hash import Hash


class SHA384(Hash):
    def __init__(self):
        self.name = 'SHA384'
        self.blocksize = 1
        self.raw_block_size = 128
        self.digest_size = 48
        self.strength = 0
        self.reset()

    def reset(self):
        self._data = ''

    def update(self, data):
        self._data = self._data + data

    def digest(self):
        return __uf__('sha384', 48, self._data)
