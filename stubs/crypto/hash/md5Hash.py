"""Stand-in for cryptopy's crypto.hash.md5Hash (not part of the repository)."""
import hashlib
from crypto.hash.hash import Hash


class MD5(Hash):
    def __init__(self):
        self.name = 'MD5'
        self.blocksize = 1
        self.raw_block_size = 64
        self.digest_size = 16
        self.strength = 0
        self.reset()

    def reset(self):
        self._ = hashlib.md5()

    def update(self, data):
        self._.update(data)

    def digest(self):
        return self._.digest()
