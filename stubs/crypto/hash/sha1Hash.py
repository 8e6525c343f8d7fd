"""Stand-in for cryptopy's crypto.hash.sha1Hash (not part of the repository)."""
import hashlib
from crypto.hash.hash import Hash


class SHA1(Hash):
    def __init__(self):
        self.name = 'SHA1'
        self.blocksize = 1
        self.raw_block_size = 64
        self.digest_size = 20
        self.strength = 0
        self.reset()

    def reset(self):
        self._ = hashlib.sha1()

    def update(self, data):
        self._.update(data)

    def digest(self):
        return self._.digest()
