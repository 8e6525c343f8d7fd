"""Stand-in for cryptopy's crypto.hash.sha384Hash (not part of the repository)."""
import hashlib
from crypto.hash.hash import Hash


class SHA384(Hash):
    def __init__(self):
        self.name = 'SHA384'
        self.blocksize = 1
        self.raw_block_size = 128
        self.digest_size = 48
        self.strength = 0
        self.reset()

    def reset(self):
        self._ = hashlib.sha384()

    def update(self, data):
        self._.update(data)

    def digest(self):
        return self._.digest()
