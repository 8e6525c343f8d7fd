"""Stand-in for cryptopy's crypto.hash.hash (not part of the repository): the incremental hash base class."""
class Hash:
    def __init__(self):
        raise NotImplementedError('abstract')

    def __call__(self, data, more=None):
        return self.hash(data, more)

    def hash(self, data, more=None):
        if more is None:
            self.reset()
        self.update(data)
        digest = self.digest()
        return digest
