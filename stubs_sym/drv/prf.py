"""Symbolic stand-ins: arbitrary functions of key and data."""


class PRF48:
    digest_size = 48

    def __init__(self, key):
        self.key = key

    def __call__(self, data):
        return __uf__('prf48', 48, self.key, data)


class PRF7:
    digest_size = 7

    def __init__(self, key):
        self.key = key

    def __call__(self, data):
        return __uf__('prf7', 7, self.key, data)
