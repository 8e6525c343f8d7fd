"""Pseudorandom functions for the contracts of PBKDF2 (which works with any)."""
import hmac, hashlib


class PRF48:
    digest_size = 48

    def __init__(self, key):
        self.key = key

    def __call__(self, data):
        return hmac.new(self.key, data, hashlib.sha384).digest()


class PRF7:
    digest_size = 7

    def __init__(self, key):
        self.key = key

    def __call__(self, data):
        return hmac.new(self.key, data, hashlib.sha1).digest()[:7]
