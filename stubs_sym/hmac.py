"""Symbolic stand-in for the standard hmac module: a function of key and message for each hash module."""


class HMAC:
    def __init__(self, key, msg, digestmod):
        self.key = key
        self._msg = msg
        self.mod = digestmod

    def update(self, msg):
        self._msg = self._msg + msg

    def copy(self):
        return HMAC(self.key, self._msg, self.mod)

    def digest(self):
        return __uf__('hmac_' + self.mod.NAME, self.mod.digest_size, self.key, self._msg)


def new(key, msg='', digestmod=None):
    if digestmod is None:
        import md5
        digestmod = md5
    return HMAC(key, msg, digestmod)
