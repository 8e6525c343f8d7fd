"""Symbolic stand-in for the standard sha module (as the hash of hmac)."""
NAME = 'sha'
digest_size = 20
