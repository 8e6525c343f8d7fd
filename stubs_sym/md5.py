"""Symbolic stand-in for the standard md5 module (as the hash of hmac)."""
NAME = 'md5'
digest_size = 16
