"""Stand-in for cryptopy's binascii_plus."""
from binascii import a2b_hex, b2a_hex, hexlify, unhexlify
