from cryptopy.cipher.common import xor
