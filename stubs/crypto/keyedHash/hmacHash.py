from cryptopy.hash.hmac import HMAC, HMAC_SHA1, HMAC_MD5
