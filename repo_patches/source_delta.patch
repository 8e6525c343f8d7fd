From c179d54bd300d914de50154478e56a8e1b7cbfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:16 +0000
Subject: [PATCH 01/33] fix: AEAD decryption calculates the tag over the
 received cipher text

---
 cipher/chacha_poly.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cipher/chacha_poly.py b/cipher/chacha_poly.py
index 7ec1698..173ef10 100644
--- a/cipher/chacha_poly.py
+++ b/cipher/chacha_poly.py
@@ -553,8 +553,12 @@ class ChaCha20_AEAD(object):
         return (cipher_text, tag)
     
     def decrypt(self, aad, iv, cipher_text):
-        """ decrypt is same as encrypt """
-        return self.encrypt(aad, iv, cipher_text)
+        """ decrypt is same as encrypt, except that the tag is
+            calculated over the received cipher text """
+        nonce = self.constant + iv
+        plain_text = ChaCha(self.__key, counter=1, nonce=nonce).decrypt( cipher_text )
+        tag = ChaCha20_AEAD.encrypt(self, aad, iv, plain_text)[1]
+        return (plain_text, tag)
     
 class ChaCha_Poly_AEAD(ChaCha20_AEAD):
     """ """
-- 
2.43.0


From 552cf77061d3faa9240e4ab1722057bdc425dd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:59 +0000
Subject: [PATCH 02/33] fix: combined ChaCha20-Poly1305 AEAD format used
 undefined names and returned nothing

---
 cipher/chacha_poly.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cipher/chacha_poly.py b/cipher/chacha_poly.py
index 173ef10..75c2843 100644
--- a/cipher/chacha_poly.py
+++ b/cipher/chacha_poly.py
@@ -561,16 +561,22 @@ class ChaCha20_AEAD(object):
         return (plain_text, tag)
     
 class ChaCha_Poly_AEAD(ChaCha20_AEAD):
-    """ """
+    """ AEAD with a single octet string: iv | cipher text | tag """
+    tag_length = 16
+
     def encrypt(self, aad, iv, plain_text):
-        cipher_text, tag = super().encrypt(aad, iv, plain_text)
+        cipher_text, tag = super(ChaCha_Poly_AEAD, self).encrypt(aad, iv, plain_text)
         return iv + cipher_text + tag
     
     def decrypt(self, aad, iv_cipher_text_tag):
-        iv = iv_cipher_text_tag[0:]
-        tag = iv_cipher_text_tag[-tag_length:]
-        plain_text, calculated_tag = super().encrypt(aad, iv, plain_text)
+        iv_length = 12 - len(self.constant)
+        assert len(iv_cipher_text_tag) >= iv_length + self.tag_length
+        iv = iv_cipher_text_tag[:iv_length]
+        cipher_text = iv_cipher_text_tag[iv_length:-self.tag_length]
+        tag = iv_cipher_text_tag[-self.tag_length:]
+        plain_text, calculated_tag = super(ChaCha_Poly_AEAD, self).decrypt(aad, iv, cipher_text)
         assert tag == calculated_tag
+        return plain_text
 
 
     """
-- 
2.43.0


From 5a68c7d6ad799bbeab25a9d64fe6175fea486e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:09:25 +0000
Subject: [PATCH 03/33] fix: ecc int_to_string ignored padto for zero

---
 ecc/ecc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index e51ac1a..984bf7c 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -309,8 +309,7 @@ def int_to_string( x, padto=None ):
         If 'padto' defined, result is zero padded to this length.
     """
     assert x >= 0
-    if x == 0: return chr(0)
-    result = ""
+    result = chr(0) if x == 0 else ""
     while x > 0:
         q, r = divmod( x, 256 )
         result = chr( r ) + result
-- 
2.43.0


From f83c3a98c49ae194a9f92e6b1e87c0ad0558a223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:09:25 +0000
Subject: [PATCH 04/33] fix: b27decode, b85decode and b94decode ignored padto

---
 cipher/encoding.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cipher/encoding.py b/cipher/encoding.py
index 01e50a8..a580f3a 100644
--- a/cipher/encoding.py
+++ b/cipher/encoding.py
@@ -68,7 +68,7 @@ def b27encode(octet_string):
     
 def b27decode(text_string, padto=None):
     """Decode a text string 's' using 27 characters. """
-    return base_N_decode(text_string, _b27chars )
+    return base_N_decode(text_string, _b27chars, padto )
 
 _b85chars = "0123456789" \
             "ABCDEFGHIJKLMNOPQRSTUVWXYZ" \
@@ -85,7 +85,7 @@ def b85encode(octet_string):
 
 def b85decode(text_string, padto=None):
     """Decode a text string 's' using 85 character alphabet. """
-    return base_N_decode(text_string, _b85chars )
+    return base_N_decode(text_string, _b85chars, padto )
     
 ascii_printable = ''.join( [chr(i) for i in range(33,127)] )    
 def b94encode(octet_string):
@@ -94,7 +94,7 @@ def b94encode(octet_string):
 
 def b94decode(text_string, padto=None):
     """Decode a text string using all ASCII non-space printable characters. """
-    return base_N_decode(text_string, ascii_printable )    
+    return base_N_decode(text_string, ascii_printable, padto )    
     
 if __name__ == '__main__':
     """ Examples of text encodings for 128 bit and 48 bits (USID and SID)
-- 
2.43.0


From 5c7f288be51cb227d9be07d13d0ecd377d6863f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:59 +0000
Subject: [PATCH 05/33] fix: CMAC subkeys with leading zero octets were too
 short

---
 cipher/aes_cmac.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cipher/aes_cmac.py b/cipher/aes_cmac.py
index 55b1610..99e0817 100644
--- a/cipher/aes_cmac.py
+++ b/cipher/aes_cmac.py
@@ -54,8 +54,8 @@ def subkey(key, CIPH=AES):
     else:      # xor only if high bit set
         k2 = ((k1<<1) & 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF) ^ 0x87 
 
-    k1 = int_to_string(k1)
-    k2 = int_to_string(k2)
+    k1 = int_to_string(k1, padto=block_size)
+    k2 = int_to_string(k2, padto=block_size)
     return k1, k2
 
 def pad(octet_string, block_size=16):
-- 
2.43.0


From 4d3edb69eef9ccfe54154aaa6e2db31367daf6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:59 +0000
Subject: [PATCH 06/33] fix: aes_cmac derived the subkeys with AES whatever
 cipher was passed

---
 cipher/aes_cmac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cipher/aes_cmac.py b/cipher/aes_cmac.py
index 99e0817..d92f462 100644
--- a/cipher/aes_cmac.py
+++ b/cipher/aes_cmac.py
@@ -22,7 +22,7 @@ def aes_cmac(key, M, CIPH=AES):
     block_size = ciph.block_size
     assert block_size == 16 # only 128 bit (16 octet) blocks supported!!
     
-    k1, k2 = subkey(key)
+    k1, k2 = subkey(key, CIPH)
     blocks, leftover = divmod(len(M), block_size)
   
     if leftover == 0 and blocks > 0:         # if last block is a complete block
-- 
2.43.0


From 372fe4ffbc7b2b7c40fd7592058f610674a3dc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:52:15 +0000
Subject: [PATCH 07/33] fix: HMAC zero-pads hashed long keys to the block size
 (RFC 2104)

---
 hash/hmac.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hash/hmac.py b/hash/hmac.py
index d13b4ac..7720947 100755
--- a/hash/hmac.py
+++ b/hash/hmac.py
@@ -45,9 +45,8 @@ class HMAC(Hash):
     def setKey(self,key):
         """ setKey(key) ... key is binary string """
         if len(key) > self.B:   # if key is too long then hash it
-            key = self.H(key)   # humm... this is odd, hash can be smaller than B
-        else:                   # should raise error on short key, but breaks tests :-(
-            key =key + (self.B-len(key)) * chr(0)
+            key = self.H(key)   # the hash can be smaller than B
+        key = key + (self.B-len(key)) * chr(0)
         self.k_xor_ipad = ''.join([chr(ord(bchar)^0x36) for bchar in key])
         self.k_xor_opad = ''.join([chr(ord(bchar)^0x5C) for bchar in key])
         self.keyed = 1
-- 
2.43.0


From 64519ace49db7c80296f8a15bb9786e4e2ab4aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:52:15 +0000
Subject: [PATCH 08/33] fix: PBKDF2 block count is an integer

---
 hash/pbkdf2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/pbkdf2.py b/hash/pbkdf2.py
index 848d325..4661d41 100755
--- a/hash/pbkdf2.py
+++ b/hash/pbkdf2.py
@@ -22,7 +22,7 @@ def pbkdf2(password, salt, iterations, keySize, PRF=HMAC_SHA1):
 		raise 'keySize too long for PBKDF2'
 
 	prf = PRF(key=password)  # HMAC_SHA1
-	numBlocks = ceil(1.*keySize/prf.digest_size) # ceiling function
+	numBlocks = int(ceil(1.*keySize/prf.digest_size)) # ceiling function
 	key = ''
 	for block in range(1,numBlocks+1):
 		# Calculate F(P, salt, iterations, i)
-- 
2.43.0


From 9a989f9f2453af65d737d89f3f7b45b3469da99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:52:15 +0000
Subject: [PATCH 09/33] fix: the 802.11 PRF uses the standard hmac module, not
 its sibling

---
 hash/prf_dot11.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hash/prf_dot11.py b/hash/prf_dot11.py
index c5c5c66..dba5bb7 100755
--- a/hash/prf_dot11.py
+++ b/hash/prf_dot11.py
@@ -7,6 +7,7 @@ The parameter 'prefix' is a string that shall be a unique label for each
 different purpose of the PRF.
 """
 
+from __future__ import absolute_import
 import hmac, sha        # available in any Python 2.x
 
 def PRF( key, prefix, data, number_of_bits):
-- 
2.43.0


From be07813c28606c05e90cd5240a28e77ff8590863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:52:15 +0000
Subject: [PATCH 10/33] fix: TKIP WEP seed starts with TSC1, as the 802.11 test
 vectors show

---
 hash/tkip_key_mixing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hash/tkip_key_mixing.py b/hash/tkip_key_mixing.py
index 3a748b1..fa9b168 100755
--- a/hash/tkip_key_mixing.py
+++ b/hash/tkip_key_mixing.py
@@ -122,9 +122,9 @@ def phase2KeyMixing(tk,p1k,pn):
     ppk[5] = (ppk[5] + rotR1(ppk[4])) & 0xFFFF
 
     rc4Key = range(16)
-    rc4Key[0] =  pn[0]
-    rc4Key[1] = (pn[0] | 0x20) & 0x7F
-    rc4Key[2] =  pn[1]
+    rc4Key[0] =  pn[1]
+    rc4Key[1] = (pn[1] | 0x20) & 0x7F
+    rc4Key[2] =  pn[0]
     rc4Key[3] = 0xFF &((ppk[5]^(tk[1]*256+tk[0]))>>1)
     for i in range(6):
         rc4Key[4+2*i] = ppk[i] & 0xff
-- 
2.43.0


From 91ee10cc031c18488cc6525f9898469a5741cb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:52:15 +0000
Subject: [PATCH 11/33] fix: TKIP_Mixer remembers which sequence octets its
 phase 1 key belongs to

---
 hash/tkip_key_mixing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hash/tkip_key_mixing.py b/hash/tkip_key_mixing.py
index fa9b168..4f57933 100755
--- a/hash/tkip_key_mixing.py
+++ b/hash/tkip_key_mixing.py
@@ -56,6 +56,7 @@ class TKIP_Mixer:
         # for readability of subroutines, make tk a list of 1 octet ints
         self.tk = [ord(byte) for byte in key]
         if self.ta != None : # reset phase1 value
+            self.upper4SequenceOctets = self.pnBytes[-4:]
             self.phase1Key = phase1KeyMixing( self.tk, self.ta, self.pn)
 
     def setTA(self, taBytes):
@@ -63,6 +64,7 @@ class TKIP_Mixer:
         if len(taBytes) != 6: raise 'Bad size for transmitterAddress'
         self.ta = [ord(byte) for byte in taBytes]
         if self.tk != None : # reset phase1 value
+            self.upper4SequenceOctets = self.pnBytes[-4:]
             self.phase1Key = phase1KeyMixing( self.tk, self.ta, self.pn )
 
     def setPnBytes(self, pnBytes):
-- 
2.43.0


From d6c5592a818c690e4c7a5084e7ed5ee9e0dc92eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:23:31 +0000
Subject: [PATCH 12/33] fix: gcd and lcm of negative numbers, zeros and
 one-element lists

---
 ecc/numbertheory.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index 3b9fc68..dc4579b 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -300,7 +300,7 @@ def gcd2(a, b):
     """Greatest common divisor using Euclid's algorithm."""
     while a:
         a, b = b%a, a
-    return b
+    return abs( b )
 
 
 def gcd( *a ):
@@ -311,14 +311,15 @@ def gcd( *a ):
         """
     
     if len( a ) > 1: return reduce( gcd2, a )
-    if hasattr( a[0], "__iter__" ): return reduce( gcd2, a[0] )
-    return a[0]
+    if hasattr( a[0], "__iter__" ): return reduce( gcd2, a[0], 0 )
+    return abs( a[0] )
 
 
 def lcm2(a,b):
     """Least common multiple of two integers."""
     
-    return (a*b)/gcd(a,b)
+    if a == 0 or b == 0: return 0
+    return abs(a*b)/gcd(a,b)
 
 
 def lcm( *a ):
@@ -329,8 +330,8 @@ def lcm( *a ):
         """
     
     if len( a ) > 1: return reduce( lcm2, a )
-    if hasattr( a[0], "__iter__" ): return reduce( lcm2, a[0] )
-    return a[0]
+    if hasattr( a[0], "__iter__" ): return reduce( lcm2, a[0], 1 )
+    return abs( a[0] )
 
 
 def factorization( n ):
-- 
2.43.0


From 64b5cc55a2924e988abbaf59deed77eb66bbbf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:23:31 +0000
Subject: [PATCH 13/33] fix: inverse_mod modulo one returns the reduced value

---
 ecc/numbertheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index dc4579b..0185189 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -292,7 +292,7 @@ def inverse_mod( a, m ):
     # If d == 1, this means that ud is a inverse.
     
     assert d == 1
-    if ud > 0: return ud
+    if ud >= 0: return ud
     else: return ud + m
 
 
-- 
2.43.0


From 2e5ae4c5c4bbb4b48e8a023905235a056a540019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:38:42 +0000
Subject: [PATCH 14/33] fix: inverse of negative integers in GF(p)

---
 fmath/galoisfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fmath/galoisfield.py b/fmath/galoisfield.py
index 9abfa2a..fb4927f 100644
--- a/fmath/galoisfield.py
+++ b/fmath/galoisfield.py
@@ -93,7 +93,7 @@ def egcd(a, b):
         return (g, x - (b // a) * y, y)
 
 def inverse_mod(a, m):
-    g, x, y = egcd(a, m)
+    g, x, y = egcd(a % m, m)
     if g != 1:
         raise Exception('modular inverse does not exist')
     else:
-- 
2.43.0


From fede12544306fa47410743a89546d2452f0d7b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:38:42 +0000
Subject: [PATCH 15/33] fix: GFp.is_element names the field's prime and accepts
 zero

---
 fmath/galoisfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fmath/galoisfield.py b/fmath/galoisfield.py
index fb4927f..c5947e2 100644
--- a/fmath/galoisfield.py
+++ b/fmath/galoisfield.py
@@ -26,7 +26,7 @@ class GFp:
         return Element_of_GFp(self, value)
         
     def is_element(self, x):
-        return (p > x > 0)
+        return (self.p > x >= 0)
         
     def inverse(self, x):
         return inverse_mod(x, self.p)
-- 
2.43.0


From dd49c20138d9160b27b420106203e4cd40bb338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:46:54 +0000
Subject: [PATCH 16/33] fix: negative exponents of GF(p) elements

---
 fmath/galoisfield.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fmath/galoisfield.py b/fmath/galoisfield.py
index c5947e2..6d4cdd1 100644
--- a/fmath/galoisfield.py
+++ b/fmath/galoisfield.py
@@ -67,6 +67,8 @@ class Element_of_GFp:
         return self.gf(int(other) * self.gf.inverse(self.value))
     
     def __xor__(self, other):
+        if int(other) < 0:
+            return (1 / self) ^ -int(other)
         return self.gf(self.value ** int(other))
     
     def __rxor__(self, other):
-- 
2.43.0


From ae6d93d6f484ae30e1adde85810eb48968a1f276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:25:36 +0000
Subject: [PATCH 17/33] fix: negated Weierstrass points have reduced
 coordinates and minus infinity is infinity

---
 ecc/ecc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 984bf7c..b6c5184 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -62,7 +62,9 @@ class SmallWeierstrassCurveFp( EllipticCurveFp ):
 
     def negate(curve, point):
         """ Negate a point """
-        return curve.point( point.x, -point.y )
+        if point == curve.IDENTITY:
+            return point
+        return curve.point( point.x, -point.y % curve.p )
 
     def double_point(curve, point):
         """Return a new point that is twice the old (X9.62 B.3)."""
-- 
2.43.0


From 55e4bfc28fa71acaf172c12b1749ee85cc2edca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:25:37 +0000
Subject: [PATCH 18/33] fix: doubling infinity or a Weierstrass point of order
 two gives infinity

---
 ecc/ecc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index b6c5184..87932f8 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -70,6 +70,8 @@ class SmallWeierstrassCurveFp( EllipticCurveFp ):
         """Return a new point that is twice the old (X9.62 B.3)."""
         p = curve.p; a = curve.a; inv = curve.inverse
         x = point.x; y = point.y
+        if point == curve.IDENTITY or y % p == 0:
+            return curve.IDENTITY
 
         l = ( (3*x*x + a) * inv(2*y) ) % p
         x3 = (l*l - 2*x) % p
-- 
2.43.0


From 5264925abb304f75f39e72e1b479e5b4045076dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:25:37 +0000
Subject: [PATCH 19/33] fix: the neutral element of Edwards curves is (0,1)

---
 ecc/ecc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 87932f8..4401b66 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -186,7 +186,7 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
 
     def identity(curve):
         """ The additive identity """
-        return curve.point(0,-1)
+        return curve.point(0,1)
 
 class EdwardsCurveFp( TwistedEdwardsCurveFp ):
     """ An Edwards curve is a Twisted Edwards curve with a = 1
-- 
2.43.0


From 566613bdc4c5a5b697352cf6b4ba41cc7e2abf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:25:37 +0000
Subject: [PATCH 20/33] fix: negated Edwards points have reduced coordinates

---
 ecc/ecc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 4401b66..17ae41b 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -161,7 +161,7 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
 
     def negate(curve, p):
         """ Negate a point """
-        return curve.point(-p.x, p.y)
+        return curve.point(-p.x % curve.p, p.y)
 
     def double_point(curve, point):
         """ Return a new point that is twice the old """
-- 
2.43.0


From fcd60066da695fd4b48a4ab724b30b5fce155cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:25:37 +0000
Subject: [PATCH 21/33] fix: Edwards scalar multiplication called an undefined
 method; negative scalars

---
 ecc/ecc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 17ae41b..afaa845 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -178,7 +178,9 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
     def scalar_multiple(curve, point, scalar):
         if scalar == 0:
             return curve.IDENTITY
-        q = curve.scalarmult(point, scalar/2)
+        if scalar < 0:
+            return curve.scalar_multiple(-point, -scalar)
+        q = curve.scalar_multiple(point, scalar/2)
         q = q + q
         if scalar & 1:
             q = q + point
-- 
2.43.0


From 510901ad693a2624e4886ee8a778ba3e6e524b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:25:37 +0000
Subject: [PATCH 22/33] fix: Montgomery curves: infinity is the neutral
 element, negation changes y

---
 ecc/ecc.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index afaa845..975b546 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -222,8 +222,8 @@ class MontgomeryCurveFp( EllipticCurveFp ):
             if y1 == y2:
                 return p1.double()
             else:
-                assert y1 + y2 == 0
-                return p1
+                assert ( y1 + y2 ) % p == 0
+                return curve.IDENTITY
         l = (y2-y1)*inv(x2-x1)
         x3 = l**2 - a - x1 - x2
         y3 = l*(x1 - x3) - y1
@@ -231,13 +231,17 @@ class MontgomeryCurveFp( EllipticCurveFp ):
 
     def negate(curve, p1):
         """ Negate a point """
-        return curve.point(-p1.x % p, p1.y)
+        if p1 == curve.IDENTITY:
+            return p1
+        return curve.point(p1.x, -p1.y % curve.p)
 
     def double_point(curve, point):
         """ Return a new point that is twice the old
         """
         x1 = point.x; y1 = point.y; a = curve.a; inv = curve.inverse
         p = curve.p
+        if point == curve.IDENTITY or y1 % p == 0:
+            return curve.IDENTITY
 
         l = (3*x1*x1 + 2*a*x1 + 1)*inv(2*y1)
         x3 = l*l - a - 2*x1
@@ -254,8 +258,8 @@ class MontgomeryCurveFp( EllipticCurveFp ):
         return q
 
     def identity(curve):
-        """ The additive identity """
-        return curve.point(0,-1)
+        """ The additive identity, the point at infinity """
+        return curve.point(None, None, validate=False)
 
     def montgomery_ladder(curve, scalar, point):
         """ Scalar multiplication on a Montgomery curve
-- 
2.43.0


From 847c61272943a4b388c9df4836e5be1b7b4f5fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:25:37 +0000
Subject: [PATCH 23/33] fix: Montgomery scalar multiplication by negative
 scalars

---
 ecc/ecc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 975b546..ce494a0 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -251,6 +251,8 @@ class MontgomeryCurveFp( EllipticCurveFp ):
     def scalar_multiple(curve, point, scalar):
         if scalar == 0:
             return curve.IDENTITY
+        if scalar < 0:
+            return curve.scalar_multiple(-point, -scalar)
         q = curve.scalar_multiple(point, scalar/2)
         q = q + q
         if scalar & 1:
-- 
2.43.0


From 8b8d8470eaca723dff3b3b9bd233cdab7dde3560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:44:44 +0000
Subject: [PATCH 24/33] fix: the Edwards curve equation had y for y squared

---
 ecc/ecc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index ce494a0..b4a3632 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -147,7 +147,7 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
 
         #return  (a*x**2 + y*y - 1 - d*x*x*y*y)  % p == 0
         xx = x*x
-        return  (a*xx - 1 + y*(1 - d*xx*y))  % p == 0
+        return  (a*xx - 1 + y*y*(1 - d*xx))  % p == 0
 
     def add_points(curve, p1, p2):
         """ Add two points on the curve """
-- 
2.43.0


From 670d8d8cdad0d18d9223a9d767e2ce0437ed642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:33:02 +0000
Subject: [PATCH 25/33] fix: multiples of Weierstrass points of even order have
 reduced coordinates

---
 ecc/ecc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index b4a3632..76bf05f 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -96,7 +96,7 @@ class SmallWeierstrassCurveFp( EllipticCurveFp ):
         assert e > 0
 
         e3 = 3 * e
-        negative_self = curve.point( point.x, -point.y )
+        negative_self = -point
         i = leftmost_bit( e3 ) / 2
         result = point
         while i > 1:
-- 
2.43.0


From 48733b6c46bc78e76087cebf571f1ae772252e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:12:09 +0000
Subject: [PATCH 26/33] fix: permutation orbit functions can be called

---
 analysis/permutation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/analysis/permutation.py b/analysis/permutation.py
index 3b01743..9c96558 100644
--- a/analysis/permutation.py
+++ b/analysis/permutation.py
@@ -7,6 +7,7 @@
 
 class permutation(object):
 
+    @staticmethod
     def map_orbits_of_permutation(permutation):
         """ Creates a dictionary of permutation orbits indexed by the first element of the cycle/orbit """
         gdict = {}     # a dictionary of the orbits indexed by the first orbit element
@@ -28,6 +29,7 @@ class permutation(object):
                 pass
         return gdict
 
+    @staticmethod
     def orbit_start_and_length(permutation):
         """ Returns a list of tuples (orbit start, orbit size) """
         v=[]
@@ -36,6 +38,9 @@ class permutation(object):
             v.append( [i, len(z[i])] )
         return v
 
+map_orbits_of_permutation = permutation.map_orbits_of_permutation
+orbit_start_and_length = permutation.orbit_start_and_length
+
 
 
 # The AES Sbox
-- 
2.43.0


From 216db3d39018a6e75b522879ad114e997a01e199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:12:09 +0000
Subject: [PATCH 27/33] fix: square roots modulo primes too large for range()

---
 ecc/numbertheory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index 0185189..9536ff2 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -172,12 +172,14 @@ def square_root_mod_prime( a, p ):
         if d == p-1: return ( 2 * a * modular_exp( 4*a, (p-5)/8, p ) ) % p
         raise RuntimeError, "Shouldn't get here."
     
-    for b in range( 2, p ):
+    b = 2
+    while b < p:
         if jacobi( b*b-4*a, p ) == -1:
             f = ( a, -b, 1 )
             ff = polynomial_exp_mod( ( 0, 1 ), (p+1)/2, f, p )
             assert ff[1] == 0
             return ff[0]
+        b = b + 1
     raise RuntimeError, "No b found."
 
 def modular_sqrt(a, p):
-- 
2.43.0


From f0b6fa1af5fffa5fb726e992c54ac8814926d5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:12:09 +0000
Subject: [PATCH 28/33] fix: multiplicative order of numbers congruent to one
 but not reduced

---
 ecc/numbertheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index 9536ff2..95f9884 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -449,7 +449,7 @@ def order_mod( x, m ):
     
     assert gcd( x, m ) == 1
     
-    z = x
+    z = x % m
     result = 1
     while z != 1:
         z = ( z * x ) % m
-- 
2.43.0


From 19d799848a9f23b93e31a1e2c3f6f16bf77db8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:12:09 +0000
Subject: [PATCH 29/33] fix: point encodings used an undefined function

---
 ecc/ellipticcurve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecc/ellipticcurve.py b/ecc/ellipticcurve.py
index eb6d2fc..5e03b8f 100755
--- a/ecc/ellipticcurve.py
+++ b/ecc/ellipticcurve.py
@@ -98,6 +98,7 @@ class Point(object):
     # === below should be refactored ===
     def encode(self, encode='raw'):
         """ Encode a point (usually for public keys) """
+        from ecc import int_to_string    # ecc imports this module
         if encode == 'raw':   # encode both x and y sequentially
             return int_to_string(self.x, padto=self.curve.coord_size) + int_to_string(self.y, padto=self.curve.coord_size)
         else:
@@ -105,10 +106,12 @@ class Point(object):
 
     def toOctets(self):
         """ Encode point as x coordinate """
+        from ecc import int_to_string    # ecc imports this module
         return int_to_string(self.x)
 
     def to_octetstring(self): # Used???
         """ Encode point as x and y octetstring """
+        from ecc import int_to_string    # ecc imports this module
         octetstring = int_to_string(self.x) + int_to_string(self.y)
         return octetstring
 
-- 
2.43.0


From 0f40d915835e0d767c115bb56c7090db6d9b7933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:12:09 +0000
Subject: [PATCH 30/33] fix: secp521r1 had the identifier of secp256r1

---
 ecc/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/curves.py b/ecc/curves.py
index f5b4746..abb4371 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -405,7 +405,7 @@ class NIST_P384(SECP_384r1): # NIST renamed secp384r1
   
 class SECP_521r1( SmallWeierstrassCurveFp ):
     """ Suite B curve for 256 bit security """
-    curveId = 'secp256r1'
+    curveId = 'secp521r1'
     strength = 256
     oid = (1,3,132,0,35)  # {iso(1) identified-organization(3) certicom(132) curve(0) 35}
     # p = 2**251 - 1   #  a Mersenne prime
-- 
2.43.0


From 5ec302b98c9028cbf06024fd8259e676102ecf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:12:27 +0000
Subject: [PATCH 31/33] fix: M511 had no coefficient and M383 no object
 identifier

---
 ecc/curves.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/curves.py b/ecc/curves.py
index abb4371..089bef7 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -693,6 +693,7 @@ class M383( MontgomeryCurveFp ):
     """ y**2 == x**3+2065150*x**2+x mod 2**383-187 """
     curveId = 'm383'
     strength = 190
+    oid = None
     p = 2**383-187
     a = 2065150
     xG = 0xc  #  12
@@ -718,6 +719,7 @@ class M511( MontgomeryCurveFp ):
     strength = 254
     oid = None
     p  = 2**511-187
+    a  = 530438
     xG = 5
     yG = 2500410645565072423368981149139213252211568685173608590070979264248275228603899706950518127817176591878667784247582124505430745177116625808811349787373477
     n  = 2**508 + 10724754759635747624044531514068121842070756627434833028965540808827675062043
-- 
2.43.0


From 7246d55a02c64fb26d799d292117caa9a9248336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:12:27 +0000
Subject: [PATCH 32/33] fix: GOST msg05975 curves had the order of another
 group

---
 ecc/curves.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ecc/curves.py b/ecc/curves.py
index 089bef7..0b05d0d 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -335,8 +335,7 @@ class GOSTmsg05975te( TwistedEdwardsCurveFp ):
     a = 1  # was e in msg
     n  = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF26336E91941AAC0130CEA7FD451D40B323B6A79E9DA6849A5188F3BD1FC08FB4
     q  = 0x3FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC98CDBA46506AB004C33A9FF5147502CC8EDA9E7A769A12694623CEF47F023ED
-    #???
-    n  = 0x40000000000000000000000000000000000000000000000000000000000000003673245b9af954ffb3cc5600aeb8afd33712561858965ed96b9dc310b80fdaf7
+    n  = q   # order of the base point, the whole group has h*q points
     xG = 0x12
     yG = 0x469AF79D1FB1F5E16B99592B77A01E2A0FDFB0D01794368D9A56117F7B38669522DD4B650CF789EEBF068C5D139732F0905622C04B2BAAE7600303EE73001A3D
     h = 4  # n = h*q
@@ -361,8 +360,8 @@ class GOSTmsg05975sw( SmallWeierstrassCurveFp ):
     b = 0xB4C4EE28CEBC6C2C8AC12952CF37F16AC7EFB6A9F69F4B57FFDA2E4F0DE5ADE038CBC2FFF719D2C18DE0284B8BFEF3B52B8CC7A5F5BF0A3C8D2319A5312557E1
     xG = 0xE2E31EDFC23DE7BDEBE241CE593EF5DE2295B7A9CBAEF021D385F7074CEA043AA27272A7AE602BF2A7B9033DB9ED3610C6FB85487EAE97AAC5BC7928C1950148
     yG = 0xF5CE40D95B5EB899ABBCCFF5911CB8577939804D6527378B8C108C3D2090FF9BE18E2D33E3021ED2EF32D85822423B6304F726AA854BAE07D0396E9A9ADDC40F
-    n  = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF26336E91941AAC0130CEA7FD451D40B323B6A79E9DA6849A5188F3BD1FC08FB4
     q  = 0x3FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC98CDBA46506AB004C33A9FF5147502CC8EDA9E7A769A12694623CEF47F023ED
+    n  = q   # order of the base point, the whole group has h*q points
     h = 4
 
     
-- 
2.43.0


From 34e33ac45c946bdabb291b80fd361d6362e6a79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:12:27 +0000
Subject: [PATCH 33/33] fix: Ed25519 had the base point of Curve25519 and a
 singular equation

---
 ecc/curves.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ecc/curves.py b/ecc/curves.py
index 0b05d0d..7ab237e 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -661,16 +661,16 @@ class Curve25519( MontgomeryCurveFp ):
     h  = 8
     
     
-class Ed25519( EdwardsCurveFp ):
-    """ (x**2 + y**2) % p == (1 + 121665/121666)*x**2 * y**2) % p """
+class Ed25519( TwistedEdwardsCurveFp ):
+    """ (-x**2 + y**2) % p == (1 - (121665/121666)*x**2 * y**2) % p """
     curveId = 'Ed25519'
     strength = 126
     oid = None
     p  = 2**255 - 19
-    d =  1      #  d = (121665/121666) % p
-    xG = 9
-    yG = 14781619447589544791020593568409986887264606134616475288964881837755586237401
-    yG = 0x20ae19a1b8a086b4e01edd2c7748d14c923d4d7e6d7c61b229e9c5a27eced3d9
+    a  = -1
+    d  = 37095705934669439343138083508754565189542113879843219016388785533085940283555  # (-121665/121666) % p
+    xG = 15112221349535400772501151409588531511454012693041857206046113283949847762202
+    yG = 46316835694926478169428394003475163141307993866256225615783033603165251855960  # (4/5) % p
     n  = 2**252 + 27742317777372353535851937790883648493 
     h  = 8     
        
-- 
2.43.0

