NA = {}  # property: why it is not claimed
LEVELS = {
    'C17': ('proof', 'proved for all primes congruent 3 and 7 modulo 8, and for square_root_mod_prime also 5 modulo 8; primes congruent 1 modulo 8 (and modular_sqrt for 5 modulo 8) are only run on generated primes (bounded, not counted as proved)'),
    'C18': ('proof', 'proved: Miller-Rabin and is_prime accept every prime, is_prime rejects multiples of 2 to 11, next_prime skips no accepted number, the table below 1232 (in full); bounded: exactness up to 2^64 and factorization are interpreted for small numbers and run on generated ones'),
    'C27': ('proof', 'proved: order_mod gives the least exponent for all units and moduli, carmichael_of_ppower for all prime powers; bounded: phi, carmichael and largest_factor_relatively_prime for small numbers in full and generated products'),
    'C22': ('proof', 'the constants of every named curve are checked in full by the solver and by independent arithmetic; multiplication by the order with the code itself and key pairs are run (bounded)'),
    'C23': ('proof', 'encodings and coordinate size proved for all curves and points; recovery of y proved for primes not congruent 1 modulo 8, the others are only run (bounded)'),
    'C24': ('proof', 'proved for all tables of length up to 64 (transform) and 8 (nonlinearity); longer tables and S-boxes are only run on generated inputs (bounded, not counted as proved)'),
    'C25': ('model_checking', 'bounded: the verifier covers every permutation of at most five elements, larger ones are only run on generated inputs'),
    'C26': ('proof', 'the stored digits and the prime table are compared in full with independent calculations; pi(n) is proved for the listed digit counts and for refusal of every larger one, other counts are run'),
}
TECH = {}
I = ['inputs']
H = ['inputs', 'histories']

prop('C01', 'ChaCha20 block function equals RFC 7539 for every key, nonce and counter',
     'For every 256-bit key, 96-bit nonce and 32-bit block counter, the 64 octets of key stream produced are those of the ChaCha20 block function of RFC 7539, and the quarter round on any four 32-bit words is the one of RFC 7539. Producing a block does not disturb the cipher object: asking again gives the same block. Keys and nonces of any other length are refused.',
     I, 'all keys, nonces, 32-bit counters; all octet strings of a wrong length', 'RFC vectors sample a handful of the 2^384 inputs; a carry or masking slip in one word survives them.',
     ['cipher/chacha_poly.py'], [('quarter round', 'chacha_q_round'), ('block function', 'ChaCha.chacha20_block'), ('state set-up', 'ChaCha.initialize')])
prop('C02', 'ChaCha20 encryption is correct for messages of every length and call sequence',
     'Encrypting a message of any length xors it with the key stream that starts at the initial counter and advances one block per 64 octets; decrypting with the same key, counter and nonce returns the message. Successive calls on one object continue at the next unused block, so a message cut at a block boundary encrypts to the same octets in two calls as in one.',
     H, 'all keys, nonces, counters, message lengths and contents within the 2^32-block limit, and pairs of successive calls', 'tests use three message lengths; boundaries at multiples of 64, empty messages and counter continuation need all lengths.',
     ['cipher/chacha_poly.py'], [('stream encryption loop', 'ChaCha.encrypt'), ('decryption', 'ChaCha.decrypt')])
prop('C03', 'Poly1305 tag equals RFC 7539 for every key and message',
     'For every 32-octet one-time key and message of any length, the tag is the RFC 7539 Poly1305 value: the clamped evaluation modulo 2^130-5 of the 17-octet blocks plus the second key half, as 16 little-endian octets. The one-time key derived from a key and nonce is the first half of ChaCha20 block zero.',
     I, 'all 32-octet keys and all messages of every length', 'the RFC vectors hit some carries; the final reduction, partial last blocks and clamping must hold for every value.',
     ['cipher/chacha_poly.py'], [('MAC', 'poly1305_mac'), ('clamping', 'clamp'), ('key generation', 'poly1305_key_gen'), ('number conversion', 'le_bytes_to_num, num_to_16_le_bytes')])
prop('C04', 'ChaCha20-Poly1305 AEAD composition and round trip',
     'For every key, constant, nonce part, associated data and plain text the AEAD produces the RFC 7539 cipher text and the tag over padded associated data, padded cipher text and both lengths. Decryption of that cipher text returns the plain text together with the same tag, so that a receiver can compare it with the one received.',
     I, 'all keys, nonces, associated data and messages of every length', 'only one RFC vector with one pair of lengths is tested; padding and length fields depend on both lengths modulo 16.',
     ['cipher/chacha_poly.py'], [('AEAD', 'ChaCha20_AEAD.encrypt, decrypt'), ('padding', 'pad16'), ('length fields', 'num_to_8_le_bytes')])
prop('C05', 'Integer and octet-string conversions are mutually inverse and length exact',
     'Converting a nonnegative integer to octets gives its big-endian base-256 digits, padded with leading zero octets to the requested length; converting back returns the integer, for every integer and length. Converting any octet string to an integer and back with its own length as padding returns the string, and xor of two strings acts octet by octet and is its own inverse.',
     I, 'all nonnegative integers, padding lengths and octet strings', 'examples cannot cover every digit count, leading zero and padding combination.',
     ['cipher/common.py', 'cipher/encoding.py', 'ecc/ecc.py'], [('conversion', 'int_to_string, string_to_int, number_to_string, string_to_number'), ('xor', 'xor')])
prop('C06', 'Base 27, 85 and 94 encodings are lossless',
     'For every octet string and each of the three alphabets, encoding then decoding with the original length gives the original octets back, and every encoded character belongs to the alphabet. Encoding two different strings of one length never gives the same text.',
     I, 'all octet strings of every length for each alphabet', 'round trips depend on leading zeros and on the digit count of the value, which samples miss.',
     ['cipher/encoding.py'], [('base conversion', 'b27encode, b85encode, b94encode and their decoders'), ('digits', 'int_to_string, string_to_int')])
prop('C07', 'AES-CMAC equals RFC 4493 for every key and message',
     'For every 16-octet key and message of any length the tag is the CMAC of RFC 4493 / SP 800-38B over the block cipher: subkeys by doubling in GF(2^128), last block completed or padded, chained encryption. This holds for any 16-octet block permutation in place of AES.',
     I, 'all keys and messages of every length, arbitrary block cipher', 'the subkey carry case and leading zero octets in intermediate blocks occur for rare keys; tests use one key.',
     ['cipher/aes_cmac.py', 'cipher/common.py'], [('MAC', 'aes_cmac'), ('subkeys', 'subkey')])
prop('C08', 'AES-SIV authenticates and round-trips as RFC 5297',
     'For every key, list of associated strings and plain text, sealing yields the RFC 5297 synthetic IV followed by the counter-mode cipher text, and opening it with the same key and associated strings returns the plain text. Opening anything whose recomputed IV differs is refused and no plain text is returned.',
     I, 'all keys, associated data vectors and messages of every length', 'S2V branches on message length around one block and on counter masking; the RFC has two vectors.',
     ['cipher/aes_siv.py', 'cipher/aes_cmac.py'], [('S2V', 's2v'), ('seal and open', 'siv_encrypt, siv_decrypt, AES_SIV')])
prop('C09', 'HMAC equals RFC 2104 for every key and any chunking of the data',
     'For every key of any length, including keys longer than a hash block, and any data split over any updates, the keyed hash is the RFC 2104 HMAC of the concatenated data. The one-shot functions for SHA-1 and MD5 agree with it, and resetting or re-keying discards everything fed before.',
     H, 'all keys, data, and sequences of updates', 'keys at, below and above the block size and update sequences are unbounded.',
     ['hash/hmac.py'], [('inner and outer hash', 'HMAC.setKey, HMAC.update, HMAC.digest'), ('one shot', 'HMAC_SHA1, HMAC_MD5')])
prop('C10', 'PBKDF2 equals RFC 2898 for every password, salt, count and length',
     'For every password, salt, iteration count of at least one and output length, the derived key is the RFC 2898 PBKDF2 output of exactly the requested length, for any pseudorandom function, as long as the password has at most 63 octets and the key at most 10000; longer ones are refused. Pass phrase to pre-shared-key mapping is PBKDF2-HMAC-SHA1 with the SSID as salt, 4096 iterations and 32 octets, and pass phrases of fewer than 8 or more than 63 characters are refused.',
     I, 'all passwords, salts, counts and output lengths', 'block count rounding and xor folding depend on lengths and counts tests do not reach.',
     ['hash/pbkdf2.py'], [('derivation', 'pbkdf2, pbkdf2_F'), ('pass phrase mapping', 'dot11PassPhraseToPSK')])
prop('C11', 'IEEE 802.11 PRF output is the keyed hash stream of the standard',
     'For every key, label, data and length in bits that is a multiple of eight, the output consists of the leading octets of the concatenated HMAC-SHA1 values over label, zero octet, data and block index, and has exactly the requested length. Shorter outputs are prefixes of longer ones.',
     I, 'all keys, labels, data strings and lengths', 'five vectors sample two lengths.',
     ['hash/prf_dot11.py'], [('PRF', 'PRF')])
prop('C12', 'Michael and the TKIP message integrity code follow IEEE 802.11',
     'For every 8-octet key and message of any length the Michael value is the one of IEEE 802.11: the message followed by 0x5a and zeros to a multiple of four octets, 32-bit little-endian words, the keyed block function on each. The value depends only on the key set last and the message, whatever was computed before. The TKIP code is Michael over destination, source, priority, three zero octets and data (in the D2 version over destination, source and data). Keys of another length, priorities outside 0..15 and addresses of another length are refused.',
     H, 'all keys, messages of every length, and earlier messages or keys on the same object', 'padding depends on length modulo 4 and the word loop is unbounded.',
     ['hash/michael.py', 'hash/tkip_mic.py'], [('Michael', 'Michael.setKey, Michael.hash, b'), ('TKIP MIC', 'TKIP_MIC.hash')])
prop('C13', 'TKIP per-packet keys follow the two mixing phases with correct caching',
     'For every temporal key, transmitter address and 48-bit sequence counter the 16-octet per-packet key is the phase 1 and phase 2 mixing of IEEE 802.11. The mixer object gives that key for any order of setting keys, addresses and requesting keys: cached phase 1 output is never stale.',
     H, 'all keys, addresses, sequence counters and call sequences on one mixer', 'staleness shows only for particular orders of calls and counter wraps.',
     ['hash/tkip_key_mixing.py'], [('phase 1 and 2', 'phase1KeyMixing, phase2KeyMixing'), ('cache', 'TKIP_Mixer')])
prop('C14', 'Prime field elements obey the field laws',
     'For every prime modulus and all elements, results of addition, subtraction, multiplication, division, negation and exponentiation equal the corresponding operations on integers modulo the prime, with values kept between 0 and p-1; mixing elements with plain integers gives the same. Operands are never modified.',
     I, 'all primes, all elements, all integer operands', 'tests check one or two primes.',
     ['fmath/galoisfield.py'], [('field element arithmetic', 'GFpElement operators'), ('inverse', 'GFpElement.inverse')])
prop('C15', 'Modular inverse, gcd and lcm are correct for all integers',
     'For every modulus and every integer coprime to it, the modular inverse is the unique reduced value whose product with it is 1; the greatest common divisor and least common multiple of any numbers are the true ones, for two arguments, many or a list.',
     I, 'all integers and all argument lists', 'Euclid iterations are unbounded.',
     ['ecc/numbertheory.py', 'fmath/galoisfield.py'], [('inverse', 'inverse_mod'), ('gcd and lcm', 'gcd, gcd2, lcm, lcm2')])
prop('C16', 'Jacobi symbol is correct for every integer and odd modulus',
     'For every integer and every odd modulus of at least three the computed symbol is the Jacobi symbol; for prime moduli it is the Legendre symbol: 0 for multiples, 1 for quadratic residues, -1 otherwise.',
     I, 'all integers and odd moduli', 'the recursion depends on residues mod 4 and 8 in combination.',
     ['ecc/numbertheory.py', 'ecc/ellipticcurve.py'], [('symbol', 'jacobi')])
prop('C17', 'Modular square roots really are square roots',
     'For every odd prime and every residue, whatever value the modular square root routines return is a reduced residue whose square is congruent to the argument, and zero maps to zero. Residues are never refused and non-residues always are: square_root_mod_prime raises its error, modular_sqrt reports the refusal by returning zero.',
     I, 'all odd primes and all residues', 'each residue class of p mod 8 takes another path.',
     ['ecc/numbertheory.py'], [('square roots', 'square_root_mod_prime, modular_sqrt')])
prop('C18', 'Primality test, next prime and factorization agree with arithmetic',
     'Neither the primality test nor the Miller-Rabin witness test ever rejects a prime, and below two to the 64 the primality test is exact. The next prime is greater than its argument, is accepted by the primality test and no number accepted by it lies between. Factorization of every integer of at least two returns increasing factors, each accepted as prime, with positive exponents, whose product is the number.',
     I, 'all integers', 'trial division and witness loops are unbounded in the input.',
     ['ecc/numbertheory.py', 'fmath/prime.py'], [('primality', 'is_prime, rabin_miller'), ('factorization', 'factorization'), ('next prime', 'next_prime')])
prop('C19', 'Weierstrass point addition is the group law',
     'For every curve and all points on it, addition, doubling, negation and subtraction give the chord-and-tangent results with reduced coordinates that lie on the curve again; the point at infinity is neutral on both sides and a point plus its negative is infinity. Operands are never changed.',
     I, 'all prime moduli, curve coefficients and pairs of points', 'tests exercise a few named curves and miss exceptional pairs.',
     ['ecc/ecc.py', 'ecc/ellipticcurve.py'], [('group law', 'SmallWeierstrassPoint.add, double, negate; Point.__add__, double')])
prop('C20', 'Scalar multiplication equals repeated addition',
     'For every point in the subgroup of the curve order and every integer scalar, the scalar multiple is the sum of that many copies of the point, with zero giving infinity. Points returned have reduced coordinates.',
     I, 'all scalars and points', 'recoding bugs show for particular bit patterns of scalars.',
     ['ecc/ecc.py', 'ecc/ellipticcurve.py'], [('scalar multiplication', 'scalar_multiple, __mul__, __rmul__'), ('recoding', 'NAF')])
prop('C21', 'Edwards and Montgomery point addition obey their curve equations',
     'On twisted Edwards and Montgomery curves, sums, doubles and negatives of curve points satisfy the curve equation and equal the published addition formulas, with the neutral element neutral. Operands are never changed.',
     I, 'all prime moduli, coefficients and pairs of points', 'these curve classes are hardly tested.',
     ['ecc/ecc.py'], [('Edwards addition', 'EdwardsPoint'), ('Montgomery addition', 'MontgomeryPoint')])
prop('C22', 'Published curve parameters describe valid curves with the claimed base point',
     'Each provided named curve has a prime field, a nonsingular equation, a base point on the curve, and, where an order is given, an order that annihilates the base point; the identifiers and object identifiers of different curves are distinct. On the curves that can make private keys, a generated private key times the generator is a public point on the curve.',
     ['configurations'], 'every named curve', 'a digit error in a constant of a curve no test uses goes unnoticed.',
     ['ecc/curves.py', 'ecc/ecc.py'], [('constants', 'curve classes and instances')])
prop('C23', 'Point encodings decode to the same point',
     'The raw encoding of an affine point is its x then its y coordinate, each big-endian and padded with leading zero octets to the coordinate size, which is the number of octets of the field prime; so the two halves decode to the coordinates. The octet string of a point is the unpadded octets of x and then of y. A coordinate that does not fit is refused. Recovering y from x yields a y with which x is a point on the curve, or refuses when there is none.',
     I, 'all points on all supported curves', 'leading zero octets hit few tested points, and recovery of y takes a path per residue class of the prime.',
     ['ecc/ecc.py', 'ecc/ellipticcurve.py'], [('encoding', 'Point.encode, toOctets, to_octetstring'), ('coordinate size', 'EllipticCurveFp.__init__'), ('recovery of y', 'SmallWeierstrassCurveFp.y_from_x')])
prop('C24', 'Walsh transform and S-box nonlinearity figures match their definitions',
     'For every Boolean table whose length is a power of two of at least two the transform returns for each mask the sum over all inputs of the signed products. The nonlinearity of a table is its minimum Hamming distance to the affine functions, and the figures for an S-box are the least and the greatest nonlinearity over its nonzero output masks.',
     I, 'all tables of power-of-two length', 'one S-box is evaluated by the scripts, nothing checks the transform.',
     ['analysis/walshtransform.py', 'analysis/sbox_nonlinearity.py'], [('transform', 'walshtransform'), ('nonlinearity', 'sbox_nonlinearity')])
prop('C25', 'Permutation orbits partition the domain',
     'For every permutation given as a table the orbits found are the cycles of that permutation: each element lies in exactly one, and their lengths add up to the size of the table.',
     I, 'all permutations of every size', 'only the AES S-box is ever tried.',
     ['analysis/permutation.py'], [('orbits', 'permutation orbit functions')])
prop('C26', 'Digits of pi and the small prime table are exact',
     'For any positive count of digits up to the stored ones the value returned for pi is pi truncated to that many digits as documented, and more are refused. The table of primes lists every prime below its bound, and nothing else, in order.',
     ['inputs', 'configurations'], 'all digit counts; every table entry', 'tests look at neither.',
     ['fmath/pi.py', 'fmath/primes_to_5k.py'], [('pi', 'pi digits'), ('table', 'primes')])
prop('C27', 'Euler totient, Carmichael function and multiplicative orders are correct',
     'For every positive integer the totient counts the units, the Carmichael function is the exponent of the group of units, the order of a unit is the least positive power equal to one, and the largest factor prime to a second number is exact.',
     I, 'all positive integers', 'repeated prime factors and powers of two take special paths.',
     ['ecc/numbertheory.py'], [('totient', 'phi'), ('Carmichael', 'carmichael, carmichael_of_ppower'), ('order', 'order_mod, largest_factor_relatively_prime')])
