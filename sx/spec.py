"""Reference definitions, written from the standards, over terms.

FIPS 180-4 (SHA-1, SHA-2), RFC 8439 (ChaCha20, Poly1305, AEAD).
"""
from .terms import const, add, and_, xor, or_, not_, rotl_c, rotr_c, lshr_c, concat, extract

# ------------------------------------------------------------------ FIPS 180-4 constants


def _primes(n):
    out = []
    k = 2
    while len(out) < n:
        if all(k % p for p in out):
            out.append(k)
        k += 1
    return out


def _icbrt(n):
    lo, hi = 0, 1 << ((n.bit_length() + 2) // 3 + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** 3 <= n:
            lo = m
        else:
            hi = m - 1
    return lo


def _isqrt(n):
    import math
    return math.isqrt(n)


def cbrt_frac(p, bits):
    return _icbrt(p << (3 * bits)) & ((1 << bits) - 1)


def sqrt_frac(p, bits):
    return _isqrt(p << (2 * bits)) & ((1 << bits) - 1)


K256 = [cbrt_frac(p, 32) for p in _primes(64)]
K512 = [cbrt_frac(p, 64) for p in _primes(80)]
IV = {
    "sha1": [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0],
    "sha256": [sqrt_frac(p, 32) for p in _primes(8)],
    "sha224": [sqrt_frac(p, 64) & 0xffffffff for p in _primes(16)[8:]],
    "sha512": [sqrt_frac(p, 64) for p in _primes(8)],
    "sha384": [sqrt_frac(p, 64) for p in _primes(16)[8:]],
}
WORD = {"sha1": 32, "sha224": 32, "sha256": 32, "sha384": 64, "sha512": 64, "sha512_224": 64, "sha512_256": 64}
DIGEST = {"sha1": 20, "sha224": 28, "sha256": 32, "sha384": 48, "sha512": 64, "sha512_224": 28, "sha512_256": 32}


def sha1_compress(h, w):
    """h: 5 terms of 32 bits, w: 16 message words"""
    w = list(w)
    for t in range(16, 80):
        w.append(rotl_c(xor(w[t - 3], w[t - 8], w[t - 14], w[t - 16]), 1))
    a, b, c, d, e = h
    for t in range(80):
        if t < 20:
            f = xor(and_(b, c), and_(not_(b), d)); k = 0x5a827999
        elif t < 40:
            f = xor(b, c, d); k = 0x6ed9eba1
        elif t < 60:
            f = xor(and_(b, c), and_(b, d), and_(c, d)); k = 0x8f1bbcdc
        else:
            f = xor(b, c, d); k = 0xca62c1d6
        x = add(rotl_c(a, 5), f, e, const(k, 32), w[t])
        e, d, c, b, a = d, c, rotl_c(b, 30), a, x
    return [add(x, y) for x, y in zip(h, (a, b, c, d, e))]


def sha2_compress(h, w, bits):
    if bits == 32:
        K, n = K256, 64
        S0 = lambda x: xor(rotr_c(x, 2), rotr_c(x, 13), rotr_c(x, 22))
        S1 = lambda x: xor(rotr_c(x, 6), rotr_c(x, 11), rotr_c(x, 25))
        s0 = lambda x: xor(rotr_c(x, 7), rotr_c(x, 18), lshr_c(x, 3))
        s1 = lambda x: xor(rotr_c(x, 17), rotr_c(x, 19), lshr_c(x, 10))
    else:
        K, n = K512, 80
        S0 = lambda x: xor(rotr_c(x, 28), rotr_c(x, 34), rotr_c(x, 39))
        S1 = lambda x: xor(rotr_c(x, 14), rotr_c(x, 18), rotr_c(x, 41))
        s0 = lambda x: xor(rotr_c(x, 1), rotr_c(x, 8), lshr_c(x, 7))
        s1 = lambda x: xor(rotr_c(x, 19), rotr_c(x, 61), lshr_c(x, 6))
    w = list(w)
    for t in range(16, n):
        w.append(add(s1(w[t - 2]), w[t - 7], s0(w[t - 15]), w[t - 16]))
    a, b, c, d, e, f, g, hh = h
    for t in range(n):
        ch = xor(and_(e, f), and_(not_(e), g))
        maj = xor(and_(a, b), and_(a, c), and_(b, c))
        t1 = add(hh, S1(e), ch, const(K[t], bits), w[t])
        t2 = add(S0(a), maj)
        hh, g, f, e, d, c, b, a = g, f, e, add(d, t1), c, b, a, add(t1, t2)
    return [add(x, y) for x, y in zip(h, (a, b, c, d, e, f, g, hh))]


def sha512t_iv(t):
    """FIPS 180-4 5.3.6: IV generation function for SHA-512/t"""
    h = [x ^ 0xa5a5a5a5a5a5a5a5 for x in IV["sha512"]]
    msg = b"SHA-512/%d" % t
    blk = msg + b"\x80" + bytes(111 - len(msg)) + (8 * len(msg)).to_bytes(16, "big")
    w = [const(int.from_bytes(blk[8 * i:8 * i + 8], "big"), 64) for i in range(16)]
    return [x.p for x in sha2_compress([const(x, 64) for x in h], w, 64)]


IV["sha512_224"] = sha512t_iv(224)
IV["sha512_256"] = sha512t_iv(256)


def compress(alg, h, blk):
    """blk: byte terms of one block"""
    n = WORD[alg] // 8
    w = [concat(*blk[n * i:n * i + n]) for i in range(16)]
    if alg == "sha1":
        return sha1_compress(h, w)
    return sha2_compress(h, w, WORD[alg])


# ------------------------------------------------------------------ RFC 8439


def quarter(x, a, b, c, d):
    x[a] = add(x[a], x[b]); x[d] = rotl_c(xor(x[d], x[a]), 16)
    x[c] = add(x[c], x[d]); x[b] = rotl_c(xor(x[b], x[c]), 12)
    x[a] = add(x[a], x[b]); x[d] = rotl_c(xor(x[d], x[a]), 8)
    x[c] = add(x[c], x[d]); x[b] = rotl_c(xor(x[b], x[c]), 7)


def chacha_block(state, double_rounds):
    """state: 16 words; returns the 64 keystream byte terms"""
    x = list(state)
    for _ in range(double_rounds):
        quarter(x, 0, 4, 8, 12)
        quarter(x, 1, 5, 9, 13)
        quarter(x, 2, 6, 10, 14)
        quarter(x, 3, 7, 11, 15)
        quarter(x, 0, 5, 10, 15)
        quarter(x, 1, 6, 11, 12)
        quarter(x, 2, 7, 8, 13)
        quarter(x, 3, 4, 9, 14)
    x = [add(p, q) for p, q in zip(x, state)]
    return [extract(w, 8 * k + 7, 8 * k) for w in x for k in range(4)]
