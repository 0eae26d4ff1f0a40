"""Compression functions, initial values and padding of MD2 (RFC 1319), MD4 (RFC 1320), MD5 (RFC 1321), SHA-1 and SHA-2
(FIPS 180-4) and HAS-160 (TTAS.KO-12.0011/R1), over the word interface of irv.w.  compress(h, block): h a list of words
(MD2: bytes), block a list of byte words."""
import math
from irv.w import SW, IW, cat, be, le, bytes_be, bytes_le, ibytes, tobytes

def pi_digits(n):
    q, r, t, k, m, x = 1, 0, 1, 1, 3, 3
    out = []
    while len(out) < n:
        if 4 * q + r - t < m * t:
            out.append(m)
            q, r, m = 10 * q, 10 * (r - m * t), (10 * (3 * q + r)) // t - 10 * m
        else:
            q, r, t, k, m, x = q * k, (2 * q + r) * x, t * x, k + 1, (q * (7 * k + 2) + r * x) // (t * x), x + 2
    return out

def _md2_table():
    """the permutation of 0..255 built from the digits of pi (Rivest): a Durstenfeld shuffle"""
    it = iter(pi_digits(3000))
    S = list(range(256))
    def rand(n):
        x = next(it); y = 10
        if n > 10: x = x * 10 + next(it); y = 100
        if n > 100: x = x * 10 + next(it); y = 1000
        if x < n * (y // n): return x % n
        return rand(n)
    for i in range(2, 257):
        j = rand(i)
        S[j], S[i - 1] = S[i - 1], S[j]
    return S
MD2_S = _md2_table()

# state: 16 state bytes + 16 checksum bytes
def md2_compress(h, blk):
    st, ck = h[:16], h[16:]
    x = list(st) + list(blk) + [a ^ b for a, b in zip(st, blk)]
    t = x[0].const(0, 8)
    for r in range(18):
        for j in range(48):
            x[j] = x[j] ^ t.lut(MD2_S, 8)
            t = x[j]
        t = t + r
    c = list(ck)
    l = c[15]
    for i in range(16):
        c[i] = c[i] ^ (blk[i] ^ l).lut(MD2_S, 8)
        l = c[i]
    return x[:16] + c

def md4_compress(h, blk):
    X = [le(blk[4 * i:4 * i + 4]) for i in range(16)]
    a, b, c, d = h
    F = lambda x, y, z: (x & y) | (~x & z)
    G = lambda x, y, z: (x & y) | (x & z) | (y & z)
    H = lambda x, y, z: x ^ y ^ z
    for f, k, order, rot in ((F, 0, list(range(16)), (3, 7, 11, 19)),
                             (G, 0x5A827999, [0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15], (3, 5, 9, 13)),
                             (H, 0x6ED9EBA1, [0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15], (3, 9, 11, 15))):
        for i in range(16):
            t = (a + f(b, c, d) + X[order[i]] + k).rotl(rot[i % 4])
            a, b, c, d = d, t, b, c
    return [x + y for x, y in zip(h, (a, b, c, d))]

MD5_T = [int(abs(math.sin(i + 1)) * (1 << 32)) for i in range(64)]
MD5_R = [(7, 12, 17, 22), (5, 9, 14, 20), (4, 11, 16, 23), (6, 10, 15, 21)]
def md5_compress(h, blk):
    X = [le(blk[4 * i:4 * i + 4]) for i in range(16)]
    a, b, c, d = h
    for i in range(64):
        r = i // 16
        if r == 0: f = (b & c) | (~b & d); g = i
        elif r == 1: f = (b & d) | (c & ~d); g = (5 * i + 1) % 16
        elif r == 2: f = b ^ c ^ d; g = (3 * i + 5) % 16
        else: f = c ^ (b | ~d); g = (7 * i) % 16
        t = b + (a + f + X[g] + MD5_T[i]).rotl(MD5_R[r][i % 4])
        a, b, c, d = d, t, b, c
    return [x + y for x, y in zip(h, (a, b, c, d))]

def sha1_compress(h, blk):
    w = [be(blk[4 * i:4 * i + 4]) for i in range(16)]
    for t in range(16, 80): w.append((w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]).rotl(1))
    a, b, c, d, e = h
    for t in range(80):
        if t < 20: f = (b & c) ^ (~b & d); k = 0x5a827999
        elif t < 40: f = b ^ c ^ d; k = 0x6ed9eba1
        elif t < 60: f = (b & c) ^ (b & d) ^ (c & d); k = 0x8f1bbcdc
        else: f = b ^ c ^ d; k = 0xca62c1d6
        T = a.rotl(5) + f + e + w[t] + k
        a, b, c, d, e = T, a, b.rotl(30), c, d
    return [x + y for x, y in zip(h, (a, b, c, d, e))]

def primes(n):
    out = []; x = 2
    while len(out) < n:
        if all(x % p for p in out): out.append(x)
        x += 1
    return out
def iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n: lo = m
        else: hi = m - 1
    return lo
PR = primes(80)
def frac_root(p, k, bits): return iroot(p << (k * bits), k) & ((1 << bits) - 1)
K256 = [frac_root(p, 3, 32) for p in PR[:64]]
K512 = [frac_root(p, 3, 64) for p in PR]
IV256 = [frac_root(p, 2, 32) for p in PR[:8]]
IV512 = [frac_root(p, 2, 64) for p in PR[:8]]
IV384 = [frac_root(p, 2, 64) for p in PR[8:16]]
IV224 = [x & 0xffffffff for x in IV384]

def sha256_compress(h, blk):
    w = [be(blk[4 * i:4 * i + 4]) for i in range(16)]
    for t in range(16, 64):
        s0 = w[t - 15].rotr(7) ^ w[t - 15].rotr(18) ^ w[t - 15].shr(3)
        s1 = w[t - 2].rotr(17) ^ w[t - 2].rotr(19) ^ w[t - 2].shr(10)
        w.append(s1 + w[t - 7] + s0 + w[t - 16])
    return _sha2(h, w, K256, (2, 13, 22), (6, 11, 25))
def sha512_compress(h, blk):
    w = [be(blk[8 * i:8 * i + 8]) for i in range(16)]
    for t in range(16, 80):
        s0 = w[t - 15].rotr(1) ^ w[t - 15].rotr(8) ^ w[t - 15].shr(7)
        s1 = w[t - 2].rotr(19) ^ w[t - 2].rotr(61) ^ w[t - 2].shr(6)
        w.append(s1 + w[t - 7] + s0 + w[t - 16])
    return _sha2(h, w, K512, (28, 34, 39), (14, 18, 41))
def _sha2(h0, w, K, S0, S1):
    a, b, c, d, e, f, g, h = h0
    for t in range(len(K)):
        s1 = e.rotr(S1[0]) ^ e.rotr(S1[1]) ^ e.rotr(S1[2])
        ch = (e & f) ^ (~e & g)
        t1 = h + s1 + ch + K[t] + w[t]
        s0 = a.rotr(S0[0]) ^ a.rotr(S0[1]) ^ a.rotr(S0[2])
        mj = (a & b) ^ (a & c) ^ (b & c)
        t2 = s0 + mj
        a, b, c, d, e, f, g, h = t1 + t2, a, b, c, d + t1, e, f, g
    return [x + y for x, y in zip(h0, (a, b, c, d, e, f, g, h))]

HAS_X = [[(0, 1, 2, 3), (4, 5, 6, 7), (8, 9, 10, 11), (12, 13, 14, 15)],
         [(3, 6, 9, 12), (2, 5, 8, 15), (1, 4, 11, 14), (0, 7, 10, 13)],
         [(5, 7, 12, 14), (0, 2, 9, 11), (4, 6, 13, 15), (1, 3, 8, 10)],
         [(2, 7, 8, 13), (3, 4, 9, 14), (0, 5, 10, 15), (1, 6, 11, 12)]]
HAS_L = [[18, 0, 1, 2, 3, 19, 4, 5, 6, 7, 16, 8, 9, 10, 11, 17, 12, 13, 14, 15],
         [18, 3, 6, 9, 12, 19, 15, 2, 5, 8, 16, 11, 14, 1, 4, 17, 7, 10, 13, 0],
         [18, 12, 5, 14, 7, 19, 0, 9, 2, 11, 16, 4, 13, 6, 15, 17, 8, 1, 10, 3],
         [18, 7, 2, 13, 8, 19, 3, 14, 9, 4, 16, 15, 10, 5, 0, 17, 11, 6, 1, 12]]
HAS_S1 = [5, 11, 7, 15, 6, 13, 8, 14, 7, 12, 9, 11, 8, 15, 6, 12, 9, 14, 5, 13]
HAS_S2 = [10, 17, 25, 30]
HAS_K = [0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC]
def has160_compress(h, blk):
    X = [le(blk[4 * i:4 * i + 4]) for i in range(16)]
    a, b, c, d, e = h
    for r in range(4):
        Y = X + [X[i] ^ X[j] ^ X[k] ^ X[l] for i, j, k, l in HAS_X[r]]
        for i in range(20):
            f = (b & c) | (~b & d) if r == 0 else c ^ (b | ~d) if r == 2 else b ^ c ^ d
            t = a.rotl(HAS_S1[i]) + f + e + Y[HAS_L[r][i]] + HAS_K[r]
            a, b, c, d, e = t, a, b.rotl(HAS_S2[r]), c, d
    return [x + y for x, y in zip(h, (a, b, c, d, e))]

MDIV = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476]
SHA1IV = MDIV + [0xc3d2e1f0]

def tpad(msg, iv):
    """SHA-512/t initial value generation"""
    h = [x ^ 0xa5a5a5a5a5a5a5a5 for x in IV512]
    return [w.v for w in run(D['sha512'], msg, h)]

class Dig:
    def __init__(self, name, comp, iv, block, ww, big, lenbytes, outbytes):
        self.name, self.comp, self.iv, self.block, self.ww, self.big, self.lenbytes, self.outbytes = name, comp, iv, block, ww, big, lenbytes, outbytes
    def out(self, h):
        bs = []
        for w in h: bs += bytes_be(w) if self.big else bytes_le(w)
        return bs[:self.outbytes]

D = {'md2': Dig('md2', md2_compress, [0] * 32, 16, 8, False, 0, 16),
     'md4': Dig('md4', md4_compress, MDIV, 64, 32, False, 8, 16),
     'md5': Dig('md5', md5_compress, MDIV, 64, 32, False, 8, 16),
     'sha1': Dig('sha1', sha1_compress, SHA1IV, 64, 32, True, 8, 20),
     'sha256': Dig('sha256', sha256_compress, IV256, 64, 32, True, 8, 32),
     'sha224': Dig('sha224', sha256_compress, [x & 0xffffffff for x in IV384], 64, 32, True, 8, 28),
     'sha512': Dig('sha512', sha512_compress, IV512, 128, 64, True, 16, 64),
     'sha384': Dig('sha384', sha512_compress, IV384, 128, 64, True, 16, 48),
     'has160': Dig('has160', has160_compress, SHA1IV, 64, 32, False, 8, 20)}

def pad(d, n):
    """padding bytes after n message bytes (n may be any non-negative integer)"""
    if d.lenbytes == 0:
        k = d.block - n % d.block
        return bytes([k]) * k
    k = (-n - 1 - d.lenbytes) % d.block
    return b'\x80' + bytes(k) + ((8 * n) % (1 << (8 * d.lenbytes))).to_bytes(d.lenbytes, 'big' if d.big else 'little')

def run(d, msg, h=None, total=None):
    """concrete evaluation from state h after `total` earlier bytes (a multiple of the block)"""
    st = [IW(x, d.ww) for x in (h or d.iv)]
    n = (total or 0) + len(msg)
    data = msg + pad(d, n)
    for i in range(0, len(data), d.block): st = d.comp(st, ibytes(data[i:i + d.block]))
    if d.lenbytes == 0: st = d.comp(st, st[16:])
    return st

def digest(name, msg, h=None, total=None):
    d = D[name]
    return tobytes(d.out(run(d, msg, h, total)[:16] if d.lenbytes == 0 else run(d, msg, h, total)))

IV512_256 = tpad(b'SHA-512/256', None)
IV512_224 = tpad(b'SHA-512/224', None)
D['sha512_256'] = Dig('sha512_256', sha512_compress, IV512_256, 128, 64, True, 16, 32)
D['sha512_224'] = Dig('sha512_224', sha512_compress, IV512_224, 128, 64, True, 16, 28)
