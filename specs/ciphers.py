"""Block and stream cipher specifications, transcribed from the standards (FIPS 197, FIPS 46-3, RFC 4269, RFC 5794,
Schneier's Blowfish paper, RC4) over the word interface of irv.w.  Blocks and keys are lists of byte words."""
from irv.w import SW, IW, cat, be, le, bytes_be, bytes_le

def gmul(a, b, p=0x11b):
    r = 0
    while b:
        if b & 1: r ^= a
        a <<= 1
        if a & 0x100: a ^= p
        b >>= 1
    return r
def gpow(x, n, p):
    r = 1
    while n:
        if n & 1: r = gmul(r, x, p)
        x = gmul(x, x, p); n >>= 1
    return r
def rot8(x, k): return ((x << k) | (x >> (8 - k))) & 255

# ------------------------------------------------------------------ AES (FIPS 197)
AES_S = []
for _x in range(256):
    _i = gpow(_x, 254, 0x11b)
    AES_S.append(0x63 ^ _i ^ rot8(_i, 1) ^ rot8(_i, 2) ^ rot8(_i, 3) ^ rot8(_i, 4))
AES_IS = [0] * 256
for _i, _v in enumerate(AES_S): AES_IS[_v] = _i
GM = {c: [gmul(x, c) for x in range(256)] for c in (2, 3, 9, 11, 13, 14)}
def aes_expand(key):
    nk = len(key) // 4
    nr = nk + 6
    w = [key[4 * i:4 * i + 4] for i in range(nk)]
    rc = 1
    for i in range(nk, 4 * (nr + 1)):
        t = w[i - 1]
        if i % nk == 0:
            t = t[1:] + t[:1]
            t = [x.lut(AES_S, 8) for x in t]
            t[0] = t[0] ^ rc
            rc = gmul(rc, 2)
        elif nk > 6 and i % nk == 4:
            t = [x.lut(AES_S, 8) for x in t]
        w.append([a ^ b for a, b in zip(w[i - nk], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(nr + 1)]
def _mixc(s, co):
    o = []
    for c in range(4):
        col = s[4 * c:4 * c + 4]
        for r in range(4):
            t = None
            for j in range(4):
                k = co[(j - r) % 4]
                x = col[j] if k == 1 else col[j].lut(GM[k], 8)
                t = x if t is None else t ^ x
            o.append(t)
    return o
def aes_enc(rk, blk):
    s = [a ^ b for a, b in zip(blk, rk[0])]
    n = len(rk) - 1
    for r in range(1, n + 1):
        s = [x.lut(AES_S, 8) for x in s]
        s = [s[4 * ((c + k) % 4) + k] for c in range(4) for k in range(4)]
        if r < n: s = _mixc(s, (2, 3, 1, 1))
        s = [a ^ b for a, b in zip(s, rk[r])]
    return s
def aes_dec(rk, blk):
    n = len(rk) - 1
    s = [a ^ b for a, b in zip(blk, rk[n])]
    for r in range(n - 1, -1, -1):
        s = [s[4 * ((c - k) % 4) + k] for c in range(4) for k in range(4)]
        s = [x.lut(AES_IS, 8) for x in s]
        s = [a ^ b for a, b in zip(s, rk[r])]
        if r: s = _mixc(s, (14, 11, 13, 9))
    return s

# ------------------------------------------------------------------ DES (FIPS 46-3)
IP = [58,50,42,34,26,18,10,2,60,52,44,36,28,20,12,4,62,54,46,38,30,22,14,6,64,56,48,40,32,24,16,8,
      57,49,41,33,25,17,9,1,59,51,43,35,27,19,11,3,61,53,45,37,29,21,13,5,63,55,47,39,31,23,15,7]
FP = [40,8,48,16,56,24,64,32,39,7,47,15,55,23,63,31,38,6,46,14,54,22,62,30,37,5,45,13,53,21,61,29,
      36,4,44,12,52,20,60,28,35,3,43,11,51,19,59,27,34,2,42,10,50,18,58,26,33,1,41,9,49,17,57,25]
EX = [32,1,2,3,4,5,4,5,6,7,8,9,8,9,10,11,12,13,12,13,14,15,16,17,16,17,18,19,20,21,20,21,22,23,24,25,24,25,26,27,28,29,28,29,30,31,32,1]
PB = [16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25]
PC1 = [57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,
       63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4]
PC2 = [14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,26,8,16,7,27,20,13,2,41,52,31,37,47,55,30,40,51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32]
SH = [1,1,2,2,2,2,2,2,1,2,2,2,2,2,2,1]
SB = [
 [14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7,0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8,4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0,15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,13],
 [15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10,3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5,0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15,13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9],
 [10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8,13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1,13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7,1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12],
 [7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15,13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9,10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4,3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14],
 [2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9,14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6,4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14,11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3],
 [12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11,10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8,9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6,4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13],
 [4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1,13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6,1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2,6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12],
 [13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7,1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2,7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8,2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11]]
# indexed by the 6-bit group read most significant bit first
DES_S = [[SB[k][(((x >> 4) & 2) | (x & 1)) * 16 + ((x >> 1) & 15)] for x in range(64)] for k in range(8)]
DES_S_STD = DES_S
def _bits(bs):
    return [b.bits(7 - i, 1) for b in bs for i in range(8)]
def _perm(bits, t): return [bits[i - 1] for i in t]
def _bytes(bits): return [cat(list(reversed(bits[8 * i:8 * i + 8]))) for i in range(len(bits) // 8)]
def des_keys(key):
    cd = _perm(_bits(key), PC1)
    c, d = cd[:28], cd[28:]
    ks = []
    for n in SH:
        c = c[n:] + c[:n]; d = d[n:] + d[:n]
        ks.append(_perm(c + d, PC2))
    return ks
def des_block(ks, blk):
    b = _perm(_bits(blk), IP)
    l, r = b[:32], b[32:]
    for k in ks:
        e = [x ^ y for x, y in zip(_perm(r, EX), k)]
        o = []
        for i in range(8):
            v = cat(list(reversed(e[6 * i:6 * i + 6]))).lut(DES_S[i], 4)
            o += [v.bits(3 - j, 1) for j in range(4)]
        o = _perm(o, PB)
        l, r = r, [x ^ y for x, y in zip(l, o)]
    return _bytes(_perm(r + l, FP))
def des3_keys(key, n):
    k1 = des_keys(key[:8])
    if n == 1: return [k1]
    k2 = des_keys(key[8:16])
    return [k1, k2, k1 if n == 2 else des_keys(key[16:24])]
def des_enc(ks, blk):
    if len(ks) == 1: return des_block(ks[0], blk)
    b = des_block(ks[0], blk)
    b = des_block(ks[1][::-1], b)
    return des_block(ks[2], b)
def des_dec(ks, blk):
    if len(ks) == 1: return des_block(ks[0][::-1], blk)
    b = des_block(ks[2][::-1], blk)
    b = des_block(ks[1], b)
    return des_block(ks[0][::-1], b)

# ------------------------------------------------------------------ SEED (RFC 4269)
# S1(x) = A1*x^247 + 0xa9, S2(x) = A2*x^251 + 0x38 over GF(2)[x]/(x^8+x^6+x^5+x+1); columns of the matrices
SEED_A1 = None; SEED_A2 = None
def _affine(cols, x, c):
    r = c
    for i in range(8):
        if (x >> i) & 1: r ^= cols[i]
    return r
def _mk_seed():
    from .consts import SEED_COLS
    s1 = [_affine(SEED_COLS[0], gpow(x, 247, 0x163), 0xa9) for x in range(256)]
    s2 = [_affine(SEED_COLS[1], gpow(x, 251, 0x163), 0x38) for x in range(256)]
    m = (0xfc, 0xf3, 0xcf, 0x3f)
    def ss(s, ms): return [sum((s[x] & ms[k]) << (8 * k) for k in range(4)) for x in range(256)]
    # Z0 = (Y0&m0)^(Y1&m1)^(Y2&m2)^(Y3&m3), Z1 = (Y0&m1)^(Y1&m2)^(Y2&m3)^(Y3&m0), ...
    return [ss(s1, (m[0], m[1], m[2], m[3])), ss(s2, (m[1], m[2], m[3], m[0])), ss(s1, (m[2], m[3], m[0], m[1])), ss(s2, (m[3], m[0], m[1], m[2]))]
SEED_SS = None
def seed_g(x):
    global SEED_SS
    if SEED_SS is None: SEED_SS = _mk_seed()
    r = None
    for k in range(4):
        y = x.bits(8 * k, 8).lut(SEED_SS[k], 32)
        r = y if r is None else r ^ y
    return r
def seed_keys(key):
    a, b, c, d = (be(key[4 * i:4 * i + 4]) for i in range(4))
    ks = []
    for i in range(16):
        kc = 0x9e3779b9
        kc = ((kc << i) | (kc >> (32 - i))) & 0xffffffff
        ks.append((seed_g(a + c - kc), seed_g(b - d + kc)))
        if i % 2 == 0:
            x = cat([b, a]).rotr(8); b, a = x.bits(0, 32), x.bits(32, 32)
        else:
            x = cat([d, c]).rotl(8); d, c = x.bits(0, 32), x.bits(32, 32)
    return ks
def seed_f(k, c, d):
    c = c ^ k[0]; d = d ^ k[1]
    t = seed_g(c ^ d)
    u = seed_g(t + c)
    v = seed_g(u + t)
    return v + u, v
def seed_block(ks, blk):
    w = [be(blk[4 * i:4 * i + 4]) for i in range(4)]
    l, r = (w[0], w[1]), (w[2], w[3])
    for i in range(16):
        f = seed_f(ks[i], r[0], r[1])
        l, r = r, (l[0] ^ f[0], l[1] ^ f[1])
    l, r = r, l
    return bytes_be(l[0]) + bytes_be(l[1]) + bytes_be(r[0]) + bytes_be(r[1])
def seed_enc(ks, blk): return seed_block(ks, blk)
def seed_dec(ks, blk): return seed_block(ks[::-1], blk)

# ------------------------------------------------------------------ ARIA (RFC 5794)
ARIA_S2 = None
def _mk_aria():
    from .consts import ARIA_COLS
    s2 = [_affine(ARIA_COLS, gpow(x, 247, 0x11b), 0xe2) for x in range(256)]
    i2 = [0] * 256
    for i, v in enumerate(s2): i2[v] = i
    return s2, i2
ARIA_M = [(3,4,6,8,9,13,14),(2,5,7,8,9,12,15),(1,4,6,10,11,12,15),(0,5,7,10,11,13,14),(0,2,5,8,11,14,15),(1,3,4,9,10,14,15),
          (0,2,7,9,10,12,13),(1,3,6,8,11,12,13),(0,1,4,7,10,13,15),(0,1,5,6,11,12,14),(2,3,5,6,8,13,15),(2,3,4,7,9,12,14),
          (1,2,6,7,9,11,12),(0,3,6,7,8,10,13),(0,3,4,5,9,11,14),(1,2,4,5,8,10,15)]
ARIA_C = [0x517cc1b727220a94fe13abe8fa9a6ee0, 0x6db14acc9e21c820ff28b1d5ef5de2b0, 0xdb92371d2126e9700324977504e8c90e]
def aria_a(x):
    o = []
    for m in ARIA_M:
        t = x[m[0]]
        for j in m[1:]: t = t ^ x[j]
        o.append(t)
    return o
def _aria_tabs():
    global ARIA_S2
    if ARIA_S2 is None: ARIA_S2 = _mk_aria()
    return (AES_S, ARIA_S2[0], AES_IS, ARIA_S2[1])
def aria_sl(x, odd):
    t = _aria_tabs()
    o = (0, 1, 2, 3) if odd else (2, 3, 0, 1)
    return [b.lut(t[o[i % 4]], 8) for i, b in enumerate(x)]
def _x(a, b): return [p ^ q for p, q in zip(a, b)]
def aria_fo(d, rk): return aria_a(aria_sl(_x(d, rk), True))
def aria_fe(d, rk): return aria_a(aria_sl(_x(d, rk), False))
def _rotr128(x, n):
    v = be(x).rotr(n)
    return bytes_be(v)
def aria_keys(key):
    n = len(key)
    nr = {16: 12, 24: 14, 32: 16}[n]
    z = key[0]
    kl = key[:16]
    kr = list(key[16:]) + [z.const(0, 8)] * (32 - n)
    o = {16: (0, 1, 2), 24: (1, 2, 0), 32: (2, 0, 1)}[n]
    ck = [[z.const((ARIA_C[j] >> (8 * (15 - i))) & 255, 8) for i in range(16)] for j in o]
    w0 = kl
    w1 = _x(aria_fo(w0, ck[0]), kr)
    w2 = _x(aria_fe(w1, ck[1]), w0)
    w3 = _x(aria_fo(w2, ck[2]), w1)
    w = [w0, w1, w2, w3]
    ek = []
    for rot in (19, 31, 67, 97):
        for i in range(4):
            if len(ek) > nr: break
            if rot == 67: r = 128 - 61
            elif rot == 97: r = 128 - 31
            else: r = rot
            ek.append(_x(w[i], _rotr128(w[(i + 1) % 4], r)))
    if len(ek) <= nr: ek.append(_x(w[0], _rotr128(w[1], 128 - 19)))
    return ek[:nr + 1]
def aria_deckeys(ek):
    n = len(ek) - 1
    return [ek[n]] + [aria_a(ek[i]) for i in range(n - 1, 0, -1)] + [ek[0]]
def aria_crypt(ek, blk):
    n = len(ek) - 1
    p = blk
    for i in range(n - 1): p = (aria_fo if i % 2 == 0 else aria_fe)(p, ek[i])
    return _x(aria_sl(_x(p, ek[n - 1]), False), ek[n])
def aria_enc(ek, blk): return aria_crypt(ek, blk)
def aria_dec(ek, blk): return aria_crypt(aria_deckeys(ek), blk)

# ------------------------------------------------------------------ Blowfish
def pi_words(n):
    """first n 32-bit words of the fractional part of pi"""
    from .consts import pi_frac
    bits = 32 * n
    v = pi_frac(bits)
    return [(v >> (32 * (n - 1 - i))) & 0xffffffff for i in range(n)]
_PI = None
def bf_init():
    global _PI
    if _PI is None: _PI = pi_words(18 + 1024)
    return _PI[:18], [_PI[18 + 256 * i:18 + 256 * (i + 1)] for i in range(4)]
def bf_f(S, x):
    a, b, c, d = x.bits(24, 8), x.bits(16, 8), x.bits(8, 8), x.bits(0, 8)
    return ((S(0, a) + S(1, b)) ^ S(2, c)) + S(3, d)
def bf_enc_words(P, S, l, r):
    for i in range(16):
        l = l ^ P[i]
        r = bf_f(S, l) ^ r
        l, r = r, l
    l, r = r, l
    r = r ^ P[16]; l = l ^ P[17]
    return l, r
def bf_dec_words(P, S, l, r): return bf_enc_words(P[::-1], S, l, r)
def bf_block(P, S, blk, dec=False):
    l, r = bf_enc_words(P[::-1] if dec else P, S, be(blk[:4]), be(blk[4:]))
    return bytes_be(l) + bytes_be(r)
def bf_keyed_p(key):
    """P-array after XOR with the cyclically repeated key"""
    P, _ = bf_init()
    n = len(key)
    return [be([key[(4 * i + j) % n] for j in range(4)]) ^ P[i] for i in range(18)]
def bf_schedule_concrete(key):
    key = list(key)
    P = [w.v for w in bf_keyed_p([IW(k, 8) for k in key])]
    S = [list(s) for s in bf_init()[1]]
    def enc(l, r):
        for i in range(16):
            l ^= P[i]
            r ^= ((((S[0][l >> 24] + S[1][(l >> 16) & 255]) & 0xffffffff) ^ S[2][(l >> 8) & 255]) + S[3][l & 255]) & 0xffffffff
            l, r = r, l
        l, r = r, l
        return l ^ P[17], r ^ P[16]
    l = r = 0
    for i in range(0, 18, 2):
        l, r = enc(l, r); P[i], P[i + 1] = l, r
    for k in range(4):
        for j in range(0, 256, 2):
            l, r = enc(l, r); S[k][j], S[k][j + 1] = l, r
    return P, S
def bf_concrete(key, blk, dec=False):
    P, S = bf_schedule_concrete(key)
    if dec: P = P[::-1]
    l = int.from_bytes(blk[:4], 'big'); r = int.from_bytes(blk[4:], 'big')
    for i in range(16):
        l ^= P[i]
        r ^= ((((S[0][l >> 24] + S[1][(l >> 16) & 255]) & 0xffffffff) ^ S[2][(l >> 8) & 255]) + S[3][l & 255]) & 0xffffffff
        l, r = r, l
    l, r = r, l
    return (l ^ P[17]).to_bytes(4, 'big') + (r ^ P[16]).to_bytes(4, 'big')

# ------------------------------------------------------------------ RC4
def rc4_concrete(key, data):
    S = list(range(256)); j = 0
    for i in range(256):
        j = (j + S[i] + key[i % len(key)]) & 255
        S[i], S[j] = S[j], S[i]
    i = j = 0; out = []
    for b in data:
        i = (i + 1) & 255; j = (j + S[i]) & 255
        S[i], S[j] = S[j], S[i]
        out.append(b ^ S[(S[i] + S[j]) & 255])
    return bytes(out)
