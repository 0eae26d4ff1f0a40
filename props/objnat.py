"""Concrete runs of gcd, modular exponentiation, RSA, ASN.1, random generator, primes, wiping, allocation failures and object independence
on the compiled sources, under an allocator that detects overruns, use after free, double free and leaks."""
import ctypes, hashlib, math, os, random, struct, subprocess, tempfile, shutil, time, json
from irv import front, native
from . import bnnat
P, I, U32, D = ctypes.c_void_p, ctypes.c_int, ctypes.c_uint32, ctypes.c_double
V = front.__file__.rsplit('/irv/', 1)[0]
WRAP = ['-Wl,--wrap=malloc', '-Wl,--wrap=calloc', '-Wl,--wrap=realloc', '-Wl,--wrap=free']

def build(tmp, ndebug, extra=()):
    o = os.path.join(tmp, 'alloc.o')
    r = subprocess.run(['/usr/bin/gcc', '-O2', '-fPIC', '-c', V + '/native/alloc.c', '-o', o], capture_output=True, text=True, env=front.env())
    if r.returncode: raise front.ExtractError(r.stderr[-500:])
    return front.native_lib(tmp, extra_flags=(['-DNDEBUG'] if ndebug else []) + list(extra), link=WRAP + [o, '-Wl,-z,defs', '-lm'], out='obj%d.so' % ndebug)

class Bad(Exception):
    def __init__(self, **k): Exception.__init__(self, str(k)); self.k = k

class Lib:
    def __init__(self, so, L):
        self.l = native.Lib(so); self.L = L
        self.c = {}
        for n in ('vp_count', 'vp_live', 'vp_bad', 'vp_watch', 'vp_nfreed', 'vp_fail_mode', 'vp_fail_at', 'vp_fail_len'):
            self.c[n] = ctypes.c_int.in_dll(self.l.l, n)
        self.mask = ctypes.c_void_p.in_dll(self.l.l, 'vp_fail_mask')
        self.f = {}
    def __getattr__(self, n):
        if n.startswith('vp_') and n in self.c: return self.c[n].value
        raise AttributeError(n)
    def setv(self, n, v): self.c[n].value = v
    def call(self, name, *a, res=I):
        k = (name, res)
        f = self.f.get(k)
        if f is None:
            f = self.f[k] = getattr(self.l.l, name); f.restype = res
        m = native.MARK[0]
        if m is None: return f(*[ctypes.c_void_p(x) if isinstance(x, Ptr) else x for x in a])
        struct.pack_into('<d', m, 16, time.monotonic())
        try: return f(*[ctypes.c_void_p(x) if isinstance(x, Ptr) else x for x in a])
        finally: struct.pack_into('<d', m, 16, -1.0)
    def reset(self): self.call('vp_reset', res=None)
    def sane(self, what):
        b = self.vp_bad
        if b: raise Bad(what=('', 'free of memory that was never allocated', 'double free', 'a heap block was overrun', 'memory in front of a heap block was written')[b], call=what)
    # -------- big numbers
    def bn(self, v=0, words=None, neg=False):
        n = max(1, (abs(v).bit_length() + 63) // 64)
        p = self.call('BnNewW', max(n, words or n), res=P)
        assert p
        L = self.L
        d = ctypes.c_uint64.from_address(p + L['data']).value
        ctypes.memmove(d, abs(v).to_bytes(8 * n, 'little'), 8 * n)
        ctypes.c_int32.from_address(p + L['length']).value = n
        ctypes.c_int32.from_address(p + L['sign']).value = 1 if v < 0 or neg else 0
        return Ptr(p)
    def val(self, p):
        L = self.L
        n = ctypes.c_int32.from_address(p + L['length']).value; mx = ctypes.c_int32.from_address(p + L['max_length']).value
        if not 1 <= n <= mx: raise Bad(what=f'malformed number: length {n} of {mx}')
        d = ctypes.c_uint64.from_address(p + L['data']).value
        v = int.from_bytes(ctypes.string_at(d, 8 * n), 'little')
        s = ctypes.c_int32.from_address(p + L['sign']).value
        if s not in (0, 1): raise Bad(what=f'malformed number: sign flag {s}')
        if n > 1 and v >> (64 * (n - 1)) == 0: raise Bad(what='malformed number: leading zero word')
        return -v if s else v
    def free(self, *ps):
        for p in ps: self.call('BnFree', p, res=None)

class Ptr(int): pass

class Run:
    def __init__(self, so, L, seed, seconds, report):
        self.b = Lib(so, L); self.L = L; self.rnd = random.Random(seed); self.report = report; self.end = time.time() + seconds
        self.b.reset()
    def out(self):
        return ctypes.c_void_p(0)
    def num(self, maxw=6, lo=0):
        r = self.rnd
        k = r.randrange(10)
        n = r.randrange(1, 64 * maxw + 1) if r.randrange(2) else r.choice((1, 2, 3, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 64 * maxw))
        if k < 4: v = r.getrandbits(n)
        elif k == 4: v = (1 << n) - 1 - (r.getrandbits(2))
        elif k == 5: v = 1 << (n - 1)
        elif k == 6: v = r.randrange(12)
        else:
            v = 0
            for _ in range((n + 63) // 64): v = v << 64 | r.choice((0, (1 << 64) - 1, 1, 1 << 63, r.getrandbits(64), r.getrandbits(64)))
        return max(lo, v)

# ---------------------------------------------------------------- C23
def op_gcd(R):
    b, r = R.b, R.rnd
    k = r.randrange(6)
    m, n = R.num(r.choice((1, 2, 4, 7)), 1), R.num(r.choice((1, 2, 4, 7)), 1)
    if k == 0: g = R.num(2, 1); m, n = m * g, n * g
    if k == 1: n = m * max(1, R.num(1)) if r.randrange(2) else m
    if k == 2:        # long quotient chains
        x, y = 1, 1
        for _ in range(r.randrange(2, 250)): x, y = y, x + y * (1 if r.randrange(20) else r.randrange(1, 9))
        m, n = (x, y) if r.randrange(2) else (y, x)
    if k == 3: n = m + r.choice((1, 2, -1)) or 1
    if k == 4 and r.randrange(2): m = 1 << 64
    n = max(1, n)
    uns = r.randrange(2); ex = r.randrange(4)
    case = dict(op='GetGCDEx' if ex else 'GetGCD', m=hex(m), n=hex(n), unsigned=uns)
    R.report(case)
    g = math.gcd(m, n)
    w = max(len(hex(m)), len(hex(n))) // 16 + 2
    M, N, G, A, B = b.bn(m), b.bn(n), b.bn(0, w), b.bn(0, w), b.bn(0, w)
    if ex:
        useg, usea, useb = r.randrange(4) > 0, r.randrange(4) > 0, r.randrange(4) > 0
        ret = b.call('GetGCDEx', G if useg else None, A if usea else None, B if useb else None, M, N, uns)
    else:
        useg, usea, useb = True, False, False
        ret = b.call('GetGCD', G, M, N)
    if ret != 0: return dict(case, what=f'failed with {ret}')
    gv, av, bv = b.val(G), b.val(A), b.val(B)
    if useg and gv != g: return dict(case, what='wrong divisor', got=hex(gv), expected=hex(g))
    if ex:
        if not uns and usea and useb and av * m + bv * n != g: return dict(case, what='a m + b n is not the divisor', a=hex(av), b=hex(bv))
        if usea and (av * m - g) % n: return dict(case, what='a m is not the divisor modulo n', a=hex(av))
        if useb and (bv * n - g) % m: return dict(case, what='b n is not the divisor modulo m', b=hex(bv))
        if uns and usea and not 0 <= av <= n: return dict(case, what='unsigned coefficient out of range', a=hex(av))
        if uns and useb and not 0 <= bv <= m: return dict(case, what='unsigned coefficient out of range', b=hex(bv))
    if b.val(M) != m or b.val(N) != n: return dict(case, what='an operand changed')
    b.free(M, N, G, A, B)

# ---------------------------------------------------------------- C24
def op_exp(R):
    b, r = R.b, R.rnd
    n = max(3, R.num(r.choice((1, 1, 2, 3, 5))) | 1)
    if r.randrange(4) == 0: n = max(3, (1 << 64 * r.randrange(1, 5)) - 1 - 2 * r.randrange(3))
    if r.randrange(8) == 0: n = (1 << 64 * r.randrange(1, 4)) + 1
    lw = (n.bit_length() + 63) // 64
    case = dict(op='RaMontCreate', N=hex(n)); R.report(case)
    Nn = b.bn(n, lw + r.randrange(3)); c = ctypes.c_void_p()
    ret = b.call('RaMontCreate', Nn, ctypes.byref(c))
    if ret != 0 or not c.value: return dict(case, what=f'failed with {ret}')
    hist = []
    for _ in range(r.randrange(1, 4)):
        a = R.num(lw)
        k = r.randrange(9)
        if k == 0: a = n
        if k == 1: a = n - 1
        if k == 2: a = n + r.randrange(3)
        if k == 3: a = (1 << 64 * lw) - 1
        if k == 4: a = r.randrange(n)
        if a.bit_length() > 64 * lw: a %= n
        e = R.num(r.choice((1, 1, 2, 3)))
        if r.randrange(3) == 0:
            e = 0
            for _ in range(r.randrange(1, 12)): e = (e << r.randrange(1, 30)) | r.choice((1, 3, 5, 7, 8, 15, 0))
        if r.randrange(10) == 0: e = 0
        hist.append(dict(a=hex(a), b=hex(e)))
        case = dict(op='RaMontExpMod', N=hex(n), calls=hist); R.report(case)
        al = r.randrange(6)
        A, E, O = b.bn(a, lw), b.bn(e), b.bn(R.num(lw), lw + r.randrange(2))
        if al == 0: b.free(O); O = A
        ret = b.call('RaMontExpMod', c, O, A, E)
        if ret != 0: return dict(case, what=f'failed with {ret}')
        got = b.val(O)
        if got != pow(a, e, n): return dict(case, what='wrong result', got=hex(got), expected=hex(pow(a, e, n)))
        if al and b.val(A) != a or b.val(E) != e: return dict(case, what='an operand changed')
        b.free(A, E)
        if al: b.free(O)
    if b.val(Nn) != n: return dict(case, what='the modulus changed')
    b.call('RaMontDestroy', c, res=None); b.free(Nn)

# ---------------------------------------------------------------- keys
def is_prime(n):
    if n < 2: return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0: return n == p
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def prime(r, bits):
    if bits == 2: return r.choice((2, 3))
    while True:
        p = r.getrandbits(bits) | 1 << (bits - 1) | 1
        if is_prime(p): return p
def dlen(n):
    if n < 128: return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big'); return bytes([0x80 | len(b)]) + b
def tlv(t, c): return bytes([t]) + dlen(len(c)) + c
def dint(v):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < 1 << (8 * n - 1): n += 1
    return tlv(2, v.to_bytes(n, 'big', signed=True))
OID = bytes.fromhex('300d06092a864886f70d0101010500')
def priv1(k): return tlv(0x30, dint(0) + b''.join(dint(x) for x in k))
def pub1(k): return tlv(0x30, dint(k[0]) + dint(k[1]))
def priv8(k): return tlv(0x30, dint(0) + OID + tlv(4, priv1(k)))
def pub8(k): return tlv(0x30, OID + tlv(3, b'\0' + pub1(k)))
def mkkey(r, bits):
    while True:
        p, q = prime(r, bits - bits // 2), prime(r, bits // 2)
        if p == q: continue
        ph = (p - 1) * (q - 1)
        e = r.choice((65537, 3, 17, 257)) if bits > 20 else r.randrange(3, ph, 2) if ph > 3 else 3
        if e >= p * q or math.gcd(e, ph) != 1: continue
        d = pow(e, -1, ph)
        return (p * q, e, d, p, q, d % (p - 1), d % (q - 1), pow(q, -1, p))
KEYS = {}
def somekey(R, bits=None):
    r = R.rnd
    bits = bits or r.choice((6, 8, 9, 12, 16, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, 160, 256, 384, 512, 520, 1016, 1024, 1032))
    ks = KEYS.setdefault(bits, [])
    if len(ks) < 3 or r.randrange(30) == 0: ks.append(mkkey(r, bits))
    return r.choice(ks)
def load(R, der, fn):
    b = R.b
    g = native.Guarded(len(der), data=der) if len(der) else None
    c = ctypes.c_void_p(0)
    R.hold = g
    ret = b.call(fn, ctypes.c_void_p(g.addr if g else 0), len(der), ctypes.byref(c))
    return ret, c
def op_rsa(R):
    b, r = R.b, R.rnd
    k = somekey(R); n, e, d = k[:3]
    w = (n.bit_length() + 63) // 64
    fn, der = r.choice((('RaRsaCreateKeyPriv', priv1(k)), ('RaRsaCreateKeyFromByteArray', priv8(k))))
    case = dict(op=fn, n=hex(n), e=e, d=hex(d)); R.report(case)
    ret, key = load(R, der, fn)
    if ret != 0 or not key.value: return dict(case, what=f'a valid key is refused with {ret}')
    if b.call('RaRsaKeyBitLength', key) != n.bit_length(): return dict(case, what='wrong key length reported')
    for _ in range(r.randrange(1, 4)):
        m = r.choice((0, 1, 2, n - 1, n - 2, r.randrange(n), r.randrange(n), r.randrange(n), k[3], k[4], r.choice((k[3], k[4])) * r.randrange(min(k[3], k[4]))))
        m %= n
        case = dict(n=hex(n), e=e, d=hex(d), m=hex(m))
        M, C, O = b.bn(m), b.bn(0, w + 1), b.bn(0, w + 1)
        R.report(dict(case, op='RaRsaEncrypt'))
        ret = b.call('RaRsaEncrypt', key, M, C)
        if ret or b.val(C) != pow(m, e, n): return dict(case, op='RaRsaEncrypt', what='wrong result', ret=ret, got=hex(b.val(C)))
        ret = b.call('RaRsaDecrypt', key, C, O)
        if ret or b.val(O) != m: return dict(case, op='RaRsaDecrypt', what='decryption does not return the message', ret=ret, got=hex(b.val(O)))
        ret = b.call('RaRsaSign', key, M, C)
        if ret or b.val(C) != pow(m, d, n): return dict(case, op='RaRsaSign', what='wrong result', ret=ret)
        s = b.val(C)
        if b.call('RaRsaVerify', key, C, M) != 0: return dict(case, op='RaRsaVerify', what='a genuine signature is rejected')
        # other pairs
        for _ in range(3):
            m2 = r.choice((m ^ 1 << r.randrange(n.bit_length()), r.randrange(n), n - m, m + n, -m))
            s2 = r.choice((s, s, s ^ 1 << r.randrange(n.bit_length()), r.randrange(n), s + n, n - s, r.getrandbits(64 * w + 40)))
            ok = 0 <= s2 < n and m2 == pow(s2, e, n) and 0 <= m2 < n
            S2, M2 = b.bn(s2), b.bn(m2)
            R.report(dict(case, op='RaRsaVerify', s=hex(s2), m2=hex(m2)))
            ret = b.call('RaRsaVerify', key, S2, M2)
            if (ret == 0) != ok: return dict(case, op='RaRsaVerify', s=hex(s2), m2=hex(m2), what='accepts a signature that does not decode to the message' if not ok else 'rejects a genuine signature')
            b.free(S2, M2)
        # out of range
        x = r.choice((n, n + 1, n + r.randrange(n), (1 << 64 * w) - 1, n << r.randrange(1, 70), -1, -r.randrange(1, n)))
        X = b.bn(x)
        for f in ('RaRsaEncrypt', 'RaRsaDecrypt', 'RaRsaSign'):
            R.report(dict(case, op=f, m=hex(x)))
            if b.call(f, key, X, O) == 0: return dict(case, op=f, m=hex(x), what='a message outside 0..n-1 is not refused')
        b.free(M, C, O, X)
    b.call('RaRsaDestroyKeyPair', key, res=None)
    b.sane('RSA')
    # public half
    fn, der = r.choice((('RaRsaCreateKeyPub', pub1(k)), ('RaRsaCreateKeyFromByteArray', pub8(k))))
    ret, key = load(R, der, fn)
    if ret: return dict(op=fn, n=hex(n), e=e, what=f'a valid key is refused with {ret}')
    M, C, O = b.bn(5 % n), b.bn(0, w + 1), b.bn(0, w + 1)
    if b.call('RaRsaEncrypt', key, M, C) or b.val(C) != pow(5 % n, e, n): return dict(op='RaRsaEncrypt', n=hex(n), e=e, m=5, what='wrong result')
    for f in ('RaRsaDecrypt', 'RaRsaSign'):
        if b.call(f, key, M, O) == 0: return dict(op=f, n=hex(n), what='a public key decrypts or signs')
    b.free(M, C, O)
    b.call('RaRsaDestroyKeyPair', key, res=None)
def op_keygen(R):
    """generated keys are valid"""
    b, r = R.b, R.rnd
    bits = r.choice((64, 96, 128, 130, 192, 256))
    case = dict(op='RaRsaCreateKeyPair', bits=bits); R.report(case)
    c = ctypes.c_void_p()
    ret = b.call('RaRsaCreateKeyPair', bits, ctypes.byref(c))
    if ret: return dict(case, what=f'failed with {ret}')
    R.report(dict(case, op='RaRsaVerifyKey'))
    if b.call('RaRsaVerifyKey', c): return dict(case, what='the generated key does not verify')
    n = ctypes.c_int(0)
    b.call('RaRsaPrivKeyToByteArray', c, None, 0, ctypes.byref(n))
    o = ctypes.create_string_buffer(max(1, n.value))
    if b.call('RaRsaPrivKeyToByteArray', c, o, n.value, None): return dict(case, what='the generated key cannot be written')
    k = parse_priv8(o.raw)
    if not k: return dict(case, what='the generated key is written wrongly', der=o.raw.hex())
    N, e, d, p, q, dp, dq, qi = k
    bad = [w for w, okk in (('modulus length', N.bit_length() == bits), ('n = p q', N == p * q), ('p prime', is_prime(p)), ('q prime', is_prime(q)), ('p != q', p != q), ('p and q of half the length', p.bit_length() == q.bit_length() == bits // 2),
        ('e d = 1 mod (p-1)(q-1)', (e * d - 1) % ((p - 1) * (q - 1)) == 0), ('dp', dp == d % (p - 1)), ('dq', dq == d % (q - 1)), ('qi', qi * q % p == 1 and qi < p)) if not okk]
    if bad: return dict(case, what='invalid key: ' + ', '.join(bad), key=[hex(x) for x in k])
    b.call('RaRsaDestroyKeyPair', c, res=None)
    b.sane('RaRsaCreateKeyPair')
def parse_priv8(der):
    def rd(b, i):
        t, l = b[i], b[i + 1]; i += 2
        if l & 0x80: n = l & 0x7f; l = int.from_bytes(b[i:i + n], 'big'); i += n
        return t, b[i:i + l], i + l
    try:
        t, c, _ = rd(der, 0)
        t, v, i = rd(c, 0); t, a, i = rd(c, i); t, o, i = rd(c, i)
        t, s, _ = rd(o, 0)
        out, i = [], 0
        while i < len(s): t, v, i = rd(s, i); out.append(int.from_bytes(v, 'big', signed=True))
        return out[1:] if len(out) == 9 else None
    except IndexError: return None
def op_verifykey(R):
    """key verification accepts valid keys and rejects inconsistent ones"""
    b, r = R.b, R.rnd
    k = list(somekey(R, r.choice((12, 16, 32, 64, 128, 256))))
    i = None
    if r.randrange(3):
        i = r.randrange(8)
        k[i] += r.choice((1, -1, 2, -2))
        if k[i] < 1 or i == 0 and k[0] % 2 == 0 or i in (3, 4) and k[i] < 2: return
    n, e, d, p, q, dp, dq, qi = k
    ok = is_prime(p) and is_prime(q) and p * q == n and (e * d) % ((p - 1) * (q - 1)) == 1 and d < (p - 1) * (q - 1) and dp == d % (p - 1) and dq == d % (q - 1) and qi * q % p == 1 and qi < p
    if not ok and p * q == n and is_prime(p) and is_prime(q) and i is None: return
    if p.bit_length() + q.bit_length() != n.bit_length(): ok = ok and None
    case = dict(op='RaRsaVerifyKey', key=[hex(x) for x in k]); R.report(case)
    ret, key = load(R, priv1(k), 'RaRsaCreateKeyPriv')
    if ret: return
    ret = b.call('RaRsaVerifyKey', key)
    if ok and ret: return dict(case, what=f'a valid key is rejected with {ret}')
    if ok is False and ret == 0 and e < n: return dict(case, what='an inconsistent key is accepted')
    b.call('RaRsaDestroyKeyPair', key, res=None)

# ---------------------------------------------------------------- C27
def op_der(R):
    b, r = R.b, R.rnd
    k = somekey(R)
    pr = r.randrange(2)
    if r.randrange(3) == 0:      # numbers of chosen byte lengths (values around the sign bit of a byte)
        nb = r.choice((1, 2, 8, 15, 16, 17, 60, 120, 124, 125, 126, 127, 128, 129, 130, 252, 253, 254, 255, 256, 257, 300, 600))
        n = r.choice((0x7f, 0x80, 0xff, 1, r.randrange(1, 256))) << 8 * (nb - 1) | r.getrandbits(8 * (nb - 1)) | 1
        if n < 3: n = 3
        k = [n]
        for _ in range(7):
            l = r.randrange(1, nb + 1); v = r.choice((0x7f, 0x80, 0xff, 1, 0, r.randrange(1, 256))) << 8 * (l - 1) | r.getrandbits(8 * (l - 1))
            k.append(min(v, n - 1))
        k = tuple(k)
    der = priv8(k) if pr else pub8(k)
    case = dict(op='RaRsaPrivKeyToByteArray' if pr else 'RaRsaPubKeyToByteArray', key=[hex(x) for x in (k if pr else k[:2])]); R.report(case)
    ret, key = load(R, *((priv1(k), 'RaRsaCreateKeyPriv') if pr else (pub1(k), 'RaRsaCreateKeyPub')) if r.randrange(2) else (der, 'RaRsaCreateKeyFromByteArray'))
    if ret: return dict(case, what=f'reading the key failed with {ret}')
    n = ctypes.c_int(-1)
    ret = b.call(case['op'], key, None, 0, ctypes.byref(n))
    if ret or n.value != len(der): return dict(case, what='the reported size is not the size of the DER encoding', got=n.value, expected=len(der), ret=ret)
    sz = r.choice((len(der), len(der), len(der) + 1 + r.randrange(40), len(der) - 1, r.randrange(len(der))))
    g = native.Guarded(sz, fill=0x5A)
    ctypes.c_int.from_buffer(n).value = -1
    ret = b.call(case['op'], key, ctypes.c_void_p(g.addr), sz, ctypes.byref(n) if r.randrange(2) else None)
    if sz < len(der):
        if ret == 0: return dict(case, what='a buffer that is too small is not reported', buffer=sz, needed=len(der))
    else:
        if ret: return dict(case, what=f'failed with {ret}', buffer=sz)
        if g.get()[:len(der)] != der: return dict(case, what='not the DER encoding of the key', got=g.get()[:len(der)].hex(), expected=der.hex())
        if any(x != 0x5A for x in g.get()[len(der):]): return dict(case, what='bytes behind the encoding were written')
        ret, key2 = load(R, g.get()[:len(der)], 'RaRsaCreateKeyFromByteArray')
        if ret: return dict(case, what=f'the written key cannot be read: {ret}')
        g2 = native.Guarded(len(der), fill=0)
        ret = b.call(case['op'], key2, ctypes.c_void_p(g2.addr), len(der), None)
        if ret or g2.get() != der: return dict(case, what='the key read back is another key')
        b.call('RaRsaDestroyKeyPair', key2, res=None)
    b.call('RaRsaDestroyKeyPair', key, res=None)
    b.sane('writing a key')

# ---------------------------------------------------------------- C26
def rnd_tlv(r, depth=0):
    t = r.choice((2, 2, 2, 4, 3, 6, 5, 0x30, 0x30, 0x31, 0, 0x20, r.randrange(256)))
    if t & 0x20 and depth < 14: c = b''.join(rnd_tlv(r, depth + 1) for _ in range(r.choice((0, 1, 1, 2, 3))))
    elif t == 6 and r.randrange(2): c = bytes.fromhex('2a864886f70d010101')[:r.randrange(1, 10)]
    else: c = r.randbytes(r.choice((0, 0, 1, 1, 2, 3, 8, 9, 17)))
    k = r.randrange(12)
    if k == 0 and t & 0x20: return bytes([t, 0x80]) + c + (b'\0\0' if r.randrange(4) else b'')
    if k == 1: return bytes([t]) + bytes([0x80 | r.randrange(1, 6)]) + r.choice((b'\0\0\0', b'\x7f\xff\xff\xff', b'\xff\xff\xff\xff', b'\x80\0\0\0', r.randbytes(4)))[:r.randrange(1, 5)] + c
    if k == 2: return bytes([t]) + b'\x84' + len(c).to_bytes(4, 'big') + c
    return tlv(t, c)
def op_parse(R):
    b, r = R.b, R.rnd
    k = somekey(R, r.choice((6, 16, 64, 128)))
    x = r.randrange(9)
    der = r.choice((priv1, pub1, priv8, pub8))(k)
    if x == 0: der = r.randbytes(r.randrange(0, 40))
    elif x <= 2: der = rnd_tlv(r)
    elif x == 3: der = der[:r.randrange(len(der) + 1)]
    elif x == 4:
        d = bytearray(der)
        for _ in range(r.randrange(1, 4)): d[r.randrange(len(d))] = r.choice((0, 1, 0x7f, 0x80, 0x81, 0x82, 0x84, 0xff, 0x30, 2, r.randrange(256)))
        der = bytes(d)
    elif x == 5:
        i = r.randrange(len(der)); der = der[:i] + rnd_tlv(r) + der[i:]
    elif x == 6:
        kk = list(k); kk[r.randrange(8)] = r.choice((0, -1, 1, 2, -r.getrandbits(70), r.getrandbits(200), r.getrandbits(64) * 2))
        der = r.choice((priv1, pub1, priv8, pub8))(kk)
    elif x == 7:
        n = r.randrange(1, 14)
        der = rnd_tlv(r) + (der if r.randrange(2) else b'')
        for _ in range(n): der = r.choice((lambda c: tlv(0x30, c), lambda c: b'\x30\x80' + c + b'\0\0', lambda c: b'\x30\x80' + c))(der)
    else:
        parts = [dint(v) for v in k]
        for _ in range(r.randrange(1, 3)): parts[r.randrange(8)] = r.choice((b'', b'\x02\x00', tlv(2, b'\xff'), tlv(2, b'\0'), b'\x02\x80', tlv(5, b''), tlv(2, b'\0' * r.randrange(1, 20)), tlv(2, b'\xff' * r.randrange(1, 20))))
        der = tlv(0x30, dint(0) + b''.join(parts)) if r.randrange(2) else tlv(0x30, parts[0] + parts[1])
        if r.randrange(3) == 0: der = tlv(0x30, r.choice((dint(0), b'')) + r.choice((OID, tlv(0x30, tlv(6, OID[4:4 + r.randrange(10)])))) + tlv(r.choice((3, 4)), r.choice((b'', b'\0', b'\1')) + der))
    fn = r.choice(('RaRsaCreateKeyPriv', 'RaRsaCreateKeyPub', 'RaRsaCreateKeyFromByteArray'))
    case = dict(op=fn, der=der.hex()); R.report(case)
    live = b.vp_live
    ret, key = load(R, der, fn)
    if ret == 0 and not key.value: return dict(case, what='success without a key')
    if ret == 0: b.call('RaRsaDestroyKeyPair', key, res=None)
    b.sane(fn)
    if b.vp_live != live: return dict(case, what=f'{b.vp_live - live} blocks leaked')
    R.hold = None

# ---------------------------------------------------------------- C28
HS = {0: ('sha1', 20), 1: ('sha256', 32), 2: ('sha512', 64), 3: ('md5', 16)}
def op_stream(R):
    b, r = R.b, R.rnd
    alg = r.randrange(4); seed = r.randbytes(r.choice((0, 1, 3, 16, 55, 56, 63, 64, 65, 119, 128, 200)))
    hn, hl = HS[alg]
    total = r.choice((1, hl - 1, hl, hl + 1, 3 * hl, 1000, r.randrange(1, 400)))
    def gen(parts):
        c = ctypes.c_void_p(); s = ctypes.create_string_buffer(seed + b'?')
        ret = b.call('RaRandomCreate', alg, s, len(seed), ctypes.byref(c))
        if ret: raise Bad(op='RaRandomCreate', what=f'failed with {ret}')
        out = b''
        for n in parts:
            g = native.Guarded(n, fill=0x11) if n else native.Guarded(1, fill=0x11)
            b.call('RaRandomBytes', c, n, ctypes.c_void_p(g.addr), res=None)
            out += g.get()[:n]
        b.call('RaRandomDestroy', c, res=None)
        return out
    parts = []
    while sum(parts) < total: parts.append(min(total - sum(parts), r.choice((0, 1, 2, hl - 1, hl, hl + 1, 2 * hl, r.randrange(1, 100)))))
    case = dict(op='RaRandomBytes', algorithm=hn, seed=seed.hex(), requests=parts); R.report(case)
    x, y, z = gen(parts), gen([total]), gen([1] * min(total, 300))
    if x != y: return dict(case, what='the bytes depend on how the request is divided', got=x.hex(), expected=y.hex())
    if z != y[:len(z)]: return dict(case, what='the bytes depend on how the request is divided', requests_='single bytes')
    if alg == 0 and len(y) > 60 and (y[:20] == y[20:40] or len(set(y)) < 5): return dict(case, what='the stream repeats')
    # ranges
    c = ctypes.c_void_p(); s = ctypes.create_string_buffer(seed + b'?')
    b.call('RaRandomCreate', alg, s, len(seed), ctypes.byref(c))
    for _ in range(30):
        lo = r.choice((0, 1, 2**31 - 1, 2**31, 2**32 - 1, r.getrandbits(32), r.getrandbits(8))); hi = r.choice((lo, min(2**32 - 1, lo + 1), 2**32 - 1, r.randrange(lo, 2**32)))
        case = dict(op='RaRandomInt', min=lo, max=hi, seed=seed.hex(), algorithm=hn); R.report(case)
        v = b.call('RaRandomInt', c, U32(lo), U32(hi), res=U32)
        if not lo <= v <= hi: return dict(case, what='outside the range', got=v)
        d = b.call('RaRandom', c, res=D)
        if not 0 < d < 1: return dict(op='RaRandom', seed=seed.hex(), algorithm=hn, what='outside the open interval (0,1)', got=d)
    if r.randrange(20) == 0:
        # the whole 32-bit range is served
        vs = [b.call('RaRandomInt', c, U32(0), U32(2**32 - 1), res=U32) for _ in range(40)]
        if len(set(vs)) < 5: return dict(op='RaRandomInt', min=0, max=2**32 - 1, seed=seed.hex(), algorithm=hn, what='always returns the same values', got=vs[:5])
        vs = [b.call('RaRandomInt', c, U32(5), U32(8), res=U32) for _ in range(120)]
        if set(vs) != {5, 6, 7, 8}: return dict(op='RaRandomInt', min=5, max=8, seed=seed.hex(), algorithm=hn, what='does not reach every value of the range', got=sorted(set(vs)))
    b.call('RaRandomDestroy', c, res=None)
    b.sane('random generator')
def zero_draw(R):
    """drawn fractions lie strictly between 0 and 1 even if the stream supplies zero bytes or all ones: put them into the buffer"""
    b, r = R.b, R.rnd
    L = R.L
    c = ctypes.c_void_p(); s = ctypes.create_string_buffer(b'x')
    b.call('RaRandomCreate', 0, s, 1, ctypes.byref(c))
    for pat in (b'\0\0\0\0', b'\xff\xff\xff\xff', b'\xff\xff\xff\xfe', b'\0\0\0\1', b'\x80\0\0\0', b'\x7f\xff\xff\xff'):
        for off in (0, 4, 16, 13, 14, 17, 18, 19):
            buf = (pat * 6)[-(off % 4):] + pat * 6 if off % 4 else pat * 6
            data = pat * 5
            ctypes.memmove(c.value + L['rb'], data[:20], 20)
            ctypes.c_int32.from_address(c.value + L['ro']).value = off & ~3
            case = dict(op='RaRandom', bytes=pat.hex()); R.report(case)
            d = b.call('RaRandom', c, res=D)
            if not 0 < d < 1: return dict(case, what='outside the open interval (0,1)', got=d)
            lo, hi = r.choice(((0, 2**32 - 1), (5, 5), (7, 2**32 - 1), (0, 1), (2**31, 2**32 - 1), (2**32 - 2, 2**32 - 1), (1, 2**32 - 1)))
            ctypes.memmove(c.value + L['rb'], data[:20], 20)
            ctypes.c_int32.from_address(c.value + L['ro']).value = off & ~3
            case = dict(op='RaRandomInt', bytes=pat.hex(), min=lo, max=hi); R.report(case)
            v = b.call('RaRandomInt', c, U32(lo), U32(hi), res=U32)
            if not lo <= v <= hi: return dict(case, what='outside the range', got=v)
    b.call('RaRandomDestroy', c, res=None)

# ---------------------------------------------------------------- C29
def rng(R, seed=None):
    c = ctypes.c_void_p(); s = ctypes.create_string_buffer(seed or R.rnd.randbytes(8))
    R.b.call('RaRandomCreate', R.rnd.randrange(4), s, 8, ctypes.byref(c))
    return c
SEEN = {}
def op_rbits(R):
    b, r = R.b, R.rnd
    n = r.choice((0, 1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, r.randrange(1, 400), r.randrange(1, 70)))
    f = r.choice(('BnGenRandom', 'BnGetRandomOdd', 'BnGetRandomRSA'))
    if n < 1: f = 'BnGenRandom'
    case = dict(op=f, bits=n); R.report(case)
    c = rng(R)
    w = max(1, (n + 63) // 64)
    X = b.bn(-R.num(w), w)
    ret = b.call(f, X, n, c)
    if ret: return dict(case, what=f'failed with {ret}')
    v = b.val(X)
    if v < 0 or v >> n if n else v: 
        if not (f == 'BnGetRandomOdd' and n == 0): return dict(case, what='not in 0..2^n-1', got=hex(v))
    if f != 'BnGenRandom' and not v & 1: return dict(case, what='even', got=hex(v))
    if f == 'BnGetRandomRSA' and v.bit_length() != n: return dict(case, what='not exactly n bits', got=hex(v))
    k = (f, n); t = SEEN.setdefault(k, [0, (1 << n) - 1, 0])
    t[0] |= v; t[1] &= v; t[2] += 1
    if t[2] == 60:
        want0 = (1 << n) - 1; want1 = 0
        if f != 'BnGenRandom': want1 |= 1
        if f == 'BnGetRandomRSA': want1 |= 1 << (n - 1)
        if t[0] != want0: return dict(case, what='some bit is never set in 60 draws', bits_=hex(t[0]))
        if f == 'BnGenRandom' and t[1] or f == 'BnGetRandomOdd' and t[1] != (want1 & ((1 << n) - 1)): return dict(case, what='some bit is always set in 60 draws', bits_=hex(t[1]))
        if f == 'BnGetRandomRSA' and t[1] & ~(want1 | 3 << max(0, n - 2)): return dict(case, what='some bit is always set in 60 draws', bits_=hex(t[1]))
    # too small a destination
    if n > 128 and r.randrange(3) == 0 and R.ndebug:
        Y = b.bn(7, 2)
        if b.call(f, Y, n, c) == 0: return dict(case, what='a destination that is too small is not refused')
        b.free(Y)
    b.call('RaRandomDestroy', c, res=None); b.free(X)
    b.sane(f)
def op_rprime(R):
    b, r = R.b, R.rnd
    n = r.choice((2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 31, 32, 33, 48, 62, 63, 64, 65, 66, 96, 127, 128, 129, 160))
    case = dict(op='RaGenPrimeNumberEx', bits=n); R.report(case)
    c = rng(R)
    X = b.bn(0, (n + 63) // 64)
    ret = b.call('RaGenPrimeNumberEx', X, n, None, None, c)
    if ret: return dict(case, what=f'failed with {ret}')
    v = b.val(X)
    if v.bit_length() != n or v < 0: return dict(case, what='not exactly the requested bit length', got=hex(v))
    if not is_prime(v): return dict(case, what='not prime', got=hex(v))
    b.call('RaRandomDestroy', c, res=None); b.free(X)

# ---------------------------------------------------------------- C30
def liars(n):
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    k = 0
    for a in range(2, n - 1):
        x = pow(a, d, n)
        if x in (1, n - 1): k += 1; continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: k += 1; break
    return k / max(1, n - 3)
SMALL = [0]
def op_isprime(R):
    b, r = R.b, R.rnd
    k = r.randrange(8)
    if k < 4: v = SMALL[0]; SMALL[0] += 1
    elif k == 4: v = prime(r, r.choice((16, 31, 32, 33, 63, 64, 65, 128, 129, 192, 256)))
    elif k == 5: v = prime(r, r.choice((40, 64, 100))) * prime(r, r.choice((40, 64, 70)))
    elif k == 6: v = r.choice((2, 4, 6)) * max(1, R.num(3))
    else:
        s = r.randrange(1, 130); v = None      # primes with n - 1 divisible by a high power of two, and close to powers of two
        for _ in range(300):
            x = (r.getrandbits(r.randrange(1, 40)) | 1) << s | 1
            if is_prime(x): v = x; break
        if v is None: return
    case = dict(op='RaIsPrimeNumber', n=hex(v)); R.report(case)
    X = b.bn(v, neg=False)
    live = b.vp_live
    ret = b.call('RaIsPrimeNumber', X)
    p = is_prime(v)
    if p and ret: return dict(case, what=f'a prime is rejected with {ret}')
    if not p and not ret:
        if v < 5000 and v % 2 and v > 1:
            l = liars(v)
            for _ in range(20 if l < .3 else 60):
                if b.call('RaIsPrimeNumber', X): break
            else: return dict(case, what='a composite is accepted again and again')
        else: return dict(case, what='a composite is accepted')
    if b.val(X) != v: return dict(case, what='the operand changed')
    if b.vp_live != live: return dict(case, what='memory leaked')
    b.free(X)
    b.sane('RaIsPrimeNumber')
def op_rounds(R):
    """composites with the largest possible share of liars are not accepted more often than the number of rounds allows"""
    b, r = R.b, R.rnd
    # n = (2k+1)(4k+1), both prime, k odd: about a quarter of the bases lie
    while True:
        k = r.getrandbits(20) | 1
        if is_prime(2 * k + 1) and is_prime(4 * k + 1): break
    n = (2 * k + 1) * (4 * k + 1)
    case = dict(op='RaIsPrimeNumber', n=hex(n), runs=1500); R.report(case)
    X = b.bn(n); acc = 0
    for _ in range(1500):
        if b.call('RaIsPrimeNumber', X) == 0: acc += 1
    if acc > 22: return dict(case, what='a composite with many liars is accepted more often than five Miller-Rabin rounds allow', accepted=acc)
    b.free(X)

# ---------------------------------------------------------------- objects
CIPH = [('Aes', lambda r: [r.randbytes(32), r.randrange(3), r.randrange(4)], 16), ('Des', lambda r: [r.randbytes(24), r.randrange(3), r.randrange(4)], 8), ('Seed', lambda r: [r.randbytes(16), r.randrange(4)], 16),
        ('Aria', lambda r: [r.randbytes(32), r.randrange(3), r.randrange(4)], 16), ('Blowfish', lambda r: [r.randbytes(56), r.randrange(1, 57), r.randrange(4)], 8)]
DIG = [('Sha1', [], 20), ('Sha2', [0], 64), ('Md5', [], 16), ('Md4', [], 16), ('Md2', [], 16), ('Has160', [], 20)]
def kinds(L):
    return CIPH + [('Rc4', lambda r: (lambda k: [k, len(k)])(r.randbytes(r.choice((1, 5, 16, 256)))), 0)]
class Obj:
    """one object and a script of calls; run(step) performs a step and returns its output bytes"""
    def __init__(self, R, spec): self.R = R; self.s = spec; self.c = ctypes.c_void_p(); self.i = 0; self.out = []
    @staticmethod
    def make(r, L):
        k = r.randrange(3)
        if k == 0:
            nm, mk, bs = r.choice(kinds(L)); steps = []
            args = mk(r)
            if nm != 'Rc4': steps.append(('iv', r.randbytes(bs)))
            for _ in range(r.randrange(1, 5)): steps.append((r.choice(('Encrypt', 'Encrypt', 'Decrypt')) if nm == 'Rc4' else 'Encrypt', r.randbytes(r.choice((0, 1, 7, 8, 15, 16, 17, 40)))))
            if nm != 'Rc4' and r.randrange(2): steps.append(('EncryptFinal', r.randbytes(r.choice((0, 3, 16)))))
            return dict(kind=nm, args=[a.hex() if isinstance(a, bytes) else a for a in args], steps=[(a, x.hex()) for a, x in steps], bs=bs)
        if k == 1:
            nm, a, n = r.choice(DIG)
            if nm == 'Sha2': a = [L['d%d' % r.randrange(6)]]
            return dict(kind=nm, args=list(a), steps=[('Update', r.randbytes(r.choice((0, 1, 3, 55, 63, 64, 65, 100, 128, 200))).hex()) for _ in range(r.randrange(1, 5))] + ([('Final', '')] if r.randrange(2) else []), bs=n)
        return dict(kind='Random', args=[r.randrange(4), r.randbytes(9).hex()], steps=[('Bytes', r.choice((1, 4, 16, 20, 33, 64, 100))) for _ in range(r.randrange(1, 5))], bs=0)
    def create(self):
        b, s = self.R.b, self.s
        a = [bytes.fromhex(x) if isinstance(x, str) else x for x in s['args']]
        if s['kind'] == 'Random': a = [a[0], ctypes.create_string_buffer(a[1]), 9]
        ret = b.call(f'Ra{s["kind"]}Create', *a, ctypes.byref(self.c))
        return ret
    def step(self):
        b, s = self.R.b, self.s
        op, d = s['steps'][self.i]; self.i += 1
        k = 'Ra' + s['kind']
        if op == 'Bytes':
            o = ctypes.create_string_buffer(d); b.call('RaRandomBytes', self.c, d, o, res=None); r = o.raw
        elif op == 'iv': b.call(k + 'SetIV', self.c, bytes.fromhex(d), res=None); r = b''
        elif op == 'Update': x = bytes.fromhex(d); b.call(k + 'Update', self.c, x, len(x), res=None); r = b''
        elif op == 'Final': o = ctypes.create_string_buffer(80); b.call(k + 'Final', self.c, o, res=None); r = o.raw
        else:
            x = bytes.fromhex(d); o = ctypes.create_string_buffer(len(x) + 64)
            if op == 'EncryptFinal': n = b.call(k + op, self.c, x, len(x), o, 2)
            else: n = b.call(k + op, self.c, x, len(x), o)
            r = struct.pack('<i', n) + o.raw
        self.out.append(r)
    def done(self): return self.i >= len(self.s['steps'])
    def destroy(self): self.R.b.call(f'Ra{self.s["kind"]}Destroy', self.c, res=None)

def op_indep(R):
    b, r = R.b, R.rnd
    b.reset()
    specs = [Obj.make(r, R.L) for _ in range(r.choice((2, 2, 3)))]
    if r.randrange(2): specs[1] = dict(Obj.make(r, R.L)); specs[1] = json.loads(json.dumps(specs[0])) if r.randrange(3) == 0 else specs[1]
    if r.randrange(2):     # two of a kind with different keys
        for _ in range(40):
            x = Obj.make(r, R.L)
            if x['kind'] == specs[0]['kind']: specs[1] = x; break
    alone = []
    R.report(dict(op='single objects', objects=specs))
    for s in specs:
        o = Obj(R, s); o.create()
        while not o.done(): o.step()
        o.destroy(); alone.append(o.out)
    obs = [Obj(R, s) for s in specs]; order = []
    started = [False] * len(obs); dead = [False] * len(obs)
    R.report(dict(op='interleaved objects', objects=specs))
    while not all(dead):
        i = r.choice([j for j in range(len(obs)) if not dead[j]])
        o = obs[i]
        if not started[i]:
            ret = o.create(); started[i] = True; order.append(f'create {i}')
            if ret: return dict(op='create', objects=specs, what=f'failed with {ret}')
        elif o.done(): o.destroy(); dead[i] = True; order.append(f'destroy {i}')
        else: o.step(); order.append(f'step {i}')
    for i, o in enumerate(obs):
        if o.out != alone[i]: return dict(what=f'object {i} gives another result when its calls are interleaved with those of other objects', objects=specs, order=order)
    b.sane('objects')

def op_wipe(R):
    """the storage released by a Destroy call does not depend on keys and data"""
    b, r = R.b, R.rnd
    s1 = Obj.make(r, R.L)
    s2 = json.loads(json.dumps(s1))
    def other(h): return r.randbytes(len(h) // 2).hex()
    s2['args'] = [other(a) if isinstance(a, str) else a for a in s2['args']]
    s2['steps'] = [(o, other(d) if isinstance(d, str) else d) for o, d in s2['steps']]
    res = []
    for s in (s1, s2):
        b.reset()
        o = Obj(R, s); R.report(dict(op='destroy', object=s))
        if o.create(): return dict(op='create', object=s, what='failed')
        while not o.done(): o.step()
        b.setv('vp_watch', 1); o.destroy(); b.setv('vp_watch', 0)
        n = b.vp_nfreed; fr = []
        for i in range(n):
            k = ctypes.c_int(0); p = b.call('vp_freed', i, ctypes.byref(k), res=P); fr.append(ctypes.string_at(p, k.value))
        res.append(fr)
        if b.vp_live: return dict(op='destroy', object=s, what=f'{b.vp_live} blocks are not released')
        b.sane('destroy')
    x, y = res
    if len(x) != len(y): return
    for i, (u, v) in enumerate(zip(x, y)):
        d = [j for j in range(min(len(u), len(v))) if u[j] != v[j]]
        if d: return dict(op=f'Ra{s1["kind"]}Destroy', objects=[s1, s2], what=f'{len(d)} bytes of the released storage (block {i}, {len(u)} bytes, first at offset {d[0]}) depend on the key or data', first=u[d[0]:d[0] + 16].hex(), second=v[d[0]:d[0] + 16].hex())
def op_wipe_key(R):
    b, r = R.b, R.rnd
    bits = r.choice((64, 128, 256, 512))
    res, ks = [], []
    ks.append(somekey(R, bits))
    for i in range(200):
        k = KEYS[bits][i] if i < len(KEYS[bits]) else mkkey(r, bits)
        if k not in ks and all(len(dint(a)) == len(dint(c)) for a, c in zip(k, ks[0])): ks.append(k); break
    if len(ks) < 2: return
    via = r.randrange(2)
    for k in ks:
        b.reset(); R.report(dict(op='RaRsaDestroyKeyPair', key=[hex(x) for x in k]))
        ret, key = load(R, priv1(k), 'RaRsaCreateKeyPriv')
        if ret: return dict(op='RaRsaCreateKeyPriv', what='failed')
        M, C = b.bn(3), b.bn(0, 12); b.call('RaRsaEncrypt', key, M, C); b.call('RaRsaDecrypt', key, C, M)
        live = b.vp_live
        b.setv('vp_watch', 1); b.call('RaRsaDestroyKeyPair', key, res=None); b.setv('vp_watch', 0)
        fr = []
        for i in range(b.vp_nfreed):
            q = ctypes.c_int(0); p = b.call('vp_freed', i, ctypes.byref(q), res=P); fr.append(ctypes.string_at(p, q.value))
        res.append(fr)
        if b.vp_live != 2: return dict(op='RaRsaDestroyKeyPair', key=[hex(x) for x in k], what=f'{b.vp_live - 2} blocks are not released')
        b.sane('destroy')
    for i, (u, v) in enumerate(zip(*res)):
        d = [j for j in range(min(len(u), len(v))) if u[j] != v[j]]
        if d: return dict(op='RaRsaDestroyKeyPair', keys=[[hex(x) for x in k] for k in ks], what=f'{len(d)} bytes of released block {i} depend on the key')

# ---------------------------------------------------------------- C32
def fault_ops(R):
    """operations that allocate: name -> (prepare() -> state, run(state) -> (ok, cleanup))"""
    b, r = R.b, R.rnd
    ops = {}
    def creator(s):
        def prep(): return None
        def run(_):
            o = Obj(R, s); ret = o.create()
            return ret == 0, (o.destroy if ret == 0 else None), ret
        return prep, run
    for nm, mk, bs in kinds(R.L): ops[f'Ra{nm}Create'] = creator(dict(kind=nm, args=[a.hex() if isinstance(a, bytes) else a for a in mk(r)], steps=[], bs=bs))
    for nm, a, n in DIG: ops[f'Ra{nm}Create'] = creator(dict(kind=nm, args=[R.L['d0']] if nm == 'Sha2' else list(a), steps=[], bs=n))
    for alg in range(4): ops[f'RaRandomCreate({alg})'] = creator(dict(kind='Random', args=[alg, '112233445566778899'], steps=[], bs=0))
    def bnop(f, vals, outs, extra=(), ok=lambda x: x == 0, null=()):
        def prep():
            return [b.bn(v) for v in vals], [b.bn(0, w) for w in outs]
        def run(st):
            ret = b.call(f, *st[1], *st[0], *extra)
            return ok(ret), None, ret
        return prep, run
    A, B_ = r.getrandbits(400) | 1 << 399, r.getrandbits(200) | 1 << 199
    ops['BnMod'] = bnop('BnMod', [A, B_], [8]); ops['BnDiv'] = bnop('BnDiv', [A, B_], [8, 8])
    ops['GetGCD'] = bnop('GetGCD', [A, B_], [8]); ops['GetGCDEx'] = bnop('GetGCDEx', [A, B_], [8, 8, 8], (1,))
    def ptr(f, n):
        def run(_):
            p = b.call(f, n, res=P)
            return bool(p), ((lambda: b.call('BnFree', ctypes.c_void_p(p), res=None)) if p else None), p
        return (lambda: None), run
    ops['BnNewW'] = ptr('BnNewW', 3); ops['BnNew'] = ptr('BnNew', 300)
    def clone():
        def run(st):
            p = b.call('BnClone', st, res=P)
            return bool(p), ((lambda: b.call('BnFree', ctypes.c_void_p(p), res=None)) if p else None), p
        return (lambda: b.bn(A)), run
    ops['BnClone'] = clone()
    def tobytes():
        def run(st):
            o = ctypes.create_string_buffer(200); n = b.call('BnToByteArray', st, o, 200)
            return n > 0, None, n
        return (lambda: b.bn(-A)), run
    ops['BnToByteArray'] = tobytes()
    def genrandom():
        def run(st): ret = b.call('BnGenRandom', st, 200, None); return ret == 0, None, ret
        return (lambda: b.bn(0, 5)), run
    ops['BnGenRandom(NULL)'] = genrandom()
    n = prime(r, 130)
    def mont():
        def run(st):
            c = ctypes.c_void_p(); ret = b.call('RaMontCreate', st, ctypes.byref(c))
            return ret == 0, ((lambda: b.call('RaMontDestroy', c, res=None)) if ret == 0 else None), ret
        return (lambda: b.bn(n)), run
    ops['RaMontCreate'] = mont()
    def exp():
        def prep():
            N = b.bn(n); c = ctypes.c_void_p(); b.call('RaMontCreate', N, ctypes.byref(c)); return c, b.bn(5), b.bn(12345678901234567), b.bn(0, 4)
        def run(st): ret = b.call('RaMontExpMod', st[0], st[3], st[1], st[2]); return ret == 0 and b.val(st[3]) == pow(5, 12345678901234567, n), None, ret
        return prep, run
    ops['RaMontExpMod'] = exp()
    def isp():
        def run(st): ret = b.call('RaIsPrimeNumber', st); return ret == 0, None, ret
        return (lambda: b.bn(n)), run
    ops['RaIsPrimeNumber'] = isp()
    def genp(null):
        def prep(): return b.bn(0, 2), (None if null else rng(R, b'abcdefgh'))
        def run(st): ret = b.call('RaGenPrimeNumberEx', st[0], 40, None, None, st[1]); return ret == 0, None, ret
        return prep, run
    ops['RaGenPrimeNumberEx'] = genp(False); ops['RaGenPrimeNumberEx(NULL)'] = genp(True)
    def keygen():
        def run(_):
            c = ctypes.c_void_p(); ret = b.call('RaRsaCreateKeyPair', 64, ctypes.byref(c))
            return ret == 0, ((lambda: b.call('RaRsaDestroyKeyPair', c, res=None)) if ret == 0 else None), ret
        return (lambda: None), run
    ops['RaRsaCreateKeyPair'] = keygen()
    k = somekey(R, 128)
    while k[0].bit_length() != 128: k = mkkey(r, 128)
    def reader(fn, der):
        g = native.Guarded(len(der), data=der)
        def run(_):
            c = ctypes.c_void_p(); ret = b.call(fn, ctypes.c_void_p(g.addr), len(der), ctypes.byref(c))
            return ret == 0, ((lambda: b.call('RaRsaDestroyKeyPair', c, res=None)) if ret == 0 else None), ret
        run.hold = g
        return (lambda: None), run
    ops['RaRsaCreateKeyPriv'] = reader('RaRsaCreateKeyPriv', priv1(k)); ops['RaRsaCreateKeyPub'] = reader('RaRsaCreateKeyPub', pub1(k))
    ops['RaRsaCreateKeyFromByteArray'] = reader('RaRsaCreateKeyFromByteArray', priv8(k)); ops['RaRsaCreateKeyFromByteArray(public)'] = reader('RaRsaCreateKeyFromByteArray', pub8(k))
    def keyop(f):
        def prep(): return load(R, priv1(k), 'RaRsaCreateKeyPriv')[1]
        def run(key):
            o = ctypes.create_string_buffer(2000); n = ctypes.c_int(0)
            if f == 'RaRsaVerify':
                m = b.call  # the numbers are prepared without faults
                ret = b.call(f, key, keyop.s, keyop.m); return ret == 0, None, ret
            if f == 'RaRsaVerifyKey': ret = b.call(f, key); return ret == 0, None, ret
            if f in ('RaRsaEncrypt', 'RaRsaDecrypt', 'RaRsaSign'): ret = b.call(f, key, keyop.m, keyop.o); return ret == 0, None, ret
            ret = b.call(f, key, o, 2000, ctypes.byref(n)); return ret == 0, None, ret
        def prep2():
            keyop.m = b.bn(77); keyop.s = b.bn(pow(77, k[2], k[0])); keyop.o = b.bn(0, 4)
            return prep()
        return prep2, run
    for f in ('RaRsaVerify', 'RaRsaVerifyKey', 'RaRsaEncrypt', 'RaRsaDecrypt', 'RaRsaSign', 'RaRsaPrivKeyToByteArray', 'RaRsaPubKeyToByteArray'): ops[f] = keyop(f)
    return ops
def faults(R):
    b, r = R.b, R.rnd
    first = True
    while first or time.time() < R.end:
        b.reset()
        ops = fault_ops(R)
        for name, (prep, run) in ops.items():
            if not first and r.randrange(3): continue
            b.reset(); st = prep(); live = b.vp_live
            b.setv('vp_count', 0)
            R.report(dict(op=name, failing='none'))
            ok, fin, ret = run(st)
            total = b.vp_count
            if not ok: return dict(op=name, what=f'fails without any failed allocation: {ret}')
            if fin: fin()
            b.sane(name)
            if b.vp_live != live: return dict(op=name, what=f'{b.vp_live - live} blocks leaked without any failed allocation')
            # every single allocation (the first 60 and a sample), all from k on, and random subsets
            ks = list(range(min(total, 60))) + [r.randrange(total) for _ in range(12) if total > 60]
            plans = [(1, k, None) for k in ks] + [(2, k, None) for k in ks[:40]] + [(3, 0, bytes(r.choice((0, 0, 1)) for _ in range(min(total, 400)))) for _ in range(8 if total > 1 else 0)]
            for mode, k, mask in plans:
                b.reset(); st = prep(); live = b.vp_live; nb = b.call('vp_blocks')
                b.setv('vp_count', 0)
                if mask is not None:
                    mb = ctypes.create_string_buffer(mask); b.mask.value = ctypes.addressof(mb); b.setv('vp_fail_len', len(mask))
                b.setv('vp_fail_at', k)
                case = dict(op=name, failing=f'allocation {k}' if mode == 1 else f'allocations from {k} on' if mode == 2 else 'allocations ' + str([i for i, x in enumerate(mask) if x][:30])); R.report(case)
                b.setv('vp_fail_mode', mode)
                ok, fin, ret = run(st)
                b.setv('vp_fail_mode', 0)
                cnt = b.vp_count
                hit = k < cnt if mode != 3 else any(mask[:cnt])
                if hit and ok: return dict(case, what='the failed allocation is not reported')
                if fin: fin()
                b.sane(name)
                if b.vp_live != live: return dict(case, what=f'{b.vp_live - live} blocks leaked')
        first = False

OPS = {'C23': [(op_gcd, 1)], 'C24': [(op_exp, 1)], 'C25': [(op_rsa, 12), (op_verifykey, 3), (op_keygen, 1)], 'C26': [(op_parse, 1)], 'C27': [(op_der, 1)], 'C28': [(op_stream, 30), (zero_draw, 1)],
       'C29': [(op_rbits, 30), (op_rprime, 3)], 'C30': [(op_isprime, 400), (op_rounds, 1)], 'C31': [(op_wipe, 12), (op_wipe_key, 1)], 'C33': [(op_indep, 1)]}
NDEBUG = {'C23': 1, 'C24': 1, 'C25': 1, 'C29': 1}
def layout():
    L = bnnat.layout()
    L.update(front.layout({'rb': 'offsetof(struct RaRandom,buffer)', 'ro': 'offsetof(struct RaRandom,buffer_offset)', **{'d%d' % i: e for i, e in enumerate(('RA_DGST_SHA2_256', 'RA_DGST_SHA2_224', 'RA_DGST_SHA2_512', 'RA_DGST_SHA2_384', 'RA_DGST_SHA2_512_224', 'RA_DGST_SHA2_512_256'))}}))
    return L
def search(pid, seconds, seed, workers=4):
    """(evaluations, violation or None)"""
    from concurrent.futures import ThreadPoolExecutor
    tmp = tempfile.mkdtemp(prefix='irvo')
    try:
        nd = NDEBUG.get(pid, 0)
        so = build(tmp, nd); L = layout()
        def one(w):
            def fn(report):
                R = Run(so, L, seed * 1000 + w, seconds, report); R.ndebug = nd
                try:
                    if pid == 'C32': return faults(R)
                    ops = OPS[pid]; n = 0
                    if w == 0:
                        for f, _ in ops:
                            v = f(R)
                            if v: return v
                    while time.time() < R.end:
                        f = R.rnd.choices([o for o, _ in ops], [q for _, q in ops])[0]
                        v = f(R)
                        if v: return v
                        n += 1
                        if not R.b.call('vp_room'): R.b.reset()
                except Bad as e: return e.k
            return native.forked(fn, seconds + 60)
        with ThreadPoolExecutor(workers) as ex: rs = list(ex.map(one, range(workers)))
        n = sum(x for x, _ in rs)
        v = next((v for _, v in rs if v), None)
        return n, v
    finally: shutil.rmtree(tmp, ignore_errors=True)
