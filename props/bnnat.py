"""Concrete differential runs of the big-number functions of the compiled sources (numbers ending at inaccessible pages, canaries in front)."""
import ctypes, random, time, mmap
from irv import front, native
P, I, U64, I64, U32 = ctypes.c_void_p, ctypes.c_int, ctypes.c_uint64, ctypes.c_int64, ctypes.c_uint32
M64 = (1 << 64) - 1
CAN = 0xA5
OOM = None

def layout():
    L = front.layout({'length': 'offsetof(struct RaBigNumber,length)', 'max_length': 'offsetof(struct RaBigNumber,max_length)', 'sign': 'offsetof(struct RaBigNumber,sign)',
        'data': 'offsetof(struct RaBigNumber,data)', 'size': 'sizeof(struct RaBigNumber)', 'word': 'sizeof(bn_uint_t)', 'E_SIZE': 'RA_ERR_NUMBER_SIZE', 'E_DIV0': 'RA_ERR_DIVIDED_BY_ZERO'}, '#include "racrypt_bn.h"\n')
    return L

class Arena:
    """memory of up to cap words that ends at an inaccessible page"""
    def __init__(self, cap=600):
        pg = 4096
        self.sz = ((cap * 8 + 256 + pg - 1) // pg) * pg
        self.m = mmap.mmap(-1, self.sz + 2 * pg)
        b = ctypes.addressof(ctypes.c_char.from_buffer(self.m))
        self.base = b + pg
        lc = ctypes.CDLL(None)
        lc.mprotect(ctypes.c_void_p(b), ctypes.c_size_t(pg), 0)
        lc.mprotect(ctypes.c_void_p(self.base + self.sz), ctypes.c_size_t(pg), 0)
        self.end = self.base + self.sz
    def fill(self, n): ctypes.memset(self.end - n, CAN, n)

class Bn:
    """a big number with exactly max words of storage"""
    def __init__(self, L): self.L = L; self.a = Arena(); self.h = Arena(8)
    def set(self, v, mx, neg0=False, rnd=None):
        L = self.L
        m = abs(v); n = max(1, (m.bit_length() + 63) // 64)
        mx = max(mx, 2, n)
        self.mx, self.n0, self.v0 = mx, n, v
        self.sign0 = 1 if v < 0 or neg0 else 0
        self.a.fill(mx * 8 + 128)
        self.data = self.a.end - mx * 8
        rest = bytes([0xC3]) * (8 * (mx - n)) if rnd is None else rnd.randbytes(8 * (mx - n))
        self.raw0 = m.to_bytes(8 * n, 'little') + rest
        ctypes.memmove(self.data, self.raw0, 8 * mx)
        self.h.fill(L['size'] + 64)
        self.addr = self.h.end - L['size']
        self.w('length', n); self.w('max_length', mx); self.w('sign', self.sign0)
        ctypes.c_uint64.from_address(self.addr + L['data']).value = self.data
        return self
    def w(self, f, v): ctypes.c_int32.from_address(self.addr + self.L[f]).value = v
    def r(self, f): return ctypes.c_int32.from_address(self.addr + self.L[f]).value
    def raw(self): return ctypes.string_at(self.data, 8 * self.mx)
    def contained(self):
        if ctypes.string_at(self.data - 128, 128) != bytes([CAN]) * 128: return 'words in front of the storage were written'
        if ctypes.string_at(self.addr - 64, 64) != bytes([CAN]) * 64: return 'memory in front of the structure was written'
        if self.r('max_length') != self.mx: return 'the capacity field changed'
        if ctypes.c_uint64.from_address(self.addr + self.L['data']).value != self.data: return 'the data pointer changed'
    def formed(self):
        n = self.r('length')
        if not 1 <= n <= self.mx: return f'length {n} outside 1..{self.mx}'
        if self.r('sign') not in (0, 1): return f'sign flag {self.r("sign")}'
        if n > 1 and ctypes.c_uint64.from_address(self.data + 8 * n - 8).value == 0: return f'the top word of {n} is zero'
    def mag(self): return int.from_bytes(ctypes.string_at(self.data, 8 * max(0, min(self.mx, self.r('length')))), 'little')
    def val(self): return -self.mag() if self.r('sign') else self.mag()
    def same(self):
        return self.raw() == self.raw0 and self.r('length') == self.n0 and self.r('sign') == self.sign0

class Run:
    def __init__(self, so, L, seed, seconds, report):
        self.l = native.Lib(so); self.L = L; self.rnd = random.Random(seed); self.report = report; self.end = time.time() + seconds
        self.pool = [Bn(L) for _ in range(5)]
        self.bufs = Arena(900)
        self.prev = []
        self.n = 0
    def fn(self, name, res, *a): return self.l.fn(name, res, *a)
    # -------- operands
    def word(self):
        r = self.rnd; k = r.randrange(12)
        if k < 2: return 0
        if k < 4: return M64
        if k == 4: return r.choice((1, 2, M64 - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 1 << 32, (1 << 32) - 1))
        if k == 5: return 1 << r.randrange(64)
        if k == 6: return M64 ^ ((1 << r.randrange(64)) - 1)
        if k == 7: return (1 << r.randrange(64)) - 1
        return r.randrange(1 << 64)
    def mag(self, maxw=None):
        r = self.rnd
        n = r.choice((1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 12, 17, 33)) if maxw is None else r.randrange(1, maxw + 1)
        if self.prev and r.randrange(5) == 0:
            v = r.choice(self.prev)
            k = r.randrange(7)
            v = (v, v + 1, v - 1, v ^ (1 << r.randrange(max(1, v.bit_length()))), v << 64 * r.randrange(3), v >> 64, -v)[k]
            return abs(v)
        st = r.randrange(8)
        if st == 0: v = r.getrandbits(64 * n)
        elif st == 1: v = (1 << 64 * n) - 1 - (r.getrandbits(3) if r.randrange(2) else 0)
        elif st == 2: v = 1 << r.randrange(64 * n)
        elif st == 3:
            v = 0
            x = r.choice((0, M64))
            for i in range(n): v |= (x if r.randrange(5) else self.word()) << 64 * i
        else:
            v = 0
            for i in range(n): v |= self.word() << 64 * i
        if maxw is None and r.randrange(12) == 0: v = r.randrange(3)
        self.prev.append(v)
        if len(self.prev) > 20: self.prev.pop(r.randrange(20))
        return v
    def num(self):
        v = self.mag(); return -v if self.rnd.randrange(2) else v
    def cap(self, need, free=False):
        """capacity: often exactly what is needed, sometimes less or more"""
        r = self.rnd; k = r.randrange(8)
        if k < 3: return need
        if k == 3: return need + 1
        if k == 4: return max(2, need - 1 - r.randrange(3))
        return need + r.randrange(20)
    @staticmethod
    def words(v): return max(1, (abs(v).bit_length() + 63) // 64)
    def bn(self, i, v, mx=None):
        r = self.rnd
        if mx is None: mx = self.words(v) + r.choice((0, 0, 0, 1, 2, 9))
        return self.pool[i].set(v, mx, neg0=(v == 0 and r.randrange(3) == 0), rnd=r if r.randrange(2) else None)
    # -------- verdicts
    def bad(self, what, **k):
        d = dict(what=what); d.update(self.case); d.update(k)
        return {a: (hex(b) if isinstance(b, int) and abs(b) > 1 << 40 else b) for a, b in d.items()}
    def start(self, op, **k):
        self.n += 1
        self.case = dict(op=op); self.case.update({a: (hex(b) if isinstance(b, int) and abs(b) > 9999 else b) for a, b in k.items()})
        if self.n % 1 == 0: self.report(self.case)
    def after(self, dests, consts, ok, want=()):
        """containment of everything, exact values of the destinations, unchanged operands"""
        for b in list(dests) + list(consts):
            c = b.contained()
            if c: return self.bad(c)
        for b in consts:
            if b not in dests and not b.same(): return self.bad('an operand that is not a destination changed', was=b.v0, now=b.val())
        if ok:
            for b, w in zip(dests, want):
                f = b.formed()
                if f: return self.bad('malformed result: ' + f, got=b.mag())
                if w is not None and b.val() != w: return self.bad('wrong result', got=b.val(), expected=w)
        return None

def op_addsub(R):
    r = R.rnd; sub = r.randrange(2)
    a, b = R.num(), R.num()
    if r.randrange(6) == 0: b = r.choice((a, -a))
    al = r.randrange(8)      # aliasing
    if al in (3, 4): b = a
    w = a - b if sub else a + b
    lo = R.words(w); hi = max(R.words(a), R.words(b)) + 1
    cap = R.cap(r.choice((lo, hi)))
    A = R.bn(0, a, cap if al in (1, 4) else None)
    B = A if al in (3, 4) else R.bn(1, b, cap if al == 2 else None)
    D = A if al in (1, 4) else B if al == 2 else R.bn(2, R.num() if r.randrange(2) else 0, cap)
    name = 'BnSub' if sub else 'BnAdd'
    R.start(name, a=a, b=b, capacity=D.mx, r={1: 'a', 2: 'b', 3: 'separate, a=b', 4: 'a=b=r'}.get(al, 'separate'))
    rc = R.fn(name, I, P, P, P)(D.addr, A.addr, B.addr)
    if rc == 0 and lo > D.mx: return R.bad('success although the result does not fit')
    if rc != 0 and D.mx >= max(lo, R.words(a), R.words(b)): return R.bad(f'error {rc} although the result fits')
    return R.after([D], [A, B], rc == 0, [w])

def op_double(R):
    a = R.num(); w = 2 * a; al = R.rnd.randrange(3) == 0
    cap = R.cap(R.words(w)); A = R.bn(0, a, cap if al else None); D = A if al else R.bn(2, R.num() if R.rnd.randrange(2) else 0, cap)
    R.start('BnDouble', a=a, capacity=D.mx, in_place=al)
    rc = R.fn('BnDouble', I, P, P)(D.addr, A.addr)
    if rc == 0 and R.words(w) > D.mx: return R.bad('success although the result does not fit')
    if rc != 0 and D.mx >= R.words(w): return R.bad(f'error {rc} although the result fits')
    return R.after([D], [A], rc == 0, [w])

def op_cmp(R):
    r = R.rnd
    a, b = R.num(), R.num(); k = r.randrange(6)
    if k == 0: b = a
    if k == 1: b = -a
    if k == 2: b = a + r.choice((1, -1)) * (1 << r.randrange(abs(a).bit_length() + 1))
    A, B = R.bn(0, a), R.bn(1, b)
    R.start('BnCmp', a=a, b=b, signs=(A.sign0, B.sign0))
    rc = R.fn('BnCmp', I, P, P)(A.addr, B.addr)
    w = (a > b) - (a < b)
    if (rc > 0) - (rc < 0) != w: return R.bad('wrong comparison', got=rc, expected=w)
    return R.after([], [A, B], True)

def op_set(R):
    a = R.num(); al = R.rnd.randrange(8) == 0; A = R.bn(0, a); D = A if al else R.bn(2, R.num() if R.rnd.randrange(2) else 0, R.cap(R.words(a)))
    k = R.rnd.randrange(3)
    if k == 0:
        R.start('BnClone', a=a)
        p = R.fn('BnClone', P, P)(A.addr)
        L = R.L
        n = ctypes.c_int32.from_address(p + L['length']).value
        v = int.from_bytes(ctypes.string_at(ctypes.c_uint64.from_address(p + L['data']).value, 8 * n), 'little') * (-1 if ctypes.c_int32.from_address(p + L['sign']).value else 1)
        R.fn('BnFree', None, P)(p)
        if v != a: return R.bad('the clone differs', got=v)
        return R.after([], [A], True)
    R.start('BnSet', a=a, capacity=D.mx, same=al)
    rc = R.fn('BnSet', I, P, P)(D.addr, A.addr)
    if rc == 0 and R.words(a) > D.mx: return R.bad('success although the result does not fit')
    if rc != 0 and D.mx >= R.words(a): return R.bad(f'error {rc} although the result fits')
    return R.after([D], [A], rc == 0, [a])

def op_mul(R):
    r = R.rnd; a, b = R.num(), R.num()
    big = r.randrange(40) == 0
    if big: a, b = [r.choice((1, -1)) * r.getrandbits(64 * r.randrange(20, 140)) for _ in 'ab']
    same = r.randrange(6) == 0
    if same: b = a
    w = a * b; hi = R.words(a) + R.words(b)
    D = R.bn(2, R.num() if r.randrange(2) else 0, R.cap(r.choice((R.words(w), hi)))); A = R.bn(0, a); B = A if same else R.bn(1, b)
    R.start('BnMul', a=a, b=b, capacity=D.mx, same=same)
    rc = R.fn('BnMul', I, P, P, P)(D.addr, A.addr, B.addr)
    if rc == 0 and R.words(w) > D.mx: return R.bad('success although the result does not fit')
    if rc != 0 and D.mx >= (abs(a).bit_length() + abs(b).bit_length() + 63) // 64: return R.bad(f'error {rc} although the result fits')
    return R.after([D], [A, B], rc == 0, [w])

def op_sqr(R):
    r = R.rnd; a = R.num()
    if r.randrange(40) == 0: a = r.choice((1, -1)) * r.getrandbits(64 * r.randrange(20, 140))
    w = a * a
    D = R.bn(2, R.num() if r.randrange(2) else 0, R.cap(R.words(w))); A = R.bn(0, a)
    R.start('BnSqr', a=a, capacity=D.mx)
    rc = R.fn('BnSqr', I, P, P)(D.addr, A.addr)
    if rc == 0 and R.words(w) > D.mx: return R.bad('success although the result does not fit')
    if rc != 0 and D.mx >= (2 * abs(a).bit_length() + 63) // 64: return R.bad(f'error {rc} although the result fits')
    return R.after([D], [A], rc == 0, [w])

def divpair(R):
    """dividends and divisors for which the estimates of the quotient words are far off are common here"""
    r = R.rnd; k = r.randrange(8)
    b = R.num()
    if k < 3: a = R.num()
    elif k < 5:
        q = R.mag(); a = q * b + (r.randrange(abs(b)) if b else 0) * r.choice((0, 1, 1)); a = a - r.choice((0, 0, 1))
    elif k == 5: a = b * R.mag(3) + r.choice((0, 1, -1)) * (1 if b >= 0 else -1)
    else:
        # divisor with top words 10..0 / 11..1, dividend with the same leading words
        n = r.randrange(1, 5); bw = [R.word() for _ in range(n)] + [r.choice((1 << 63, (1 << 63) + 1, M64, 1, 2, M64 >> 1, R.word()))]
        b = sum(x << 64 * i for i, x in enumerate(bw)); t = r.randrange(1, 5)
        a = (b << 64 * t) + r.choice((-1, 1)) * r.getrandbits(64 * r.randrange(1, t + n + 1)) if r.randrange(2) else (bw[-1] << 64 * (n + t)) - r.choice((0, 1))
    if r.randrange(40) == 0: a, b = r.getrandbits(64 * r.randrange(20, 200)), r.getrandbits(64 * r.randrange(5, 90))
    return a * r.choice((1, -1)), b * r.choice((1, -1))

def op_mod(R):
    r = R.rnd; a, b = divpair(R)
    if b == 0 and r.randrange(8): b = 1
    al = r.randrange(6)
    cap = R.cap(R.words(b))
    A = R.bn(0, a, cap if al == 1 else None); B = R.bn(1, b, cap if al == 2 else None)
    D = A if al == 1 else B if al == 2 else R.bn(2, R.num() if r.randrange(2) else 0, cap)
    R.start('BnMod', a=a, b=b, capacity=D.mx, r={1: 'a', 2: 'b'}.get(al, 'separate'))
    rc = R.fn('BnMod', I, P, P, P)(D.addr, A.addr, B.addr)
    if b == 0: return R.bad('division by zero is not reported') if rc == 0 else R.after([D], [A, B], False)
    w = abs(a) % abs(b); w = -w if a < 0 else w
    if rc == 0 and R.words(w) > D.mx: return R.bad('success although the result does not fit')
    if rc != 0 and D.mx >= R.words(b): return R.bad(f'error {rc} although the remainder fits')
    return R.after([D], [A, B], rc == 0, [w])

def op_div(R):
    r = R.rnd; a, b = divpair(R)
    if b == 0 and r.randrange(8): b = 1
    al = r.randrange(6)
    cap = R.cap(R.words(b))
    q = a // b if b else 0; m = a - q * b
    A = R.bn(0, a, cap if al == 1 else None); B = R.bn(1, b, cap if al == 2 else None)
    D = A if al == 1 else B if al == 2 else R.bn(2, R.num() if r.randrange(2) else 0, cap)
    hi = max(1, R.words(a) - R.words(b) + 1)
    Q = R.bn(3, R.num() if r.randrange(2) else 0, R.cap(hi))
    R.start('BnDiv', a=a, b=b, capacity_r=D.mx, capacity_q=Q.mx, r={1: 'a', 2: 'b'}.get(al, 'separate'))
    rc = R.fn('BnDiv', I, P, P, P, P)(Q.addr, D.addr, A.addr, B.addr)
    if b == 0: return R.bad('division by zero is not reported') if rc == 0 else R.after([Q, D], [A, B], False)
    if rc == 0 and (R.words(q) > Q.mx or R.words(m) > D.mx): return R.bad('success although the result does not fit')
    if rc != 0 and Q.mx >= max(hi, R.words(q)) and D.mx >= R.words(b): return R.bad(f'error {rc} although quotient and remainder fit')
    return R.after([Q, D], [A, B], rc == 0, [q, m])

def op_shift(R):
    r = R.rnd; a = R.num(); left = r.randrange(2); aw = R.words(a)
    n = r.choice((0, 1, 63, 64, 65, 127, 128, r.randrange(64), r.randrange(64 * aw + 70), 64 * r.randrange(aw + 3), max(0, 64 * aw - 1), 64 * aw, abs(a).bit_length(), (1 << 32) - 1 - r.randrange(70), 1 << 31))
    if left:
        big = n > 30000
        w = 0 if a == 0 else None if big else a << n
        A = R.bn(0, a, R.cap(aw if w is None else r.choice((R.words(w), aw + (n + 63) // 64, aw)) if not big else aw))
        R.start('BnShiftL', a=a, bits=n, capacity=A.mx)
        rc = R.fn('BnShiftL', I, P, U32)(A.addr, n)
        fit = w is not None and R.words(w) <= A.mx
        if rc == 0 and not fit: return R.bad('success although the result does not fit')
        if rc != 0 and fit: return R.bad(f'error {rc} although the result fits')
    else:
        w = (abs(a) >> n) * (-1 if a < 0 else 1); A = R.bn(0, a)
        R.start('BnShiftR', a=a, bits=n, capacity=A.mx)
        rc = R.fn('BnShiftR', I, P, U32)(A.addr, n)
        if rc != 0: return R.bad(f'error {rc}')
    return R.after([A], [], rc == 0, [w])

def op_bitlen(R):
    r = R.rnd; a = R.num()
    if a == 0: a = 1
    A = R.bn(0, a)
    R.start('BnGetBitLength', a=a)
    rc = R.fn('BnGetBitLength', I, P)(A.addr)
    if rc != abs(a).bit_length(): return R.bad('wrong bit length', got=rc, expected=abs(a).bit_length())
    x = R.word() or 1
    R.start('_BnGetMSBPos', value=x)
    rc = R.fn('_BnGetMSBPos', I, U64)(x)
    if rc != x.bit_length() - 1: return R.bad('wrong position of the top bit', got=rc)
    if R.fn('BnGetLength', I, P)(A.addr) != R.words(a): return R.bad('BnGetLength differs from the number of words')
    return R.after([], [A], True)

def sword(R):
    x = R.word()
    if R.rnd.randrange(6) == 0: x = R.rnd.choice((1 << 63, M64, (1 << 63) + 1, (1 << 63) - 1, 0, 1))
    return x
def sg(x): return x - (1 << 64) if x >> 63 else x
def op_wordops(R):
    r = R.rnd; a = R.num(); k = r.randrange(12); x = sword(R)
    if r.randrange(4) == 0 and abs(a) >> 64: a = a % (1 << 128) if r.randrange(2) else abs(a) % (1 << 64)
    if r.randrange(6) == 0: a = r.choice((1, -1)) * (x + r.choice((0, 1, -1)))
    if r.randrange(8) == 0: a = sg(x) * r.choice((1, -1)) + r.choice((0, 1, -1))
    signed = k & 1; v = sg(x) if signed else x
    ty = I64 if signed else U64; s = 'Int' if signed else 'UInt'
    aw = R.words(a)
    if k < 4:
        sub = k >> 1; w = a - v if sub else a + v
        A = R.bn(0, a, R.cap(R.words(w)))
        name = ('BnSub' if sub else 'BnAdd') + s
        R.start(name, a=a, v=v, capacity=A.mx, sign=A.sign0)
        rc = R.fn(name, I, P, ty)(A.addr, v)
    elif k < 6:
        w = a * v; A = R.bn(0, a, R.cap(R.words(w))); name = 'BnMul' + s
        R.start(name, a=a, v=v, capacity=A.mx, sign=A.sign0)
        rc = R.fn(name, I, P, ty)(A.addr, v)
    elif k < 9:
        A = R.bn(0, a); name = 'BnDiv' + s if k < 8 else 'BnModUInt'
        if k == 8: v = x; ty = U64
        if r.randrange(4) == 0: v = (v >> r.randrange(64)) or 1
        elif r.randrange(6) == 0 and v:    # partial dividends equal to the divisor
            a = abs(v) << 64 * r.randrange(4); a += r.getrandbits(64) if r.randrange(2) else 0; A = R.bn(0, a)
        rem = r.randrange(4) or k == 8
        o = R.bufs.end - 8
        ctypes.memset(o, 0xEE, 8)
        R.start(name, a=a, v=v, remainder=bool(rem), sign=A.sign0)
        rc = R.fn(name, I, P, ty, P)(A.addr, v, o if rem else None)
        if v == 0: return R.bad('division by zero is not reported') if rc == 0 else R.after([], [A], False)
        if rc: return R.bad(f'error {rc}')
        q, m = divmod(abs(a), abs(v))
        q = -q if (a < 0) != (v < 0) else q
        if rem and ctypes.c_uint64.from_address(o).value != m: return R.bad('wrong remainder', got=ctypes.c_uint64.from_address(o).value, expected=m)
        if k == 8: return R.after([], [A], True)
        return R.after([A], [], True, [q])
    elif k < 11:
        A = R.bn(0, a); name = 'BnCmp' + s
        R.start(name, a=a, v=v, sign=A.sign0)
        rc = R.fn(name, I, P, ty)(A.addr, v)
        w = (a > v) - (a < v)
        if (rc > 0) - (rc < 0) != w: return R.bad('wrong comparison', got=rc, expected=w)
        return R.after([], [A], True)
    else:
        name, bits, sgn = r.choice((('BnSetInt', 64, 1), ('BnSetInt64', 64, 1), ('BnSetInt32', 32, 1), ('BnSetUInt', 64, 0), ('BnSetUInt64', 64, 0), ('BnSetUInt32', 32, 0)))
        x &= (1 << bits) - 1
        if r.randrange(4) == 0: x = r.choice((1 << (bits - 1), (1 << bits) - 1, (1 << (bits - 1)) - 1, 0))
        w = x - (1 << bits) if sgn and x >> (bits - 1) else x
        A = R.bn(0, a)
        R.start(name, v=w, before=a)
        R.fn(name, None, P, {(64, 1): I64, (64, 0): U64, (32, 1): ctypes.c_int32, (32, 0): U32}[(bits, sgn)])(A.addr, w)
        if A.val() == w and w > 0:
            for g, m in (('_BnGetUInt', 64), ('_BnGetUInt64', 64), ('_BnGetUInt32', 32)):
                got = R.fn(g, U32 if m == 32 else U64, P)(A.addr)
                if got != w & ((1 << m) - 1): return R.bad(g + ' differs', got=got)
        return R.after([A], [], True, [w])
    fit = R.words(w) <= A.mx
    if rc == 0 and not fit: return R.bad('success although the result does not fit')
    if rc != 0 and fit: return R.bad(f'error {rc} although the result fits')
    return R.after([A], [], rc == 0, [w])

def outbuf(R, n):
    R.bufs.fill(n + 64)
    return R.bufs.end - n
def op_bytes(R):
    r = R.rnd; k = r.randrange(4)
    if k < 2:
        n = r.choice((1, 2, 7, 8, 9, 15, 16, 17, 24, 25, r.randrange(1, 80)))
        st = r.randrange(5)
        b = r.randbytes(n)
        if st == 0: b = bytes(r.choice((0, 255, 128, 127, 1)) for _ in range(n))
        elif st == 1: z = r.randrange(n + 1); b = bytes([r.choice((0, 255))]) * z + b[z:]
        elif st == 2: b = bytes([r.choice((0x80, 0, 0xff))]) + bytes([r.choice((0, 255))]) * (n - 1)
        name, w = ('BnSetByteArray', int.from_bytes(b, 'big', signed=True)) if k else ('BnSetUByteArray', int.from_bytes(b, 'big'))
        A = R.bn(0, R.num(), 2)
        A = R.bn(0, r.choice((0, 1, -5)), R.cap(r.choice(((n + 7) // 8, R.words(w)))))
        p = outbuf(R, n); ctypes.memmove(p, b, n)
        R.start(name, bytes=b.hex(), capacity=A.mx)
        rc = R.fn(name, I, P, P, I)(A.addr, p, n)
        fit = R.words(w) <= A.mx
        if rc == 0 and not fit: return R.bad('success although the number does not fit')
        if rc != 0 and fit: return R.bad(f'error {rc} although the number fits')
        if ctypes.string_at(p, n) != b: return R.bad('the input bytes changed')
        return R.after([A], [], rc == 0, [w])
    a = R.num()
    if r.randrange(3) == 0: a = r.choice((1, -1)) * ((1 << 8 * r.randrange(1, 40) - r.randrange(2)) + r.choice((0, 1, -1)))
    A = R.bn(0, a)
    if k == 2:
        n = max(1, (a + (a < 0)).bit_length() // 8 + 1); w = a.to_bytes(n, 'big', signed=True); name = 'BnToByteArray'
    else:
        n = max(1, (a.bit_length() + 7) // 8); w = a.to_bytes(n, 'big') if a >= 0 else None; name = 'BnToFixedByteArray'
    m = max(0, n + r.choice((0, 0, 0, 1, 5, 20, -1, -2, -n)))
    R.start(name, a=a, buffer=m, sign=A.sign0)
    f = R.fn(name, I, P, P, I)
    ln = f(A.addr, None, 0)
    if w is None:
        p = outbuf(R, m); rc = f(A.addr, p, m)
        if rc != 0: return R.bad('a negative number is not refused', got=rc)
        return R.after([], [A], True)
    if ln != n: return R.bad('the reported size differs', got=ln, expected=n)
    p = outbuf(R, m)
    rc = f(A.addr, p, m)
    if ctypes.string_at(p - 64, 64) != bytes([CAN]) * 64: return R.bad('bytes in front of the buffer were written')
    if m < n:
        if rc != 0: return R.bad('a buffer that is too small is not reported', got=rc)
        return R.after([], [A], True)
    got = ctypes.string_at(p, m)
    if k == 2:
        if rc != n or got[:n] != w: return R.bad('wrong encoding', got=got[:max(0, rc)].hex(), expected=w.hex())
        if got[n:] != bytes([CAN]) * (m - n): return R.bad('bytes behind the encoding were written')
    else:
        if rc != m or got != bytes(m - n) + w: return R.bad('wrong encoding', returned=rc, got=got.hex(), expected=(bytes(m - n) + w).hex())
    return R.after([], [A], True)

def op_internal(R):
    """exported internals used by other modules"""
    r = R.rnd; k = r.randrange(3)
    a, b = R.mag(), R.mag()
    if k == 0:
        w = a + b; a = a or 1; w = a + b; A = R.bn(0, a, R.cap(R.words(w))); B = R.bn(1, b); R.start('_BnAddR', a=a, b=b, capacity=A.mx)
        rc = R.fn('_BnAddR', I, P, P)(A.addr, B.addr); fit = R.words(w) <= A.mx
        if rc == 0 and not fit: return R.bad('success although the result does not fit')
        if rc != 0 and fit: return R.bad(f'error {rc} although the result fits')
        return R.after([A], [B], rc == 0, [w])
    if k == 1:
        a, b = max(a, b), min(a, b)
        a = a or 1; A = R.bn(0, a); B = R.bn(1, b); R.start('_BnSubR', a=a, b=b)
        rc = R.fn('_BnSubR', I, P, P)(A.addr, B.addr)
        return R.bad(f'error {rc}') if rc else R.after([A], [B], True, [a - b])
    a = R.num(); A = R.bn(0, a); R.start('_BnInvert', a=a)
    R.fn('_BnInvert', None, P)(A.addr)
    A.sign0 = 1 - A.sign0
    if not A.same(): return R.bad('negation changes the magnitude or misses the sign')
    return R.after([A], [], True, [-a])

OPS = {'C16': (op_addsub, op_addsub, op_double, op_cmp, op_set, op_internal), 'C17': (op_mul, op_sqr), 'C18': (op_mod, op_div), 'C19': (op_shift, op_shift, op_bitlen), 'C20': (op_wordops,), 'C21': (op_bytes,)}
OPS['C22'] = (op_addsub, op_double, op_cmp, op_set, op_internal, op_mul, op_sqr, op_mod, op_div, op_shift, op_bitlen, op_wordops, op_wordops, op_bytes)

def search(pid, seconds, seed, flags=('-DNDEBUG',)):
    L = layout()
    nat = native.Native()
    try:
        import os
        d = os.path.join(nat.tmp, 'nd'); os.mkdir(d)
        so = front.native_lib(d, extra_flags=list(flags))
        def run(report):
            R = Run(so, L, seed, seconds, report)
            ops = OPS[pid]
            while time.time() < R.end:
                for op in ops:
                    v = op(R)
                    if v:
                        if pid == 'C22':
                            # only containment counts here
                            w = v['what']
                            if not ('written' in w or 'does not fit' in w or 'field' in w or 'pointer' in w or 'not reported' in w or 'outside' in w or 'changed' in w): continue
                        return v
            return None
        return native.forked(run, seconds + 30)
    finally: nat.close()
