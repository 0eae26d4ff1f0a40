"""Interpreter for the inline assembly the sources use (semantics from the Intel SDM)."""
import re
from . import terms as tm
from .terms import Unsupported
from .sym import Ptr, B, L, Agg, Fail, UNDEF

def gmul(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a <<= 1
        if a & 0x100: a ^= 0x11b
        b >>= 1
    return r
def _sbox():
    s = [0] * 256
    for x in range(256):
        i = 0
        if x:
            for y in range(1, 256):
                if gmul(x, y) == 1: i = y; break
        r = 0x63
        for k in range(5): r ^= ((i << k) | (i >> (8 - k))) & 255
        s[x] = r
    inv = [0] * 256
    for i, v in enumerate(s): inv[v] = i
    return s, inv
_S = None
def tts(f):
    out = []
    for i in range(8):
        t = 0
        for x in range(256):
            if (f(x) >> i) & 1: t |= 1 << x
        out.append(t)
    return out
_TT = {}
def sb(bits, inv=False):
    global _S
    if _S is None:
        _S = _sbox()
        _TT[False] = tts(lambda x: _S[0][x]); _TT[True] = tts(lambda x: _S[1][x])
    return tuple(tm.lut_bits(list(bits), _TT[inv]))
def gm(bits, c):
    """multiply a byte of forms by a constant in GF(2^8)"""
    r = (0,) * 8
    for i in range(8):
        if bits[i]:
            v = gmul(1 << i, c)
            r = tuple(tm.xor(r[k], bits[i]) if (v >> k) & 1 else r[k] for k in range(8))
    return r
def by(x): return [x[8 * i:8 * i + 8] for i in range(16)]
def unby(l):
    r = ()
    for b in l: r += tuple(b)
    return r
def dw(x): return [x[32 * i:32 * i + 32] for i in range(4)]
def undw(l):
    r = ()
    for b in l: r += tuple(b)
    return r
def rol(x, n): return x[-n:] + x[:-n]
def ror(x, n): return x[n:] + x[:n]
def shr(x, n): return x[n:] + (0,) * n
def xors(*a):
    r = a[0]
    for b in a[1:]: r = tm.wxor(r, b)
    return r
def adds(*a):
    return tm.wlin([(x, 1) for x in a], 0, 32)
def aesenc(s, k, last):
    b = by(s)
    o = [sb(b[4 * ((c + r) % 4) + r]) for c in range(4) for r in range(4)]
    if not last: o = mix(o, (2, 3, 1, 1))
    return tm.wxor(unby(o), k)
def mix(o, co):
    r = []
    for c in range(4):
        col = o[4 * c:4 * c + 4]
        for i in range(4):
            r.append(xors(*[gm(col[j], co[(j - i) % 4]) for j in range(4)]))
    return r
def aesdec(s, k, last):
    b = by(s)
    o = [sb(b[4 * ((c - r) % 4) + r], True) for c in range(4) for r in range(4)]
    if not last: o = mix(o, (14, 11, 13, 9))
    return tm.wxor(unby(o), k)
def ch(x, y, z): return tm.wxor(tm.wand(x, y), tm.wand(tm.wnot(x), z))
def maj(x, y, z): return xors(tm.wand(x, y), tm.wand(x, z), tm.wand(y, z))
def sha1rnds4(d, s, imm):
    D, C, B_, A = dw(d)
    W = list(reversed(dw(s)))
    K = (0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xCA62C1D6)[imm & 3]
    f = (ch, xors, maj, xors)[imm & 3]
    E = (0,) * 32
    for i in range(4):
        t = tm.wlin([(f(B_, C, D), 1), (rol(A, 5), 1), (W[i], 1), (E, 1)], K, 32)
        A, B_, C, D, E = t, A, rol(B_, 30), C, D
    return undw([D, C, B_, A])
def sha1nexte(d, s):
    x = dw(s)
    x[3] = adds(x[3], rol(dw(d)[3], 30))
    return undw(x)
def sha1msg1(d, s):
    W3, W2, W1, W0 = dw(d)
    _, _, W5, W4 = dw(s)
    return undw([tm.wxor(W5, W3), tm.wxor(W4, W2), tm.wxor(W3, W1), tm.wxor(W2, W0)])
def sha1msg2(d, s):
    d0, d1, d2, d3 = dw(d)
    W15, W14, W13, _ = dw(s)
    W16 = rol(tm.wxor(d3, W13), 1); W17 = rol(tm.wxor(d2, W14), 1); W18 = rol(tm.wxor(d1, W15), 1); W19 = rol(tm.wxor(d0, W16), 1)
    return undw([W19, W18, W17, W16])
def S0(x): return xors(ror(x, 2), ror(x, 13), ror(x, 22))
def S1(x): return xors(ror(x, 6), ror(x, 11), ror(x, 25))
def s0(x): return xors(ror(x, 7), ror(x, 18), shr(x, 3))
def s1(x): return xors(ror(x, 17), ror(x, 19), shr(x, 10))
def sha256rnds2(d, s, wk):
    F, E, B_, A = dw(s)
    H, G, D, C = dw(d)
    for i in range(2):
        t = [(ch(E, F, G), 1), (S1(E), 1), (dw(wk)[i], 1), (H, 1)]
        nA = tm.wlin(t + [(maj(A, B_, C), 1), (S0(A), 1)], 0, 32)
        nE = tm.wlin(t + [(D, 1)], 0, 32)
        A, B_, C, D, E, F, G, H = nA, A, B_, C, nE, E, F, G
    return undw([F, E, B_, A])
def sha256msg1(d, s):
    W = dw(d) + [dw(s)[0]]
    return undw([adds(W[i], s0(W[i + 1])) for i in range(4)])
def sha256msg2(d, s):
    w = dw(d); _, _, W14, W15 = dw(s)
    W16 = adds(w[0], s1(W14)); W17 = adds(w[1], s1(W15)); W18 = adds(w[2], s1(W16)); W19 = adds(w[3], s1(W17))
    return undw([W16, W17, W18, W19])

def pint(s):
    s = s.strip()
    neg = s.startswith('-')
    if neg: s = s[1:]
    v = int(s, 2) if s.startswith('0b') else int(s, 0)
    return -v if neg else v

class Asm:
    """engine hook.  cpuid: None -> fresh symbolic outputs"""
    def __init__(self):
        self.n = 0
    def __call__(self, eng, st, rt, tmpl, cons, args):
        cl = []
        d = 0; cur = ''
        for c in cons:
            if c == '{': d += 1
            if c == '}': d -= 1
            if c == ',' and d == 0: cl.append(cur); cur = ''
            else: cur += c
        cl.append(cur)
        outs = [c for c in cl if c.startswith('=')]
        ins = [c for c in cl if not c.startswith('=') and not c.startswith('~')]
        text = [x.strip() for x in re.split(r'[\n;]', tmpl) if x.strip()]
        if text == ['cpuid']:
            self.n += 1
            vals = []
            for i, o in enumerate(outs):
                vals.append(B(tm.var(f'cpuid{self.n}{o}', 32)))
            return Agg(vals) if len(vals) != 1 else vals[0]
        if outs: raise Unsupported('asm outputs')
        if len(ins) != len(args): raise Unsupported('asm operands')
        ops = {}
        for i, (c, a) in enumerate(zip(ins, args)): ops[i] = [c, a]
        return self.run(eng, st, text, ops)

    def run(self, eng, st, text, ops):
        xmm = {i: tm.var(f'xmm{i}@entry', 128) for i in range(16)}
        entry = dict(xmm)
        gentry = {i: v[1] for i, v in ops.items()}
        labels = {}
        prog = []
        for t in text:
            t = t.split('#')[0].strip() if '#' in t else t
            m = re.match(r'^([A-Za-z_.][\w.]*):(.*)$', t)
            if m:
                labels[m.group(1)] = len(prog)
                t = m.group(2).strip()
                if not t: continue
            prog.append(t)
        stack = []
        zf = cf = None
        pc = 0
        n = 0
        def split_ops(s):
            out = []; d = 0; cur = ''
            for c in s:
                if c == '(': d += 1
                if c == ')': d -= 1
                if c == ',' and d == 0: out.append(cur.strip()); cur = ''
                else: cur += c
            if cur.strip(): out.append(cur.strip())
            return out
        def reg(s):
            m = re.match(r'^\$(\d+)$', s)
            if m and ops[int(m.group(1))][0] in ('r', 'b') or (m and ops[int(m.group(1))][0].startswith('{')): return int(m.group(1))
            return None
        def addr(s):
            m = re.match(r'^\$(\d+)$', s)
            if m:
                c, v = ops[int(m.group(1))]
                if c != '*m': raise Unsupported('asm operand ' + s)
                return v
            m = re.match(r'^([-\w]*)\(\s*(\$\d+)\s*(?:,\s*(\$\d+)\s*(?:,\s*(\d))?)?\s*\)$', s)
            if not m: raise Unsupported('asm address ' + s)
            p = ops[int(m.group(2)[1:])][1]
            off = pint(m.group(1)) if m.group(1) else 0
            if m.group(3):
                x = ops[int(m.group(3)[1:])][1]
                if not isinstance(x, int): raise Unsupported('asm index')
                off += x * int(m.group(4) or 1)
            return eng.ptr_add(st, p, off) if off else p
        def isx(s): return re.match(r'^%xmm(\d+)$', s)
        def getx(s, nbytes=16, aligned=False):
            m = isx(s)
            if m: return xmm[int(m.group(1))]
            p = addr(s)
            if aligned and isinstance(p, Ptr) and isinstance(p.off, int) and p.off % 16: raise Fail('unaligned-vector-access', s)
            v = eng.load(st, p, nbytes, 8 * nbytes)
            return eng.bits(v, 8 * nbytes) + (0,) * (128 - 8 * nbytes)
        def setx(s, v): xmm[int(isx(s).group(1))] = tuple(v)
        def imm(s):
            if not s.startswith('$$'): raise Unsupported('asm immediate ' + s)
            return pint(s[2:])
        while pc < len(prog):
            n += 1
            if n > 5000: raise Unsupported('asm loop')
            t = prog[pc]; pc += 1
            m = re.match(r'^(\w+)\s*(.*)$', t)
            op, rest = m.group(1), split_ops(m.group(2))
            if op in ('jz', 'je'):
                if zf is None: raise Unsupported('asm flags')
                if zf: pc = labels[rest[0]]
                continue
            if op in ('jnz', 'jne'):
                if zf is None: raise Unsupported('asm flags')
                if not zf: pc = labels[rest[0]]
                continue
            if op in ('jb', 'jc'):
                if cf is None: raise Unsupported('asm flags')
                if cf: pc = labels[rest[0]]
                continue
            if op in ('jae', 'jnc', 'jnb'):
                if cf is None: raise Unsupported('asm flags')
                if not cf: pc = labels[rest[0]]
                continue
            if op == 'jmp': pc = labels[rest[0]]; continue
            if op == 'push':
                stack.append(ops[reg(rest[0])][1]); continue
            if op == 'pop':
                if not stack: raise Fail('asm-stack', 'pop of an empty stack')
                ops[reg(rest[0])][1] = stack.pop(); continue
            if op == 'dec':
                r = reg(rest[0]); v = ops[r][1]
                ops[r][1] = eng.binop(st, 'sub', 64, v, 1); zf = cf = None
                if isinstance(v, int): zf = ((v - 1) & (2**64 - 1)) == 0
                continue
            if op in ('add', 'sub', 'shr', 'shl', 'and', 'cmp'):
                k = imm(rest[0]); r = reg(rest[1])
                if r is None: raise Unsupported('asm ' + t)
                v = ops[r][1]
                zf = cf = None
                if op == 'cmp':
                    if not isinstance(v, int): raise Unsupported('asm compare of symbolic value')
                    zf = v == (k & (2**64 - 1)); cf = v < (k & (2**64 - 1)); continue
                if isinstance(v, Ptr):
                    if op == 'add': ops[r][1] = eng.ptr_add(st, v, k)
                    elif op == 'sub': ops[r][1] = eng.ptr_add(st, v, -k)
                    elif op == 'and' and k == -16: ops[r][1] = Ptr(v.o, v.off & ~15)
                    elif op == 'shr': ops[r][1] = ('shifted', v, k)
                    else: raise Unsupported('asm ' + t)
                elif isinstance(v, tuple) and v[0] == 'shifted' and op == 'shl' and k == v[2] and k <= 4:
                    # stack arrays of at least 16 bytes are 16-byte aligned (System V ABI)
                    p = v[1]
                    if p.o.kind != 'stack' or not isinstance(p.off, int): raise Unsupported('asm alignment')
                    ops[r][1] = Ptr(p.o, p.off >> k << k)
                else:
                    ops[r][1] = eng.binop(st, op if op != 'shr' else 'lshr', 64, v, k & (2**64 - 1))
                    zf = None
                continue
            if op in ('movdqa', 'movdqu', 'movaps', 'movups'):
                al = op in ('movdqa', 'movaps')
                if isx(rest[1]): setx(rest[1], getx(rest[0], 16, al))
                else:
                    p = addr(rest[1])
                    if al and isinstance(p, Ptr) and isinstance(p.off, int) and p.off % 16: raise Fail('unaligned-vector-access', t)
                    eng.store(st, p, B(getx(rest[0])), 16, 128)
                continue
            if op == 'movd':
                if isx(rest[1]): 
                    if isx(rest[0]): raise Unsupported('movd')
                    setx(rest[1], getx(rest[0], 4))
                else: eng.store(st, addr(rest[1]), B(getx(rest[0])[:32]), 4, 32)
                continue
            if op in ('pxor', 'por', 'pand'):
                setx(rest[1], {'pxor': tm.wxor, 'por': tm.wor, 'pand': tm.wand}[op](getx(rest[1]), getx(rest[0], 16, True))); continue
            if op == 'paddd':
                a, b = dw(getx(rest[1])), dw(getx(rest[0], 16, True))
                setx(rest[1], undw([tm.wadd(x, y) for x, y in zip(a, b)])); continue
            if op == 'pshufb':
                a, b = by(getx(rest[1])), by(getx(rest[0], 16, True))
                o = []
                for x in b:
                    c = tm.as_const(x)
                    if c is None: raise Unsupported('pshufb mask')
                    o.append((0,) * 8 if c & 128 else a[c & 15])
                setx(rest[1], unby(o)); continue
            if op == 'pshufd':
                k = imm(rest[0]); a = dw(getx(rest[1], 16, True))
                setx(rest[2], undw([a[(k >> (2 * i)) & 3] for i in range(4)])); continue
            if op == 'palignr':
                k = imm(rest[0]); a = getx(rest[1], 16, True) + getx(rest[2])
                setx(rest[2], (a + (0,) * 256)[8 * k:8 * k + 128]); continue
            if op == 'punpckldq':
                a, b = dw(getx(rest[1])), dw(getx(rest[0], 16, True))
                setx(rest[1], undw([a[0], b[0], a[1], b[1]])); continue
            if op == 'punpcklqdq':
                a, b = getx(rest[1]), getx(rest[0], 16, True)
                setx(rest[1], a[:64] + b[:64]); continue
            if op in ('aesenc', 'aesenclast'): setx(rest[1], aesenc(getx(rest[1]), getx(rest[0], 16, True), op.endswith('last'))); continue
            if op in ('aesdec', 'aesdeclast'): setx(rest[1], aesdec(getx(rest[1]), getx(rest[0], 16, True), op.endswith('last'))); continue
            if op == 'sha1rnds4': setx(rest[2], sha1rnds4(getx(rest[2]), getx(rest[1], 16, True), imm(rest[0]))); continue
            if op == 'sha256rnds2':
                setx(rest[-1], sha256rnds2(getx(rest[-1]), getx(rest[-2], 16, True), xmm[0])); continue
            f = {'sha1nexte': sha1nexte, 'sha1msg1': sha1msg1, 'sha1msg2': sha1msg2, 'sha256msg1': sha256msg1, 'sha256msg2': sha256msg2}.get(op)
            if f:
                setx(rest[1], f(getx(rest[1]), getx(rest[0], 16, True))); continue
            raise Unsupported('asm instruction ' + t)
        if stack: raise Fail('asm-stack', 'unbalanced push')
        for i in range(16):
            if xmm[i] != entry[i]: raise Fail('asm-clobber', f'xmm{i} is not restored')
        return None
