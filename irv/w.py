"""Fixed-width words with one interface over two domains: canonical terms (proof) and integers (validation, replay).
Specifications in /verif/specs are written once against this interface."""
from . import terms as tm

class SW:
    """symbolic word (tuple of forms, LSB first)"""
    __slots__ = ('b',)
    sym = True
    def __init__(self, b): self.b = tuple(b)
    @property
    def w(self): return len(self.b)
    def _c(self, o): return o.b if isinstance(o, (SW,)) else tm.const_bits(o & ((1 << len(self.b)) - 1), len(self.b))
    def __xor__(self, o): return SW(tm.wxor(self.b, self._c(o)))
    def __and__(self, o): return SW(tm.wand(self.b, self._c(o)))
    def __or__(self, o): return SW(tm.wor(self.b, self._c(o)))
    def __invert__(self): return SW(tm.wnot(self.b))
    def __add__(self, o): return SW(tm.wadd(self.b, self._c(o)))
    def __sub__(self, o): return SW(tm.wsub(self.b, self._c(o)))
    def rotl(self, n):
        n %= len(self.b)
        return SW(self.b[-n:] + self.b[:-n]) if n else self
    def rotr(self, n): return self.rotl(len(self.b) - n)
    def shr(self, n): return SW(self.b[n:] + (0,) * n)
    def shl(self, n): return SW((0,) * n + self.b[:len(self.b) - n])
    def lut(self, table, w):
        """table: 2^width entries"""
        key = (id(table), w)
        tts = _LC.get(key)
        if tts is None:
            tts = []
            for i in range(w):
                t = 0
                for j, v in enumerate(table):
                    if (v >> i) & 1: t |= 1 << j
                tts.append(t)
            _LC[key] = tts
            _KEEP.append(table)
        return SW(tm.lut_bits(list(self.b), tts))
    def bits(self, lo, n): return SW(self.b[lo:lo + n])
    def zext(self, w): return SW(self.b + (0,) * (w - len(self.b)))
    def key(self): return self.b
    def const(self, v, w=None): return SW(tm.const_bits(v, w or self.w))

_LC = {}
_KEEP = []

class IW:
    __slots__ = ('v', 'w')
    sym = False
    def __init__(self, v, w): self.v = v & ((1 << w) - 1); self.w = w
    def _c(self, o): return o.v if isinstance(o, IW) else o
    def __xor__(self, o): return IW(self.v ^ self._c(o), self.w)
    def __and__(self, o): return IW(self.v & self._c(o), self.w)
    def __or__(self, o): return IW(self.v | self._c(o), self.w)
    def __invert__(self): return IW(~self.v, self.w)
    def __add__(self, o): return IW(self.v + self._c(o), self.w)
    def __sub__(self, o): return IW(self.v - self._c(o), self.w)
    def rotl(self, n):
        n %= self.w
        return IW((self.v << n) | (self.v >> (self.w - n)), self.w)
    def rotr(self, n): return self.rotl(self.w - n)
    def shr(self, n): return IW(self.v >> n, self.w)
    def shl(self, n): return IW(self.v << n, self.w)
    def lut(self, table, w): return IW(table[self.v], w)
    def bits(self, lo, n): return IW(self.v >> lo, n)
    def zext(self, w): return IW(self.v, w)
    def key(self): return self.v
    def const(self, v, w=None): return IW(v, w or self.w)

def cat(parts):
    """concatenate words, first = least significant"""
    if parts[0].sym:
        r = ()
        for p in parts: r += p.b
        return SW(r)
    v = 0; s = 0
    for p in parts:
        v |= p.v << s; s += p.w
    return IW(v, s)

def be(bs):
    """bytes -> word, big endian"""
    return cat(list(reversed(bs)))
def le(bs): return cat(list(bs))
def bytes_be(x): return [x.bits(8 * i, 8) for i in reversed(range(x.w // 8))]
def bytes_le(x): return [x.bits(8 * i, 8) for i in range(x.w // 8)]
def ibytes(data): return [IW(c, 8) for c in data]
def tobytes(ws): return bytes(w.v for w in ws)
def svar(name, n):
    """n symbolic bytes"""
    return [SW(tm.var(f'{name}[{i}]', 8)) for i in range(n)]
