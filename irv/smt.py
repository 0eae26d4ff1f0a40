"""Export of canonical terms to z3 bit-vectors, and equality / validity checks (decision back end for what the
canonical forms alone do not settle)."""
import time
import z3
from . import terms as tm
from .terms import T_, Unsupported

class X:
    def __init__(self):
        self.vars = {}      # name -> (BitVec, width)
        self.bc = {}
        self.wc = {}
        self.ac = {}
        self.width = {}     # var name -> width known
        self.side = []
        self.solver_s = 0.0
    # --- variables: all bits of a name live in one bit-vector
    def varw(self, name):
        v = self.vars.get(name)
        if v is None:
            w = 0
            while ('v', name, w) in T_.atom_ids: w += 1
            v = z3.BitVec(name, max(w, 1))
            self.vars[name] = v
        return v
    def source(self, f):
        """(word expr, bit index) if the form is a single bit of a known word"""
        ms = T_.forms[f]
        if len(ms) != 1: return None
        mo = T_.mons[next(iter(ms))]
        if len(mo) != 1: return None
        k = T_.atoms[mo[0]]
        if k[0] == 'v':
            e = self.varw(k[1])
            if k[2] >= e.size():
                e = z3.BitVec(k[1] + f'#{k[2]}', 1); return ('vb', k[1], k[2]), e, 0
            return ('v', k[1]), e, k[2]
        if k[0] == 'add':
            return ('add', k[1]), self.addw(k[1]), k[2]
        if k[0] == 'uf':
            return ('uf', k[2]), self.ufw(k[2]), k[3]
        if k[0] == 'sel':
            return ('sel', k[1], k[2]), self.selw(k[1], k[2]), k[3]
        return None
    def addw(self, key):
        r = self.wc.get(('add', key))
        if r is None:
            w, parts, c = key
            r = z3.BitVecVal(c, w)
            for word, co in parts:
                e = self.word(word)
                if co == 1: r = r + e
                elif co == (1 << w) - 1: r = r - e
                else: r = r + e * z3.BitVecVal(co, w)
            self.wc[('add', key)] = r
        return r
    def ufw(self, i):
        r = self.wc.get(('uf', i))
        if r is None:
            name, args = T_.ufs[i]
            if name == 'ard':
                r = z3.Select(self.arr(args[0], len(args[1])), self.word(args[1]))
            elif isinstance(name, str) and name.startswith('op:'):
                n = len(args) // 2
                x, y = self.word(args[:n]), self.word(args[n:])
                op = name[3:]
                r = {'mul': lambda: x * y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
                     'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y), 'shl': lambda: x << y,
                     'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]()
            else:
                # uninterpreted: congruence through z3 functions
                bits = [f for f in self.flat(args)]
                w = 1
                while ('uf', name, i, w) in T_.atom_ids: w += 1
                w = max(w, 64)
                if not bits:
                    r = z3.BitVec(f'uf{i}', w)
                else:
                    a = self.word(tuple(bits))
                    f = z3.Function(f'uf_{name if isinstance(name, str) else hash(name) & 0xffffffffff}_{a.size()}_{hash(self.shape(args)) & 0xffffffff}', z3.BitVecSort(a.size()), z3.BitVecSort(w))
                    r = f(a)
            self.wc[('uf', i)] = r
        return r
    def arr(self, f, iw):
        key = ('arr', f, iw)
        r = self.wc.get(key)
        if r is None:
            from . import arr as am
            kind, base, stores = am.parts(f)
            S = z3.ArraySort(z3.BitVecSort(iw), z3.BitVecSort(8))
            if kind == 'f':
                r = self.wc.get(('arrb', base[0], iw))
                if r is None: r = self.wc[('arrb', base[0], iw)] = z3.Const(f'arr{base[0]}', S)
            else:
                r = z3.K(z3.BitVecSort(iw), z3.BitVecVal(0, 8))
                for i, c in enumerate(base): r = z3.Store(r, z3.BitVecVal(i, iw), self.word(c))
            for i, v in stores: r = z3.Store(r, self.word(i), self.word(v))
            self.wc[key] = r
        return r
    def flat(self, a):
        for x in a:
            if isinstance(x, tuple): yield from self.flat(x)
            elif isinstance(x, int) and not isinstance(x, bool): yield x
    def shape(self, a):
        return tuple(self.shape(x) if isinstance(x, tuple) else 'f' if isinstance(x, int) else str(x) for x in a)
    def selw(self, cid, idx):
        r = self.wc.get(('sel', cid, idx))
        if r is None:
            content = T_.ufs[cid][1]
            r = self.word(content[0])
            ix = self.word(idx)
            for j in range(1, len(content)):
                r = z3.If(ix == j, self.word(content[j]), r)
            self.wc[('sel', cid, idx)] = r
        return r
    def bit(self, f):
        """1-bit vector"""
        if f == 0: return z3.BitVecVal(0, 1)
        if f == 1: return z3.BitVecVal(1, 1)
        r = self.bc.get(f)
        if r is None:
            s = self.source(f)
            if s is not None: r = z3.Extract(s[2], s[2], s[1])
            else:
                r = None
                for m in sorted(T_.forms[f]):
                    p = None
                    for a in T_.mons[m]:
                        e = self.atom(a)
                        p = e if p is None else p & e
                    if p is None: p = z3.BitVecVal(1, 1)
                    r = p if r is None else r ^ p
            self.bc[f] = r
        return r
    def bool(self, f):
        return self.bit(f) == z3.BitVecVal(1, 1)
    def atom(self, a):
        r = self.ac.get(a)
        if r is None:
            k = T_.atoms[a]
            if k[0] in ('v', 'add', 'uf', 'sel'):
                s = self.source(tm.form_id(frozenset((tm.mon_id((a,)),))))
                r = z3.Extract(s[2], s[2], s[1])
            elif k[0] == 'lut':
                idx, tt = k[1], k[2]
                n = len(idx)
                def go(i, tt):       # tt over idx[0..i)
                    full = (1 << (1 << i)) - 1
                    if tt == 0: return z3.BitVecVal(0, 1)
                    if tt == full: return z3.BitVecVal(1, 1)
                    h = 1 << (i - 1)
                    lo, hi = tt & ((1 << h) - 1), tt >> h
                    if lo == hi: return go(i - 1, lo)
                    return z3.If(self.bool(idx[i - 1]), go(i - 1, hi), go(i - 1, lo))
                r = go(n, tt)
            elif k[0] == 'ult':
                r = z3.If(z3.ULT(self.word(k[1]), self.word(k[2])), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            elif k[0] == 'eq0':
                fs = k[1]
                w = self.word(tuple(fs))
                r = z3.If(w == 0, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            elif k[0] == 'nm': r = self.bit(k[1])
            elif k[0] == 'lc': r = z3.BitVec(f'lc{a}', 1)
            else: raise Unsupported('z3 export of ' + str(k[0]))
            self.ac[a] = r
        return r
    def word(self, bits):
        bits = tuple(bits)
        r = self.wc.get(bits)
        if r is not None: return r
        parts = []      # (expr) from low to high
        i, n = 0, len(bits)
        while i < n:
            f = bits[i]
            if f in (0, 1):
                v = 0; j = i
                while j < n and bits[j] in (0, 1):
                    v |= bits[j] << (j - i); j += 1
                parts.append(z3.BitVecVal(v, j - i)); i = j; continue
            s = self.source(f)
            if s is not None:
                j = i + 1
                while j < n and bits[j] not in (0, 1):
                    t = self.source(bits[j])
                    if t is None or t[0] != s[0] or t[2] != s[2] + (j - i): break
                    j += 1
                e = s[1]
                # the low part of a sum is named after the truncated sum; fall through to plain extraction
                parts.append(z3.Extract(s[2] + (j - i) - 1, s[2], e) if (j - i) != e.size() else e)
                i = j; continue
            parts.append(self.bit(f)); i += 1
        # whole known sum?
        sw = T_.sumwords.get(bits)
        if sw is not None: r = self.addw(sw)
        elif len(parts) == 1: r = parts[0]
        else: r = z3.Concat(*reversed(parts))
        self.wc[bits] = r
        return r

STAT = {'s': 0.0, 'n': 0}

def solve(goal_false, assumptions=(), timeout=20000, x=None, tactic=None):
    """unsat of (assumptions and goal_false)?  returns ('unsat'|'sat'|'unknown', model)"""
    t = time.time()
    s = z3.Solver() if tactic is None else z3.Then(*tactic).solver()
    s.set('timeout', timeout)
    for a in assumptions: s.add(a)
    s.add(goal_false)
    r = s.check()
    STAT['s'] += time.time() - t; STAT['n'] += 1
    return str(r), (s.model() if r == z3.sat else None)

def equal(a, b, pc=(), timeout=20000):
    """bit tuples equal under the forms in pc?  (True/False/None, model)"""
    if tuple(a) == tuple(b): return True, None
    x = X()
    r, m = solve(x.word(tuple(a)) != x.word(tuple(b)), [x.bool(f) for f in pc], timeout)
    return (True if r == 'unsat' else False if r == 'sat' else None), m
