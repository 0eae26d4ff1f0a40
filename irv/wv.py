"""Word-value verifier: contract checking of big-number code in the integer domain.

Every register is a polynomial over integer atoms that equals the register's exact (unsigned or signed) value;
wrap-around, shifts and divisions introduce floor/quotient atoms with their defining inequalities.  A word array is a
version chain; S(v,e) is the ghost value of its first e words, sum of w_j*2^(64 j).  Loops are cut at their headers:
the invariants (affine relations between counters and pointers, ranges, write windows and value identities over S) are
candidates mined from concrete runs of the same IR and are then proved: on entry and after an arbitrary iteration, by
polynomial identity or by z3 over linear integer arithmetic.  What is not proved is dropped, never assumed."""
import itertools, random, sys, time
import math
from fractions import Fraction
import z3
from . import sym as symmod, wvmine

W64 = 1 << 64

# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ('t', 'h')
    def __init__(self, t):
        self.t = t; self.h = None
    def __hash__(self):
        if self.h is None: self.h = hash(frozenset(self.t.items()))
        return self.h
    def __eq__(self, o):
        if self is o: return True
        return o.__class__ is Poly and hash(self) == hash(o) and self.t == o.t
    def __add__(self, o):
        o = P(o)
        r = dict(self.t)
        for m, c in o.t.items():
            n = r.get(m, 0) + c
            if n == 0: r.pop(m, None)
            else: r[m] = n
        return Poly(r)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) - self
    def __mul__(self, o):
        o = P(o)
        r = {}
        for m, c in self.t.items():
            for m2, c2 in o.t.items():
                k = mmul(m, m2)
                n = r.get(k, 0) + c * c2
                if n == 0: r.pop(k, None)
                else: r[k] = n
        return Poly({m: nrm(c) for m, c in r.items()})
    __rmul__ = __mul__
    def const(self):
        if not self.t: return 0
        if len(self.t) == 1 and () in self.t: return self.t[()]
        return None
    def atoms(self):
        s = set()
        for m in self.t:
            for a, e in m: s.add(a)
        return s
    def linear(self): return all(len(m) == 0 or (len(m) == 1 and m[0][1] == 1) for m in self.t)
    def c0(self): return self.t.get((), 0)
    def __repr__(self):
        if not self.t: return '0'
        def ar(a):
            if a[0] == 'v': return a[1]
            return a[0] + '(' + ','.join(str(x) for x in a[1:]) + ')'
        def cr(c):
            if isinstance(c, int) and abs(c) >= 2 ** 32 and abs(c) & (abs(c) - 1) == 0:
                return ('-' if c < 0 else '') + '2^%d' % (abs(c).bit_length() - 1)
            return str(c)
        return ' + '.join(cr(c) + ''.join('*' + ar(a) + ('^%d' % e if e != 1 else '') for a, e in m) for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]), str(x[0]))))

def nrm(c):
    if isinstance(c, Fraction) and c.denominator == 1: return c.numerator
    return c
def P(x):
    if isinstance(x, Poly): return x
    return Poly({(): x} if x else {})
def A(atom): return Poly({((atom, 1),): 1})
def V(name): return A(('v', name))
_keyc = {}
def akey(a):
    k = _keyc.get(a)
    if k is None:
        k = _keyc[a] = repr(a)
    return k
def mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n == 0: del d[a]
        else: d[a] = n
    return tuple(sorted(d.items(), key=lambda x: akey(x[0])))
def pw2(k):
    """2^k, k int (may be negative)"""
    return 1 << k if k >= 0 else Fraction(1, 1 << -k)

class Failed(Exception):
    def __init__(self, ob, msg): Exception.__init__(self, f'{ob}: {msg}'); self.ob, self.msg = ob, msg
class Unsupported(Exception): pass
class Restart(Exception): pass
class Dead(Exception): pass
class Refork(Exception):
    """a decision needed in the middle of an evaluation: re-execute the instruction under both cases"""
    def __init__(self, poly): self.poly = poly        # cases poly >= 0 / poly <= -1

# ---------------------------------------------------------------- values
class N:
    """integer register: width, exact value polynomial, 'u'|'s' says which reading the polynomial is"""
    __slots__ = ('w', 'p', 's', 'mult', 'lt')
    def __init__(self, w, p, s='u', mult=None, lt=None): self.w, self.p, self.s, self.mult, self.lt = w, P(p), s, mult, lt
    def __repr__(self): return f'i{self.w}{self.s}[{self.p}]'
class Ptr:
    __slots__ = ('o', 'off')
    def __init__(self, o, off): self.o, self.off = o, P(off)
    def __repr__(self): return f'&{self.o}+[{self.off}]'
class PI:
    """a pointer seen as an integer"""
    __slots__ = ('o', 'off')
    def __init__(self, o, off): self.o, self.off = o, off
NULL = Ptr(None, 0)

# ---------------------------------------------------------------- array versions
class Base:
    def __init__(self, id): self.id = id
    def map(self, f, memo): return self
class Zero:
    def __init__(self, prev, lo, hi, val=0): self.prev, self.lo, self.hi, self.val = prev, lo, hi, val
    def map(self, f, memo):
        k = id(self)
        if k not in memo: memo[k] = (Zero(self.prev.map(f, memo), f(self.lo), f(self.hi), self.val), self)
        return memo[k][0]
class Store:
    def __init__(self, prev, idx, val): self.prev, self.idx, self.val = prev, idx, val
    def map(self, f, memo):
        k = id(self)
        if k not in memo: memo[k] = (Store(self.prev.map(f, memo), f(self.idx), f(self.val)), self)
        return memo[k][0]
class Copy:
    """cells lo..lo+n-1 come from version src at slo.."""
    def __init__(self, prev, lo, n, src, slo): self.prev, self.lo, self.n, self.src, self.slo = prev, lo, n, src, slo
    def map(self, f, memo):
        k = id(self)
        if k not in memo: memo[k] = (Copy(self.prev.map(f, memo), f(self.lo), f(self.n), self.src.map(f, memo), f(self.slo)), self)
        return memo[k][0]
class Loop:
    def __init__(self, prev, lo, hi, id): self.prev, self.lo, self.hi, self.id = prev, lo, hi, id
    def map(self, f, memo):
        k = id(self)
        if k not in memo: memo[k] = (Loop(self.prev.map(f, memo), f(self.lo), f(self.hi), self.id), self)
        return memo[k][0]

class Obj:
    """es: element size in bytes (8: word array, 1: byte array); None: scalar cells (struct or alloca)"""
    def __init__(self, name, es, cap, writable=True): self.name, self.es, self.cap, self.writable = name, es, cap, writable

class St:
    def __init__(self):
        self.envs = [{}]
        self.cells = {}        # (obj, off) -> value
        self.arr = {}          # obj -> version
        self.objs = {}         # obj -> Obj
        self.ent = {}          # obj -> version at function entry
        self.pc = []           # (poly, rel)
        self.rw = {}           # atom -> poly
        self.loops = []        # active loop activations
        self.freed = set()
        self.log = []
        self.extra = {}
    def copy(self):
        s = St.__new__(St)
        s.envs = [dict(e) for e in self.envs]
        s.cells = dict(self.cells); s.arr = dict(self.arr); s.objs = dict(self.objs); s.ent = dict(self.ent)
        s.pc = list(self.pc); s.rw = dict(self.rw); s.loops = list(self.loops); s.freed = set(self.freed); s.log = list(self.log)
        s.extra = dict(self.extra)
        return s

def mapv(v, f):
    if isinstance(v, N): return N(v.w, f(v.p), v.s, f(v.mult) if isinstance(v.mult, Poly) else v.mult, f(v.lt) if isinstance(v.lt, Poly) else v.lt)
    if isinstance(v, Ptr): return v if v.o is None else Ptr(v.o, f(v.off))
    if isinstance(v, PI): return PI(v.o, f(v.off))
    if isinstance(v, tuple): return tuple(mapv(x, f) for x in v)
    return v

class Solver:
    """linear arithmetic with monomials abstracted to variables and instantiated facts about them"""
    def __init__(self):
        self.cache = {}
        self.n = 0
        self.t = 0.0
        self.calls = 0

class Engine:
    def __init__(self, mod, layout=None, timeout=20000):
        self.m = mod
        self.cfgs = {}
        self.fresh = 0
        self.contracts = {}
        self.loopinfo = {}        # (path, header) -> LoopInfo
        self.obs = {}
        self.cache = {}
        self.qn = 0
        self.qt = 0.0
        self.timeout = timeout
        self.deadline = None
        self.es = {}
        self.paths = 0
        self.ineq_only = False
        self.trace_calls = set()
        self.used_contracts = set()
        self.bounds_hint = {}
        self.rep = {}
        self.simple_int = False
        self.lives = {}
        self.supc = {}
        self.mn, self.ps, self.mf = {}, {}, {}
        self.blank = St()

    # ------------------------------------------------------------ obligations
    def ob(self, kind, n=1): self.obs[kind] = self.obs.get(kind, 0) + n

    def newname(self, base):
        self.fresh += 1
        return f'{base}#{self.fresh}'

    # ------------------------------------------------------------ atom constructors (canonical forms)
    def Pw(self, st, e):
        """2^(64 e)"""
        return self.pow2(st, P(e) * 64)
    def pow2(self, st, e):
        e = self.norm(st, P(e))
        r = P(pw2(e.c0()) if isinstance(e.c0(), int) else None)
        for m, c in e.t.items():
            if m == (): continue
            if not isinstance(c, int): raise Unsupported('fractional exponent')
            a = Poly({m: 1})
            if len(m) == 1 and m[0][1] == 1: at = m[0][0]
            else: raise Unsupported('nonlinear exponent')
            r = r * Poly({((('T', at), c),): 1})
        return r

    def norm(self, st, p):
        return p

    def F(self, st, p, k):
        """floor(p / 2^k), k int or Poly"""
        p = P(p)
        if isinstance(k, Poly):
            c = k.const()
            if c is not None: k = c
        if isinstance(k, int):
            if k == 0: return p
            d = 1 << k
            if any(at[0] == 'Q' for at in p.atoms()) and self.valid(st, p, '>=') and self.valid(st, P(d - 1) - p, '>='): return P(0)
            a, b = {}, {}
            for m, c in p.t.items():
                if isinstance(c, int) and m != () and all(at[0] not in ('T',) for at, e in m):
                    q, r = divmod(c, d)
                    if r == 0: a[m] = q; continue
                    if abs(c) >= d:
                        if r > d // 2: q += 1; r -= d
                        a[m] = q; b[m] = r; continue
                    b[m] = c
                elif m == () and isinstance(c, int):
                    q, r = divmod(c, d)
                    if q: a[m] = q
                    if r: b[m] = r
                else: b[m] = c
            ap, bp = Poly(a), Poly(b)
            if not bp.t: return ap
            if bp.const() is not None: return ap + (bp.const() // d)
            lo, hi = self.bounds(bp)
            if lo is not None and hi is not None and 0 <= lo and hi < d: return ap
            # nested floors: F(F(x,j),k) = F(x,j+k)
            if len(bp.t) == 1:
                (m, c), = bp.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'F' and isinstance(m[0][0][2], int):
                    return ap + self.F(st, m[0][0][1], m[0][0][2] + k)
            if self.valid(st, bp, '>=') and self.valid(st, P(d - 1) - bp, '>='): return ap
            if lo is not None and hi is not None and hi // d - lo // d <= 3:
                for n in range(lo // d, hi // d + 1):
                    if n and self.valid(st, bp - n * d, '>=') and self.valid(st, P(n * d + d - 1) - bp, '>='): return ap + n
            if (lo is None or hi is None) and bp.c0() and self.valid(st, bp - d, '>=') and self.valid(st, P(2 * d - 1) - bp, '>='): return ap + 1
            return ap + st.rw.get(('F', bp, k), A(('F', bp, k)))
        lo, hi = self.bounds(p)
        if p.const() == 0: return P(0)
        return st.rw.get(('F', p, k), A(('F', p, k)))

    def Q(self, st, x, y):
        x, y = P(x), P(y)
        if y.const() is not None and x.const() is not None: return P(x.const() // y.const())
        if y.const() == 1: return x
        c = y.const()
        if c is not None and c & (c - 1) == 0: return self.F(st, x, c.bit_length() - 1)
        if x.const() == 0: return P(0)
        return A(('Q', x, y))

    # ------------------------------------------------------------ static bounds
    def abounds(self, a):
        k = a[0]
        if k == 'v': return self.bounds_hint.get(a[1], (None, None))
        if k == 'W': return 0, self.es_max(a[1])
        if k == 'S': return 0, None
        if k == 'T': return 1, None
        if k == 'F' and isinstance(a[2], int):
            lo, hi = self.bounds(a[1])
            return (None if lo is None else lo // 1 >> a[2]), (None if hi is None else hi // 1 >> a[2])
        if k == 'F':
            lo, hi = self.bounds(a[1])
            return (0 if lo is not None and lo >= 0 else None), hi
        if k == 'Q':
            lo, hi = self.bounds(a[1])
            return (0 if lo is not None and lo >= 0 else None), hi
        if k == 'V': return 0, None
        return None, None
    def es_max(self, vid): return 255 if vid.startswith('bytes:') else W64 - 1
    def bounds(self, p):
        lo = hi = 0
        for m, c in p.t.items():
            ml = mh = 1
            for a, e in m:
                al, ah = self.abounds(a)
                if al is None or al < 0:
                    if len(m) == 1 and e == 1: ml, mh = al, ah
                    else: ml = mh = None
                    break
                if e < 0: ml, mh = 0, mh; al, ah = 0, 1; e = 1
                for _ in range(e):
                    ml = ml * al
                    mh = None if mh is None or ah is None else mh * ah
            if c < 0: ml, mh = mh, ml
            lo = None if lo is None or ml is None else lo + c * ml
            hi = None if hi is None or mh is None else hi + c * mh
        return lo, hi

    # ------------------------------------------------------------ z3
    def mname(self, m):
        r = self.mn.get(m)
        if r is None:
            real = any(a[0] == 'T' or e < 0 for a, e in m) or len(m) > 1 or m[0][1] > 1
            r = self.mn[m] = ('m%d' % len(self.mn), 'Real' if real else 'Int')
        return r
    def pstr(self, p):
        r = self.ps.get(p)
        if r is None:
            t = []
            for m, c in p.t.items():
                if isinstance(c, Fraction): cs = '(/ %d.0 %d.0)' % (c.numerator, c.denominator) if c >= 0 else '(- (/ %d.0 %d.0))' % (-c.numerator, c.denominator)
                else: cs = str(c) if c >= 0 else '(- %d)' % -c
                t.append(cs if m == () else '(* %s %s)' % (cs, self.mname(m)[0]) if c != 1 else self.mname(m)[0])
            r = '0' if not t else t[0] if len(t) == 1 else '(+ ' + ' '.join(t) + ')'
            if len(self.ps) > 300000: self.ps.clear()
            self.ps[p] = r
        return r
    def rstr(self, p, rel):
        if rel == '>=': return '(>= %s 0)' % self.pstr(p)
        if rel == '==': return '(= %s 0)' % self.pstr(p)
        if rel == '!=': return '(not (= %s 0))' % self.pstr(p)
        raise ValueError(rel)

    def mfacts(self, m, deep):
        """defining and bounding facts of one monomial"""
        r = self.mf.get((m, deep))
        if r is not None: return r
        out = []
        def add(p): out.append(p)
        st = self.blank
        for a, e in m:
            if len(m) > 1 or e != 1:
                add(None); out.pop()
            pa = A(a)
            k = a[0]
            if k == 'W':
                add(pa); add(P(self.es_max(a[1])) - pa)
            elif k == 'v':
                lo, hi = self.bounds_hint.get(a[1], (None, None))
                if lo is not None: add(pa - lo)
                if hi is not None: add(P(hi) - pa)
            elif k == 'S':
                add(pa)
                es = 8 if a[1].startswith('bytes:') else 64
                try: add(self.pow2(st, a[2] * es) - 1 - pa)
                except Unsupported: pass
            elif k == 'T': pass
            elif k == 'F':
                if isinstance(a[2], int):
                    d = a[1] - pa * (1 << a[2])
                    add(d); add(P((1 << a[2]) - 1) - d)
                else:
                    T = self.pow2(st, a[2])
                    d = a[1] - pa * T
                    add(d); add(T - 1 - d)
                    lo, _ = self.bounds(a[1])
                    if lo is not None and lo >= 0: add(pa)
            elif k == 'Q':
                d = a[1] - pa * a[2]
                add(d); add(a[2] - 1 - d)
                lo, _ = self.bounds(a[1])
                if lo is not None and lo >= 0: add(pa)
            elif k == 'V': add(pa)
        if len(m) > 1 or m[0][1] != 1:
            pm = Poly({m: 1})
            if all(self.abounds(a)[0] is not None and self.abounds(a)[0] >= 0 for a, e in m):
                add(pm)
                for i, (a, e) in enumerate(m):
                    if e < 1 or a[0] == 'T': continue
                    lo, hi = self.abounds(a)
                    rest = mmul(m, ((a, -1),))
                    rp = Poly({rest: 1})
                    if hi is not None: add(rp * hi - pm)
                    if lo: add(pm - rp * lo)
                    if a[0] == 'S' and deep:
                        try: add(rp * (self.pow2(st, a[2] * (8 if a[1].startswith('bytes:') else 64)) - 1) - pm)
                        except Unsupported: pass
        out = [p for p in out if p.const() is None or p.const() < 0]
        self.mf[(m, deep)] = out
        return out

    def query(self, st, goal, rel, extra=(), deep=True):
        """is pc & not goal satisfiable?  returns 'unsat' | 'sat' | 'unknown' (goal: poly rel 0)"""
        pcs = self.relevant(st.pc, goal)
        key = (goal, rel, frozenset(pcs), deep)
        r = self.cache.get(key)
        if r is not None: return r
        t0 = time.time()
        self.qn += 1
        r = self._query(st, goal, rel, pcs, deep)
        self.qt += time.time() - t0
        if len(self.cache) > 200000: self.cache.clear()
        self.cache[key] = r
        return r

    def relevant(self, pcs, goal):
        """constraints connected to the goal through shared atoms"""
        sup = self.support
        cur = set(sup(goal))
        rest = [(c, sup(c[0])) for c in pcs]
        out = []
        ch = True
        while ch:
            ch = False
            nr = []
            for c, s in rest:
                if s & cur: out.append(c); cur |= s; ch = True
                else: nr.append((c, s))
            rest = nr
        return out

    def _query(self, st, goal, rel, pcs, deep):
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget')
        if getattr(self, 'debug', 0) > 1: print('Q', goal, rel)
        seen = set()
        todo = []
        cons = []
        def use(p):
            for m in p.t:
                if m and m not in seen: seen.add(m); todo.append(m)
        def add(p, r='>='):
            cons.append(self.rstr(p, r)); use(p)
        for p, r in pcs: add(p, r)
        use(goal)
        g = goal
        if rel == '>=' and all(isinstance(c, int) and all(a[0] != 'T' or e > 0 for a, e in m) for m, c in goal.t.items()):
            ng = '(<= %s (- 1))' % self.pstr(goal)
        elif rel == '>=': ng = '(< %s 0)' % self.pstr(goal)
        elif rel == '==': ng = '(not (= %s 0))' % self.pstr(goal)
        else: ng = '(= %s 0)' % self.pstr(goal)
        def close(dp):
            while todo:
                m = todo.pop()
                for p in self.mfacts(m, dp): add(p)
                # factors' own facts mention the single atoms
        close(deep)
        if deep:
            self.lemmas(st, pcs, seen, add)
            close(False)
        decl = ' '.join('(declare-const %s %s)' % self.mname(m) for m in seen)
        txt = decl + ' '.join('(assert %s)' % c for c in dict.fromkeys(cons)) + '(assert %s)' % ng
        s = z3.Solver()
        s.set('timeout', self.timeout if deep else 4000)
        s.from_string(txt)
        r = str(s.check())
        if getattr(self, 'debug', 0) > 1: print('  ->', r, len(cons))
        return r

    def lemmas(self, st, pcs, seen, add):
        """product lemmas: powers compared through their exponents; linear facts about words times a power"""
        Pm = [m for m in seen if all(a[0] == 'T' for a, e in m)]
        for m in Pm:
            e = self.exponent(m)
            pm = Poly({m: 1})
            d = self.small_min(st, e)
            if d is not None and d > -200 and d < 4200: add(pm - pw2(d))
            else: add(pm)
            d2 = self.small_max(st, e)
            if d2 is not None and -200 < d2 < 200: add(P(pw2(d2)) - pm)
        for m1, m2 in itertools.combinations(Pm, 2):
            e = self.exponent(m1) - self.exponent(m2)
            lo = self.small_min(st, e)
            if lo is not None and -200 <= lo <= 200: add(Poly({m1: 1}) - Poly({m2: 1}) * pw2(lo))
            hi = self.small_max(st, e)
            if hi is not None and -200 <= hi <= 200: add(Poly({m2: 1}) * pw2(hi) - Poly({m1: 1}))
        # word constraints times powers / words present in products
        facs = set()
        for m in list(seen):
            if len(m) < 2: continue
            for i in range(len(m)):
                rest = tuple(x for j, x in enumerate(m) if j != i)
                if m[i][1] == 1 and m[i][0][0] in ('W', 'v', 'F', 'S', 'Q', 'V'):
                    if all((self.abounds(a)[0] is not None and self.abounds(a)[0] >= 0) for a, e in rest): facs.add((rest, m[i][0]))
        byfac = {}
        for rest, a in facs: byfac.setdefault(rest, set()).add(a)
        cnt = 0
        for rest, ats in byfac.items():
            for p, r in pcs:
                if r != '>=' and r != '==': continue
                if len(p.t) > 6: continue
                pa = p.atoms()
                if not (pa & ats): continue
                if not p.linear(): continue
                add(p * Poly({rest: 1}), r)
                cnt += 1
                if cnt > 120: break

    def exponent(self, m):
        r = P(0)
        for a, e in m:
            r = r + A(a[1]) * e
        return r

    def small_min(self, st, e):
        """largest known constant d with e >= d (multiple search over a few values), by linear arithmetic"""
        c = e.const()
        if c is not None: return c
        return self.opt(st, e, False)
    def small_max(self, st, e):
        c = e.const()
        if c is not None: return c
        return self.opt(st, e, True)
    def opt(self, st, e, mx):
        lin = [(p, r) for p, r in st.pc if r in ('>=', '==') and p.linear() and all(a[0] in ('v',) for a in p.atoms())]
        lin = self.relevant(lin, e)
        key = ('opt', e, mx, frozenset(lin))
        if key in self.cache: return self.cache[key]
        cons = [self.rstr(p, r) for p, r in lin]
        ms = set(m for p in [e] + [q for q, _ in lin] for m in p.t if m)
        for m in ms:
            lo, hi = self.abounds(m[0][0])
            n = self.mname(m)[0]
            if lo is not None: cons.append('(>= %s %d)' % (n, lo) if lo >= 0 else '(>= %s (- %d))' % (n, -lo))
            if hi is not None: cons.append('(<= %s %d)' % (n, hi) if hi >= 0 else '(<= %s (- %d))' % (n, -hi))
        txt = ' '.join('(declare-const %s %s)' % self.mname(m) for m in ms) + ' '.join('(assert %s)' % c for c in cons)
        o = z3.Optimize()
        o.set('timeout', 3000)
        txt += '(declare-const zz Int)(assert (= zz %s))' % self.pstr(e)
        o.from_string(txt)
        h = o.maximize(z3.Int('zz')) if mx else o.minimize(z3.Int('zz'))
        res = None
        if str(o.check()) == 'sat':
            b = o.upper(h) if mx else o.lower(h)
            try: res = b.as_long()
            except Exception: res = None
        if res is not None and abs(res) > 100000: res = None if True else res
        self.cache[key] = res
        return res

    def valid(self, st, p, rel):
        p = P(p)
        c = p.const()
        if c is not None:
            return c >= 0 if rel == '>=' else c == 0 if rel == '==' else c != 0
        lo, hi = self.bounds(p)
        if rel == '>=':
            if lo is not None and lo >= 0: return True
            if hi is not None and hi < 0: return False
        if rel == '==' and ((lo is not None and lo > 0) or (hi is not None and hi < 0)): return False
        if rel == '!=' and ((lo is not None and lo > 0) or (hi is not None and hi < 0)): return True
        r = self.query(st, p, rel, (), False)
        if r == 'unsat': return True
        if self.needs_deep(p, st) and self.query(st, p, rel, (), True) == 'unsat': return True
        # divided by the powers of two common to all terms, or part by part
        if len(p.t) == 1 and rel in ('==', '>='):
            (m, c), = p.t.items()
            if any(a[0] == 'T' for a, e in m) and any(a[0] != 'T' for a, e in m): return self.valid(st, Poly({tuple((a, e) for a, e in m if a[0] != 'T'): 1 if c > 0 else -1}), rel)
        if len(p.t) > 1 and rel in ('==', '>='):
            com = None
            for m in p.t:
                d = {a: e for a, e in m if a[0] == 'T'}
                com = d if com is None else {a: min(e, d[a]) for a, e in com.items() if a in d}
                if not com: break
            if com and any({a: e for a, e in m if a[0] == 'T'} != com for m in p.t):
                q = {}
                for m, c in p.t.items():
                    q[tuple((a, e - com.get(a, 0)) for a, e in m if e - com.get(a, 0))] = c
                return self.valid(st, Poly(q), rel)
            g = self.tgroups(p)
            if len(g) == 1 and list(g)[0] != (): return self.valid(st, list(g.values())[0], rel)
            if len(g) > 1 and rel == '==' and any(len(q.t) > 1 or len(list(q.t)[0]) > 0 for q in g.values()) and len(g) < 5 and all(len(q.t) > 1 for q in g.values()):
                return all(self.valid(st, q, '==') for q in g.values())
        return False
    def tgroups(self, p):
        g = {}
        for m, c in p.t.items():
            t = tuple(x for x in m if x[0][0] == 'T'); r = tuple(x for x in m if x[0][0] != 'T')
            g.setdefault(t, {})[r] = c
        # scale so that fractions vanish
        out = {}
        for t, q in g.items():
            d = 1
            for c in q.values():
                if isinstance(c, Fraction): d = max(d, c.denominator)
            out[t] = Poly({m: (c * d if not isinstance(c * d, Fraction) else nrm(c * d)) for m, c in q.items()})
        return out
    def needs_deep(self, p, st):
        for a in p.atoms():
            if a[0] in ('T', 'S', 'F', 'Q', 'W', 'V'): return True
        return any(len(m) > 1 for m in p.t) or any(a[0] in ('F', 'Q', 'S') for q, r in self.relevant(st.pc, p) for a in q.atoms())

    def feasible(self, st, p, rel):
        """may poly rel 0 hold on this path?  (True unless refuted)"""
        c = p.const()
        if c is not None: return c >= 0 if rel == '>=' else c == 0 if rel == '==' else c != 0
        if rel == '>=': return not self.valid(st, -p - 1, '>=')
        if rel == '==': return not self.valid(st, p, '!=')
        return not self.valid(st, p, '==')

    def dead(self, st):
        """the path condition as a whole is contradictory"""
        key = ('dead', frozenset(st.pc))
        r = self.cache.get(key)
        if r is None:
            self.qn += 1; t0 = time.time()
            r = self.cache[key] = self._query(st, P(-1), '>=', st.pc, False) == 'unsat' or self._query(st, P(-1), '>=', st.pc, True) == 'unsat'
            self.qt += time.time() - t0
        return r

    # ------------------------------------------------------------ substitution
    def substp(self, st, p, sub, memo):
        r = memo.get(p)
        if r is not None: return r
        hit = False
        out = P(0)
        for m, c in p.t.items():
            t = P(c)
            for a, e in m:
                na = self.subst_atom(st, a, sub, memo)
                if e >= 0:
                    for _ in range(e): t = t * na
                else:
                    if len(na.t) != 1: raise Unsupported('negative power of a sum')
                    (mm, cc), = na.t.items()
                    inv = Poly({tuple((x, -y) for x, y in mm): Fraction(1) / cc})
                    for _ in range(-e): t = t * inv
            out = out + t
        memo[p] = out
        return out
    def subst_atom(self, st, a, sub, memo):
        k = ('atom', a)
        r = memo.get(k)
        if r is not None: return r
        if a in sub: r = sub[a]
        elif a[0] == 'v': r = A(a)
        elif a[0] == 'T':
            x = self.subst_atom(st, a[1], sub, memo)
            r = A(a) if x == A(a[1]) else self.pow2(st, x)
        elif a[0] in ('W', 'S'):
            e = self.substp(st, a[2], sub, memo)
            r = A(a) if e == a[2] else (self.W0(st, a[1], e) if a[0] == 'W' else self.S0(st, a[1], e))
        elif a[0] == 'F':
            x = self.substp(st, a[1], sub, memo)
            k2 = self.substp(st, a[2], sub, memo) if isinstance(a[2], Poly) else a[2]
            r = A(a) if (x == a[1] and k2 == a[2]) else self.F(st, x, k2)
        elif a[0] == 'Q':
            x = self.substp(st, a[1], sub, memo); y = self.substp(st, a[2], sub, memo)
            r = A(a) if (x == a[1] and y == a[2]) else self.Q(st, x, y)
        else: r = A(a)
        if len(r.t) == 1 and r in (A(a),): pass
        memo[k] = r
        return r

    def substitute(self, st, atom, p):
        """replace an atom by an equal polynomial everywhere in the state"""
        sub = {atom: p}
        memo = {}
        f0 = lambda q: self.substp(st, q, sub, memo)
        rw = {}
        extra = []
        oldrw = st.rw
        st.rw = rw
        if atom[0] in ('S', 'W', 'V', 'F'): rw[atom] = p
        for a, q in sorted(oldrw.items(), key=lambda x: (x[0][0] != 'W', akey(x[0]))):
            if a == atom: continue
            na = self.subst_atom(st, a, sub, memo)
            nq = f0(q)
            ats = na
            if len(ats.t) == 1 and list(ats.t.values())[0] == 1 and len(list(ats.t)[0]) == 1 and list(ats.t)[0][0][1] == 1:
                at = list(ats.t)[0][0][0]
                if at in rw and rw[at] != nq: extra.append(rw[at] - nq)
                elif A(at) != nq: rw[at] = nq
            elif na != nq: extra.append(na - nq)
            if a[0] == 'W': memo.clear()
        memo.clear()
        oldpc = st.pc
        base = A(atom) - p
        npc = []
        for q, r in oldpc:
            nq = f0(q)
            c = nq.const()
            if c is not None:
                if (r == '>=' and c >= 0) or (r == '==' and c == 0) or (r == '!=' and c != 0): continue
            if (nq, r) not in npc: npc.append((nq, r))
        # keep the range of the eliminated atom
        lo, hi = self.abounds(atom)
        if p.const() is None:
            if lo is not None and (self.bounds(p)[0] is None or self.bounds(p)[0] < lo): npc.append((p - lo, '>='))
            if hi is not None and (self.bounds(p)[1] is None or self.bounds(p)[1] > hi): npc.append((P(hi) - p, '>='))
            if atom[0] == 'S':
                es = 8 if atom[1].startswith('bytes:') else 64
                npc.append((self.pow2(st, f0(atom[2]) * es) - 1 - p, '>='))
        if atom[0] == 'F':
            k = atom[2]
            T = self.pow2(st, P(k) if not isinstance(k, Poly) else k)
            d = f0(atom[1]) - p * T
            npc.append((d, '>=')); npc.append((T - 1 - d, '>='))
        st.pc = npc
        memo.clear()
        for env in st.envs:
            for k in env: env[k] = mapv(env[k], f0)
        for k in st.cells: st.cells[k] = mapv(st.cells[k], f0)
        vm = {}
        for k in st.arr: st.arr[k] = st.arr[k].map(f0, vm)
        for k in st.ent: st.ent[k] = st.ent[k].map(f0, vm)
        nobj = {}
        for k, o in st.objs.items(): nobj[k] = Obj(o.name, o.es, f0(o.cap) if isinstance(o.cap, Poly) else o.cap, o.writable)
        st.objs = nobj
        for act in st.loops: pass
        st.loops = [self.map_act(a, f0, vm) for a in st.loops]
        st.extra = {k: (mapv(v, f0) if not isinstance(v, Poly) else f0(v)) for k, v in st.extra.items()}
        for d in extra:
            d = f0(d)
            if d.const() == 0: continue
            if (d, '==') not in st.pc: st.pc.append((d, '=='))
    def saturate(self, st, p):
        """words in front of a loop's window belong to the version before: add those equalities; True if any is new"""
        ats = {}
        for q in [p] + [q for q, r in st.pc]:
            for a in q.atoms():
                if a[0] == 'W' and a[1].startswith('loop:'): ats[a] = A(a)
        for a, q in st.rw.items():
            if a[0] == 'W' and a[1].startswith('loop:'): ats[a] = q
        new = False
        for a in sorted(ats, key=akey):
            v = self.find_ver(st, a[1])
            if v is None: continue
            if not (self.valid(st, v.lo - a[2] - 1, '>=') or self.valid(st, a[2] - v.hi, '>=')): continue
            try: q = ats[a] - self.read(st, v.prev, a[2])
            except Refork: continue
            if q.const() is None and (q, '==') not in st.pc and (-q, '==') not in st.pc: st.pc.append((q, '==')); new = True
        sats = set()
        for q in [p] + [q for q, r in st.pc] + list(st.rw.values()):
            for a in q.atoms():
                if a[0] == 'S' and a[1].startswith('loop:'): sats.add(a)
        for a in st.rw:
            if a[0] == 'S' and a[1].startswith('loop:'): sats.add(a)
        for a in sorted(sats, key=akey):
            v = self.find_ver(st, a[1])
            if v is None: continue
            for e in (a[2], a[2] - 1):
                if not self.valid(st, v.lo - e, '>='): continue
                try: q = self.S0(st, a[1], e) - self.S(st, v.prev, e, self.wexp(a[1]))
                except Refork: continue
                if q.const() is None and (q, '==') not in st.pc and (-q, '==') not in st.pc: st.pc.append((q, '==')); new = True
                break
        return new
    def holds(self, st, p, rel):
        if self.valid(st, p, rel): return True
        if self.saturate(st, p) and self.valid(st, p, rel): return True
        return self.dead(st)
    def find_ver(self, st, vid):
        for v in st.arr.values():
            while not isinstance(v, Base):
                if isinstance(v, Loop) and v.id == vid: return v
                v = v.prev
        return None
    def map_act(self, act, f, vm):
        n = dict(act)
        n['entry'] = {k: mapv(v, f) for k, v in act['entry'].items()}
        n['pre'] = {k: v.map(f, vm) for k, v in act['pre'].items()}
        n['hdr_arr'] = {k: v.map(f, vm) for k, v in act['hdr_arr'].items()}
        n['hdr_cells'] = {k: mapv(v, f) for k, v in act['hdr_cells'].items()}
        n['win'] = {k: tuple(None if x is None else f(x) for x in v) for k, v in act['win'].items()}
        n['vals'] = {k: mapv(v, f) for k, v in act['vals'].items()}
        return n

    # ------------------------------------------------------------ arrays
    def W0(self, st, vid, e):
        a = ('W', vid, e)
        if a in st.rw: return st.rw[a]
        return A(a)
    def wexp(self, vid): return 8 if vid.startswith('bytes:') else 64
    def S0(self, st, vid, e):
        """canonical S over a base: relative to the symbolic part of e"""
        c = e.c0()
        sp = e - c
        es = self.wexp(vid)
        if not isinstance(c, int): raise Unsupported('fractional index')
        if not sp.t:
            r = P(0)
            if c < 0 or c > 64: raise Unsupported('constant sum %s' % c)
            for j in range(c): r = r + self.W0(st, vid, P(j)) * pw2(es * j)
            return r
        a = ('S', vid, sp)
        r = st.rw.get(a)
        if r is None:
            r = A(a)
            # a rewritten neighbour determines this one
            if c != 0 or True:
                for d in (1, -1, 2, -2):
                    pass
        if abs(c) > 40: raise Unsupported('far offset')
        if c > 0:
            for j in range(c): r = r + self.W0(st, vid, sp + j) * self.pow2(st, (sp + j) * es)
        else:
            for j in range(c, 0): r = r - self.W0(st, vid, sp + j) * self.pow2(st, (sp + j) * es)
        return r

    def decide(self, st, p):
        """p >= 0 ?  True/False when the path decides, otherwise the instruction is re-executed under both cases"""
        if self.valid(st, p, '>='): return True
        if self.valid(st, -p - 1, '>='): return False
        raise Refork(p)

    def read(self, st, v, idx):
        while True:
            if isinstance(v, Base): return self.W0(st, v.id, idx)
            if isinstance(v, Store):
                d = (idx - v.idx)
                if d.const() is not None: eq = d.const() == 0
                else:
                    if self.decide(st, d):
                        eq = not self.decide(st, d - 1)
                    else: eq = False
                if eq: return v.val
                v = v.prev
            elif isinstance(v, (Zero, Loop)):
                if self.decide(st, idx - v.lo) and not self.decide(st, idx - v.hi):
                    if isinstance(v, Zero): return P(v.val)
                    return self.W0(st, v.id, idx)
                v = v.prev
            elif isinstance(v, Copy):
                if self.decide(st, idx - v.lo) and not self.decide(st, idx - v.lo - v.n):
                    idx = idx - v.lo + v.slo; v = v.src
                else: v = v.prev
            else: raise Unsupported('version')

    def S(self, st, v, e, es=64):
        if isinstance(v, Base): return self.S0(st, v.id, e)
        if e.const() == 0: return P(0)
        if isinstance(v, Store):
            base = self.S(st, v.prev, e, es)
            if self.decide(st, v.idx - e): return base
            return base + (v.val - self.read(st, v.prev, v.idx)) * self.pow2(st, v.idx * es)
        if isinstance(v, Zero):
            if self.decide(st, v.lo - e): return self.S(st, v.prev, e, es)
            if not self.decide(st, v.hi - v.lo - 1): return self.S(st, v.prev, e, es)
            b = self.S(st, v.prev, v.lo, es)
            if v.val: raise Unsupported('nonzero fill')
            if self.decide(st, v.hi - e): return b
            return b + self.S(st, v.prev, e, es) - self.S(st, v.prev, v.hi, es)
        if isinstance(v, Loop):
            if self.decide(st, v.lo - e): return self.S(st, v.prev, e, es)
            if not self.decide(st, v.hi - v.lo - 1): return self.S(st, v.prev, e, es)
            if self.decide(st, v.hi - e): return self.S0(st, v.id, e)
            return self.S0(st, v.id, v.hi) + self.S(st, v.prev, e, es) - self.S(st, v.prev, v.hi, es)
        if isinstance(v, Copy):
            if self.decide(st, v.lo - e): return self.S(st, v.prev, e, es)
            if not self.decide(st, v.n - 1): return self.S(st, v.prev, e, es)
            b = self.S(st, v.prev, v.lo, es)
            top = e if self.decide(st, v.lo + v.n - e) else v.lo + v.n
            k = self.pow2(st, (v.lo - v.slo) * es)
            r = b + (self.S(st, v.src, top - v.lo + v.slo, es) - self.S(st, v.src, v.slo, es)) * k
            if top is not e: r = r + self.S(st, v.prev, e, es) - self.S(st, v.prev, v.lo + v.n, es)
            return r
        raise Unsupported('version')

    # ------------------------------------------------------------ readings
    def to_u(self, st, v):
        if v.s == 'u': return v.p
        if self.decide(st, v.p): return v.p
        return v.p + (1 << v.w)
    def to_s(self, st, v):
        if v.s == 's': return v.p
        if self.decide(st, P((1 << (v.w - 1)) - 1) - v.p): return v.p
        return v.p - (1 << v.w)
    def num(self, st, v):
        """the number a register stands for in terms: words unsigned, other integers signed"""
        if isinstance(v, N):
            if v.w == 32: return self.to_s(st, v)
            return self.to_u(st, v)
        raise Unsupported('number of ' + repr(v))
    def wrap(self, st, p, w):
        """the unsigned reading of p mod 2^w"""
        return p - self.F(st, p, w) * (1 << w)

    # ------------------------------------------------------------ constraints
    def support(self, p, memo=None):
        s = self.supc.get(p)
        if s is not None: return s
        s = self._support(p)
        if len(self.supc) > 300000: self.supc.clear()
        self.supc[p] = s
        return s
    def _support(self, p):
        s = set()
        todo = list(p.atoms())
        while todo:
            a = todo.pop()
            if a in s: continue
            s.add(a)
            for x in a[1:]:
                if isinstance(x, Poly): todo += list(x.atoms())
                elif isinstance(x, tuple): todo.append(x)
        return s

    def add_pc(self, st, p, rel='>='):
        c = p.const()
        if c is not None:
            return c >= 0 if rel == '>=' else c == 0 if rel == '==' else c != 0
        if (p, rel) not in st.pc: st.pc.append((p, rel))
        return True

    def solve_for(self, p, pred=None):
        """an atom that occurs linearly with coefficient +-1 and nowhere else in p: (atom, its value) or None"""
        cands = []
        g = 0
        for c in p.t.values():
            if not isinstance(c, int): g = 1; break
            g = math.gcd(g, c)
        if g > 1: p = Poly({m: c // g for m, c in p.t.items()})
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
                a = m[0][0]
                if a[0] in ('v', 'S', 'F', 'W', 'V') and (pred is None or pred(a)):
                    rest = Poly({k: v for k, v in p.t.items() if k != m})
                    if a in self.support(rest): continue
                    cands.append((a, rest * (-c)))
        return cands

    def learn(self, st, p):
        """a constraint p >= 0 was just added: detect forced equalities, fix small floors.  False: path infeasible"""
        if not self.feasible(st, p, '>='): return False
        if self.valid(st, -p, '>='):
            c = self.solve_for(p, lambda a: a[0] == 'v' and not a[1].startswith('!'))
            c.sort(key=lambda x: (len(x[1].t), 0 if '#' in x[0][1] else 1))
            if c:
                a, val = c[0]
                # prefer eliminating loop atoms
                for a2, v2 in c:
                    if a2[1].startswith('%') or a2[1].startswith('.'): a, val = a2, v2; break
                self.substitute(st, a, val)
            else:
                st.pc.append((p, '=='))
                c = self.solve_for(p, lambda a: a[0] in ('W', 'F', 'S'))
                if c and len(c[0][1].t) <= 3: self.substitute(st, c[0][0], c[0][1])
        self.settle(st, p)
        return True

    def settle(self, st, p):
        sp = self.support(p)
        fl = set()
        def coll(q):
            for a in self.support(q):
                if a[0] in ('F', 'Q'): fl.add(a)
        for q, r in st.pc: coll(q)
        for env in st.envs:
            for v in env.values():
                if isinstance(v, N): coll(v.p)
        for v in st.cells.values():
            if isinstance(v, N): coll(v.p)
        for v in st.arr.values():
            while isinstance(v, Store): coll(v.val); v = v.prev
        for a in sorted(fl, key=akey):
            lo, hi = self.abounds(a)
            s = self.support(A(a))
            if not (s & sp): continue
            if lo is None or hi is None or hi - lo > 3: 
                if not (a[0] == 'F' and isinstance(a[2], Poly)) : continue
                lo, hi = 0, 0
            for v in range(lo, hi + 1):
                if self.valid(st, A(a) - v, '=='):
                    self.substitute(st, a, P(v)); break

    def fork(self, st, poly):
        """both refinements of a state"""
        out = []
        for p in (poly, -poly - 1):
            s = st.copy()
            if not self.add_pc(s, p): continue
            try:
                if self.learn(s, p): out.append(s)
            except Refork as r2:
                # needed a further split while learning: keep the plain constraint and split on that first
                s = st.copy()
                self.add_pc(s, p)
                out += self.fork(s, r2.poly)
        return out

    # ------------------------------------------------------------ values of operands
    def val(self, st, ty, op):
        k = op[0]
        if k == 'l':
            e = st.envs[-1]
            if op[1] not in e: raise Unsupported('register ' + op[1])
            return e[op[1]]
        if k == 'c':
            if ty[0] == 'ptr': return NULL
            w = ty[1]; c = op[1]
            if isinstance(c, bool): c = int(c)
            if c is None: c = 0
            c &= (1 << w) - 1
            if w > 1 and c >> (w - 1): return N(w, c - (1 << w), 's')
            return N(w, c, 'u')
        if k in ('null', 'zero', 'zeroinit', 'z'): return NULL if ty[0] == 'ptr' else N(ty[1], 0)
        if k in ('undef', 'poison', 'u'): return N(ty[1], V(self.newname('undef')), 'u') if ty[0] == 'i' else NULL
        if k == 'g': return ('g', op[1])
        raise Unsupported('operand %r' % (op,))

    def binop(self, st, op, w, a, b, nsw):
        if isinstance(a, PI) and isinstance(b, PI) and op == 'sub' and a.o == b.o: return N(w, a.off - b.off, 's')
        if not (isinstance(a, N) and isinstance(b, N)): raise Unsupported(f'{op} of pointers')
        M = 1 << w
        if op in ('add', 'sub', 'mul'):
            f = (lambda x, y: x + y) if op == 'add' else (lambda x, y: x - y) if op == 'sub' else (lambda x, y: x * y)
            if nsw:
                p = f(self.to_s(st, a), self.to_s(st, b))
                self.check(st, p + (M >> 1), '>=', 'no signed overflow'); self.check(st, P((M >> 1) - 1) - p, '>=', 'no signed overflow')
                return N(w, p, 's')
            if op == 'add' and (a.s == 's' or b.s == 's'):
                # adding a negative constant / a signed quantity
                p = f(a.p, b.p)
                ok = (a.s == b.s == 's') and self.valid(st, p + (M >> 1), '>=') and self.valid(st, P((M >> 1) - 1) - p, '>=')
                if ok: return N(w, p, 's')
                if self.valid(st, p, '>=') and self.valid(st, P(M - 1) - p, '>='): return N(w, p, 'u')
            elif op in ('sub', 'mul') and (a.s == 's' or b.s == 's'):
                p = f(a.p, b.p)
                if op == 'mul' and a.p.const() == 0 or b.p.const() == 0 and op == 'mul': return N(w, 0)
                if self.valid(st, p + (M >> 1), '>=') and self.valid(st, P((M >> 1) - 1) - p, '>='): return N(w, p, 's')
                if self.valid(st, p, '>=') and self.valid(st, P(M - 1) - p, '>='): return N(w, p, 'u')
            p = f(self.to_u(st, a), self.to_u(st, b))
            return N(w, self.wrap(st, p, w), 'u')
        if op == 'shl':
            x, k = self.to_u(st, a), self.to_u(st, b)
            kc = k.const()
            if kc is None:
                self.check(st, P(w - 1) - k, '>=', 'shift amount below the width')
                if x.const() is not None and self.valid(st, P(w) - k - x.const().bit_length(), '>='):
                    return N(w, self.pow2(st, k) * x, 'u', mult=k)
                p = x * self.pow2(st, k) - self.F(st, x, P(w) - k) * M
                return N(w, p, 'u', mult=k)
            if kc >= w: raise Failed('shift', 'shift amount not below the width')
            return N(w, x * (1 << kc) - self.F(st, x, w - kc) * M, 'u', mult=P(kc))
        if op == 'lshr':
            x, k = self.to_u(st, a), self.to_u(st, b)
            kc = k.const()
            if kc is None:
                self.check(st, P(w - 1) - k, '>=', 'shift amount below the width')
                return N(w, self.F(st, x, k), 'u', lt=P(w) - k)
            if kc >= w: raise Failed('shift', 'shift amount not below the width')
            return N(w, self.F(st, x, kc), 'u', lt=P(w - kc))
        if op == 'ashr':
            x, k = self.to_s(st, a), self.to_u(st, b)
            kc = k.const()
            if kc is None: raise Unsupported('ashr by a variable')
            return N(w, self.F(st, x, kc), 's')
        if op in ('udiv', 'urem'):
            x, y = self.to_u(st, a), self.to_u(st, b)
            self.check(st, y - 1, '>=', 'divisor is not zero')
            if self.valid(st, y - 1 - x, '>='): return N(w, 0) if op == 'udiv' else N(w, x)
            q = self.Q(st, x, y)
            if y.const() is None and w == 128:
                # y <= 2^64-1 and x < 2^64 y imply q < 2^64
                if self.valid(st, y * W64 - 1 - x, '>='): self.add_pc(st, P(W64 - 1) - q)
            if op == 'udiv': return N(w, q, 'u', lt=P(64) if w == 128 else None)
            return N(w, x - q * y, 'u')
        if op in ('sdiv', 'srem'):
            x, y = self.to_s(st, a), self.to_s(st, b)
            c = y.const()
            if c is None or c <= 0: raise Unsupported('signed division')
            if all(isinstance(k, int) and k % c == 0 for k in x.t.values()):
                return N(w, Poly({m: k // c for m, k in x.t.items()}), 's') if op == 'sdiv' else N(w, 0)
            if not self.decide(st, x):
                q = -self.Q(st, -x, y)
            else: q = self.Q(st, x, y)
            return N(w, q, 's') if op == 'sdiv' else N(w, x - q * c, 's')
        if op == 'and':
            x, y = self.to_u(st, a), self.to_u(st, b)
            if x.const() is not None and y.const() is not None: return N(w, x.const() & y.const())
            if x.const() is not None: x, y = y, x
            c = y.const()
            if c is not None:
                if c == 0: return N(w, 0)
                if c & (c + 1) == 0:
                    k = c.bit_length()
                    if k == w: return N(w, x)
                    return N(w, x - self.F(st, x, k) * (1 << k), 'u', lt=P(k))
                raise Unsupported('and with constant %#x' % c)
            for x, y in ((x, y), (y, x)):
                t = y + 1
                if len(t.t) == 1 and list(t.t.values())[0] == 1 and all(q[0] == 'T' for q, e in list(t.t)[0]):
                    k = self.exponent(list(t.t)[0])
                    return N(w, x - self.F(st, x, k) * t, 'u', lt=k)
            raise Unsupported(f'and of variables {a} {b}')
        if op == 'xor':
            if b.p.const() is not None and b.s == 's' and b.p.const() == -1:
                return N(w, P(M - 1) - self.to_u(st, a), 'u')
            x, y = self.to_u(st, a), self.to_u(st, b)
            if y.const() == 0: return N(w, x)
            bx, by = self.bounds(x), self.bounds(y)
            if (bx[1] is not None and bx[1] <= 1 or self.valid(st, 1 - x, '>=')) and (by[1] is not None and by[1] <= 1 or self.valid(st, 1 - y, '>=')):
                xa = 1 if self.decide(st, x - 1) else 0
                ya = 1 if self.decide(st, y - 1) else 0
                return N(w, xa ^ ya)
            raise Unsupported('xor')
        if op == 'or':
            x, y = self.to_u(st, a), self.to_u(st, b)
            if x.const() == 0: return b
            if y.const() == 0: return a
            for (A1, X), (B1, Y) in (((a, x), (b, y)), ((b, y), (a, x))):
                k = A1.mult
                if k is not None:
                    if B1.lt is not None and (B1.lt - k).const() is not None and (B1.lt - k).const() <= 0: return N(w, X + Y, 'u')
                    if self.valid(st, self.pow2(st, k) - 1 - Y, '>='): return N(w, X + Y, 'u')
            c = y.const() if y.const() is not None else x.const()
            z = x if y.const() is not None else y
            if c is not None and c & (c - 1) == 0:
                k = c.bit_length() - 1
                # set one bit
                bit = self.F(st, z, k) - self.F(st, z, k + 1) * 2
                return N(w, z + (1 - bit) * c, 'u')
            for X, Y in ((x, y), (y, x)):
                if len(Y.t) == 1 and list(Y.t.values())[0] == 1 and all(q[0] == 'T' for q, e in list(Y.t)[0]):
                    k = self.exponent(list(Y.t)[0])
                    if self.valid(st, Y * 2 - 1 - X, '>='):
                        return N(w, X + (1 - self.F(st, X, k)) * Y, 'u')
                if len(Y.t) == 1:
                    (mo, co), = Y.t.items()
                    if mo and all(q[0] == 'T' for q, e in mo) and co == Fraction(1, 2):
                        # a word below 2^(k+1): its bit k is the only one that can be set there
                        k = self.exponent(mo) - 1
                        ok = self.valid(st, Y * 2 - 1 - X, '>=')
                        if not ok and self.valid(st, k, '>='):
                            # 2 floor(y / 2) + 1 <= 2^(k+1) - 1 when y <= 2^(k+1) - 1
                            h = (X - 1) * Fraction(1, 2)
                            if len(h.t) == 1:
                                (mh, ch), = h.t.items()
                                if ch == 1 and len(mh) == 1 and mh[0][1] == 1 and mh[0][0][0] == 'F' and mh[0][0][2] == 1: ok = self.valid(st, Y * 2 - 1 - mh[0][0][1], '>=')
                        if ok:
                            self.add_pc(st, Y * 2 - 1 - X)
                            f = self.F(st, X, k)
                            if self.decide(st, f - 1): self.add_pc(st, X - Y); return N(w, X, 'u')
                            self.add_pc(st, Y - 1 - X); return N(w, X + Y, 'u')
            raise Unsupported(f'or of variables {w} {x} | {y}')
        raise Unsupported('operation ' + op)

    def dump(self, st):
        for q, r in st.pc: print('        PC', str(q)[:300], r)
        for a, q in st.rw.items(): print('        RW', A(a), ':=', str(q)[:300])
        for o, v in st.arr.items(): print('        ARR', o, self.vstr(v))
    def vstr(self, v):
        if isinstance(v, Base): return v.id
        if isinstance(v, Store): return f'{self.vstr(v.prev)}[{v.idx}:={v.val}]'[:400]
        if isinstance(v, Loop): return f'{self.vstr(v.prev)}[{v.lo}..{v.hi}:={v.id}]'
        if isinstance(v, Zero): return f'{self.vstr(v.prev)}[{v.lo}..{v.hi}:=0]'
        return f'{self.vstr(v.prev)}[{v.lo}+{v.n}:={self.vstr(v.src)}+{v.slo}]'
    def check(self, st, p, rel, what):
        self.ob(what)
        if getattr(self, 'debug', 0) > 2 and not self.holds(st, p, rel): print('FAILING', what, p, rel); self.dump(st)
        if not self.holds(st, p, rel): raise Failed(what, f'cannot prove {p} {rel} 0')

    def icmp(self, st, pred, ty, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a.o is None and b.o is None: r = True
            elif a.o is None or b.o is None:
                if pred in ('eq', 'ne'): return N(1, 0 if pred == 'eq' else 1)
                raise Unsupported('ordering with null')
            elif a.o != b.o:
                if pred in ('eq', 'ne'): return N(1, 0 if pred == 'eq' else 1)
                raise Failed('pointer comparison', 'pointers into different objects')
            d = P(0) if a.o is None else a.off - b.off
        else:
            if isinstance(a, tuple) or isinstance(b, tuple): raise Unsupported('comparison of globals')
            if isinstance(a, PI): raise Unsupported('pointer integers')
            if pred[0] == 's': d = self.to_s(st, a) - self.to_s(st, b)
            elif pred[0] == 'u': d = self.to_u(st, a) - self.to_u(st, b)
            elif a.s == b.s: d = a.p - b.p
            else: d = self.to_u(st, a) - self.to_u(st, b)
        k = pred[1:] if pred[0] in 'su' and len(pred) == 3 else pred
        if k == 'ge': r = self.decide(st, d)
        elif k == 'gt': r = self.decide(st, d - 1)
        elif k == 'lt': r = not self.decide(st, d)
        elif k == 'le': r = not self.decide(st, d - 1)
        else:
            if d.const() is not None: e = d.const() == 0
            elif self.valid(st, d, '!='): e = False
            elif self.decide(st, d): e = not self.decide(st, d - 1)
            else: e = False
            r = e if k == 'eq' else not e
        return N(1, 1 if r else 0)

    # ------------------------------------------------------------ memory
    def index(self, st, ptr, o):
        es = o.es
        t = {}
        for m, c in ptr.off.t.items():
            if not isinstance(c, int) or c % es: raise Unsupported('misaligned access')
            t[m] = c // es
        return Poly(t)
    def access(self, st, ptr, size, write):
        if not isinstance(ptr, Ptr): raise Unsupported('access through %r' % (ptr,))
        if ptr.o is None: raise Failed('valid pointer', 'access through a null pointer')
        if ptr.o in st.freed: raise Failed('valid pointer', 'access to released object ' + ptr.o)
        o = st.objs[ptr.o]
        if write and not o.writable: raise Failed('frame', f'write to operand {o.name}, which the contract does not allow')
        if o.es is None:
            c = ptr.off.const()
            if c is None: raise Unsupported('variable offset into ' + o.name)
            return o, c
        if size != o.es: raise Unsupported(f'{size}-byte access to an array of {o.es}-byte elements')
        i = self.index(st, ptr, o)
        self.check(st, i, '>=', 'access within the storage')
        self.check(st, o.cap - 1 - i, '>=', 'access within the storage')
        return o, i

    def load(self, st, ty, ptr):
        size = self.m.size(ty)
        o, i = self.access(st, ptr, size, False)
        if o.es is None:
            if (ptr.o, i) not in st.cells: raise Unsupported(f'load of {o.name}+{i}')
            v = st.cells[(ptr.o, i)]
            if isinstance(v, N) and ty[0] == 'i' and v.w != ty[1]: raise Unsupported('reinterpreting load')
            return v
        return N(8 * o.es, self.read(st, st.arr[ptr.o], i), 'u')
    def store(self, st, ty, v, ptr):
        size = self.m.size(ty)
        o, i = self.access(st, ptr, size, True)
        if o.es is None:
            st.cells[(ptr.o, i)] = v; return
        if not isinstance(v, N): raise Unsupported('pointer stored in an array')
        p = self.to_u(st, v)
        st.arr[ptr.o] = Store(st.arr[ptr.o], i, p)

    def gep(self, st, bt, base, idx):
        if not isinstance(base, Ptr): raise Unsupported('gep of %r' % (base,))
        if base.o is None: raise Failed('valid pointer', 'arithmetic on a null pointer')
        off = base.off
        t = bt
        for n, v in enumerate(idx):
            s = self.to_s(st, v)
            if n == 0: off = off + s * self.m.size(t); continue
            t = self.m.resolve(t)
            if t[0] == 'st':
                fo, ft = self.m.field_off(t, s.const())
                off = off + fo; t = ft
            elif t[0] == 'arr':
                off = off + s * self.m.size(t[2]); t = t[2]
            else: raise Unsupported('gep type')
        return Ptr(base.o, off)

    # ------------------------------------------------------------ execution
    def cfg(self, fn):
        if fn.name not in self.cfgs: self.cfgs[fn.name] = symmod.CFG(fn)
        return self.cfgs[fn.name]

    def call_fn(self, st, name, args, path, k):
        fn = self.m.funcs[name]
        if len(path) > 6: raise Unsupported('call depth')
        st.envs.append({r: a for (t, r), a in zip(fn.params, args)})
        def kk(st2, rv):
            st2.envs.pop()
            k(st2, rv)
        self.enter(st, fn, fn.order[0], None, path + (name,), kk)

    def enter(self, st, fn, label, prev, path, k):
        """transfer to a block: phis and loop heads"""
        cfg = self.cfg(fn)
        # leave loops that do not contain the target
        while st.loops and st.loops[-1]['path'] == path and label not in cfg.loops[st.loops[-1]['head']]:
            st.loops.pop()
        blk = fn.blocks[label]
        phis = [i for i in blk if i[0] == 'phi']
        vals = {}
        for i in phis:
            for op, l in i[3]:
                if l == prev:
                    vals[i[1]] = self.val(st, i[2], op)
                    break
            else: raise Unsupported('phi')
        if label in cfg.loops:
            tys = {i[1]: i[2] for i in phis}
            # carry phi values through forks inside the environment
            for r, v in vals.items(): st.envs[-1]['$' + r] = v
            if st.loops and st.loops[-1]['path'] == path and st.loops[-1]['head'] == label:
                self.backedge(st, list(vals), tys)
                return
            self.loop_enter(st, fn, label, path, list(vals), tys, lambda s: self.run(s, fn, label, len(phis), path, k))
            return
        st.envs[-1].update(vals)
        self.run(st, fn, label, len(phis), path, k)

    def seq(self, st, fs, k):
        """run the steps one after another, each repeated under both cases when it needs a decision"""
        i = 0
        while i < len(fs):
            if self.deadline and time.time() > self.deadline: raise Unsupported('time budget')
            try:
                s = st.copy()
                fs[i](s)
            except Refork as r:
                for s2 in self.fork(st, r.poly): self.seq(s2, fs[i:], k)
                return
            except Dead: return
            st = s
            i += 1
        k(st)

    def retry(self, st, f):
        """run f on a copy; split and rerun when it needs a decision"""
        try:
            s = st.copy()
            f(s)
        except Refork as r:
            for s in self.fork(st, r.poly): self.retry(s, f)

    def run(self, st, fn, label, i, path, k):
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget')
        blk = fn.blocks[label]
        while True:
            ins = blk[i]
            try:
                nxt = self.step(st, fn, ins, path)
            except Refork as r:
                for s in self.fork(st, r.poly): self.run(s, fn, label, i, path, k)
                return
            if nxt is None:
                i += 1; continue
            kind = nxt[0]
            if kind == 'goto':
                self.enter(st, fn, nxt[1], label, path, k); return
            if kind == 'ret':
                k(st, nxt[1]); return
            if kind == 'stop': return
            if kind == 'call':
                ni = i + 1
                dst = ins[1]
                def kk(s, rv, dst=dst, ni=ni):
                    if dst is not None: s.envs[-1][dst] = rv
                    self.run(s, fn, label, ni, path, k)
                self.call_fn(st, nxt[1], nxt[2], path, kk); return
            if kind == 'split':
                # several result states of a contract: (state, value)
                for s, rv in nxt[1]:
                    if ins[1] is not None: s.envs[-1][ins[1]] = rv
                    self.run(s, fn, label, i + 1, path, k)
                return
            raise Unsupported(kind)

    def step(self, st, fn, ins, path):
        op = ins[0]
        env = st.envs[-1]
        if op == 'bin':
            env[ins[1]] = self.binop(st, ins[2], ins[3][1], self.val(st, ins[3], ins[4]), self.val(st, ins[3], ins[5]), ins[6])
        elif op == 'icmp':
            env[ins[1]] = self.icmp(st, ins[2], ins[3], self.val(st, ins[3], ins[4]), self.val(st, ins[3], ins[5]))
        elif op == 'cast':
            env[ins[1]] = self.cast(st, ins[2], ins[3], self.val(st, ins[3], ins[4]), ins[5])
        elif op == 'gep':
            env[ins[1]] = self.gep(st, ins[2], self.val(st, ('ptr',), ins[3]), [self.val(st, t, v) for t, v in ins[4]])
        elif op == 'load':
            env[ins[1]] = self.load(st, ins[2], self.val(st, ('ptr',), ins[3]))
        elif op == 'store':
            self.store(st, ins[1], self.val(st, ins[1], ins[2]), self.val(st, ('ptr',), ins[3]))
        elif op == 'select':
            c = self.val(st, ('i', 1), ins[2]).p.const()
            if c is None: raise Unsupported('select')
            env[ins[1]] = self.val(st, ins[3], ins[4] if c & 1 else ins[5])
        elif op == 'br': return 'goto', ins[1]
        elif op == 'cbr':
            c = self.val(st, ('i', 1), ins[1])
            c = c.p.const()
            if c is None: raise Unsupported('branch')
            return 'goto', (ins[2] if c & 1 else ins[3])
        elif op == 'switch':
            v = self.val(st, ins[1], ins[2])
            for cv, l in ins[4]:
                if self.icmp(st, 'eq', ins[1], v, N(v.w, cv & ((1 << v.w) - 1))).p.const(): return 'goto', l
            return 'goto', ins[3]
        elif op == 'ret': return 'ret', (None if ins[1] == ('void',) or ins[1] is None else self.val(st, ins[1], ins[2]))
        elif op == 'alloca':
            name = ins[1] + '@' + '/'.join(path)
            st.objs[name] = Obj(name, None, None)
            env[ins[1]] = Ptr(name, 0)
        elif op == 'unreachable': return ('stop',)
        elif op == 'call': return self.call(st, ins, path)
        else: raise Unsupported('instruction ' + op)
        return None

    def cast(self, st, op, ty, v, ty2):
        if op in ('bitcast',): return v
        if op == 'ptrtoint': return PI(v.o, v.off)
        if op == 'inttoptr':
            if isinstance(v, PI): return Ptr(v.o, v.off)
            raise Unsupported('inttoptr')
        w = ty2[1]
        if op == 'zext':
            return N(w, self.to_u(st, v), 'u', v.mult, v.lt if v.lt is not None else P(v.w))
        if op == 'sext': return N(w, self.to_s(st, v), 's')
        if op == 'trunc':
            if v.s == 's':
                if self.valid(st, v.p + (1 << (w - 1)), '>=') and self.valid(st, P((1 << (w - 1)) - 1) - v.p, '>='): return N(w, v.p, 's')
            p = self.to_u(st, v)
            return N(w, self.wrap(st, p, w), 'u')
        raise Unsupported('cast ' + op)

    def call(self, st, ins, path):
        f = ins[3]
        if f[0] != 'g': raise Unsupported('indirect call')
        name = f[1]
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.assume'): return None
        args = [self.val(st, t, v) for t, v in ins[4]]
        if name.startswith('llvm.memset') or name == 'memset':
            p, v, n = args[:3]
            if isinstance(p, Ptr) and p.o is None: raise Failed('valid pointer', 'memset through null')
            o = st.objs[p.o]
            if o.es is None: raise Unsupported('memset of ' + o.name)
            if not o.writable: raise Failed('frame', 'write to ' + o.name)
            nb = self.to_u(st, n)
            if v.p.const() != 0: raise Unsupported('memset value')
            nn = Poly({m: self.ediv(c, o.es) for m, c in nb.t.items()})
            if nn.const() == 0: return None
            lo = self.index(st, p, o)
            if not self.decide(st, nn - 1): return None
            self.check(st, lo, '>=', 'access within the storage')
            self.check(st, o.cap - lo - nn, '>=', 'access within the storage')
            st.arr[p.o] = Zero(st.arr[p.o], lo, lo + nn)
            if name == 'memset' and ins[1] is not None: st.envs[-1][ins[1]] = p
            return None
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
            d, s, n = args[:3]
            do, so = st.objs[d.o], st.objs[s.o]
            nb = self.to_u(st, n)
            if do.es is None or so.es != do.es: raise Unsupported('memcpy')
            if not do.writable: raise Failed('frame', 'write to ' + do.name)
            nn = Poly({m: self.ediv(c, do.es) for m, c in nb.t.items()})
            if not self.decide(st, nn - 1): return None
            dl, sl = self.index(st, d, do), self.index(st, s, so)
            for o, l in ((do, dl), (so, sl)):
                self.check(st, l, '>=', 'access within the storage')
                self.check(st, o.cap - l - nn, '>=', 'access within the storage')
            if d.o == s.o:
                if (dl - sl).const() == 0: return None       # self copy of the same range
                if 'memcpy' in name and not (self.valid(st, dl - sl - nn, '>=') or self.valid(st, sl - dl - nn, '>=')): raise Failed('memcpy', 'overlapping memcpy')
            st.arr[d.o] = Copy(st.arr[d.o], dl, nn, st.arr[s.o], sl)
            if ins[1] is not None: st.envs[-1][ins[1]] = d
            return None
        if name in self.contracts:
            self.used_contracts.add(name)
            self.ob('callee contract ' + name)
            r = self.contracts[name](self, st, args, path)
            if isinstance(r, list): return 'split', r
            if ins[1] is not None: st.envs[-1][ins[1]] = r
            return None
        if name in self.m.funcs:
            return 'call', name, args
        raise Unsupported('call of ' + name)
    def ediv(self, c, es):
        if not isinstance(c, int) or c % es: raise Unsupported('byte count')
        return c // es

    # ------------------------------------------------------------ terms of invariants
    def name_val(self, st, act, nm, vals):
        """number of a named quantity: ('k',c) ('r',reg) ('c',obj,off) and their loop-entry values ('er',reg) ('ec',obj,off)"""
        k = nm[0]
        if k == 'k': return P(nm[1])
        if k == 'r': v = vals[nm[1]] if nm[1] in vals else st.envs[-1].get(nm[1])
        elif k == 'c': v = st.cells.get((nm[1], nm[2]))
        elif k == 'er': v = act['entry'].get(('r', nm[1]))
        elif k == 'ec': v = act['entry'].get(('c', nm[1], nm[2]))
        elif k == 'sum': return self.name_val(st, act, nm[1], vals) + self.name_val(st, act, nm[2], vals)
        if v is None: raise KeyError(nm)
        if isinstance(v, Ptr):
            if v.o is None: raise KeyError(nm)
            return self.index(st, v, st.objs[v.o]) if st.objs[v.o].es else v.off
        return self.num(st, v)
    def ver(self, st, act, obj, which):
        if which == 'cur': return st.arr[obj]
        if which == 'pre': return act['pre'][obj]
        return st.ent[obj]
    def factor(self, st, act, f, vals):
        k = f[0]
        if k == 'pos': return self.name_val(st, act, f[1], vals)
        if k == 'P': return self.pow2(st, self.name_val(st, act, f[1], vals) * f[2])
        if k == 'T':
            e = self.name_val(st, act, f[1], vals)
            return self.pow2(st, e)
        if k in ('W', 'S'):
            v = self.ver(st, act, f[1], f[2])
            e = self.name_val(st, act, f[3], vals) + (f[4] if len(f) > 4 else 0)
            if k == 'W': return self.read(st, v, e)
            return self.S(st, v, e, 8 * st.objs[f[1]].es)
        if k == 'F':
            return self.F(st, self.name_val(st, act, f[1], vals), P(64) - self.name_val(st, act, f[2], vals) if f[3] else self.name_val(st, act, f[2], vals))
        raise Unsupported('factor')
    def lin(self, st, act, terms, vals):
        r = P(0)
        for t, c in terms:
            x = P(c)
            for f in t: x = x * self.factor(st, act, f, vals)
            r = r + x
        return r

    # ------------------------------------------------------------ loops
    def sig(self, st, fn, path, head, vals):
        k = (fn.name, head)
        if k not in self.lives: self.lives[k] = sorted(wvmine.loop_live(fn, self.cfg(fn), head))
        vv = {r: st.envs[-1][r] for r in self.lives[k] if r in st.envs[-1]}
        vv.update(vals)
        return tuple(sorted((r, v.o) for r, v in vv.items() if isinstance(v, Ptr) and v.o is not None))
    def info(self, path, head, sig):
        k = (path, head, sig)
        if k not in self.loopinfo: self.loopinfo[k] = LoopInfo(k)
        return self.loopinfo[k]

    def loop_enter(self, st, fn, head, path, regs, tys, k):
        sig = self.sig(st, fn, path, head, {r: st.envs[-1]['$' + r] for r in regs})
        info = self.info(path, head, sig)
        bad = []
        mine, ids = set(), set()
        steps = []
        def begin(s):
            vals = {r: s.envs[-1]['$' + r] for r in regs}
            act = {'path': path, 'head': head, 'sig': sig, 'entry': {}, 'pre': {}, 'hdr_arr': {}, 'hdr_cells': {}, 'win': {}, 'vals': vals, 'tys': tys}
            for r, v in vals.items(): act['entry'][('r', r)] = v
            for (o, off), v in s.cells.items(): act['entry'][('c', o, off)] = v
            for o in s.arr: act['pre'][o] = s.arr[o]
            s.loops.append(act)
        steps.append(begin)
        # entry: every candidate holds on arrival
        steps += self.inv_steps(info, bad, True, lambda s: {r: s.envs[-1]['$' + r] for r in regs})
        def done(s):
            if bad:
                info.dropped.update(bad)
                raise Restart('%s %s' % (head, len(bad)))
        steps.append(done)
        # an arbitrary iteration
        def hav(s):
            new = {}
            for r in regs: new[r] = self.havoc(s, s.envs[-1].pop('$' + r), r, mine)
            s.envs[-1].update(new)
            for key in sorted(info.mod_cells):
                if key in s.cells:
                    s.cells[key] = self.havoc(s, s.cells[key], '%' + key[0].split('@')[0].strip('%') + '.%s' % key[1], mine)
            act = dict(s.loops[-1]); act['vals'] = new; act['win'] = {}
            s.loops[-1] = act
        steps.append(hav)
        eqs = [e for e in info.eqs if e not in info.dropped]
        poseq = [e for e in eqs if e[0][0] != 'G' and all(all(f[0] == 'pos' for f in t) for t, c in e)]
        for e in poseq: steps.append(lambda s, e=e: self.apply_eq(s, s.loops[-1], e, mine, ids))
        def ine(s):
            for e in info.ineqs:
                if e in info.dropped or e[0][0] == 'G': continue
                try: p = self.lin(s, s.loops[-1], e, s.loops[-1]['vals'])
                except KeyError: continue
                self.add_pc(s, p)
        steps.append(ine)
        def force(s, e):
            try: e = self.guard(s, s.loops[-1], e, s.loops[-1]['vals'])
            except KeyError: return
            if e is None: return
            try: p = self.lin(s, s.loops[-1], e, s.loops[-1]['vals'])
            except KeyError: return
            c = p.const()
            if c is not None:
                if c < 0: raise Dead()
                return
            if not self.learn(s, p): raise Dead()
        for e in info.ineqs:
            if e not in info.dropped and e[0][0] != 'G': steps.append(lambda s, e=e: force(s, e))
        def win(s, o):
            if o not in s.arr: return
            w = info.win.get(o)
            a = dict(s.loops[-1]); a['win'] = dict(a['win']); s.loops[-1] = a
            if w and ('win', o) not in info.dropped:
                lo = self.lin(s, a, w[0], a['vals']); hi = self.lin(s, a, w[1], a['vals'])
            else:
                lo, hi = P(0), s.objs[o].cap
            id = self.newname(('bytes:' if s.objs[o].es == 1 else 'loop:') + o)
            ids.add(id)
            s.arr[o] = Loop(s.arr[o], lo, hi, id)
            if hi != s.objs[o].cap: self.add_pc(s, hi - lo)
            a['win'][o] = (lo, hi)
        for o in sorted(info.mod_arr): steps.append(lambda s, o=o: win(s, o))
        for e in eqs:
            if e not in poseq: steps.append(lambda s, e=e: self.apply_eq(s, s.loops[-1], e, mine, ids))
        for e in info.ineqs:
            if e not in info.dropped and e[0][0] == 'G':
                def gine(s, e=e):
                    try: q = self.guard(s, s.loops[-1], e, s.loops[-1]['vals'])
                    except KeyError: return
                    if q is not None: self.add_pc(s, self.lin(s, s.loops[-1], q, s.loops[-1]['vals']))
                steps.append(gine)
        def fin(s):
            a = dict(s.loops[-1])
            a['hdr_arr'] = dict(s.arr); a['hdr_cells'] = dict(s.cells)
            s.loops[-1] = a
        steps.append(fin)
        self.seq(st, steps, k)

    def havoc(self, st, v, name, mine):
        if isinstance(v, Ptr):
            if v.o is None: raise Unsupported('null loop pointer')
            es = st.objs[v.o].es or 1
            n = self.newname(name); mine.add(('v', n))
            c = v.off.c0() % es
            return Ptr(v.o, V(n) * es + c)
        if isinstance(v, N):
            n = self.newname(name); mine.add(('v', n))
            if v.w == 32:
                self.bounds_hint[n] = (-(1 << 31), (1 << 31) - 1); return N(32, V(n), 's')
            self.bounds_hint[n] = (0, (1 << v.w) - 1)
            return N(v.w, V(n), 'u')
        raise Unsupported('loop value %r' % (v,))

    def guard(self, st, act, e, vals):
        """the relation itself if its guard holds here (decided), None if it does not apply"""
        if not e or e[0][0] != 'G': return e
        nz = self.decide(st, self.name_val(st, act, e[0][1], vals) - 1)
        return e[1:] if nz == bool(e[0][2]) else None
    def apply_eq(self, st, act, e, mine, ids):
        try: e = self.guard(st, act, e, act['vals'])
        except KeyError: return
        if e is None: return
        try: p = self.lin(st, act, e, act['vals'])
        except KeyError: return
        if p.const() is not None: return
        c = self.solve_for(p, lambda a: a in mine or (a[0] in ('S', 'W') and a[1] in ids))
        # eliminate array sums before scalars in value equations
        c.sort(key=lambda x: (0 if x[0][0] in ('S', 'W') else 1, len(x[1].t)))
        if c:
            a, val = c[0]
            self.substitute(st, a, val)
        elif not all(c.denominator == 1 if isinstance(c, Fraction) else True for c in p.t.values()) or len(p.t) < 30:
            st.pc.append((p, '=='))

    def inv_steps(self, info, bad, entry, getv):
        dbg = getattr(self, 'debug', 0)
        what = 'invariant ' + ('established' if entry else 'preserved')
        def chk(s, e, rel):
            if e in bad: return
            act = s.loops[-1]
            try:
                q = self.guard(s, act, e, getv(s))
                if q is None: return
                p = self.lin(s, act, q, getv(s))
            except KeyError: bad.append(e); return
            self.ob(what)
            if not self.holds(s, p, rel):
                bad.append(e)
                if dbg: print('drop', rel, 'entry' if entry else 'back', act['head'], e, '\n      ', str(p)[:500])
                if dbg and dbg > 2: self.dump(s)
        def win(s, o, w):
            if o not in s.arr or ('win', o) in bad: return
            act = s.loops[-1]
            lo = self.lin(s, act, w[0], getv(s)); hi = self.lin(s, act, w[1], getv(s))
            self.ob('write window')
            if not self.valid(s, hi - lo, '>='):
                bad.append(('win', o))
                if dbg: print('drop win', entry, act['head'], o, lo, hi)
        steps = []
        for e in info.eqs:
            if e not in info.dropped: steps.append(lambda s, e=e: chk(s, e, '=='))
        for e in info.ineqs:
            if e not in info.dropped: steps.append(lambda s, e=e: chk(s, e, '>='))
        for o, w in info.win.items():
            if ('win', o) not in info.dropped: steps.append(lambda s, o=o, w=w: win(s, o, w))
        return steps

    def backedge(self, st, regs, tys):
        act = st.loops[-1]
        info = self.info(act['path'], act['head'], act['sig'])
        getv = lambda s: {r: s.envs[-1]['$' + r] for r in regs}
        bad = []
        vals = getv(st)
        for r, v in vals.items():
            h = act['vals'][r]
            if isinstance(v, Ptr) != isinstance(h, Ptr) or (isinstance(v, Ptr) and v.o != h.o): raise Unsupported('loop pointer changes object')
            if isinstance(v, Ptr) and st.objs[v.o].es:
                d = (v.off - h.off)
                if any(not isinstance(c, int) or c % st.objs[v.o].es for c in d.t.values()): raise Unsupported('pointer stride')
        restart = False
        for key, v in st.cells.items():
            hv = act['hdr_cells'].get(key)
            if hv is None: continue
            same = (isinstance(v, N) and isinstance(hv, N) and v.p == hv.p and v.s == hv.s) or (isinstance(v, Ptr) and isinstance(hv, Ptr) and v.o == hv.o and v.off == hv.off)
            if not same and key not in info.mod_cells: info.mod_cells.add(key); restart = True
        for o, v in st.arr.items():
            hv = act['hdr_arr'].get(o)
            if hv is None: continue
            if self.chain_has(v, hv) == 'same': continue
            if o not in info.mod_arr: info.mod_arr.add(o); restart = True
        if restart: raise Restart('mods')
        steps = self.inv_steps(info, bad, False, getv)
        # writes stay in the (grown) window
        def wins(s, o):
            act = s.loops[-1]
            vals = getv(s)
            if o not in s.arr or ('win', o) in info.dropped or o not in info.win: return
            lo = self.lin(s, act, info.win[o][0], vals); hi = self.lin(s, act, info.win[o][1], vals)
            lo0, hi0 = act['win'][o]
            ok = True
            if not (self.valid(s, lo0 - lo, '>=') and self.valid(s, hi - hi0, '>=')):
                ok = not self.decide(s, hi0 - lo0 - 1)      # nothing written before
            v = s.arr[o]; base = act['hdr_arr'][o]
            for kind, a, b in self.writes(v, base):
                self.ob('write window')
                if not (self.valid(s, a - lo, '>=') and self.valid(s, hi - b, '>=')):
                    # an empty range writes nothing
                    if not self.valid(s, a - b, '>='): ok = False
            if not ok:
                bad.append(('win', o))
                if getattr(self, 'debug', 0): print('drop win at back edge', act['head'], o, 'lo', lo0, lo, 'hi', hi0, hi)
        for o in info.mod_arr: steps.append(lambda s, o=o: wins(s, o))
        self.seq(st, steps, lambda s: None)
        if bad:
            info.dropped.update(bad)
            raise Restart('%s %s' % (act['head'], len(bad)))
        self.paths += 1

    def chain_has(self, v, base):
        if v is base or self.same_ver(v, base): return 'same'
        return 'diff'
    def same_ver(self, a, b):
        if type(a) is not type(b): return False
        if isinstance(a, Base): return a.id == b.id
        if isinstance(a, Loop): return a.id == b.id
        if isinstance(a, Store): return a.idx == b.idx and a.val == b.val and self.same_ver(a.prev, b.prev)
        if isinstance(a, Zero): return a.lo == b.lo and a.hi == b.hi and self.same_ver(a.prev, b.prev)
        if isinstance(a, Copy): return a.lo == b.lo and a.n == b.n and a.slo == b.slo and self.same_ver(a.prev, b.prev) and self.same_ver(a.src, b.src)
        return False
    def writes(self, v, base):
        while not self.same_ver(v, base):
            if isinstance(v, Store): yield 'store', v.idx, v.idx + 1
            elif isinstance(v, (Zero, Loop)): yield 'range', v.lo, v.hi
            elif isinstance(v, Copy): yield 'range', v.lo, v.lo + v.n
            else: raise Unsupported('array replaced in a loop')
            v = v.prev

class LoopInfo:
    def __init__(self, key):
        self.key = key
        self.eqs = []          # tuples of (term, coef): sum == 0
        self.ineqs = []        # sum >= 0
        self.win = {}          # obj -> (lo, hi) as linear forms
        self.mod_cells = set()
        self.mod_arr = set()
        self.dropped = set()
