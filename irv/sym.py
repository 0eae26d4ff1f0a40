"""Symbolic executor over LLVM IR: path forking, canonical bit terms for data, linear integers for lengths and
addresses, loop fold summaries (see fold.py) for loops whose trip count is symbolic."""
from . import terms as tm, arr as arrm
from .terms import T_, Unsupported
from . import ll

class Fail(Exception):
    """a proof obligation that does not hold (or could not be shown) on a feasible path"""
    def __init__(self, what, msg='', state=None):
        Exception.__init__(self, f'{what}: {msg}')
        self.what, self.msg, self.state = what, msg, state

class B:
    __slots__ = ('b',)
    def __init__(self, b): self.b = b
    def __repr__(self): return f'B{len(self.b)}'

class L:
    """linear integer expression, meaning expr modulo 2^w"""
    __slots__ = ('w', 'd', 'c')
    def __init__(self, w, d, c): self.w, self.d, self.c = w, d, c
    def __repr__(self): return f'L{self.w}({self.d}+{self.c})'

class Ptr:
    __slots__ = ('o', 'off', 'tab')
    def __init__(self, o, off, tab=None): self.o, self.off, self.tab = o, off, tab
    def __repr__(self): return f'Ptr({self.o},{self.off},{self.tab})'

class Fn:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __eq__(self, o): return isinstance(o, Fn) and o.name == self.name
    def __hash__(self): return hash(self.name)
    def __repr__(self): return f'Fn({self.name})'

class Agg:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v

UNDEF = object()
_undef = [0]
def undef_bits(w):
    _undef[0] += 1
    n = _undef[0]
    return tuple(tm.atom(('v', f'undef{n}', i)) for i in range(w))

class Obj:
    """static description of a memory object; contents live in the state"""
    __slots__ = ('id', 'name', 'size', 'writable', 'default', 'kind')
    def __init__(self, id, name, size, writable, default, kind):
        self.id, self.name, self.size, self.writable, self.default, self.kind = id, name, size, writable, default, kind
    def __repr__(self): return f'<{self.name}>'

_WC = {}          # object id -> number of writes (cache invalidation)

class State:
    __slots__ = ('mem', 'own', 'rng', 'pc', 'lin', 'freed', 'log', 'segs', 'trace', 'dead', 'arr')
    def __init__(self):
        self.mem = {}       # obj id -> dict key -> byte
        self.own = set()
        self.rng = {}
        self.pc = ()        # forms assumed 1
        self.lin = ()       # linear constraints (d, c): sum <= 0, or eq
        self.freed = ()
        self.log = ()
        self.segs = {}
        self.arr = {}       # oid -> (first offset, length, array form)
        self.trace = ()
        self.dead = False
    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        self.own = set()
        s.own = set()
        s.rng = dict(self.rng)
        s.pc, s.lin, s.freed, s.log, s.trace = self.pc, self.lin, self.freed, self.log, self.trace
        s.segs = dict(self.segs)
        s.arr = dict(self.arr) if self.arr else self.arr
        return s
    def cells(self, oid):
        c = self.mem.get(oid)
        if c is None:
            c = {}
            self.mem[oid] = c
            self.own.add(oid)
        return c
    def wcells(self, oid):
        _WC[oid] = _WC.get(oid, 0) + 1
        if oid in self.own: return self.mem[oid]
        c = dict(self.mem.get(oid, ()))
        self.mem[oid] = c
        self.own.add(oid)
        return c

def lkey(off):
    if isinstance(off, int): return off
    return (frozenset(off.d.items()), off.c)

class CFG:
    """dominators, post-dominators and natural loops of a function"""
    def __init__(self, fn):
        self.fn = fn
        self.succ = {}
        for l in fn.order:
            t = fn.blocks[l][-1]
            if t[0] == 'br': s = [t[1]]
            elif t[0] == 'cbr': s = [t[2], t[3]]
            elif t[0] == 'switch': s = [t[3]] + [x[1] for x in t[4]]
            else: s = []
            self.succ[l] = s
        self.pred = {l: [] for l in fn.order}
        for l, s in self.succ.items():
            for x in s: self.pred[x].append(l)
        entry = fn.order[0]
        alln = set(fn.order)
        dom = {l: set(alln) for l in fn.order}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for l in fn.order[1:]:
                ps = [dom[p] for p in self.pred[l]]
                n = set.intersection(*ps) if ps else set()
                n = n | {l}
                if n != dom[l]:
                    dom[l] = n; ch = True
        self.dom = dom
        self.loops = {}
        for l in fn.order:
            for s in self.succ[l]:
                if s in dom[l]:
                    body = self.loops.setdefault(s, {s})
                    st = [l]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x); st.extend(self.pred[x])
        # post-dominators
        exits = [l for l in fn.order if not self.succ[l]]
        pd = {l: set(alln) | {None} for l in fn.order}
        for e in exits: pd[e] = {e, None}
        ch = True
        while ch:
            ch = False
            for l in reversed(fn.order):
                if l in exits: continue
                n = set.intersection(*[pd[s] for s in self.succ[l]]) | {l}
                if n != pd[l]:
                    pd[l] = n; ch = True
        self.pd = pd
        self.ipd = {}
        for l in fn.order:
            c = pd[l] - {l, None}
            best = None
            for x in c:
                if len(pd[x]) == len(c) + 1:
                    best = x
            self.ipd[l] = best

class Engine:
    def __init__(self, mods):
        self.funcs = {}
        self.globals = {}
        self.mod_of = {}
        self.objs = {}
        self.nid = 0
        self.contracts = {}
        self.asm = None
        self.obl = {}
        self.cfgs = {}
        self.gobj = {}
        self.selc = {}
        self.symw = {}          # linear symbol -> bit width of its bits view
        self.steps = 0
        self.max_steps = 60_000_000
        self.nofold = False
        self.fold_hook = None
        self.folding = []
        self.lc_trace = None
        self.lc_k = None
        self.malloc_null = None
        self.reads_ok = None
        self.called = set()
        self.merge = True
        for m in mods: self.add_module(m)

    def add_module(self, m):
        for n, f in m.funcs.items():
            key = n
            f.mod = m
            if n in self.funcs:
                if not f.internal and not self.funcs[n].internal:
                    raise Unsupported('duplicate ' + n)
                if f.internal: key = n + '#' + str(id(m))
            self.funcs[key] = f
        for n, g in m.globals.items():
            self.globals[(id(m), n)] = (m, g)
            if n not in self.globals: self.globals[n] = (m, g)

    def ob(self, kind, n=1):
        self.obl[kind] = self.obl.get(kind, 0) + n

    # ---- objects
    def new_obj(self, st, name, size, writable=True, default=None, kind='heap'):
        self.nid += 1
        o = Obj(self.nid, name, size, writable, default, kind)
        self.objs[o.id] = o
        st.mem[o.id] = {}
        st.own.add(o.id)
        return o

    def global_obj(self, st, m, name):
        g = m.globals.get(name)
        if g is None:
            r = self.globals.get(name)
            if r is None: raise Unsupported('global ' + name)
            m, g = r
        key = (id(m), name)
        if g[1] is None:      # external declaration
            r = self.globals.get(name)
            for k, v in self.globals.items():
                if isinstance(k, tuple) and k[1] == name and v[1][1] is not None:
                    m, g = v; key = (id(m), name)
        o = self.gobj.get(key)
        if o is None:
            data = {}
            if g[1] is not None: self.init_bytes(m, g[0], g[1], 0, data)
            size = m.size(g[0])
            self.nid += 1
            o = Obj(self.nid, name, size, not g[2], None, 'const' if g[2] else 'global')
            self.objs[o.id] = o
            o.default = ('data', data)
            self.gobj[key] = o
        return o

    def init_bytes(self, m, t, v, off, data):
        t = m.resolve(t)
        k = v[0]
        if k == 's':
            for i, c in enumerate(ll.unescape(v[1])): data[off + i] = c
        elif k == 'z' or k == 'u':
            for i in range(m.size(t)): data[off + i] = 0
        elif k == 'agg':
            if t[0] == 'arr':
                es = m.size(t[2])
                for i, (et, e) in enumerate(v[1]): self.init_bytes(m, t[2], e, off + i * es, data)
            else:
                for i in range(m.size(t)): data[off + i] = 0
                for i, (et, e) in enumerate(v[1]):
                    fo, ft = m.field_off(t, i)
                    self.init_bytes(m, ft, e, off + fo, data)
        elif k == 'c':
            n = m.size(t)
            x = v[1] & ((1 << (8 * n)) - 1)
            for i in range(n): data[off + i] = (x >> (8 * i)) & 255
        elif k == 'g':
            for i in range(8): data[off + i] = ('p', ('gref', m, v[1]), i)
        else:
            raise Unsupported('global init ' + str(k))

    # ---- linear helpers
    def bounds(self, st, d, c):
        lo = hi = c
        for s, k in d.items():
            a, b = st.rng[s]
            if k >= 0: lo += k * a; hi += k * b
            else: lo += k * b; hi += k * a
        return lo, hi

    def mkL(self, w, d, c):
        d = {k: v for k, v in d.items() if v}
        if not d: return c & ((1 << w) - 1)
        return L(w, d, c)

    def toL(self, v, w):
        if isinstance(v, int): return L(w, {}, v)
        return v

    def fits(self, st, l, signed):
        lo, hi = self.bounds(st, l.d, l.c)
        a, b = (-(1 << (l.w - 1)), (1 << (l.w - 1)) - 1) if signed else (0, (1 << l.w) - 1)
        if lo >= a and hi <= b: return True
        if not st.lin: return False
        if lo < a and not self.lin_entails(st, {k: -v for k, v in l.d.items()}, a - l.c): return False
        return hi <= b or self.lin_entails(st, l.d, l.c - b)

    def sym_bits(self, s):
        w = self.symw[s]
        return tm.var('sym:' + s, w)

    def L2B(self, l, w=None):
        w = l.w if w is None else w
        if l.d:
            k = 0
            while k < w - 1 and all((v >> k) & 1 == 0 for v in l.d.values()): k += 1
            if k:
                # low bits are constant
                return tm.const_bits(l.c & ((1 << k) - 1), k) + self.L2B(L(w - k, {s: v >> k for s, v in l.d.items()}, l.c >> k), w - k)
        parts = []
        for s, k in l.d.items():
            sb = self.sym_bits(s)
            sb = (sb + (0,) * w)[:w]
            parts.append((sb, k))
        return tm.wlin(parts, l.c, w)

    def bits(self, v, w):
        if isinstance(v, int): return tm.const_bits(v, w)
        if isinstance(v, B): return v.b
        if isinstance(v, L): return self.L2B(v, w)
        if v is UNDEF: return undef_bits(w)
        raise Unsupported(f'bits of {v!r}')

    def norm(self, b):
        c = tm.as_const(b)
        return B(b) if c is None else c

    # ---- values
    def val(self, fr, st, t, v):
        k = v[0]
        if k == 'l': return fr[v[1]]
        if k == 'c': return v[1] & ((1 << t[1]) - 1) if t[0] == 'i' else v[1]
        if k == 'z': return 0
        if k == 'g':
            return self.gval(fr['#mod'], st, v[1])
        if k == 'u': return UNDEF
        if k == 'cgep':
            base = self.val(fr, st, ('ptr',), v[2])
            return self.gep(fr, st, v[1], base, v[3])
        if k == 'cexpr':
            a = self.val(fr, st, v[2], v[3]); b = self.val(fr, st, v[2], v[4])
            return self.binop(st, v[1], v[2][1], a, b)
        if k == 'f': return ('flt', float(v[1]))
        if k == 'agg':
            return Agg([self.val(fr, st, et, e) for et, e in v[1]])
        raise Unsupported('value ' + str(v))

    def gval(self, m, st, name):
        if name in m.funcs: return Fn(self.fkey(m, name))
        if name in m.decls or (name in self.funcs and name not in m.globals): return Fn(name)
        return Ptr(self.global_obj(st, m, name), 0)

    def fkey(self, m, name):
        k = name + '#' + str(id(m))
        return k if k in self.funcs else name

    def add_off(self, st, off, x):
        if isinstance(off, int) and isinstance(x, int):
            return off + x
        a = off if isinstance(off, L) else L(64, {}, off)
        b = x if isinstance(x, L) else L(64, {}, x)
        d = dict(a.d)
        for s, k in b.d.items(): d[s] = d.get(s, 0) + k
        d = {s: k for s, k in d.items() if k}
        c = a.c + b.c
        if d and st is not None:
            lo, hi = self.bounds(st, d, c)
            if lo == hi: return lo
        return L(64, d, c) if d else c

    def ptr_add(self, st, p, n):
        """n: signed python int, L, or B (bits, already scaled as (B, scale))"""
        if isinstance(p, int):
            if isinstance(n, int): return (p + n) & (2**64 - 1)
            raise Unsupported('null pointer arithmetic')
        if p is UNDEF: raise Fail('undef-pointer')
        if isinstance(n, tuple):
            b, scale = n
            if p.tab is not None:
                if isinstance(p.tab, list): return Ptr(p.o, p.off, p.tab + [(b, scale)])
                raise Unsupported('two symbolic indices')
            return Ptr(p.o, p.off, [(b, scale)])
        return Ptr(p.o, self.add_off(st, p.off, n), p.tab)

    def sint(self, v, w):
        return v - (1 << w) if v >> (w - 1) else v

    def gep(self, fr, st, bt, base, idx):
        m = fr['#mod']
        p = base
        t = None
        for i, (it, iv) in enumerate(idx):
            x = self.val(fr, st, it, iv)
            w = it[1]
            if i == 0:
                es = m.size(bt); t = bt
            else:
                t = m.resolve(t)
                if t[0] == 'st':
                    fo, t = m.field_off(t, x)
                    if fo: p = self.ptr_add(st, p, fo)
                    continue
                t = t[2]
                es = m.size(t)
            if isinstance(x, int):
                n = self.sint(x, w) * es
                if n: p = self.ptr_add(st, p, n)
            elif isinstance(x, L):
                if w < 64 and not self.fits(st, x, True): raise Unsupported('index wrap')
                p = self.ptr_add(st, p, L(64, {s: k * es for s, k in x.d.items()}, x.c * es))
            elif isinstance(x, B):
                p = self.ptr_add(st, p, (x.b, es))
            elif x is UNDEF: raise Fail('undef-index')
            else: raise Unsupported('gep index ' + repr(x))
        return p

    # ---- memory
    def check_range(self, st, o, off, n, write):
        self.ob('memory-access')
        if o.id in st.freed: raise Fail('use-after-free', o.name)
        if write and not o.writable: raise Fail('write-outside-frame', o.name)
        size = o.size
        if isinstance(off, int) and isinstance(size, int):
            if off < 0 or off + n > size:
                raise Fail('out-of-bounds', f'{o.name} offset {off} size {n} of {size}')
            return
        if size is None: return
        a = off if isinstance(off, L) else L(64, {}, off)
        lo, hi = self.bounds(st, a.d, a.c)
        d = dict(a.d); c = a.c + n
        if isinstance(size, L):
            for s, k in size.d.items(): d[s] = d.get(s, 0) - k
            c -= size.c
        else: c -= size
        d = {s: k for s, k in d.items() if k}
        _, h2 = self.bounds(st, d, c)
        if lo >= 0 and h2 <= 0: return
        # relational check
        if lo < 0 and not self.lin_entails(st, {s: -k for s, k in a.d.items()}, -a.c):
            raise Fail('out-of-bounds', f'{o.name} may be accessed below its start: {off}', st)
        if h2 > 0 and not self.lin_entails(st, d, c):
            raise Fail('out-of-bounds', f'{o.name} may be accessed past its end: {off}+{n} size {size}', st)

    def lin_entails(self, st, d, c):
        """constraints |= sum(d)+c <= 0 ?"""
        lo, hi = self.bounds(st, d, c)
        if hi <= 0: return True
        if not st.lin: return False
        base = (tuple(st.rng.items()), st.lin)
        key = (base, tuple(d.items()), c)
        r = _LE.get(key)
        if r is not None: return r
        # goal = multiple of one constraint + something bounded by 0
        for items, gc, op in st.lin:
            if op == 'ne': continue
            for x, k in items:
                if d.get(x) and (op == 'eq' or d[x] * k > 0) and d[x] % k == 0:
                    m = d[x] // k
                    e = dict(d)
                    for y, ky in items:
                        v = e.get(y, 0) - m * ky
                        if v: e[y] = v
                        else: e.pop(y, None)
                    if self.bounds(st, e, c - m * gc)[1] <= 0:
                        _LE[key] = True
                        self.ob('linear')
                        return True
        models = _LE.setdefault(('models', base), [])
        for mo in models:
            if sum(k * mo.get(x, st.rng[x][0]) for x, k in d.items()) + c > 0:
                _LE[key] = False
                return False
        import z3
        s = z3.SolverFor('QF_LIA')
        s.set('timeout', 5000)
        vs = self._zvars(st, s, d)
        s.add(z3.Sum([vs[x] * k for x, k in d.items()] + [z3.IntVal(c)]) > 0)
        self.ob('smt-linear')
        rr = s.check()
        r = _LE[key] = rr == z3.unsat
        if rr == z3.sat:
            m = s.model()
            mo = {x: m.eval(v, model_completion=True).as_long() for x, v in vs.items()}
            models.append(mo)
        return r

    def _zvars(self, st, s, d=None):
        import z3
        names = set(d or ()) | {x for l in st.lin for x, _ in l[0]}
        vs = {x: z3.Int(x) for x in names}
        for x in names:
            if x in st.rng:
                a, b = st.rng[x]
                s.add(vs[x] >= a, vs[x] <= b)
        for d, c, op in st.lin:
            e = z3.Sum([vs[x] * k for x, k in d] + [z3.IntVal(c)])
            s.add(e <= 0 if op == 'le' else (e == 0 if op == 'eq' else e != 0))
        return vs

    def lin_feasible(self, st):
        import z3
        if not st.lin: return True
        s = z3.Solver(); s.set('timeout', 5000)
        self._zvars(st, s)
        return s.check() != z3.unsat

    def read_byte(self, st, o, off):
        if not isinstance(off, int): off = self.fixL(st, off)
        if o.id in st.arr:
            ix = self.arr_index(st, o, off)
            if ix is not None: return self.nb(arrm.read(st.arr[o.id][2], ix))
        cells = st.mem.get(o.id)
        k = off if isinstance(off, int) else lkey(off)
        if cells:
            v = cells.get(k)
            if v is not None: return v
        segs = st.segs.get(o.id)
        und = None
        if segs:
            # cells never overlap a segment (add_seg moves them, seg_check refuses later writes)
            for sg in reversed(segs):
                try: r = sg.read(self, st, off)
                except Unsupported as e: und = e; break
                if r is not None: return r
        if cells and (not isinstance(off, int) or '#sym' in cells):
            self.alias_check(st, o, off, cells)
        if und is not None: raise und
        return self.default_byte(st, o, off)

    def default_byte(self, st, o, off):
        d = o.default
        if d is None:
            b = undef_bits(8)
            v = b
            st.wcells(o.id)[off if isinstance(off, int) else lkey(off)] = v
            return v
        if isinstance(d, tuple) and d[0] == 'data':
            if not isinstance(off, int): raise Unsupported('symbolic offset in data ' + o.name)
            v = d[1].get(off)
            if v is None: raise Fail('uninitialised', o.name)
            if isinstance(v, tuple) and v[0] == 'p' and isinstance(v[1], tuple) and v[1][0] == 'gref':
                return ('p', self.gval(v[1][1], st, v[1][2]), v[2])
            return v
        return d(st, o, off)

    def nb(self, b):
        c = tm.as_const(b)
        return b if c is None else c
    def arr_index(self, st, o, off):
        """index bits if the byte lies in the array part of the object, None if it lies outside"""
        lo, n, f = st.arr[o.id]
        w = (n - 1).bit_length()
        if isinstance(off, int):
            return tm.const_bits(off - lo, w) if lo <= off < lo + n else None
        l, h = self.bounds(st, off.d, off.c)
        if h < lo or l >= lo + n: return None
        if l < lo or h >= lo + n: raise Unsupported('access across an array boundary of ' + o.name)
        return self.L2B(L(64, off.d, off.c - lo))[:w]
    def to_arr(self, st, o, lo, n):
        cells = tuple(tuple(self.byte_bits(self.read_byte(st, o, lo + i))) for i in range(n))
        c = st.wcells(o.id)
        for i in range(n): c.pop(lo + i, None)
        st.arr[o.id] = (lo, n, arrm.define('c', cells, ()) if True else None)
    def arr_tab(self, st, p, idx, offs):
        """index bits of a table access inside the array part"""
        lo, n, f = st.arr[p.o.id]
        if min(offs) >= lo + n or max(offs) < lo: return None
        if offs != list(range(offs[0], offs[0] + len(offs))) or offs[0] < lo or offs[-1] >= lo + n: raise Unsupported('table access across an array boundary')
        d = offs[0] - lo
        w = (n - 1).bit_length()
        b = (tuple(idx) + (0,) * w)[:w]
        return b if d == 0 else tm.wadd(b, tm.const_bits(d, w))

    def alias_check(self, st, o, off, cells):
        # an access at a symbolic offset whose symbolic part differs from recorded ones must be provably disjoint
        sigs = cells.get('#sym')
        a = off if isinstance(off, L) else L(64, {}, off)
        mine = frozenset(a.d.items())
        if sigs:
            for sg, (lo, hi) in sigs.items():
                if sg == mine: continue
                d = dict(a.d)
                for s, k in sg: d[s] = d.get(s, 0) - k
                d = {s: k for s, k in d.items() if k}
                l, h = self.bounds(st, d, a.c)
                if l > hi or h < lo: continue
                # relational
                if self.lin_entails(st, {s: -k for s, k in d.items()}, -a.c + hi + 1): continue   # off > hi
                if self.lin_entails(st, d, a.c - lo + 1): continue
                raise Unsupported(f'possible alias in {o.name}: {off} against {dict(sg)} {lo}..{hi}')
        if isinstance(off, L) and any(isinstance(k, int) for k in cells):
            ks = [k for k in cells if isinstance(k, int)]
            lo, hi = min(ks), max(ks)
            l, h = self.bounds(st, a.d, a.c)
            if not any(l <= x <= h for x in ks): return
            if not (l > hi or h < lo):
                if not self.lin_entails(st, {s: -k for s, k in a.d.items()}, -a.c + hi + 1):
                    raise Unsupported(f'possible alias with concrete cells in {o.name}')

    def write_byte(self, st, o, off, v):
        if not isinstance(off, int): off = self.fixL(st, off)
        if o.id in st.arr:
            ix = self.arr_index(st, o, off)
            if ix is not None:
                lo, n, f = st.arr[o.id]
                st.arr[o.id] = (lo, n, arrm.write(f, ix, self.byte_bits(v)))
                return
        cells = st.wcells(o.id)
        if isinstance(off, int):
            if '#sym' in cells or st.segs.get(o.id): self.seg_check(st, o, off, cells)
            cells[off] = v
        else:
            self.seg_check(st, o, off, cells)
            k = lkey(off)
            cells[k] = v
            s = dict(cells.get('#sym') or {})
            lo, hi = s.get(k[0], (off.c, off.c))
            s[k[0]] = (min(lo, off.c), max(hi, off.c))
            cells['#sym'] = s

    def seg_check(self, st, o, off, cells):
        self.alias_check(st, o, off, cells)
        for sg in st.segs.get(o.id, ()):
            if sg.disjoint(self, st, off): continue
            raise Unsupported('write into a folded segment of ' + o.name)

    def load(self, st, p, n, w, is_ptr=False):
        """load n bytes as a value of width w"""
        if not isinstance(p, Ptr):
            if p is UNDEF: raise Fail('undef-pointer')
            if isinstance(p, int): raise Fail('null-dereference', 'load')
            raise Unsupported('load through ' + repr(p))
        if p.tab is not None: return self.load_tab(st, p, n, w, is_ptr)
        o, off = p.o, p.off
        self.check_range(st, o, off, n, False)
        if isinstance(off, int):
            cells = st.mem.get(o.id)
            bs = []
            for i in range(n):
                v = cells.get(off + i) if cells else None
                if v is None: v = self.read_byte(st, o, off + i)
                bs.append(v)
        else:
            bs = [self.read_byte(st, o, L(64, off.d, off.c + i)) for i in range(n)]
        return self.join(st, bs, w)

    def join(self, st, bs, w):
        b0 = bs[0]
        if isinstance(b0, tuple) and len(b0) == 3 and b0[0] in ('p', 'L'):
            k, v, i = b0
            if i == 0 and all(isinstance(x, tuple) and x[0] == k and x[1] is v and x[2] == j for j, x in enumerate(bs)):
                if k == 'p': return v
                if v.w <= w: return v if v.w == w else L(w, v.d, v.c)
                return self.mkL(w, v.d, v.c)
            if k == 'p': 
                if all(isinstance(x, tuple) and x[0] == 'p' for x in bs): raise Unsupported('partial pointer load')
        allint = True
        for x in bs:
            if not isinstance(x, int): allint = False; break
        if allint:
            r = 0
            for i, x in enumerate(bs): r |= x << (8 * i)
            return r & ((1 << w) - 1)
        bits = []
        for x in bs:
            bits.extend(self.byte_bits(x))
        return self.norm(tuple(bits[:w]))

    def byte_bits(self, x):
        if isinstance(x, int): return tm.const_bits(x, 8)
        if len(x) == 8: return x
        if x[0] == 'L':
            b = self.L2B(x[1])
            b = b + (0,) * 8
            return b[8 * x[2]:8 * x[2] + 8]
        if x[0] == 'p':
            # bytes of a pointer as data: opaque
            return tm.uf('ptrbyte', (x[2],) + tuple(tm.const_bits(id(x[1]) & 0xffffffff, 32)), 8)
        raise Unsupported('byte bits')

    def split(self, v, n, w):
        if isinstance(v, int):
            return [(v >> (8 * i)) & 255 for i in range(n)]
        if isinstance(v, B):
            b = v.b
            if len(b) < 8 * n: b = b + (0,) * (8 * n - len(b))
            out = []
            for i in range(n):
                x = b[8 * i:8 * i + 8]
                c = tm.as_const(x)
                out.append(x if c is None else c)
            return out
        if isinstance(v, (Ptr, Fn)): return [('p', v, i) for i in range(n)]
        if isinstance(v, L): return [('L', v, i) for i in range(n)]
        if v is UNDEF:
            return [undef_bits(8) for _ in range(n)]
        raise Unsupported('store of ' + repr(v))

    def store(self, st, p, v, n, w):
        if not isinstance(p, Ptr):
            if p is UNDEF: raise Fail('undef-pointer')
            if isinstance(p, int): raise Fail('null-dereference', 'store')
            raise Unsupported('store through ' + repr(p))
        if p.tab is not None: return self.store_tab(st, p, v, n, w)
        self.check_range(st, p.o, p.off, n, True)
        bs = self.split(v, n, w)
        self.put(st, p.o, p.off, bs)

    def put(self, st, o, off, bs):
        if isinstance(off, int) and '#sym' not in (st.mem.get(o.id) or ()) and not st.segs.get(o.id) and o.id not in st.arr:
            cells = st.wcells(o.id)
            for i, x in enumerate(bs): cells[off + i] = x
        else:
            for i, x in enumerate(bs): self.write_byte(st, o, self.add_off(st, off, i), x)

    def tab_entries(self, p):
        """(index bits, list of byte offsets) for a symbolic-index pointer"""
        if not isinstance(p.off, int): raise Unsupported('symbolic base with symbolic index')
        idx = []
        offs = [p.off]
        for b, scale in p.tab:
            # signed interpretation: top bit must be constant
            var_pos = [i for i, f in enumerate(b) if f not in (0, 1)]
            if len(var_pos) + len(idx) > 11: raise Unsupported('table index too wide')
            const = 0
            w = len(b)
            for i, f in enumerate(b):
                if f == 1: const += (1 << i) if i < w - 1 else -(1 << i)
            for i in var_pos:
                idx.append(b[i])
                wt = (1 << i) if i < w - 1 else -(1 << i)
                offs = offs + [x + wt * scale for x in offs]
            offs = [x + const * scale for x in offs]
        return idx, offs

    def load_tab(self, st, p, n, w, is_ptr):
        o = p.o
        hook = getattr(o, 'kind', None)
        idx, offs = self.tab_entries(p)
        for x in (min(offs), max(offs)): self.check_range(st, o, x, n, False)
        if o.id in st.arr and n == 1:
            ix = self.arr_tab(st, p, idx, offs)
            if ix is not None: return self.norm(arrm.read(st.arr[o.id][2], ix)[:w])
        ck = None
        if o.kind == 'const':
            ck = (o.id, p.off, tuple((s, len(b), tuple(i for i, f in enumerate(b) if f not in (0, 1)), tuple(i for i, f in enumerate(b) if f == 1)) for b, s in p.tab), n)
            tts = _TABC.get(ck)
            if tts is not None:
                return self.norm(tuple(tm.lut_bits(idx, tts))[:w])
        cells = st.mem.get(o.id)
        sk = (o.id, p.off, tuple((s, len(b), tuple(i for i, f in enumerate(b) if f not in (0, 1)), tuple(i for i, f in enumerate(b) if f == 1)) for b, s in p.tab), n)
        h = self.selc.get(sk)
        if h is not None and h[0] is cells and h[1] == _WC.get(o.id, 0):
            return self.norm(select_cid(idx, h[2], h[3])[:w])
        ent = []
        conc = True
        for x in offs:
            bs = [self.read_byte(st, o, x + i) for i in range(n)]
            v = 0
            for i, y in enumerate(bs):
                if not isinstance(y, int): conc = False; break
                v |= y << (8 * i)
            ent.append(v if conc else bs)
            if not conc: break
        if conc:
            tts = []
            for bit in range(8 * n):
                t = 0
                for j, v in enumerate(ent):
                    if (v >> bit) & 1: t |= 1 << j
                tts.append(t)
            if ck is not None: _TABC[ck] = tts
            return self.norm(tuple(tm.lut_bits(idx, tts))[:w])
        # symbolic contents: select over the whole indexed content
        content = []
        for x in offs:
            bs = []
            for i in range(n): bs.extend(self.byte_bits(self.read_byte(st, o, x + i)))
            content.append(tuple(bs))
        if all(f in (0, 1) for f in idx): return self.norm(select_bits(idx, content)[:w])
        cid = content_id(content)
        self.selc[sk] = (st.mem.get(o.id), _WC.get(o.id, 0), cid, len(content[0]))
        return self.norm(select_cid(idx, cid, len(content[0]))[:w])

    def store_tab(self, st, p, v, n, w):
        idx, offs = self.tab_entries(p)
        for x in (min(offs), max(offs)): self.check_range(st, p.o, x, n, True)
        if (len(offs) > 16 or p.o.id in st.arr) and n == 1:
            if p.o.id not in st.arr:
                if offs != list(range(offs[0], offs[0] + len(offs))) or '#sym' in (st.mem.get(p.o.id) or ()) or st.segs.get(p.o.id): raise Unsupported('store at symbolic index')
                self.to_arr(st, p.o, offs[0], len(offs))
            ix = self.arr_tab(st, p, idx, offs)
            if ix is not None:
                lo, cnt, f = st.arr[p.o.id]
                bv = self.bits(v, 8) if w >= 8 else self.bits(v, w) + (0,) * (8 - w)
                st.arr[p.o.id] = (lo, cnt, arrm.write(f, ix, bv))
                return
        if len(offs) > 16:
            raise Unsupported('store at symbolic index')
        bv = self.bits(v, 8 * n) if w >= 8 * n else self.bits(v, w) + (0,) * (8 * n - w)
        for j, x in enumerate(offs):
            c = 1
            for k, f in enumerate(idx):
                c = tm.fand(c, f if (j >> k) & 1 else tm.inv(f))
            for i in range(n):
                old = self.byte_bits(self.read_byte(st, p.o, x + i))
                nb = tm.wmux(c, bv[8 * i:8 * i + 8], old)
                cc = tm.as_const(nb)
                self.put(st, p.o, x + i, [nb if cc is None else cc])

    # ---- arithmetic
    def binop(self, st, op, w, a, b):
        mask = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            return self.cbin(op, w, a, b)
        if a is UNDEF or b is UNDEF:
            if op not in ("and", "or", "xor", "shl", "lshr"): return B(undef_bits(w))
            if a is UNDEF: a = B(undef_bits(w))
            if b is UNDEF: b = B(undef_bits(w))
        if isinstance(a, Ptr) or isinstance(b, Ptr): return self.pbin(st, op, w, a, b)
        if isinstance(a, (L, int)) and isinstance(b, (L, int)):
            r = self.lbin(st, op, w, a, b)
            if r is not None: return r
        if isinstance(a, (Fn, Agg)) or isinstance(b, (Fn, Agg)): raise Unsupported('binop operand')
        return self.norm(self.bbin(st, op, w, a, b))

    def cbin(self, op, w, a, b):
        mask = (1 << w) - 1
        if op == 'add': return (a + b) & mask
        if op == 'sub': return (a - b) & mask
        if op == 'mul': return (a * b) & mask
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl':
            if b >= w: raise Fail('shift-out-of-range')
            return (a << b) & mask
        if op == 'lshr':
            if b >= w: raise Fail('shift-out-of-range')
            return a >> b
        if op == 'ashr':
            if b >= w: raise Fail('shift-out-of-range')
            return (self.sint(a, w) >> b) & mask
        if b == 0: raise Fail('division-by-zero')
        if op == 'udiv': return a // b
        if op == 'urem': return a % b
        sa, sb = self.sint(a, w), self.sint(b, w)
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0): q = -q
        if op == 'sdiv': return q & mask
        if op == 'srem': return (sa - q * sb) & mask
        raise Unsupported('op ' + op)

    def pbin(self, st, op, w, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o is b.o and a.tab is None and b.tab is None:
                x = a.off if isinstance(a.off, L) else L(64, {}, a.off)
                y = b.off if isinstance(b.off, L) else L(64, {}, b.off)
                d = dict(x.d)
                for s, k in y.d.items(): d[s] = d.get(s, 0) - k
                return self.mkL(64, d, x.c - y.c)
            raise Fail('pointer-difference', 'of different objects')
        if op in ('add', 'sub') and isinstance(a, Ptr) and isinstance(b, (int, L)):
            if isinstance(b, int):
                n = self.sint(b, 64)
                return self.ptr_add(st, a, n if op == 'add' else -n)
            return self.ptr_add(st, a, b if op == 'add' else L(64, {s: -k for s, k in b.d.items()}, -b.c))
        if op == 'add' and isinstance(b, Ptr): return self.pbin(st, op, w, b, a)
        if op == 'and' and isinstance(a, Ptr) and isinstance(b, int) and b < 64:
            return 0        # objects are taken to be maximally aligned; only used by alignment tests
        raise Unsupported('pointer arithmetic ' + op)

    def fixL(self, st, x):
        """replace symbols whose range is a single value"""
        if isinstance(x, L):
            for k in x.d:
                r = st.rng.get(k)
                if r is not None and r[0] == r[1]:
                    d = dict(x.d); c = x.c
                    for q in x.d:
                        r = st.rng.get(q)
                        if r is not None and r[0] == r[1]: c += d.pop(q) * r[0]
                    return self.mkL(x.w, d, c)
        return x

    def lbin(self, st, op, w, a, b):
        a = self.fixL(st, a); b = self.fixL(st, b)
        if isinstance(a, int) and isinstance(b, int): a = L(w, {}, a)
        r = self.lbin0(st, op, w, a, b)
        if r is None and isinstance(a, L) and not a.d: return None
        return r

    def lbin0(self, st, op, w, a, b):
        if op in ('add', 'sub'):
            x = self.toL(a, w); y = self.toL(b, w)
            s = 1 if op == 'add' else -1
            yc = y.c
            if isinstance(b, int): yc = self.sint(b, w)
            if isinstance(a, int): x = L(w, {}, self.sint(a, w))
            d = dict(x.d)
            for k, v in y.d.items(): d[k] = d.get(k, 0) + s * v
            return self.mkL(w, d, x.c + s * yc)
        if op == 'mul':
            if isinstance(a, int): a, b = b, a
            if not isinstance(b, int): return None
            k = self.sint(b, w)
            return self.mkL(w, {s: v * k for s, v in a.d.items()}, a.c * k)
        if not isinstance(b, int): return None
        if op == 'shl':
            return self.mkL(w, {s: v << b for s, v in a.d.items()}, a.c << b)
        if op in ('lshr', 'udiv', 'ashr', 'sdiv'):
            k = (1 << b) if op in ('lshr', 'ashr') else b
            if k == 0: return None
            if not self.fits(st, a, op in ('ashr', 'sdiv')): return None
            lo, _ = self.bounds(st, a.d, a.c)
            if lo < 0 and op != 'ashr': return None
            if any(v % k for v in a.d.values()):
                rd = {s: v for s, v in a.d.items() if v % k}; rc = a.c % k
                l2, h2 = self.bounds(st, rd, rc)
                if not (l2 >= 0 and h2 < k): return None
                return self.mkL(w, {s: v // k for s, v in a.d.items() if v % k == 0}, (a.c - rc) // k)
            return self.mkL(w, {s: v // k for s, v in a.d.items()}, a.c // k)
        if op in ('and', 'urem', 'srem'):
            if op == 'and':
                if b == 0: return 0
                if b & (b + 1) == 0: k = b + 1
                else:
                    nb = (~b) & ((1 << w) - 1)
                    if nb & (nb + 1) == 0:      # clear low bits
                        k = nb + 1
                        if any(v % k for v in a.d.values()): return None
                        return self.mkL(w, a.d, a.c - a.c % k)
                    return None
            else: k = b
            if k == 0: return None
            if op != 'and':
                if not self.fits(st, a, op == 'srem'): return None
                lo, hi = self.bounds(st, a.d, a.c)
                if lo < 0: return None
                if hi < k: return a
            else:
                lo, hi = self.bounds(st, a.d, a.c)
                if lo >= 0 and hi < k: return a if lo != hi else lo
            if any(v % k for v in a.d.values()):
                rd = {s: v for s, v in a.d.items() if v % k}; rc = a.c % k
                lo, hi = self.bounds(st, rd, rc)
                if lo >= 0 and hi < k: return self.mkL(w, rd, rc)
                return None
            return a.c % k
        if op == 'or' or op == 'xor':
            if b == 0: return a
            k = 1 << b.bit_length()
            if all(v % k == 0 for v in a.d.values()) and (a.c % k) & b == 0:
                return self.mkL(w, a.d, a.c + b)
        return None

    def bbin(self, st, op, w, a, b):
        if op in ('shl', 'lshr', 'ashr') and isinstance(b, int):
            x = self.bits(a, w)
            if b >= w: raise Fail('shift-out-of-range')
            if op == 'shl': return (0,) * b + x[:w - b]
            if op == 'lshr': return x[b:] + (0,) * b
            return x[b:] + (x[-1],) * b
        x = self.bits(a, w); y = self.bits(b, w)
        if op == 'xor': return tm.wxor(x, y)
        if op == 'and': return tm.wand(x, y)
        if op == 'or': return tm.wor(x, y)
        if op == 'add': return tm.wadd(x, y)
        if op == 'sub': return tm.wsub(x, y)
        if op == 'mul':
            cx, cy = tm.as_const(x), tm.as_const(y)
            if cx is not None: x, y, cx, cy = y, x, cy, cx
            if cy is not None:
                nz = [i for i, f in enumerate(x) if f]
                if len(nz) == 1:
                    f = x[nz[0]]; v = (cy << nz[0]) & ((1 << w) - 1)
                    return tuple(f if (v >> i) & 1 else 0 for i in range(w))
                return tm.wlin([(x, cy)], 0, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem') and isinstance(b, int) and b and b & (b - 1) == 0:
            k = b.bit_length() - 1
            if op == 'urem': return x[:k] + (0,) * (w - k)
            if op == 'udiv': return x[k:] + (0,) * k
            if x[-1] == 0:
                if op == 'srem': return x[:k] + (0,) * (w - k)
                return x[k:] + (0,) * k
        r = self.enum2(op, w, x, y)
        if r is not None: return r
        if op in ('shl', 'lshr', 'ashr'):
            # variable shift: barrel
            res = x
            fill = 0 if op != 'ashr' else x[-1]
            for k in range(len(y)):
                if y[k] == 0: continue
                n = 1 << k
                if n >= w:
                    if y[k] == 0: continue
                    raise Unsupported('variable shift range')
                sh = ((0,) * n + res[:w - n]) if op == 'shl' else (res[n:] + (fill,) * n)
                res = tm.wmux(y[k], sh, res)
            return res
        return tm.uf('op:' + op, x + y, w)

    def enum2(self, op, w, x, y):
        forms = []
        for f in x + y:
            if f not in (0, 1):
                g = tm.xor(f, 1) if 0 in T_.forms[f] else f
                if g not in forms: forms.append(g)
                if len(forms) > 9: return None
        m = len(forms)
        pos = {f: i for i, f in enumerate(forms)}
        def ev(z, s):
            v = 0
            for i, f in enumerate(z):
                if f == 1: v |= 1 << i
                elif f:
                    if f in pos: b = (s >> pos[f]) & 1
                    else: b = 1 ^ ((s >> pos[tm.xor(f, 1)]) & 1)
                    v |= b << i
            return v
        tts = [0] * w
        for s in range(1 << m):
            try: r = self.cbin(op, w, ev(x, s), ev(y, s))
            except Fail: return None
            for i in range(w):
                if (r >> i) & 1: tts[i] |= 1 << s
        return tuple(tm.lut_bits(forms, tts))

    def lincond(self, st, d, c, op):
        """form for  sum+c <= 0 ('le') or == 0 ('eq')"""
        items = tuple(sorted(d.items()))
        if op == 'eq' and items[0][1] < 0:
            items = tuple((k, -v) for k, v in items); c = -c
        if op == 'le':
            # normalise negation: expr <= 0  vs  -expr+1 <= 0 ; keep the one with positive first coefficient
            if items[0][1] < 0:
                it2 = tuple((k, -v) for k, v in items)
                return tm.inv(tm.atom(('lc', it2, -c + 1, op)))
        return tm.atom(('lc', items, c, op))

    def icmp(self, st, pred, t, a, b):
        if t[0] == 'ptr' or isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            return self.pcmp(st, pred, a, b)
        w = t[1]
        if isinstance(a, int) and isinstance(b, int):
            return self.ccmp(pred, w, a, b)
        if a is UNDEF or b is UNDEF: return B(undef_bits(1))
        if isinstance(a, (L, int)) and isinstance(b, (L, int)):
            signed = pred[0] == 's'
            x = self.toL(a, w); y = self.toL(b, w)
            if signed or pred in ('eq', 'ne'):
                if isinstance(a, int): x = L(w, {}, self.sint(a, w))
                if isinstance(b, int): y = L(w, {}, self.sint(b, w))
            ok = self.fits(st, x, signed) and self.fits(st, y, signed)
            if pred in ('eq', 'ne') and not ok:
                x2 = x; ok = self.fits(st, x, True) and self.fits(st, y, True)
                if not ok:
                    if isinstance(b, int): y = L(w, {}, b)
                    if isinstance(a, int): x = L(w, {}, a)
                    ok = self.fits(st, x, False) and self.fits(st, y, False)
            if ok:
                d = dict(x.d)
                for k, v in y.d.items(): d[k] = d.get(k, 0) - v
                d = {k: v for k, v in d.items() if v}
                c = x.c - y.c
                return self.lcmp(st, pred, d, c)
        x = self.bits(a, w); y = self.bits(b, w)
        return self.bcmp(st, pred, w, x, y)

    def lcmp(self, st, pred, d, c):
        force = self.lc_trace is not None and self.lc_k in d
        lo, hi = self.bounds(st, d, c) if not force else (-1, 1)
        if pred in ('eq', 'ne'):
            if lo > 0 or hi < 0: r = 0
            elif lo == hi == 0: r = 1
            else:
                r = self.lin_decide(st, d, c, 'eq') if not force else None
                if r is None:
                    f = self.lincond(st, d, c, 'eq')
                    return B((f if pred == 'eq' else tm.inv(f),))
            return r if pred == 'eq' else 1 - r
        p = pred[1:]
        neg = False
        if p == 'lt': cc = c + 1; dd = d            # a-b+1 <= 0
        elif p == 'le': cc = c; dd = d
        elif p == 'gt': dd, cc, neg = d, c, True    # not (a-b <= 0)
        else: dd, cc, neg = d, c + 1, True          # ge: not (a-b+1 <= 0)
        if not dd:
            r = 1 if cc <= 0 else 0
            return (1 - r) if neg else r
        lo, hi = self.bounds(st, dd, cc) if not force else (0, 1)
        if hi <= 0: r = 1
        elif lo > 0: r = 0
        else:
            r = self.lin_decide(st, dd, cc, 'le') if not force else None
            if r is None:
                f = self.lincond(st, dd, cc, 'le')
                return B((tm.inv(f) if neg else f,))
        return (1 - r) if neg else r

    def lin_decide(self, st, d, c, op):
        if not st.lin: return None
        if op == 'le':
            if self.lin_entails(st, d, c): return 1
            if self.lin_entails(st, {k: -v for k, v in d.items()}, -c + 1): return 0
            return None
        if self.lin_entails(st, d, c) and self.lin_entails(st, {k: -v for k, v in d.items()}, -c): return 1
        if self.lin_entails(st, d, c + 1) or self.lin_entails(st, {k: -v for k, v in d.items()}, -c + 1): return 0
        return None

    def ccmp(self, pred, w, a, b):
        if pred == 'eq': return int(a == b)
        if pred == 'ne': return int(a != b)
        if pred[0] == 's': a, b = self.sint(a, w), self.sint(b, w)
        p = pred[1:]
        return int(a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b)

    def pcmp(self, st, pred, a, b):
        if pred in ('eq', 'ne'):
            if isinstance(a, int) and isinstance(b, int): r = int(a == b)
            elif isinstance(a, int) or isinstance(b, int): r = 0
            elif isinstance(a, Fn) or isinstance(b, Fn): r = int(isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name)
            elif a.o is not b.o: r = 0
            else:
                x = a.off if isinstance(a.off, L) else L(64, {}, a.off)
                y = b.off if isinstance(b.off, L) else L(64, {}, b.off)
                d = dict(x.d)
                for k, v in y.d.items(): d[k] = d.get(k, 0) - v
                return self.lcmp(st, pred, {k: v for k, v in d.items() if v}, x.c - y.c)
            return r if pred == 'eq' else 1 - r
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
            x = a.off if isinstance(a.off, L) else L(64, {}, a.off)
            y = b.off if isinstance(b.off, L) else L(64, {}, b.off)
            d = dict(x.d)
            for k, v in y.d.items(): d[k] = d.get(k, 0) - v
            return self.lcmp(st, 's' + pred[1:], {k: v for k, v in d.items() if v}, x.c - y.c)
        raise Unsupported('pointer order')

    def bcmp(self, st, pred, w, x, y):
        if pred in ('eq', 'ne'):
            diff = [tm.xor(p, q) for p, q in zip(x, y)]
            if any(f == 1 for f in diff): r = 0
            else:
                nz = sorted(set(f for f in diff if f))
                if not nz: r = 1
                else:
                    r = eq0(nz)
            if r in (0, 1): return r if pred == 'eq' else 1 - r
            return B((r if pred == 'eq' else tm.inv(r),))
        p = pred[1:]
        sg = pred[0] == 's'
        if p in ('gt', 'le'): x, y = y, x
        # now lt (gt swapped) or ge (le swapped)
        f = ult(x, y, sg, self, w)
        if p in ('ge', 'le'): f = tm.inv(f)
        return f if f in (0, 1) else B((f,))

    def cast(self, st, op, t, t2, a):
        if op == 'freeze': return B(undef_bits(t[1])) if a is UNDEF else a
        if op in ('bitcast',): return a
        if op == 'ptrtoint': return a
        if op == 'inttoptr': return a
        if t[0] != 'i' or t2[0] != 'i':
            return ('fop', op, a)
        w, w2 = t[1], t2[1]
        if isinstance(a, int):
            if op == 'zext': return a
            if op == 'sext': return self.sint(a, w) & ((1 << w2) - 1)
            return a & ((1 << w2) - 1)
        if a is UNDEF: return UNDEF if op == 'trunc' else B(undef_bits(w) + (0,) * (w2 - w)) if op == 'zext' else B(undef_bits(w2))
        if isinstance(a, L):
            if op == 'trunc': return self.mkL(w2, a.d, a.c)
            if self.fits(st, a, op == 'sext'): return L(w2, a.d, a.c)
            b = self.L2B(a)
        elif isinstance(a, Ptr): raise Unsupported('cast of pointer')
        elif isinstance(a, B): b = a.b
        else: raise Unsupported('cast')
        if op == 'zext': return B(b + (0,) * (w2 - w))
        if op == 'sext': return B(b + (b[-1],) * (w2 - w))
        return self.norm(tm.wtrunc(b, w2))

    # ---- running
    def cfg(self, fn):
        c = self.cfgs.get(id(fn))
        if c is None:
            c = CFG(fn); self.cfgs[id(fn)] = c
        return c

    def call(self, st, name, args):
        """list of (ret, state)"""
        h = self.contracts.get(name)
        if h is not None: return h(self, st, args)
        fn = self.funcs.get(name)
        if fn is None:
            base = name.split('#')[0]
            return self.external(st, base, args)
        self.called.add(name)
        fr = {'#mod': fn.mod}
        for (t, pn), a in zip(fn.params, args): fr[pn] = a
        return self.run(fn, fr, st)

    def run(self, fn, fr, st):
        cfg = self.cfg(fn)
        out = []
        work = [(fr, fn.order[0], None, 0, st, ())]
        while work:
            item = work.pop()
            self.run_path(fn, cfg, item, work, out, None)
        return out

    def run_path(self, fn, cfg, item, work, out, stop):
        """runs one path until return, fork (pushes successors on work) or reaching a stop label.
        stop: None or (set of labels) -> pushes (label, item) on out as ('stop', ...)"""
        fr, label, prev, idx, st, loops = item
        blocks = fn.blocks
        while True:
            if idx == 0:
                if stop is not None and label in stop and prev is not None:
                    out.append(('stop', label, prev, fr, st, loops))
                    return
                if label in cfg.loops:
                    body = cfg.loops[label]
                    # drop loops we left
                    loops = tuple(x for x in loops if label in cfg.loops[x[0]])
                    if not any(x[0] == label for x in loops) or prev not in body:
                        loops = tuple(x for x in loops if x[0] != label)
                        loops = loops + ((label, dict(fr), prev, st.copy() if not self.nofold else None),)
                elif loops:
                    loops = tuple(x for x in loops if label in cfg.loops[x[0]])
                # phis
                blk = blocks[label]
                n = 0
                vals = []
                while blk[n][0] == 'phi':
                    ins = blk[n]
                    for v, l in ins[3]:
                        if l == prev:
                            vals.append((ins[1], self.val(fr, st, ins[2], v))); break
                    else: raise Unsupported('phi edge')
                    n += 1
                for d, v in vals: fr[d] = v
                idx = n
            blk = blocks[label]
            nxt = None
            while idx < len(blk):
                ins = blk[idx]
                idx += 1
                k = ins[0]
                self.steps += 1
                if k == 'bin':
                    t = ins[3]
                    if t[0] != 'i':
                        fr[ins[1]] = ('fop', ins[2], self.val(fr, st, t, ins[4]), self.val(fr, st, t, ins[5])); continue
                    fr[ins[1]] = self.binop(st, ins[2], t[1], self.val(fr, st, t, ins[4]), self.val(fr, st, t, ins[5]))
                elif k == 'gep':
                    fr[ins[1]] = self.gep(fr, st, ins[2], self.val(fr, st, ('ptr',), ins[3]), ins[4])
                elif k == 'load':
                    t = ins[2]
                    p = self.val(fr, st, ('ptr',), ins[3])
                    n = fn.mod.size(t)
                    fr[ins[1]] = self.load(st, p, n, t[1] if t[0] == 'i' else 64, t[0] == 'ptr')
                elif k == 'store':
                    t = ins[1]
                    v = self.val(fr, st, t, ins[2]); p = self.val(fr, st, ('ptr',), ins[3])
                    self.store(st, p, v, fn.mod.size(t), t[1] if t[0] == 'i' else 64)
                elif k == 'cast':
                    fr[ins[1]] = self.cast(st, ins[2], ins[3], ins[5], self.val(fr, st, ins[3], ins[4]))
                elif k == 'icmp':
                    fr[ins[1]] = self.icmp(st, ins[2], ins[3], self.val(fr, st, ins[3], ins[4]), self.val(fr, st, ins[3], ins[5]))
                elif k == 'br':
                    nxt = ins[1]
                elif k == 'cbr':
                    c = self.val(fr, st, ('i', 1), ins[1])
                    if isinstance(c, int): nxt = ins[2] if c else ins[3]
                    elif ins[2] == ins[3]: nxt = ins[2]
                    else:
                        r = self.branch(fn, cfg, fr, label, idx, st, loops, c, ins[2], ins[3], work, out, stop)
                        if r is None: return
                        fr, label, prev, idx, st, loops = r
                        nxt = '#resume'
                        break
                elif k == 'call':
                    r = self.do_call(fn, fr, st, ins)
                    if r is not None:
                        # several outcomes
                        if not r: return
                        for ret, s2 in r[1:]:
                            f2 = dict(fr)
                            if ins[1] is not None: f2[ins[1]] = ret
                            work.append((f2, label, prev, idx, s2, loops))
                        ret, st = r[0]
                        if len(r) > 1: fr = dict(fr)
                        if ins[1] is not None: fr[ins[1]] = ret
                elif k == 'alloca':
                    m = fn.mod
                    n = 1
                    if ins[3] is not None:
                        n = self.val(fr, st, ('i', 64), ins[3])
                        if not isinstance(n, int): raise Unsupported('vla')
                    fr[ins[1]] = Ptr(self.new_obj(st, fn.name + ':' + ins[1], m.size(ins[2]) * n, True, None, 'stack'), 0)
                elif k == 'ret':
                    v = self.val(fr, st, ins[1], ins[2]) if ins[1] is not None else None
                    if stop is not None: out.append(('ret', v, st))
                    else: out.append((v, st))
                    return
                elif k == 'select':
                    c = self.val(fr, st, ('i', 1), ins[2])
                    a = self.val(fr, st, ins[3], ins[4]); b = self.val(fr, st, ins[3], ins[5])
                    if isinstance(c, int): fr[ins[1]] = a if c else b
                    else:
                        try:
                            fr[ins[1]] = self.mux(st, c, a, b, ins[3])
                        except Unsupported:
                            # fork
                            for cv, v in ((1, a), (0, b)):
                                s2 = self.assume(st.copy(), c, cv)
                                if s2 is None: continue
                                f2 = dict(fr); f2[ins[1]] = v
                                work.append((f2, label, prev, idx, s2, loops))
                            return
                elif k == 'switch':
                    v = self.val(fr, st, ins[2 - 1], ins[2])
                    if isinstance(v, int):
                        nxt = ins[3]
                        for c, l in ins[4]:
                            if c & ((1 << ins[1][1]) - 1) == v: nxt = l; break
                    else: raise Unsupported('symbolic switch')
                elif k == 'unreachable':
                    raise Fail('unreachable', fn.name, st)
                elif k == 'asm':
                    if self.asm is None: raise Unsupported('asm')
                    args = [self.val(fr, st, t, v) for t, v in ins[5]]
                    fr[ins[1]] = self.asm(self, st, ins[2], ins[3], ins[4], args)
                elif k == 'extractvalue':
                    v = self.val(fr, st, ins[2], ins[3])
                    for i in ins[4]: v = v.v[i]
                    fr[ins[1]] = v
                elif k == 'insertvalue':
                    v = self.val(fr, st, ins[2], ins[3])
                    nvals = list(v.v) if isinstance(v, Agg) else [UNDEF] * len(fn.mod.resolve(ins[2])[1])
                    nvals[ins[6][0]] = self.val(fr, st, ins[4], ins[5])
                    fr[ins[1]] = Agg(nvals)
                elif k == 'fcmp':
                    raise Unsupported('fcmp')
                else:
                    raise Unsupported('instr ' + k)
            if self.steps > self.max_steps: raise Unsupported('step limit')
            if nxt is None: raise Unsupported('fallthrough')
            if nxt == '#resume': continue
            prev, label, idx = label, nxt, 0

    def do_call(self, fn, fr, st, ins):
        callee = ins[3]
        if callee[0] == 'g':
            n = callee[1]
            if n.startswith('llvm.lifetime') or n.startswith('llvm.dbg') or n.startswith('llvm.assume'):
                return None
            args = [self.val(fr, st, t, v) for t, v in ins[4]]
            if n in fn.mod.funcs: n = self.fkey(fn.mod, n)
        else:
            f = fr[callee[1]]
            args = [self.val(fr, st, t, v) for t, v in ins[4]]
            if not isinstance(f, Fn): raise Fail('call-through-non-function', repr(f))
            n = f.name
        return self.call(st, n, args)

    def mux(self, st, c, a, b, t):
        if a is b: return a
        if isinstance(a, int) and isinstance(b, int) and a == b: return a
        if t[0] == 'i' and not isinstance(a, (Ptr, Fn)) and not isinstance(b, (Ptr, Fn)):
            if isinstance(a, L) or isinstance(b, L): raise Unsupported('mux of lengths')
            f = c.b[0]
            k = T_.atoms[next(iter(tm.support(f)))][0] if len(T_.forms[f]) <= 2 else None
            if k == 'lc': raise Unsupported('mux on length condition')
            w = t[1]
            return self.norm(tm.wmux(f, self.bits(a, w), self.bits(b, w)))
        raise Unsupported('mux')

    def known(self, st, f):
        for g in st.pc:
            if g == f: return 1
            if tm.xor(g, f) == 1: return 0
        return None

    def assume(self, st, c, v):
        """assume bit c == v; None if infeasible"""
        f = c.b[0] if isinstance(c, B) else c
        if not v: f = tm.inv(f)
        if f == 1: return st
        if f == 0: return None
        k = self.known(st, f)
        if k == 1: return st
        if k == 0: return None
        st.pc = st.pc + (f,)
        # linear condition?
        neg = 0 in T_.forms[f]
        g = tm.inv(f) if neg else f
        ms = T_.forms[g]
        if len(ms) == 1:
            mo = T_.mons[next(iter(ms))]
            if len(mo) == 1:
                key = T_.atoms[mo[0]]
                if key[0] == 'lc':
                    _, items, cc, op = key
                    if op == 'le':
                        if neg: items = tuple((s, -q) for s, q in items); cc = -cc + 1
                        if not self.add_lin(st, items, cc, 'le'): return None
                    else:
                        if not self.add_lin(st, items, cc, 'ne' if neg else 'eq'): return None
        return st

    def add_lin(self, st, items, c, op):
        if op == 'le' and len(items) == 1:
            s, k = items[0]
            lo, hi = st.rng[s]
            if k > 0: hi = min(hi, (-c) // k)
            else: lo = max(lo, _ceil_div(c, -k))
            if lo > hi: return False
            st.rng[s] = (lo, hi)
            return True
        if op == 'eq' and len(items) == 1:
            s, k = items[0]
            if c % k: return False
            v = -c // k
            lo, hi = st.rng[s]
            if not (lo <= v <= hi): return False
            st.rng[s] = (v, v)
            return True
        if op == 'ne' and len(items) == 1:
            s, k = items[0]
            if c % k == 0:
                v = -c // k
                lo, hi = st.rng[s]
                if lo == hi == v: return False
                if v == lo: st.rng[s] = (lo + 1, hi); return True
                if v == hi: st.rng[s] = (lo, hi - 1); return True
            else: return True
        st.lin = st.lin + ((items, c, op),)
        # interval propagation
        for sign in ((1,) if op == 'le' else (1, -1) if op == 'eq' else ()):
            mins = [min(sign * k * v for v in st.rng[x]) for x, k in items]
            tot = sum(mins) + sign * c
            for (x, k), m in zip(items, mins):
                k *= sign
                lo, hi = st.rng[x]
                room = -(tot - m)          # k*x <= room
                if k > 0: hi = min(hi, room // k)
                else: lo = max(lo, _ceil_div(-room, -k))
                if lo > hi: return False
                st.rng[x] = (lo, hi)
        return self.lin_feasible(st)

    def is_lc(self, f):
        for a in tm.support(f):
            if T_.atoms[a][0] == 'lc': return True
        return False

    def branch(self, fn, cfg, fr, label, idx, st, loops, c, lt, lf, work, out, stop):
        """returns a resumed item, or None when successors were pushed on work"""
        if c is UNDEF: raise Fail('branch-on-undef', fn.name)
        f = c.b[0]
        if self.lc_trace is not None: self.trace_lc(label, lt, lf, f)
        k = self.known(st, f)
        if k is not None:
            return (fr, lt if k else lf, label, 0, st, loops)
        if self.is_lc(f):
            # loop whose exit depends on a symbolic length?
            for lp in reversed(loops):
                body = cfg.loops[lp[0]]
                if label in body and ((lt in body) != (lf in body)):
                    if self.fold_hook is not None and not self.nofold:
                        items = self.fold_hook(self, fn, cfg, lp, loops)
                        if items is not None:
                            work.extend(items)
                            return None
                    break
        else:
            # data-dependent: try to merge at the immediate post-dominator
            if self.merge:
                r = self.try_merge(fn, cfg, fr, label, st, loops, f, lt, lf, stop)
                if r is not None: return r
        self.ob('path')
        s1 = self.assume(st.copy(), f, 1)
        s2 = self.assume(st, f, 0)
        if s1 is not None and s2 is not None:
            work.append((dict(fr), lf, label, 0, s2, loops))
            return (fr, lt, label, 0, s1, loops)
        if s1 is not None: return (fr, lt, label, 0, s1, loops)
        if s2 is not None: return (fr, lf, label, 0, s2, loops)
        return None

    def trace_lc(self, label, lt, lf, f):
        neg = 0 in T_.forms[f]
        g = tm.inv(f) if neg else f
        ms = T_.forms[g]
        if len(ms) == 1:
            mo = T_.mons[next(iter(ms))]
            if len(mo) == 1 and T_.atoms[mo[0]][0] == 'lc':
                _, items, cc, op = T_.atoms[mo[0]]
                self.lc_trace.append((label, lt, lf, dict(items), cc, op, neg))

    def try_merge(self, fn, cfg, fr, label, st, loops, f, lt, lf, stop):
        j = cfg.ipd[label]
        if j is None: return None
        arms = []
        for lab, v in ((lt, 1), (lf, 0)):
            s2 = st.copy()
            saved = s2.pc
            s2 = self.assume(s2, f, v)
            if s2 is None: return None
            o = []
            try:
                w = [(dict(fr), lab, label, 0, s2, loops)]
                n = 0
                while w:
                    n += 1
                    if n > 8: return None
                    it = w.pop()
                    self.run_path(fn, cfg, it, w, o, {j})
            except (Unsupported, Fail):
                return None
            if len(o) != 1 or o[0][0] != 'stop': return None
            arms.append(o[0])
        (_, _, p1, f1, s1, l1), (_, _, p2, f2, s2, l2) = arms
        # merge phis of j
        blk = fn.blocks[j]
        try:
            vals = []
            n = 0
            while blk[n][0] == 'phi':
                ins = blk[n]
                v1 = v2 = None
                for v, l in ins[3]:
                    if l == p1: v1 = self.val(f1, s1, ins[2], v)
                    if l == p2: v2 = self.val(f2, s2, ins[2], v)
                vals.append((ins[1], self.mux1(st, f, v1, v2, ins[2])))
                n += 1
            # memory
            if s1.segs != s2.segs or s1.freed != s2.freed or s1.log != s2.log: return None
            if s1.rng != s2.rng: return None
            merged = {}
            for oid in set(s1.mem) | set(s2.mem):
                c1, c2 = s1.mem.get(oid), s2.mem.get(oid)
                if c1 is c2: merged[oid] = c1; continue
                base = st.mem.get(oid)
                if base is None and (c1 is None or c2 is None):
                    merged[oid] = c1 if c1 is not None else c2; continue   # object local to one arm
                nc = dict(c1)
                for key in set(c1) | set(c2):
                    if key == '#sym': 
                        if c1.get(key) != c2.get(key): return None
                        continue
                    a = c1.get(key); b = c2.get(key)
                    o = self.objs[oid]
                    off = key if isinstance(key, int) else L(64, dict(key[0]), key[1])
                    if a is None: a = self.read_byte(s1, o, off)
                    if b is None: b = self.read_byte(s2, o, off)
                    if a is b or a == b: nc[key] = a; continue
                    x = tm.wmux(f, self.byte_bits(a), self.byte_bits(b))
                    if (isinstance(a, tuple) and a[0] in ('p', 'L')) or (isinstance(b, tuple) and b[0] in ('p', 'L')): return None
                    cc = tm.as_const(x)
                    nc[key] = x if cc is None else cc
                merged[oid] = nc
        except Unsupported:
            return None
        nf = dict(fr)
        for d, v in vals: nf[d] = v
        ns = st.copy()
        ns.mem = merged
        ns.own = set()
        # registers defined inside the arms are dead at j (only phis use them) unless j is dominated by them
        for kx, vx in f1.items():
            if kx not in nf and kx in f2: nf[kx] = vx
        nl = tuple(x for x in loops if j in cfg.loops[x[0]])
        if j in cfg.loops and (label not in cfg.loops[j]): return None
        if stop is not None and j in stop: return None
        return (nf, j, p1, n, ns, nl)

    def mux1(self, st, f, a, b, t):
        if a is b: return a
        if isinstance(a, int) and isinstance(b, int) and a == b: return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o and a.tab is None and b.tab is None and lkey(a.off) == lkey(b.off): return a
        if t[0] == 'i':
            for x in (a, b):
                if not isinstance(x, (int, B)): raise Unsupported('mux')
            return self.norm(tm.wmux(f, self.bits(a, t[1]), self.bits(b, t[1])))
        raise Unsupported('mux')

    # ---- externals
    def external(self, st, name, args):
        args = [self.fixL(st, a) for a in args]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
            self.memcpy(st, args[0], args[1], args[2]); return [(args[0], st)]
        if name.startswith('llvm.memset') or name == 'memset':
            self.memset(st, args[0], args[1], args[2]); return [(args[0], st)]
        if name in ('malloc', 'calloc'):
            n = args[0] if name == 'malloc' else self.binop(st, 'mul', 64, args[0], args[1])
            if not isinstance(n, int): 
                if isinstance(n, L): pass
                else: raise Unsupported('malloc size')
            o = self.new_obj(st, f'malloc#{self.nid}', n, True, None, 'heap')
            if name == 'calloc': o.default = lambda s, ob, off: 0
            res = [(Ptr(o, 0), st)]
            if self.malloc_null is not None:
                r = self.malloc_null(self, st)
                if r is not None: res.append((0, r))
            st.log = st.log + (('malloc', o.id),)
            return res
        if name == 'free':
            p = args[0]
            if isinstance(p, int): return [(None, st)]
            if not isinstance(p, Ptr) or p.o.kind != 'heap' or not (isinstance(p.off, int) and p.off == 0): raise Fail('invalid-free', repr(p))
            if p.o.id in st.freed: raise Fail('double-free', p.o.name)
            st.freed = st.freed + (p.o.id,)
            st.log = st.log + (('free', p.o.id),)
            return [(None, st)]
        if name == '__assert_fail' or name == 'abort':
            raise Fail('assertion', 'abort reached', st)
        if name.startswith('llvm.bswap'):
            w = 8 * (int(name.split('.i')[-1]) // 8)
            b = self.bits(args[0], w)
            r = ()
            for i in range(0, w, 8): r = b[i:i + 8] + r
            return [(self.norm(r), st)]
        if name.startswith('llvm.fshl') or name.startswith('llvm.fshr'):
            w = int(name.split('.i')[-1])
            a, b, s = args
            if not isinstance(s, int): raise Unsupported('fsh')
            s %= w
            x = self.bits(b, w) + self.bits(a, w)   # low: b, high: a
            if 'fshl' in name: r = x[w - s:2 * w - s]
            else: r = x[s:s + w]
            return [(self.norm(r), st)]
        m = None
        if name.startswith('llvm.umin') or name.startswith('llvm.umax') or name.startswith('llvm.smin') or name.startswith('llvm.smax'):
            w = int(name.split('.i')[-1])
            pred = ('u' if name[5] == 'u' else 's') + ('lt' if 'min' in name else 'gt')
            c = self.icmp(st, pred, ('i', w), args[0], args[1])
            if isinstance(c, int): return [(args[0] if c else args[1], st)]
            res = []
            for cv, v in ((1, args[0]), (0, args[1])):
                s2 = self.assume(st.copy(), c, cv)
                if s2 is not None: res.append((v, s2))
            return res
        raise Unsupported('external ' + name)

    def memcpy(self, st, d, s, n):
        if isinstance(n, int):
            if n == 0: return
            for p in (d, s):
                if isinstance(p, int): raise Fail('null-dereference', 'memcpy')
                if p is UNDEF: raise Fail('undef-pointer')
                if p.tab is not None: raise Unsupported('memcpy table')
            self.check_range(st, s.o, s.off, n, False)
            self.check_range(st, d.o, d.off, n, True)
            bs = [self.read_byte(st, s.o, self.add_off(st, s.off, i)) for i in range(n)]
            self.put(st, d.o, d.off, bs)
            return
        if not isinstance(n, L): raise Unsupported('memcpy of symbolic length')
        lo, hi = self.bounds(st, n.d, n.c)
        if hi <= 0 and lo >= 0: return
        if lo < 0 and not self.lin_entails(st, {k: -v for k, v in n.d.items()}, -n.c): raise Fail('memcpy-length', 'may be negative', st)
        self.check_block(st, s, n, False); self.check_block(st, d, n, True)
        if s.o is d.o: raise Unsupported('symbolic-length copy within an object')
        from . import fold
        sg = fold.CopySeg(self, st, d.off, n, s.o, s.off)
        self.add_seg(st, d.o, d.off, n, sg)

    def check_block(self, st, p, n, write):
        if isinstance(p, int): raise Fail('null-dereference', 'block operation')
        if p is UNDEF: raise Fail('undef-pointer')
        if p.tab is not None: raise Unsupported('block operation on a table pointer')
        o = p.o
        self.ob('memory-access')
        if o.id in st.freed: raise Fail('use-after-free', o.name)
        if write and not o.writable: raise Fail('write-outside-frame', o.name)
        if o.size is None: return
        a = p.off if isinstance(p.off, L) else L(64, {}, p.off)
        z = o.size if isinstance(o.size, L) else L(64, {}, o.size)
        if not self.lin_entails(st, {k: -v for k, v in a.d.items()}, -a.c): raise Fail('out-of-bounds', f'{o.name}: block starts below the object')
        d = dict(a.d); c = a.c + n.c - z.c
        for k, v in n.d.items(): d[k] = d.get(k, 0) + v
        for k, v in z.d.items(): d[k] = d.get(k, 0) - v
        if not self.lin_entails(st, {k: v for k, v in d.items() if v}, c):
            raise Fail('out-of-bounds', f'{o.name}: block of {n} bytes at {p.off} may pass the end (size {o.size})', st)

    def add_seg(self, st, o, off, n, sg):
        """a range write of symbolic length: cells that may lie in the range are moved into the segment"""
        cells = st.wcells(o.id)
        sg.under = {}
        gone = []
        for k, v in cells.items():
            if k == '#sym': continue
            x = k if isinstance(k, int) else L(64, dict(k[0]), k[1])
            if not sg.disjoint(self, st, x):
                sg.under[k] = v; gone.append(k)
        for k in gone: del cells[k]
        if any(not isinstance(k, int) for k in gone): raise Unsupported('range write over cells at symbolic offsets')
        st.segs[o.id] = tuple(st.segs.get(o.id, ())) + (sg,)

    def memset(self, st, d, v, n):
        if not isinstance(n, int):
            if not isinstance(n, L): raise Unsupported('memset of symbolic length')
            lo, hi = self.bounds(st, n.d, n.c)
            if hi <= 0 and lo >= 0: return
            if lo < 0 and not self.lin_entails(st, {k: -v for k, v in n.d.items()}, -n.c): raise Fail('memset-length', 'may be negative', st)
            self.check_block(st, d, n, True)
            from . import fold
            sg = fold.CopySeg(self, st, d.off, n, None, None)
            sg.val = v & 255 if isinstance(v, int) else self.bits(v, 32)[:8]
            self.add_seg(st, d.o, d.off, n, sg)
            return
        if n == 0: return
        if isinstance(d, int): raise Fail('null-dereference', 'memset')
        self.check_range(st, d.o, d.off, n, True)
        if isinstance(v, int): b = v & 255
        else:
            b = self.bits(v, 32)[:8] if not isinstance(v, B) else v.b[:8]
            c = tm.as_const(b)
            if c is not None: b = c
        self.put(st, d.o, d.off, [b] * n)

_LE = {}
_TABC = {}

def _ceil_div(a, b):
    return -((-a) // b)

def eq0(nz):
    """form: all of the forms are zero"""
    if len(nz) <= 6:
        r = 1
        for f in nz: r = tm.fand(r, tm.inv(f))
        return r
    key = tuple(tm.xor(f, 1) if False else f for f in nz)
    return tm.atom(('eq0', key))

def ult(x, y, signed, eng, w):
    if signed:
        # flip sign bits
        x = x[:-1] + (tm.inv(x[-1]),)
        y = y[:-1] + (tm.inv(y[-1]),)
    if x == y: return 0
    forms = []
    ok = True
    for f in x + y:
        if f not in (0, 1):
            g = tm.xor(f, 1) if 0 in T_.forms[f] else f
            if g not in forms: forms.append(g)
            if len(forms) > 9: ok = False; break
    if ok:
        pos = {f: i for i, f in enumerate(forms)}
        def ev(z, s):
            v = 0
            for i, f in enumerate(z):
                if f == 1: v |= 1 << i
                elif f:
                    v |= ((s >> pos[f]) & 1 if f in pos else 1 ^ ((s >> pos[tm.xor(f, 1)]) & 1)) << i
            return v
        tt = 0
        for s in range(1 << len(forms)):
            if ev(x, s) < ev(y, s): tt |= 1 << s
        return tm.lut_bits(forms, [tt])[0]
    # common high bits
    n = len(x)
    while n and x[n - 1] == y[n - 1]: n -= 1
    if n == 0: return 0
    x, y = x[:n], y[:n]
    cy = tm.as_const(y)
    if cy is not None and cy & (cy - 1) == 0:
        # x < 2^k : all bits >= k are zero
        k = cy.bit_length() - 1
        if cy == 0: return 0
        nz = [f for f in x[k:] if f]
        if any(f == 1 for f in nz): return 0
        return eq0(sorted(set(nz))) if nz else 1
    return tm.atom(('ult', x, y))

def select_bits(idx, content):
    """idx forms, content: list of bit tuples (2^m entries).  canonical symbolic array select"""
    m = len(idx)
    if all(f in (0, 1) for f in idx):
        k = 0
        for i, f in enumerate(idx): k |= f << i
        return content[k]
    return select_cid(idx, content_id(content), len(content[0]))

def content_id(content):
    key = ('cont', tuple(content))
    cid = T_.ufs.get(key)
    if cid is None:
        cid = len(T_.ufs)
        T_.ufs[key] = cid
        T_.ufs[cid] = key
    return cid

def select_cid(idx, cid, n):
    idx = tuple(idx)
    return tuple(tm.atom(('sel', cid, idx, i)) for i in range(n))
