"""Contract verifier over LLVM IR: symbolic execution with z3 bit-vectors for machine integers, concrete heap shapes, callee contracts
given as Python transformers, loops cut at their headers by shape enumeration with widening and (mined or given) invariants.
Every path of a function, every iteration: a path ends at a return or at a loop header already covered."""
import z3, itertools
from . import ll

class Unsupported(Exception): pass
class Viol(Exception):
    """a named obligation that fails on a feasible path"""
    def __init__(self, what, msg=''):
        Exception.__init__(self, f'{what}: {msg}'); self.what, self.msg = what, msg
class Restart(Exception): pass

class Ptr:
    __slots__ = ('o', 'off')
    def __init__(self, o, off=0): self.o, self.off = o, off
    def __eq__(self, x): return isinstance(x, Ptr) and self.o == x.o and same(self.off, x.off)
    def __hash__(self): return hash(self.o)
    def __repr__(self): return f'&{self.o}+{self.off}'
class Fn:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
    def __eq__(self, x): return isinstance(x, Fn) and x.name == self.name
    def __hash__(self): return hash(self.name)
    def __repr__(self): return '@' + self.name
class Dangling:
    def __repr__(self): return 'dangling'
    def __eq__(self, x): return isinstance(x, Dangling)
    def __hash__(self): return 7
class Undef:
    def __repr__(self): return 'undef'
    def __eq__(self, x): return isinstance(x, Undef)
    def __hash__(self): return 8
DANGLING, UNDEF = Dangling(), Undef()

def issym(v): return isinstance(v, z3.ExprRef)
def same(a, b):
    if issym(a) or issym(b): return issym(a) and issym(b) and a.eq(b)
    return type(a) == type(b) and a == b
def key(v):
    if issym(v): return ('z', v.get_id())
    if isinstance(v, Ptr): return ('p', v.o, key(v.off))
    if isinstance(v, tuple) and v and v[0] in ('dbl', 'unknown'): return ('t', v[0])
    return ('c', v) if isinstance(v, (int, str, tuple, frozenset, type(None))) else ('r', repr(v))

class Obj:
    __slots__ = ('id', 'kind', 'size', 'cells', 'default', 'ro', 'heap', 'ep')
    def __init__(self, id, kind='mem', size=0, default='fresh', ro=False, heap=False, cells=None):
        self.id, self.kind, self.size, self.default, self.ro, self.heap = id, kind, size, default, ro, heap
        self.cells = cells or {}; self.ep = 0
    def copy(self):
        o = Obj(self.id, self.kind, self.size, self.default, self.ro, self.heap, dict(self.cells)); o.ep = self.ep
        return o

class State:
    __slots__ = ('objs', 'own', 'frames', 'pc', 'ghost', 'failed', 'trace')
    def __init__(self):
        self.objs = {}; self.own = set(); self.frames = []; self.pc = []; self.ghost = {}; self.failed = False; self.trace = ()
    def copy(self):
        s = State(); s.objs = dict(self.objs); self.own = set(); s.frames = [dict(f) for f in self.frames]
        s.pc = list(self.pc); s.ghost = dict(self.ghost); s.failed = self.failed; s.trace = self.trace
        return s
    def w(self, oid):
        if oid not in self.own: self.objs[oid] = self.objs[oid].copy(); self.own.add(oid)
        return self.objs[oid]

class Graph:
    def __init__(self, fn):
        self.fn = fn; self.succ = {}; self.pred = {b: [] for b in fn.blocks}
        for b, ins in fn.blocks.items():
            t = ins[-1]
            s = [t[1]] if t[0] == 'br' else [t[2], t[3]] if t[0] == 'cbr' else [t[3]] + [l for _, l in t[4]] if t[0] == 'switch' else []
            self.succ[b] = s
            for x in s: self.pred[x].append(b)
        entry = fn.order[0]
        # reachable, postorder, dominators
        seen, order = set(), []
        stack = [(entry, iter(self.succ[entry]))]; seen.add(entry)
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in seen: seen.add(x); stack.append((x, iter(self.succ[x]))); break
            else: order.append(b); stack.pop()
        rpo = order[::-1]; idx = {b: i for i, b in enumerate(rpo)}
        dom = {entry: {entry}}
        for b in rpo[1:]: dom[b] = set(rpo)
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                n = set.intersection(*[dom[p] for p in self.pred[b] if p in idx]) | {b}
                if n != dom[b]: dom[b] = n; ch = True
        self.loops = {}
        for b in rpo:
            for s in self.succ[b]:
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s}); w = [b]
                    while w:
                        x = w.pop()
                        if x not in body: body.add(x); w += self.pred[x]
        # liveness (block live-in, phis of the block are defined at entry and not live-in themselves)
        use, df = {}, {}
        self.types = {}
        for b, ins in fn.blocks.items():
            u, d = set(), set()
            for i in ins:
                if i[0] == 'phi': d.add(i[1]); continue
                for x in locs(i):
                    if x not in d: u.add(x)
                if isinstance(dst(i), str): d.add(dst(i))
            use[b], df[b] = u, d
            for i in ins:
                if i[0] == 'phi': self.types[i[1]] = i[2]
                elif i[0] in ('bin', 'select'): self.types[i[1]] = i[3]
                elif i[0] == 'cast': self.types[i[1]] = i[5]
                elif i[0] in ('icmp', 'fcmp'): self.types[i[1]] = ('i', 1)
                elif i[0] in ('load', 'call'): self.types[i[1]] = i[2]
        for t, n in fn.params: self.types[n] = t
        self.live = {b: set(use[b]) for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in fn.blocks:
                o = set()
                for s in self.succ[b]:
                    o |= self.live[s] - {i[1] for i in fn.blocks[s] if i[0] == 'phi'}
                    for i in fn.blocks[s]:
                        if i[0] == 'phi':
                            for v, l in i[3]:
                                if l == b and v[0] == 'l': o.add(v[1])
                n = use[b] | (o - df[b])
                if n != self.live[b]: self.live[b] = n; ch = True
        for b in fn.blocks: self.live[b] |= {i[1] for i in fn.blocks[b] if i[0] == 'phi'}

def dst(i):
    return i[1] if i[0] in ('bin', 'cast', 'icmp', 'fcmp', 'select', 'load', 'gep', 'alloca', 'phi', 'extractvalue', 'insertvalue', 'call', 'asm') else None
def locs(i):
    out = []
    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'l' and isinstance(x[1], str): out.append(x[1])
            else:
                for y in x: go(y)
        elif isinstance(x, list):
            for y in x: go(y)
    k = i[0]
    for x in (i[2:] if dst(i) is not None or k in ('call', 'phi') else i[1:]): go(x)
    return out

class Engine:
    def __init__(self, mods, contracts=None, lay=None):
        self.mods = mods; self.con = contracts or {}; self.lay = lay or {}
        self.fns = {}
        for m in mods.values():
            for n, f in m.funcs.items():
                k = n if n not in self.fns or not f.internal else None
                if k: self.fns[k] = (m, f)
        self.cfgs = {}
        self.inv = {}            # (function, header) -> function(eng, st) -> list of (name, z3 Bool)
        self.grange = {}
        self.W = {}              # (function, header) -> widened locations
        self.dropped = set()     # mined invariants that turned out false
        self.K = 24; self.Kloc = {}
        self.obs = {}            # obligation kind -> count
        self.inline = set()
        self.mine = True; self.nobounds = False; self.on_free = None; self.nowf = False; self.lazy = False; self.coarse = False; self.seen = []; self.keep = []
        self.fresh_i = itertools.count()
        self.timeout = 10000
        self.calls = set(); self.used_contracts = set()
        self.maxpaths = 300000
        self.queries = 0; self.solver_time = 0.0
    # ------------------------------------------------------------ solver
    def fresh(self, w, hint='v'): return z3.BitVec(f'{hint}!{next(self.fresh_i)}', w)
    def freshZ(self, hint='z'): return z3.Int(f'{hint}!{next(self.fresh_i)}')
    def sat(self, st, *extra):
        import time
        t = time.time(); self.queries += 1
        s = z3.Solver(); s.set('timeout', self.timeout)
        s.add(*st.pc); s.add(*extra)
        r = s.check(); self.solver_time += time.time() - t
        if r == z3.sat: self.model = s.model()
        return r
    def entails(self, st, c):
        if isinstance(c, bool): return c or self.sat(st) == z3.unsat
        return self.sat(st, z3.Not(c)) == z3.unsat
    def ob(self, st, what, c, msg=''):
        self.obs[what] = self.obs.get(what, 0) + 1
        if c is True: return
        if c is False:
            if self.sat(st) == z3.unsat: return
            raise Viol(what, msg or 'on a feasible path')
        r = self.sat(st, z3.Not(c))
        if r != z3.unsat: raise Viol(what, (msg + ' ' if msg else '') + (f'e.g. {str(self.model)[:300]}' if r == z3.sat else 'the solver gave no answer'))
    # ------------------------------------------------------------ values
    def bv(self, v, w):
        if issym(v):
            if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            return v
        if isinstance(v, int): return z3.BitVecVal(v, w)
        if v is UNDEF: return self.fresh(w, 'undef')
        raise Unsupported(f'integer expected, got {v!r}')
    def simp(self, v):
        v = z3.simplify(v)
        if z3.is_bv_value(v): return v.as_long()
        if z3.is_true(v): return 1
        if z3.is_false(v): return 0
        return v
    def val(self, st, m, t, v):
        k = v[0]
        if k == 'l': return st.frames[-1][v[1]]
        if k == 'c': return v[1] & ((1 << t[1]) - 1) if t[0] == 'i' else v[1]
        if k == 'z': return 0
        if k == 'g': return self.glob(st, m, v[1])
        if k in ('u', 'undef', 'poison'): return UNDEF
        if k == 'gepc' or k == 'gep':
            _, bt, base, idx = v[:4]
            return self.gep(st, m, bt, self.val(st, m, ('ptr',), base), idx)
        return ('const', repr(v))
    def glob(self, st, m, n):
        if n in m.funcs or n in m.decls: return Fn(n)
        oid = 'g:' + n
        if oid not in st.objs:
            mm = m
            if n not in mm.globals or mm.globals[n][1] is None:
                for x in self.mods.values():
                    if n in x.globals and x.globals[n][1] is not None: mm = x
            t, init, const = mm.globals[n]
            o = Obj(oid, 'mem', mm.size(t), 'fresh', const)
            self.init(st, mm, t, init, 0, o.cells, 0)
            st.objs[oid] = o
            if oid not in self.grange:
                self.grange[oid] = None
                if const and t[0] == 'arr' and t[1] > 64 and init[0] in ('agg', 'arr'):
                    et = mm.resolve(t[2])
                    vs = [x[1] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) else x for x in init[1]]
                    if et[0] == 'i' and all(x[0] in ('c', 'z') for x in vs):
                        vs = [x[1] & ((1 << et[1]) - 1) if x[0] == 'c' else 0 for x in vs]
                        self.grange[oid] = (mm.size(et), min(vs), max(vs))
        return Ptr(oid, 0)
    def init(self, st, m, t, v, off, cells, depth):
        """constant initialiser: scalars and structures only, long arrays stay unknown constants"""
        t = m.resolve(t)
        if v is None: return
        if t[0] == 'i':
            if v[0] == 'c': cells[off] = (m.size(t), v[1] & ((1 << t[1]) - 1))
            elif v[0] == 'z': cells[off] = (m.size(t), 0)
        elif t[0] == 'ptr':
            if v[0] == 'g': cells[off] = (8, Fn(v[1]) if v[1] in m.funcs or v[1] in m.decls else Ptr('g:' + v[1], 0))
            elif v[0] in ('z', 'null'): cells[off] = (8, 0)
        elif t[0] == 'st' and v[0] in ('agg', 'st', 'struct'):
            for i, x in enumerate(v[1]):
                o, ft = m.field_off(t, i); self.init(st, m, ft, x[1] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) else x, off + o, cells, depth + 1)
        elif t[0] == 'arr' and v[0] in ('agg', 'arr') and t[1] <= 64:
            sz = m.size(t[2])
            for i, x in enumerate(v[1]): self.init(st, m, t[2], x[1] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) else x, off + i * sz, cells, depth + 1)
        elif v[0] == 'str' and t[0] == 'arr' and t[1] <= 64:
            for i, x in enumerate(v[1]): cells[off + i] = (1, x)
    def add(self, a, b):
        if isinstance(a, int) and isinstance(b, int): return a + b
        return self.simp(self.bv(a, 64) + self.bv(b, 64))
    def gep(self, st, m, bt, base, idx):
        off = 0; t = bt
        for n, (it, iv) in enumerate(idx):
            v = self.val(st, m, it, iv)
            if n: t = m.resolve(t)
            if n and t[0] == 'st':
                o, t = m.field_off(t, v); off = self.add(off, o); continue
            if n: t = t[2]
            sz = m.size(t)
            if isinstance(v, int):
                if v >> (it[1] - 1): v -= 1 << it[1]
                off = self.add(off, v * sz)
            else:
                v = self.bv(v, it[1]); v = z3.SignExt(64 - it[1], v) if it[1] < 64 else v
                off = self.add(off, self.simp(v * z3.BitVecVal(sz, 64)))
        if isinstance(base, int) and base == 0:
            if isinstance(off, int) and off == 0: return 0
            raise Viol('null pointer arithmetic', f'{off}')
        if not isinstance(base, Ptr):
            if base is DANGLING: return DANGLING
            raise Unsupported(f'gep on {base!r}')
        return Ptr(base.o, self.add(base.off, off))
    # ------------------------------------------------------------ memory
    def obj(self, st, p, what):
        if isinstance(p, int) and p == 0: raise Viol('no null pointer is dereferenced', what)
        if p is DANGLING: raise Viol('no freed memory is used', what)
        if p is UNDEF: raise Viol('no uninitialised pointer is dereferenced', what)
        if not isinstance(p, Ptr): raise Unsupported(f'{what} through {p!r}')
        if p.o not in st.objs: raise Viol('no freed memory is used', f'{what} {p}')
        return st.objs[p.o]
    def bounds(self, st, o, off, n, what, write=False):
        if write and o.ro: raise Viol('no constant object is written', f'{what} {o.id}')
        if o.kind in self.lay.get('kinds', {}) and self.lay['kinds'][o.kind].unbounded(off, n): return
        if self.nobounds and not (isinstance(off, int) and isinstance(n, int) and isinstance(o.size, int)): return
        if isinstance(off, int) and isinstance(o.size, int) and isinstance(n, int):
            self.ob(st, 'accesses stay inside their object', 0 <= off and off + n <= o.size, f'{what} {n} bytes at {off} of {o.id} ({o.size} bytes)'); return
        f, s, l = self.bv(off & (1 << 64) - 1 if isinstance(off, int) else off, 64), self.bv(o.size, 64), self.bv(n, 64)
        self.ob(st, 'accesses stay inside their object', z3.And(z3.ULE(l, s), z3.ULE(f, s - l)), f'{what} {n} bytes at {off} of {o.id}')
    def special(self, st, o, off, n): return None
    def load(self, st, p, n, t):
        o = self.obj(st, p, 'read')
        self.bounds(st, o, p.off, n, 'read')
        if o.kind in self.lay.get('kinds', {}):
            r = self.lay['kinds'][o.kind].load(self, st, o, p.off, n, t)
            if r is not None: return r
            o = st.objs[p.o]
        if o.kind == 'opaque': raise Viol('opaque objects are accessed by their own functions only', str(p))
        off = p.off
        if isinstance(off, int):
            c = o.cells.get(off)
            if c and c[0] == n: return c[1]
            bs = [o.cells.get(off + i) for i in range(n)]
            ov = self.overlap(o, off, n)
            if not ov:
                if o.default == 'zero': return 0
                if o.default == 'undef': return UNDEF
                v = self.mkval(st, t, n, f'{o.id}.{off}')
                r = self.grange.get(o.id) if o.ro else None
                if r and r[0] == n and issym(v) and off % n == 0: st.pc += [z3.UGE(v, r[1]), z3.ULE(v, r[2])]; return v
                st.w(o.id).cells[off] = (n, v)
                return v
            if all(b and b[0] == 1 and isinstance(b[1], int) for b in bs): return sum(b[1] << 8 * i for i, b in enumerate(bs))
            big = [k for k in ov if k <= off and k + o.cells[k][0] >= off + n]
            if big:
                v = o.cells[big[0]][1]
                if isinstance(v, int): return v >> 8 * (off - big[0]) & (1 << 8 * n) - 1
        v = self.mkval(st, t, n, f'{o.id}.x')
        r = self.grange.get(o.id) if o.ro else None
        if r and r[0] == n and issym(v) and (not issym(off) or self.entails(st, z3.URem(off, n) == 0)): st.pc += [z3.UGE(v, r[1]), z3.ULE(v, r[2])]
        return v
    def mkval(self, st, t, n, hint):
        if t[0] == 'ptr': return ('unknown', hint)
        if t[0] in ('double', 'float'): return ('dbl', hint, next(self.fresh_i))
        if t[0] == 'vec': return UNDEF
        return self.fresh(8 * n if t[1] >= 8 else t[1], hint)
    def overlap(self, o, off, n):
        return [k for k in range(off - 15, off + n) if k in o.cells and k + o.cells[k][0] > off and k < off + n]
    def store(self, st, p, v, n):
        o = self.obj(st, p, 'write')
        self.bounds(st, o, p.off, n, 'write', True)
        if o.kind in self.lay.get('kinds', {}):
            if self.lay['kinds'][o.kind].store(self, st, o, p.off, n, v): return
        if o.kind == 'opaque': raise Viol('opaque objects are accessed by their own functions only', str(p))
        self.put(st, p.o, p.off, n, v)
    def put(self, st, oid, off, n, v):
        o = st.w(oid)
        if not isinstance(off, int):
            self.havoc_bytes(st, oid); return
        for k in self.overlap(o, off, n):
            c = o.cells.pop(k)
            if k < off or k + c[0] > off + n:
                for j in range(k, k + c[0]):
                    if not off <= j < off + n: o.cells[j] = (1, self.fresh(8))
        o.cells[off] = (n, v)
    def havoc_bytes(self, st, oid):
        o = st.w(oid)
        for k, c in o.cells.items():
            if not isinstance(k, int): continue
            if isinstance(c[1], (Ptr, Fn)): raise Unsupported(f'write of unknown position in {oid}, which holds pointers')
        o.cells = {k: c for k, c in o.cells.items() if not isinstance(k, int)}; o.default = 'fresh'; o.ep += 1
    def new(self, st, site, kind='mem', size=0, default='undef', heap=False, ro=False):
        k = 0
        while f'{site}#{k}' in st.objs: k += 1
        o = Obj(f'{site}#{k}', kind, size, default, ro, heap); st.objs[o.id] = o; st.own.add(o.id)
        return Ptr(o.id, 0)
    def free(self, st, p, what='free'):
        if isinstance(p, int) and p == 0: return
        o = self.obj(st, p, what)
        if not o.heap: raise Viol('only heap blocks are freed', f'{p}')
        if not (isinstance(p.off, int) and p.off == 0): raise Viol('only the start of a block is freed', f'{p}')
        self.drop(st, p.o)
    def drop(self, st, oid):
        del st.objs[oid]
        for f in st.frames:
            for k, v in list(f.items()):
                if isinstance(v, Ptr) and v.o == oid: f[k] = DANGLING
        for i, o in list(st.objs.items()):
            for k, (n, v) in list(o.cells.items()):
                if isinstance(v, Ptr) and v.o == oid: st.w(i).cells[k] = (n, DANGLING)
    def live(self, st): return frozenset(i for i, o in st.objs.items() if o.heap)
    # ------------------------------------------------------------ calls
    def cfg(self, fn):
        if fn.name not in self.cfgs: self.cfgs[fn.name] = Graph(fn)
        return self.cfgs[fn.name]
    def call(self, st, name, args, site):
        """list of (value, state)"""
        self.calls.add(name)
        if name in self.con:
            self.used_contracts.add(name)
            return self.con[name](self, st, args, site)
        if name.startswith('llvm.'): return self.intrinsic(st, name, args)
        h = getattr(self, 'x_' + name.replace('.', '_'), None)
        if name in self.fns: return self.run(st, name, args)
        if h: return h(st, args, site)
        raise Unsupported('no contract for ' + name)
    def intrinsic(self, st, name, a):
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias')): return [(None, st)]
        if name.startswith('llvm.memset'): return self.memset(st, a[0], a[1], a[2])
        if name.startswith(('llvm.memcpy', 'llvm.memmove')): return self.memcpy(st, a[0], a[1], a[2])
        if name.startswith('llvm.bswap') or name.startswith('llvm.fshl') or name.startswith('llvm.ctlz') or name.startswith('llvm.umul') :
            return [(self.fresh(int(name.rsplit('i', 1)[1])), st)]
        if name.startswith('llvm.expect'): return [(a[0], st)]
        if name.startswith('llvm.trap'): return []
        if name.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
            w = int(name.rsplit('i', 1)[1]); x, y = self.bv(a[0], w), self.bv(a[1], w)
            c = {'umax': z3.UGE(x, y), 'umin': z3.ULE(x, y), 'smax': x >= y, 'smin': x <= y}[name[5:9]]
            return [(self.simp(z3.If(c, x, y)), st)]
        raise Unsupported(name)
    def memset(self, st, d, v, n):
        if isinstance(n, int) and n == 0: return [(None, st)]
        o = self.obj(st, d, 'memset'); self.bounds(st, o, d.off, n, 'memset', True)
        if o.kind in self.lay.get('kinds', {}) and self.lay['kinds'][o.kind].memset(self, st, o, d.off, v, n): return [(None, st)]
        o = st.w(d.o)
        if isinstance(d.off, int) and d.off == 0 and isinstance(v, int) and (same(n, o.size) or ((issym(n) or issym(o.size)) and self.entails(st, self.bv(n, 64) == self.bv(o.size, 64)))):
            o.cells = {k: c for k, c in o.cells.items() if not isinstance(k, int)}; o.default = 'zero' if v == 0 else 'fresh'
        elif isinstance(d.off, int) and isinstance(n, int):
            if v == 0 and d.off % 8 == 0 and n % 8 == 0 and n <= 4096:
                for k in range(d.off, d.off + n, 8): self.put(st, d.o, k, 8, 0)
            elif n <= 256:
                for k in range(d.off, d.off + n): self.put(st, d.o, k, 1, v)
            else: self.havoc_range(st, d.o, d.off, n)
        else: self.havoc_bytes(st, d.o)
        return [(None, st)]
    def havoc_range(self, st, oid, off, n):
        o = st.w(oid)
        for k in [k for k in o.cells if isinstance(k, int) and k + o.cells[k][0] > off and k < off + n]:
            c = o.cells.pop(k)
            for j in range(k, k + c[0]):
                if not off <= j < off + n: o.cells[j] = (1, self.fresh(8))
        if o.default != 'fresh':
            if n > 4096: raise Unsupported('large partial overwrite')
            for j in range(off, off + n): o.cells[j] = (1, self.fresh(8))
    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0: return [(None, st)]
        if issym(n) and not (isinstance(d, Ptr) and isinstance(s, Ptr)):
            if self.entails(st, n == 0): return [(None, st)]
        o, p = self.obj(st, d, 'memcpy'), self.obj(st, s, 'memcpy')
        self.bounds(st, p, s.off, n, 'memcpy reads'); self.bounds(st, o, d.off, n, 'memcpy writes', True)
        if o.kind in self.lay.get('kinds', {}) and self.lay['kinds'][o.kind].memcpy(self, st, o, d, s, n): return [(None, st)]
        if isinstance(d.off, int) and isinstance(s.off, int) and isinstance(n, int):
            src = {k: c for k, c in st.objs[s.o].cells.items() if isinstance(k, int) and s.off <= k and k + c[0] <= s.off + n}
            df = st.objs[s.o].default
            self.havoc_range(st, d.o, d.off, n)
            if df == 'zero':
                if n <= 4096:
                    for j in range(0, n):
                        self.put(st, d.o, d.off + j, 1, 0)
            for k, c in src.items(): self.put(st, d.o, d.off + k - s.off, c[0], c[1])
        else: self.havoc_bytes(st, d.o)
        return [(None, st)]
    def x_memcmp(self, st, a, site):
        if isinstance(a[2], int) and a[2] == 0: return [(0, st)]
        for p in a[:2]: self.bounds(st, self.obj(st, p, 'memcmp'), p.off, a[2], 'memcmp reads')
        return [(self.fresh(32, 'memcmp'), st)]
    def x_memset(self, st, a, site): return self.memset(st, *a)
    def x_memcpy(self, st, a, site): return self.memcpy(st, *a)
    def x___assert_fail(self, st, a, site):
        self.ob(st, 'no assertion fails', False, site); return []
    def x_abort(self, st, a, site): return self.x___assert_fail(st, a, site)
    def x_malloc(self, st, a, site):
        n = a[0]
        f = st.copy(); f.failed = True
        p = self.new(st, site, 'mem', n, 'undef', True)
        return [(p, st), (0, f)]
    def x_calloc(self, st, a, site):
        r = self.x_malloc(st, [a[0] * a[1]], site)
        p = r[0][0]; st.w(p.o).default = 'zero'
        return r
    def x_free(self, st, a, site):
        if self.on_free and isinstance(a[0], Ptr): self.on_free(self, st, a[0])
        self.free(st, a[0], f'free at {site}'); return [(None, st)]
    # ------------------------------------------------------------ execution
    def run(self, st, name, args):
        m, fn = self.fns[name]; g = self.cfg(fn)
        st.frames.append({pn: v for (_, pn), v in zip(fn.params, args)}); self.seen.append({})
        work = [(st, fn.order[0], None, 0, {})]
        out = []
        depth = len(st.frames); n = 0
        while work:
            s, b, prev, ip, loops = work.pop(); n += 1
            if n > self.maxpaths: raise Unsupported('too many paths in ' + name)
            try: rs = self.block(s, m, fn, g, b, prev, ip, loops)
            except Viol:
                if not self.lazy or self.sat(s) != z3.unsat: raise
                continue
            for r in rs:
                if r[0] == 'ret':
                    _, v, s2 = r
                    assert len(s2.frames) == depth
                    fr = s2.frames.pop()
                    for k, x in fr.items():
                        if isinstance(k, str) and k.startswith('alloca!'):
                            if x in s2.objs: self.drop(s2, x)
                    if isinstance(v, Ptr) and v.o not in s2.objs: v = DANGLING
                    out.append((v, s2))
                else: work.append(r[1:])
        self.seen.pop()
        return out
    def enter(self, st, fn, g, b, prev, loops):
        """phis, and the cut when b is a loop header; returns (state, loops) or None when covered"""
        fr = st.frames[-1]
        ph = [i for i in fn.blocks[b] if i[0] == 'phi']
        if ph:
            m = self.fns[fn.name][0]
            new = {}
            for i in ph:
                for v, l in i[3]:
                    if l == prev: new[i[1]] = self.val(st, m, i[2], v); break
                else: raise Unsupported('phi')
            fr.update(new)
        loops = {h: c for h, c in loops.items() if b in g.loops[h]}
        if b not in g.loops:
            if len(g.pred[b]) > 1:
                live = g.live[b]
                for k in [k for k in fr if k not in live and not k.startswith('alloca!')]: del fr[k]
                sh = (b, tuple(sorted((h, id(c)) for h, c in loops.items())), frozenset((l, key(v)) for l, v in self.locs(st).items()))
                pcs = {x.get_id() for x in st.pc}
                seen = self.seen[-1].setdefault(sh, [])
                if any(x <= pcs for x in seen): return None
                seen.append(pcs); self.keep.append(list(st.pc))
            return st, loops
        if g.loops[b] == {b} and b not in loops:
            r = self.fill(st, fn, g, b)
            if r: return ('fill', r), loops
        live = g.live[b]
        for k in [k for k in fr if k not in live and not k.startswith('alloca!')]: del fr[k]
        return self.cut(st, fn, g, b, loops)
    def fill(self, st, fn, g, b):
        """a single-block loop that stores one constant at consecutive addresses, executed in one step: (state, exit block)"""
        m = self.fns[fn.name][0]; fr = st.frames[-1]
        ins = fn.blocks[b]
        if ins[-1][0] != 'cbr': return None
        step, base, sto, cmp = {}, {}, None, {}
        lin = {}                # name -> (phi, constant) in units of the phi
        for i in ins:
            if i[0] == 'phi': lin[i[1]] = (i[1], 0)
        ext = {}
        for i in ins[:-1]:
            if i[0] == 'phi': continue
            if i[0] == 'bin' and i[2] in ('add', 'sub') and i[4][0] == 'l' and i[4][1] in lin and i[5][0] == 'c':
                p, c = lin[i[4][1]]; lin[i[1]] = (p, c + (i[5][1] if i[2] == 'add' else -i[5][1]))
            elif i[0] == 'gep' and i[3][0] == 'l' and i[3][1] in lin and len(i[4]) == 1 and i[4][0][1][0] == 'c':
                p, c = lin[i[3][1]]; lin[i[1]] = (p, c + i[4][0][1][1] * m.size(i[2]))
            elif i[0] == 'gep' and i[3][0] == 'l' and i[3][1] not in lin and len(i[4]) == 1 and i[4][0][1][0] == 'l' and i[4][0][1][1] in lin and i[4][0][0] == ('i', 64):
                ext[i[1]] = (i[3], lin[i[4][0][1][1]], m.size(i[2]))
            elif i[0] == 'store' and sto is None and i[2][0] in ('c', 'z'): sto = i
            elif i[0] == 'icmp' and not cmp and i[2] in ('eq', 'ne') and i[3][0] == 'i' and i[4][0] == 'l' and i[4][1] in lin: cmp[i[1]] = i
            elif i[0] == 'call' and i[3][1].startswith(('llvm.lifetime', 'llvm.dbg')): pass
            else: return None
        t = ins[-1]
        if sto is None or t[1][0] != 'l' or t[1][1] not in cmp: return None
        ph = {i[1]: i for i in ins if i[0] == 'phi'}
        for n, i in ph.items():
            nx = [v for v, l in i[3] if l == b][0]
            if nx[0] != 'l' or nx[1] not in lin or lin[nx[1]][0] != n: return None
            step[n] = lin[nx[1]][1]
        c = cmp[t[1][1]]; w = c[3][1]
        exit_on_true = t[3] == b
        if (c[2] == 'eq') != exit_on_true: return None
        nxt = t[2] if exit_on_true else t[3]
        p, k = lin[c[4][1]]
        if step[p] not in (1, -1): return None
        bound = self.val(st, m, c[3], c[5])
        x0 = self.binop(st, 'add', c[3], fr[p], k & (1 << w) - 1)
        d = self.binop(st, 'sub', c[3], bound, x0) if step[p] == 1 else self.binop(st, 'sub', c[3], x0, bound)
        # the test of iteration j (from 0) compares x0 + j*step: it exits at j = d, after d + 1 executions of the body
        n = self.binop(st, 'add', c[3], d, 1)
        if isinstance(n, int):
            if n == 0: return None
        elif not self.entails(st, n != 0): return None
        if w < 64: n = self.cast(st, 'zext', c[3], ('i', 64), n)
        sz = m.size(sto[1])
        a = sto[3]
        if a[0] != 'l': return None
        if a[1] in lin and isinstance(fr.get(lin[a[1]][0]), Ptr):
            q, off = lin[a[1]]
            if step[q] != sz: return None
            start = Ptr(fr[q].o, self.add(fr[q].off, off))
        elif a[1] in ext:
            bs, (q, off), es = ext[a[1]]
            if step[q] != 1 or es != sz: return None
            bp = self.val(st, m, ('ptr',), bs)
            if not isinstance(bp, Ptr): return None
            start = Ptr(bp.o, self.add(bp.off, self.binop(st, 'mul', ('i', 64), self.binop(st, 'add', ('i', 64), fr[q], off & (1 << 64) - 1), sz)))
        else: return None
        v = sto[2][1] if sto[2][0] == 'c' else 0
        if sz != 1 and v != 0: return None
        self.memset(st, start, v & 255, n if sz == 1 else self.binop(st, 'mul', ('i', 64), n, sz))
        dd = d if w == 64 or isinstance(d, int) else self.cast(st, 'zext', c[3], ('i', 64), d)
        old = {q: fr[q] for q in ph}
        for nme, (q, off) in lin.items():
            if q not in ph: continue
            o = old[q]; stp = step[q]
            if isinstance(o, Ptr): fr[nme] = Ptr(o.o, self.add(self.add(o.off, off), self.binop(st, 'mul', ('i', 64), dd, stp & (1 << 64) - 1)))
            else:
                tw = g.types[q]
                ddw = dd if tw[1] == 64 else self.cast(st, 'trunc', ('i', 64), tw, dd)
                M = (1 << tw[1]) - 1
                fr[nme] = self.binop(st, 'add', tw, self.binop(st, 'add', tw, o, off & M), self.binop(st, 'mul', tw, ddw, stp & M))
        for nme, (bs, (q, off), es) in ext.items(): fr.pop(nme, None)
        for nme in cmp: fr[nme] = int(exit_on_true)
        self.obs['fill loops summarised'] = self.obs.get('fill loops summarised', 0) + 1
        return st, nxt
    def locs(self, st):
        """all locations of the state: location -> value"""
        d = {}
        for k, v in st.frames[-1].items(): d['e', k] = v
        for i, f in enumerate(st.frames[:-1]):
            for k, v in f.items(): d['f', i, k] = v
        for oid, o in st.objs.items():
            if o.ro: continue
            d['o', oid] = (o.kind, o.default, o.heap)
            if o.kind not in self.lay.get('kinds', {}): d['os', oid] = o.size
            for k, (n, v) in o.cells.items(): d['c', oid, k, n] = v
        for k, v in st.ghost.items(): d['g', k] = v
        d['failed',] = st.failed
        return d
    def setloc(self, st, l, v):
        if l[0] == 'e': st.frames[-1][l[1]] = v
        elif l[0] == 'f': st.frames[l[1]][l[2]] = v
        elif l[0] == 'c':
            o = st.w(l[1]); o.cells[l[2]] = (l[3], v)
            if o.kind == 'bn' and l[2] == 'max': o.size = self.lay['kinds']['bn'].size(v)
        elif l[0] == 'g': st.ghost[l[1]] = v
        elif l[0] == 'os': st.w(l[1]).size = v
        else: raise Unsupported(f'widening {l}')
    def sort(self, st, g, l, v):
        if issym(v): return v.sort()
        if l[0] == 'e':
            t = g.types.get(l[1])
            if t and t[0] == 'i': return z3.BitVecSort(t[1]) if t[1] > 1 else z3.BoolSort()
        if l[0] == 'c' and isinstance(v, int): return z3.BitVecSort(8 * l[3])
        if l[0] == 'os' : return z3.BitVecSort(64)
        raise Unsupported(f'widening {l} holding {v!r}')
    def cut(self, st, fn, g, b, loops):
        hk = (fn.name, b)
        W = self.W.setdefault(hk, {})
        cur = self.locs(st)
        first = b not in loops
        if first:
            c = {'entry': cur, 'pc': list(st.pc), 'shapes': set(), 'vals': {}, 'trace': st.trace}
            loops = dict(loops); loops[b] = c
        c = loops[b]
        # invariants hold on arrival
        for nm, f in self.invs(hk, st, g, c, cur, W):
            if nm[0] == 'mined':
                if nm in self.dropped: continue
                if not self.entails(st, f): self.dropped.add(nm); raise Restart()
                self.obs['mined loop invariants'] = self.obs.get('mined loop invariants', 0) + 1
            else: self.ob(st, f'loop invariant {nm[1]}', f, f'{fn.name} {b}')
        # values that vary and are symbolic get widened
        e = c['entry']; again = False
        for l, v in cur.items():
            if l in W: continue
            if l in e and same_v(e[l], v): continue
            if isinstance(v, Ptr):
                # same objects, other positions: the position is widened
                vs = c['vals'].setdefault(l, set()); vs.add((v.o, key(v.off)))
                if l in e and isinstance(e[l], Ptr): vs.add((e[l].o, key(e[l].off)))
                n = len({x for x in vs if x[0] == v.o})
                if n > (1 if issym(v.off) else self.K): W[l] = 'off'; again = True
                continue
            if issym(v) or (l in e and issym(e[l])):
                if l not in e and l[0] == 'c' and not issym(v): continue
                if l not in e:
                    # a location that appeared in the loop: widened once it holds a second value
                    vs = c['vals'].setdefault(l, set()); vs.add(key(v))
                    if len(vs) > 1: W[l] = self.sort(st, g, l, v); again = True
                    continue
                W[l] = self.sort(st, g, l, v if issym(v) else e[l]); again = True; continue
            vs = c['vals'].setdefault(l, set()); vs.add(key(v))
            if isinstance(v, int) and not isinstance(v, bool) and len(vs) > self.Kloc.get((fn.name, l[1]) if l[0] == 'e' else l, self.K):
                W[l] = self.sort(st, g, l, v); again = True
        if again: raise Restart()
        sh = frozenset((l, key(v)) for l, v in cur.items() if l not in W) | frozenset(('W', l, isoff(W[l]) and (cur[l].o if isinstance(cur[l], Ptr) else key(cur[l]))) for l in W if l in cur)
        if sh in c['shapes']: return None
        c['shapes'].add(sh)
        if len(c['shapes']) > 4000: raise Unsupported(f'{fn.name} {b}: too many shapes')
        s = st
        s.pc = list(c['pc'])
        for l in W:
            if l in cur:
                so = W[l]
                if isoff(so):
                    if isinstance(cur[l], Ptr): self.setloc(s, l, Ptr(cur[l].o, z3.FreshConst(z3.BitVecSort(64), 'off')))
                    continue
                s0 = z3.FreshConst(so, 'w_' + '_'.join(str(x) for x in l[:3]).replace('%', ''))
                self.setloc(s, l, s0)
        now = self.locs(s)
        for nm, f in self.invs(hk, s, g, c, now, W):
            if nm in self.dropped: continue
            if f is not True: s.pc.append(f if issym(f) else z3.BoolVal(bool(f)))
        for k, h in self.lay.get('kinds', {}).items(): h.assume(self, s)
        return s, loops
    def invs(self, hk, st, g, c, cur, W):
        out = []
        if hk in self.inv:
            out += [(('given', n), f) for n, f in self.inv[hk](self, st, c)]
        if self.mine:
            for l in W:
                if l[0] not in ('e', 'c') or l not in cur: continue
                e = c['entry'].get(l)
                so = W[l]
                if isoff(so):
                    if not isinstance(cur[l], Ptr): continue
                    w = 64; so = z3.BitVecSort(64); v = self.bv(cur[l].off, 64)
                    if e is not None: e = e.off if isinstance(e, Ptr) and e.o == cur[l].o else None
                elif so.kind() != z3.Z3_BV_SORT: continue
                else:
                    w = so.size(); v = self.bv(cur[l], w)
                def cand(tag, f):
                    nm = ('mined', hk, l, tag)
                    if nm not in self.dropped: out.append((nm, f))
                if e is not None and (isinstance(e, int) or issym(e)):
                    x = self.bv(e, w)
                    cand('>=s', v >= x); cand('<=s', v <= x); cand('>=u', z3.UGE(v, x)); cand('<=u', z3.ULE(v, x))
                    # steps of a fixed size
                cand('>=0', v >= 0); cand('>0', v > 0); cand('>=-1', v >= -1)
                for l2, v2 in c['entry'].items():
                    if l2 == l or l2 in W or l2[0] not in ('e', 'c', 'os'): continue
                    if isinstance(v2, int) and not isinstance(v2, bool) and l2[0] != 'os' and g.types.get(l2[1], ('i', w))[0] == 'i' and g.types.get(l2[1], ('i', w))[1:] == (w,): x = z3.BitVecVal(v2, w)
                    elif issym(v2) and v2.sort() == so: x = v2
                    else: continue
                    cand(('<=s', l2), v <= x); cand(('<s', l2), v < x)
                for l2 in W:
                    if l2 == l or l2 not in cur or isoff(W[l2]) or W[l2] != so: continue
                    cand(('<=s', l2), v <= self.bv(cur[l2], w))
        return out
    def block(self, st, m, fn, g, b, prev, ip, loops):
        if ip == 0:
            r = self.enter(st, fn, g, b, prev, loops)
            if r is None: return []
            st, loops = r
            if isinstance(st, tuple):
                st, nxt = st[1]
                return [('go', st, nxt, b, 0, loops)]
        ins = fn.blocks[b]
        fr = st.frames[-1]
        for k in range(ip, len(ins)):
            i = ins[k]; op = i[0]
            if op == 'phi': continue
            if op == 'call':
                _, d, rt, callee, args = i
                a = [self.val(st, m, t, v) for t, v in args]
                cn = callee[1]
                if callee[0] == 'l':
                    f = fr[cn]
                    if not isinstance(f, Fn):
                        if isinstance(f, int) and f == 0: raise Viol('no null function is called', fn.name)
                        raise Unsupported(f'call through {f!r} in {fn.name}')
                    cn = f.name
                if cn.startswith('llvm.') and cn.endswith('assume'): continue
                res = self.call(st, cn, a, f'{fn.name}.{d or cn}')
                nxt = []
                for v, s in res:
                    if d: s.frames[-1][d] = v if v is not None else UNDEF
                    nxt.append(('go', s, b, prev, k + 1, loops))
                return nxt
            if op == 'ret':
                return [('ret', self.val(st, m, i[1], i[2]) if i[1] else None, st)]
            if op == 'br': return [('go', st, i[1], b, 0, loops)]
            if op == 'cbr':
                c = self.val(st, m, ('i', 1), i[1])
                if c is UNDEF: raise Viol('no branch depends on an uninitialised value', f'{fn.name} {b}')
                if isinstance(c, int): return [('go', st, i[2] if c else i[3], b, 0, loops)]
                if not z3.is_bool(c): c = c == 1
                if self.lazy:
                    s2 = st.copy(); s2.pc.append(z3.Not(c)); st.pc.append(c)
                    return [('go', s2, i[3], b, 0, loops), ('go', st, i[2], b, 0, loops)]
                t = self.sat(st, c) != z3.unsat; f = self.sat(st, z3.Not(c)) != z3.unsat if t else True
                if t and f:
                    s2 = st.copy(); s2.pc.append(z3.Not(c)); st.pc.append(c)
                    return [('go', s2, i[3], b, 0, loops), ('go', st, i[2], b, 0, loops)]
                return [('go', st, i[2] if t else i[3], b, 0, loops)]
            if op == 'switch':
                v = self.val(st, m, i[1], i[2])
                if isinstance(v, int):
                    for cc, l in i[4]:
                        if cc & ((1 << i[1][1]) - 1) == v: return [('go', st, l, b, 0, loops)]
                    return [('go', st, i[3], b, 0, loops)]
                outs = []; rest = []
                for cc, l in i[4]:
                    s2 = st.copy(); s2.pc.append(v == cc); rest.append(v != cc)
                    if self.sat(s2) != z3.unsat: outs.append(('go', s2, l, b, 0, loops))
                st.pc += rest
                if self.sat(st) != z3.unsat: outs.append(('go', st, i[3], b, 0, loops))
                return outs
            if op == 'unreachable': return []
            self.step(st, m, fn, fr, i)
        raise Unsupported('block without terminator')
    def step(self, st, m, fn, fr, i):
        op = i[0]
        if op == 'bin': fr[i[1]] = self.binop(st, i[2], i[3], self.val(st, m, i[3], i[4]), self.val(st, m, i[3], i[5]))
        elif op == 'icmp': fr[i[1]] = self.icmp(st, i[2], i[3], self.val(st, m, i[3], i[4]), self.val(st, m, i[3], i[5]))
        elif op == 'cast': fr[i[1]] = self.cast(st, i[2], i[3], i[5], self.val(st, m, i[3], i[4]))
        elif op == 'select':
            c = self.val(st, m, ('i', 1), i[2]); a = self.val(st, m, i[3], i[4]); b = self.val(st, m, i[3], i[5])
            if isinstance(c, int): fr[i[1]] = a if c else b
            elif same_v(a, b): fr[i[1]] = a
            elif i[3][0] == 'i':
                w = i[3][1]
                if not z3.is_bool(c): c = c == 1
                if w == 1: fr[i[1]] = self.simp(z3.If(c, self.bool(a), self.bool(b)))
                else: fr[i[1]] = self.simp(z3.If(c, self.bv(a, w), self.bv(b, w)))
            else:
                if not z3.is_bool(c): c = c == 1
                if self.entails(st, c): fr[i[1]] = a
                elif self.entails(st, z3.Not(c)): fr[i[1]] = b
                else: raise Unsupported('select of pointers')
        elif op == 'load':
            t = i[2]
            n = self.fns[fn.name][0].size(t)
            v = self.load(st, self.val(st, m, ('ptr',), i[3]), n, t)
            if t[0] == 'i' and t[1] == 1 and issym(v) and not z3.is_bool(v): v = z3.Extract(0, 0, v) == 1
            fr[i[1]] = v
        elif op == 'store':
            n = self.fns[fn.name][0].size(i[1])
            v = self.val(st, m, i[1], i[2])
            if issym(v) and z3.is_bool(v): v = self.bv(v, 8)
            self.store(st, self.val(st, m, ('ptr',), i[3]), v, n)
        elif op == 'gep': fr[i[1]] = self.gep(st, m, i[2], self.val(st, m, ('ptr',), i[3]), i[4])
        elif op == 'alloca':
            if i[3] is not None and not (i[3][0] == 'c'): raise Unsupported('variable alloca')
            p = self.new(st, f'stack.{fn.name}.{i[1]}', 'mem', m.size(i[2]), 'undef')
            fr[i[1]] = p; fr['alloca!' + i[1]] = p.o
        elif op == 'extractvalue' or op == 'insertvalue': raise Unsupported(op)
        elif op == 'fcmp': fr[i[1]] = z3.FreshConst(z3.BoolSort(), 'fcmp')
        elif op == 'asm': raise Unsupported('inline assembly')
        else: raise Unsupported(op)
    def bool(self, v):
        if isinstance(v, int): return z3.BoolVal(bool(v))
        if v is UNDEF: return z3.FreshConst(z3.BoolSort(), 'undef')
        return v if z3.is_bool(v) else v == 1
    def binop(self, st, op, t, a, b):
        if t[0] in ('double', 'float'): return ('dbl', op, a, b)
        if t[0] == 'vec': return UNDEF
        w = t[1]; M = (1 << w) - 1
        if isinstance(a, Ptr) or isinstance(b, Ptr): raise Unsupported('arithmetic on pointers')
        if w == 1:
            x, y = self.bool(a), self.bool(b)
            r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}.get(op)
            if not r: raise Unsupported('i1 ' + op)
            return self.simp(r(x, y))
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = a - (a >> (w - 1) << w), b - (b >> (w - 1) << w)
            if op == 'add': return a + b & M
            if op == 'sub': return a - b & M
            if op == 'mul': return a * b & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return a << b & M if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (sa >> min(b, w - 1)) & M
            if b == 0: raise Viol('no division by zero', '')
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
            if op == 'sdiv': return q & M
            if op == 'srem': return sa - q * sb & M
        x, y = self.bv(a, w), self.bv(b, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem') and not (isinstance(b, int) and b): self.ob(st, 'no division by zero', y != 0)
        if self.coarse and op in ('udiv', 'urem', 'mul') and not (isinstance(b, int) and b): return self.fresh(w, op)
        f = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
             'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
             'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}.get(op)
        if not f: raise Unsupported(op)
        return self.simp(f())
    def icmp(self, st, pred, t, a, b):
        if t[0] == 'ptr':
            for x in (a, b):
                if x is DANGLING: raise Viol('no freed pointer is compared', '')
                if x is UNDEF: raise Viol('no uninitialised pointer is compared', '')
                if isinstance(x, tuple): return z3.FreshConst(z3.BoolSort(), 'pcmp')
            if pred in ('eq', 'ne'):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and not same(a.off, b.off):
                    e = self.simp(self.bv(a.off, 64) == self.bv(b.off, 64))
                    return (e if pred == 'eq' else self.simp(z3.Not(e))) if issym(e) else int((e == 1) == (pred == 'eq'))
                return int((a == b) == (pred == 'eq')) if type(a) == type(b) else int(pred == 'ne')
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                t = ('i', 64); a, b = a.off, b.off
            else: raise Unsupported('pointer order')
        w = t[1]; M = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            a &= M; b &= M
            sa, sb = a - (a >> (w - 1) << w), b - (b >> (w - 1) << w)
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b, 'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pred])
        if w == 1:
            x, y = self.bool(a), self.bool(b)
            if pred == 'eq': return self.simp(x == y)
            if pred == 'ne': return self.simp(z3.Xor(x, y))
            raise Unsupported('i1 ' + pred)
        if isinstance(a, Ptr) or isinstance(b, Ptr): raise Unsupported('compare pointer and integer')
        if isinstance(a, tuple) or isinstance(b, tuple): return z3.FreshConst(z3.BoolSort(), 'cmp')
        x, y = self.bv(a, w), self.bv(b, w)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
        return self.simp(r)
    def cast(self, st, op, t, t2, a):
        if op in ('bitcast', 'freeze', 'addrspacecast'): return a
        if op == 'ptrtoint' and isinstance(a, Ptr) and t2[1] == 64:
            return self.simp(z3.BitVec('addr.' + a.o, 64) + self.bv(a.off, 64))
        if op in ('inttoptr', 'ptrtoint'): raise Unsupported(op)
        if op in ('sitofp', 'uitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
            if t2[0] == 'i': return self.fresh(t2[1], 'fp')
            return ('dbl', op, a)
        if t[0] == 'vec' or t2[0] == 'vec': return UNDEF
        w, w2 = t[1], t2[1]
        if a is UNDEF: return UNDEF
        if isinstance(a, int):
            if op == 'sext' and a >> (w - 1): a -= 1 << w
            return a & (1 << w2) - 1
        if z3.is_bool(a):
            if op == 'sext': return self.simp(z3.If(a, z3.BitVecVal(-1, w2), z3.BitVecVal(0, w2)))
            return self.simp(z3.If(a, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2)))
        if op == 'zext': return self.simp(z3.ZeroExt(w2 - w, a))
        if op == 'sext': return self.simp(z3.SignExt(w2 - w, a))
        if op == 'trunc':
            if w2 == 1: return self.simp(z3.Extract(0, 0, a) == 1)
            return self.simp(z3.Extract(w2 - 1, 0, a))
        raise Unsupported(op)
    # ------------------------------------------------------------ whole functions
    def verify(self, build, post, restarts=400):
        """build(eng) -> (state, function, args); post(eng, ret, state) checks every outcome.  Returns number of outcomes."""
        for _ in range(restarts):
            self.fresh_i = itertools.count(); self.obs = {}; self.seen = []; self.keep = []
            try:
                st, name, args = build(self)
                res = self.run(st, name, args)
                for v, s in res: post(self, v, s)
                if not res: raise Viol('the function returns', 'no path reaches a return')
                return len(res)
            except Restart: continue
        raise Unsupported('no stable loop invariants')

def isoff(x): return isinstance(x, str)
def same_v(a, b):
    if isinstance(a, Ptr) or isinstance(b, Ptr): return a == b
    if isinstance(a, tuple) and isinstance(b, tuple): return key(a) == key(b)
    return same(a, b)
