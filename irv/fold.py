"""Loop rule for loops whose trip count is a linear expression of symbolic lengths.

For a loop reached with frame/state (F, M) the rule
  1. finds the induction part: registers and memory cells that change by a constant per iteration (affine in k);
  2. executes the body once for an arbitrary iteration k (0 <= k < N) from a state in which every other changed
     register bit / memory byte is an arbitrary placeholder, and checks that the iteration re-establishes the affine
     part and changes nothing else (this is the inductive step: it is repeated until the set of changed cells is stable);
  3. describes the state after n iterations by hash-consed FOLD terms: FOLD(step, s, init, n) is the s-th component of
     the n-fold application of the step function to init.  A specification recurrence written with the same helper
     yields the same term exactly when its step function is the same canonical function.
Values that do not depend on a placeholder are obtained directly from the body run at k = n-1.
Bytes stored at offsets that move with k become segments: reading offset x re-runs the body at the iteration that
wrote x."""
from . import terms as tm
from .terms import T_, Unsupported
from . import sym
from .sym import L, B, Ptr, Fn, Fail, UNDEF, State, lkey

KCAP = 1 << 31

def ldiff(a, b):
    """a - b for int/L values: (d, c)"""
    d = dict(a.d) if isinstance(a, L) else {}
    c = a.c if isinstance(a, L) else a
    if isinstance(b, L):
        for s, k in b.d.items(): d[s] = d.get(s, 0) - k
        c -= b.c
    else: c -= b
    return {k: v for k, v in d.items() if v}, c

def lmul_add(v, kd, kc, delta, w):
    """v + delta * (kd + kc)"""
    d = dict(v.d) if isinstance(v, L) else {}
    c = v.c if isinstance(v, L) else v
    for s, k in kd.items(): d[s] = d.get(s, 0) + delta * k
    d = {s: k for s, k in d.items() if k}
    c += delta * kc
    if not d: return c & ((1 << w) - 1) if w else c
    return L(w or 64, d, c)

def sdelta(a, b, w):
    """constant b - a of int/L values (signed), or None"""
    if isinstance(a, int) and isinstance(b, int):
        x = (b - a) & ((1 << w) - 1)
        return x - (1 << w) if x >> (w - 1) else x
    if isinstance(a, (int, L)) and isinstance(b, (int, L)):
        d, c = ldiff(b, a)
        if d: return None
        x = c & ((1 << w) - 1)
        return x - (1 << w) if x >> (w - 1) else x
    return None

class Affine:
    def __init__(self, v0, delta, w): self.v0, self.delta, self.w = v0, delta, w

DBG = 0
class Loop:
    pass

def ph_bits(init, key, used, dem=None):
    """placeholder bits for a state component with the given initial bits (named by the initial form where that is
    unambiguous, else by the component); used: set shared by the components of one loop"""
    out = []
    for i, f in enumerate(init):
        if dem is not None and f in (0, 1) and (key, i) not in dem: out.append(f)      # constant until shown otherwise
        elif f in (0, 1) or f is None or f in used: out.append(tm.atom(('v', f'$p:{key}', i)))
        else:
            used.add(f)
            out.append(tm.atom(('v', f'$i:{f}', 0)))
    return tuple(out)

def closure(nf, names):
    """placeholder forms reachable from form nf through the step functions; names: placeholder form -> next form"""
    seen = {}
    st = [nf]
    vis = set()
    while st:
        f = st.pop()
        if f in vis: continue
        vis.add(f)
        for p in leafs(f):
            if p in names and p not in seen:
                seen[p] = names[p]
                st.append(names[p])
    return seen

_LF = {}
def leafs(f):
    """set of variable atoms (as forms) a form depends on, through all term constructors"""
    r = _LF.get(f)
    if r is not None: return r
    out = set()
    for a in tm.support(f):
        k = T_.atoms[a]
        if k[0] == 'v': out.add(tm.atom(k)); continue
        ra = _LF.get(('a', a))
        if ra is None:
            if k[0] == 'lut': sub = list(k[1])
            elif k[0] == 'add': sub = [x for w, co in k[1][1] for x in w]
            elif k[0] == 'uf': sub = () if ('u', k[2]) in _LF else _flat(T_.ufs[k[2]][1])
            elif k[0] == 'ult': sub = list(k[1]) + list(k[2])
            elif k[0] == 'eq0': sub = list(k[1])
            elif k[0] == 'sel': sub = list(k[2]) + [x for c in T_.ufs[k[1]][1] for x in c]
            elif k[0] == 'nm': sub = [k[1]]
            elif k[0] == 'lc': sub = []
            else: raise Unsupported('leafs ' + str(k[0]))
            ck = ('u', k[2]) if k[0] == 'uf' else ('l', k[1]) if k[0] == 'lut' else None
            ra = _LF.get(ck) if ck else None
            if ra is None:
                ra = set()
                for x in set(sub):
                    if x not in (0, 1): ra |= leafs(x)
                ra = frozenset(ra)
                if ck: _LF[ck] = ra
            _LF[('a', a)] = ra
        out |= ra
    r = frozenset(out)
    _LF[f] = r
    return r

class ArgForms(tuple): pass

def _flat(a):
    for x in a:
        if isinstance(x, ArgForms): yield from x
        elif isinstance(x, tuple): yield from _flat(x)
        elif isinstance(x, int): yield x

_CL = {}
def reset(): _LF.clear(); _CL.clear()

def fold_value(names, inits, ph, n, w_key=None):
    """the term for component ph (a placeholder form) after n iterations.
    names: placeholder -> next form; inits: placeholder -> initial form; n: int or (d,c) linear"""
    if isinstance(n, int):
        if n == 0: return inits[ph]
    nk = n if isinstance(n, int) else (tuple(sorted(n[0].items())), n[1])
    e = _CL.get(('id', id(names)))
    if e is None or e[0] is not names or e[1] != len(names):
        nm = frozenset(names.items())
        nm = _CL.setdefault(('nm', nm), nm)
        e = _CL[('id', id(names))] = (names, len(names), nm)
    nmk = e[2]
    lf = leafs(names[ph])
    first = _CL.get((nmk, 'L', lf))
    if first is None:
        first = frozenset(p for p in lf if p in names)
        first = _CL[(nmk, 'L', lf)] = _CL.setdefault(('fs', first), first)
    r = _CL.get((nmk, first))
    if r is None:
        r = _CL[(nmk, first)] = closure(names[ph], names)
    it = _CL.get((nmk, first, 'items', ph if ph not in r else None))
    if it is None:
        cl = dict(r); cl[ph] = names[ph]
        items = tuple(sorted(cl.items()))
        # the step is named by its content, so that equal loops get equal symbols
        sk = ('S', items)
        if sk not in _CL: _CL[sk] = len(_CL)
        it = _CL[(nmk, first, 'items', ph if ph not in r else None)] = (items, ('step', _CL[sk]))
    items, step = it
    ck = ('args', step, id(inits))
    ac = _CL.get(ck)
    if ac is None or ac[0] is not inits:
        ac = _CL[ck] = (inits, ArgForms(inits[p] for p, _ in items))
    args = ac[1]
    key = ('FOLD', step, ph_key(ph), str(nk))
    # forms inside the step are parameters of the symbol, not arguments; the initial values are the arguments
    return tm.uf(key, args, 1)[0]

def ph_key(f): return str(f)

class Seg:
    """bytes stored by a folded loop in object o at  base + k*stride + j  (0 <= k < N, j in forms)"""
    def __init__(self, lp, oid, base, stride, js):
        self.lp, self.oid, self.base, self.stride, self.js = lp, oid, base, stride, js   # base: (d, c)
        self.lo, self.hi = min(js), max(js) + 1
    def rel(self, off):
        d = dict(off.d) if isinstance(off, L) else {}
        c = off.c if isinstance(off, L) else off
        for s, k in self.base[0].items(): d[s] = d.get(s, 0) - k
        return {k: v for k, v in d.items() if v}, c - self.base[1]
    def read(self, eng, st, off):
        d, c = self.rel(off)
        s = self.stride
        if all(v % s == 0 for v in d.values()):
            for j in self.js:
                if (c - j) % s == 0:
                    kd = {x: v // s for x, v in d.items()}; kc = (c - j) // s
                    # in range?
                    if in_range(eng, st, kd, kc, self.lp.N):
                        return self.lp.value_at(eng, st, (self.oid, j), kd, kc)
        if self.disjoint(eng, st, off): return None
        raise Unsupported('read of a folded segment at an undecided offset')
    def disjoint(self, eng, st, off):
        d, c = self.rel(off)
        s = self.stride
        # below: off < base + lo (for all k, stride > 0) ; above: off >= base + (N-1)*stride + hi
        Nd, Nc = self.lp.N
        if s > 0:
            if eng.lin_entails(st, d, c - self.lo + 1): return True
            d2 = {k: -v for k, v in d.items()}
            for x, v in Nd.items(): d2[x] = d2.get(x, 0) + s * v
            d2 = {k: v for k, v in d2.items() if v}
            if eng.lin_entails(st, d2, -c + s * (Nc - 1) + self.hi): return True
        else:
            if eng.lin_entails(st, {k: -v for k, v in d.items()}, -c + self.hi): return True
            d2 = dict(d)
            for x, v in Nd.items(): d2[x] = d2.get(x, 0) - s * v
            d2 = {k: v for k, v in d2.items() if v}
            if eng.lin_entails(st, d2, c - s * (Nc - 1) - self.lo + 1): return True
        return False

def in_range(eng, st, kd, kc, N):
    """0 <= k <= N-1"""
    if not eng.lin_entails(st, {x: -v for x, v in kd.items()}, -kc): return False
    d = dict(kd)
    for x, v in N[0].items(): d[x] = d.get(x, 0) - v
    return eng.lin_entails(st, {k: v for k, v in d.items() if v}, kc - N[1] + 1)

class CopySeg:
    """memcpy of symbolic length n: dst[off .. off+n) = src object bytes starting at soff (as they were)"""
    def __init__(self, eng, st, off, n, so, soff):
        self.off, self.n, self.so, self.soff = off, n, so, soff
        self.snap = (st.mem.get(so.id), st.segs.get(so.id)) if so is not None else None
        self.under = {}
        if so is not None: st.own.discard(so.id)
        self.val = None
    def rel(self, off):
        return ldiff(off, self.off)
    def inside(self, eng, st, off):
        d, c = self.rel(off)
        if not eng.lin_entails(st, {k: -v for k, v in d.items()}, -c): return False
        d2 = dict(d)
        nd, nc = (self.n.d, self.n.c) if isinstance(self.n, L) else ({}, self.n)
        for x, v in nd.items(): d2[x] = d2.get(x, 0) - v
        return eng.lin_entails(st, {k: v for k, v in d2.items() if v}, c - nc + 1)
    def disjoint(self, eng, st, off):
        d, c = self.rel(off)
        if eng.lin_entails(st, d, c + 1): return True
        d2 = {k: -v for k, v in d.items()}
        nd, nc = (self.n.d, self.n.c) if isinstance(self.n, L) else ({}, self.n)
        for x, v in nd.items(): d2[x] = d2.get(x, 0) + v
        return eng.lin_entails(st, {k: v for k, v in d2.items() if v}, -c + nc)
    def read(self, eng, st, off):
        if self.inside(eng, st, off):
            if self.so is None: return self.val
            s2 = st.copy()
            if self.snap[0] is not None: s2.mem[self.so.id] = self.snap[0]; s2.own.discard(self.so.id)
            if self.snap[1] is not None: s2.segs[self.so.id] = self.snap[1]
            else: s2.segs.pop(self.so.id, None)
            d, c = self.rel(off)
            o2 = eng.add_off(st, self.soff, eng.mkL(64, d, c) if d else c)
            return eng.read_byte(s2, self.so, o2)
        if self.disjoint(eng, st, off):
            if isinstance(off, int) and off in self.under: return self.under[off]
            return None
        raise Unsupported('read at an undecided offset of a copied range')

def run_body(eng, fn, cfg, header, fr, prev, st, loops, phis):
    """execute from the header (phis given) to the back edge; returns the list of ('stop', header, prev, fr, st)
    and whether the exit was reachable"""
    body = cfg.loops[header]
    exits = set(s for l in body for s in cfg.succ[l] if s not in body)
    f = dict(fr)
    f.update(phis)
    n = 0
    blk = fn.blocks[header]
    while blk[n][0] == 'phi': n += 1
    out = []
    eng.folding.append((id(fn), header))
    try:
        work = [(f, header, prev, n, st, loops)]
        cnt = 0
        while work:
            cnt += 1
            if cnt > 64: raise Unsupported('too many paths in a loop body')
            it = work.pop()
            eng.run_path(fn, cfg, it, work, out, {header} | exits)
    finally:
        eng.folding.pop()
    back = [o for o in out if o[0] == 'stop' and o[1] == header]
    ex = [o for o in out if not (o[0] == 'stop' and o[1] == header)]
    return back, ex

def phi_in(eng, fn, fr, st, label, prev):
    vals = {}
    for ins in fn.blocks[label]:
        if ins[0] != 'phi': break
        for v, l in ins[3]:
            if l == prev: vals[ins[1]] = (eng.val(fr, st, ins[2], v), ins[2]); break
        else: raise Unsupported('phi edge')
    return vals

def byte_L(v):
    """('L', val, i) byte?"""
    return isinstance(v, tuple) and len(v) == 3 and v[0] == 'L'

def changed_cells(eng, s0, s1):
    """keys (oid, key) whose byte differs"""
    out = []
    for oid, c1 in s1.mem.items():
        c0 = s0.mem.get(oid)
        if c0 is c1: continue
        if oid not in s0.mem: continue           # created inside
        for k, v in c1.items():
            if k == '#sym': continue
            a = c0.get(k) if c0 else None
            if a is not None and (a is v or a == v): continue
            if a is None:
                if isinstance(k, int) and not (s0.segs.get(oid)):
                    a = None if eng.objs[oid].default is None else eng.read_byte(s0, eng.objs[oid], k)
                    if a is not None and a == v: continue
            out.append((oid, k))
    return out

class FoldLoop:
    """one summarised loop"""
    def value_at(self, eng, st, key, kd, kc):
        ck = (key, tuple(sorted(kd.items())), kc)
        r = self.cache.get(ck)
        if r is not None: return r
        fr, s2 = self.run_at(eng, kd, kc, st.rng, st.lin)
        oid, j = key
        off = dict(self.base[key][0]); c = self.base[key][1]
        for x, v in kd.items(): off[x] = off.get(x, 0) + self.stride[key] * v
        c += self.stride[key] * kc
        off = {k: v for k, v in off.items() if v}
        o = eng.objs[oid]
        kk = c if not off else lkey(L(64, off, c))
        v = s2.mem[oid].get(kk)
        if v is None: raise Unsupported('segment value')
        self.cache[ck] = v
        return v
    def state_at(self, eng, st, kd, kc, kname=None):
        """(phis, state) at the start of iteration k; state components are FOLD terms (or placeholders if kname)"""
        s = self.st0.copy()
        s.rng = dict(st.rng); s.lin = st.lin; s.pc = st.pc
        phis = {}
        n = (kd, kc) if kd else kc
        for p, a in self.aff.items():
            v0, dl, w, kind = a
            if kind == 'ptr': phis[p] = Ptr(v0.o, norm_off(lmul_add(v0.off, kd, kc, dl, 0)))
            else: phis[p] = lmul_add(v0, kd, kc, dl, w)
        for p, (bits, w) in self.sphi.items():
            if kname is not None: phis[p] = B(bits)
            else: phis[p] = eng.norm(tuple(self.comp_at(eng, b, n) for b in bits))
        for p, v in self.cphi.items(): phis[p] = v
        for key, (v0, dl, nb) in self.affcell.items():
            oid, off = key
            v = lmul_add(v0, kd, kc, dl, v0.w if isinstance(v0, L) else nb * 8)
            for i, x in enumerate(eng.split(v, nb, nb * 8)): s.wcells(oid)[off + i] = x
        for oid, ph in self.sarr.items():
            lo_, n_, f_ = s.arr[oid]
            s.arr[oid] = (lo_, n_, ph if kname is not None else self.comp_at(eng, ph, n))
        for key, bits in self.scell.items():
            oid, off = key
            b = bits if kname is not None else tuple(self.comp_at(eng, x, n) for x in bits)
            c = tm.as_const(b)
            s.wcells(oid)[off] = b if c is None else c
        return phis, s
    def comp_at(self, eng, ph, n):
        if ph in (0, 1): return ph
        if isinstance(n, int) and n == 0: return self.inits[ph]
        if isinstance(n, int) and n < 0: raise Unsupported('fold index')
        return fold_value(self.names, self.inits, ph, n)
    def run_at(self, eng, kd, kc, rng, lin):
        tmp = State(); tmp.rng = rng; tmp.lin = lin; tmp.pc = self.st0.pc
        phis, s = self.state_at(eng, tmp, kd, kc)
        back, ex = run_body(eng, self.fn, self.cfg, self.header, self.fr0, self.prev0, s, self.loops, phis)
        if len(back) != 1 or ex: raise Unsupported('loop body has several outcomes at a generic iteration')
        return back[0][3], back[0][4]

def norm_off(x):
    return x

def fold_hook(eng, fn, cfg, lp, loops):
    header, fr0, prev0, st0 = lp
    if st0 is None or (id(fn), header) in eng.folding: return None
    if prev0 is None: return None
    st0 = st0.copy()
    outer = tuple(x for x in loops if x[0] != header and header in cfg.loops[x[0]])
    lstack = outer + ((header, fr0, prev0, None),)
    try:
        return _fold(eng, fn, cfg, header, dict(fr0), prev0, st0, lstack)
    except Fail as e:
        raise

def _fold(eng, fn, cfg, header, fr0, prev0, st0, lstack):
    phi0 = phi_in(eng, fn, fr0, st0, header, prev0)
    # 1. one concrete iteration
    s = st0.copy()
    back, ex = run_body(eng, fn, cfg, header, fr0, prev0, s, lstack, {p: v for p, (v, t) in phi0.items()})
    if not back: return None
    if len(back) != 1: raise Unsupported('loop body with several paths')
    _, _, pb, fb, sb, _ = back[0]
    phi1 = phi_in(eng, fn, fb, sb, header, pb)
    lpo = FoldLoop()
    lpo.fn, lpo.cfg, lpo.header, lpo.fr0, lpo.prev0, lpo.loops = fn, cfg, header, fr0, prev0, lstack
    lpo.cache = {}
    lpo.aff, lpo.sphi, lpo.cphi, lpo.affcell, lpo.scell, lpo.sarr = {}, {}, {}, {}, {}, {}
    lpo.st0 = st0
    init_phi = {}
    used = set()
    dem = set()
    def demote_phi(p, v0, t):
        if t[0] != 'i': raise Unsupported('pointer register without constant stride')
        b0 = eng.bits(v0, t[1])
        ph = ph_bits(b0, 'phi:' + p, used, dem)
        lpo.sphi[p] = (ph, t[1]); init_phi[p] = b0
    for p, (v0, t) in phi0.items():
        v1 = phi1[p][0]
        if isinstance(v0, Ptr):
            if not isinstance(v1, Ptr) or v1.o is not v0.o or v0.tab is not None or v1.tab is not None: raise Unsupported('pointer register')
            d, c = ldiff(v1.off, v0.off)
            if d: raise Unsupported('pointer register stride')
            lpo.aff[p] = (v0, c, 64, 'ptr')
        elif isinstance(v0, (Fn,)) or v0 is UNDEF:
            if v1 is not v0 and v1 != v0 and v0 is not UNDEF: raise Unsupported('function register')
            if v0 is UNDEF: lpo.cphi[p] = UNDEF
            else: lpo.cphi[p] = v0
        elif t[0] == 'ptr':
            if v0 == v1: lpo.cphi[p] = v0
            else: raise Unsupported('null pointer register')
        else:
            dl = sdelta(v0, v1, t[1])
            if dl is None: demote_phi(p, v0, t)
            else: lpo.aff[p] = (v0, dl, t[1], 'int')
    # written memory
    moving = {}
    def classify_cells(s0, s1, fresh):
        for oid, k in changed_cells(eng, s0, s1):
            o = eng.objs[oid]
            if o.kind == 'stack' and False: continue
            if not isinstance(k, int):
                continue
            fresh.append((oid, k))
    # loop over fixpoint
    def arrs(s0, s1):
        for oid, a in s1.arr.items():
            if s0.arr.get(oid) != a:
                if oid not in s0.arr:
                    if oid in s0.mem: raise Unsupported('array access begins inside a loop')
                    continue
                if oid not in lpo.sarr: lpo.sarr[oid] = tm.atom(('v', f'$a:{eng.objs[oid].name}', 0)); yield oid
    list(arrs(st0, sb))
    kname = f'k{len(eng.folding)}'
    while kname in st0.rng: kname += "'"
    eng.symw.setdefault(kname, 32)
    cells = []
    classify_cells(st0, sb, cells)
    # affine counters in memory (L- or int-valued words): detected through aligned 4/8 byte groups
    done = set()
    for oid, k in sorted(cells):
        if (oid, k) in done: continue
        a = st0.mem.get(oid, {}).get(k); b = sb.mem[oid][k]
        if byte_L(b) and b[2] == 0:
            nb = b[1].w // 8
            v1 = b[1]
            try: v0 = eng.load(st0.copy(), Ptr(eng.objs[oid], k), nb, nb * 8)
            except Fail: v0 = None
            dl = sdelta(v0, v1, nb * 8) if isinstance(v0, (int, L)) else None
            if dl is not None:
                lpo.affcell[(oid, k)] = (v0, dl, nb)
                for i in range(nb): done.add((oid, k + i))
    if any((oid, k) not in done for oid, k in cells):
        # cells that only the first iteration writes belong to moving stores: look at a generic iteration
        try:
            s = st0.copy(); s.rng[kname] = (0, 1)
            phis, s2 = lpo.state_at(eng, s, {kname: 1}, 0, kname)
            ref = s2.copy()
            back, ex = run_body(eng, fn, cfg, header, fr0, prev0, s2, lstack, phis)
            if len(back) >= 1:
                ch = set()
                mv = set()
                for b in back:
                    for x in changed_cells(eng, ref, b[4]):
                        ch.add(x)
                        if not isinstance(x[1], int): mv.add(x[0])
                cells = [x for x in cells if x in ch or x[0] not in mv]
        except (Unsupported, Fail): pass
    N = None
    for rnd in range(12):
        # placeholders for changed cells
        for oid, k in cells:
            if (oid, k) in done or (oid, k) in lpo.scell: continue
            o = eng.objs[oid]
            a = st0.mem.get(oid, {}).get(k)
            if a is None and o.default is None and not st0.segs.get(oid): b0 = None
            else:
                a = eng.read_byte(st0, o, k)
                if isinstance(a, tuple) and len(a) == 3 and a[0] == 'p': raise Unsupported('pointer cell changes in a loop')
                b0 = eng.byte_bits(a)
            ph = ph_bits(b0 if b0 is not None else (None,) * 8, f'{o.name}+{k}', used, dem)
            lpo.scell[(oid, k)] = ph
        if N is None:
            # condition as a function of k
            s = st0.copy()
            s.rng[kname] = (0, 1)
            eng.lc_trace = []; eng.lc_k = kname
            phis, s2 = lpo.state_at(eng, s, {kname: 1}, 0, kname)
            try: back, ex = run_body(eng, fn, cfg, header, fr0, prev0, s2, lstack, phis)
            finally: tr, eng.lc_trace = eng.lc_trace, None
            N = trip_count(eng, st0, tr, kname, cfg.loops[header], cfg)
            if N is None: return None
        # generic iteration
        s = st0.copy()
        lo, hi = eng.bounds(s, N[0], N[1])
        if hi < 1: return None
        # N >= 1 and k <= N-1
        if not add_ge(eng, s, N, 1): return None
        s.rng[kname] = (0, max(hi - 1, 0))
        d = dict(N[0]); d = {x: -v for x, v in d.items()}; d[kname] = 1
        if not eng.add_lin(s, tuple(sorted(d.items())), 1 - N[1], 'le'): return None
        phis, s2 = lpo.state_at(eng, s, {kname: 1}, 0, kname)
        sg = s2.copy()
        for oid in list(s2.mem): sg.cells(oid)
        # keep an untouched copy to compare with
        ref = s2.copy()
        back, ex = run_body(eng, fn, cfg, header, fr0, prev0, s2, lstack, phis)
        if len(back) != 1 or ex: raise Unsupported('loop body has several outcomes at a generic iteration')
        _, _, pb, fb, sb, _ = back[0]
        phin = phi_in(eng, fn, fb, sb, header, pb)
        again = False
        for p, (v0, dl, w, kind) in list(lpo.aff.items()):
            vn = phin[p][0]; vc = phis[p]
            if kind == 'ptr':
                if not isinstance(vn, Ptr) or vn.o is not vc.o or vn.tab is not None: raise Unsupported('pointer register')
                dd, cc = ldiff(vn.off, vc.off)
                if dd or cc != dl: raise Unsupported('pointer stride changes')
            else:
                x = sdelta(vc, vn, w)
                if x != dl:
                    del lpo.aff[p]; demote_phi(p, phi0[p][0], phi0[p][1]); again = True
        for p, v in lpo.cphi.items():
            vn = phin[p][0]
            if v is not UNDEF and vn is not v and vn != v: raise Unsupported('register changes')
            if v is UNDEF and vn is not UNDEF:
                # undefined at entry: becomes state
                pass
        for (oid, off), (v0, dl, nb) in list(lpo.affcell.items()):
            vn = eng.load(sb, Ptr(eng.objs[oid], off), nb, nb * 8)
            vc = eng.load(ref, Ptr(eng.objs[oid], off), nb, nb * 8)
            x = sdelta(vc, vn, nb * 8) if isinstance(vn, (int, L)) and isinstance(vc, (int, L)) else None
            if x != dl:
                raise Unsupported('memory counter is not affine')
        new = []
        moving = {}
        for oid, k in changed_cells(eng, ref, sb):
            if isinstance(k, int):
                if (oid, k) not in done and (oid, k) not in lpo.scell: new.append((oid, k))
            else: moving[(oid, k)] = sb.mem[oid][k]
        if list(arrs(ref, sb)) : again = True
        def redo(ph, key, nb):
            """drop constant bits that the body does not preserve"""
            bad = [i for i, f in enumerate(ph) if f in (0, 1) and nb[i] != f]
            if not bad: return ph
            if DBG: print('redo', key, bad, [nb[i] for i in bad])
            for i in bad: dem.add((key, i))
            return tuple(tm.atom(('v', f'$p:{key}', i)) if i in bad else f for i, f in enumerate(ph))
        for p, (ph, w) in list(lpo.sphi.items()):
            if p in phis and any(f in (0, 1) for f in ph):
                p2 = redo(ph, 'phi:' + p, eng.bits(phin[p][0], w))
                if p2 != ph: lpo.sphi[p] = (p2, w); again = True
        for (oid, k), ph in list(lpo.scell.items()):
            if any(f in (0, 1) for f in ph):
                p2 = redo(ph, f'{eng.objs[oid].name}+{k}', eng.byte_bits(sb.mem[oid][k]))
                if p2 != ph: lpo.scell[(oid, k)] = p2; again = True
        if new:
            cells = cells + new; again = True
        if not again: break
    else:
        raise Unsupported('no stable loop summary')
    eng.ob('loop-invariant')
    lpo.N = N
    # next-state functions
    names, inits = {}, {}
    for p, (ph, w) in lpo.sphi.items():
        nb = eng.bits(phin[p][0], w)
        for i, f in enumerate(ph):
            if f not in (0, 1): names[f] = nb[i]; inits[f] = init_phi[p][i]
    for (oid, off), ph in lpo.scell.items():
        o = eng.objs[oid]
        nb = eng.byte_bits(sb.mem[oid][off])
        a = st0.mem.get(oid, {}).get(off)
        if a is None and o.default is None and not st0.segs.get(oid): b0 = tm_undef(o, off)
        else: b0 = eng.byte_bits(eng.read_byte(st0, o, off))
        for i, f in enumerate(ph):
            if f not in (0, 1): names[f] = nb[i]; inits[f] = b0[i]
    for oid, ph in lpo.sarr.items(): names[ph] = sb.arr[oid][2]; inits[ph] = st0.arr[oid][2]
    for h in getattr(eng, 'fold_spec', ()): h(eng, lpo, names, inits)
    lpo.names, lpo.inits = names, inits
    # moving stores
    lpo.base, lpo.stride = {}, {}
    segs = {}
    for (oid, k), v in moving.items():
        d = dict(k[0]); c = k[1]
        stride = d.pop(kname, 0)
        if stride == 0: raise Unsupported('store at a symbolic offset that does not move with the loop')
        segs.setdefault((oid, tuple(sorted(d.items())), stride), []).append(c)
    newsegs = []
    for (oid, d, stride), cs in segs.items():
        c0 = min(cs)
        if max(cs) - c0 >= abs(stride): raise Unsupported('overlapping stores of consecutive iterations')
        for c in cs:
            lpo.base[(oid, c - c0)] = (dict(d), c)
            lpo.stride[(oid, c - c0)] = stride
        sgm = Seg(lpo, oid, (dict(d), c0), stride, sorted(c - c0 for c in cs))
        newsegs.append((oid, sgm))
    # after the loop: with N >= 1; k = N
    items = []
    s1 = st0.copy()
    lo, hi = eng.bounds(s1, N[0], N[1])
    okz = True
    if lo < 1:
        s0 = st0.copy()
        # N <= 0
        if eng.add_lin(s0, tuple(sorted(N[0].items())), N[1], 'le') if N[0] else N[1] <= 0:
            f = dict(fr0)
            for p, (v, t) in phi0.items(): f[p] = v
            n = nphis(fn, header)
            items.append((f, header, prev0, n, s0, lstack))
        if not add_ge(eng, s1, N, 1): return items
    # values at N: run the body at N-1
    tmp = s1.copy()
    for oid, sgm in newsegs: tmp.segs.pop(oid, None)
    phis, sN = lpo.state_at(eng, s1, dict(N[0]), N[1] - 1)
    sN.rng = dict(s1.rng); sN.lin = s1.lin
    back, ex = run_body(eng, fn, cfg, header, fr0, prev0, sN, lstack, phis)
    if len(back) != 1 or ex: raise Unsupported('loop body has several outcomes at the last iteration')
    _, _, pb, fb, sb, _ = back[0]
    phiN = phi_in(eng, fn, fb, sb, header, pb)
    nphi, st = lpo.state_at(eng, s1, dict(N[0]), N[1])
    n = (dict(N[0]), N[1]) if N[0] else N[1]
    for p, (ph, w) in lpo.sphi.items():
        nb = eng.bits(phiN[p][0], w)
        nphi[p] = eng.norm(tuple(f if f in (0, 1) else nb[i] if not dep(names[f], names) else lpo.comp_at(eng, f, n) for i, f in enumerate(ph)))
    for (oid, off), ph in lpo.scell.items():
        nb = eng.byte_bits(sb.mem[oid][off])
        b = tuple(f if f in (0, 1) else nb[i] if not dep(names[f], names) else lpo.comp_at(eng, f, n) for i, f in enumerate(ph))
        c = tm.as_const(b)
        st.wcells(oid)[off] = b if c is None else c
    for oid, ph in lpo.sarr.items():
        lo_, n_, f_ = st.arr[oid]
        f_ = names[ph]
        st.arr[oid] = (lo_, n_, sb.arr[oid][2] if not dep(f_, names) else lpo.comp_at(eng, ph, n))
    for p, v in lpo.cphi.items():
        if v is UNDEF: nphi[p] = phiN[p][0]
    st.rng = dict(s1.rng); st.lin = s1.lin
    for oid, sgm in newsegs:
        o = eng.objs[oid]
        # earlier writes at symbolic offsets / segments must not overlap: reads consult the newest first
        st.segs[oid] = tuple(st.segs.get(oid, ())) + (sgm,)
        cells_ = st.mem.get(oid)
        if cells_:
            chk_overlap(eng, st, o, cells_, sgm)
    f = dict(fr0); f.update(nphi)
    items.append((f, header, prev0, nphis(fn, header), st, lstack))
    return items

def chk_overlap(eng, st, o, cells, sgm):
    for k in cells:
        if k == '#sym': continue
        off = k if isinstance(k, int) else L(64, dict(k[0]), k[1])
        if not sgm.disjoint(eng, st, off): raise Unsupported('a folded store may overwrite an earlier cell')

def nphis(fn, header):
    n = 0
    while fn.blocks[header][n][0] == 'phi': n += 1
    return n

def dep(f, names):
    return any(p in names for p in leafs(f))

def tm_undef(o, off): return sym.undef_bits(8)

def add_ge(eng, st, N, v):
    """assume N >= v"""
    if not N[0]: return N[1] >= v
    d = {x: -k for x, k in N[0].items()}
    return eng.add_lin(st, tuple(sorted(d.items())), v - N[1], 'le')

def trip_count(eng, st, trace, kname, body, cfg):
    """trace: list of (label, succ true, succ false, d, c, op) of linear conditions evaluated in the loop; the exit
    condition is the one with a successor outside"""
    cand = None
    for (label, lt, lf, d, c, op, neg) in trace:
        if label not in body or (lt in body) == (lf in body): continue
        stay = 1 if lt in body else 0        # condition value that stays
        if neg: stay = 1 - stay
        kk = d.get(kname, 0)
        if kk == 0: continue
        if cand is not None and cand != (tuple(sorted(d.items())), c, op, stay): return None
        cand = (tuple(sorted(d.items())), c, op, stay)
    if cand is None: return None
    d, c, op, stay = dict(cand[0]), cand[1], cand[2], cand[3]
    kk = d.pop(kname)
    if op == 'le':
        if not stay:
            # stays while d + c + kk*k >= 1   <=>  -d - c - kk*k + 1 <= 0
            d = {x: -v for x, v in d.items()}; c = -c + 1; kk = -kk
        # stays while d + c + kk*k <= 0
        if kk <= 0: return None
        # N = floor(-(d+c)/kk) + 1
        nd = {x: -v for x, v in d.items()}; nc = -c
        return floordiv(eng, st, nd, nc, kk, 1)
    if op == 'eq' and not stay:
        # leaves when d + c + kk*k == 0
        nd = {x: -v for x, v in d.items()}; nc = -c
        if kk < 0: nd = {x: -v for x, v in nd.items()}; nc = -nc; kk = -kk
        if nc % kk or any(v % kk for v in nd.values()): return None
        return {x: v // kk for x, v in nd.items()}, nc // kk
    return None

def floordiv(eng, st, d, c, k, add):
    div = {x: v for x, v in d.items() if v % k == 0}
    rest = {x: v for x, v in d.items() if v % k}
    cq = c // k
    cr = c - cq * k
    lo, hi = eng.bounds(st, rest, cr)
    q0, q1 = lo // k, hi // k
    if q0 != q1: return None
    return {x: v // k for x, v in div.items()}, cq + q0 + add
