"""C32: every function that allocates or releases, verified path by path (every allocation succeeding or failing) against its resource contract:
a failed allocation on the path => failure is returned; failure => nothing stays allocated; success => exactly the result stays allocated."""
import z3, time
from irv import front
from irv.hv import Engine, State, Obj, Ptr, Fn, Viol, Unsupported, UNDEF, DANGLING, issym
from props import hvres
from props.hvres import CON, BN, NODE, op, create, destroy, need

def callgraph(mods):
    calls, taken = {}, set()
    for m in mods.values():
        for n, f in m.funcs.items():
            c = calls.setdefault(n, set())
            for bl in f.blocks.values():
                for i in bl:
                    if i[0] == 'call': c.add(i[3][1] if i[3][0] == 'g' else '<ptr>')
    return calls
def reach(calls, roots):
    r = set(roots); ch = True
    while ch:
        ch = False
        for n, c in calls.items():
            if n not in r and c & r: r.add(n); ch = True
    return r

def frame(name, ret):
    """contract of a function that neither allocates nor releases: it may write the memory its pointer arguments lead to, and returns anything"""
    def con(eng, st, a, site):
        seen = set(); todo = [x.o for x in a if isinstance(x, Ptr)]
        for x in a:
            if x is DANGLING: raise Viol('no freed memory is used', f'{name} at {site}')
        while todo:
            i = todo.pop()
            if i in seen: continue
            seen.add(i)
            if i not in st.objs: raise Viol('no freed memory is used', f'{name} at {site}')
            o = st.objs[i]
            for k, (n, v) in o.cells.items():
                if isinstance(v, Ptr): todo.append(v.o)
            if o.ro: continue
            o = st.w(i)
            if o.kind == 'bn': eng.lay['kinds']['bn'].setlen(eng, st, i); continue
            if o.kind != 'mem': continue
            o.cells = {k: c for k, c in o.cells.items() if isinstance(c[1], Ptr)}
            o.default = 'fresh'
        if ret is None or ret[0] == 'void': return [(None, st)]
        if ret[0] == 'i': return [(eng.fresh(ret[1], name), st)]
        raise Unsupported(f'{name} returns {ret}')
    return con

class Arg:
    def __init__(self, k, **kw): self.k = k; self.kw = kw
KEYF = ['mod', 'pub', 'priv', 'prime1', 'prime2', 'exp1', 'exp2', 'coeff']
MONTF = ['N', 'NB', 'BB', 'tmp', 'mul']

class Res:
    def __init__(self, mods):
        self.mods = mods; self.patterns = {}
        self.lay = hvres.layout()
        self.calls = callgraph(mods)
        self.alloc = reach(self.calls, {'malloc', 'calloc', 'realloc'})
        self.touch = reach(self.calls, {'malloc', 'calloc', 'realloc', 'free'})
        self.fns = {}
        for m in mods.values():
            for n, f in m.funcs.items(): self.fns[n] = (m, f)
    def engine(self, target, inline=(), lite=False, frameall=False):
        k = {'bn': hvres.LBN(self.lay) if lite else BN(self.lay), 'node': NODE(self.lay)}
        con = {}
        for n, c in (dict(self.contracts, **hvres.LITE) if lite else self.contracts).items():
            if n != target and n not in inline and not (hasattr(c, 'local') and (n not in self.fns or len(self.fns[n][1].params) != c.local)): con[n] = c
        for n, (m, f) in self.fns.items():
            if n == target or n in con or n in inline: continue
            if n in self.touch or f.internal and not frameall: continue
            con[n] = frame(n, f.ret)
        con['@progress'] = hvres.c_progress
        for n in ('open', 'read', 'close', 'times', 'sysconf', 'clock_gettime'): con[n] = frame(n, ('i', 64 if n in ('read', 'times', 'sysconf') else 32))
        e = Engine(self.mods, con, dict(self.lay, kinds=k)); e.target = target
        return e
    # argument builders: each returns (value, update)
    def bn(self, eng, st, nm, mx=None):
        if mx is None:
            mx = eng.fresh(32, nm + '.max'); st.pc += [mx >= 2, mx <= 1 << 25]
        return eng.lay['kinds']['bn'].new(eng, st, 'arg.' + nm, mx)
    def handle(self, eng, st, nm, kind, size=64):
        return eng.new(st, 'arg.' + nm, 'h:' + kind, size, 'fresh', True)
    # object invariants: what the verified constructors leave behind on success
    def learn(self, name, st, p):
        o = st.objs[p.o]
        if o.default == 'zero' and isinstance(o.size, int):
            for k in range(0, o.size - 7, 8):
                if not any(c + n > k and c < k + 8 for c, (n, v) in o.cells.items()): st.w(p.o).cells[k] = (8, 0)
            o = st.objs[p.o]
        self.patterns.setdefault(name, set()).add((o.size, tuple(sorted((k, st.objs[v.o].kind if isinstance(v, Ptr) else 0)
            for k, (n, v) in o.cells.items() if isinstance(v, Ptr) or (n == 8 and v == 0 and isinstance(v, int))))))
    def pat(self, name):
        return sorted(self.patterns.get(name, ()), key=repr)
    def make(self, eng, st, nm, p):
        size, cells = p
        r = eng.new(st, 'arg.' + nm, 'mem', size, 'fresh', True)
        for k, kind in cells:
            v = 0 if kind == 0 else self.bn(eng, st, f'{nm}.{k}') if kind == 'bn' else self.handle(eng, st, f'{nm}.{k}', kind[2:]) if kind.startswith('h:') else None
            if v is None: raise Unsupported(f'a result that holds {kind}')
            st.w(r.o).cells[k] = (8, v)
        return r
    def randoms(self): return [(a, d) for a in ('RA_RAND_MD5', 'RA_RAND_SHA512', 'RA_RAND_SHA256', None) for d in ([{'RA_RAND_MD5': 'md5', 'RA_RAND_SHA512': 'sha2', 'RA_RAND_SHA256': 'sha2', None: 'sha1'}[a]])]
    def mkrandom(self, eng, st, a, d):
        l = self.lay
        r = eng.new(st, 'arg.rnd', 'mem', l['rnd'], 'fresh', True)
        if a: v = l[a]
        else:
            v = eng.fresh(32, 'algorithm'); st.pc += [v != l[x] for x in ('RA_RAND_MD5', 'RA_RAND_SHA512', 'RA_RAND_SHA256')]
        st.w(r.o).cells[l['rnd.algorithm']] = (4, v)
        st.w(r.o).cells[l['rnd.alg_ctx']] = (8, self.handle(eng, st, 'dgst', d, l[d]))
        return r

def split(eng, st, c):
    """(states where c, states where not c)"""
    if isinstance(c, bool) or isinstance(c, int): return ([st], []) if c else ([], [st])
    t, f = st.copy(), st.copy(); t.pc.append(c); f.pc.append(z3.Not(c))
    return [s for s in (t,) if eng.sat(s) != z3.unsat], [s for s in (f,) if eng.sat(s) != z3.unsat]
def closure(st, p):
    out, todo = set(), [p]
    while todo:
        p = todo.pop()
        if not isinstance(p, Ptr) or p.o in out or p.o not in st.objs: continue
        out.add(p.o)
        for k, (n, v) in st.objs[p.o].cells.items():
            if isinstance(v, Ptr): todo.append(v)
    return out
def same_live(eng, s, want, what):
    have = set(eng.live(s)); want = set(want)
    leak, lost = have - want, want - have
    if leak or lost:
        eng.ob(s, what, False, (f'still allocated: {sorted(leak)} ' if leak else '') + (f'released: {sorted(lost)}' if lost else ''))
    else: eng.ob(s, what, True)

def verify(R, target, args, kind='op', inline=(), K=None, on_success=None, ret='err', given=None, nobounds=False, words=False, learn=None, lite=False, keepout=False, frameall=False):
    eng = R.engine(target, inline, lite, frameall)
    if K: eng.K = K
    eng.coarse = lite; eng.nobounds = nobounds or words or lite; eng.nowf = words or lite; eng.lazy = words; eng.mine = not (words or lite)
    for k, v in (given or {}).items(): eng.inv[k] = v
    info = {}; found = []
    def build(eng):
        st = State(); vals = []; info.clear(); found.clear()
        for i, a in enumerate(args):
            v = a(eng, st, f'{i}') if callable(a) else a
            vals.append(v)
        info['live'] = eng.live(st); info['vals'] = vals
        return st, target, vals
    def post(eng, r, s):
        live0 = info['live']
        if kind == 'destroy':
            gone = set()
            st0 = info['clo']
            same_live(eng, s, live0 - st0, 'everything the object owns is released')
            return
        if ret == 'void':
            same_live(eng, s, live0, 'nothing stays allocated'); return
        if ret == 'err': ok = (r == 0) if isinstance(r, int) else eng.bv(r, 32) == 0
        elif ret == 'ptr':
            if not (isinstance(r, Ptr) or r == 0): raise Viol('the result is a live object or NULL', str(r))
            ok = isinstance(r, Ptr)
        elif ret == 'nz': ok = (r != 0) if isinstance(r, int) else eng.bv(r, 32) != 0
        good, bad = split(eng, s, ok)
        for x in good:
            if kind != 'op' or ret != 'nz' or True:
                eng.ob(x, 'a failed allocation is reported', not x.failed, 'success reported although an allocation failed')
            if kind == 'create':
                p = r if ret == 'ptr' else eng.load(x, info['vals'][info['out']], 8, ('ptr',))
                if not isinstance(p, Ptr): raise Viol('success hands out an object', str(p))
                o = eng.obj(x, p, 'result')
                c = closure(x, p)
                if not all(x.objs[i].heap for i in c - live0): raise Viol('results do not point into the stack', str(c))
                same_live(eng, x, live0 | c, 'success leaves exactly the result allocated')
                if learn: found.append((x, p))
            else: same_live(eng, x, live0, 'temporaries are released on success')
        for x in bad:
            same_live(eng, x, live0, 'temporaries are released on failure')
            if keepout: eng.ob(x, 'failure leaves the output pointer alone', not any(isinstance(c[1], Ptr) for c in x.objs[info['vals'][info['out']].o].cells.values()))
    def out(eng, st, nm):
        p = eng.new(st, 'arg.out', 'mem', 8, 'fresh'); info['out'] = int(nm); return p
    args = [out if a == 'out' else a for a in args]
    if kind == 'destroy':
        old = args[0]
        def a0(eng, st, nm):
            v = old(eng, st, nm); info['clo'] = {i for i in closure(st, v) if st.objs[i].heap}; return v
        args = [a0] + args[1:]
    n = eng.verify(build, post)
    for x, p in found: R.learn(learn, x, p)
    return eng, n
