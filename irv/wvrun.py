"""Contracts of big-number functions: symbolic and concrete set-ups, verification driver for irv.wv."""
import random, sys, threading, time
from . import wv, wvmine
from .wv import P, V, A, N, Ptr, Obj, Base, NULL, W64

MAXLEN = 1 << 25

def edge(rng):
    k = rng.randrange(10)
    if k < 2: return 0
    if k < 4: return W64 - 1
    if k == 4: return 1
    if k == 5: return 1 << rng.randrange(64)
    if k == 6: return (W64 - 1) ^ ((1 << rng.randrange(64)) - 1)
    return rng.randrange(W64)
def rwords(rng, n, top=True):
    st = rng.randrange(6)
    if st >= 4:
        # long carries and borrows
        x = W64 - 1 if st == 4 else 0
        w = [x if rng.randrange(6) else edge(rng) for _ in range(n)]
    else: w = [edge(rng) if st else (0 if rng.randrange(3) else rng.randrange(W64)) for _ in range(n)]
    if top and n > 1:
        while w[-1] == 0: w[-1] = edge(rng)
    return w

class Spec:
    """params: list of (kind, name): bn, u64, i64, u32, i32, outw (pointer to one word or NULL), bytes(name, length param)
    alias: {param: param}"""
    def __init__(self, fname, params, post, alias=None, pre=None, sample=None, writes=('r',), assume=None, hints=None, null=(), externs=None, contracts=(), maxlen=5):
        self.fname, self.params, self.post, self.alias = fname, params, post, alias or {}
        self.pre, self.sample, self.writes, self.assume, self.hints = pre, sample, set(writes), assume, hints or {}
        self.null = set(null); self.externs = externs or {}; self.contracts = contracts; self.maxlen = maxlen

class Ctx0:
    pass

def mkbn(eng, st, nm, writable, lay):
    L, M, s = nm + '.len', nm + '.max', nm + '.sign'
    eng.bounds_hint[L] = (1, MAXLEN); eng.bounds_hint[M] = (2, MAXLEN); eng.bounds_hint[s] = (0, 1)
    st.objs[nm] = Obj(nm, None, None, writable)
    d = nm + '.d'
    st.objs[d] = Obj(d, 8, V(M), writable)
    st.cells[(nm, lay['length'])] = N(32, V(L), 's'); st.cells[(nm, lay['max_length'])] = N(32, V(M), 's')
    st.cells[(nm, lay['sign'])] = N(32, V(s), 's'); st.cells[(nm, lay['data'])] = Ptr(d, 0)
    st.arr[d] = st.ent[d] = Base(d)
    eng.add_pc(st, V(M) - V(L))

def initial(eng, spec, lay):
    """initial states: operands with one word or several are separate cases, so that normalisation is a linear fact"""
    st = wv.St()
    args = []
    bns = []
    for kind, nm in spec.params:
        tgt = spec.alias.get(nm, nm)
        if kind == 'bn':
            if tgt == nm:
                wr = any(spec.alias.get(x, x) == nm for x in spec.writes)
                mkbn(eng, st, nm, wr, lay); bns.append(nm)
            args.append(Ptr(tgt, 0))
        elif kind in ('u64', 'i64', 'u32', 'i32'):
            w = int(kind[1:])
            if kind[0] == 'u': eng.bounds_hint[nm] = (0, (1 << w) - 1); args.append(N(w, V(nm), 'u'))
            else: eng.bounds_hint[nm] = (-(1 << (w - 1)), (1 << (w - 1)) - 1); args.append(N(w, V(nm), 's'))
            st.extra[nm] = V(nm)
        elif kind == 'h32':
            # a bit count: 64 * words + bits
            eng.bounds_hint[nm + '.w'] = (0, (1 << 26) - 1); eng.bounds_hint[nm + '.b'] = (0, 63)
            x = V(nm + '.w') * 64 + V(nm + '.b')
            args.append(N(32, x, 'u')); st.extra[nm] = x; st.extra[nm + '.w'] = V(nm + '.w'); st.extra[nm + '.b'] = V(nm + '.b')
        elif kind == 'outw':
            if nm in spec.null: args.append(NULL)
            else:
                st.objs[nm] = Obj(nm, None, None); st.cells[(nm, 0)] = N(64, V(nm + '.old')); args.append(Ptr(nm, 0))
                eng.bounds_hint[nm + '.old'] = (0, W64 - 1)
        elif kind == 'null': args.append(NULL)
        elif kind == 'opq':
            st.objs[nm] = Obj(nm, None, None, False); args.append(Ptr(nm, 0))
        elif kind.startswith('bytes'):
            ln = kind.split(':')[1]
            if nm in spec.null: args.append(NULL)
            else:
                st.objs[nm] = Obj(nm, 1, V(ln), nm in spec.writes)
                st.arr[nm] = st.ent[nm] = Base('bytes:' + nm)
                args.append(Ptr(nm, 0))
        else: raise ValueError(kind)
    for nm in bns:
        st.extra[nm + '.len'] = V(nm + '.len'); st.extra[nm + '.max'] = V(nm + '.max'); st.extra[nm + '.sign'] = V(nm + '.sign')
    for x, y in spec.alias.items():
        for f in ('.len', '.max', '.sign'): st.extra[x + f] = st.extra[y + f]
        st.extra[x + '.al'] = y
    st.extra['#args'] = tuple(args)
    sts = [st]
    # signed machine integers: one case per sign
    for kind, nm in spec.params:
        if kind not in ('i64', 'i32'): continue
        w = int(kind[1:])
        eng.bounds_hint[nm + '+'] = (0, (1 << (w - 1)) - 1); eng.bounds_hint[nm + '-'] = (1, 1 << (w - 1))
        out = []
        for s in sts:
            a, b = s.copy(), s.copy()
            eng.substitute(a, ('v', nm), V(nm + '+')); eng.substitute(b, ('v', nm), -V(nm + '-'))
            out += [a, b]
        sts = out
    for nm in bns:
        out = []
        for s in sts:
            if nm in getattr(spec, 'nosplit', ()): out.append(s); continue
            # one word
            a = s.copy()
            eng.substitute(a, ('v', nm + '.len'), P(1))
            out.append(a)
            b = s.copy()
            eng.add_pc(b, V(nm + '.len') - 2)
            eng.add_pc(b, eng.read(b, b.arr[nm + '.d'], V(nm + '.len') - 1) - 1)
            # consequence of the line above
            eng.add_pc(b, eng.S(b, b.arr[nm + '.d'], V(nm + '.len')) - eng.pow2(b, (V(nm + '.len') - 1) * 64))
            out.append(b)
        sts = out
    res = []
    for s in sts:
        if spec.assume:
            for x in spec.assume(eng, s): res.append(x)
        else: res.append(s)
    return res, args

def concrete(spec, ci, rng, lay):
    """one concrete call state"""
    args = []
    bound = {}
    vals = spec.sample(rng) if spec.sample else {}
    lens = {}
    for kind, nm in spec.params:
        tgt = spec.alias.get(nm, nm)
        if kind == 'bn':
            if tgt == nm:
                v = vals.get(nm)
                n = rng.randrange(1, spec.maxlen + 1) if v is None else len(v)
                w = rwords(rng, n) if v is None else list(v)
                mx = vals.get(nm + '.max', max(2, n + rng.choice([0, 1, 2, 3, 6, 7])))
                data = w + [rng.randrange(W64) for _ in range(mx - n)]
                ci.cells[(nm, lay['length'])] = n; ci.cells[(nm, lay['max_length'])] = mx
                ci.cells[(nm, lay['sign'])] = vals.get(nm + '.sign', rng.randrange(2)); ci.cells[(nm, lay['data'])] = ('p', nm + '.d', 0)
                ci.add_arr(nm + '.d', 8, data)
            args.append(('p', tgt, 0))
        elif kind == 'h32':
            x = vals.get(nm, 64 * rng.randrange(0, 6) + (rng.randrange(1, 64) if rng.randrange(3) else 0))
            args.append(x)
        elif kind[1:] in ('64', '32'):
            w = int(kind[1:])
            x = vals.get(nm, edge(rng) & ((1 << w) - 1)); args.append(x & ((1 << w) - 1))
            lens[nm] = x
        elif kind == 'outw':
            if nm in spec.null: args.append(('p', None, 0))
            else: ci.cells[(nm, 0)] = 0; args.append(('p', nm, 0))
        elif kind == 'null': args.append(('p', None, 0))
        elif kind == 'opq': args.append(('p', nm, 0))
        elif kind.startswith('bytes'):
            if nm in spec.null: args.append(('p', None, 0))
            else:
                ci.add_arr(nm, 1, vals[nm]); args.append(('p', nm, 0))
    return args

class Result:
    def __init__(self): self.ok = False; self.msg = ''; self.obs = {}; self.qn = 0; self.qt = 0.0; self.rounds = 0; self.paths = 0; self.used = set()

def verify(mod, spec, lay, contracts=None, samples=500, debug=0, budget=300, externs=None):
    res = Result()
    t0 = time.time()
    eng = wv.Engine(mod)
    eng.debug = debug
    eng.deadline = t0 + budget
    cfgs = eng.cfgs
    skip = set(contracts or ())
    mi = wvmine.Miner(mod, cfgs, externs=externs, skip=skip)
    es_holder = {}
    def setup(ci, rng):
        a = concrete(spec, ci, rng, lay)
        es_holder.update(ci.es)
        return a
    mi.run(spec.fname, setup, samples, deadline=t0 + 20)
    if debug: print('stops', mi.stops)
    for key in mi.s:
        info = eng.info(*key)
        mi.mine(key, info, es_holder, spec.hints)
        if debug:
            print('LOOP', key, 'samples', len(mi.s[key]), 'eqs', len(info.eqs), 'ineqs', len(info.ineqs), 'win', info.win, 'mods', info.mod_cells, info.mod_arr)
            for e in info.eqs: print('   ', e)
            if debug > 1:
                for e in info.ineqs: print('   >=', e)
    eng.contracts = contracts or {}
    for rnd in range(200):
        res.rounds = rnd + 1
        eng.obs = {}
        eng.paths = 0
        try:
            # fresh names are deterministic per round; hints persist
            inits, args = initial(eng, spec, lay)
            nret = 0
            for st in inits:
                def done(s, rv):
                    nonlocal nret
                    nret += 1
                    eng.retry(s, lambda x: spec.post(eng, x, rv))
                fn = mod.funcs[spec.fname]
                s0 = st.copy()
                a0 = list(s0.extra.pop('#args'))
                eng.call_fn(s0, spec.fname, a0, (), done)
            res.ok = nret > 0
            if not nret: res.msg = 'no path reaches a return'
            break
        except wv.Restart as r:
            if debug: print('restart', r)
            continue
        except wv.Failed as f:
            res.msg = 'obligation failed: ' + str(f)[:700]; res.ob = f.ob
            break
        except wv.Unsupported as u:
            res.msg = 'not within reach: ' + str(u)[:300]
            break
    else: res.msg = 'no inductive invariant'
    res.obs = eng.obs; res.qn, res.qt, res.paths, res.used = eng.qn, eng.qt, eng.paths, eng.used_contracts
    res.time = time.time() - t0
    res.eng = eng
    return res

def big_stack(f, mb=512):
    """run f in a thread with a large stack"""
    out = []
    def g():
        try: out.append((True, f()))
        except BaseException as e: out.append((False, e))
    sys.setrecursionlimit(200000)
    threading.stack_size(mb << 20)
    t = threading.Thread(target=g); t.start(); t.join()
    if not out[0][0]: raise out[0][1]
    return out[0][1]
