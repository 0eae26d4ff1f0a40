"""Candidate loop invariants for irv.wv, mined from concrete runs of the same IR."""
import random
from fractions import Fraction
from . import sym as symmod

PRIME = (1 << 521) - 1
class Stop(Exception): pass

class CI:
    """concrete interpreter of the IR over word arrays and scalar objects"""
    def __init__(self, mod, cfgs, externs=None, limit=40000):
        self.m = mod; self.cfgs = cfgs
        self.cells = {}; self.arr = {}; self.es = {}; self.ent = {}
        self.hook = None
        self.n = 0; self.limit = limit
        self.nalloc = 0
        self.externs = externs or {}
        self.alloc_names = []
    def add_arr(self, name, es, data, ent=True):
        self.arr[name] = list(data); self.es[name] = es
        if ent: self.ent[name] = list(data)
    def cfg(self, fn):
        if fn.name not in self.cfgs: self.cfgs[fn.name] = symmod.CFG(fn)
        return self.cfgs[fn.name]
    def val(self, env, ty, op):
        k = op[0]
        if k == 'l': return env[op[1]]
        if k == 'c':
            if ty[0] == 'ptr': return ('p', None, 0)
            return int(op[1] or 0) & ((1 << ty[1]) - 1)
        if k in ('null', 'zero', 'zeroinit', 'z'): return ('p', None, 0) if ty[0] == 'ptr' else 0
        if k in ('undef', 'poison', 'u'): return ('p', None, 0) if ty[0] == 'ptr' else 0
        if k == 'g': return ('g', op[1])
        raise Stop('operand')
    def call(self, name, args, path):
        fn = self.m.funcs[name]
        env = {r: a for (t, r), a in zip(fn.params, args)}
        path = path + (name,)
        if len(path) > 8: raise Stop('depth')
        cfg = self.cfg(fn)
        label, prev = fn.order[0], None
        acts = []
        while True:
            blk = fn.blocks[label]
            ph = {}
            np = 0
            for i in blk:
                if i[0] != 'phi': break
                np += 1
                for op, l in i[3]:
                    if l == prev: ph[i[1]] = self.val(env, i[2], op)
            env.update(ph)
            while acts and label not in cfg.loops[acts[-1]['head']]: acts.pop()
            if label in cfg.loops:
                if acts and acts[-1]['head'] == label: pass
                else:
                    acts.append({'head': label, 'entry': dict(ph), 'pre': {o: list(a) for o, a in self.arr.items()}, 'ecells': dict(self.cells),
                                 'w': {o: [None, None] for o in self.arr}})
                if self.hook: self.hook(self, fn, path, label, env, ph, acts[-1])
            self.acts_stack = acts
            nxt = None
            for ins in blk[np:]:
                self.n += 1
                if self.n > self.limit: raise Stop('too long')
                op = ins[0]
                if op == 'bin': env[ins[1]] = self.binop(ins[2], ins[3][1], self.val(env, ins[3], ins[4]), self.val(env, ins[3], ins[5]))
                elif op == 'icmp': env[ins[1]] = int(self.icmp(ins[2], ins[3], self.val(env, ins[3], ins[4]), self.val(env, ins[3], ins[5])))
                elif op == 'cast': env[ins[1]] = self.cast(ins[2], ins[3], self.val(env, ins[3], ins[4]), ins[5])
                elif op == 'gep':
                    b = self.val(env, ('ptr',), ins[3]); off = b[2]; t = ins[2]
                    if b[0] == 'p' and b[1] is None: raise Stop('null')
                    for n, (ty, v) in enumerate(ins[4]):
                        x = self.val(env, ty, v); x = x - (1 << ty[1]) if x >> (ty[1] - 1) else x
                        if n == 0: off += x * self.m.size(t); continue
                        t = self.m.resolve(t)
                        if t[0] == 'st':
                            fo, t = self.m.field_off(t, x); off += fo
                        else: off += x * self.m.size(t[2]); t = t[2]
                    env[ins[1]] = (b[0], b[1], off)
                elif op == 'load': env[ins[1]] = self.load(ins[2], self.val(env, ('ptr',), ins[3]))
                elif op == 'store': self.store(ins[1], self.val(env, ins[1], ins[2]), self.val(env, ('ptr',), ins[3]), acts)
                elif op == 'select': env[ins[1]] = self.val(env, ins[3], ins[4] if self.val(env, ('i', 1), ins[2]) else ins[5])
                elif op == 'br': nxt = ins[1]
                elif op == 'cbr': nxt = ins[2] if self.val(env, ('i', 1), ins[1]) & 1 else ins[3]
                elif op == 'switch':
                    v = self.val(env, ins[1], ins[2]); nxt = ins[3]
                    for cv, l in ins[4]:
                        if cv & ((1 << ins[1][1]) - 1) == v: nxt = l
                elif op == 'ret': return None if ins[1] is None or ins[1] == ('void',) else self.val(env, ins[1], ins[2])
                elif op == 'alloca':
                    nm = ins[1] + '@' + '/'.join(path)
                    env[ins[1]] = ('p', nm, 0)
                elif op == 'call':
                    saved = acts
                    r = self.docall(ins, env, path, acts)
                    if ins[1] is not None: env[ins[1]] = r
                elif op == 'unreachable': raise Stop('unreachable')
                else: raise Stop(op)
            prev, label = label, nxt
    def docall(self, ins, env, path, acts):
        name = ins[3][1]
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg'): return None
        args = [self.val(env, t, v) for t, v in ins[4]]
        if name in self.externs: return self.externs[name](self, args)
        if 'memset' in name:
            p, v, n = args[:3]
            es = self.es[p[1]]
            for j in range(n // es): self.wr(p[1], p[2] // es + j, 0, acts)
            return p
        if 'memcpy' in name or 'memmove' in name:
            d, s, n = args[:3]; es = self.es[d[1]]
            t = [self.arr[s[1]][s[2] // es + j] for j in range(n // es)]
            for j, x in enumerate(t): self.wr(d[1], d[2] // es + j, x, acts)
            return d
        if name in self.m.funcs:
            r = self.call_nested(name, args, path, acts)
            return r
        raise Stop('extern ' + name)
    def call_nested(self, name, args, path, acts):
        before = {o: list(a) for o, a in self.arr.items()}
        r = self.call(name, args, path)
        for o, a in self.arr.items():
            b = before.get(o)
            if b is None: continue
            for j in range(len(a)):
                if a[j] != b[j]: self.note(o, j, acts)
        return r
    def note(self, o, i, acts):
        for a in acts:
            w = a['w'].setdefault(o, [None, None])
            w[0] = i if w[0] is None else min(w[0], i)
            w[1] = i + 1 if w[1] is None else max(w[1], i + 1)
    def wr(self, o, i, v, acts):
        if i < 0 or i >= len(self.arr[o]): raise Stop('out of bounds')
        self.arr[o][i] = v
        self.note(o, i, acts)
    def load(self, ty, p):
        if p[1] is None: raise Stop('null')
        if p[1] in self.arr:
            es = self.es[p[1]]; i = p[2] // es
            if i < 0 or i >= len(self.arr[p[1]]): raise Stop('oob')
            return self.arr[p[1]][i]
        return self.cells.get((p[1], p[2]), 0)
    def store(self, ty, v, p, acts):
        if p[1] is None: raise Stop('null')
        if p[1] in self.arr: self.wr(p[1], p[2] // self.es[p[1]], v, acts)
        else: self.cells[(p[1], p[2])] = v
    def binop(self, op, w, a, b):
        M = (1 << w) - 1
        if isinstance(a, tuple): 
            if op == 'sub': return (a[2] - b[2]) & M
            raise Stop('ptr')
        s = lambda x: x - (1 << w) if x >> (w - 1) else x
        if op == 'add': return (a + b) & M
        if op == 'sub': return (a - b) & M
        if op == 'mul': return (a * b) & M
        if op == 'shl':
            if b >= w: raise Stop('shift')
            return (a << b) & M
        if op == 'lshr':
            if b >= w: raise Stop('shift')
            return a >> b
        if op == 'ashr': return (s(a) >> b) & M
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0: raise Stop('div')
        if op == 'udiv': return a // b
        if op == 'urem': return a % b
        x, y = s(a), s(b)
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        if op == 'sdiv': return q & M
        return (x - q * y) & M
    def icmp(self, pred, ty, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if a[1] != b[1]:
                if pred == 'eq': return False
                if pred == 'ne': return True
                raise Stop('ptr cmp')
            a, b = a[2], b[2]
        elif pred[0] == 's':
            w = ty[1]
            a = a - (1 << w) if a >> (w - 1) else a
            b = b - (1 << w) if b >> (w - 1) else b
        k = pred[-2:]
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[k]
    def cast(self, op, ty, v, ty2):
        if op in ('ptrtoint', 'inttoptr', 'bitcast'): return v
        if op == 'zext': return v
        if op == 'sext':
            w = ty[1]
            return (v - (1 << w) if v >> (w - 1) else v) & ((1 << ty2[1]) - 1)
        if op == 'trunc': return v & ((1 << ty2[1]) - 1)
        raise Stop('cast')

def rref(rows, ncol):
    """relations among columns: nullspace basis (mod p) in reduced form with leftmost pivots; rows: samples"""
    # echelon of sample matrix with columns processed right to left: free columns of this elimination are the relation pivots
    p = PRIME
    order = list(range(ncol - 1, -1, -1))
    rows = [[x % p for x in r] for r in rows]
    piv = []          # (col) pivot columns found (independent columns), right first
    r = 0
    m = len(rows)
    pivrow = {}
    for c in order:
        k = None
        for i in range(r, m):
            if rows[i][c]: k = i; break
        if k is None: continue
        rows[r], rows[k] = rows[k], rows[r]
        inv = pow(rows[r][c], p - 2, p)
        rr = [x * inv % p for x in rows[r]]
        rows[r] = rr
        for i in range(m):
            if i != r and rows[i][c]:
                f = rows[i][c]
                ri = rows[i]
                rows[i] = [(x - f * y) % p for x, y in zip(ri, rr)]
        pivrow[c] = r
        r += 1
    rels = []
    for c in range(ncol):
        if c in pivrow: continue
        # column c = sum over pivot columns coef * col
        rel = {c: 1}
        ok = True
        for pc, ro in pivrow.items():
            v = rows[ro][c]
            if v:
                if v > p // 2: v -= p
                if abs(v) > (1 << 200):
                    # small power-of-two denominators
                    for sh in (64, 128, 8, 1):
                        z = (v << sh) % p
                        if z > p // 2: z -= p
                        if abs(z) < (1 << 200): v = Fraction(z, 1 << sh); break
                    else: ok = False; break
                rel[pc] = -v
        if ok: rels.append(rel)
    return rels

def uses(ins):
    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'l' and isinstance(x[1], str): yield x[1]; return
            for y in x: yield from walk(y)
        elif isinstance(x, list):
            for y in x: yield from walk(y)
    return set(walk(tuple(ins)))

def loop_live(fn, cfg, head):
    """registers defined before the loop and used in it"""
    defs, u = set(), set()
    for b in cfg.loops[head]:
        for i in fn.blocks[b]:
            if i[0] in ('store', 'br', 'cbr', 'ret', 'switch', 'unreachable'): pass
            elif i[1]: defs.add(i[1])
            u |= uses(i)
    return u - defs

def regtypes(fn):
    t = {r: ty for ty, r in fn.params}
    for l, b in fn.blocks.items():
        for i in b:
            if i[0] == 'bin': t[i[1]] = i[3]
            elif i[0] == 'icmp': t[i[1]] = ('i', 1)
            elif i[0] == 'cast': t[i[1]] = i[5]
            elif i[0] in ('gep', 'alloca'): t[i[1]] = ('ptr',)
            elif i[0] in ('load', 'phi'): t[i[1]] = i[2]
            elif i[0] == 'select': t[i[1]] = i[3]
            elif i[0] == 'call' and i[1]: t[i[1]] = i[2]
    return t

class Miner:
    def __init__(self, mod, cfgs, maxs=110, externs=None, skip=()):
        self.m = mod; self.cfgs = cfgs
        self.s = {}
        self.stops = {}
        self.seen = {}
        self.maxs = maxs
        self.rng = random.Random(5)
        self.types = {}
        self.live = {}
        self.live0 = {}
        self.externs = externs or {}
        self.skip = set(skip)
        self.meta = {}
        self.entsamples = {}
    def hook(self, ci, fn, path, head, env, ph, act):
        if any(p in self.skip for p in path[1:]): return
        lk = (path, head)
        if lk not in self.live0: self.live0[lk] = sorted(loop_live(fn, self.cfgs[fn.name], head))
        vv = {r: env[r] for r in self.live0[lk] if r in env}
        vv.update(ph)
        key = (path, head, tuple(sorted((r, v[1]) for r, v in vv.items() if isinstance(v, tuple) and v[0] == 'p' and v[1] is not None)))
        L = self.s.setdefault(key, [])
        n = self.seen[key] = self.seen.get(key, 0) + 1
        if len(L) < self.maxs: k = len(L); L.append(None)
        else:
            k = self.rng.randrange(n)
            if k >= self.maxs: return
        if key not in self.live:
            self.live[key] = set(self.live0[lk])
            self.types[fn.name] = regtypes(fn)
            self.meta[key] = (fn.name, dict((i[1], i[2]) for i in fn.blocks[head] if i[0] == 'phi'))
        sm = {'ph': dict(ph), 'live': {r: env[r] for r in self.live[key] if r in env}, 'entry': dict(act['entry']), 'cells': dict(ci.cells),
              'ecells': act['ecells'], 'cur': {o: list(a) for o, a in ci.arr.items()}, 'pre': act['pre'], 'ent': ci.ent, 'w': {o: tuple(w) for o, w in act['w'].items()}}
        L[k] = sm
    def run(self, fname, setup, n, deadline=None):
        import time
        for i in range(n):
            if deadline and time.time() > deadline: break
            ci = CI(self.m, self.cfgs, self.externs)
            ci.hook = self.hook
            args = setup(ci, random.Random(i * 7 + 1))
            if args is None: continue
            try: ci.call(fname, args, ())
            except Stop as e: self.stops[str(e)] = self.stops.get(str(e), 0) + 1
            except (IndexError, KeyError, ZeroDivisionError): pass

    # ---- evaluation on a sample
    def nv(self, sm, nm, es):
        k = nm[0]
        if k == 'k': return nm[1]
        if k == 'sum': return self.nv(sm, nm[1], es) + self.nv(sm, nm[2], es)
        if k == 'r': v = sm['ph'][nm[1]] if nm[1] in sm['ph'] else sm['live'][nm[1]]
        elif k == 'er': v = sm['entry'][nm[1]]
        elif k == 'c': v = sm['cells'][(nm[1], nm[2])]
        elif k == 'ec': v = sm['ecells'][(nm[1], nm[2])]
        if isinstance(v, tuple):
            if v[1] is None: raise KeyError(nm)
            e = es.get(v[1])
            return v[2] // e if e else v[2]
        if nm in self.signed and v >> 31: return v - (1 << 32)
        return v
    def ev(self, sm, f, es):
        k = f[0]
        if k == 'pos': return self.nv(sm, f[1], es)
        if k == 'P':
            n = self.nv(sm, f[1], es) * f[2]
            return pow(2, n, PRIME) if n >= 0 else pow(pow(2, -n, PRIME), PRIME - 2, PRIME)
        if k == 'T':
            n = self.nv(sm, f[1], es)
            return pow(2, n, PRIME) if n >= 0 else pow(pow(2, -n, PRIME), PRIME - 2, PRIME)
        if k in ('W', 'S'):
            a = sm[f[2]][f[1]]
            e = self.nv(sm, f[3], es) + (f[4] if len(f) > 4 else 0)
            if k == 'W':
                if 0 <= e < len(a): return a[e]
                raise IndexError
            if e < 0 or e > len(a): raise IndexError
            b = 8 * es[f[1]]
            return sum(a[j] << (b * j) for j in range(e))
        if k == 'F':
            x = self.nv(sm, f[1], es); n = self.nv(sm, f[2], es)
            if f[3]: n = 64 - n
            return x >> n
        raise KeyError
    def term(self, sm, t, es):
        r = 1
        for f in t: r = r * self.ev(sm, f, es) % PRIME if True else r
        return r

    def mine(self, key, info, es, hints=None):
        self.mine1(key, info, es, hints)
        # relations that hold only while a position is still zero, or once it is not
        S = [x for x in self.s.get(key, []) if x]
        if len(S) < 4: return
        fname, ptys = self.meta[key]
        for r, t in sorted(ptys.items()):
            if t != ('i', 32): continue
            try:
                v = [self.nv(s, ('r', r), es) for s in S]; e = [self.nv(s, ('er', r), es) for s in S]
            except KeyError: continue
            if any(e) or min(v) < 0 or max(v) >> 31 or max(v) <= 1: continue
            z = [s for s, x in zip(S, v) if x == 0]; nz = [s for s, x in zip(S, v) if x != 0]
            # one that counts the iterations is no guard
            if len(z) < 12 or len(nz) < 12: continue
            if not any(s['w'].get(o, (None,))[0] is not None for s in z for o in s['w']) : continue
            for sense, sub in ((0, z), (1, nz)):
                i2 = info.__class__(key)
                i2.mod_cells = set(info.mod_cells); i2.mod_arr = set(info.mod_arr); i2.win = dict(info.win)
                self.mine1(key, i2, es, hints, sub, ('r', r) if sense else None)
                G = ('G', ('r', r), sense)
                for q in i2.eqs:
                    if q not in info.eqs: info.eqs.append((G,) + q)
                for q in i2.ineqs:
                    if q not in info.ineqs: info.ineqs.append((G,) + q)
                if sense:
                    for o in sorted(info.mod_arr):
                        f = ('W', o, 'cur', ('r', r), -1)
                        try: ok = all(self.ev(s, f, es) >= 1 for s in sub)
                        except (IndexError, KeyError): ok = False
                        if ok: info.ineqs.append((G, ((f,), 1), ((), -1)))

    def mine1(self, key, info, es, hints=None, subset=None, front=None):
        hints = hints or {}
        S = [x for x in self.s.get(key, []) if x] if subset is None else subset
        if len(S) < 4: return
        fname, ptys = self.meta[key]
        ty = self.types[fname]
        self.signed = set()
        # --- named quantities
        names = {}          # name -> kind 'pos' | 'word' | 'flag' | 'ptr'
        varying = []
        def classify(nm, t, width32):
            vals = []
            for s in S:
                try: vals.append(self.nv(s, nm, es))
                except KeyError: return None
            if t[0] == 'ptr': return 'ptr'
            if t[1] == 32: self.signed.add(nm)
            if t[1] in (1, 8): return 'flag' if max(vals) <= 1 else 'word'
            if t[1] == 32:
                if max(vals) <= 1 and nm[0] in ('r', 'c') : return 'flag?'
                return 'pos'
            return 'word' if max(vals) > 1 << 33 else 'pos64'
        # modified cells
        for s in S:
            for k2, v in s['cells'].items():
                if k2 in s['ecells'] and s['ecells'][k2] != v: info.mod_cells.add(k2)
        for s in S:
            for o, w in s['w'].items():
                if w[0] is not None: info.mod_arr.add(o)
        allcells = set.intersection(*[set(s['cells']) for s in S])
        for r, t in ptys.items():
            if t[0] not in ('i', 'ptr'): continue
            k = classify(('r', r), t, None)
            if k: names[('r', r)] = k; varying.append(('r', r))
        for k2 in sorted(info.mod_cells):
            if k2 in allcells:
                v = S[0]['cells'][k2]
                w = self.cellw(k2, S)
                k = classify(('c',) + k2, w, None)
                if k: names[('c',) + k2] = k; varying.append(('c',) + k2)
        inv = []
        for r in sorted(self.live[key]):
            if all(r in s['live'] for s in S):
                t = ty.get(r)
                if t is None or t[0] not in ('i', 'ptr'): continue
                if t[0] == 'ptr' and any(s['live'][r][0] != 'p' or s['live'][r][1] not in es for s in S): continue
                k = classify(('r', r), t, None)
                if k == 'flag?': k = 'pos'
                if k: names[('r', r)] = k; inv.append(('r', r))
        for k2 in sorted(allcells):
            if k2 in info.mod_cells: continue
            if k2[1] == 0 and all(isinstance(s['cells'][k2], int) and s['cells'][k2] < 64 for s in S) and '@' not in k2[0]:
                self.signed.add(('c',) + k2)
                names[('c',) + k2] = 'pos'; inv.append(('c',) + k2)
        for nm in list(varying):
            e = ('er', nm[1]) if nm[0] == 'r' else ('ec',) + nm[1:]
            if nm in self.signed: self.signed.add(e)
            try: vals = [self.nv(s, e, es) for s in S]
            except KeyError: continue
            k = names[nm]
            if k == 'ptr' or k.startswith('pos'): names[e] = k; inv.append(e)
            elif k == 'word': names[e] = k; inv.append(e)
            elif k in ('flag', 'flag?'): names[e] = 'flagi'; inv.append(e)
        vec = {}
        for nm in list(names):
            try: vec[nm] = tuple(self.nv(s, nm, es) for s in S)
            except KeyError: names.pop(nm)
        varying = [n for n in varying if n in names]; inv = [n for n in inv if n in names]
        # flags that behave as counters (i in {0,1} only because loops are short) stay positions
        for n in varying:
            if names[n] == 'flag?':
                names[n] = 'flag'
        posv = [n for n in varying if names[n] in ('pos', 'ptr', 'pos64')]
        posi = [n for n in inv if names[n] in ('pos', 'ptr', 'pos64')]
        # an i32 that only ever takes 0/1 here may be a counter: also try it as a position
        posv += [n for n in varying if names[n] == 'flag' and n[0] == 'r' and ptys.get(n[1], ('i', 1))[-1] == 32]
        words = [n for n in varying if names[n] == 'word']
        flags = [n for n in varying if names[n] == 'flag']
        # --- position relations
        seenv = {}
        posi2 = []
        for n in posi:
            if len(set(vec[n])) == 1: continue
            if vec[n] in seenv: continue
            seenv[vec[n]] = n; posi2.append(n)
        def pref(n):
            # free (right) columns: plain integer counters
            return (0 if n[0] == 'c' else 1 if names[n] == 'ptr' else 2)
        pv = sorted(posv, key=lambda n: (pref(n), str(n)))
        cols = pv + posi2 + [('k', 1)]
        rows = [[self.nv(s, n, es) for n in cols] for s in S]
        eqs = []
        poscls = {}
        for rel in rref(rows, len(cols)):
            c = min(rel)
            if c >= len(pv): continue
            if any(isinstance(v, Fraction) or abs(v) > 1 << 20 for v in rel.values()): continue
            eqs.append(tuple(((('pos', cols[i]),), v) if cols[i] != ('k', 1) else ((), v) for i, v in sorted(rel.items())))
        # --- write windows
        for o in sorted(info.mod_arr) if subset is None else ():
            ws = [(s, s['w'].get(o, (None, None))) for s in S]
            ne = [(s, w) for s, w in ws if w[0] is not None]
            if len(ne) < 3: continue
            lin = [n for n in pv + posi2]
            res = []
            for side in (0, 1):
                rows = [[w[side]] + [self.nv(s, n, es) for n in lin] + [1] for s, w in ne]
                best = None
                # prefer a single name plus constant
                for n in lin:
                    ds = set(w[side] - self.nv(s, n, es) for s, w in ne)
                    if len(ds) == 1: best = ((((('pos', n),), 1), ((), ds.pop()))); break
                if best is None and len(set(w[side] for s, w in ne)) == 1: best = ((((), ne[0][1][side]),))
                if best is None:
                    # linear fit
                    for rel in rref(rows, len(lin) + 2):
                        if 0 in rel and all(not isinstance(v, Fraction) and abs(v) < 100 for v in rel.values()):
                            cc = [('w',)] + lin + [('k', 1)]
                            best = tuple(((() if cc[i] == ('k', 1) else (('pos', cc[i]),)), -v) for i, v in rel.items() if i != 0)
                            break
                if best is None:
                    # closest bound
                    bn, bd = None, None
                    for n in lin:
                        ds = [(self.nv(s, n, es) - w[side]) * (1 if side else -1) for s, w in ne]
                        dall = [(self.nv(s, n, es)) for s in S]
                        if min(ds) >= -1 and (bd is None or sum(ds) < bd): bn, bd, mn = n, sum(ds), min(ds)
                    if bn is not None:
                        off = 0 if mn >= 0 else (1 if side else -1)
                        best = ((((('pos', bn),), 1), ((), off)))
                    elif side == 0: best = (((), 0),)
                if best is None: break
                res.append(tuple(x for x in best if not (x[0] == () and x[1] == 0)) or (((), 0),))
            if len(res) == 2:
                info.win[o] = tuple(res)
        # --- value relations
        objs = sorted(o for o in es if all(o in s['cur'] for s in S))
        def distinct(cands):
            out = []; seen = []
            for n in cands:
                v = vec.get(n)
                d = tuple(a - v[0] for a in v)
                if d in seen: continue
                seen.append(d); out.append(n)
            return out
        def ptr_into(o):
            r = []
            for n in posv + posi:
                if names[n] != 'ptr': continue
                k = n[1]
                v = S[0]['ph'].get(k) if n[0] == 'r' and k in S[0]['ph'] else S[0]['entry'].get(k) if n[0] == 'er' else S[0]['live'].get(k) if n[0] == 'r' else None
                if isinstance(v, tuple) and v[1] == o: r.append(n)
            return r
        cols = []
        # offsets between frames
        vptr = [n for n in posv if names[n] == 'ptr']
        entp = []
        for n in vptr:
            e = ('er', n[1]) if n[0] == 'r' else ('ec',) + n[1:]
            if e in vec: entp.append(e)
        wts = [()]
        for a in entp:
            for b in entp:
                if a == b: continue
                d = [x - y for x, y in zip(vec[a], vec[b])]
                if len(set(d)) > 1:
                    w = (('P', a, 64), ('P', b, -64))
                    if not any(self.sameterm(S, w, x, es) for x in wts): wts.append(w)
        for n in posi2:
            if n[0] == 'r' and names[n] != 'ptr' and len(wts) < 5 and min(vec[n]) >= 0 and max(vec[n]) < 40 and hints.get('pshift'):
                w = (('P', n, 64),)
                if not any(self.sameterm(S, w, x, es) for x in wts): wts.append(w)
        tw = [()]
        for n in posi2:
            if names[n] == 'pos' and min(vec[n]) >= 1 and max(vec[n]) <= 63 and max(vec[n]) > 20:
                tw.append((('T', n),))
                shn = n
        mults = [()]
        for n in inv:
            if names[n] == 'word' and n[0] == 'r' and not hints.get('nomult'): mults.append((('pos', n),))
        for n in inv:
            if names[n] == 'ptr' and n[0] == 'r':
                v = S[0]['live'].get(n[1])
                if isinstance(v, tuple) and v[1] in es and v[1] not in info.mod_arr and self.loaded_through(key, n[1]):
                    mults.append((('W', v[1], 'cur', n),))
        scol = []
        downs = []
        for n in posv:
            e = ('er', n[1]) if n[0] == 'r' else ('ec',) + n[1:]
            if e in vec and all(x <= y for x, y in zip(vec[n], vec[e])) and any(x < y for x, y in zip(vec[n], vec[e])): downs.append(vec[e])
        for o in objs:
            vers = []
            mod = o in info.mod_arr
            if mod: vers.append('cur')
            ent = all(o in s['ent'] for s in S)
            if ent: vers.append('ent')
            if mod and (not ent or any(s['pre'].get(o) != s['ent'].get(o) for s in S)): vers.append('pre')
            if not mod and (not ent or any(s['cur'][o] != s['ent'][o] for s in S)): vers.append('cur')
            pos = distinct([n for n in ptr_into(o)] + [n for n in posv if names[n] == 'pos' or names[n] == 'flag'] +
                           [n for n in posi2 if n[0] == 'c' or n[0] == 'ec'] + [n for n in posi2 if n[0] in ('er',)] + [n for n in posi2 if n[0] == 'r' and names[n] != 'ptr'])
            def off(n):
                # positions that walk down: what lies above them is done
                if n not in varying: return 1 if any(vec[n] == x for x in downs) else 0
                e = ('er', n[1]) if n[0] == 'r' else ('ec',) + n[1:]
                if e not in vec: return 0
                return 1 if all(x <= y for x, y in zip(vec[n], vec[e])) and any(x < y for x, y in zip(vec[n], vec[e])) else 0
            def T(v, n):
                k = off(n)
                return ('S', o, v, n, k) if k else ('S', o, v, n)
            fronts = None
            if mod and o in info.win:
                fv = []
                for side in info.win[o]:
                    fv.append(tuple(sum(c * (self.nv(s, t[0][1], es) if t else 1) for t, c in side) for s in S))
                fronts = [n for n in pos if tuple(self.nv(s, n, es) + off(n) for s in S) in fv]
                if front and front not in fronts and front in vec: fronts.append(front)
            pos = pos[:hints.get('npos', 6)]
            for v in vers:
                if fronts and v != 'cur':
                    pp = distinct(sorted(fronts, key=lambda n: n in varying) + (ptr_into(o) or [n for n in posv if names[n] == 'pos' or names[n] == 'flag']))[:hints.get('npos', 6)]
                    for n in reversed(pp): scol.append((T(v, n), v))
                    continue
                for n in (pos if v != 'cur' or not fronts else fronts):
                    scol.append((T(v, n), v))
                    if not mod and off(n): scol.append((('S', o, v, n), v))
        carr = []
        frames = []
        fr = distinct([n for n in vptr] + [n for n in posv if names[n] in ('pos', 'flag')])
        for n in words + flags:
            for x in fr:
                if x == n: continue
                carr.append((('pos', n), ('P', x, 64)))
                if len(tw) > 1 and n in words:
                    carr.append((('F', n, shn, 0), ('P', x, 64)))
                    carr.append((('F', n, shn, 1), ('P', x, 64)))
        for n in words + flags:
            e = ('er', n[1]) if n[0] == 'r' else ('ec',) + n[1:]
            for x in vptr or fr:
                ex = ('er', x[1]) if x[0] == 'r' else ('ec',) + x[1:]
                if e in vec and ex in vec and len(set(vec[e])) > 1:
                    carr.append((('pos', e), ('P', ex, 64)))
                    if len(tw) > 1 and n in words:
                        carr.append((('F', e, shn, 0), ('P', ex, 64)))
                        carr.append((('F', e, shn, 1), ('P', ex, 64)))
        # a register that holds a word of an array
        wordrel = []
        for n in words:
            if n[0] != 'r': continue
            for o in objs:
                for v in ('ent', 'pre', 'cur'):
                    if v == 'ent' and not all(o in s['ent'] for s in S): continue
                    if v != 'ent' and o not in info.mod_arr: continue
                    if v == 'pre' and all(s['pre'].get(o) == s['ent'].get(o) for s in S): continue
                    hit = False
                    for x in [x for x in ptr_into(o) if x in varying and x[0] == 'r']:
                        for d in (0, -1, 1):
                            f = ('W', o, v, x, d) if d else ('W', o, v, x)
                            try: ok = all(self.ev(s, f, es) == a for s, a in zip(S, vec[n]))
                            except (IndexError, KeyError): ok = False
                            if ok: wordrel.append(((( 'pos', n),), 1, (f,))); hit = True; break
                        if hit: break
                    if hit: break
        order = []
        for f, v in scol:
            order.append(((f,), {'cur': 0, 'pre': 3, 'ent': 6}[v] if f[1] in info.mod_arr else 6))
        for f, v in scol:
            for w in wts:
                for t in tw:
                    for mu in mults:
                        if w or t or mu: order.append((w + t + mu + (f,), {'cur': 1, 'pre': 3, 'ent': 5}[v] if f[1] in info.mod_arr else 5))
        for c in carr:
            for t in tw:
                for mu in (mults if hints.get('carrymult') else [()]):
                    for w in (wts if hints.get('carryw') else [()]):
                        order.append((w + t + mu + c, 4))
        for x in fr: order.append(((('P', x, 64),), 4))
        order.append(((), 6))
        order.sort(key=lambda x: x[1])
        terms = []; seen = {}; data = []
        Sx = S
        cols = []
        twins = []
        for t, pr in order:
            v = []
            for s in Sx:
                try: v.append(self.term(s, t, es))
                except (KeyError, IndexError): v.append(None)
            if any(x is None for x in v): continue
            ver = tuple(sorted((f[1], f[2]) for f in t if f[0] in ('S', 'W')))
            tv = (tuple(v), ver)
            if not any(v):
                # a sum that is always zero although its range is not empty
                f = t[0] if len(t) == 1 else None
                if f and f[0] == 'S' and f[2] == 'cur' and (f[1] in info.mod_arr or f[3] in varying) and f[3] in vec and len(set(vec[f[3]])) > 2: twins.append(((t, 1),))
                continue
            if tv in seen:
                # the same value at two positions is itself a relation
                t0 = seen[tv]
                if len(t) == 1 and len(t0) == 1 and t[0][0] == t0[0][0] == 'S': twins.append(((t0, 1), (t, -1)))
                continue
            seen[tv] = t; terms.append(t); cols.append(v)
        if len(terms) > len(S) - 3: terms, cols = terms[:], cols[:]
        rows = [[c[i] for c in cols] for i in range(len(Sx))]
        self.last = (terms, len(rows))
        if hints.get('show'): print('COLS', key[1], [(t) for t in terms])
        vrel = [(2, e) for e in twins]
        for rel in rref(rows, len(terms)):
            if len(rel) > 14: continue
            c = min(rel)
            e = tuple((terms[i], v) for i, v in sorted(rel.items()))
            vrel.append((len(rel), e))
        vrel.sort(key=lambda x: x[0])
        # keep those that mention something varying
        for _, e in vrel:
            arrs = [f for t, c in e for f in t if f[0] in ('S', 'W')]
            if arrs and any(f[2] == 'pre' for f in arrs) and not any(f[2] == 'cur' and f[1] in info.mod_arr for f in arrs): continue
            if arrs and all(f[1] in info.mod_arr and f[2] != 'cur' for f in arrs) and len(info.mod_arr): continue
            if any(self.mentions(f, varying, info) for t, c in e for f in t): eqs.append(e)
        for t, c, f in wordrel: eqs.append(((t, c), (f, -1)))
        info.eqs = eqs
        # --- inequalities
        iq = []
        one = ()
        for n in flags:
            iq.append((((('pos', n),), 1),)); iq.append((((('pos', n),), -1), (one, 1)))
        for n in words:
            for f in flags:
                if max(a + b for a, b in zip(vec[n], vec[f])) <= (1 << 64) - 1: iq.append((((('pos', n),), -1), ((('pos', f),), -1), (one, (1 << 64) - 1)))
            for m2 in [x for x in inv + words if names[x] == 'word' and x != n]:
                if all(a < b for a, b in zip(vec[n], vec[m2])): iq.append((((('pos', m2),), 1), ((('pos', n),), -1), (one, -1)))
            for m2 in mults:
                if m2 and m2[0][0] == 'W':
                    pass
        seen = set()
        others = posv + posi2 + [('k', 0)]
        vec[('k', 0)] = tuple(0 for s in S)
        for a in posv:
            for b in others:
                if a == b: continue
                d = [x - y for x, y in zip(vec[a], vec[b])]
                if len(set(d)) == 1: continue
                for sg in (1, -1):
                    m = min(sg * x for x in d)
                    if -2 <= m <= 2:
                        k = (tuple(sg * x for x in d))
                        if k in seen: continue
                        seen.add(k)
                        tms = [((('pos', a),), sg)]
                        if b != ('k', 0): tms.append(((('pos', b),), -sg))
                        if m: tms.append((one, -m))
                        iq.append(tuple(tms))
        if hints.get('triples'):
            for a in posv:
                for b in posv:
                    if a == b: continue
                    for c in posi2:
                        d = [x - y - z for x, y, z in zip(vec[a], vec[b], vec[c])]
                        if len(set(d)) == 1: continue
                        for sg in (1, -1):
                            m = min(sg * x for x in d)
                            if -2 <= m <= 2:
                                k = tuple(sg * x for x in d)
                                if k in seen: continue
                                seen.add(k)
                                tms = [((('pos', a),), sg), ((('pos', b),), -sg), ((('pos', c),), -sg)]
                                if m: tms.append((one, -m))
                                iq.append(tuple(tms))
        info.ineqs = iq
    def sameterm(self, S, a, b, es):
        return all(self.term(s, a, es) == self.term(s, b, es) for s in S[:20])
    def loaded_through(self, key, reg):
        fn = self.m.funcs[self.meta[key][0]]
        cfg = self.cfgs[fn.name]
        for b in cfg.loops[key[1]]:
            for i in fn.blocks[b]:
                if i[0] == 'load' and i[3] == ('l', reg): return True
        return False
    def cellw(self, k2, S):
        v = S[0]['cells'][k2]
        if isinstance(v, tuple): return ('ptr',)
        if '@' in k2[0]: return ('i', 64)
        return ('i', 32) if k2[1] in (0, 4, 8) else ('i', 64)
    def mentions(self, f, varying, info):
        if f[0] in ('pos', 'T'): return f[1] in varying
        if f[0] == 'P': return f[1] in varying
        if f[0] in ('W', 'S'): return f[3] in varying or (f[2] == 'cur' and f[1] in info.mod_arr)
        if f[0] == 'F': return True
        return False
