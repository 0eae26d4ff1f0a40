"""C28: the byte stream of the generator and the ranges of drawn numbers, for every request, from the compiled functions.
Path by path over 64-bit vectors (z3); loops are cut with relations between the loop variables and the number of bytes delivered, which are
proposed, dropped when they fail and so proved inductive.  Floating point: every operation is the real one times (1 + e), |e| <= 2^-53."""
import struct, time, z3
from irv import front
from irv.hv import Unsupported
from .msb import BIN, PRED
B = lambda v, w: z3.BitVecVal(v, w)
class Bad(Exception): pass
EPS = z3.Q(1, 1 << 53)
def layout():
    return front.layout({'o': 'offsetof(struct RaRandom,buffer_offset)', 'l': 'offsetof(struct RaRandom,buffer_len)', 'b': 'offsetof(struct RaRandom,buffer)', 'n': 'sizeof(struct RaRandom)', 'bn': 'sizeof(((struct RaRandom *)0)->buffer)'})
class St:
    def __init__(self): self.pc = []; self.cells = {}; self.D = B(0, 64); self.c = None; self.updates = 0; self.refilled = False
    def copy(self):
        s = St(); s.__dict__.update(self.__dict__); s.pc = list(self.pc); s.cells = dict(self.cells); return s
class Run:
    def __init__(self, mod, lay, target, ob): self.m = mod; self.L = lay; self.target = target; self.ob = ob; self.k = 0; self.steps = 0; self.src = {}; self.sol = z3.Solver(); self.sol.set('timeout', 20000); self.dropped = set(); self.reals = {}
    def fresh(self, w, n='v'): self.k += 1; return z3.BitVec(f'{n}!{self.k}', w)
    def freshR(self): self.k += 1; return z3.Real(f'r!{self.k}')
    def ck(self, pc, *g):
        self.sol.push(); self.sol.add(*pc, *g); r = self.sol.check(); self.sol.pop(); return r
    def entails(self, pc, g): return self.ck(pc, z3.Not(g)) == z3.unsat
    soft = 0
    def need(self, st, g, what):
        r = self.ck(st.pc, z3.Not(g))
        if self.soft: st.pc.append(g); return
        self.ob(what, r == z3.unsat, '' if r == z3.unsat else 'not on every path' if r == z3.sat else 'no answer')
        if r != z3.unsat: raise Bad(what)
    # ---- values: bit vectors, reals, ('p', object, offset)
    def val(self, env, t, o):
        if o[0] == 'l': return env[o[1]]
        if o[0] == 'c': return z3.BoolVal(bool(o[1])) if t == ('i', 1) else B(o[1], t[1]) if t[0] == 'i' else ('p', None, B(0, 64))
        if o[0] == 'f':
            d = struct.unpack('>d', bytes.fromhex(o[1][2:]))[0] if o[1].startswith('0x') else float(o[1])
            n, q = d.as_integer_ratio(); return z3.Q(n, q)
        if o[0] == 'g': return ('p', '@' + o[1], B(0, 64))
        raise Unsupported(f'operand {o}')
    def b2v(self, v): return z3.If(v, B(1, 1), B(0, 1)) if z3.is_bool(v) else v
    def isint(self, x): return x.get_id() in self.reals and self.reals[x.get_id()][1]
    def rnd(self, st, e, exact=False):
        x = self.freshR()
        if exact: st.pc.append(x == e)
        else: st.pc += [z3.Implies(e >= 0, z3.And(x >= e * (1 - EPS), x <= e * (1 + EPS))), z3.Implies(e < 0, z3.And(x <= e * (1 - EPS), x >= e * (1 + EPS)))]
        self.reals[x.get_id()] = (x, exact); return x
    def loops(self, fn):
        """block -> is it the target of a back edge"""
        heads = set(); on = set(); seen = set()
        def succ(b):
            i = fn.blocks[b][-1]
            return [i[1]] if i[0] == 'br' else [i[2], i[3]] if i[0] == 'cbr' else [l for _, l in i[4]] + [i[3]] if i[0] == 'switch' else []
        def dfs(b):
            seen.add(b); on.add(b)
            for s in succ(b):
                if s in on: heads.add(s)
                elif s not in seen: dfs(s)
            on.discard(b)
        dfs(next(iter(fn.blocks))); return heads
    def go(self, fn, label, prev, env, st, active):
        """[(state, value)] at the returns; a second arrival at an active loop head checks its relations"""
        env = dict(env); blk = fn.blocks[label]; ph = {}
        for i in blk:
            if i[0] == 'phi': ph[i[1]] = self.val(env, i[2], next(v for v, l in i[3] if l == prev))
        if label in active:
            self.back(fn, label, ph, st, active[label]); return []
        env.update(ph)
        ins = [i for i in blk if i[0] != 'phi']
        if label not in self.heads[fn.name]: return self.rest(fn, label, ins, env, st, active)
        for _ in range(40):
            n = len(self.dropped); s = st.copy(); e = dict(env); names = {}
            s.D = self.fresh(64, 'D')
            info = dict(D0=st.D, init=ph, D1=s.D)
            if st.c is not None:
                s.c = self.fresh(64, 'c'); s.cells = {k: v for k, v in s.cells.items() if k[0] == 'ctx' and k[1] == self.L['l']}
                s.pc += [z3.ULE(s.D, self.lim), z3.ULE(s.c, self.len64)]
                if ('cell', label) not in self.dropped: s.cells[('ctx', self.L['o'], 4)] = z3.Extract(31, 0, s.c)
            else: s.cells = {}
            for k, v in ph.items():
                if z3.is_bool(v) or not (z3.is_bv(v) or isinstance(v, tuple)): raise Unsupported('loop variable')
                w = self.fresh(64 if isinstance(v, tuple) else v.size(), 'h')
                e[k] = ('p', v[1], w) if isinstance(v, tuple) else w
                o = v[2] if isinstance(v, tuple) else v
                for rel in ('same', 'up', 'down'):
                    if (label, k, rel) not in self.dropped: s.pc.append(self.relation(rel, o, w, s.D - st.D)); break
            info['ok'] = True
            # relations are weakened until they are inductive; then every obligation is checked under them
            self.soft += 1
            try: self.rest(fn, label, ins, dict(e), s.copy(), dict(active, **{label: info}))
            finally: self.soft -= 1
            if len(self.dropped) != n: continue
            out = self.rest(fn, label, ins, e, s, dict(active, **{label: info}))
            if len(self.dropped) == n: return out
        raise Unsupported('loop')
    def relation(self, rel, o, w, d):
        d = z3.Extract(w.size() - 1, 0, d) if w.size() < 64 else d
        return w == o if rel == 'same' else w == o + d if rel == 'up' else w == o - d
    def back(self, fn, label, ph, st, info):
        for k, v in ph.items():
            o = info['init'][k]
            if isinstance(v, tuple) and v[1] != o[1]: raise Unsupported('loop pointer')
            o, w = (o[2], v[2]) if isinstance(v, tuple) else (o, v)
            for rel in ('same', 'up', 'down'):
                if (label, k, rel) in self.dropped: continue
                if not self.entails(st.pc, self.relation(rel, o, w, st.D - info['D0'])): self.dropped.add((label, k, rel))
                break
        if st.c is not None:
            self.need(st, z3.And(z3.ULE(st.D, self.lim), z3.ULE(st.c, self.len64)), 'no more than requested is delivered, the cursor stays in the block')
            x = st.cells.get(('ctx', self.L['o'], 4))
            if ('cell', label) not in self.dropped and (x is None or not self.entails(st.pc, z3.ZeroExt(32, x) == st.c)): self.dropped.add(('cell', label))
            if not self.soft: self.prog.append((list(st.pc), st.D, info['D1']))
    def rest(self, fn, label, ins, env, st, active):
        for n, i in enumerate(ins):
            self.steps += 1
            if self.steps > 30000: raise Unsupported('too many steps')
            op = i[0]
            if op == 'bin':
                a, b = self.val(env, i[3], i[4]), self.val(env, i[3], i[5])
                if i[2][0] == 'f' and i[3][0] == 'double':
                    e = {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[i[2]]()
                    if i[2] == 'fdiv': self.need(st, b != 0, 'no division by zero')
                    big = z3.Q(1 << 53, 1)
                    ex = i[2] in ('fadd', 'fsub') and all(z3.is_rational_value(x) and x.denominator_as_long() == 1 or self.isint(x) for x in (a, b)) and self.entails(st.pc, z3.And(e <= big, e >= -big))
                    env[i[1]] = self.rnd(st, e, ex)
                elif z3.is_bool(a): env[i[1]] = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[i[2]](a, b)
                elif i[2] in BIN: env[i[1]] = BIN[i[2]](a, b)
                else: raise Unsupported(i[2])
            elif op == 'icmp':
                a, b = self.val(env, i[3], i[4]), self.val(env, i[3], i[5])
                if isinstance(a, tuple) or isinstance(b, tuple):
                    if a[1] != b[1]: env[i[1]] = z3.BoolVal(i[2] == 'ne'); continue
                    a, b = a[2], b[2]
                env[i[1]] = PRED[i[2]](self.b2v(a), self.b2v(b))
            elif op == 'cast':
                v = self.val(env, i[3], i[4]); k = i[2]
                if k in ('uitofp', 'sitofp'):
                    v = self.b2v(v); w = v.size(); x = self.freshR(); lo, hi = (0, 2 ** w - 1) if k == 'uitofp' else (-2 ** (w - 1), 2 ** (w - 1) - 1)
                    if w > 53: raise Unsupported('conversion that may round')
                    zi = self.toint(v, k == 'sitofp', st); st.pc.append(x == z3.ToReal(zi)); st.pc += [zi >= lo, zi <= hi]
                    if k == 'uitofp':
                        for c in (0, 2 ** w - 1):
                            if self.entails([p for p in st.pc if not self.real(p)], v != c): st.pc.append(zi != c)
                    self.reals[x.get_id()] = (x, True); env[i[1]] = x
                elif k in ('fptoui', 'fptosi'):
                    w = i[5][1]; lo, hi = (0, 2 ** w) if k == 'fptoui' else (-2 ** (w - 1), 2 ** (w - 1))
                    self.need(st, z3.And(v > lo - 1, v < hi), 'the conversion to an integer is in range')
                    r = self.fresh(w, 'trunc'); zi = self.toint(r, k == 'fptosi', st)
                    st.pc += [z3.Implies(v >= 0, z3.And(z3.ToReal(zi) <= v, v < z3.ToReal(zi) + 1)), z3.Implies(v < 0, z3.And(z3.ToReal(zi) >= v, v > z3.ToReal(zi) - 1))]
                    env[i[1]] = r
                else:
                    if not z3.is_expr(v): raise Unsupported(k)
                    v = self.b2v(v); w = i[5][1]
                    if k == 'zext': r = z3.ZeroExt(w - v.size(), v)
                    elif k == 'sext': r = z3.SignExt(w - v.size(), v)
                    elif k == 'trunc': r = z3.Extract(w - 1, 0, v) if w > 1 else z3.Extract(0, 0, v) == 1
                    else: raise Unsupported(k)
                    env[i[1]] = r
            elif op == 'select':
                c = self.val(env, ('i', 1), i[2]); a, b = self.val(env, i[3], i[4]), self.val(env, i[3], i[5])
                if isinstance(a, tuple):
                    if a[1] != b[1]: raise Unsupported('select of pointers')
                    env[i[1]] = ('p', a[1], z3.If(c, a[2], b[2]))
                else: env[i[1]] = z3.If(c, a, b)
            elif op == 'freeze': env[i[1]] = self.val(env, i[2], i[3])
            elif op == 'alloca': self.k += 1; env[i[1]] = ('p', f'a{self.k}', B(0, 64))
            elif op == 'gep':
                b = self.val(env, ('ptr',), i[3]); off = b[2]; t = i[2]
                for j, (it, iv) in enumerate(i[4]):
                    x = self.val(env, it, iv); x = z3.SignExt(64 - x.size(), x) if x.size() < 64 else x
                    if j == 0: off = off + x * self.m.size(t); continue
                    t = self.m.resolve(t)
                    if t[0] == 'arr': t = t[2]; off = off + x * self.m.size(t)
                    else: o, t = self.m.field_off(t, iv[1]); off = off + o
                env[i[1]] = ('p', b[1], z3.simplify(off))
            elif op == 'load':
                p = self.val(env, ('ptr',), i[3]); env[i[1]] = self.load(st, p, i[2])
            elif op == 'store':
                p = self.val(env, ('ptr',), i[3]); self.store(st, p, i[1], self.val(env, i[1], i[2]))
            elif op == 'call':
                nm = i[3][1] if i[3][0] == 'g' else None
                if nm is None: raise Unsupported('indirect call')
                if 'lifetime' in nm: continue
                a = [self.val(env, t, o) for t, o in i[4]]; out = []
                for s, v in self.call(nm, a, st, i[2]):
                    e = dict(env); e[i[1]] = v; out += self.rest(fn, label, ins[n + 1:], e, s, active)
                return out
            elif op == 'br': return self.go(fn, i[1], label, env, st, active)
            elif op == 'cbr':
                c = self.val(env, ('i', 1), i[1]); out = []
                for l, g in ((i[2], c), (i[3], z3.Not(c))):
                    if self.ck(st.pc, g) == z3.unsat: continue
                    s = st.copy(); s.pc.append(g); out += self.go(fn, l, label, env, s, active)
                return out
            elif op == 'switch':
                v = self.val(env, i[1], i[2]); out = []; none = []
                for cv, l in i[4]:
                    g = v == cv; none.append(z3.Not(g))
                    if self.ck(st.pc, g) != z3.unsat: s = st.copy(); s.pc.append(g); out += self.go(fn, l, label, env, s, active)
                if self.ck(st.pc, *none) != z3.unsat: s = st.copy(); s.pc += none; out += self.go(fn, i[3], label, env, s, active)
                return out
            elif op == 'ret': return [(st, self.val(env, i[1], i[2]) if i[2] else None)]
            elif op == 'unreachable': return []
            else: raise Unsupported(op)
        raise Unsupported('block without end')
    def real(self, p): return any(z3.is_real(x) or z3.is_int(x) for x in self.subs(p))
    def subs(self, e):
        yield e
        for c in e.children(): yield from self.subs(c)
    ints = None
    def toint(self, v, signed, st):
        """an integer standing for a bit vector, linear in what it is built from where that cannot overflow"""
        if self.ints is None: self.ints = {}
        if z3.is_bv_value(v): return z3.IntVal(v.as_signed_long() if signed else v.as_long())
        k = (v.get_id(), signed)
        if k not in self.ints: self.k += 1; self.ints[k] = (v, z3.Int(f'i!{self.k}'))
        return self.ints[k][1]
    def load(self, st, p, t):
        if t[0] == 'ptr': return ('p', None if p[1] is None else f'{p[1]}->{z3.simplify(p[2])}', B(0, 64))
        w = t[1]; o = z3.simplify(p[2])
        if p[1] == 'ctx' and w == 8 and (not z3.is_bv_value(o) or self.L['b'] <= o.as_long() < self.L['b'] + self.L['bn']):
            x = self.fresh(8, 'byte'); self.src[x.get_id()] = (x, o); return x
        if not z3.is_bv_value(o): return self.fresh(w)
        k = (p[1], o.as_long(), w // 8)
        if k not in st.cells: st.cells[k] = self.fresh(w)
        return st.cells[k]
    def store(self, st, p, t, v):
        o = z3.simplify(p[2])
        if p[1] == 'out':
            s = self.src.get(v.get_id()) if z3.is_expr(v) else None
            if s is None: raise Unsupported('a byte that does not come from the block')
            self.deliver(st, p[2], s[1], B(1, 64)); return
        n = t[1] // 8 if t[0] == 'i' else 8
        if not z3.is_bv_value(o):
            if p[1] == 'ctx': raise Unsupported('indexed store into the generator')
            st.cells = {k: x for k, x in st.cells.items() if k[0] != p[1]}; return
        o = o.as_long()
        if p[1] == 'ctx' and self.target == 'RaRandomBytes' and (o < self.L['l'] + 4 and o + n > self.L['l'] or o + n > self.L['b'] and o < self.L['b'] + self.L['bn']): raise Bad('the block is refreshed by RaRandomUpdate only')
        st.cells = {k: x for k, x in st.cells.items() if k[0] != p[1] or k[1] + k[2] <= o or k[1] >= o + n}
        if t[0] == 'i': st.cells[(p[1], o, n)] = v
    def deliver(self, st, dst, src, n):
        self.need(st, dst == st.D, 'bytes are delivered in order, without gap or overlap')
        self.need(st, src == self.L['b'] + st.c, 'the next bytes of the stream are delivered')
        self.need(st, z3.And(z3.ULE(n, self.len64 - st.c), z3.ULE(st.c, self.len64)), 'only bytes of the current block are delivered')
        self.need(st, z3.And(z3.ULE(n, self.lim - st.D), z3.ULE(st.D, self.lim)), 'no more than requested is delivered')
        st.D = st.D + n; st.c = st.c + n
    def call(self, nm, a, st, t):
        if nm.startswith('llvm.memcpy') or nm.startswith('llvm.memmove') or nm in ('memcpy', 'memmove'):
            n = a[2]
            if a[0][1] == 'out':
                if a[1][1] != 'ctx': raise Bad('the stream is what is delivered')
                self.deliver(st, a[0][2], a[1][2], n)
            else: self.wipe(st, a[0])
            return [(st, None)]
        if nm.startswith('llvm.memset'): self.wipe(st, a[0]); return [(st, None)]
        if nm == 'RaRandomUpdate' and self.target == 'RaRandomBytes':
            self.need(st, z3.And(st.c == self.len64), 'a new block is made when the current one is used up')
            if a[0][1] != 'ctx' or a[1][1] != 'ctx': raise Bad('a new block is made from the current one')
            self.need(st, z3.And(a[0][2] == 0, a[1][2] == self.L['b'], z3.SignExt(32, a[2]) == self.len64), 'a new block is made from the current one')
            st.c = B(0, 64); st.updates += 1
            st.cells = {k: v for k, v in st.cells.items() if k[0] == 'ctx' and k[1] == self.L['l']}; st.cells[('ctx', self.L['o'], 4)] = B(0, 32)
            return [(st, None)]
        if self.target == 'RaRandomUpdate':
            if nm.endswith('Final'):
                if len(a) > 1 and a[1][1] == 'ctx' and self.entails(st.pc, a[1][2] == self.L['b']): st.refilled = True
                else: raise Bad('the digest goes to the block')
            elif any(isinstance(x, tuple) and x[1] == 'ctx' for x in a) and not nm.endswith('Update'): raise Unsupported('call of ' + nm)
            for x in a:
                if isinstance(x, tuple) and x[1] != 'ctx': self.wipe(st, x)
            return [(st, None)]
        if nm == 'RaRandomBytes' and self.target in ('RaRandom', 'RaRandomInt'):
            self.wipe(st, a[2]); return [(st, None)]
        if nm == 'RaRandom' and self.target == 'RaRandomInt':
            r = self.freshR(); x = z3.Int(f'draw!{self.k}'); U = 2 ** 32 - 1
            st.pc += [x >= 1, x <= U - 1, r >= z3.ToReal(x) / U * (1 - EPS), r <= z3.ToReal(x) / U * (1 + EPS), r >= 0, r < 1, r <= z3.Q(U - 1, U) * (1 + EPS)]
            return [(st, r)]
        if nm in self.m.funcs:
            f = self.m.funcs[nm]; self.heads[nm] = self.loops(f); return self.go(f, next(iter(f.blocks)), None, {p[1]: x for p, x in zip(f.params, a)}, st, {})
        raise Unsupported('call of ' + nm)
    def wipe(self, st, p): st.cells = {k: v for k, v in st.cells.items() if k[0] != p[1]}
    heads = None; prog = ()
def stream(mod, L, ob):
    """RaRandomBytes delivers the next len bytes of the stream and moves the cursor by len, whatever len is"""
    r = Run(mod, L, 'RaRandomBytes', ob); r.heads = {}; r.prog = []
    f = mod.funcs['RaRandomBytes']; r.heads[f.name] = r.loops(f)
    st = St(); ln = z3.BitVec('len', 32); L32 = z3.BitVec('buffer_len', 32); o32 = z3.BitVec('buffer_offset', 32)
    st.cells = {('ctx', L['o'], 4): o32, ('ctx', L['l'], 4): L32}
    st.pc = [L32 >= 1, L32 <= L['bn'], o32 >= 0, o32 <= L32]
    r.len64 = z3.SignExt(32, L32); r.lim = z3.If(ln < 0, B(0, 64), z3.SignExt(32, ln)); st.c = z3.SignExt(32, o32)
    a = [('p', 'ctx', B(0, 64)), ln, ('p', 'out', B(0, 64))]
    outs = r.go(f, next(iter(f.blocks)), None, {p[1]: x for p, x in zip(f.params, a)}, st, {})
    if not outs: raise Bad('the function returns')
    for s, v in outs:
        r.need(s, s.D == r.lim, 'exactly the requested number of bytes is delivered')
        x = s.cells.get(('ctx', L['o'], 4)); r.need(s, z3.ZeroExt(32, x) == s.c if x is not None else z3.BoolVal(False), 'the cursor moves by what was delivered')
        y = s.cells.get(('ctx', L['l'], 4)); r.need(s, y == L32 if y is not None else z3.BoolVal(False), 'the length of a block never changes')
    for pc, d1, d0 in r.prog: ob('every iteration makes progress', r.entails(pc, z3.UGT(d1, d0)), '')
    return r
def update(mod, L, ob):
    """RaRandomUpdate makes a new block and resets the cursor"""
    r = Run(mod, L, 'RaRandomUpdate', ob); r.heads = {}; r.prog = []
    f = mod.funcs['RaRandomUpdate']; r.heads[f.name] = r.loops(f)
    st = St(); L32 = z3.BitVec('buffer_len', 32); st.cells = {('ctx', L['l'], 4): L32}
    a = [('p', 'ctx', B(0, 64)), ('p', 'src', B(0, 64)), z3.BitVec('n', 32)]
    outs = r.go(f, next(iter(f.blocks)), None, {p[1]: x for p, x in zip(f.params, a)}, st, {})
    if not outs: raise Bad('the function returns')
    for s, v in outs:
        x = s.cells.get(('ctx', L['o'], 4)); r.need(s, x == 0 if x is not None else z3.BoolVal(False), 'a new block starts at its first byte')
        ob('a new block is the digest of the chained state', s.refilled, 'no digest is written to the block')
        y = s.cells.get(('ctx', L['l'], 4)); r.need(s, y == L32 if y is not None else z3.BoolVal(False), 'the length of a block never changes')
def fraction(mod, L, ob):
    r = Run(mod, L, 'RaRandom', ob); r.heads = {}; r.prog = []
    f = mod.funcs['RaRandom']; r.heads[f.name] = r.loops(f)
    outs = r.go(f, next(iter(f.blocks)), None, {f.params[0][1]: ('p', 'ctx', B(0, 64))}, St(), {})
    if not outs: raise Bad('the function returns')
    U = 2 ** 32 - 1
    for s, v in outs:
        r.need(s, z3.And(v > 0, v < 1), 'a drawn fraction lies strictly between 0 and 1')
        r.need(s, v <= z3.Q(U - 1, U) * (1 + EPS), 'a drawn fraction is at most (2^32 - 2) / (2^32 - 1), rounded')
def integer(mod, L, ob):
    r = Run(mod, L, 'RaRandomInt', ob); r.heads = {}; r.prog = []
    f = mod.funcs['RaRandomInt']; r.heads[f.name] = r.loops(f)
    st = St(); lo, hi = z3.BitVec('min', 32), z3.BitVec('max', 32); st.pc = [z3.ULE(lo, hi)]
    il, ih = r.toint(lo, False, st), r.toint(hi, False, st); st.pc += [il >= 0, il <= ih, ih < 2 ** 32]
    outs = r.go(f, next(iter(f.blocks)), None, {p[1]: x for p, x in zip(f.params, [('p', 'ctx', B(0, 64)), lo, hi])}, st, {})
    if not outs: raise Bad('the function returns')
    for s, v in outs:
        # the result as an integer: sums of tracked integers
        def lin(e):
            if z3.is_app_of(e, z3.Z3_OP_BADD): return sum(lin(c) for c in e.children())
            return r.toint(e, False, s)
        t = lin(z3.simplify(v)); q = z3.And(t >= il, t <= ih)
        r.need(s, q, 'a drawn integer lies in its range')
def prove(ctx):
    mods = front.build_ir(['random'], defs=['-DNDEBUG'], tolerant=True); mod = mods['random']; L = layout(); t = time.time()
    for fn, g in (('RaRandomBytes', stream), ('RaRandomUpdate', update), ('RaRandom', fraction), ('RaRandomInt', integer)):
        fails = []
        def ob(what, ok, msg=''):
            (ctx.ob(f'{fn}: {what}', ok, msg, 'z3 (bit vectors, integers and reals)'))
            if not ok: fails.append(what)
        if fn not in mod.funcs:
            ctx.ob(f'{fn}: contract', False, 'the function is gone'); continue
        try: g(mod, L, ob)
        except Bad as e:
            if not fails: ctx.ob(f'{fn}: {e}', False, '')
        except Unsupported as e: ctx.ob(f'{fn}: the verifier cannot process the changed code', False, str(e)); ctx.undecided.append(fn)
        except KeyError as e: ctx.ob(f'{fn}: the verifier cannot process the changed code', False, 'KeyError ' + str(e)); ctx.undecided.append(fn)
        ctx.functions.add(fn)
    ctx.solver_s += time.time() - t
