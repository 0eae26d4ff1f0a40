"""C24: RaMontExpMod computes base^exponent for an exponent of any length, given the contracts of the Montgomery operations.
The function is executed over abstract numbers: a number is base^e in Montgomery form.  Let P be the value of the exponent bits read so far;
the relation  P = e * 2^s + q  with known s, q is kept for the running power.  Reading a bit makes it (s + 1, 2 q + bit), squaring (s - 1, q),
multiplying by base^w (s, q - w 2^s).  The control state and (s, q) range over a finite set, which is explored completely: every reachable
state is an inductive invariant for exponents of any length."""
from irv import front
from irv.hv import Unsupported
from .hvres import layout
class Bad(Exception): pass
M32 = (1 << 32) - 1
def sx(v, w): return v - (1 << w) if v >> (w - 1) else v
class Run:
    def __init__(self, mod, L, N): self.m = mod; self.L = L; self.fn = mod.funcs['RaMontExpMod']; self.off = N; self.live = self.liveness(self.fn); self.heads = self.back(self.fn); self.states = 0; self.n = 0
    def succ(self, fn, b):
        i = fn.blocks[b][-1]
        return [i[1]] if i[0] == 'br' else [i[2], i[3]] if i[0] == 'cbr' else [l for _, l in i[4]] + [i[3]] if i[0] == 'switch' else []
    def back(self, fn):
        H = set(); on = set(); seen = set()
        def dfs(b):
            seen.add(b); on.add(b)
            for s in self.succ(fn, b):
                if s in on: H.add(s)
                elif s not in seen: dfs(s)
            on.discard(b)
        dfs(next(iter(fn.blocks))); return H
    def uses(self, x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'l' and isinstance(x[1], str): yield x[1]
            else:
                for y in x: yield from self.uses(y)
        elif isinstance(x, list):
            for y in x: yield from self.uses(y)
    def liveness(self, fn):
        use, dfn, pe = {}, {}, {}
        for b, l in fn.blocks.items():
            u, d = set(), set()
            for i in l:
                if i[0] == 'phi':
                    d.add(i[1])
                    for v, p in i[3]: pe.setdefault((p, b), set()).update(self.uses((v,)))
                    continue
                u |= {x for x in self.uses(tuple(i)) if x not in d}
                if isinstance(i[1], str) and i[1].startswith('%') and i[0] not in ('br',): d.add(i[1])
            use[b], dfn[b] = u, d
        L = {b: set() for b in fn.blocks}; ch = True
        while ch:
            ch = False
            for b in fn.blocks:
                o = set()
                for s in self.succ(fn, b): o |= L[s] | pe.get((b, s), set())
                n = use[b] | (o - dfn[b])
                if n != L[b]: L[b] = n; ch = True
        return L
    # ---- state: dict(env, mem, rep, g)  g: (bits read in the current word, known last word or None, started)
    def explore(self):
        fn = self.fn; P = [p[1] for p in fn.params]
        st = dict(env={P[0]: ('p', 'ctx', 0), P[1]: ('p', 'r', 0), P[2]: ('p', 'a', 0), P[3]: ('p', 'b', 0)}, mem={}, rep={'a': ('base',), 'r': ('other',)}, live=frozenset(), nread=0, last=None, cur=0, bit=None, started=False, toolong=None, ok=True)
        work = [(next(iter(fn.blocks)), None, st)]; seen = set(); self.rets = 0; self.good = 0
        while work:
            b, p, s = work.pop()
            ph = {}
            for i in fn.blocks[b]:
                if i[0] == 'phi': ph[i[1]] = self.val(s, i[2], next(v for v, l in i[3] if l == p))
            env = {k: v for k, v in s['env'].items() if k in self.live[b]}; env.update(ph); s = dict(s, env=env)
            if b in self.heads:
                k = (b, self.freeze(s))
                if k in seen: continue
                seen.add(k); self.states += 1
                if self.states > 60000: raise Bad('the running power keeps a bounded distance from the exponent bits read')
            work += self.block(b, [i for i in fn.blocks[b] if i[0] != 'phi'], s)
        return seen
    def freeze(self, s): return repr([(k, sorted(v.items(), key=repr) if isinstance(v, dict) else v) for k, v in sorted(s.items())])
    def val(self, s, t, o):
        if o[0] == 'l': return s['env'].get(o[1], ('?',))
        if o[0] == 'c': return o[1] & ((1 << t[1]) - 1) if t[0] == 'i' else 0
        if o[0] == 'g': return ('p', '@' + o[1], 0)
        if o[0] == 'z': return 0
        if o[0] in ('undef', 'poison', 'u'): return ('?',)
        raise Unsupported(f'operand {o}')
    def split(self, s, key, vals): return [dict(s, **{key: v}) for v in vals]
    def cond(self, s, c):
        """[(truth, state)]"""
        if isinstance(c, int): return [(bool(c), s)]
        if c[0] == 'any': return [(True, s), (False, s)]
        if c[0] == 'bit':      # ('bit', value when the bit is set)
            out = []
            for v, x in self.readbit(s, c[1]): out.append((bool(v) == c[2], x))
            return out
        if c[0] == 'last':     # value if last, value otherwise
            if s['last'] is None: return [(c[1], dict(s, last=True)), (c[2], dict(s, last=False))]
            return [(c[1] if s['last'] else c[2], s)]
        if c[0] == 'long':
            if s['toolong'] is None: return [(c[1], dict(s, toolong=True)), (not c[1], dict(s, toolong=False))]
            return [(c[1] == s['toolong'], s)]
        raise Unsupported(f'branch on {c}')
    def readbit(self, s, w):
        d, pos = w
        if s['nread'] and (d, pos) == (s['cur'], 64 - s['nread']): return [(s['bit'], s)]      # the same bit once more
        n = s['nread'] ; x = dict(s)
        if n == 64:
            if s['last'] is None:
                x['last'] = False
            elif s['last']: raise Bad('no word below the lowest one is read')
            # the next word becomes the current one
            n = 0
            def rb(v):
                if not isinstance(v, tuple): return v
                if v[0] in ('ci', 'cp', 'w', 'ws'): return (v[0], v[1] + 1) + tuple(v[2:])
                if v[0] in ('bit', 'bitw', 'bit01'): return (v[0], (v[1][0] + 1, v[1][1])) + tuple(v[2:])
                return v
            if d != -1: raise Bad('the words of the exponent are read from the top, each once')
            x['env'] = {k: rb(v) for k, v in s['env'].items()}; x['mem'] = {k: rb(v) for k, v in s['mem'].items()}; x['last'] = None; d = 0
        if d != 0 or pos != 63 - n: raise Bad('the bits of the exponent are read from the top, each once')
        out = []
        for v in (0, 1):
            y = dict(x, nread=n + 1, bit=v); y['rep'] = {}
            for k, r in x['rep'].items():
                if r == ('exp', 0) and not s['started']: r = ('lin', 0, 0)
                y['rep'][k] = ('lin', r[1] + 1, 2 * r[2] + v) if r[0] == 'lin' else r
            y['started'] = True
            out.append((v, y))
        return out
    def cmp(self, s, op, a, b, w):
        f = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'ult': lambda x, y: x < y, 'ule': lambda x, y: x <= y, 'ugt': lambda x, y: x > y, 'uge': lambda x, y: x >= y,
             'slt': lambda x, y: sx(x, w) < sx(y, w), 'sle': lambda x, y: sx(x, w) <= sx(y, w), 'sgt': lambda x, y: sx(x, w) > sx(y, w), 'sge': lambda x, y: sx(x, w) >= sx(y, w)}[op]
        if isinstance(a, int) and isinstance(b, int): return int(f(a, b))
        if isinstance(a, tuple) and a[0] == 'p' or isinstance(b, tuple) and b[0] == 'p':
            if op not in ('eq', 'ne'): raise Unsupported('order of pointers')
            return int((a == b) == (op == 'eq'))
        if isinstance(a, tuple) and a[0] == 'ci' and isinstance(b, int):
            m = (1 << w) - 1; t = lambda c: bool(f((c + a[1]) & m, b))
            v = {t(c) for c in (1, 2, 3, 1 << 20)}
            if len(v) != 1: raise Unsupported('comparison of the word index')
            v = v.pop(); z = t(0)
            return int(v) if v == z else ('last', z, v)
        if isinstance(a, tuple) and a[0] == 'bitw' and b == 0 and op in ('eq', 'ne'): return ('bit', a[1], op == 'ne')
        if isinstance(a, tuple) and a[0] == 'bitw' and op in ('eq', 'ne') and b == 1 << a[1][1]: return ('bit', a[1], op == 'eq')
        if isinstance(a, tuple) and isinstance(b, tuple) and {a[0], b[0]} == {'len'} and {a[1], b[1]} == {'a', 'N'}:
            m = {'sgt': 1, 'sle': 0, 'ugt': 1, 'ule': 0} if a[1] == 'a' else {'slt': 1, 'sge': 0, 'ult': 1, 'uge': 0}
            if op in m: return ('long', bool(m[op]))
        if isinstance(a, tuple) and a[0] in ('err', '?', 'len') or isinstance(b, tuple) and b[0] in ('?', 'len', 'err'):
            if isinstance(a, tuple) and a[0] == 'err' and b == 0: return 1 if op == 'ne' else 0 if op == 'eq' else ('any',)
            if isinstance(a, tuple) and a[0] == '?' or isinstance(b, tuple) and b[0] == '?': raise Bad('no branch depends on something unknown')
            return ('any',)
        raise Unsupported(f'comparison {op} {a} {b}')
    def block(self, label, ins, s):
        fn = self.fn; self.n += 1
        for k, i in enumerate(ins):
            op = i[0]; env = s['env']
            def setv(v):
                nonlocal s
                s = dict(s, env=dict(s['env'], **{i[1]: v}))
            if op == 'bin':
                a, b = self.val(s, i[3], i[4]), self.val(s, i[3], i[5]); w = i[3][1]; m = (1 << w) - 1
                if isinstance(a, int) and isinstance(b, int):
                    if i[2] in ('shl', 'lshr', 'ashr') and b >= w: raise Bad('shift amount below the width')
                    r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: a >> b, 'ashr': lambda: sx(a, w) >> b,
                         'udiv': lambda: a // b, 'urem': lambda: a % b, 'sdiv': lambda: int(sx(a, w) / sx(b, w)), 'srem': lambda: sx(a, w) - sx(b, w) * int(sx(a, w) / sx(b, w))}
                    if i[2] not in r: raise Unsupported(i[2])
                    setv(r[i[2]]() & m); continue
                if isinstance(a, int) and i[2] in ('add', 'and', 'mul', 'or'): a, b = b, a
                if isinstance(a, tuple) and a[0] == 'ci' and isinstance(b, int) and i[2] in ('add', 'sub'): setv(('ci', a[1] + (sx(b, w) if i[2] == 'add' else -sx(b, w)))); continue
                if isinstance(a, tuple) and a[0] == 'w' and isinstance(b, int) and i[2] == 'and' and b and b & (b - 1) == 0: setv(('bitw', (a[1], b.bit_length() - 1))); continue
                if isinstance(a, tuple) and a[0] == 'w' and isinstance(b, int) and i[2] == 'lshr': setv(('ws', a[1], b)); continue
                if isinstance(a, tuple) and a[0] == 'ws' and b == 1 and i[2] == 'and': setv(('bit01', (a[1], a[2]))); continue
                if i[2] in ('and', 'or', 'xor') and w == 1:
                    out = []
                    for x, s1 in self.cond(s, a):
                        for y, s2 in self.cond(s1, b):
                            v = {'and': x and y, 'or': x or y, 'xor': x != y}[i[2]]
                            out += self.block(label, ins[k + 1:], dict(s2, env=dict(s2['env'], **{i[1]: int(v)})))
                    return out
                out = self.concrete(s, (a, b), label, ins[k:])
                if out is not None: return out
                if isinstance(a, tuple) and a[0] in ('len', 'ci') : setv(('len', '?')); continue
                raise Unsupported(f'{i[2]} of {a} and {b}')
            elif op == 'icmp':
                a, b = self.val(s, i[3], i[4]), self.val(s, i[3], i[5])
                out = self.concrete(s, (a, b), label, ins[k:])
                if out is not None: return out
                setv(self.cmp(s, i[2], a, b, i[3][1] if i[3][0] == 'i' else 64))
            elif op == 'cast':
                v = self.val(s, i[3], i[4])
                if isinstance(v, int): setv({'zext': v, 'sext': sx(v, i[3][1]) & ((1 << i[5][1]) - 1), 'trunc': v & ((1 << i[5][1]) - 1)}[i[2]] if i[2] in ('zext', 'sext', 'trunc') else v)
                elif v[0] in ('any', 'bit', 'last', 'long'):
                    out = []
                    for t, s1 in self.cond(s, v): out += self.block(label, ins[k + 1:], dict(s1, env=dict(s1['env'], **{i[1]: int(t) if i[2] == 'zext' else (-int(t)) & ((1 << i[5][1]) - 1)})))
                    return out
                elif v[0] in ('ci', 'len', 'err', '?'): setv(v)
                else:
                    out = self.concrete(s, (v,), label, ins[k:])
                    if out is not None: return out
                    raise Unsupported(f'{i[2]} of {v}')
            elif op == 'select':
                out = []
                for t, s1 in self.cond(s, self.val(s, ('i', 1), i[2])): out += self.block(label, ins[k + 1:], dict(s1, env=dict(s1['env'], **{i[1]: self.val(s1, i[3], i[4] if t else i[5])})))
                return out
            elif op == 'freeze': setv(self.val(s, i[2], i[3]))
            elif op == 'alloca': setv(('p', 'L' + i[1], 0))
            elif op == 'gep':
                b = self.val(s, ('ptr',), i[3]); t = i[2]
                if b[0] == 'cp':
                    x = self.val(s, *i[4][0]); sz = self.m.size(t)
                    if len(i[4]) != 1 or sz != 8: raise Unsupported('pointer into the exponent')
                    if isinstance(x, int): setv(('cp', b[1] + sx(x, i[4][0][0][1]))); continue
                    raise Unsupported('pointer into the exponent')
                if b[0] == 'dp':       # start of the words of b
                    x = self.val(s, *i[4][-1])
                    if isinstance(x, tuple) and x[0] == 'ci' and all(self.val(s, *q) == 0 for q in i[4][:-1]) and self.m.size(t if len(i[4]) == 1 else self.m.resolve(t)[2]) == 8: setv(('cp', x[1])); continue
                    if all(self.val(s, *q) == 0 for q in i[4]): setv(b); continue
                    raise Unsupported('index into the exponent')
                if b[0] != 'p': raise Unsupported(f'pointer {b}')
                off = b[2]
                for j, (it, iv) in enumerate(i[4]):
                    x = self.val(s, it, iv)
                    if not isinstance(x, int):
                        if b[1] == 'b' and off == self.L['bn.data'] and x[0] == 'ci': off = ('idx', x); break
                        raise Unsupported('index')
                    x = sx(x, it[1])
                    if j == 0: off += x * self.m.size(t); continue
                    t = self.m.resolve(t)
                    if t[0] == 'arr': t = t[2]; off += x * self.m.size(t)
                    else: o, t = self.m.field_off(t, iv[1]); off += o
                setv(('cp', off[1][1]) if isinstance(off, tuple) else ('p', b[1], off))
            elif op == 'load':
                p = self.val(s, ('ptr',), i[3])
                if p[0] == 'cp':
                    setv(('w', p[1])); continue
                if p[0] != 'p': raise Unsupported(f'load {p}')
                setv(self.load(s, p, i[2]))
            elif op == 'store':
                p = self.val(s, ('ptr',), i[3])
                if p[0] != 'p' or not p[1].startswith('L'): raise Bad('numbers are changed by the arithmetic functions only')
                s = dict(s, mem=dict(s['mem'], **{repr((p[1], p[2])): self.val(s, i[1], i[2])}))
            elif op == 'call':
                if i[3][0] != 'g': raise Unsupported('indirect call')
                nm = i[3][1]
                if 'lifetime' in nm: continue
                a = [self.val(s, t, o) for t, o in i[4]]; out = []
                for v, s1 in self.call(s, nm, a, i[1]): out += self.block(label, ins[k + 1:], s1 if i[1] is None else dict(s1, env=dict(s1['env'], **{i[1]: v})))
                return out
            elif op == 'br': return [(i[1], label, s)]
            elif op == 'cbr': return [(i[2] if t else i[3], label, s1) for t, s1 in self.cond(s, self.val(s, ('i', 1), i[1]))]
            elif op == 'switch':
                v = self.val(s, i[1], i[2])
                if not isinstance(v, int): raise Unsupported('switch')
                return [(next((l for c, l in i[4] if c == v), i[3]), label, s)]
            elif op == 'ret': self.ret(s, self.val(s, i[1], i[2])); return []
            elif op == 'unreachable': return []
            else: raise Unsupported(op)
        raise Unsupported('block without end')
    def concrete(self, s, vs, label, ins):
        """an extracted bit that is used as a number: one case for each value"""
        for v in vs:
            if isinstance(v, tuple) and v[0] in ('bit01', 'bitw'):
                if v[0] == 'bitw' and ins[0][0] == 'icmp': continue
                out = []
                for b, x in self.readbit(s, v[1]):
                    w = v if x['nread'] != 1 or not s['nread'] else (v[0], (v[1][0] + 1, v[1][1]))      # its name after the next word became the current one
                    e = {k: ((b if v[0] == 'bit01' else b << v[1][1]) if y == w else y) for k, y in x['env'].items()}
                    out += self.block(label, ins, dict(x, env=e))
                return out
        return None
    def load(self, s, p, t):
        o, off = p[1], p[2]; L = self.L
        if o == 'ctx':
            if off == self.off: return ('p', 'N', 0)
            return ('len', 'ctx') if t[0] == 'i' else ('p', 'ctxfield', 0)
        if o in ('a', 'N', 'r') and t == ('i', 32): return ('len', o) if off == L['bn.length'] else ('len', '?')
        if o == 'b':
            if off == L['bn.length']: return ('len', '?') if s['started'] else ('ci', 1)
            if off == L['bn.data']: return ('dp',)
            return ('len', '?')
        if o.startswith('L'):
            r = s['mem'].get(repr((o, off)))
            if r is None: raise Bad('no uninitialised value is used') if t[0] == 'ptr' else Unsupported('local')
            return r
        raise Unsupported(f'load of {p}')
    def obj(self, s, v, what):
        if not (isinstance(v, tuple) and v[0] == 'p' and v[2] == 0): raise Bad(f'{what}: a number is passed')
        return v[1]
    def call(self, s, nm, a, dst):
        if nm.startswith('llvm.memset'):
            o = a[0]
            if not o[1].startswith('L') or a[1] != 0 or not isinstance(a[2], int): raise Bad('numbers are changed by the arithmetic functions only')
            m = dict(s['mem']); m.update({repr((o[1], o[2] + 8 * j)): 0 for j in range(a[2] // 8)}); return [(None, dict(s, mem=m))]
        if nm in ('BnNewW', 'BnNew'):
            k = 'H%d' % len([x for x in s['rep'] if x.startswith('H')])
            return [(0, s), (('p', k, 0), dict(s, rep=dict(s['rep'], **{k: ('other',)}), live=s['live'] | {k}))]
        if nm in ('BnFree', 'BnClearFree'):
            o = a[0]
            if o == 0: return [(None, s)]
            o = self.obj(s, o, nm)
            return [(None, dict(s, live=s['live'] - {o}))]
        def rep(o, what):
            r = s['rep'].get(o)
            if r is None: raise Bad(what + ': unknown number')
            return r
        put = lambda o, r: dict(s, rep=dict(s['rep'], **{o: r}))
        if nm == 'BnSetUInt' or nm == 'BnSetInt':
            if not isinstance(a[1], int): raise Unsupported('value')
            return [(None if nm == 'x' else 0, put(self.obj(s, a[0], nm), ('int', a[1])))]
        if nm == 'BnSet':
            return [(0, put(self.obj(s, a[0], nm), rep(self.obj(s, a[1], nm), nm)))]
        if nm in ('MontSet', 'MontMul', 'MontSqr', 'MontREDC'):
            if a[0] != ('p', 'ctx', 0): raise Bad(nm + ': the modulus object is passed')
            d = self.obj(s, a[1], nm); x = rep(self.obj(s, a[2], nm), nm)
            if d in ('a', 'b', 'N'): raise Bad('operands keep their value')
            if nm == 'MontSet':
                if s['toolong'] is not False: raise Bad('a base of more words than the modulus is refused before it is used')
                r = ('exp', 1) if x == ('base',) else ('exp', 0) if x == ('int', 1) else None
                if r is None: raise Bad(f'MontSet of {x}')
                return [(('err',), put(d, ('other',))), (0, put(d, r))]
            if nm == 'MontREDC':
                if x[0] not in ('exp', 'lin'): raise Bad('the reduction is applied to a number in Montgomery form')
                return [(('err',), put(d, ('other',))), (0, put(d, ('plain',) + x))]
            y = x if nm == 'MontSqr' else rep(self.obj(s, a[3], nm), nm)
            if nm == 'MontMul' and self.obj(s, a[2], nm) == self.obj(s, a[3], nm): y = x; nm = 'MontSqr'
            if x[0] not in ('exp', 'lin') or y[0] not in ('exp', 'lin'): raise Bad(f'{nm}: the operands are in Montgomery form')
            if nm == 'MontSqr': r = ('exp', 2 * x[1]) if x[0] == 'exp' else ('lin', x[1] - 1, x[2])
            else:
                if x[0] == 'exp': x, y = y, x
                if y[0] == 'lin': raise Bad('the running power is multiplied by a fixed power of the base')
                r = ('exp', x[1] + y[1]) if x[0] == 'exp' else ('lin', x[1], x[2] - (y[1] << x[1])) if x[1] >= 0 else None
                if r is None: raise Bad('the running power is not ahead of the bits read')
            if r[0] == 'lin' and (not -70 <= r[1] <= 80 or abs(r[2]) > 1 << 90) or r[0] == 'exp' and r[1] > 1 << 64: raise Bad('the running power keeps a bounded distance from the exponent bits read')
            # the results of these are not looked at by the code: a refusal (capacity) is excluded by assumption; where it is looked at, 0 or an error
            return [(0, put(d, r))]
        if nm == 'RaClearMemory': return [(None, s)]
        raise Unsupported('call of ' + nm)
    def ret(self, s, v):
        self.rets += 1
        if s['live']: raise Bad('nothing stays allocated')
        if isinstance(v, tuple) and v[0] == 'err': return
        if v != 0:
            if s['toolong'] is not True and s['rep']['r'] != ('other',): raise Bad('an error is reported only when there was one')
            return
        if s['toolong'] is not False: raise Bad('a base of more words than the modulus is refused')
        r = s['rep']['r']
        if s['nread'] != 64 or s['last'] is not True: raise Bad('every bit of the exponent is used')
        if r[0] != 'plain' or r[1] != 'lin' or r[2:] != (0, 0): raise Bad(f'the result is base^exponent: exponent bits = e * 2^{r[2]} + {r[3]} for the power e reached' if len(r) == 4 else f'the result is base^exponent: {r}')
        self.good += 1
def prove(ctx):
    mods = front.build_ir(['montexpmod'], defs=['-DNDEBUG'], tolerant=True); L = layout()
    mod = mods['montexpmod']
    ctx.functions.add('RaMontExpMod')
    N = 0        # the modulus is the first field of the modulus object
    try:
        r = Run(mod, L, N); seen = r.explore()
        ctx.ob('RaMontExpMod: the result is base^exponent on every successful path, for exponents of any length', r.good > 0, 'no path succeeds', 'irv finite-state invariant (exponent relation)', max(r.good, 1))
        ctx.ob('RaMontExpMod: inductive states (control state, relation between the running power and the exponent bits read)', True, '', 'irv finite-state invariant (exponent relation)', r.states)
        ctx.ob('RaMontExpMod: returns', True, '', 'irv finite-state invariant (exponent relation)', r.rets)
    except Bad as e: ctx.ob('RaMontExpMod: ' + str(e), False, '')
    except (Unsupported, KeyError, RecursionError) as e: ctx.ob('RaMontExpMod: the verifier cannot process the changed code', False, repr(e)[:300]); ctx.undecided.append('RaMontExpMod')
