"""C30: the rounds of CheckMillerRabin, every outcome of every draw and comparison, over the contracts of the exponentiation and of the comparisons.
Bounded: n - 1 = 2^s d with s up to a limit, and the round counts the library uses; the numbers themselves (draws, powers) are abstract."""
from irv import front
from irv.hv import Unsupported
from .hvres import layout
from . import mexp
from .mexp import Bad, sx
BACK = 'irv finite-state exploration (draws and powers abstract)'
def ne(f): return f in ('lt', 'gt', 'ne')
class Run(mexp.Run):
    def __init__(self, mod, L, S, count, top):
        self.m = mod; self.L = L; self.fn = mod.funcs['CheckMillerRabin']; self.live = self.liveness(self.fn); self.heads = self.back(self.fn); self.states = 0; self.n = 0; self.S = S; self.count = count; self.top = top; self.verdicts = set(); self.rets = 0
    def explore(self, single):
        fn = self.fn; P = [p[1] for p in fn.params]
        st = dict(env={P[0]: ('p', 'n', 0), P[1]: self.count, P[2]: ('p', 'rnd', 0), P[3]: ('p', 'out', 0)}, mem={}, rep={'n': ('n',)}, live=frozenset(), facts={}, single=single, rounds=0, round=None, verdict=None)
        work = [(next(iter(fn.blocks)), None, st)]; seen = set()
        while work:
            b, p, s = work.pop(); ph = {}
            for i in fn.blocks[b]:
                if i[0] == 'phi': ph[i[1]] = self.val(s, i[2], next(v for v, l in i[3] if l == p))
            env = {k: v for k, v in s['env'].items() if k in self.live[b]}; env.update(ph); s = dict(s, env=env)
            if b in self.heads:
                k = (b, self.freeze(s))
                if k in seen: continue
                seen.add(k); self.states += 1
                if self.states > 40000: raise Unsupported('too many states')
            work += self.block(b, [i for i in fn.blocks[b] if i[0] != 'phi'], s)
    def cond(self, s, c):
        if isinstance(c, tuple) and c[0] == 'fact':      # (key, set of outcomes for true)
            key, T = c[1], c[2]; f = s['facts'].get(key); out = []
            for o in ('lt', 'eq', 'gt') if f is None else ('lt', 'gt') if f == 'ne' else (f,):
                out.append((o in T, self.learn(s, key, o) if f != o else s))
            return out
        return mexp.Run.cond(self, s, c)
    def learn(self, s, key, o):
        r = s['round']
        if key[0] == 'val' and r is not None and r[0] == 'exp':
            _, k, ok, gap, one, m1 = r
            if key[1] == 'n1':
                if o == 'eq': ok = True
                else: m1 = True
            elif key[1] == 1 and k == 0:
                if o == 'eq': ok = True
                else: one = True
            r = ('exp', k, ok, gap, one, m1)
        return dict(s, facts=dict(s['facts'], **{key: o}) if False else {**s['facts'], key: o}, round=r)
    def cmp(self, s, op, a, b, w):
        if isinstance(a, tuple) and a[0] == 'c3' and isinstance(b, int):
            f = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y, 'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}
            if op not in f: raise Unsupported('comparison ' + op)
            y = sx(b, w)
            if y not in (-1, 0, 1) or y and op in ('eq', 'ne', 'slt', 'sgt') and (op, y) not in (('slt', 1), ('sgt', -1)): raise Unsupported('only the sign of a comparison is known')
            return ('fact', a[1], tuple(o for o, v in (('lt', -1), ('eq', 0), ('gt', 1)) if f[op](v, y)))
        if isinstance(a, tuple) and a[0] in ('many', 'n0') and isinstance(b, int):
            f = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'ult': lambda x, y: x < y, 'ule': lambda x, y: x <= y, 'ugt': lambda x, y: x > y, 'uge': lambda x, y: x >= y, 'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y, 'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}[op]
            V = [2, 3, 4, 1000] if a[0] == 'many' else [5, 7, 9, 1001] if s['single'] else [1, 3, 5, 1001]
            v = {bool(f(x, b)) for x in V}
            return int(v.pop()) if len(v) == 1 else ('any',)
        if isinstance(b, tuple) and b[0] in ('many', 'n0') and isinstance(a, int) and op[0] in 'su':
            return self.cmp(s, {'lt': op[0] + 'gt', 'le': op[0] + 'ge', 'gt': op[0] + 'lt', 'ge': op[0] + 'le'}[op[1:]], b, a, w)
        return mexp.Run.cmp(self, s, op, a, b, w)
    def concrete(self, s, vs, label, ins):
        i = ins[0]
        if i[0] == 'bin' and i[2] == 'and' and set(map(str, vs)) & {'1'} and any(isinstance(v, tuple) and v[0] == 'n0' for v in vs):
            return self.block(label, ins[1:], dict(s, env=dict(s['env'], **{i[1]: 1})))
        if i[0] == 'bin' and any(isinstance(v, tuple) and v[0] in ('many', 'len', 'bits') for v in vs):
            return self.block(label, ins[1:], dict(s, env=dict(s['env'], **{i[1]: ('len', '?')})))
        return None
    def load(self, s, p, t):
        o, off = p[1], p[2]; L = self.L
        if o.startswith('D:'):
            r = s['rep'].get(o[2:])
            if r == ('n',) and off == 0: return ('n0',)
            if r in (('n1',), ('d2',)) and off % 8 == 0:
                j = off // 8; k = self.S // 64
                if j < k: return 0
                if j == k: return (self.top << (self.S % 64)) & ((1 << 64) - 1)
            raise Unsupported('word of a number')
        if o in s['rep']:
            r = s['rep'][o]
            if off == L['bn.length']:
                if r in (('n',), ('n1',)): return 1 if s['single'] and self.S < 64 else ('many',)
                return ('len', '?')
            if off == L['bn.data']: return ('p', 'D:' + o, 0)
            if off == L['bn.sign']:
                if r in (('n',), ('n1',)): return 0
            raise Unsupported('field of a number')
        if o.startswith('L'):
            r = s['mem'].get(repr((o, off)))
            if r is None: raise Bad('no uninitialised value is used')
            return r
        raise Unsupported(f'load of {p}')
    def block(self, label, ins, s):
        # stores to the result
        for k, i in enumerate(ins):
            if i[0] == 'store':
                p = self.val(s, ('ptr',), i[3])
                if p == ('p', 'out', 0):
                    out = mexp.Run.block(self, label, ins[:k] + [('br', '?')], s)
                    res = []
                    for _, _, s1 in out:
                        v = self.val(s1, i[1], i[2])
                        for t, s2 in ([(v != 0, s1)] if isinstance(v, int) else self.cond(s1, v)): res += self.block(label, ins[k + 1:], dict(s2, verdict=self.judge(s2, t)))
                    return res
                break
            if i[0] == 'load':
                pass
        return mexp.Run.block(self, label, ins, s)
    def judge(self, s, v):
        r = s['round']
        if v:
            if s['rounds'] < self.count: raise Bad(f'an odd number above 3 is called prime after all of the {self.count} rounds only')
            if not (r is not None and r[0] == 'exp' and r[2]): raise Bad('an odd number above 3 is called prime only when the base of every round is a strong liar')
        else:
            if r is None or r[0] != 'exp': raise Bad('an odd number above 3 is called composite only because of a witness')
            _, k, ok, gap, one, m1 = r
            if ok or gap or not one or not m1 or k != self.S - 1: raise Bad('a base is a witness only if a^d is not 1 and no a^(d 2^k), k < s, is n - 1')
        return v
    def call(self, s, nm, a, dst):
        rep = lambda i: s['rep'].get(self.obj(s, a[i], nm))
        def put(i, r, **kw):
            o = self.obj(s, a[i], nm)
            if o == 'n': raise Bad('the number keeps its value')
            return dict(s, rep=dict(s['rep'], **{o: r}), **kw)
        if nm in ('BnNewW', 'BnNew', 'BnClone'):
            k = 'H%d' % len([x for x in s['rep'] if x.startswith('H')]); r = ('other',) if nm != 'BnClone' else rep(0)
            return [(0, s), (('p', k, 0), dict(s, rep=dict(s['rep'], **{k: r}), live=s['live'] | {k}))]
        if nm in ('BnFree', 'BnClearFree', 'RaMontDestroy'):
            return [(None, s if a[0] == 0 else dict(s, live=s['live'] - {self.obj(s, a[0], nm)}))]
        if nm in ('BnSubInt', 'BnSubUInt'):
            if rep(0) != ('n',) or a[1] != 1: raise Unsupported('subtraction')
            return [(0, put(0, ('n1',)))]
        if nm == 'BnShiftR':
            if rep(0) != ('n1',): raise Bad('d is n - 1 without its factors of two')
            if a[1] != self.S: raise Bad('d is n - 1 without its factors of two')
            return [(0, put(0, ('d',)))]
        if nm == 'BnGetBitLength':
            return [(('bits',) + (rep(0) or ()), s)]
        if nm == 'RaMontCreate':
            if rep(0) != ('n',): raise Bad('the powers are computed modulo n')
            o = a[1]; return [(('err',), s), (0, dict(s, rep=dict(s['rep'], M=('mont',)), live=s['live'] | {'M'}, mem=dict(s['mem'], **{repr((o[1], o[2])): ('p', 'M', 0)})))]
        if nm in ('BnSetInt', 'BnSetUInt'): return [(0, put(0, ('int', a[1])))]
        if nm == 'BnGenRandom':
            r = s['round']
            if r is not None and r[0] == 'exp' and not r[2]: raise Bad('a witness makes the number composite')
            if a[1][0] != 'bits' or a[1][1:] not in (('n1',), ('n',)): raise Bad('every base can be drawn')
            if a[2] != ('p', 'rnd', 0): raise Bad('bases are drawn from the given generator')
            return [(('err',), put(0, ('other',))), (0, put(0, ('a',), facts={}, rounds=s['rounds'] + (1 if r is None or r[0] == 'exp' else 0), round=('drawn',)))]
        if nm in ('BnCmp', 'BnCmpInt', 'BnCmpUInt'):
            x = rep(0); y = rep(1) if nm == 'BnCmp' else a[1]
            N = {('n',): 'n', ('n1',): 'n1'}
            if x == ('n',) and isinstance(y, int) and y < 5: return [(1, s)]
            kx = 'a' if x == ('a',) else 'val' if x and x[0] == 'pow' else None
            ky = N.get(y) if nm == 'BnCmp' else (y if y < 1 << 63 else None)
            if kx is None or ky is None: raise Unsupported(f'comparison of {x} and {y}')
            return [(('c3', (kx, ky)), s)]
        if nm == 'RaMontExpMod':
            if a[0] != ('p', 'M', 0): raise Bad('the powers are computed modulo n')
            b, e = rep(2), rep(3); err = (('err',), put(1, ('other',)))
            if b == ('a',) and e == ('d',):
                if s['facts'].get(('a', 'n1')) != 'lt' or s['facts'].get(('a', 1)) != 'gt': raise Bad('a base lies between 1 and n - 1')
                return [err, (0, put(1, ('pow', 0), facts={k: v for k, v in s['facts'].items() if k[0] != 'val'}, round=('exp', 0, False, False, False, False)))]
            if b and b[0] == 'pow' and e == ('int', 2):
                _, k, ok, gap, one, m1 = s['round']
                if k + 1 >= self.S: raise Bad('no more than s - 1 squarings')
                return [err, (0, put(1, ('pow', k + 1), facts={q: v for q, v in s['facts'].items() if q[0] != 'val'}, round=('exp', k + 1, ok, gap or not m1, one, False)))]
            raise Unsupported(f'power of {b} to {e}')
        raise Unsupported('call of ' + nm)
    def ret(self, s, v):
        self.rets += 1
        if s['live']: raise Bad('nothing stays allocated')
        if v == 0:
            if s['verdict'] is None: raise Bad('success comes with a verdict')
            self.verdicts.add(s['verdict'])
def prove(ctx):
    mods = front.build_ir(['prime'], defs=['-DNDEBUG'], tolerant=True); L = layout(); mod = mods['prime']; f = 'CheckMillerRabin'
    if f not in mod.funcs: ctx.bounded.append(f'{f}: not a function of its own any more; covered by the search only'); return
    ctx.functions.add(f); smax = 66 if ctx.tier == 'quick' else 200
    st = rt = 0
    try:
        for count, lim in ((3, smax), (5, 3), (1, 3)):
            for S in [x for x in range(1, lim + 1) if ctx.tier != "quick" or x < 8 or x > 63]:
                for single in ((True, False) if S < 64 else (False,)):
                    for top in (1, (1 << 64) - 1) if S < 3 or S > 64 else (1,):
                        r = Run(mod, L, S, count, top); r.explore(single); st += r.states; rt += r.rets
                        if r.verdicts != {True, False}: raise Bad(f'both verdicts are possible ({r.verdicts})')
        ctx.ob(f'{f}: the verdict on every path to a return', True, '', BACK, rt); ctx.ob(f'{f}: states explored', True, '', BACK, st)
        ctx.bounded.append(f'{f}: rounds explored for n - 1 = 2^s d, s in 1..{smax} (quick: 1..7 and 64..66), and 1, 3 and 5 rounds; draws, powers and comparison outcomes are abstract (all)')
    except Bad as e: ctx.ob(f'{f}: {e}', False, '')
    except (Unsupported, KeyError, TypeError, IndexError, RecursionError) as e: ctx.ob(f'{f}: the verifier cannot process the changed code', False, repr(e)[:300]); ctx.undecided.append(f)
