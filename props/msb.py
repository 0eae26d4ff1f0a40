"""The contract of _BnGetMSBPos (position of the top bit of a word) for every word: the function's IR as a bit-vector formula, decided by z3."""
import time, z3
from irv import front
from irv.hv import Unsupported
PRED = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE, 'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b}
BIN = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b, 'shl': lambda a, b: a << b, 'lshr': z3.LShR, 'ashr': lambda a, b: a >> b,
       'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda a, b: a / b, 'srem': z3.SRem}
class Exec:
    """path by path execution of a function without memory writes; loops are unrolled while their condition is decided by the path"""
    def __init__(self, mod): self.m = mod; self.n = 0; self.side = []; self.solver = z3.Solver()
    def val(self, env, t, o):
        if o[0] == 'l': return env[o[1]]
        if o[0] == 'c': return z3.BitVecVal(o[1], t[1]) if t[0] == 'i' and t[1] > 1 else z3.BoolVal(bool(o[1])) if t[0] == 'i' else o[1]
        if o[0] == 'g': return ('g', o[1], [])
        raise Unsupported(f'operand {o}')
    def b2v(self, v): return z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if z3.is_bool(v) else v
    def call(self, name, args, pc):
        """[(path condition, value)]"""
        if name not in self.m.funcs: raise Unsupported('call of ' + name)
        fn = self.m.funcs[name]
        return self.run(fn, next(iter(fn.blocks)), None, {p[1]: a for p, a in zip(fn.params, args)}, pc)
    def feasible(self, pc):
        self.solver.push(); self.solver.add(*pc); r = self.solver.check(); self.solver.pop(); return r != z3.unsat
    def run(self, fn, label, prev, env, pc):
        env = dict(env); out = []
        ph = {}
        blk = fn.blocks[label]
        for i in blk:
            if i[0] == 'phi': ph[i[1]] = self.val(env, i[2], next(v for v, l in i[3] if l == prev))
        env.update(ph)
        return self.rest(fn, label, [i for i in blk if i[0] != 'phi'], env, pc)
    def rest(self, fn, label, ins, env, pc):
        for k, i in enumerate(ins):
            self.n += 1
            if self.n > 200000: raise Unsupported('too many steps')
            op = i[0]
            if op == 'bin':
                if i[2] not in BIN: raise Unsupported(i[2])
                a, b = self.val(env, i[3], i[4]), self.val(env, i[3], i[5])
                if z3.is_bool(a): env[i[1]] = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[i[2]](a, b)
                else:
                    if i[2] in ('shl', 'lshr', 'ashr'): self.side.append((pc, z3.ULT(b, b.size()), 'shift amount below the width'))
                    if i[2] in ('udiv', 'urem', 'sdiv', 'srem'): self.side.append((pc, b != 0, 'divisor not zero'))
                    env[i[1]] = BIN[i[2]](a, b)
            elif op == 'icmp': env[i[1]] = PRED[i[2]](self.b2v(self.val(env, i[3], i[4])), self.b2v(self.val(env, i[3], i[5])))
            elif op == 'cast':
                v = self.b2v(self.val(env, i[3], i[4])); w = i[5][1]
                if i[2] == 'zext': r = z3.ZeroExt(w - v.size(), v)
                elif i[2] == 'sext': r = z3.SignExt(w - v.size(), v)
                elif i[2] == 'trunc': r = z3.Extract(w - 1, 0, v) if w > 1 else z3.Extract(0, 0, v) == 1
                else: raise Unsupported(i[2])
                env[i[1]] = r
            elif op == 'select':
                env[i[1]] = z3.If(self.val(env, ('i', 1), i[2]), self.val(env, i[3], i[4]), self.val(env, i[3], i[5]))
            elif op == 'freeze': env[i[1]] = self.val(env, i[2], i[3])
            elif op == 'gep':
                b = self.val(env, ('ptr',), i[3])
                if not (isinstance(b, tuple) and b[0] == 'g'): raise Unsupported('pointer arithmetic')
                ix = [z3.SignExt(64 - t[1], self.val(env, t, v)) if t[1] < 64 else self.val(env, t, v) for t, v in i[4]]
                t = self.m.resolve(i[2])
                # offset in elements of the table
                if t[0] == 'arr' and len(ix) == 2: e = ix[0] * t[1] + ix[1]; et = t[2]
                elif t[0] == 'i' and len(ix) == 1: e = ix[0]; et = t
                else: raise Unsupported('table shape')
                if b[2]:
                    if b[2][1] != et: raise Unsupported('table shape')
                    e = b[2][0] + e
                env[i[1]] = ('g', b[1], (e, et))
            elif op == 'load':
                p = self.val(env, ('ptr',), i[3])
                if not (isinstance(p, tuple) and p[0] == 'g'): raise Unsupported('load')
                gt, init, const = self.m.globals[p[1]][:3]
                vs = table(self.m, p[1])
                e, et = p[2] if p[2] else (z3.BitVecVal(0, 64), i[2])
                if et != i[2]: raise Unsupported('table element type')
                self.side.append((pc, z3.ULT(e, len(vs)), 'table index in range'))
                r = z3.BitVecVal(vs[-1], et[1])
                for j in range(len(vs) - 2, -1, -1): r = z3.If(e == j, z3.BitVecVal(vs[j], et[1]), r)
                env[i[1]] = r
            elif op == 'call':
                if i[3][1].startswith('llvm.') and 'lifetime' in i[3][1]: continue
                if i[3][1].startswith('llvm.ctlz'):
                    v = self.val(env, *i[4][0]); w = v.size(); r = z3.BitVecVal(w, w)
                    for j in range(w): r = z3.If(z3.Extract(j, j, v) == 1, z3.BitVecVal(w - 1 - j, w), r)
                    env[i[1]] = r; continue
                out = []
                for p2, v in self.call(i[3][1], [self.val(env, t, o) for t, o in i[4]], pc):
                    e2 = dict(env); e2[i[1]] = v
                    out += self.rest(fn, label, ins[k + 1:], e2, p2)
                return out
            elif op == 'br': return self.run(fn, i[1], label, env, pc)
            elif op == 'cbr':
                c = self.val(env, ('i', 1), i[1]); out = []
                for l, g in ((i[2], c), (i[3], z3.Not(c))):
                    g = z3.simplify(g)
                    if z3.is_false(g) or not self.feasible(pc + [g]): continue
                    out += self.run(fn, l, label, env, pc + [g])
                return out
            elif op == 'switch':
                v = self.val(env, i[1], i[2]); out = []; rest = []
                for cv, l in i[4]:
                    g = v == cv; rest.append(z3.Not(g))
                    if self.feasible(pc + [g]): out += self.run(fn, l, label, env, pc + [g])
                if self.feasible(pc + rest): out += self.run(fn, i[3], label, env, pc + rest)
                return out
            elif op == 'ret': return [(pc, self.val(env, i[1], i[2]))]
            else: raise Unsupported(op)
        raise Unsupported('block without end')
def table(m, name):
    t, init, const = m.globals[name][:3]
    if not const: raise Unsupported('a table that is not constant')
    vs = init[1] if isinstance(init, tuple) and init[0] in ('arr', 'agg', 'ca') else None
    if vs is None: raise Unsupported('table initialiser')
    return [x[1] if x[0] == 'c' else x[1][1] if isinstance(x[1], tuple) else 0 for x in vs]
def prove(ctx, mod):
    v = z3.BitVec('val', 64); ex = Exec(mod); t = time.time()
    try: paths = ex.call('_BnGetMSBPos', [v], [])
    except Unsupported as e:
        ctx.ob('_BnGetMSBPos: position of the top bit', False, 'not within reach: ' + str(e)); return
    def holds(pc, g):
        s = z3.Solver(); s.set('timeout', 60000); s.add(*pc, z3.Not(g)); r = s.check()
        return r == z3.unsat, (str(s.model()) if r == z3.sat else str(r))
    for pc, r in paths:
        one = z3.BitVecVal(1, 64); k = z3.ZeroExt(32, r)
        for what, g in (('between 0 and 63', z3.ULE(r, 63)), ('the top bit of a word that is not zero', z3.Implies(v != 0, z3.LShR(v, k) == one)), ('0 for the zero word', z3.Implies(v == 0, r == 0))):
            ok, m = holds(pc, g); ctx.ob('_BnGetMSBPos: ' + what, ok, m, 'z3 bit-vectors')
    for pc, g, what in ex.side:
        ok, m = holds(pc, g); ctx.ob('_BnGetMSBPos: ' + what, ok, m, 'z3 bit-vectors')
    ctx.functions |= {'_BnGetMSBPos'}; ctx.solver_s += time.time() - t
