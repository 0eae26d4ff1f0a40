"""Value layer: functions above the word level, verified path by path over mathematical integers.
A big number is one integer (ghost cell 'v'); the arithmetic functions are used through the contracts C16..C20 establish; loops are cut
with value invariants that are found among polynomial templates over the numbers in the frame and then proved inductive."""
import itertools, z3
from irv import front
from irv.hv import Engine, State, Obj, Ptr, Fn, Viol, Unsupported, UNDEF, issym
from props import hvres
from props.hvres import need, destroy
I = z3.IntVal
W64 = I(1 << 64)
def absv(v): return z3.If(v >= 0, v, -v)
G = z3.Function('gcd', z3.IntSort(), z3.IntSort(), z3.IntSort())
E = z3.Function('expmod', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
BITS = z3.Function('bits', z3.IntSort(), z3.IntSort())
LEN = z3.Function('len', z3.IntSort(), z3.BitVecSort(32))
PRIME = z3.Function('prime', z3.IntSort(), z3.BoolSort())

class VBN:
    def __init__(self, lay): self.l = lay
    def size(self, mx): return 1 << 40
    def new(self, eng, st, site, v=None, heap=True):
        p = eng.new(st, site, 'bn', 1 << 40, 'undef', heap)
        st.w(p.o).cells['v'] = (0, eng.freshZ('v') if v is None else v)
        return p
    def get(self, st, p): return st.objs[p.o].cells['v'][1]
    def set(self, eng, st, p, v=None):
        o = st.w(p.o)
        o.cells = {k: c for k, c in o.cells.items() if k == 'mx'}
        o.cells['v'] = (0, eng.freshZ('v') if v is None else z3.simplify(v, som=True))
    def assume(self, eng, st): pass
    def unbounded(self, off, n): return True
    def load(self, eng, st, o, off, n, t):
        l = self.l; v = o.cells['v'][1]
        def sg():
            s = eng.fresh(32, 'sign'); st.pc += [z3.Or(s == 0, s == 1), z3.Implies(v < 0, s == 1), z3.Implies(v > 0, s == 0)]; return s
        def ln():
            s = LEN(v); st.pc += [s >= 1, s <= 1 << 25, (s == 1) == z3.And(v < W64, v > -W64)]; return s
        def mx():
            s = z3.BitVec('max_' + o.id, 32); st.pc += [s >= 2, s <= 1 << 25]; return s
        def d0():
            s = eng.fresh(64, 'word'); a = absv(v)
            st.pc += [(s == k) == (a % W64 == k) for k in range(4)] + [(z3.Extract(0, 0, s) == 0) == (v % 2 == 0)]; return s
        cached = lambda k, mk: mk()
        if isinstance(off, int):
            if off == l['bn.length']: return cached('ln', ln)
            if off == l['bn.max_length']: return cached('mx', mx)
            if off == l['bn.sign']: return cached('sg', sg)
            if off == l['bn.data']: return Ptr(o.id, l['bn'])
            if off == l['bn']: return cached('d0', d0)
        return eng.fresh(8 * n, 'word')
    def store(self, eng, st, o, off, n, v):
        l = self.l; x = o.cells['v'][1]
        if off == l['bn.sign'] and v in (0, 1): self.set(eng, st, Ptr(o.id), absv(x) if v == 0 else -absv(x)); return True
        self.set(eng, st, Ptr(o.id)); return True
    def memset(self, eng, st, o, off, v, n): self.set(eng, st, Ptr(o.id)); return True
    def memcpy(self, eng, st, o, d, s, n): self.set(eng, st, Ptr(o.id)); return True

def K(eng): return eng.lay['kinds']['bn']
def val(eng, st, p, what):
    need(eng, st, p, 'bn', what); return K(eng).get(st, p)
# functions whose failure is ignored by a caller: their capacity preconditions are an assumption there (see DESIGN)
def fails(eng, st, name):
    """(state in which the callee reports an error) or nothing when the caller drops the result of a total operation"""
    e = st.copy(); v = eng.fresh(32, 'err'); e.pc.append(v != 0)
    e.ghost['err'] = name
    return v, e
def opv(name, args, dst, f, err=True):
    def con(eng, st, a, site):
        vs = [val(eng, st, a[i], f'{name} argument {i}') if k == 'b' else a[i] for i, k in enumerate(args)]
        outs = []
        if err and (eng.target, name) not in DROPS:
            v, e = fails(eng, st, name)
            for d in dst: K(eng).set(eng, e, a[d])
            outs.append((v, e))
        r = f(eng, st, *vs)
        if r is None: return outs
        for d, x in zip(dst, r): K(eng).set(eng, st, a[d], x)
        return outs + [(0 if err is not None else None, st)]
    return con
def sint(w):
    def g(eng, x):
        if isinstance(x, int): return I(x - (1 << w) if x >> (w - 1) else x)
        return z3.BV2Int(x, True)
    return g
def uint(eng, x): return I(x) if isinstance(x, int) else z3.BV2Int(x)
SI = sint(64)
def cmpres(eng, st, a, b):
    c = eng.fresh(32, 'cmp')
    st.pc += [(c == 0) == (a == b), (c < 0) == (a < b)]
    q = a == b
    if z3.is_eq(q): eng.cmpeqs[q.get_id()] = q
    return [(c, st)]
def c_cmp(eng, st, a, site): return cmpres(eng, st, val(eng, st, a[0], 'BnCmp'), val(eng, st, a[1], 'BnCmp'))
def c_cmpint(eng, st, a, site): return cmpres(eng, st, val(eng, st, a[0], 'BnCmpInt'), SI(eng, a[1]))
def c_cmpuint(eng, st, a, site): return cmpres(eng, st, val(eng, st, a[0], 'BnCmpUInt'), uint(eng, a[1]))
def atom(eng, st, e, hint='t'):
    """a fresh integer for the polynomial e; its definition is kept for polynomial identities, the path condition stays linear"""
    e = som(e)
    if z3.is_int_value(e) or z3.is_const(e): return e
    if linear(e): return e
    x = eng.freshZ(hint); eng.define(x, e); return x
def linear(e):
    if z3.is_mul(e): return sum(1 for c in e.children() if not z3.is_int_value(c)) <= 1 and all(linear(c) for c in e.children())
    return all(linear(c) for c in e.children())
def product(eng, st, a, b):
    a, b = som(a), som(b)
    if z3.is_int_value(a) or z3.is_int_value(b): return som(a * b)
    t = atom(eng, st, a * b, 'prod')
    nn = lambda *c: z3.And(*c)
    st.pc += [z3.Implies(nn(a >= 0, b >= 0), t >= 0), z3.Implies(nn(a >= 0, b <= 0), t <= 0), z3.Implies(nn(a <= 0, b >= 0), t <= 0), z3.Implies(nn(a <= 0, b <= 0), t >= 0),
              z3.Implies(nn(a >= 1, b >= 0), t >= b), z3.Implies(nn(b >= 1, a >= 0), t >= a), z3.Implies(nn(a >= 1, b <= 0), t <= b), z3.Implies(nn(b >= 1, a <= 0), t <= a)]
    return t
def gcdfact(st, a, b, r): st.pc += [G(b, r) == G(a, b), G(r, b) == G(a, b)]
def c_div(eng, st, a, site):
    x, y = val(eng, st, a[2], 'BnDiv'), val(eng, st, a[3], 'BnDiv')
    need(eng, st, a[0], 'bn', 'BnDiv'); need(eng, st, a[1], 'bn', 'BnDiv')
    v, e = fails(eng, st, 'BnDiv'); K(eng).set(eng, e, a[0]); K(eng).set(eng, e, a[1])
    st.pc.append(y != 0)
    eng.ob(st, 'quotient and remainder go to numbers of their own', len({a[0].o, a[1].o}) == 2 and a[0].o not in (a[2].o, a[3].o), site)
    q = eng.freshZ('q'); r = atom(eng, st, x - q * y, 'r')
    eng.crossfacts(st, x, y)
    st.pc += [z3.Implies(y > 0, z3.And(r >= 0, r < y)), z3.Implies(y < 0, z3.And(r <= 0, r > y))]
    st.pc += [z3.Implies(z3.And(x >= 0, y > 0), z3.And(q >= 0, q <= x))]
    gcdfact(st, x, y, r)
    K(eng).set(eng, st, a[0], q); K(eng).set(eng, st, a[1], r)
    return [(v, e), (0, st)]
def c_mod(eng, st, a, site):
    x, y = val(eng, st, a[1], 'BnMod'), val(eng, st, a[2], 'BnMod'); need(eng, st, a[0], 'bn', 'BnMod')
    v, e = fails(eng, st, 'BnMod'); K(eng).set(eng, e, a[0])
    st.pc.append(y != 0)
    q = eng.freshZ('q'); r = atom(eng, st, x - q * y, 'r'); eng.quots.append(q)
    st.pc += [z3.Implies(x >= 0, z3.And(r >= 0, r < absv(y))), z3.Implies(x < 0, z3.And(r <= 0, -r < absv(y)))]
    gcdfact(st, x, y, r)
    K(eng).set(eng, st, a[0], r)
    return [(v, e), (0, st)]
def c_new(eng, st, a, site): return [(K(eng).new(eng, st, site), st)]
def c_clone(eng, st, a, site): return [(K(eng).new(eng, st, site, val(eng, st, a[0], site)), st)]
def c_gcdex(eng, st, a, site):
    m, n = val(eng, st, a[3], site), val(eng, st, a[4], site)
    for i in range(3):
        if isinstance(a[i], Ptr): need(eng, st, a[i], 'bn', site)
    v, e = fails(eng, st, 'GetGCDEx')
    for i in range(3):
        if isinstance(a[i], Ptr): K(eng).set(eng, e, a[i])
    eng.ob(st, 'the numbers handed to the extended Euclidean algorithm are not negative', z3.And(m >= 0, n >= 0), site)
    st.pc += [m > 0, n > 0]
    x, y, g = eng.freshZ('x'), eng.freshZ('y'), eng.freshZ('g')
    eng.define(g, x * m + y * n); eng.bezouts.append((x, y, g)); q = g == 1; eng.cmpeqs[q.get_id()] = q
    st.pc += [g == G(m, n), g >= 1]
    if not (isinstance(a[5], int) and a[5]): raise Unsupported('signed form in a caller')
    outs = [(v, e)]
    # the unsigned coefficients are the signed ones, or the signed ones plus the other operand
    for u in (x, som(x + n)):
        for w in (y, som(y + m)):
            if not isinstance(a[1], Ptr) and u is not x or not isinstance(a[2], Ptr) and w is not y: continue
            s = st.copy()
            if isinstance(a[1], Ptr): s.pc += [u >= 0, u <= n]
            if isinstance(a[2], Ptr): s.pc += [w >= 0, w <= m]
            for i, t in ((0, g), (1, u), (2, w)):
                if isinstance(a[i], Ptr): K(eng).set(eng, s, a[i], t)
            outs.append((0, s))
    return outs
def c_bits(eng, st, a, site):
    x = val(eng, st, a[0], site); b = eng.fresh(32, 'bits'); st.pc += [b >= 1, z3.BV2Int(b) == BITS(absv(x))]
    return [(b, st)]
def c_montcreate(eng, st, a, site):
    n = val(eng, st, a[0], site)
    v, e = fails(eng, st, 'RaMontCreate')
    st.pc.append(n != 0)
    p = eng.new(st, site, 'h:mont', 1, 'fresh', True); st.w(p.o).cells['N'] = (0, absv(n))
    eng.store(st, a[1], p, 8)
    return [(v, e), (0, st)]
def c_exp(eng, st, a, site):
    o = need(eng, st, a[0], 'h:mont', site); N = o.cells['N'][1]
    need(eng, st, a[1], 'bn', site); x, y = val(eng, st, a[2], site), val(eng, st, a[3], site)
    eng.ob(st, 'base and exponent of an exponentiation are not negative', z3.And(x >= 0, y >= 0), site)
    v, e = fails(eng, st, 'RaMontExpMod'); K(eng).set(eng, e, a[1])
    r = E(x, y, N); st.pc += [r >= 0, z3.Implies(N > 0, r < N)]
    K(eng).set(eng, st, a[1], r)
    return [(v, e), (0, st)]
def c_isprime(eng, st, a, site):
    x = val(eng, st, a[0], site); v, e = fails(eng, st, 'RaIsPrimeNumber')
    st.pc.append(x >= 2); st.pc.append(PRIME(x))
    return [(v, e), (0, st)]
def c_gen(eng, st, a, site):
    need(eng, st, a[0], 'bn', site); v, e = fails(eng, st, 'RaGenPrimeNumberEx'); K(eng).set(eng, e, a[0])
    x = eng.freshZ('p'); st.pc += [x >= 2, PRIME(x), BITS(absv(x)) == SI(eng, a[1]) if not issym(a[1]) else BITS(absv(x)) == z3.BV2Int(a[1], True)]
    K(eng).set(eng, st, a[0], x)
    return [(v, e), (0, st)]
def c_random(kind, idx):
    def con(eng, st, a, site):
        v, e = fails(eng, st, 'RaRandomCreate')
        eng.store(st, a[idx], eng.new(st, site, 'h:' + kind, 1, 'fresh', True), 8)
        return [(v, e), (0, st)]
    return con
DROPS = {('GetGCDEx', 'BnMul'), ('GetGCDEx', 'BnSub'), ('RaRsaCreateKeyPair', 'BnMul'), ('RaRsaCreateKeyPair', 'BnSubInt'), ('RaRsaCreateKeyPair', 'BnAddInt'),
         ('RaRsaVerifyKey', 'BnMul'), ('RaRsaVerifyKey', 'BnSubInt'), ('CheckMillerRabin', 'BnSubInt')}
CON = {
 'BnNewW': c_new, 'BnNew': c_new, 'BnClone': c_clone, 'BnFree': hvres.c_bnfree(0), 'BnClearFree': hvres.c_bnfree(1),
 'BnSet': opv('BnSet', 'bb', (0,), lambda e, s, r, a: [a]),
 'BnAdd': opv('BnAdd', 'bbb', (0,), lambda e, s, r, a, b: [a + b]), 'BnSub': opv('BnSub', 'bbb', (0,), lambda e, s, r, a, b: [a - b]),
 'BnMul': opv('BnMul', 'bbb', (0,), lambda e, s, r, a, b: [product(e, s, a, b)]), 'BnSqr': opv('BnSqr', 'bb', (0,), lambda e, s, r, a: [product(e, s, a, a)]),
 'BnAddInt': opv('BnAddInt', 'b.', (0,), lambda e, s, a, k: [a + SI(e, k)]), 'BnSubInt': opv('BnSubInt', 'b.', (0,), lambda e, s, a, k: [a - SI(e, k)]),
 'BnAddUInt': opv('BnAddUInt', 'b.', (0,), lambda e, s, a, k: [a + uint(e, k)]), 'BnSubUInt': opv('BnSubUInt', 'b.', (0,), lambda e, s, a, k: [a - uint(e, k)]),
 'BnSetInt': opv('BnSetInt', 'b.', (0,), lambda e, s, a, k: [SI(e, k)], None), 'BnSetUInt': opv('BnSetUInt', 'b.', (0,), lambda e, s, a, k: [uint(e, k)], None),
 'BnCmp': c_cmp, 'BnCmpInt': c_cmpint, 'BnCmpUInt': c_cmpuint, 'BnDiv': c_div, 'BnMod': c_mod, 'BnGetLength': None, 'BnGetBitLength': c_bits,
 'GetGCDEx': c_gcdex, 'RaMontCreate': c_montcreate, 'RaMontDestroy': destroy('mont'), 'RaMontExpMod': c_exp, 'RaIsPrimeNumber': c_isprime, 'RaGenPrimeNumberEx': c_gen,
 'RaRandomCreate': c_random('rnd', 3), 'RaRandomDestroy': destroy('rnd'), 'RaClearMemory': hvres.c_clear,
}
def c_len(eng, st, a, site):
    o = need(eng, st, a[0], 'bn', site); return [(K(eng).load(eng, st, o, eng.lay['bn.length'], 4, None), st)]
CON['BnGetLength'] = c_len

def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n)); v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    return r
class VEngine(Engine):
    """the symbolic engine with value invariants: templates over the integers of the state, dropped when they are not preserved"""
    def __init__(self, *a, **k): Engine.__init__(self, *a, **k); self.defs = {}; self.pcache = {}; self.bezouts = []; self.quots = []; self.cmpeqs = {}
    def crossfacts(self, st, x, y): pass
    def poly(self, e):
        """polynomial of an integer term over undefined atoms: {sorted atom ids: coefficient}"""
        r = self.pcache.get(e.get_id())
        if r is not None: return r[1]
        if z3.is_int_value(e): r = {(): e.as_long()} if e.as_long() else {}
        elif z3.is_add(e):
            r = {}
            for c in e.children(): r = padd(r, self.poly(c))
        elif z3.is_sub(e):
            cs = e.children(); r = self.poly(cs[0])
            for c in cs[1:]: r = padd(r, self.poly(c), -1)
        elif e.decl().kind() == z3.Z3_OP_UMINUS: r = padd({}, self.poly(e.children()[0]), -1)
        elif z3.is_mul(e):
            r = {(): 1}
            for c in e.children(): r = pmul(r, self.poly(c))
        elif e.get_id() in self.defs: r = self.defs[e.get_id()][1]
        else: r = {(e.get_id(),): 1}
        self.pcache[e.get_id()] = (e, r)
        return r
    def define(self, x, e): self.defs[x.get_id()] = (x, self.poly(e)); self.pcache.pop(x.get_id(), None)
    def iszero(self, e): return not self.poly(e)
    def x_malloc(self, st, a, site):
        n = a[0]
        p = self.new(st, site, 'mem', n if isinstance(n, int) else n, 'undef', True); return [(p, st)]
    def invs(self, hk, st, g, c, cur, W):
        out = Engine.invs(self, hk, st, g, c, cur, W)
        if not any(l[0] == 'c' and l[2] == 'v' for l in W): return out
        live = {}
        for k, v in st.frames[-1].items():
            if isinstance(v, Ptr) and v.o in st.objs and st.objs[v.o].kind == 'bn': live[v.o] = k
        for oid, o in st.objs.items():
            if o.kind == 'bn': live.setdefault(oid, oid)
        names = {}
        for k, v in sorted(st.frames[-1].items()):
            if isinstance(v, Ptr) and v.o in st.objs and st.objs[v.o].kind == 'bn': names[k] = st.objs[v.o].cells['v'][1]
        for nm, f in self.templates_for(hk, st, names):
            k = ('mined', hk, nm)
            if k not in self.dropped: out.append((k, f))
        return out
    def templates_for(self, hk, st, names): return []
def engine(mods, lay, target, inline=()):
    con = {n: c for n, c in CON.items() if n != target and n not in inline}
    e = VEngine(mods, con, dict(lay, kinds={'bn': VBN(lay)})); e.target = target; e.nobounds = True
    return e

def som(e): return z3.simplify(e, som=True, som_blowup=1000000)
class PolyEngine(VEngine):
    """templates over the numbers x the function's locals point to: x >= 0, x <= 0, gcd(x, y) = gcd(M, N), x = s*M + t*N, s*t - u*v = 1"""
    MN = None
    def setup(self, M, N): self.MN = (M, N); self.defs = {}; self.pcache = {}; self.cand = {}; self.polyids = {}; self.assumed = {}
    def templates_for(self, hk, st, names):
        M, N = self.MN; ns = sorted(names); v = names
        if hk not in self.cand:
            c = []
            lin, det = [], []
            for x in ns: c += [('ge', x), ('gt', x), ('le', x)]
            for x in ns:
                for y in ns:
                    if x < y and not v[x].eq(v[y]): c.append(('gcd', x, y))
            if self.bez:
                for x in ns:
                    for s in ns:
                        for t in ns:
                            if len({x, s, t}) == 3 and self.iszero(v[x] - v[s] * M - v[t] * N): c.append(('lin', x, s, t))
                lins = {(s, t) for q in c if q[0] == 'lin' for s, t in [q[2:]]}
                for s, t in lins:
                    for u, w in lins:
                        if self.iszero(v[s] * v[w] - v[u] * v[t] - 1): c.append(('det', s, t, u, w))
            self.cand[hk] = c
        out = []
        for q in self.cand[hk]:
            if ('mined', hk, q) in self.dropped or any(x not in v for x in q[1:]): continue
            k = q[0]; poly = None
            if k == 'ge': f = v[q[1]] >= 0
            elif k == 'gt': f = v[q[1]] > 0
            elif k == 'le': f = v[q[1]] <= 0
            elif k == 'gcd': f = G(v[q[1]], v[q[2]]) == G(M, N)
            elif k == 'lin': poly = v[q[1]] - v[q[2]] * M - v[q[3]] * N; f = z3.Bool(f'lin {hk} {q} {[v[x].get_id() for x in q[1:]]}')
            elif k == 'det': poly = v[q[1]] * v[q[4]] - v[q[3]] * v[q[2]] - 1; f = z3.Bool(f'det {hk} {q} {[v[x].get_id() for x in q[1:]]}')
            if poly is not None: self.polyids[f.get_id()] = (f, poly)
            out.append((q, f))
        return out
    bez = False
    def entails(self, st, c):
        p = self.polyids.get(c.get_id()) if issym(c) else None
        if p is None: return Engine.entails(self, st, c)
        d = self.poly(p[1])
        if not d: return True
        return any(d == q or not padd(d, q) for q in (self.poly(e) for e in st.ghost.get('eqs', ())))
    polyids = {}
    def cut(self, st, fn, g, b, loops):
        # the first iteration is executed on its own: the operands are still the caller's numbers there
        if b not in loops: return st, dict(loops, **{b: 'peeled'})
        if loops[b] == 'peeled': loops = {k: v for k, v in loops.items() if k != b}
        r = Engine.cut(self, st, fn, g, b, loops)
        if r is None: return r
        s, loops = r
        # equations x = poly assumed at the header become definitions
        names = {}
        for k, v in s.frames[-1].items():
            if isinstance(v, Ptr) and v.o in s.objs and s.objs[v.o].kind == 'bn': names[k] = s.objs[v.o].cells['v'][1]
        M, N = self.MN; rest = []
        for q in self.cand.get((fn.name, b), ()):
            if ('mined', (fn.name, b), q) in self.dropped or any(x not in names for x in q[1:]): continue
            if q[0] == 'lin':
                x = names[q[1]]
                if z3.is_const(x) and x.decl().name().startswith('w_') and x.get_id() not in self.defs: self.define(x, names[q[2]] * M + names[q[3]] * N)
            elif q[0] == 'det': rest.append(names[q[1]] * names[q[4]] - names[q[3]] * names[q[2]] - 1)
        s.ghost['eqs'] = tuple({tuple(sorted(self.poly(e).items())): e for e in rest}.values())
        return s, loops
    def crossfacts(self, st, x, y):
        if not self.bez: return
        M, N = self.MN; vs = []
        for o in st.objs.values():
            if o.kind == 'bn' and not any(w.eq(o.cells['v'][1]) for w in vs): vs.append(o.cells['v'][1])
        eqs = [self.poly(e) for e in st.ghost.get('eqs', ())]; py, px = self.poly(y), self.poly(x)
        pv = [(a, self.poly(a)) for a in vs]
        for T in (M, N, som(-M), som(-N)):
            pT = self.poly(T); ets = [pmul(pT, e) for e in eqs]
            ets += [padd({}, e, -1) for e in ets] + [{}]
            for a, pa in pv:
                ya = padd(pmul(py, pa), pT, -1)
                for b, pb in pv:
                    d = padd(ya, pmul(px, pb), -1)
                    if d in ets: st.pc.append(product(self, st, y, a) - product(self, st, x, b) == T)
    def locs(self, st):
        d = Engine.locs(self, st); d.pop(('g', 'eqs'), None); return d

def outcome(eng, r, s):
    """(successful states, failing states) by the returned error code"""
    ok = (r == 0) if isinstance(r, int) else eng.bv(r, 32) == 0
    if isinstance(ok, bool): return ([s], []) if ok else ([], [s])
    t, f = s.copy(), s.copy(); t.pc.append(ok); f.pc.append(z3.Not(ok))
    return [x for x in (t,) if eng.sat(x) != z3.unsat], [x for x in (f,) if eng.sat(x) != z3.unsat]

def gcd_spec(mods, lay, ex, signed, nulls=()):
    name = 'GetGCDEx' if ex else 'GetGCD'
    con = {n: c for n, c in CON.items() if n != name}
    eng = PolyEngine(mods, con, dict(lay, kinds={'bn': VBN(lay)})); eng.target = name; eng.nobounds = True; eng.bez = ex
    info = {}
    def build(e):
        st = State(); kk = K(e)
        M, N = e.freshZ('m'), e.freshZ('n'); e.setup(M, N) if not hasattr(e, 'cand') else e.__dict__.update(MN=(M, N), polyids={}, defs={}, pcache={})
        st.pc += [M >= 1, N >= 1]
        outs = [0 if i in nulls else kk.new(e, st, f'arg.{i}') for i in range(3 if ex else 1)]
        m, n = kk.new(e, st, 'arg.m', M), kk.new(e, st, 'arg.n', N)
        info.update(outs=outs, m=m, n=n, M=M, N=N)
        return st, name, outs + [m, n] + ([0 if signed else 1] if ex else [])
    def post(e, r, s):
        good, bad = outcome(e, r, s)
        M, N = info['M'], info['N']
        for x in good + bad:
            e.ob(x, 'operands keep their value', z3.And(K(e).get(x, info['m']) == M, K(e).get(x, info['n']) == N))
        for x in good:
            e.ob(x, 'errors of the steps are reported', 'err' not in x.ghost, str(x.ghost.get('err')))
            # gcd(x, 0) = x for x >= 0
            g = None
            o = info['outs']
            if isinstance(o[0], Ptr): t = K(e).get(x, o[0]); x.pc.append(G(t, I(0)) == t)
            vals = {id_: ob.cells['v'][1] for id_, ob in x.objs.items() if ob.kind == 'bn'}
            for k, t in vals.items(): pass
            if isinstance(o[0], Ptr): e.ob(x, 'the result is the greatest common divisor', K(e).get(x, o[0]) == G(M, N), str(K(e).get(x, o[0])))
            if ex:
                A = K(e).get(x, o[1]) if isinstance(o[1], Ptr) else None
                B = K(e).get(x, o[2]) if isinstance(o[2], Ptr) else None
                R = K(e).get(x, o[0]) if isinstance(o[0], Ptr) else None
                if signed:
                    if A is not None and B is not None and R is not None: e.ob(x, 'a*m + b*n is the greatest common divisor', True if e.iszero(A * M + B * N - R) else False, f'{e.poly(A*M+B*N-R)}')
                else:
                    if A is not None: e.ob(x, 'the unsigned first coefficient lies in 0..n', z3.And(A >= 0, A <= N))
                    if B is not None: e.ob(x, 'the unsigned second coefficient lies in 0..m', z3.And(B >= 0, B <= M))
                    if A is not None and B is not None and R is not None:
                        d = A * M + B * N - R
                        e.ob(x, 'a*m + b*n is the greatest common divisor, up to a multiple of m*n', any(e.iszero(d - k * M * N) for k in (0, 1, 2)), str(e.poly(d)))
    n = eng.verify(build, post)
    return eng, n

def gcd_zero(mods, lay, ex, z):
    """an operand that is zero is refused with an error and nothing is written"""
    name = 'GetGCDEx' if ex else 'GetGCD'
    eng = PolyEngine(mods, {n: c for n, c in CON.items() if n != name}, dict(lay, kinds={'bn': VBN(lay)})); eng.target = name; eng.nobounds = True
    info = {}
    def build(e):
        st = State(); kk = K(e)
        v = [e.freshZ(n) if c is None else I(0) for n, c in zip('mn', z)]; e.setup(*v)
        for x in v: st.pc.append(x >= 0)
        outs = [kk.new(e, st, f'arg.{i}') for i in range(3 if ex else 1)]
        ops = [kk.new(e, st, 'arg.' + n, x) for n, x in zip('mn', v)]
        info.update(ops=ops, v=v)
        return st, name, outs + ops + ([e.fresh(32, 'unsigned')] if ex else [])
    def post(e, r, s):
        good, bad = outcome(e, r, s)
        for x in good: e.ob(x, 'a zero operand is refused', False, 'success reported')
        for x in bad: e.ob(x, 'operands keep their value', z3.And(*[K(e).get(x, p) == v for p, v in zip(info['ops'], info['v'])]))
    return eng, eng.verify(build, post)
