"""C25: the RSA functions over the contract of modular exponentiation, and the number relations of a key the library makes or accepts."""
import re, z3
from irv import front
from irv.hv import State, Ptr, Viol, Unsupported
from props import vl, hvres
from props.vl import K, E, G, PRIME, BITS, I, absv, CON, VEngine, VBN, outcome, som
FIELDS = ['mod', 'pub', 'priv', 'prime1', 'prime2', 'exp1', 'exp2', 'coeff', 'mont']
def layout():
    t = open(front.REPO + '/src/pk/rsa.c', encoding='latin1').read()
    m = re.search(r'struct\s+RaRsaKeyPair\s*\{.*?\};', t, re.S)
    q = {f: f'offsetof(struct RaRsaKeyPair,{f})' for f in FIELDS}; q['key'] = 'sizeof(struct RaRsaKeyPair)'; q['nullptr'] = 'RA_ERR_SUCCESS'
    return front.layout(q, extra=m.group(0) if m else '')
def engine(mods, lay, name):
    e = VEngine(mods, {n: c for n, c in CON.items() if n != name}, dict(lay, kinds={'bn': VBN(lay)})); e.target = name; e.nobounds = True
    return e
def mkkey(e, st, L, priv=True, full=False):
    """a key: modulus object made from the modulus, no negative number"""
    kk = K(e); k = e.new(st, 'arg.key', 'mem', L['key'], 'zero', True); v = {}
    for f in FIELDS[:-1]:
        if not priv and f not in ('mod', 'pub'): st.w(k.o).cells[L[f]] = (8, 0); continue
        v[f] = e.freshZ(f); p = kk.new(e, st, 'arg.' + f, v[f]); st.w(k.o).cells[L[f]] = (8, p); st.pc.append(v[f] >= 0)
    st.pc.append(v['mod'] >= 2)
    m = e.new(st, 'arg.mont', 'h:mont', 1, 'fresh', True); st.w(m.o).cells['N'] = (0, v['mod']); st.w(k.o).cells[L['mont']] = (8, m)
    return k, v
def kept(e, x, k, v, L, msg='the key keeps its numbers'):
    for f, t in v.items():
        p = x.objs[k.o].cells[L[f]][1]
        e.ob(x, msg, isinstance(p, Ptr) and K(e).get(x, p) == t, f)
    m = x.objs[k.o].cells[L['mont']][1]
    e.ob(x, 'the modulus object of the key stays', isinstance(m, Ptr) and x.objs[m.o].cells['N'][1].eq(v['mod']))
def apply(mods, lay, L, name, alias=False, priv=True):
    """RaRsaEncrypt / Decrypt / Sign: out-of-range messages are refused, the result is message^exponent mod n"""
    eng = engine(mods, lay, name); info = {}
    exp = 'pub' if name == 'RaRsaEncrypt' else 'priv'
    def build(e):
        st = State(); k, v = mkkey(e, st, L, priv)
        M, O = e.freshZ('msg'), e.freshZ('old')
        m = K(e).new(e, st, 'arg.msg', M); o = m if alias else K(e).new(e, st, 'arg.out', O)
        info.update(k=k, v=v, M=M, m=m, o=o, O=M if alias else O)
        return st, name, [k, m, o]
    def post(e, r, s):
        good, bad = outcome(e, r, s); v, M = info['v'], info['M']; rng = z3.And(M >= 0, M < v['mod'])
        for x in good:
            e.ob(x, 'only messages in 0..n-1 are accepted', rng)
            e.ob(x, 'a key without private exponent is refused', exp in v)
            e.ob(x, 'failures of the exponentiation are reported', 'err' not in x.ghost)
            e.ob(x, 'the result is message^exponent mod n', K(e).get(x, info['o']) == E(M, v[exp], v['mod']))
            if not alias: e.ob(x, 'the message keeps its value', K(e).get(x, info['m']) == M)
        for x in bad:
            if exp in v: e.ob(x, 'a message in range is refused only when the exponentiation fails', True if 'err' in x.ghost else z3.Not(rng))
            e.ob(x, 'nothing is written for a refused message', True if 'err' in x.ghost else K(e).get(x, info['o']) == info['O'])
        for x in good + bad: kept(e, x, info['k'], v, L)
    eng.verify(build, post); return dict(eng.obs), {name}
def verify(mods, lay, L, priv):
    name = 'RaRsaVerify'; eng = engine(mods, lay, name); info = {}
    def build(e):
        st = State(); k, v = mkkey(e, st, L, priv)
        S, M = e.freshZ('sig'), e.freshZ('msg')
        s, m = K(e).new(e, st, 'arg.sig', S), K(e).new(e, st, 'arg.msg', M)
        info.update(k=k, v=v, S=S, M=M, s=s, m=m)
        return st, name, [k, s, m]
    def post(e, r, st):
        good, bad = outcome(e, r, st); v, S, M = info['v'], info['S'], info['M']
        rng = z3.And(S >= 0, S < v['mod']); eq = E(S, v['pub'], v['mod']) == M
        for x in good:
            e.ob(x, 'acceptance means the signature decodes to the message', z3.And(rng, eq)); e.ob(x, 'failures of the exponentiation are reported', 'err' not in x.ghost)
        for x in bad: e.ob(x, 'a signature that decodes to the message is accepted', True if 'err' in x.ghost else z3.Not(z3.And(rng, eq)))
        for x in good + bad:
            kept(e, x, info['k'], v, L); e.ob(x, 'message and signature keep their value', z3.And(K(e).get(x, info['s']) == S, K(e).get(x, info['m']) == M))
    eng.verify(build, post); return dict(eng.obs), {name}
def relations(e, x, L, cells, bits=None, given=None):
    """the number relations of an RSA key"""
    V = {}
    for f in FIELDS[:-1]:
        p = cells[L[f]][1]
        if not isinstance(p, Ptr): raise Viol('a key holds all its numbers', f)
        V[f] = K(e).get(x, p)
    N, pe, d, p, q = (V[f] for f in ('mod', 'pub', 'priv', 'prime1', 'prime2'))
    ob = lambda what, c, m='': e.ob(x, what, c, m)
    ob('n is the product of the two primes', linked(e, x, N, p * q))
    ob('both factors were accepted as primes', z3.And(PRIME(p), PRIME(q), p >= 2, q >= 2))
    phi = (p - 1) * (q - 1)
    ks = [k for y in e.bezouts for k in (-y[1], pe - y[1])]
    if given is None: ob('e*d = 1 modulo (p-1)(q-1)', any(linked(e, x, pe * d - 1 - k * phi, I(0)) for k in ks))
    else:       # the code does not ask for gcd(e, (p-1)(q-1)) = 1 here
        ob('e*d = gcd(e, (p-1)(q-1)) modulo (p-1)(q-1)', any(linked(e, x, pe * d - y[2] - k * phi, I(0)) for y in e.bezouts for k in (-y[1], pe - y[1])))
    qs = e.quots
    ob('exp1 = d mod (p-1)', any(linked(e, x, V['exp1'], d - k * (p - 1)) for k in qs)); ob('exp1 is reduced', z3.And(V['exp1'] >= 0, V['exp1'] < p - 1))
    ob('exp2 = d mod (q-1)', any(linked(e, x, V['exp2'], d - k * (q - 1)) for k in qs)); ob('exp2 is reduced', z3.And(V['exp2'] >= 0, V['exp2'] < q - 1))
    ob('coeff * q = gcd(q, p) modulo p', any(linked(e, x, V['coeff'] * q - y[2] - k * p, I(0)) for y in e.bezouts for k in (-y[1], q - y[1])))
    m = cells[L['mont']][1]
    if given is None:
        ob('the modulus object is made from n', isinstance(m, Ptr) and linked(e, x, x.objs[m.o].cells['N'][1], N) or (isinstance(m, Ptr) and x.objs[m.o].cells['N'][1] == N))
        ob('the two primes differ', p != q); ob('n has the requested number of bits', BITS(absv(N)) == bits)
def linked(e, x, a, b):
    """a = b as polynomials, modulo equations c = c' between numbers of the state that the path condition implies"""
    d = e.poly(a - b)
    if not d: return True
    # equations of the path between integer atoms
    sub = {}
    for f in x.pc:
        fs = [f]
        while fs:
            g = fs.pop()
            if z3.is_and(g): fs += g.children(); continue
            if z3.is_eq(g) and g.children()[0].sort().kind() == z3.Z3_INT_SORT: sub[g.get_id()] = g
    for s in getattr(e, 'cmpeqs', {}).values():
        if s.get_id() not in sub and e.entails(x, s): sub[s.get_id()] = s
    eqs = [e.poly(g.children()[0] - g.children()[1]) for g in sub.values()]
    eqs = [q for q in eqs if q]
    # Gaussian steps: solve each equation for an atom that occurs alone in it, and substitute
    def subst(P, at, R):
        out = {}
        for m, c in P.items():
            n = m.count(at)
            if not n: out = vl.padd(out, {m: c}); continue
            t = {tuple(i for i in m if i != at): c}
            for _ in range(n): t = vl.pmul(t, R)
            out = vl.padd(out, t)
        return out
    todo = eqs
    if any(d == q or not vl.padd(d, q) for q in eqs): return True
    for _ in range(len(todo)):
        for q in todo:
            pick = None
            for m, c in q.items():
                if len(m) == 1 and abs(c) == 1 and not any(m[0] in n for n in q if n != m): pick = (m[0], c); break
            if pick: break
        else: break
        at, c = pick
        R = vl.padd({}, {m: k for m, k in q.items() if m != (at,)}, -c)
        d = subst(d, at, R); todo = [subst(t, at, R) for t in todo if t is not q]; todo = [t for t in todo if t]
        if not d or any(d == t or not vl.padd(d, t) for t in todo): return True
    return not d
def keypair(mods, lay, L):
    name = 'RaRsaCreateKeyPair'; eng = engine(mods, lay, name); info = {}
    def build(e):
        st = State(); b = e.fresh(32, 'bit'); st.pc += [b >= 4, b <= 1 << 24, z3.Extract(0, 0, b) == 0]
        o = e.new(st, 'arg.out', 'mem', 8, 'fresh'); info.update(o=o, b=b); e.bezouts, e.quots, e.cmpeqs = [], [], {}
        return st, name, [b, o]
    def post(e, r, s):
        good, bad = outcome(e, r, s)
        for x in good:
            e.ob(x, 'failures of the steps are reported', 'err' not in x.ghost)
            k = e.load(x, info['o'], 8, ('ptr',))
            relations(e, x, L, x.objs[k.o].cells, z3.BV2Int(info['b'], True))
            N = x.objs[k.o].cells
            e.ob(x, 'the public exponent is 65537', K(e).get(x, N[L['pub']][1]) == 65537)
    eng.verify(build, post); return dict(eng.obs), {name}
def verifykey(mods, lay, L):
    name = 'RaRsaVerifyKey'; eng = engine(mods, lay, name); info = {}
    def build(e):
        st = State(); e.bezouts, e.quots, e.cmpeqs = [], [], {}; k, v = mkkey(e, st, L); info.update(k=k, v=v); return st, name, [k]
    def post(e, r, s):
        good, bad = outcome(e, r, s)
        for x in good:
            e.ob(x, 'failures of the steps are reported', 'err' not in x.ghost)
            relations(e, x, L, x.objs[info['k'].o].cells, given=True)
            e.ob(x, 'the public exponent is positive and below the modulus', z3.And(info['v']['pub'] > 0, info['v']['pub'] < info['v']['mod']))
        for x in good + bad: kept(e, x, info['k'], info['v'], L)
    eng.verify(build, post); return dict(eng.obs), {name}
def items(mods):
    lay, L = hvres.layout(), layout(); out = []
    for f in ('RaRsaEncrypt', 'RaRsaDecrypt', 'RaRsaSign'):
        for al in (0, 1): out.append((f + (' in place' if al else ''), f, lambda f=f, al=al: apply(mods, lay, L, f, bool(al))))
        out.append((f + ' with a public key', f, lambda f=f: apply(mods, lay, L, f, False, False)))
    for p in (0, 1): out.append(('RaRsaVerify' + ' with a public key' * (1 - p), 'RaRsaVerify', lambda p=p: verify(mods, lay, L, bool(p))))
    out.append(('RaRsaCreateKeyPair', 'RaRsaCreateKeyPair', lambda: keypair(mods, lay, L)))
    out.append(('RaRsaVerifyKey', 'RaRsaVerifyKey', lambda: verifykey(mods, lay, L)))
    return out
def smallprime(mods, lay, name, case):
    """the primality test on negative numbers, 0, 1, 2, 3 and even numbers: the verdict without any round"""
    eng = engine(mods, lay, name); info = {}
    def build(e):
        st = State(); V = e.freshZ('n'); n = K(e).new(e, st, 'arg.n', V)
        st.pc.append({'negative': V < 0, 'zero or one': z3.And(V >= 0, V <= 1), 'two': V == 2, 'three': V == 3, 'even above two': z3.And(V > 2, V % 2 == 0)}[case])
        o = e.new(st, 'arg.probable', 'mem', 4, 'fresh'); r = e.new(st, 'arg.rnd', 'h:rnd', 1, 'fresh', True); info.update(n=n, V=V, o=o)
        return st, name, [n, e.fresh(32, 'count'), r, o]
    def post(e, r, s):
        good, bad = outcome(e, r, s)
        for x in good:
            v = e.load(x, info['o'], 4, ('i', 32)); want = case in ('two', 'three')
            nz = (v != 0) if isinstance(v, int) else e.bv(v, 32) != 0
            e.ob(x, 'the verdict is the right one', nz == want if isinstance(nz, bool) else nz if want else z3.Not(nz), case)
        for x in good + bad: e.ob(x, 'the number keeps its value', K(e).get(x, info['n']) == info['V'])
        for x in bad: e.ob(x, 'no error without a failing step', 'err' in x.ghost)
    eng.verify(build, post); return dict(eng.obs), {name}
def smallprimes(mods):
    lay = hvres.layout(); f = 'CheckMillerRabin'
    return [(f'{f} ({c})', f, lambda c=c: smallprime(mods, lay, f, c)) for c in ('negative', 'zero or one', 'two', 'three', 'even above two')]
