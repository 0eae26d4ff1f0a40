"""Development aid: find the first atoms that are equal under random simulation but not identical."""
import random
from . import terms as tm
from .terms import T_
def cone(forms):
    seen = set(); st = list(forms); atoms = set()
    while st:
        f = st.pop()
        if f in seen: continue
        seen.add(f)
        for a in tm.support(f):
            if a in atoms: continue
            atoms.add(a)
            k = T_.atoms[a]
            if k[0] == 'lut': st.extend(k[1])
            elif k[0] == 'add':
                for w, c in k[1][1]: st.extend(w)
            elif k[0] == 'uf': st.extend(T_.ufs[k[2]][1])
    return atoms
def first_diff(A, B, n=40, seed=1, uf=None):
    r = random.Random(seed)
    ca, cb = cone(A), cone(B)
    only = (ca ^ cb)
    sig = {}
    runs = []
    fa = {a: tm.form_id(frozenset((tm.mon_id((a,)),))) for a in ca | cb}
    vals = {a: 0 for a in fa}
    for i in range(n):
        env = {}
        def e(k): 
            if k not in env: env[k] = r.getrandbits(1)
            return env[k]
        cache = {}
        order = sorted(fa)
        for a, v in zip(order, tm.evaluate([fa[a] for a in order], e, uf, cache)): vals[a] |= v << i
    by = {}
    for a in sorted(fa): by.setdefault(min(vals[a], vals[a] ^ ((1 << n) - 1)), []).append(a)
    out = []
    for s, l in by.items():
        x = [a for a in l if a in ca and a not in cb]; y = [a for a in l if a in cb and a not in ca]
        if x and y: out.append((min(max(x), max(y)), x[0], y[0]))
    out.sort()
    return out
def desc(a):
    k = T_.atoms[a]
    if k[0] == 'lut': return ('lut', k[1], hex(k[2])[:30])
    return k
