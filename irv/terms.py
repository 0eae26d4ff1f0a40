"""Canonical bit/word term domain.

A *form* is a polynomial over GF(2): an interned set of monomials, a monomial being a set of atoms.
Form ids are small integers; F0 = 0 (false), F1 = 1 (true).  Atoms are
  * free bits                  ('v', name, i)
  * S-box/truth-table bits     ('lut', index-form tuple, residual truth table)
  * modular-sum bits           ('add', canonical sum key, bit)
  * uninterpreted-function bits('uf', name, argument forms, bit)
All are hash-consed, so two expressions built from the same canonical atoms are equal iff their form ids are.
The constructors normalise: XOR cancels, AND expands to algebraic normal form, table lookups are reduced to a
basis per index tuple by Gaussian elimination over their complete truth tables (an exact, exhaustive step),
sums are flattened modulo 2^w, and lookups of lookups over the same index are composed exhaustively.
"""
import sys

class Unsupported(Exception):
    pass

class T:
    """The global term store."""
    def __init__(self):
        self.atoms = []          # atom id -> key
        self.atom_ids = {}
        # monomials: id 0 = the constant 1; others interned tuples of atom ids
        self.mons = [()]
        self.mon_ids = {(): 0}
        self.forms = [frozenset(), frozenset((0,))]
        self.form_ids = {self.forms[0]: 0, self.forms[1]: 1}
        self.xc = {}
        self.ac = {}
        self.lutgroups = {}      # index tuple -> basis list [(pivot, tt, form)]
        self.lutatom = {}        # atom id -> (index tuple, tt)
        self.sumwords = {}       # bits tuple -> (width, ((word, coef)...), const)
        self.words = {}
        self.nvars = 0
        self.and_limit = 64
        self.name_limit = 0
        self.ufs = {}
        self.supp = {}
        self.zc = {}

T_ = T()

def reset():
    T_.__init__()

def form_id(s):
    f = T_.form_ids.get(s)
    if f is None:
        f = len(T_.forms)
        T_.forms.append(s)
        T_.form_ids[s] = f
    return f

def mon_id(t):
    m = T_.mon_ids.get(t)
    if m is None:
        m = len(T_.mons)
        T_.mons.append(t)
        T_.mon_ids[t] = m
    return m

def atom(key):
    """form id of an atom"""
    a = T_.atom_ids.get(key)
    if a is None:
        a = len(T_.atoms)
        T_.atoms.append(key)
        T_.atom_ids[key] = a
    return form_id(frozenset((mon_id((a,)),)))

def xor(a, b):
    if a == b: return 0
    if a == 0: return b
    if b == 0: return a
    if a > b: a, b = b, a
    k = (a, b)
    r = T_.xc.get(k)
    if r is None:
        F = T_.forms
        x = F[a] ^ F[b]
        if T_.name_limit and len(x) > T_.name_limit:
            # definitional name for a long form (only where a check asks for it)
            c = 1 if 0 in x else 0
            if c: x = x ^ frozenset((0,))
            r = atom(('nm', form_id(x)))
            if c: r = form_id(F[r] ^ frozenset((0,)))
        else: r = form_id(x)
        T_.xc[k] = r
    return r

def xor_many(l):
    s = set()
    for f in l:
        s ^= T_.forms[f]
    return form_id(frozenset(s))

def inv(a):
    return xor(a, 1)

def fand(a, b):
    if a == b: return a
    if a == 0 or b == 0: return 0
    if a == 1: return b
    if b == 1: return a
    if a > b: a, b = b, a
    k = (a, b)
    r = T_.ac.get(k)
    if r is not None: return r
    if xor(a, b) == 1:
        r = 0
    else:
        A, B = T_.forms[a], T_.forms[b]
        if len(A) * len(B) <= T_.and_limit:
            M = T_.mons
            s = set()
            for x in A:
                for y in B:
                    if x == 0: m = y
                    elif y == 0: m = x
                    elif x == y: m = x
                    else: m = mon_id(tuple(sorted(set(M[x]) | set(M[y]))))
                    s ^= {m}
            r = form_id(frozenset(s))
        else:
            r = lut_tt((a, b), 0b1000)
    T_.ac[k] = r
    return r

def f_or(a, b):
    return xor(xor(a, b), fand(a, b))

def support(f):
    """atoms a form mentions"""
    r = T_.supp.get(f)
    if r is None:
        s = set()
        for m in T_.forms[f]:
            s.update(T_.mons[m])
        r = frozenset(s)
        T_.supp[f] = r
    return r

_PROJ = {}
def proj_tt(m, i):
    k = (m, i)
    r = _PROJ.get(k)
    if r is None:
        r = 0
        for x in range(1 << m):
            if (x >> i) & 1: r |= 1 << x
        _PROJ[k] = r
    return r

def full_tt(m):
    return (1 << (1 << m)) - 1

_PERM = {}
def _permute_tt(tt, m, order, flips):
    """new tt over sorted/complemented indices: new index bit j is old index bit order[j]; old bit i is
    complemented if flips bit i is set."""
    key = (m, order, flips)
    p = _PERM.get(key)
    if p is None:
        p = []
        for x in range(1 << m):
            o = 0
            for j in range(m):
                if (x >> j) & 1: o |= 1 << order[j]
            p.append(o ^ flips)
        _PERM[key] = p
    r = 0
    s = bin(tt)[2:].zfill(1 << m)[::-1]
    for x in range(1 << m):
        if s[p[x]] == '1': r |= 1 << x
    return r

def eval_form_over(f, atoms_order):
    """truth table of form f over the given atom list"""
    m = len(atoms_order)
    pos = {a: i for i, a in enumerate(atoms_order)}
    tt = 0
    full = full_tt(m)
    for mo in T_.forms[f]:
        t = full
        for a in T_.mons[mo]:
            t &= proj_tt(m, pos[a])
        tt ^= t
    return tt

def compose_tt(tt, m, inner):
    """tt over m bits, inner: list of m truth tables (over n bits, as ints of size 2^n)"""
    n_entries = compose_tt.n
    r = 0
    strs = [bin(t)[2:].zfill(n_entries)[::-1] for t in inner]
    for x in range(n_entries):
        o = 0
        for i in range(m):
            if strs[i][x] == '1': o |= 1 << i
        if (tt >> o) & 1: r |= 1 << x
    return r

def lut_bits(idx, tables):
    """idx: list of forms (LSB first); tables: list of truth tables (ints over 2^m).  returns list of forms"""
    # 1. drop constants, strip complements
    m = len(idx)
    consts = 0
    free = []
    flips = 0
    for i, f in enumerate(idx):
        if f == 0 or f == 1:
            if f: consts |= 1 << i
        else:
            free.append(i)
    if len(free) < m:
        nt = []
        for tt in tables:
            r = 0
            for x in range(1 << len(free)):
                o = consts
                for j, i in enumerate(free):
                    if (x >> j) & 1: o |= 1 << i
                if (tt >> o) & 1: r |= 1 << x
            nt.append(r)
        return lut_bits([idx[i] for i in free], nt) if free else [1 if t & 1 else 0 for t in nt]
    # duplicates
    norm = []
    for i, f in enumerate(idx):
        if 0 in T_.forms[f]:
            norm.append(xor(f, 1)); flips |= 1 << i
        else:
            norm.append(f)
    if len(set(norm)) < m:
        # merge duplicates
        uniq = sorted(set(norm))
        pos = {f: j for j, f in enumerate(uniq)}
        nt = []
        for tt in tables:
            r = 0
            for x in range(1 << len(uniq)):
                o = 0
                for i, f in enumerate(norm):
                    if (x >> pos[f]) & 1: o |= 1 << i
                o ^= flips
                if (tt >> o) & 1: r |= 1 << x
            nt.append(r)
        return lut_bits(uniq, nt)
    # composition: if all index forms are functions of few underlying index forms of a single lut group
    comp = _try_compose(norm, flips, tables)
    if comp is not None:
        return comp
    order = tuple(sorted(range(m), key=lambda i: norm[i]))
    sidx = tuple(norm[i] for i in order)
    ident = order == tuple(range(m)) and flips == 0
    out = []
    for tt in tables:
        t2 = tt if ident else _permute_tt(tt, m, order, flips)
        out.append(_lut_canon(sidx, m, t2))
    return out

def _try_compose(norm, flips, tables):
    sup = set()
    for f in norm:
        sup |= support(f)
        if len(sup) > 12: return None
    groups = set()
    base = []
    for a in sup:
        la = T_.lutatom.get(a)
        if la is None:
            base.append(a)
        else:
            groups.add(la[0])
    if not groups: return None
    # inputs: union of the index forms of the groups (as opaque variables), plus plain atoms
    gin = []
    for g in sorted(groups):
        for f in g:
            if f not in gin: gin.append(f)
    batoms = []
    for a in base:
        fa = form_id(frozenset((mon_id((a,)),)))
        if fa not in gin: batoms.append(fa)
    allin = gin + batoms
    n = len(allin)
    if n > 8 and n > len(norm): return None
    if n > 10: return None
    # index forms of the groups must be treated as independent variables: sound (equality of functions of
    # those variables implies equality of values)
    pos = {f: i for i, f in enumerate(allin)}
    ttc = {}
    def att(a):
        t = ttc.get(a)
        if t is None:
            la = T_.lutatom.get(a)
            if la is None:
                fa = form_id(frozenset((mon_id((a,)),)))
                t = proj_tt(n, pos[fa])
            else:
                g, tt = la
                mm = len(g)
                if list(g) == allin[:mm] and mm == n:
                    t = tt
                else:
                    t = 0
                    ps = [pos[f] for f in g]
                    for x in range(1 << n):
                        o = 0
                        for i, p in enumerate(ps):
                            if (x >> p) & 1: o |= 1 << i
                        if (tt >> o) & 1: t |= 1 << x
            ttc[a] = t
        return t
    full = full_tt(n)
    inner = []
    for i, f in enumerate(norm):
        t = 0
        for mo in T_.forms[f]:
            v = full
            for a in T_.mons[mo]: v &= att(a)
            t ^= v
        if (flips >> i) & 1: t ^= full
        inner.append(t)
    N = 1 << n
    strs = [bin(t)[2:].zfill(N)[::-1] for t in inner]
    idxs = []
    for x in range(N):
        o = 0
        for i in range(len(norm)):
            if strs[i][x] == '1': o |= 1 << i
        idxs.append(o)
    out = []
    for tt in tables:
        r = 0
        for x in range(N):
            if (tt >> idxs[x]) & 1: r |= 1 << x
        out.append(r)
    # now a LUT over allin (whose forms are normalised & distinct)
    order = tuple(sorted(range(n), key=lambda i: allin[i]))
    sidx = tuple(allin[i] for i in order)
    return [_lut_canon(sidx, n, _permute_tt(t, n, order, 0)) for t in out]

def _lut_canon(sidx, m, tt):
    g = T_.lutgroups.get(sidx)
    if g is None:
        g = {}
        full = full_tt(m)
        basis = {}
        T_.lutgroups[sidx] = basis
        _ins(basis, full, 1)
        for i in range(m):
            _ins(basis, proj_tt(m, i), sidx[i])
        g = basis
    acc = 0
    t = tt
    while t:
        p = t.bit_length()
        e = g.get(p)
        if e is None: break
        t ^= e[0]
        acc = xor(acc, e[1])
    if t:
        # a new function of these index forms: its atom stands for the complete truth table, and the basis
        # records the reduced table together with its decomposition
        key = ('lut', sidx, tt)
        f = atom(key)
        a = T_.atom_ids[key]
        T_.lutatom[a] = (sidx, tt)
        g[t.bit_length()] = (t, xor(f, acc))
        return f
    return acc

def _ins(basis, t, f):
    while t:
        p = t.bit_length()
        e = basis.get(p)
        if e is None:
            basis[p] = (t, f)
            return
        t ^= e[0]
        f = xor(f, e[1])

def lut_tt(idx, tt):
    return lut_bits(list(idx), [tt])[0]

# ---------------------------------------------------------------- words (tuples of forms, LSB first)

def const_bits(v, w):
    return tuple((v >> i) & 1 for i in range(w))

def as_const(b):
    v = 0
    for i, f in enumerate(b):
        if f == 1: v |= 1 << i
        elif f: return None
    return v

def var(name, w):
    return tuple(atom(('v', name, i)) for i in range(w))

def wxor(a, b): return tuple(xor(x, y) for x, y in zip(a, b))
def wand(a, b): return tuple(fand(x, y) for x, y in zip(a, b))
def wor(a, b):
    return tuple((x if y == 0 else y if x == 0 else f_or(x, y)) for x, y in zip(a, b))
def wnot(a): return tuple(xor(x, 1) for x in a)
def wmux(c, a, b):
    """c ? a : b"""
    return tuple(y if x == y else xor(y, fand(c, xor(x, y))) for x, y in zip(a, b))

def _lin(b):
    """linear representation of a word modulo 2^w: (dict word->coef, const).  Words have no constant bits set."""
    w = len(b)
    sw = T_.sumwords.get(b)
    if sw is not None:
        return dict(sw[1]), sw[2]
    mask = (1 << w) - 1
    c = 0
    sym = []
    anyc = False
    for i, f in enumerate(b):
        if f == 1:
            c |= 1 << i; sym.append(0); anyc = True
        else:
            sym.append(f)
            if f == 0: anyc = True
    sb = tuple(sym)
    if not any(sb): return {}, c
    if anyc:
        # shifted known sum with zero low bits?
        t = 0
        while sb[t] == 0: t += 1
        if t:
            sw = T_.sumwords.get(sb[t:])
            if sw is not None:
                d = {}
                for word, co in sw[1]:
                    nw = (0,) * t + word[:len(word)]
                    d[nw[:w]] = co
                return d, (c + (sw[2] << t)) & mask
        return {sb: 1}, c
    # complemented word: canonicalise by the constant of the lowest bit
    if 0 in T_.forms[sb[0]]:
        nb = wnot(sb)
        sw = T_.sumwords.get(nb)
        if sw is not None:
            return {k: (-v) & mask for k, v in sw[1]}, (-sw[2] - 1) & mask
        return {nb: mask}, mask          # x = -1 - ~x
    return {sb: 1}, c

def _mklin(d, c, w):
    mask = (1 << w) - 1
    d = {k: v & mask for k, v in d.items() if v & mask}
    c &= mask
    if not d: return const_bits(c, w)
    # common trailing zeros of symbolic parts (coefficient powers and low zero bits)
    t = w
    for word, co in d.items():
        z = 0
        while word[z] == 0: z += 1
        z += (co & -co).bit_length() - 1
        if z < t: t = z
    if t >= w: return const_bits(c, w)
    if len(d) == 1:
        (word, co), = d.items()
        # exact powers of two with no interfering constant
        if co & (co - 1) == 0:
            sh = co.bit_length() - 1
            res = ((0,) * sh + word)[:w]
            if c == 0: return res
            if all(not ((c >> i) & 1) or res[i] == 0 for i in range(w)):
                return tuple(1 if (c >> i) & 1 else res[i] for i in range(w))
        if co == mask and c == mask:
            if all(word): return wnot(word)
    if t:
        hi = _mklin_hi(d, c >> t, w, t)
        return const_bits(c & ((1 << t) - 1), t) + hi
    return _sumatoms(d, c, w)

def _mklin_hi(d, c, w, t):
    # shift all parts right by t
    nd = {}
    for word, co in d.items():
        z = 0
        while word[z] == 0: z += 1
        z = min(z, t)
        nw = word[z:z + (w - t)]
        nc = co
        rest = t - z
        nc = co >> rest
        nw = nw + (0,) * ((w - t) - len(nw))
        if not any(nw): continue
        nd[nw] = (nd.get(nw, 0) + nc) & ((1 << (w - t)) - 1)
    # re-linearise (parts may themselves be known sums)
    dd, cc = {}, c
    for word, co in nd.items():
        d2, c2 = _lin(word)
        for k, v in d2.items(): dd[k] = dd.get(k, 0) + v * co
        cc += c2 * co
    return _mklin(dd, cc, w - t)

def _trunckey(d, c, w):
    nd = {}
    m = (1 << w) - 1
    for word, co in d.items():
        k = word[:w]
        if not any(k): continue
        # a truncated operand may itself be a known sum or constant-carrying word
        d2, c2 = _lin(k)
        for x, v in d2.items():
            nd[x] = (nd.get(x, 0) + v * co) & m
        c += c2 * co
    return {k: v for k, v in nd.items() if v}, c & m

def _sumatoms(d, c, w):
    key = (w, tuple(sorted(d.items())), c)
    r = T_.words.get(key)
    if r is None:
        # bit i of a sum depends on the operands modulo 2^(i+1) only: bits are named after the sum truncated to
        # 8, 16, 32 bits, so a truncated sum and the sum of truncated operands are the same bits
        lo = ()
        for s in (8, 16, 32, 64):
            if s >= w: break
            d2, c2 = _trunckey(d, c, s)
            lo2 = _mklin(d2, c2, s)
            lo = lo2
        top = c                                 # no wrap-around: the bits above the largest value are 0
        for word, co in d.items(): top += co * sum(1 << i for i, f in enumerate(word) if f)
        r = lo + tuple(atom(('add', key, i)) if top >> i else 0 for i in range(len(lo), w))
        T_.words[key] = r
        T_.sumwords.setdefault(r, key)
    return r

def wlin(parts, const, w):
    """sum of coef*word modulo 2^w"""
    d, c = {}, const
    for word, co in parts:
        d2, c2 = _lin(word)
        for k, v in d2.items(): d[k] = d.get(k, 0) + v * co
        c += c2 * co
    return _mklin(d, c, w)

def disjoint(a, b):
    for x, y in zip(a, b):
        if x and y: return False
    return True

def wadd(a, b):
    if disjoint(a, b):
        return tuple(x or y for x, y in zip(a, b))
    return wlin([(a, 1), (b, 1)], 0, len(a))

def wsub(a, b):
    w = len(a)
    ca = as_const(a)
    if ca == 0 and not any(b[1:]):
        return (b[0],) * w              # -(bit)
    return wlin([(a, 1), (b, -1)], 0, w)

def wtrunc(b, w):
    return b[:w]

def uf(name, args, outw):
    """bits of an uninterpreted function applied to a tuple of forms"""
    key = (name, args)
    i = T_.ufs.get(key)
    if i is None:
        i = len(T_.ufs)
        T_.ufs[key] = i
        T_.ufs[i] = key
    return tuple(atom(('uf', name, i, b)) for b in range(outw))

# ---------------------------------------------------------------- evaluation and z3 export

def evaluate(forms, env, ufimpl=None, cache=None):
    """concrete evaluation: env maps ('v',name,i) keys -> 0/1"""
    cache = {} if cache is None else cache
    sys.setrecursionlimit(1000000)
    def ev_atom(a):
        k = T_.atoms[a]
        if k[0] == 'v': return env(k)
        if k[0] == 'lut':
            x = 0
            for i, f in enumerate(k[1]):
                if ev(f): x |= 1 << i
            return (k[2] >> x) & 1
        if k[0] == 'add':
            w, parts, c = k[1]
            ck = ('s', k[1])
            v = cache.get(ck)
            if v is None:
                v = c
                for word, co in parts:
                    x = 0
                    for i, f in enumerate(word):
                        if ev(f): x |= 1 << i
                    v += co * x
                cache[ck] = v
            return (v >> k[2]) & 1
        if k[0] == 'nm': return ev(k[1])
        if k[0] == 'uf':
            ck = ('u', k[2])
            v = cache.get(ck)
            if v is None:
                name, args = T_.ufs[k[2]]
                v = ufimpl(name, args, ev)
                cache[ck] = v
            return (v >> k[3]) & 1
        raise Unsupported('eval ' + str(k[0]))
    def ev(f):
        r = cache.get(f)
        if r is not None: return r
        r = 0
        for m in T_.forms[f]:
            p = 1
            for a in T_.mons[m]:
                ka = ('a', a)
                v = cache.get(ka)
                if v is None:
                    v = ev_atom(a)
                    cache[ka] = v
                if not v:
                    p = 0; break
            r ^= p
        cache[f] = r
        return r
    return [ev(f) for f in forms]
