"""Contracts of the big-number functions (irv.wv): pre- and postconditions in terms of the value sum(word[i] * 2^(64 i)) and the sign."""
from fractions import Fraction
from irv import wv, wvrun
from irv.wv import P, V, N, Ptr, W64, Failed

LAY = {'length': 0, 'max_length': 4, 'sign': 8, 'data': 16}
SUCCESS = 0

def cell(eng, s, nm, f):
    v = s.cells[(nm, LAY[f])]
    return eng.to_s(s, v) if isinstance(v, N) else v
def val(eng, s, nm):
    """magnitude of the number at exit"""
    return eng.S(s, s.arr[nm + '.d'], cell(eng, s, nm, 'length'))
def ent(eng, s, nm):
    """magnitude of the number at entry"""
    nm = s.extra.get(nm + '.al', nm)
    return eng.S(s, s.ent[nm + '.d'], s.extra[nm + '.len'])
def sgn(eng, s, nm): return s.extra[nm + '.sign']
def is_bit(eng, s, p):
    """0/1 value of a polynomial that is known to be a bit"""
    return 1 if eng.decide(s, p - 1) else 0

def wellformed(eng, s, nm, top=True):
    """the data structure invariant at exit"""
    mx = s.extra[nm + '.max']
    eng.check(s, cell(eng, s, nm, 'max_length') - mx, '==', nm + ': capacity unchanged')
    d = s.cells[(nm, LAY['data'])]
    if not (isinstance(d, Ptr) and d.o == nm + '.d' and d.off.const() == 0): raise Failed(nm + ': data pointer unchanged', '')
    eng.ob(nm + ': data pointer unchanged')
    l = cell(eng, s, nm, 'length')
    eng.check(s, l - 1, '>=', nm + ': length at least one')
    eng.check(s, mx - l, '>=', nm + ': length within the capacity')
    g = cell(eng, s, nm, 'sign')
    eng.check(s, g, '>=', nm + ': sign flag 0 or 1'); eng.check(s, 1 - g, '>=', nm + ': sign flag 0 or 1')
    if top and eng.decide(s, l - 2):
        # the top word is not zero  <=>  the magnitude is at least 2^(64 (l - 1))
        if eng.valid(s, eng.read(s, s.arr[nm + '.d'], l - 1) - 1, '>='): eng.ob(nm + ': top word not zero')
        else: eng.check(s, val(eng, s, nm) - eng.pow2(s, (l - 1) * 64), '>=', nm + ': top word not zero')

def ret(eng, s, rv):
    c = rv.p.const()
    if c is None: raise Failed('return value', 'not decided')
    return c

def same_sign(eng, s, nm, want):
    eng.check(s, cell(eng, s, nm, 'sign') - want, '==', nm + ': sign')

SPECS = {}
def add(key, *a, contracts=(), nosplit=(), group='', cost=1, wip=False, **k):
    sp = wvrun.Spec(*a, **k)
    sp.nosplit = nosplit; sp.key = key; sp.uses = contracts; sp.group = group; sp.cost = cost; sp.wip = wip
    SPECS[key] = sp
    return sp

CONTRACTS = {}      # function -> (callee contract for irv.wv, keys of the specs that establish it)
def contracts_for(key): return {f: CONTRACTS[f][0] for f in SPECS[key].uses}
def depends(key): return [k for f in SPECS[key].uses for k in CONTRACTS[f][1]]

def fits(eng, s, cond, what='refused only when it does not fit'):
    """cond >= 0 must hold on an error return"""
    eng.check(s, cond, '>=', what)

# ---------------------------------------------------------------- addition of magnitudes
def p_add(eng, s, rv):
    c = ret(eng, s, rv)
    mr = s.extra['r.max']
    al, bl = s.extra['a.len'], s.extra['b.len']
    if c != 0:
        # only when the sum needs more words than r has
        mx = al if eng.decide(s, al - bl) else bl
        fits(eng, s, mx - mr)
        if eng.decide(s, mr - mx): eng.check(s, ent(eng, s, 'a') + ent(eng, s, 'b') - eng.pow2(s, mr * 64), '>=', 'refused only when the sum does not fit')
        return
    eng.check(s, val(eng, s, 'r') - ent(eng, s, 'a') - ent(eng, s, 'b'), '==', 'r = |a| + |b|')
    same_sign(eng, s, 'r', sgn(eng, s, 'r'))
    wellformed(eng, s, 'r')
R3 = [('bn', 'r'), ('bn', 'a'), ('bn', 'b')]
for sfx, al in (('', {}), ('/r=a', {'a': 'r'}), ('/r=b', {'b': 'r'}), ('/a=b', {'b': 'a'}), ('/r=a=b', {'a': 'r', 'b': 'r'})):
    add('_BnAdd' + sfx, '_BnAdd', R3, p_add, alias=al, nosplit=() if 'r=' in sfx else ('r',), group='C16')

# ---------------------------------------------------------------- subtraction of magnitudes
def a_sub(eng, s):
    """|a| >= |b|, and a is not the shorter one"""
    d = ent(eng, s, 'a') - ent(eng, s, 'b')
    if not eng.add_pc(s, d): return []
    if not eng.add_pc(s, s.extra['a.len'] - s.extra['b.len']): return []
    return [s]
def p_sub(eng, s, rv):
    c = ret(eng, s, rv)
    mr = s.extra['r.max']
    al, bl = s.extra['a.len'], s.extra['b.len']
    if c != 0:
        if not eng.decide(s, bl - al - 1): fits(eng, s, al - mr - 1)
        else: raise Failed('refused only when it does not fit', 'the longer operand must be the first')
        return
    eng.check(s, val(eng, s, 'r') - ent(eng, s, 'a') + ent(eng, s, 'b'), '==', 'r = |a| - |b|')
    same_sign(eng, s, 'r', sgn(eng, s, 'r'))
    wellformed(eng, s, 'r')
def s_sub(names):
    def f(rng):
        a = wvrun.rwords(rng, rng.randrange(1, 6)); b = wvrun.rwords(rng, rng.randrange(1, len(a) + 1))
        va = sum(x << 64 * i for i, x in enumerate(a)); vb = sum(x << 64 * i for i, x in enumerate(b))
        if va < vb: a, b = b, a
        if rng.randrange(8) == 0: b = list(a)
        d = {names[0]: a, names[1]: b}
        d['r.max'] = max(2, len(a) + rng.choice([0, 1, 2, 6]), len(b))
        return d
    return f
for sfx, al, nm in (('', {}, 'ab'), ('/r=a', {'a': 'r'}, 'rb'), ('/r=b', {'b': 'r'}, 'ar')):
    add('_BnSub' + sfx, '_BnSub', R3, p_sub, alias=al, assume=a_sub, sample=s_sub(nm), nosplit=() if 'r=' in sfx else ('r',), group='C16')
def p_subr(eng, s, rv):
    if ret(eng, s, rv) != 0: raise Failed('always succeeds', '')
    eng.check(s, val(eng, s, 'a') - ent(eng, s, 'a') + ent(eng, s, 'b'), '==', 'a = |a| - |b|')
    same_sign(eng, s, 'a', sgn(eng, s, 'a'))
    wellformed(eng, s, 'a')
add('_BnSubR', '_BnSubR', [('bn', 'a'), ('bn', 'b')], p_subr, assume=a_sub, sample=s_sub('ab'), writes=('a',), group='C18')
def p_addr(eng, s, rv):
    c = ret(eng, s, rv)
    if c != 0:
        mr = s.extra['a.max']; al, bl = s.extra['a.len'], s.extra['b.len']
        mx = al if eng.decide(s, al - bl) else bl
        fits(eng, s, mx - mr)
        if eng.decide(s, mr - mx): eng.check(s, ent(eng, s, 'a') + ent(eng, s, 'b') - eng.pow2(s, mr * 64), '>=', 'refused only when the sum does not fit')
        return
    eng.check(s, val(eng, s, 'a') - ent(eng, s, 'a') - ent(eng, s, 'b'), '==', 'a = |a| + |b|')
    same_sign(eng, s, 'a', sgn(eng, s, 'a'))
    wellformed(eng, s, 'a')
add('_BnAddR', '_BnAddR', [('bn', 'a'), ('bn', 'b')], p_addr, writes=('a',), group='C16')

# ---------------------------------------------------------------- comparison of magnitudes
def p_cmp(eng, s, rv):
    c = eng.to_s(s, rv).const()
    if c is None: raise Failed('return value', 'not decided')
    d = ent(eng, s, 'a') - ent(eng, s, 'b')
    if c == 0: eng.check(s, d, '==', 'equal only if |a| = |b|')
    elif c > 0: eng.check(s, d - 1, '>=', 'positive only if |a| > |b|')
    else: eng.check(s, -d - 1, '>=', 'negative only if |a| < |b|')
    if c not in (0, 1, -1): raise Failed('result -1, 0 or 1', str(c))
def s_cmp(rng):
    a = wvrun.rwords(rng, rng.randrange(1, 6)); b = wvrun.rwords(rng, rng.randrange(1, 6))
    if rng.randrange(3):
        b = list(a)
        if rng.randrange(3): b[rng.randrange(len(b))] = wvrun.edge(rng)
        if len(b) > 1 and b[-1] == 0: b[-1] = 1
    return {'a': a, 'b': b}
add('_BnCmp', '_BnCmp', [('bn', 'a'), ('bn', 'b')], p_cmp, sample=s_cmp, writes=(), group='C16')

# ---------------------------------------------------------------- doubling
def p_dbl(eng, s, rv):
    c = ret(eng, s, rv)
    if c != 0:
        mr, al = s.extra['r.max'], s.extra['a.len']
        fits(eng, s, al - mr)
        if eng.decide(s, mr - al): eng.check(s, 2 * ent(eng, s, 'a') - eng.pow2(s, mr * 64), '>=', 'refused only when the double does not fit')
        return
    eng.check(s, val(eng, s, 'r') - 2 * ent(eng, s, 'a'), '==', 'r = 2 |a|')
    same_sign(eng, s, 'r', sgn(eng, s, 'a'))
    wellformed(eng, s, 'r')
R2 = [('bn', 'r'), ('bn', 'a')]
add('BnDouble', 'BnDouble', R2, p_dbl, nosplit=('r',), group='C16')
add('BnDouble/r=a', 'BnDouble', R2, p_dbl, alias={'a': 'r'}, group='C16')

# ---------------------------------------------------------------- copying and setting
def p_set(eng, s, rv):
    c = ret(eng, s, rv)
    if c != 0: fits(eng, s, s.extra['a.len'] - s.extra['r.max'] - 1); return
    eng.check(s, val(eng, s, 'r') - ent(eng, s, 'a'), '==', 'r = a')
    same_sign(eng, s, 'r', sgn(eng, s, 'a'))
    wellformed(eng, s, 'r')
add('BnSet', 'BnSet', R2, p_set, nosplit=('r',), group='C16')
add('BnSet/r=a', 'BnSet', R2, p_set, alias={'a': 'r'}, group='C16')

def p_setw(kind):
    def f(eng, s, rv):
        v = s.extra['v']
        if eng.decide(s, v): m, g = v, 0
        else: m, g = -v, 1
        eng.check(s, val(eng, s, 'r') - m, '==', '|r| = |v|')
        same_sign(eng, s, 'r', g)
        wellformed(eng, s, 'r')
    return f
for fn, k in (('BnSetInt', 'i64'), ('BnSetInt64', 'i64'), ('BnSetInt32', 'i32'), ('BnSetUInt', 'u64'), ('BnSetUInt64', 'u64'), ('BnSetUInt32', 'u32')):
    add(fn, fn, [('bn', 'r'), (k, 'v')], p_setw(k), nosplit=('r',), group='C20')

# ---------------------------------------------------------------- a word added to or taken from the magnitude
def p_addw(eng, s, rv):
    c = ret(eng, s, rv)
    if c != 0:
        eng.check(s, ent(eng, s, 'a') + s.extra['v'] - eng.pow2(s, s.extra['a.max'] * 64), '>=', 'refused only when the sum does not fit'); return
    eng.check(s, val(eng, s, 'a') - ent(eng, s, 'a') - s.extra['v'], '==', '|a| grows by v')
    same_sign(eng, s, 'a', sgn(eng, s, 'a'))
    wellformed(eng, s, 'a')
def p_subw(eng, s, rv):
    if ret(eng, s, rv) != 0: raise Failed('always succeeds', '')
    e, v = ent(eng, s, 'a'), s.extra['v']
    if eng.decide(s, e - v):
        eng.check(s, val(eng, s, 'a') - e + v, '==', '|a| shrinks by v'); same_sign(eng, s, 'a', sgn(eng, s, 'a'))
    else:
        eng.check(s, val(eng, s, 'a') + e - v, '==', '|a| becomes v - |a|'); same_sign(eng, s, 'a', 1 - sgn(eng, s, 'a'))
    wellformed(eng, s, 'a')
AW = [('bn', 'a'), ('u64', 'v')]
add('_BnAddUInt', '_BnAddUInt', AW, p_addw, writes=('a',), group='C20')
add('_BnSubUInt', '_BnSubUInt', AW, p_subw, writes=('a',), group='C20')

# signed value of a, as a polynomial, once its sign is decided
def sval(eng, s, mag, sign):
    return -mag if is_bit(eng, s, sign) else mag
def p_saddw(sub):
    def f(eng, s, rv):
        c = ret(eng, s, rv)
        e = sval(eng, s, ent(eng, s, 'a'), sgn(eng, s, 'a')); v = s.extra['v']
        w = e - v if sub else e + v
        if c != 0:
            # magnitude does not fit
            m = w if eng.decide(s, w) else -w
            eng.check(s, m - eng.pow2(s, s.extra['a.max'] * 64), '>=', 'refused only when the result does not fit'); return
        eng.check(s, sval(eng, s, val(eng, s, 'a'), cell(eng, s, 'a', 'sign')) - w, '==', 'a = a -/+ v')
        wellformed(eng, s, 'a')
    return f
for fn, k, sub in (('BnAddInt', 'i64', 0), ('BnAddUInt', 'u64', 0), ('BnSubInt', 'i64', 1), ('BnSubUInt', 'u64', 1)):
    add(fn, fn, [('bn', 'a'), (k, 'v')], p_saddw(sub), writes=('a',), group='C20')

def p_cmpw(eng, s, rv):
    c = eng.to_s(s, rv).const()
    if c not in (0, 1, -1): raise Failed('result -1, 0 or 1', str(c))
    d = sval(eng, s, ent(eng, s, 'a'), sgn(eng, s, 'a')) - s.extra['v']
    if c == 0: eng.check(s, d, '==', 'equal only if a = v')
    elif c > 0: eng.check(s, d - 1, '>=', 'positive only if a > v')
    else: eng.check(s, -d - 1, '>=', 'negative only if a < v')
for fn, k in (('BnCmpInt', 'i64'), ('BnCmpUInt', 'u64')):
    add(fn, fn, [('bn', 'a'), (k, 'v')], p_cmpw, writes=(), group='C20')

def p_mulw(eng, s, rv):
    c = ret(eng, s, rv)
    v = s.extra['v']
    if eng.decide(s, v): m, neg = v, 0
    else: m, neg = -v, 1
    e = ent(eng, s, 'a')
    if c != 0:
        eng.check(s, e * m - eng.pow2(s, s.extra['a.max'] * 64), '>=', 'refused only when the product does not fit'); return
    eng.check(s, val(eng, s, 'a') - e * m, '==', '|a| = |a| |v|')
    g = sgn(eng, s, 'a')
    same_sign(eng, s, 'a', 1 - g if neg else g)
    wellformed(eng, s, 'a')
for fn, k in (('BnMulInt', 'i64'), ('BnMulUInt', 'u64')):
    add(fn, fn, [('bn', 'a'), (k, 'v')], p_mulw, writes=('a',), group='C20')

def p_divw(eng, s, rv):
    c = ret(eng, s, rv)
    v = s.extra['v']
    if not eng.decide(s, v - 1):
        if not eng.decide(s, v):
            m, neg = -v, 1
        else:
            eng.ob('division by zero is refused')
            if c == 0: raise Failed('division by zero is refused', 'returned success')
            eng.check(s, val(eng, s, 'a') - ent(eng, s, 'a'), '==', 'refusal leaves a alone')
            return
    else: m, neg = v, 0
    if c != 0: raise Failed('always succeeds for a divisor that is not zero', '')
    e = ent(eng, s, 'a')
    if ('rem', 0) in s.cells:
        r = eng.to_u(s, s.cells[('rem', 0)])
        eng.check(s, val(eng, s, 'a') * m + r - e, '==', '|a| = q |v| + r')
        eng.check(s, r, '>=', '0 <= r < |v|'); eng.check(s, m - 1 - r, '>=', '0 <= r < |v|')
    else:
        r = e - val(eng, s, 'a') * m
        eng.check(s, r, '>=', '0 <= |a| - q |v| < |v|'); eng.check(s, m - 1 - r, '>=', '0 <= |a| - q |v| < |v|')
    g = sgn(eng, s, 'a')
    same_sign(eng, s, 'a', 1 - g if neg else g)
    wellformed(eng, s, 'a')
for fn, k in (('BnDivInt', 'i64'), ('BnDivUInt', 'u64')):
    add(fn, fn, [('bn', 'a'), (k, 'v'), ('outw', 'rem')], p_divw, writes=('a', 'rem'), group='C20')
    add(fn + '/rem=NULL', fn, [('bn', 'a'), (k, 'v'), ('outw', 'rem')], p_divw, writes=('a', 'rem'), null=('rem',), group='C20')
def p_modw(eng, s, rv):
    c = ret(eng, s, rv)
    v = s.extra['v']
    if not eng.decide(s, v - 1):
        eng.ob('division by zero is refused')
        if c == 0: raise Failed('division by zero is refused', 'returned success')
        return
    if c != 0: raise Failed('always succeeds for a divisor that is not zero', '')
    r = eng.to_u(s, s.cells[('rem', 0)])
    q = s.extra['quot'](eng, s)
    eng.check(s, q * v + r - ent(eng, s, 'a'), '==', '|a| = q |v| + r for some q')
    eng.check(s, r, '>=', '0 <= r < |v|'); eng.check(s, v - 1 - r, '>=', '0 <= r < |v|')

# ---------------------------------------------------------------- shifts and lengths
def p_shr(eng, s, rv):
    if ret(eng, s, rv) != 0: raise Failed('always succeeds', '')
    v, e, n = val(eng, s, 'a'), ent(eng, s, 'a'), s.extra['v']
    t = eng.pow2(s, n)
    w, b, l = s.extra['v.w'], s.extra['v.b'], s.extra['a.len']
    if eng.decide(s, v - 1): same_sign(eng, s, "a", sgn(eng, s, "a"))
    if eng.decide(s, l - w - 1):
        # |a| = q 2^n + the bits shifted out: the words below word w and the low bits of word w
        x = eng.read(s, s.ent['a.d'], w); tb, tw = eng.pow2(s, b), eng.pow2(s, w * 64)
        y = x - eng.F(s, x, b) * tb; low = eng.S(s, s.ent['a.d'], w)
        for q in (y, tb - 1 - y):
            if not eng.valid(s, q, '>='): raise Failed('floor(|a| / 2^n)', 'residue out of range')
            eng.add_pc(s, q * tw)
        eng.add_pc(s, low); eng.add_pc(s, tw - 1 - low)
        m = low + y * tw
        if not eng.decide(s, l - w - 2): eng.add_pc(s, e - low - x * tw, '==')      # one word remains: l = w + 1
        eng.check(s, v * t + m - e, '==', '|a| = q 2^n + the bits shifted out')
        eng.check(s, m, '>=', 'floor(|a| / 2^n)'); eng.check(s, t - 1 - m, '>=', 'floor(|a| / 2^n)')
        # lemma: |a| >= 2^(64 (l - 1)) and n <= 64 w + 63 give a quotient of at least 2^(64 (l - w - 2))
        if eng.decide(s, l - w - 2) and eng.valid(s, e - eng.pow2(s, (l - 1) * 64), '>='): eng.add_pc(s, v - eng.pow2(s, (l - w - 2) * 64))
    else:
        eng.check(s, v, '==', 'floor(|a| / 2^n)'); eng.check(s, t - 1 - e, '>=', 'floor(|a| / 2^n)')
    wellformed(eng, s, 'a')
add('BnShiftR', 'BnShiftR', [('bn', 'a'), ('h32', 'v')], p_shr, writes=('a',), group='C19')
def p_shl(eng, s, rv):
    c = ret(eng, s, rv)
    v, e, n = val(eng, s, 'a'), ent(eng, s, 'a'), s.extra['v']
    t = eng.pow2(s, n)
    if c != 0:
        eng.check(s, e * t - eng.pow2(s, s.extra['a.max'] * 64), '>=', 'refused only when the result does not fit'); return
    eng.check(s, v - e * t, '==', '|a| 2^n')
    same_sign(eng, s, 'a', sgn(eng, s, 'a'))
    wellformed(eng, s, 'a')
add('BnShiftL', 'BnShiftL', [('bn', 'a'), ('h32', 'v')], p_shl, writes=('a',), group='C19', wip=True)

# ---------------------------------------------------------------- multiplication
def p_mul(eng, s, rv):
    c = ret(eng, s, rv)
    b = 'b' if 'b.len' in s.extra else 'a'
    if c != 0: return
    eng.check(s, val(eng, s, 'r') - ent(eng, s, 'a') * ent(eng, s, b), '==', '|r| = |a| |b|')
    ga, gb = is_bit(eng, s, sgn(eng, s, 'a')), is_bit(eng, s, sgn(eng, s, b))
    wellformed(eng, s, 'r')
add('BnMul', 'BnMul', R3, p_mul, nosplit=('r',), group='C17', wip=True)
add('BnMul/a=b', 'BnMul', R3, p_mul, alias={'b': 'a'}, nosplit=('r',), group='C17', wip=True)
add('BnSqr', 'BnSqr', R2, p_mul, nosplit=('r',), group='C17', wip=True)

# ---------------------------------------------------------------- signed addition, subtraction, comparison
def p_sadd(sub, bn='b'):
    def f(eng, s, rv):
        c = ret(eng, s, rv)
        x = sval(eng, s, ent(eng, s, 'a'), sgn(eng, s, 'a')); y = sval(eng, s, ent(eng, s, 'b'), sgn(eng, s, 'b'))
        w = x - y if sub else x + y
        if c != 0:
            mr = s.extra['r.max']; al, bl = s.extra['a.len'], s.extra['b.len']
            mx = al if eng.decide(s, al - bl) else bl
            if eng.decide(s, mr - mx):
                m = w if eng.decide(s, w) else -w
                eng.check(s, m - eng.pow2(s, mr * 64), '>=', 'refused only when the result does not fit')
            else: eng.ob('refused only when it does not fit')
            return
        eng.check(s, sval(eng, s, val(eng, s, 'r'), cell(eng, s, 'r', 'sign')) - w, '==', 'r = a -/+ b')
        wellformed(eng, s, 'r')
    return f
for fn, sub in (('BnAdd', 0), ('BnSub', 1)):
    for sfx, al in (('', {}), ('/r=a', {'a': 'r'}), ('/r=b', {'b': 'r'}), ('/a=b', {'b': 'a'}), ('/r=a=b', {'a': 'r', 'b': 'r'})):
        add(fn + sfx, fn, R3, p_sadd(sub), alias=al, nosplit=() if 'r=' in sfx else ('r',), group='C16')
def p_scmp(eng, s, rv):
    c = eng.to_s(s, rv).const()
    if c not in (0, 1, -1): raise Failed('result -1, 0 or 1', str(c))
    d = sval(eng, s, ent(eng, s, 'a'), sgn(eng, s, 'a')) - sval(eng, s, ent(eng, s, 'b'), sgn(eng, s, 'b'))
    if c == 0: eng.check(s, d, '==', 'equal only if a = b')
    elif c > 0: eng.check(s, d - 1, '>=', 'positive only if a > b')
    else: eng.check(s, -d - 1, '>=', 'negative only if a < b')
add('BnCmp', 'BnCmp', [('bn', 'a'), ('bn', 'b')], p_scmp, sample=s_cmp, writes=(), group='C16')

# ---------------------------------------------------------------- position of the top bit of a word (contract used by the multi-word functions; established in props/msb.py)
def c_msb(eng, st, args, path):
    v = eng.to_u(st, args[0])
    if not eng.decide(st, v - 1): return N(32, 0, 's')
    if v.const() is not None: return N(32, v.const().bit_length() - 1, 's')
    # one name per word: the result is a function of the argument
    key = ('msb', v)
    m = st.extra.get(key)
    if m is None:
        m = V(eng.newname('msb'))
        st.extra[key] = m
        for p in (m, 63 - m, v - eng.pow2(st, m), eng.pow2(st, m) * 2 - 1 - v):
            if not eng.add_pc(st, p): raise Failed('contract of _BnGetMSBPos', 'contradiction')
    return N(32, m, 's')
EXTERNS = {'_BnGetMSBPos': lambda m, a: max(a[0].bit_length() - 1, 0)}

# ---------------------------------------------------------------- random numbers
def c_fill(eng, st, args, path):
    """BnGenRandomByteArray(data, len, rnd): len arbitrary bytes, or a failure"""
    p, n = args[0], eng.to_s(st, args[1])
    o = st.objs[p.o]
    if o.es != 8: raise wv.Unsupported('random bytes into ' + o.name)
    if not o.writable: raise Failed('frame', 'write to ' + o.name)
    nn = wv.Poly({m: eng.ediv(c, 8) for m, c in n.t.items()})
    lo = eng.index(st, p, o)
    eng.check(st, nn, '>=', 'no negative byte count')
    eng.check(st, lo, '>=', 'access within the storage'); eng.check(st, o.cap - lo - nn, '>=', 'access within the storage')
    id = eng.newname('raw')
    st.arr[p.o] = wv.Loop(st.arr[p.o], lo, lo + nn, id)
    st.extra['raw'] = id
    out = []
    for lo2, hi2 in ((1, (1 << 31) - 1), (-(1 << 31), -1)):
        f = st.copy(); e = eng.newname('err'); eng.bounds_hint[e] = (lo2, hi2); f.extra['failed'] = 1
        out.append((f, N(32, V(e), 's')))
    return [(st, N(32, 0, 's'))] + out
def x_fill(m, a):
    import random
    p, n = a[0], a[1]; r = random.Random(len(m.arr[p[1]]) * 131 + n)
    for j in range(n // 8): m.arr[p[1]][p[2] // 8 + j] = r.choice([0, 0, 1, W64 - 1, r.randrange(W64), r.randrange(W64)])
    return 0
EXTERNS['BnGenRandomByteArray'] = x_fill
CONTRACTS['BnGenRandomByteArray'] = (c_fill, [])
def p_rand(kind):
    def f(eng, s, rv):
        n, mx = s.extra['v'], s.extra['a.max']
        c = rv.p.const()
        if s.extra.get('failed'):
            eng.ob('a failing generator is reported')
            if c == 0: raise Failed('a failing generator is reported', 'success')
            return
        if c is None: raise Failed('return value', 'not decided')
        if c != 0:
            eng.check(s, n - mx * 64 - 1, '>=', 'refused only when the number does not fit'); return
        v = val(eng, s, 'a')
        eng.check(s, cell(eng, s, 'a', 'sign'), '==', 'never negative')
        w, b = s.extra['v.w'], s.extra['v.b']
        eng.decide(s, w - 1)
        if not eng.decide(s, n - 1):
            eng.check(s, v, '==', 'zero bits give 0'); wellformed(eng, s, 'a'); return
        if 'raw' not in s.extra: raise Failed('the number is drawn from the generator', 'no draw')
        raw = s.extra['raw']
        if eng.decide(s, b - 1):
            x = eng.W0(s, raw, w); tb, tw = eng.pow2(s, b), eng.pow2(s, w * 64); y = x - eng.F(s, x, b) * tb; m = eng.S0(s, raw, w) + y * tw
            # lemma instances: products of proved inequalities with a power of two, floors are monotone
            for q in (y, tb - 1 - y):
                if not eng.valid(s, q, '>='): raise Failed('below 2^n', 'residue out of range')
                eng.add_pc(s, q * tw)
            if kind: eng.add_pc(s, tb * Fraction(1, 2) - 1 - eng.F(s, y, 1))
        else: m = eng.S0(s, raw, w)
        if kind and eng.decide(s, w - 1):
            # a sum of words is at least its first one, and the others sum to at most 2^(64 w) - 2^64
            q = eng.S0(s, raw, w) - eng.W0(s, raw, P(0))
            eng.add_pc(s, q); eng.add_pc(s, eng.pow2(s, w * 64) - W64 - 1 - q)
        if kind == 2 and eng.decide(s, b - 1):
            f = eng.F(s, y, b - 1)      # bit n-1 of the drawn words; floor facts times a power of two
            h = tb * Fraction(1, 2)
            for q in (y - f * h, f, 1 - f):
                if eng.valid(s, q, '>='): eng.add_pc(s, q * tw)
            if eng.decide(s, f - 1):
                if eng.valid(s, y - h, '>='): eng.add_pc(s, (y - h) * tw)
            elif eng.valid(s, h - 1 - y, '>='): eng.add_pc(s, (h - 1 - y) * tw)
        if kind == 2 and not eng.decide(s, b - 1):
            x1, t1 = eng.W0(s, raw, w - 1), eng.pow2(s, (w - 1) * 64)
            eng.add_pc(s, eng.S0(s, raw, w) - eng.S0(s, raw, w - 1) - x1 * t1, '==')
            if eng.decide(s, eng.F(s, x1, 63) - 1): eng.add_pc(s, (x1 - (1 << 63)) * t1); eng.add_pc(s, (W64 - 1 - x1) * t1)
            else: eng.add_pc(s, ((1 << 63) - 1 - x1) * t1)
            if eng.decide(s, w - 2):
                q = eng.S0(s, raw, w - 1) - eng.W0(s, raw, P(0))
                eng.add_pc(s, q); eng.add_pc(s, t1 - W64 - q)
        eng.check(s, v, '>=', 'below 2^n'); eng.check(s, eng.pow2(s, n) - 1 - v, '>=', 'below 2^n')
        if kind == 0: eng.check(s, v - m, '==', 'the drawn words modulo 2^n')
        if kind >= 1:
            r0 = eng.read(s, s.arr['a.d'], P(0))
            wit = [eng.F(s, r0, 1)]
            if kind == 2 and eng.decide(s, b - 1) and not eng.decide(s, w - 1) and eng.decide(s, b - 2):
                q = tb * Fraction(1, 4)     # 2^(b-2): the top bit is an even number
                wit += [eng.F(s, y, 1) + q, q, eng.F(s, y, 1)]
            k = next((k for k in wit[1:] if eng.valid(s, r0 - k * 2 - 1, '==')), wit[0])
            eng.check(s, r0 - k * 2 - 1, '==', 'odd')
        if kind == 1:
            eng.check(s, v - m, '>=', 'only the lowest bit is set beside the drawn words'); eng.check(s, 1 + m - v, '>=', 'only the lowest bit is set beside the drawn words')
        if kind == 2:
            eng.check(s, v * 2 - eng.pow2(s, n), '>=', 'exactly n bits')
        wellformed(eng, s, 'a')
    return f
def a_pos(eng, s): return a_bits(eng, s) if eng.add_pc(s, s.extra['v'] - 1) else []
def a_bits(eng, s): return [s] if eng.add_pc(s, (1 << 24) - V('v.w')) else []        # bit counts are an int
def s_rand(rng): return {'v': rng.choice([1, 2, 63, 64, 65, 127, 128, 129, 192, 200, 256]), 'a.max': rng.randrange(4, 9)}
for fn, kind in (('BnGenRandom', 0), ('BnGetRandomOdd', 1), ('BnGetRandomRSA', 2)):
    for k, sfx in (('null', '/no generator given'), ('opq', '')):
        add(fn + sfx, fn, [('bn', 'a'), ('h32', 'v'), (k, 'rnd')], p_rand(kind), assume=a_pos if kind else a_bits, sample=s_rand, writes=('a',), contracts=('BnGenRandomByteArray',), nosplit=('a',), group='C29')

# ---------------------------------------------------------------- bit length
CONTRACTS['_BnGetMSBPos'] = (c_msb, [])
def a_len(eng, s): return [s] if eng.add_pc(s, (1 << 24) - s.extra['a.len']) else []
def p_bitlen(eng, s, rv):
    r = eng.to_s(s, rv); v = ent(eng, s, 'a')
    l = s.extra['a.len']
    if not eng.decide(s, v - 1): eng.ob('zero has some length'); eng.check(s, r, '>=', 'never negative'); return
    t = eng.pow2(s, (l - 1) * 64); x = eng.read(s, s.ent['a.d'], l - 1)
    low = eng.S(s, s.ent['a.d'], l) - x * t       # the value of the words below the top one
    eng.add_pc(s, low); eng.add_pc(s, t - 1 - low)
    for k, m in [(k, m) for k, m in s.extra.items() if isinstance(k, tuple) and k[0] == 'msb']:
        for q in (x - eng.pow2(s, m), eng.pow2(s, m) * 2 - 1 - x):
            if eng.valid(s, q, '>='): eng.add_pc(s, q * t)
    eng.check(s, v - eng.pow2(s, r - 1), '>=', 'the number has at least that many bits')
    eng.check(s, eng.pow2(s, r) - 1 - v, '>=', 'the number has no more bits')
add('BnGetBitLength', 'BnGetBitLength', [('bn', 'a')], p_bitlen, assume=a_len, writes=(), contracts=('_BnGetMSBPos',), group='C19')
