"""Resource contracts (allocation, ownership, failure reporting, memory safety above the word level) of the functions that allocate."""
import z3
from irv import front
from irv.hv import Engine, State, Obj, Ptr, Fn, Viol, Unsupported, UNDEF, DANGLING, issym
SGN = lambda v: v
DIG = {'md2': 'Md2', 'md4': 'Md4', 'md5': 'Md5', 'sha1': 'Sha1', 'sha2': 'Sha2', 'has160': 'Has160'}
def layout():
    q = {}
    for f in ('length', 'max_length', 'sign', 'data'): q['bn.' + f] = f'offsetof(struct RaBigNumber,{f})'
    q['bn'] = 'sizeof(struct RaBigNumber)'; q['word'] = 'sizeof(bn_uint_t)'; q['rnd'] = 'sizeof(struct RaRandom)'
    q['ok'] = 'RA_ERR_SUCCESS'; q['oom'] = 'RA_ERR_OUT_OF_MEMORY'
    for f in ('type', 'offset', 'dataOffset', 'dataLength', 'child', 'next'): q['node.' + f] = f'offsetof(struct RaAsn1Node,{f})'
    q['node'] = 'sizeof(struct RaAsn1Node)'
    for f in ('algorithm', 'alg_ctx'): q['rnd.' + f] = f'offsetof(struct RaRandom,{f})'
    for f in ('RA_RAND_MD5', 'RA_RAND_SHA512', 'RA_RAND_SHA256'): q[f] = f
    for k, v in DIG.items(): q[k] = f'sizeof(struct Ra{v}Ctx)'
    q['dstack'] = 'RA_ASN1_OBJ_TYPE_CONST'
    return front.layout(q, extra='#include "../pk/asn1.h"\n')

class BN:
    """struct RaBigNumber as an abstract object: its length fields, and its words"""
    def __init__(self, lay, words_safe=True): self.l = lay; self.words_safe = words_safe
    def size(self, mx):
        if isinstance(mx, int): return self.l['bn'] + self.l['word'] * mx
        return z3.simplify(z3.BitVecVal(self.l['bn'], 64) + z3.SignExt(32, mx) * self.l['word'])
    def new(self, eng, st, site, mx, ln=None, heap=True):
        p = eng.new(st, site, 'bn', self.size(mx), 'undef', heap)
        o = st.w(p.o); o.cells['max'] = (4, mx)
        self.setlen(eng, st, p.o, ln)
        return p
    def setlen(self, eng, st, oid, ln=None):
        o = st.w(oid); mx = o.cells['max'][1]
        if ln is None:
            ln = eng.fresh(32, 'len')
            st.pc += [ln >= 1, ln <= eng.bv(mx, 32)]
        o.cells['len'] = (4, ln)
        o.cells.pop('sign', None)
    def assume(self, eng, st):
        for o in st.objs.values():
            if o.kind == 'bn':
                ln, mx = o.cells['len'][1], o.cells['max'][1]
                if issym(ln) or issym(mx): st.pc += [eng.bv(ln, 32) >= 1, eng.bv(ln, 32) <= eng.bv(mx, 32)]
    def unbounded(self, off, n): return not (isinstance(off, int) and off < self.l['bn'])
    def load(self, eng, st, o, off, n, t):
        l = self.l
        if isinstance(off, int):
            if off == l['bn.length']: return o.cells['len'][1]
            if off == l['bn.max_length']: return o.cells['max'][1]
            if off == l['bn.sign']:
                if 'sign' in o.cells: return o.cells['sign'][1]
                v = eng.fresh(32, 'sign'); st.pc.append(z3.Or(v == 0, v == 1)); st.w(o.id).cells['sign'] = (4, v); return v
            if off == l['bn.data']: return Ptr(o.id, l['bn'])
        return eng.fresh(8 * n, 'word')
    def store(self, eng, st, o, off, n, v):
        l = self.l
        if isinstance(off, int) and off < l['bn']:
            if off == l['bn.length']: st.w(o.id).cells['len'] = (4, v); return True
            if off == l['bn.sign']: st.w(o.id).cells['sign'] = (4, v); return True
            if eng.target in ('BnFree', 'BnClearFree', 'BnNewW'): return True
            raise Viol('capacity and storage of a number are set at its creation only', f'{o.id}+{off}')
        return True
    def memset(self, eng, st, o, off, v, n): return True
    def memcpy(self, eng, st, o, d, s, n): return True

class NODE:
    """RaAsn1Node as handed out by the parser: contents inside the parsed data, child and next always nodes"""
    def __init__(self, lay): self.l = lay
    def assume(self, eng, st): pass
    def unbounded(self, off, n): return False
    def new(self, eng, st, ctxid, n):
        p = eng.new(st, 'node', 'node', self.l['node'], 'undef')
        o = st.w(p.o)
        o.cells['ctx'] = (0, ctxid); o.cells['n'] = (4, n)
        t, do, dl = eng.fresh(32, 'type'), eng.fresh(32, 'dataOffset'), eng.fresh(32, 'dataLength')
        o.cells['t'], o.cells['do'], o.cells['dl'] = (4, t), (4, do), (4, dl)
        N = eng.bv(n, 32)
        st.pc.append(z3.Implies(z3.And(t >= 0, t <= 255, (t & self.l['dstack']) == 0), z3.And(do >= 0, dl >= 0, do <= N, dl <= N - do)))
        st.pc.append(z3.And(t >= -1, t <= 255))
        return p
    def load(self, eng, st, o, off, n, t):
        l = self.l
        for k, c in (('type', 't'), ('dataOffset', 'do'), ('dataLength', 'dl')):
            if off == l['node.' + k]: return o.cells[c][1]
        for k in ('child', 'next'):
            if off == l['node.' + k]:
                if k in o.cells: return o.cells[k][1]
                p = self.new(eng, st, o.cells['ctx'][1], o.cells['n'][1])
                st.w(o.id).cells[k] = (8, p)
                return p
        return eng.fresh(8 * n, 'node')
    def store(self, eng, st, o, off, n, v): raise Viol('nodes are written by the parser only', '')
    memset = memcpy = store

def need(eng, st, p, kind, what, null=False):
    if isinstance(p, int) and p == 0:
        if null: return None
        raise Viol('no null pointer is dereferenced', what)
    o = eng.obj(st, p, what)
    if kind and o.kind != kind and not (kind == 'opaque'): raise Viol('arguments are what the callee expects', f'{what}: {o.kind} for {kind}')
    if kind == 'opaque' and not o.kind.startswith('h:'): raise Viol('arguments are what the callee expects', what)
    return o
def bnvalid(eng, st, o, what):
    if eng.nowf: return
    ln, mx = o.cells['len'][1], o.cells['max'][1]
    eng.ob(st, 'numbers handed on are well formed', True if not issym(ln) and not issym(mx) and 1 <= ln <= mx else z3.And(eng.bv(ln, 32) >= 1, eng.bv(ln, 32) <= eng.bv(mx, 32)), f'{what} {o.id}')

def op(name, args, mods=(), ret='err', alloc=False, nullable=()):
    """a function that owns nothing new: args is a string of b (number), r (generator), m (modulus object), . (anything)"""
    def con(eng, st, a, site):
        K = eng.lay['kinds']['bn']
        for i, k in enumerate(args):
            if k == 'b':
                o = need(eng, st, a[i], 'bn', f'{name} argument {i}', i in nullable)
                if o is not None and i not in mods: bnvalid(eng, st, o, name)
            elif k == 'r': need(eng, st, a[i], 'h:rnd', f'{name} argument {i}', i in nullable)
            elif k == 'm': need(eng, st, a[i], 'h:mont', f'{name} argument {i}', i in nullable)
            elif k == 'k': need(eng, st, a[i], None, f'{name} argument {i}')
        outs = []
        if alloc and not (alloc == 'rnd' and isinstance(a[args.index('r')], Ptr)):
            f = st.copy(); f.failed = True
            for i in mods:
                if isinstance(a[i], Ptr): K.setlen(eng, f, a[i].o)
            outs.append((eng.lay['oom'] & 0xffffffff if ret == 'err' else 0, f))
        for i in mods:
            if isinstance(a[i], Ptr): K.setlen(eng, st, a[i].o)
        if ret == 'err' and isinstance(K, LBN): outs.append((eng.fresh(32, 'err'), st))
        elif ret == 'err':
            e = st.copy(); v = eng.fresh(32, 'err'); e.pc.append(v != 0)
            outs += [(v, e), (0, st)]
        elif ret == 'void': outs.append((None, st))
        else: outs.append((eng.fresh({'int': 32, 'u64': 64, 'u32': 32}[ret], name), st))
        return outs
    return con
def create(kind, outidx, errs=True, sz=None):
    def con(eng, st, a, site):
        f = st.copy(); f.failed = True
        outs = [(eng.lay['oom'] & 0xffffffff, f)]
        if errs:
            e = st.copy(); v = eng.fresh(32, 'err'); e.pc.append(v != 0); outs.append((v, e))
        p = eng.new(st, site, 'h:' + kind, eng.lay.get(kind, 1), 'fresh', True)
        eng.store(st, a[outidx], p, 8)
        return outs + [(0, st)]
    return con
def destroy(kind, name=None):
    def con(eng, st, a, site):
        if isinstance(a[0], int) and a[0] == 0: return [(None, st)]
        if name and isinstance(a[0], Ptr) and a[0].o in st.objs and st.objs[a[0].o].kind == 'mem': return eng.run(st, name, a)
        need(eng, st, a[0], 'h:' + kind, site); eng.free(st, a[0], site)
        for i, o in list(st.objs.items()):
            if o.kind == 'node' and o.cells['ctx'][1] == a[0].o: eng.drop(st, i)
        return [(None, st)]
    return con
def c_bnneww(eng, st, a, site):
    f = st.copy(); f.failed = True
    n = a[0]
    if isinstance(n, int):
        s = n - (1 << 32) if n >> 31 else n
        mx = eng.fresh(32, 'max')
        st.pc += [mx >= 2, mx <= (1 << 25)] + ([mx == max(s, 2)] if s > 0 else [])
        if s > 0: mx = max(s, 2)
    else:
        mx = eng.fresh(32, 'max'); st.pc += [mx >= 2, mx >= n]
        st.pc.append(z3.Implies(n >= 2, mx == n))
    p = eng.lay['kinds']['bn'].new(eng, st, site, mx, 1)
    return [(p, st), (0, f)]
def c_bnnew(eng, st, a, site):
    n = eng.bv(a[0], 32)
    w = eng.simp((n + z3.BitVecVal(63, 32)) / z3.BitVecVal(64, 32)) if eng.lay['word'] == 8 else eng.simp((n + z3.BitVecVal(31, 32)) / z3.BitVecVal(32, 32))
    return c_bnneww(eng, st, [w], site)
def c_bnclone(eng, st, a, site):
    o = need(eng, st, a[0], 'bn', 'BnClone'); bnvalid(eng, st, o, 'BnClone')
    f = st.copy(); f.failed = True
    p = eng.lay['kinds']['bn'].new(eng, st, site, o.cells['max'][1], o.cells['len'][1])
    if 'sign' in o.cells: st.w(p.o).cells['sign'] = o.cells['sign']
    return [(p, st), (0, f)]
def c_bnfree(null):
    def con(eng, st, a, site):
        if isinstance(a[0], int) and a[0] == 0: return [(None, st)]
        need(eng, st, a[0], 'bn', site); eng.free(st, a[0], site); return [(None, st)]
    return con
def c_tobytes(eng, st, a, site):
    o = need(eng, st, a[0], 'bn', site); bnvalid(eng, st, o, site)
    outs = []
    sg = o.cells.get('sign')
    if not (sg and sg[1] == 0):
        f = st.copy(); f.failed = True; outs.append((0, f))
    if isinstance(a[1], Ptr):
        b = eng.obj(st, a[1], site)
        eng.bounds(st, b, a[1].off, eng.simp(z3.SignExt(32, eng.bv(a[2], 32))) if issym(a[2]) else a[2], 'BnToByteArray writes', True)
    v = eng.fresh(32, 'bytes')
    ln = eng.bv(o.cells['len'][1], 32); W = eng.lay['word']
    mx = ln * W + 1
    fits = mx <= eng.bv(a[2], 32)
    st.pc += [v >= 0, v <= mx] + ([v <= eng.bv(a[2], 32)] if isinstance(a[1], Ptr) else [v >= 1])
    if 'bits' in o.cells:
        bits = eng.bv(o.cells['bits'][1], 32)
        st.pc.append(v <= bits / 8 + 1)
        st.pc.append(z3.Implies(bits / 8 + 1 <= eng.bv(a[2], 32), v >= 1))
    if isinstance(a[1], Ptr): eng.havoc_bytes(st, a[1].o)
    return outs + [(v, st)]
def c_buf(name, idx, lenidx, args, write=False, ret='err', mods=(), nullable=(), alloc=False):
    o0 = op(name, args, mods, ret, nullable=nullable, alloc=alloc)
    def con(eng, st, a, site):
        n = a[lenidx]
        n64 = n if isinstance(n, int) else eng.simp(z3.SignExt(32, n))
        if isinstance(a[idx], Ptr):
            b = eng.obj(st, a[idx], name)
            if isinstance(n, int):
                if not n >> 31: eng.bounds(st, b, a[idx].off, n64, name, write)
            else:
                s = st.copy(); s.pc.append(n > 0)
                if eng.sat(s) != z3.unsat: eng.bounds(s, b, a[idx].off, n64, name, write)
            if write: eng.havoc_bytes(st, a[idx].o)
        elif not (isinstance(n, int) and n == 0):
            if not (isinstance(a[idx], int) and eng.entails(st, eng.bv(n, 32) <= 0)): raise Viol('no null pointer is dereferenced', name)
        return o0(eng, st, a, site)
    return con
def c_getroot(eng, st, a, site):
    o = need(eng, st, a[0], 'h:asn1', site)
    p = eng.lay['kinds']['node'].new(eng, st, a[0].o, st.ghost['asn1n', a[0].o])
    eng.store(st, a[1], p, 8)
    return [(0, st)]
def c_asn1create(eng, st, a, site):
    n = a[1]
    if isinstance(a[0], Ptr): 
        b = eng.obj(st, a[0], 'parse')
        s = st.copy(); s.pc.append(eng.bv(n, 32) > 0)
        if eng.sat(s) != z3.unsat: eng.bounds(s, b, a[0].off, eng.simp(z3.SignExt(32, eng.bv(n, 32))), 'the parser reads')
    r = create('asn1', 2)(eng, st, a, site)
    for v, s in r:
        if isinstance(v, int) and v == 0:
            p = eng.load(s, a[2], 8, ('ptr',)); s.ghost['asn1n', p.o] = n
    return r
def c_progress(eng, st, a, site): return [(eng.fresh(32, 'progress'), st)]

CON = {
 'BnNewW': c_bnneww, 'BnNew': c_bnnew, 'BnClone': c_bnclone, 'BnFree': c_bnfree(0), 'BnClearFree': c_bnfree(1),
 'BnSet': op('BnSet', 'bb', (0,)), 'BnSetInt': op('BnSetInt', 'b.', (0,), 'void'), 'BnSetUInt': op('BnSetUInt', 'b.', (0,), 'void'), 'BnSetUInt64': op('BnSetUInt64', 'b.', (0,), 'void'), 'BnSetInt64': op('BnSetInt64', 'b.', (0,), 'void'),
 'BnAdd': op('BnAdd', 'bbb', (0,)), 'BnSub': op('BnSub', 'bbb', (0,)), 'BnMul': op('BnMul', 'bbb', (0,)), 'BnSqr': op('BnSqr', 'bb', (0,)),
 'BnAddInt': op('BnAddInt', 'b.', (0,)), 'BnSubInt': op('BnSubInt', 'b.', (0,)), 'BnAddUInt': op('BnAddUInt', 'b.', (0,)), 'BnSubUInt': op('BnSubUInt', 'b.', (0,)), 'BnMulUInt': op('BnMulUInt', 'b.', (0,)),
 'BnShiftL': op('BnShiftL', 'b.', (0,)), 'BnShiftR': op('BnShiftR', 'b.', (0,), 'void'),
 'BnCmp': op('BnCmp', 'bb', (), 'int'), 'BnCmpInt': op('BnCmpInt', 'b.', (), 'int'), 'BnCmpUInt': op('BnCmpUInt', 'b.', (), 'int'), '_BnCmp': op('_BnCmp', 'bb', (), 'int'),
 '_BnSubR': op('_BnSubR', 'bb', (0,), 'void'), 'BnModUInt': op('BnModUInt', 'b..', (), 'err'),
 '_BnGetUInt': op('_BnGetUInt', 'b', (), 'u64'), '_BnGetUInt64': op('_BnGetUInt64', 'b', (), 'u64'), '_BnGetMSBPos': op('_BnGetMSBPos', '.', (), 'int'), '_BnDiv128': None,
 'BnMod': op('BnMod', 'bbb', (0,), alloc=True), 'BnDiv': op('BnDiv', 'bbbb', (0, 1), alloc=True),
 'BnToByteArray': c_tobytes,
 'BnSetByteArray': c_buf('BnSetByteArray', 1, 2, 'b..', mods=(0,)), 'BnSetUByteArray': c_buf('BnSetUByteArray', 1, 2, 'b..', mods=(0,)),
 'GetGCD': op('GetGCD', 'bbb', (0,), alloc=True), 'GetGCDEx': op('GetGCDEx', 'bbbbb.', (0, 1, 2), alloc=True, nullable=(0, 1, 2)),
 'RaMontCreate': create('mont', 1), 'RaMontDestroy': destroy('mont', 'RaMontDestroy'), 'RaMontExpMod': op('RaMontExpMod', 'mbbb', (1,), alloc=True),
 'RaRandomCreate': create('rnd', 3), 'RaRandomDestroy': destroy('rnd', 'RaRandomDestroy'), 'RaRandomBytes': c_buf('RaRandomBytes', 2, 1, 'r..', True, 'void'),
 'BnGenRandom': op('BnGenRandom', 'b.r', (0,), alloc='rnd', nullable=(2,)), 'BnGetRandomRSA': op('BnGetRandomRSA', 'b.r', (0,), alloc='rnd', nullable=(2,)), 'BnGetRandomOdd': op('BnGetRandomOdd', 'b.r', (0,), alloc='rnd', nullable=(2,)),
 'BnGenRandomByteArray': c_buf('BnGenRandomByteArray', 0, 1, '..r', True, nullable=(2,), alloc='rnd'),
 'RaGenPrimeNumberEx': op('RaGenPrimeNumberEx', 'b...r', (0,), alloc=True, nullable=(4,)), 'RaIsPrimeNumber': op('RaIsPrimeNumber', 'b', (), alloc=True),
 'RaAsn1CreateContext': c_asn1create, 'RaAsn1DestroyContext': destroy('asn1'), 'RaAsn1GetRoot': c_getroot,
}
def c_bitlen(eng, st, a, site):
    o = need(eng, st, a[0], 'bn', 'BnGetBitLength'); bnvalid(eng, st, o, site)
    if 'bits' in o.cells: return [(o.cells['bits'][1], st)]
    v = eng.fresh(32, 'bits'); W = 8 * eng.lay['word']; ln = eng.bv(o.cells['len'][1], 32)
    st.pc += [v >= 1, z3.SignExt(32, v) <= z3.SignExt(32, ln) * W, z3.SignExt(32, v) > (z3.SignExt(32, ln) - 1) * W]
    return [(v, st)]
CON['BnGetBitLength'] = c_bitlen
def c_getlength(eng, st, a, site):
    return [(need(eng, st, a[0], 'bn', site).cells['len'][1], st)]
CON['BnGetLength'] = c_getlength
def c_div128(eng, st, a, site):
    if isinstance(a[-1], Ptr): eng.store(st, a[-1], eng.fresh(64), 8)
    return [(eng.fresh(64, 'q'), st)]
CON['_BnDiv128'] = c_div128
def c_clear(eng, st, a, site):
    return eng.memset(st, a[0], 0, a[1])
for k, v in DIG.items():
    CON[f'Ra{v}Create'] = create(k, 1 if k == 'sha2' else 0, k == 'sha2'); CON[f'Ra{v}Destroy'] = destroy(k, f'Ra{v}Destroy')
CON['RaClearMemory'] = c_clear

class LBN(BN):
    """a number as a bare owned object: every read of it gives an arbitrary value (used where only ownership matters)"""
    def new(self, eng, st, site, mx=None, ln=None, heap=True): return eng.new(st, site, 'bn', 1 << 40, 'undef', heap)
    def setlen(self, eng, st, oid, ln=None): pass
    def assume(self, eng, st): pass
    def load(self, eng, st, o, off, n, t):
        l = self.l
        if isinstance(off, int):
            if off == l['bn.length']:
                v = eng.fresh(32, 'len'); st.pc += [v >= 1, v <= 1 << 25]; return v
            if off == l['bn.data']: return Ptr(o.id, l['bn'])
        return eng.fresh(8 * n, 'word')
    def store(self, eng, st, o, off, n, v):
        if isinstance(off, int) and off < self.l['bn'] and off not in (self.l['bn.length'], self.l['bn.sign']): raise Viol('capacity and storage of a number are set at its creation only', f'{o.id}+{off}')
        return True
def l_new(eng, st, a, site):
    f = st.copy(); f.failed = True
    return [(eng.lay['kinds']['bn'].new(eng, st, site), st), (0, f)]
def l_clone(eng, st, a, site):
    need(eng, st, a[0], 'bn', 'BnClone'); return l_new(eng, st, a, site)
def l_int(name, lo=None):
    def con(eng, st, a, site):
        need(eng, st, a[0], 'bn', name); v = eng.fresh(32, name)
        if lo is not None: st.pc += [v >= lo, v <= 1 << 30]
        return [(v, st)]
    return con
def l_tobytes(eng, st, a, site):
    # the fields of a key are not negative, so nothing is allocated for a complement
    need(eng, st, a[0], 'bn', 'BnToByteArray')
    if isinstance(a[1], Ptr): eng.havoc_bytes(st, a[1].o)
    v = eng.fresh(32, 'bytes'); st.pc.append(v >= 0)
    return [(v, st)]
def l_enclen(eng, st, a, site):
    if isinstance(a[1], Ptr): eng.obj(st, a[1], site); eng.havoc_bytes(st, a[1].o)
    v = eng.fresh(32, 'lenlen'); st.pc += [v >= 0, v <= 5]; return [(v, st)]
l_enclen.local = 3
def l_local(args, out=None):
    """contract of a file-local function, used only while it exists with these parameters"""
    c = op('local', args, alloc=True, nullable=(args.index('r'),))
    def con(eng, st, a, site):
        if len(a) != len(args): raise Unsupported('parameters of a file-local function changed')
        if out is not None: need(eng, st, a[out], None, site); eng.havoc_bytes(st, a[out].o)
        return c(eng, st, a, site)
    con.local = len(args)
    return con
def l_newint(eng, st, a, site):
    need(eng, st, a[1], 'node', site); need(eng, st, a[2], None, site)
    f = st.copy(); f.failed = True; e = st.copy(); v = eng.fresh(32, 'err'); e.pc.append(v != 0)
    eng.store(st, a[2], eng.lay['kinds']['bn'].new(eng, st, site), 8)
    return [(eng.lay['oom'] & 0xffffffff, f), (v, e), (0, st)]
l_newint.local = 3
LITE = {'ASN1EncodeLength': l_enclen, 'RaRsaNewASN1Integer': l_newint, 'RaRsaCreateKeyPub': create('key', 2), 'RaRsaCreateKeyPriv': create('key', 2), 'CheckMillerRabin': l_local('b.r.', 3), 'GenProbablePrimeNumber': l_local('b.r'), 'BnNewW': l_new, 'BnNew': l_new, 'BnClone': l_clone, 'BnGetLength': l_int('BnGetLength', 1), 'BnGetBitLength': l_int('BnGetBitLength', 1), 'BnToByteArray': l_tobytes}
