"""C07-C09: modes of operation, chunking and padding of the block-cipher layer.

Contracts (block_cipher.c, for every mode, direction, block size 8 and 16, fill level f and length):
  BC(len): the context holds a chaining value v and f pending bytes; with total = f + len:
     output = the chaining steps over the floor(total/bs) complete blocks of (pending ++ input),
     v' = the chaining value after them, pending' = the rest, return = bs*floor(total/bs); nothing else changes,
     nothing outside output[0..return) is written.
  The block function is an arbitrary function (uninterpreted ENC/DEC)."""
import ctypes, random, time
from irv import terms as tm, front, native, fold, smt
from irv.terms import Unsupported
from irv.sym import Engine, State, Ptr, B, L, Fail, Fn
from irv.w import SW, IW, svar
from specs import modes as md
from .blockcipher import byte_obj, out_bytes, merge, CIPHERS
from .digest import setsym, dbyte

MODS = ['block_cipher']
LMAX = (1 << 31) - 1
PADS = ['NONE', 'ZERO', 'PKCS7']

def layout():
    t = 'struct RaBlockCipher'
    q = {'size': f'sizeof({t})'}
    for f in ('opMode', 'blockSize', 'iv', 'buffer', 'bufferFilled', 'encryptBlock', 'decryptBlock'): q[f] = f'offsetof({t}, {f})'
    for m in md.MODES: q['M_' + m] = 'RA_BLOCK_MODE_' + m
    for p in PADS: q['P_' + p] = 'RA_BLOCK_PADDING_' + p
    return front.layout(q)

def ufblk(name, ws):
    bits = tuple(f for w in ws for f in w.b)
    r = tm.uf(name, bits, len(bits))
    return [SW(r[8 * i:8 * i + 8]) for i in range(len(ws))]

def mk_engine(mods, bs):
    eng = Engine(list(mods.values())); eng.fold_hook = fold.fold_hook
    def mkh(name):
        def h(eng, st, args):
            cx, i, o = args
            if not all(isinstance(p, Ptr) and p.tab is None for p in args): raise Fail('contract-precondition', 'block function called with a null or foreign pointer')
            if cx.o.name != 'bc' or cx.off != 0: raise Fail('contract-precondition', 'block function called with another context')
            eng.check_range(st, i.o, i.off, bs, False); eng.check_range(st, o.o, o.off, bs, True)
            ws = [SW(tuple(eng.byte_bits(eng.read_byte(st, i.o, eng.add_off(st, i.off, k))))) for k in range(bs)]
            for k, w in enumerate(ufblk(name, ws)): eng.write_byte(st, o.o, eng.add_off(st, o.off, k), w.b)
            return [(None, st)]
        return h
    eng.contracts['ENC'] = mkh('ENC'); eng.contracts['DEC'] = mkh('DEC')
    return eng

def put(st, o, off, v, n):
    for i in range(n): st.wcells(o.id)[off + i] = (v >> (8 * i)) & 255

def ptrcell(st, o, off, oid, at=0):
    pass

def rep(eng, lay, mode, bs, f):
    """a context in mode `mode` with f pending bytes, arbitrary chaining value"""
    st = State()
    bc = eng.new_obj(st, 'bc', lay['size'], True, None, 'arg')
    iv = byte_obj(eng, st, 'iv', svar('iv', bs), True)
    bf = byte_obj(eng, st, 'buf', svar('pend', bs), True)
    put(st, bc, lay['opMode'], lay['M_' + mode], 4); put(st, bc, lay['blockSize'], bs, 4); put(st, bc, lay['bufferFilled'], f, 4)
    for n, o in (('iv', iv), ('buffer', bf)): eng.store(st, Ptr(bc, lay[n]), Ptr(o, 0), 8, 64) if False else setptr(st, bc, lay[n], Ptr(o, 0))
    for n, o in (('encryptBlock', 'ENC'), ('decryptBlock', 'DEC')): setptr(st, bc, lay[n], Fn(o))
    return st, bc, iv, bf

def setptr(st, o, off, p):
    for i in range(8): st.wcells(o.id)[off + i] = ('p', p, i)

def rdint(eng, st, o, off): return eng.load(st, Ptr(o, off), 4, 32)

def frame_ok(eng, s, s0, bc, lay):
    """every context byte but bufferFilled is as before"""
    a, b = s0.mem[bc.id], s.mem[bc.id]
    bad = []
    for i in range(lay['size']):
        if lay['bufferFilled'] <= i < lay['bufferFilled'] + 4: continue
        x, y = a.get(i), b.get(i)
        if x is None and y is None: continue
        if isinstance(x, tuple) and len(x) == 3 and x[0] == 'p':
            if not (isinstance(y, tuple) and len(y) == 3 and y[0] == 'p' and y[2] == x[2] and (y[1] is x[1] or y[1] == x[1] or (isinstance(y[1], Ptr) and isinstance(x[1], Ptr) and y[1].o is x[1].o and y[1].off == x[1].off))): bad.append(i)
        elif x is not None and eng.byte_bits(x) != eng.byte_bits(y): bad.append(i)
    return not bad

def leq(eng, st, a, b, w=32):
    """equality of two linear/int values"""
    a, b = eng.fixL(st, a), eng.fixL(st, b)
    if isinstance(a, int) and isinstance(b, int): return (a - b) % (1 << w) == 0
    if isinstance(a, B) or isinstance(b, B): return smt.equal(eng.bits(a, w), eng.bits(b, w), st.pc)[0] is True
    if isinstance(a, int): a = L(w, {}, a)
    if isinstance(b, int): b = L(w, {}, b)
    d = dict(a.d)
    for k, v in b.d.items(): d[k] = d.get(k, 0) - v
    d = {k: v for k, v in d.items() if v}
    c = a.c - b.c
    if not d: return c % (1 << w) == 0
    return eng.lin_entails(st, d, c) and eng.lin_entails(st, {k: -v for k, v in d.items()}, -c)

class SpecLoop:
    """chaining over q >= 1 blocks read from `do` at `pre`"""
    def __init__(self, eng, st, mode, enc, bs, iv0, do, pre, E, D):
        self.eng, self.mode, self.enc, self.bs, self.do, self.pre, self.E, self.D = eng, mode, enc, bs, do, pre, E, D
        used = set()
        self.ph = []
        for j, w in enumerate(iv0): self.ph += fold.ph_bits(w.b, f'iv+{j}', used)
        self.init = [f for w in iv0 for f in w.b]
        hp = [SW(tuple(self.ph[8 * i:8 * i + 8])) for i in range(bs)]
        blk = [SW(tuple(eng.byte_bits(do.default(st, do, L(64, {'k0': bs}, pre + i))))) for i in range(bs)]
        _, nx = md.step(mode, enc, hp, blk, E, D)
        self.nf = [f for w in nx for f in w.b]
        self.names = {p: self.nf[i] for i, p in enumerate(self.ph)}
        self.inits = {p: self.init[i] for i, p in enumerate(self.ph)}
    def block(self, st, d, c):
        return [SW(tuple(self.eng.byte_bits(self.eng.read_byte(st, self.do, L(64, {k: v * self.bs for k, v in d.items()}, c * self.bs + self.pre + i) if d else c * self.bs + self.pre + i)))) for i in range(self.bs)]
    def iv_at(self, st, d, c, final=False):
        """chaining value after n = d + c blocks"""
        if not d and c == 0: return [SW(tuple(self.init[8 * i:8 * i + 8])) for i in range(self.bs)]
        if self.mode == 'ECB': return self.iv_at(st, {}, 0)
        if final and not any(fold.dep(f, self.names) for f in self.nf):
            _, nx = md.step(self.mode, self.enc, [SW(tuple(self.ph[8 * i:8 * i + 8])) for i in range(self.bs)], self.block(st, d, c - 1), self.E, self.D)
            return nx
        n = (d, c) if d else c
        v = [fold.fold_value(self.names, self.inits, p, n) for p in self.ph]
        return [SW(tuple(v[8 * i:8 * i + 8])) for i in range(self.bs)]
    def out_at(self, st, d, c):
        return md.step(self.mode, self.enc, self.iv_at(st, d, c), self.block(st, d, c), self.E, self.D)[0]

def eqw(a, b): return [i for i, (x, y) in enumerate(zip(a, b)) if tuple(x.b) != tuple(y.b)]

class Rec:
    """obligations per property"""
    def __init__(self, ctx): self.ctx = ctx
    def ob(self, pids, name, ok, msg='', n=1, **kw):
        if self.ctx.pid in pids: self.ctx.ob(name, ok, msg, n=n, **kw)

ALL = ('C07', 'C08')
def prove_update(ctx, mods, lay, mode, enc, bs, fills):
    R = Rec(ctx)
    fname = 'RaBlockCipher' + ('Encrypt' if enc else 'Decrypt')
    E = lambda p: ufblk('ENC', p)
    D = lambda p: ufblk('DEC', p)
    for f in fills:
        for case in ('short', 'blocks'):
            tm.reset(); fold.reset()
            eng = mk_engine(mods, bs)
            st, bc, iv, bf = rep(eng, lay, mode, bs, f)
            iv0, pend = svar('iv', bs), svar('pend', bs)
            pre = 0 if case == 'short' else (bs - f) % bs
            first = 1 if case == 'blocks' and f else 0
            if case == 'short':
                setsym(eng, st, 'r', 0, bs - f - 1, 8); ln = L(32, {'r': 1}, 0); osize = 0
            else:
                setsym(eng, st, 'r', 0, bs - 1, 8); setsym(eng, st, 'q', 0 if f else 1, (LMAX - pre) // bs, 32)
                ln = L(32, {'q': bs, 'r': 1}, pre)
                if not eng.add_lin(st, (('q', bs), ('r', 1)), pre + f - LMAX, 'le'): continue
                osize = L(64, {'q': bs}, bs * first)
            do = eng.new_obj(st, 'data', L(64, ln.d, ln.c), False, lambda s, o, off: tm.var(f'data@{off if isinstance(off, int) else (tuple(sorted(off.d.items())), off.c)}', 8), 'arg')
            oo = eng.new_obj(st, 'out', osize, True, None, 'arg')
            s0 = st.copy()
            res = eng.call(st, fname, [Ptr(bc, 0), Ptr(do, 0), ln, Ptr(oo, 0)])
            nm = f'{fname} {mode} block size {bs}, {f} pending bytes, {case}'
            if not res: raise Fail('vacuous', nm)
            for ret, s in res:
                qlo, qhi = s.rng.get('q', (0, 0))
                if qlo == 0 and qhi > 0: raise Unsupported('a path does not decide whether a whole block follows')
                ivx = iv0
                outs = []
                if first:
                    blk = pend[:f] + [dbyte(eng, s, do, i) for i in range(pre)]
                    o1, ivx = md.step(mode, enc, iv0, blk, E, D)
                    got = [SW(tuple(x)) for x in out_bytes(eng, s, oo, bs)]
                    R.ob(('C07', 'C08'), nm + ': first output block', not eqw(got, o1), f'bytes {eqw(got, o1)} differ', n=bs)
                if qlo >= 1:
                    sl = SpecLoop(eng, s, mode, enc, bs, ivx, do, pre, E, D)
                    s2 = s.copy()
                    setsym(eng, s2, 'm', 0, max(qhi - 1, 0), 32)
                    if not eng.add_lin(s2, (('m', 1), ('q', -1)), 1, 'le'): raise Unsupported('generic block')
                    want = sl.out_at(s2, {'m': 1}, 0)
                    got = [SW(tuple(eng.byte_bits(eng.read_byte(s2, oo, L(64, {'m': bs}, bs * first + i))))) for i in range(bs)]
                    R.ob(('C07', 'C08'), nm + ': output block m of q', not eqw(got, want), f'bytes {eqw(got, want)} differ from the mode definition', n=bs)
                    ivx = sl.iv_at(s, {'q': 1}, 0, True)
                got = [SW(tuple(x)) for x in out_bytes(eng, s, iv, bs)]
                R.ob(('C07', 'C08'), nm + ': chaining value', not eqw(got, ivx), f'bytes {eqw(got, ivx)} differ', n=bs)
                # pending
                want = L(32, {'r': 1}, f if case == 'short' else 0)
                R.ob(('C08', 'C09'), nm + ': pending count', leq(eng, s, rdint(eng, s, bc, lay['bufferFilled']), want), 'bufferFilled is not the number of pending bytes')
                rl, rh = s.rng['r']
                ok = True
                if rh > 0:
                    s2 = s.copy(); setsym(eng, s2, 'j', 0, bs - 1, 8)
                    if eng.add_lin(s2, (('j', 1), ('r', -1)), 1, 'le'):
                        at = L(64, {'j': 1}, f if case == 'short' else 0)
                        src = L(64, {'j': 1}, 0) if case == 'short' else L(64, {'j': 1, 'q': bs}, pre)
                        ok = eng.byte_bits(eng.read_byte(s2, bf, at)) == eng.byte_bits(eng.read_byte(s2, do, src))
                if case == 'short': ok = ok and all(eng.byte_bits(eng.read_byte(s, bf, i)) == pend[i].b for i in range(f))
                R.ob(('C07', 'C08'), nm + ': pending bytes', ok, 'the buffer does not hold the bytes after the last complete block', n=bs)
                R.ob(('C08',), nm + ': reported count', leq(eng, s, ret, 0 if case == 'short' else L(32, {'q': bs}, bs * first)), f'returned {ret}')
                R.ob(('C07', 'C08'), nm + ': rest of the context unchanged', frame_ok(eng, s, s0, bc, lay), '')
            ctx.absorb(eng)

def prove_small(ctx, mods, lay, mode, bs):
    """Init, SetIV, GetIV, length <= 0"""
    R = Rec(ctx)
    tm.reset(); fold.reset()
    eng = mk_engine(mods, bs)
    st = State()
    bc = eng.new_obj(st, 'bc', lay['size'], True, None, 'arg')
    iv = eng.new_obj(st, 'iv', bs, True, None, 'arg'); bf = eng.new_obj(st, 'buf', bs, True, None, 'arg')
    r = eng.call(st, 'RaBlockCipherInit', [Ptr(bc, 0), Fn('ENC'), Fn('DEC'), lay['M_' + mode], bs, Ptr(iv, 0), Ptr(bf, 0)])
    for _, s in r:
        st2, bc2, iv2, bf2 = rep(eng, lay, mode, bs, 0)
        m = s.mem[bc.id]; bad = []
        for n in ('iv', 'buffer', 'encryptBlock', 'decryptBlock'):
            x = m.get(lay[n]); want = {'iv': iv, 'buffer': bf}.get(n)
            p = x[1] if isinstance(x, tuple) and len(x) == 3 and x[0] == 'p' else None
            if want is not None: ok = isinstance(p, Ptr) and p.o is want and p.off == 0
            else: ok = p == Fn({'encryptBlock': 'ENC', 'decryptBlock': 'DEC'}[n])
            if not ok: bad.append(n)
        for n, v in (('opMode', lay['M_' + mode]), ('blockSize', bs), ('bufferFilled', 0)):
            if rdint(eng, s, bc, lay[n]) != v: bad.append(n)
        R.ob(('C07', 'C08', 'C09'), f'RaBlockCipherInit {mode} {bs}: context represents an empty message', not bad, f'{bad}', n=7)
        z = [x for x in out_bytes(eng, s, iv, bs)]
        R.ob(('C07',), f'RaBlockCipherInit {mode} {bs}: zero chaining value', all(tm.as_const(x) == 0 for x in z))
    for f in range(bs):
        st, bc, iv, bf = rep(eng, lay, mode, bs, f)
        nv = byte_obj(eng, st, 'new', svar('new', bs))
        for _, s in eng.call(st.copy(), 'RaBlockCipherSetIV', [Ptr(bc, 0), Ptr(nv, 0)]):
            got = [SW(tuple(x)) for x in out_bytes(eng, s, iv, bs)]
            R.ob(('C07',), f'RaBlockCipherSetIV {mode} {bs} {f} pending: chaining value set, pending data dropped', not eqw(got, svar('new', bs)) and rdint(eng, s, bc, lay['bufferFilled']) == 0 and frame_ok(eng, s, st, bc, lay), n=bs + 1)
        o = eng.new_obj(st, 'o', bs, True, None, 'arg')
        for _, s in eng.call(st.copy(), 'RaBlockCipherGetIV', [Ptr(bc, 0), Ptr(o, 0)]):
            got = [SW(tuple(x)) for x in out_bytes(eng, s, o, bs)]
            R.ob(('C07',), f'RaBlockCipherGetIV {mode} {bs}', not eqw(got, svar('iv', bs)) and rdint(eng, s, bc, lay['bufferFilled']) == f, n=bs)
        # nothing to do
        for fn in ('Encrypt', 'Decrypt'):
            setsym(eng, st, 'neg', -(1 << 31), 0, 32)
            nul = eng.new_obj(st, 'none', 0, True, None, 'arg')
            for ret, s in eng.call(st.copy(), 'RaBlockCipher' + fn, [Ptr(bc, 0), Ptr(nul, 0), L(32, {'neg': 1}, 0), Ptr(nul, 0)]):
                same = not eqw([SW(tuple(x)) for x in out_bytes(eng, s, iv, bs)], svar('iv', bs)) and not eqw([SW(tuple(x)) for x in out_bytes(eng, s, bf, bs)], svar('pend', bs))
                R.ob(('C08',), f'RaBlockCipher{fn} {mode} {bs} {f} pending, length <= 0: nothing happens', ret == 0 and same and rdint(eng, s, bc, lay['bufferFilled']) == f and frame_ok(eng, s, st, bc, lay))
    ctx.absorb(eng)

# ---------------------------------------------------------------- Final (callee Encrypt/Decrypt replaced by its contract)
def install_update(eng, lay, bs, fn, facts):
    """contract of RaBlockCipherEncrypt/Decrypt as proved by prove_update, for callers; facts collects (W, n) per use"""
    def h(eng, st, args):
        bc, inp, ln, out = args
        if not (isinstance(bc, Ptr) and bc.o.name == 'bc' and bc.off == 0): raise Fail('contract-precondition', 'another context')
        facts.setdefault('calls', []).append((inp, ln, out))
        res = []
        # outcome: W = bs * n bytes written, f2 pending
        for f2 in (['?'] if 'last' in facts else range(bs)):
            for blocks in (0, 1):
                s = st.copy()
                ivo = s.mem[bc.o.id][lay['iv']][1].o; bfo = s.mem[bc.o.id][lay['buffer']][1].o
                W = 0
                if blocks:
                    setsym(eng, s, 'n', 1, (LMAX // bs) - 1, 32)
                    W = L(32, {'n': bs}, 0)
                for i in range(bs):
                    s.wcells(ivo.id)[i] = tm.var(f'iv1_{i}', 8) if blocks else eng.read_byte(s, ivo, i)
                    s.wcells(bfo.id)[i] = tm.var(f'pend1_{i}', 8)
                if f2 == '?':
                    setsym(eng, s, 'f2', 0, bs - 1, 8)
                    for i, x in enumerate(eng.split(L(32, {'f2': 1}, 0), 4, 32)): s.wcells(bc.o.id)[lay['bufferFilled'] + i] = x
                else: put(s, bc.o, lay['bufferFilled'], f2, 4)
                s.log = s.log + (('upd', W, f2),)
                if facts.get('last') is not None and blocks:
                    for k in facts['last']:
                        s2 = s.copy(); s2.log = s2.log + (('last', k),)
                        eng.write_byte(s2, out.o, eng.add_off(s2, out.off, L(64, {'n': bs}, -1)), k)
                        res.append((W, s2))
                else: res.append((W, s))
        return res
    eng.contracts[fn] = h

def outobj(eng, st, size):
    return eng.new_obj(st, 'out', size, True, lambda s, o, off: tm.var(f'out@{off if isinstance(off, int) else (tuple(sorted(off.d.items())), off.c)}', 8), 'arg')

def prove_encfinal(ctx, mods, lay, mode, bs):
    R = Rec(ctx)
    E = lambda p: ufblk('ENC', p)
    D = lambda p: ufblk('DEC', p)
    for pad in PADS:
        tm.reset(); fold.reset()
        eng = mk_engine(mods, bs)
        facts = {}
        install_update(eng, lay, bs, 'RaBlockCipherEncrypt', facts)
        st, bc, iv, bf = rep(eng, lay, mode, bs, 0)
        setsym(eng, st, 'f0', 0, bs - 1, 8)
        for i, x in enumerate(eng.split(L(32, {'f0': 1}, 0), 4, 32)): st.wcells(bc.id)[lay['bufferFilled'] + i] = x
        setsym(eng, st, 'len', 0, LMAX - 2 * bs, 32)
        din = eng.new_obj(st, 'data', L(64, {'len': 1}, 0), False, None, 'arg')
        oo = outobj(eng, st, 1 << 33)
        s0 = st.copy()
        res = eng.call(st, 'RaBlockCipherEncryptFinal', [Ptr(bc, 0), Ptr(din, 0), L(32, {'len': 1}, 0), Ptr(oo, 0), lay['P_' + pad]])
        nm = f'RaBlockCipherEncryptFinal {mode} {bs} {pad}'
        c = facts.get('calls', [])
        okc = len(c) >= 1 and all(isinstance(i, Ptr) and i.o is din and i.off == 0 and leq(eng, s0, l, L(32, {'len': 1}, 0)) and isinstance(o, Ptr) and o.o is oo and o.off == 0 for i, l, o in c)
        R.ob(('C09',), nm + ': processes the supplied data with the update contract', okc)
        for ret, s in res:
            (_, W, f2), = [x for x in s.log if x[0] == 'upd']
            sub = f'{nm}, {f2} pending after {"some" if not isinstance(W, int) else "no"} blocks'
            p1 = [SW(tm.var(f'pend1_{i}', 8)) for i in range(f2)]
            iv1 = [SW(tm.var(f'iv1_{i}', 8)) for i in range(bs)] if not isinstance(W, int) else svar('iv', bs)
            if pad == 'PKCS7': blk = p1 + [SW(tm.const_bits(bs - f2, 8))] * (bs - f2)
            elif pad == 'ZERO' and f2: blk = p1 + [SW(tm.const_bits(0, 8))] * (bs - f2)
            else: blk = None
            wantret = W
            written = {k for k in s.mem.get(oo.id, {}) if k != '#sym'}
            if blk is not None:
                o1, iv2 = md.step(mode, True, iv1, blk, E, D)
                base = (lambda i: L(64, {'n': bs}, i)) if not isinstance(W, int) else (lambda i: i)
                got = [SW(tuple(eng.byte_bits(eng.read_byte(s, oo, base(i))))) for i in range(bs)]
                R.ob(('C09',), sub + ': padded last block', not eqw(got, o1), f'bytes {eqw(got, o1)} differ', n=bs)
                wantret = L(32, {'n': bs}, bs) if not isinstance(W, int) else bs
                R.ob(('C09',), sub + ': nothing else written', len(written) == bs, f'{len(written)} bytes written')
            else: R.ob(('C09',), sub + ': nothing written', not written and not s.segs.get(oo.id), f'{len(written)} bytes written')
            R.ob(('C09',), sub + ': reported count', leq(eng, s, ret, wantret), f'{ret}')
            R.ob(('C09',), sub + ': empty buffer afterwards', rdint(eng, s, bc, lay['bufferFilled']) == 0 and frame_ok(eng, s, s0, bc, lay), 'bufferFilled is not 0')
        ctx.absorb(eng)

def prove_decfinal(ctx, mods, lay, bs, lasts, pads=PADS):
    R = Rec(ctx)
    for pad in pads:
        tm.reset(); fold.reset()
        eng = mk_engine(mods, bs)
        facts = {'last': lasts if pad == 'PKCS7' else [None]}
        if pad != 'PKCS7': facts['last'] = None
        install_update(eng, lay, bs, 'RaBlockCipherDecrypt', facts)
        st, bc, iv, bf = rep(eng, lay, 'ECB', bs, 0)
        # the mode does not matter here: leave it arbitrary
        for i in range(4): st.wcells(bc.id)[lay['opMode'] + i] = tm.var(f'mode{i}', 8)
        setsym(eng, st, 'f0', 0, bs - 1, 8)
        for i, x in enumerate(eng.split(L(32, {'f0': 1}, 0), 4, 32)): st.wcells(bc.id)[lay['bufferFilled'] + i] = x
        setsym(eng, st, 'len', 0, LMAX - 2 * bs, 32)
        din = eng.new_obj(st, 'data', L(64, {'len': 1}, 0), False, None, 'arg')
        oo = outobj(eng, st, 1 << 33)
        s0 = st.copy()
        res = eng.call(st, 'RaBlockCipherDecryptFinal', [Ptr(bc, 0), Ptr(din, 0), L(32, {'len': 1}, 0), Ptr(oo, 0), lay['P_' + pad]])
        nm = f'RaBlockCipherDecryptFinal {bs} {pad}'
        c = facts.get('calls', [])
        okc = len(c) >= 1 and all(isinstance(i, Ptr) and i.o is din and i.off == 0 and leq(eng, s0, l, L(32, {'len': 1}, 0)) and isinstance(o, Ptr) and o.o is oo and o.off == 0 for i, l, o in c)
        R.ob(('C09',), nm + ': processes the supplied data with the update contract', okc)
        for ret, s in res:
            (_, W, f2), = [x for x in s.log if x[0] == 'upd']
            last = [x[1] for x in s.log if x[0] == 'last']
            sub = f'{nm}, last byte {last[0] if last else "-"}, {f2} left over'
            if isinstance(W, int): ok = leq(eng, s, ret, 0)
            else:
                key = lambda i: (tuple(sorted({'n': bs}.items())), -i)
                if pad == 'PKCS7' and 1 <= last[0] <= bs:
                    valid = 1
                    for i in range(2, last[0] + 1):
                        x = tm.var(f'out@{key(i)}', 8)
                        valid = tm.fand(valid, tm.inv(orr([a ^ 0 if False else tm.xor(a, (last[0] >> j) & 1) for j, a in enumerate(x)])))
                    rm = tm.const_bits(0, 32)
                    a = eng.bits(L(32, {'n': bs}, -last[0]), 32); b = eng.bits(L(32, {'n': bs}, 0), 32)
                    want = tuple(tm.f_or(tm.fand(valid, x), tm.fand(tm.inv(valid), y)) for x, y in zip(a, b)) if valid != 1 else a
                    v, _ = smt.equal((valid,), (1,), s.pc)
                    nv, _ = smt.equal((valid,), (0,), s.pc)
                    if v is True: ok = leq(eng, s, ret, L(32, {'n': bs}, -last[0]))
                    elif nv is True: ok = leq(eng, s, ret, L(32, {'n': bs}, 0))
                    else: ok = smt.equal(eng.bits(ret, 32), want, s.pc)[0] is True
                else: ok = leq(eng, s, ret, L(32, {'n': bs}, 0))
            R.ob(('C09',), sub + ': exactly a well-formed padding is removed', ok, f'returned {ret}')
            touched = [k for k in s.mem.get(oo.id, {}) if k != '#sym' and not (last and k == (frozenset({('n', bs)}), -1))]
            R.ob(('C09',), sub + ': output untouched, empty buffer afterwards', not touched and not s.segs.get(oo.id) and rdint(eng, s, bc, lay['bufferFilled']) == 0 and frame_ok(eng, s, s0, bc, lay))
        ctx.absorb(eng)
    # negative lengths
def orr(l):
    r = 0
    for x in l: r = tm.f_or(r, x)
    return r

WR = [('Encrypt', False), ('EncryptFinal', True), ('Decrypt', False), ('DecryptFinal', True)]
def prove_wrappers(ctx, c, kinds):
    """the public functions of one cipher forward to the block-cipher layer on their own embedded object"""
    R = Rec(ctx)
    n = c['name']; t = f'struct Ra{n}Ctx'; bs = c['bs']
    lay = front.layout({'size': f'sizeof({t})', 'bc': f'offsetof({t}, blockCipher)', 'iv': f'offsetof({t}, iv)', 'buf': f'offsetof({t}, buffer)',
                        'ivn': f'sizeof((({t}*)0)->iv)', 'bufn': f'sizeof((({t}*)0)->buffer)', 'CBC': 'RA_BLOCK_MODE_CBC', **{k: k for k, _ in c['keys'] if k}})
    mods = front.build_ir(c['mods'])
    tm.reset(); fold.reset()
    eng = Engine(list(mods.values()))
    from irv.x86 import Asm
    eng.asm = Asm()
    rec = []
    for w, _ in WR + [('SetIV', False), ('GetIV', False)]:
        def h(eng, st, args, w=w):
            rec.append((w, args))
            return [(L(32, {'ret': 1}, 0), st)]
        eng.contracts['RaBlockCipher' + w] = h
    st = State(); setsym(eng, st, 'ret', 0, LMAX, 32); setsym(eng, st, 'len', -(1 << 31), LMAX, 32); setsym(eng, st, 'pad', 0, LMAX, 32)
    cx = eng.new_obj(st, 'ctx', lay['size'], True, None, 'arg')
    a = eng.new_obj(st, 'in', 1 << 33, False, None, 'arg'); b = eng.new_obj(st, 'out', 1 << 33, True, None, 'arg')
    ln, pad = L(32, {'len': 1}, 0), L(32, {'pad': 1}, 0)
    P = lambda x, o, off=0: isinstance(x, Ptr) and x.o is o and x.off == off and x.tab is None
    for w, pd in WR:
        rec.clear()
        res = eng.call(st.copy(), f'Ra{n}{w}', [Ptr(cx, 0), Ptr(a, 0), ln, Ptr(b, 0)] + ([pad] if pd else []))
        ok = len(res) == len(rec) and len(res) >= 1
        for (ret, s), (k, g) in zip(res, rec):
            ok = ok and k == w and P(g[0], cx, lay['bc']) and P(g[1], a) and leq(eng, s, g[2], ln) and P(g[3], b) and (not pd or leq(eng, s, g[4], pad)) and leq(eng, s, ret, L(32, {'ret': 1}, 0)) and not s.mem.get(cx.id)
        R.ob(('C09',) if pd else ('C07', 'C08'), f'Ra{n}{w} is RaBlockCipher{w} on its own object', ok, f'{len(rec)} calls', n=5)
    for w in ('SetIV', 'GetIV'):
        rec.clear()
        res = eng.call(st.copy(), f'Ra{n}{w}', [Ptr(cx, 0), Ptr(b, 0)])
        ok = len(res) == len(rec) == 1 and rec[0][0] == w and P(rec[0][1][0], cx, lay['bc']) and P(rec[0][1][1], b)
        R.ob(('C07',), f'Ra{n}{w} is RaBlockCipher{w} on its own object', ok, n=2)
    # Init hands over disjoint storage inside the object
    rec.clear()
    def hi(eng, st, args): rec.append(args); return eng.run(eng.funcs['RaBlockCipherInit'], dict({'#mod': eng.funcs['RaBlockCipherInit'].mod}, **{pn: x for (t_, pn), x in zip(eng.funcs['RaBlockCipherInit'].params, args)}), st)
    eng.contracts['RaBlockCipherInit'] = hi
    for kt, kl in (c['keys'] or [('len', 16)]):
        s = st.copy()
        ko = eng.new_obj(s, 'key', kl, False, None, 'arg')
        for i in range(kl): s.wcells(ko.id)[i] = (i * 37 + 11) & 255
        rec.clear()
        args = [Ptr(cx, 0), Ptr(ko, 0)] + ([kl] if kt == 'len' else [lay[kt]] if kt else []) + [lay['CBC']]
        if kt == 'len':   # Blowfish: the key schedule is C05's subject
            for k in list(eng.funcs):
                if any(x in k for x in ('SubKey', 'ExpandKey', 'KeySchedule')): pass
        eng.call(s, f'Ra{n}Init', args)
        ok = bool(rec)
        for g in rec:
            iv, bf = g[5], g[6]
            ok = ok and P(g[0], cx, lay['bc']) and g[4] == bs and isinstance(iv, Ptr) and isinstance(bf, Ptr) and iv.o is cx and bf.o is cx
            def inside(p, f, m): return isinstance(p.off, int) and lay[f] <= p.off and p.off + bs <= lay[f] + lay[f + 'n']
            ok = ok and ((inside(iv, 'iv', 0) and inside(bf, 'buf', 0)) or (inside(iv, 'buf', 0) and inside(bf, 'iv', 0)))
        R.ob(('C07', 'C08', 'C09'), f'Ra{n}Init {kt or ""}: chaining value and buffer are separate fields of at least a block', ok, n=5)
    ctx.absorb(eng)

def worker(a):
    pid, tier, kind, args = a
    from irv import check
    sub = check.Ctx(pid, tier)
    mods, lay = _G['mods'], _G['lay']
    def go():
        if kind == 'update': prove_update(sub, mods, lay, *args)
        if kind == 'small': prove_small(sub, mods, lay, *args)
        if kind == 'encfinal': prove_encfinal(sub, mods, lay, *args)
        if kind == 'decfinal': prove_decfinal(sub, mods, lay, *args)
        if kind == 'wrap': prove_wrappers(sub, CIPHERS[args[0]], None)
    sub.proof(f'{kind} {args}', go)
    sub.solver_s += smt.STAT['s']
    return sub
_G = {}

def prove(ctx):
    mods = front.build_ir(MODS); lay = layout()
    _G.update(mods=mods, lay=lay)
    jobs = []
    def add(k, *a): jobs.append((ctx.pid, ctx.tier, k, a))
    for bs in (16, 8):
        for m in md.MODES:
            if ctx.pid in ('C07', 'C08'):
                for e in (True, False):
                    for i in range(4): add('update', m, e, bs, list(range(i, bs, 4)))
            elif ctx.pid == 'C09':
                add('encfinal', m, bs)
                for e in (True, False): add('update', m, e, bs, list(range(bs)))
            add('small', m, bs)
        if ctx.pid == 'C09':
            add('decfinal', bs, [0], ['NONE', 'ZERO'])
            vals = list(range(256))
            for i in range(16): add('decfinal', bs, vals[i::16], ['PKCS7'])
    for k in ('C01', 'C02', 'C03', 'C04', 'C05'): add('wrap', k)
    import multiprocessing as mp
    with mp.get_context('fork').Pool(8) as pool:
        for sub in pool.imap_unordered(worker, jobs): merge(ctx, sub); ctx.bounded += sub.bounded
    ctx.assume('the block function of each cipher reads one block and writes one block (an arbitrary function otherwise; which one is C01-C05)',
               'input and output buffers do not overlap each other or the context', 'the pending and supplied bytes together do not exceed 2^31-1 (the byte count is an int)')
    ctx.notes.append('every mode x direction x block size 8 and 16 x fill level x every length (block loop by the fold rule); splitting invariance and whole-message results follow by induction over the calls, because the update contract is a function of (chaining value, pending bytes) ++ input only')

# ---------------------------------------------------------------- concrete
def search(pid, seconds, seed):
    lay = layout()
    nat = native.Native()
    V, I = ctypes.c_void_p, ctypes.c_int
    try:
        so = nat.lib('asm')
        q = {}
        for k, c in CIPHERS.items():
            q['S' + c['name']] = f'sizeof(struct Ra{c["name"]}Ctx)'
            for kt, _ in c['keys']:
                if kt: q[kt] = kt
        ql = front.layout(q)
        def run(report):
            Lb = native.Lib(so); rnd = random.Random(seed); end = time.time() + seconds; it = 0
            def F(name, r, *a):
                f = getattr(Lb.l, name); f.restype = r; f.argtypes = list(a); return f
            while time.time() < end:
                c = list(CIPHERS.values())[it % 5]; n, bs = c['name'], c['bs']
                if n == 'Blowfish' and it % 20 != 4: it += 1; continue
                kt, kl = rnd.choice(c['keys'] or [('len', 8)])
                key = rnd.randbytes(kl)
                def mkctx(mode):
                    g = native.Guarded(ql['S' + n], fill=rnd.choice((0, 0xEE)))
                    a = [g.addr, key] + ([kl] if kt == 'len' else [ql[kt]] if kt else []) + [lay['M_' + mode]]
                    F(f'Ra{n}Init', None, V, ctypes.c_char_p, *([I] * (len(a) - 2)))(*a)
                    return g
                ecb = mkctx('ECB')
                fe, fd = F(f'Ra{n}Encrypt', I, V, V, I, V), F(f'Ra{n}Decrypt', I, V, V, I, V)
                def blk(f, p):
                    i = native.Guarded(bs, data=bytes(p)); o = native.Guarded(bs)
                    f(ecb.addr, i.addr, bs, o.addr); return list(o.get())
                E = lambda p: blk(fe, p)
                D = lambda p: blk(fd, p)
                for mode in md.MODES:
                    cx = mkctx(mode)
                    iv = [0] * bs
                    for msgno in range(3):
                        enc = rnd.random() < 0.5 or (pid == 'C09' and msgno == 0)
                        if rnd.random() < 0.6 or msgno == 0:
                            iv = list(rnd.randbytes(bs)) if msgno or rnd.random() < 0.7 else iv
                            if msgno or iv != [0] * bs:
                                g = native.Guarded(bs, data=bytes(iv)); F(f'Ra{n}SetIV', None, V, V)(cx.addr, g.addr)
                        ln = rnd.choice([rnd.randrange(0, 5 * bs), rnd.randrange(0, 5) * bs, rnd.randrange(0, 3) * bs + rnd.choice((1, bs - 1))])
                        fin = rnd.random() < (0.8 if pid == 'C09' else 0.4) or msgno < 2
                        pad = rnd.choice(PADS)
                        data = rnd.randbytes(ln)
                        if not enc and fin and pad == 'PKCS7' and ln >= bs and rnd.random() < 0.8:
                            # make the plaintext end in (nearly) valid padding
                            ln -= ln % bs
                            pl = rnd.choice((0, 1, 2, bs - 1, bs, bs + 1, 255, rnd.randrange(1, bs + 1)))
                            pt = bytearray(rnd.randbytes(ln)); pt[ln - min(pl, ln):] = bytes([pl & 255]) * min(pl, ln)
                            if pl == 0: pt[-1] = 0
                            if 2 <= pl <= ln and rnd.random() < 0.5: pt[ln - rnd.randrange(1, pl + 1)] ^= 1 << rnd.randrange(8)
                            v = iv; ct = []
                            for i in range(0, ln, bs):
                                o, v = md.step(mode, True, v, list(pt[i:i + bs]), E, D); ct += o
                            data = bytes(ct)
                        cuts = sorted(rnd.randrange(0, ln + 1) for _ in range(rnd.choice((0, 0, 1, 1, 2, 3, 4))))
                        parts = [data[a:b] for a, b in zip([0] + cuts, cuts + [ln])]
                        report(dict(cipher=n, key=key.hex(), keyType=kt, mode=mode, message=msgno, encrypt=enc, iv=bytes(iv).hex(), parts=[p.hex() for p in parts], final=fin, padding=pad))
                        case = dict(cipher=n, key=key.hex(), keyType=kt, mode=mode, message=msgno, encrypt=enc, iv=bytes(iv).hex(), parts=[p.hex() for p in parts], final=fin, padding=pad)
                        # reference
                        pend = b''; want = []; v = list(iv)
                        for j, p in enumerate(parts):
                            tot = pend + p; o = []
                            for i in range(0, len(tot) - bs + 1, bs):
                                x, v = md.step(mode, enc, v, list(tot[i:i + bs]), E, D); o += x
                            pend = tot[len(tot) - len(tot) % bs:]
                            last = j == len(parts) - 1
                            if last and fin:
                                if enc:
                                    pb = pend + bytes([bs - len(pend)]) * (bs - len(pend)) if pad == 'PKCS7' else (pend + bytes(bs - len(pend)) if pad == 'ZERO' and pend else b'')
                                    if pb: x, v = md.step(mode, True, v, list(pb), E, D); o += x
                                cnt = len(o)
                                if not enc and pad == 'PKCS7' and o:
                                    k = o[-1]
                                    if 1 <= k <= bs and all(z == k for z in o[-k:]): cnt -= k
                                pend = b''
                                want.append((o, cnt))
                            else: want.append((o, len(o)))
                        for j, p in enumerate(parts):
                            last = j == len(parts) - 1
                            o, cnt = want[j]
                            i = native.Guarded(len(p), data=p); ob = native.Guarded(len(o), fill=0x5C)
                            if last and fin: r = F(f'Ra{n}{"En" if enc else "De"}cryptFinal', I, V, V, I, V, I)(cx.addr, i.addr, len(p), ob.addr, lay['P_' + pad])
                            else: r = (fe if enc else fd)(cx.addr, i.addr, len(p), ob.addr)
                            if r != cnt: return dict(what=f'call {j} returned {r}, expected {cnt}', **case)
                            if list(ob.get())[:cnt] != o[:cnt]: return dict(what=f'output of call {j} differs', got=ob.get().hex(), expected=bytes(o).hex(), **case)
                        g = native.Guarded(bs); F(f'Ra{n}GetIV', None, V, V)(cx.addr, g.addr)
                        if list(g.get()) != list(v): return dict(what='the chaining value read back does not continue the message', got=g.get().hex(), expected=bytes(v).hex(), **case)
                        iv = list(v)
                        if not fin:
                            # restart
                            iv = list(rnd.randbytes(bs)); g = native.Guarded(bs, data=bytes(iv)); F(f'Ra{n}SetIV', None, V, V)(cx.addr, g.addr)
                it += 1
            return None
        return native.forked(run, seconds + 30)
    finally: nat.close()

def check(ctx):
    ctx.proof('mode contracts', lambda: prove(ctx))
    try: ctx.evals, ctx.violation = search(ctx.pid, (4 if ctx.tier == 'quick' else 60) if not ctx.failed else 60, ctx.seed)
    except front.ExtractError as e: ctx.ob('native build', False, str(e))
    return 'proof'
