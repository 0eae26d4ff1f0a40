"""C01-C05: block functions through the public interface (one block in every mode), both implementation paths."""
import ctypes, random, sys, time
from irv import terms as tm, front, native
from irv.terms import T_, Unsupported
from irv.sym import Engine, State, Ptr, B, Fail, Fn, select_bits, content_id, select_cid
from irv.x86 import Asm
from irv.w import SW, IW, svar, cat, ibytes, tobytes, be, bytes_be
from specs import ciphers as cs

CIPHERS = {
 'C01': dict(name='Aes', mods=['aes', 'aes_x86', 'block_cipher'], bs=16, keys=[('RA_AES_128', 16), ('RA_AES_192', 24), ('RA_AES_256', 32)],
             ks=lambda k, n: cs.aes_expand(k), enc=cs.aes_enc, dec=cs.aes_dec, std='FIPS-197'),
 'C02': dict(name='Des', mods=['des', 'block_cipher'], bs=8, keys=[('RA_DES', 8), ('RA_DES_EDE2', 16), ('RA_DES_EDE3', 24)],
             ks=lambda k, n: cs.des3_keys(k, n // 8), enc=cs.des_enc, dec=cs.des_dec, std='FIPS 46-3'),
 'C03': dict(name='Seed', mods=['seed', 'block_cipher'], bs=16, keys=[(None, 16)], ks=lambda k, n: cs.seed_keys(k), enc=cs.seed_enc, dec=cs.seed_dec, std='RFC 4269'),
 'C04': dict(name='Aria', mods=['aria', 'block_cipher'], bs=16, keys=[('RA_ARIA_128', 16), ('RA_ARIA_192', 24), ('RA_ARIA_256', 32)],
             ks=lambda k, n: cs.aria_keys(k), enc=cs.aria_enc, dec=cs.aria_dec, std='RFC 5794'),
 'C05': dict(name='Blowfish', mods=['blowfish', 'block_cipher'], bs=8, keys=[], std='the Blowfish paper (Schneier 1993)'),
}
MODES = ['ECB', 'CBC', 'CFB', 'OFB']

def byte_obj(eng, st, name, words, writable=False):
    o = eng.new_obj(st, name, len(words), writable, None, 'arg')
    for i, w in enumerate(words): st.wcells(o.id)[i] = w.b if isinstance(w, SW) else w
    return o

def out_bytes(eng, st, o, n, off=0):
    return [eng.byte_bits(eng.read_byte(st, o, off + i)) for i in range(n)]

def layout(c):
    q = {k: k for k, _ in c['keys'] if k}
    for m in MODES: q[m] = 'RA_BLOCK_MODE_' + m
    q['size'] = f'sizeof(struct Ra{c["name"]}Ctx)'
    return front.layout(q)

def first_block(mode, E, D, p, iv):
    """(encryption, decryption) of one block, by the mode definitions of SP 800-38A"""
    x = lambda a, b: [i ^ j for i, j in zip(a, b)]
    if mode == 'ECB': return E(p), D(p)
    if mode == 'CBC': return E(x(p, iv)), x(D(p), iv)
    return x(E(iv), p), x(E(iv), p)

def prove_one(ctx, c, mods, lay, kt, kl, args, key, ks, enc, dec, tag, modes, setup=None, inverse=True):
    """Init + one block in every mode.  key/ks symbolic"""
    eng = Engine(list(mods.values())); eng.asm = Asm()
    if setup: setup(eng)
    st = State()
    bs = c['bs']
    blk = svar('p', bs); iv = svar('iv', bs)
    ko = byte_obj(eng, st, 'key', key)
    E = enc(ks, blk); 
    memo = {}
    def fE(x):
        k = tuple(w.b for w in x)
        if ('e', k) not in memo: memo['e', k] = enc(ks, x)
        return memo['e', k]
    def fD(x):
        k = tuple(w.b for w in x)
        if ('d', k) not in memo: memo['d', k] = dec(ks, x)
        return memo['d', k]
    fn = c['name']
    for mode in modes:
        s0 = st.copy()
        cx = eng.new_obj(s0, 'ctx', lay['size'], True, None, 'arg')
        r = eng.call(s0, f'Ra{fn}Init', [Ptr(cx, 0), Ptr(ko, 0)] + args + [lay[mode]])
        specE, specD = first_block(mode, fE, fD, blk, iv)
        for i, (_, s) in enumerate(r):
            for what, spec in (('Encrypt', specE), ('Decrypt', specD)):
                s2 = s.copy()
                if mode != 'ECB':
                    ivo = byte_obj(eng, s2, 'iv', iv)
                    rr = eng.call(s2, f'Ra{fn}SetIV', [Ptr(cx, 0), Ptr(ivo, 0)])
                    s2 = one(rr)[1]
                ino = byte_obj(eng, s2, 'in', blk)
                oo = eng.new_obj(s2, 'out', bs, True, None, 'arg')
                ret, s3 = one(eng.call(s2, f'Ra{fn}{what}', [Ptr(cx, 0), Ptr(ino, 0), bs, Ptr(oo, 0)]))
                got = out_bytes(eng, s3, oo, bs)
                bad = [j for j in range(bs) if got[j] != spec[j].b]
                ctx.ob(f'{fn}{what} {tag} {mode} path{i}: output block equals {c["std"]}', not bad,
                       f'output bytes {bad} differ from the specification', n=bs)
                ctx.ob(f'{fn}{what} {tag} {mode} path{i}: returns the block length', ret == bs, f'returned {ret!r}')
    if inverse:
        R = fD(fE(blk))
        ctx.ob(f'lemma {fn} {tag}: D(E(p)) = p over the specification', all(a.b == b.b for a, b in zip(R, blk)), n=bs)
    ctx.absorb(eng)
    return eng

def one(r):
    if len(r) != 1: raise Unsupported(f'{len(r)} paths where one was expected')
    return r[0]

# ------------------------------------------------------------ Blowfish
_AC = {}
def all_const(ws):
    return all(tm.as_const(w.b) is not None for w in ws)

_LUTS = {}
class BfTab:
    """P and S of the specification with select functions (constant S-boxes are looked up as tables)"""
    def __init__(self, P, S):
        self.P, self.S = P, S
        self.cid = [None] * 4
        self.const = [[tm.as_const(w.b) for w in s] for s in S]
        self.const = [c if None not in c else None for c in self.const]
    def set(self, k, j, w):
        self.S[k][j] = w; self.cid[k] = None; self.const[k] = None
    def sel(self, i, idx):
        if self.const[i] is not None: return idx.lut(self.const[i], 32)
        if all(f in (0, 1) for f in idx.b): return self.S[i][sum(f << j for j, f in enumerate(idx.b))]
        if self.cid[i] is None: self.cid[i] = content_id([w.b for w in self.S[i]])
        return SW(select_cid(idx.b, self.cid[i], 32))
    def key(self):
        for i in range(4):
            if self.cid[i] is None: self.cid[i] = content_id([w.b for w in self.S[i]])
        return tuple(('c', c) for c in self.cid) + tuple(w.b for w in self.P)

def bf_schedule_sym(key, enc):
    P = cs.bf_keyed_p(key)
    t = BfTab(P, [[SW(tm.const_bits(v, 32)) for v in s] for s in cs.bf_init()[1]])
    l = SW(tm.const_bits(0, 32)); r = l
    for i in range(0, 18, 2):
        l, r = enc(t, l, r); P[i], P[i + 1] = l, r
    for k in range(4):
        for j in range(0, 256, 2):
            l, r = enc(t, l, r); t.set(k, j, l); t.set(k, j + 1, r)
    return t

def bf_uf(t, l, r):
    u = tm.uf('bfE', t.key() + (l.b, r.b), 64)
    return SW(u[:32]), SW(u[32:])

def bf_layout():
    return front.layout({'P': 'offsetof(struct RaBlowfishCtx, p_array)', 'S': 'offsetof(struct RaBlowfishCtx, sbox)',
                         'size': 'sizeof(struct RaBlowfishCtx)'})

def rd32(eng, st, o, off):
    b = ()
    for i in range(4): b += tuple(eng.byte_bits(eng.read_byte(st, o, off + i)))
    return SW(b)

def bf_find_contract(ctx, mods, bl):
    """functions (ctx, &l, &r) of the module that replace (l, r) by the Blowfish encryption under the tables in ctx"""
    out = []
    m = mods['blowfish']
    for name, f in m.funcs.items():
        if [t[0] for t, _ in f.params] != ['ptr'] * 3 or not f.internal: continue
        eng = Engine(list(mods.values()))
        st = State()
        cx = eng.new_obj(st, 'ctx', bl['size'], False, None, 'arg')
        P = [SW(tm.var(f'P{i}', 32)) for i in range(18)]
        S = [[SW(tm.var(f'S{k}.{j}', 32)) for j in range(256)] for k in range(4)]
        c = st.wcells(cx.id)
        for i, w in enumerate(P):
            for b in range(4): c[bl['P'] + 4 * i + b] = w.b[8 * b:8 * b + 8]
        for k in range(4):
            for j, w in enumerate(S[k]):
                for b in range(4): c[bl['S'] + 1024 * k + 4 * j + b] = w.b[8 * b:8 * b + 8]
        l = SW(tm.var('l', 32)); r = SW(tm.var('r', 32))
        lo = eng.new_obj(st, 'l', 4, True, None, 'arg'); ro = eng.new_obj(st, 'r', 4, True, None, 'arg')
        for o, w in ((lo, l), (ro, r)):
            for b in range(4): st.wcells(o.id)[b] = w.b[8 * b:8 * b + 8]
        try:
            res = eng.call(st, eng.fkey(m, name), [Ptr(cx, 0), Ptr(lo, 0), Ptr(ro, 0)])
        except (Fail, Unsupported):
            continue
        if len(res) != 1: continue
        s2 = res[0][1]
        t = BfTab(P, S)
        for dec in (False, True):
            el, er = cs.bf_enc_words(P[::-1] if dec else P, t.sel, l, r)
            if rd32(eng, s2, lo, 0).b == el.b and rd32(eng, s2, ro, 0).b == er.b:
                ctx.ob(f'contract of {name}: (l, r) := Blowfish {"decryption" if dec else "encryption"} of (l, r) under any P, S; the context is not modified', True, n=64)
                ctx.absorb(eng)
                out.append((name, dec))
    return out

def bf_worker(a):
    pid, tier, kl, cons, inlined = a
    from irv import check
    sub = check.Ctx(pid, tier)
    c = CIPHERS[pid]
    tm.reset()
    mods, lay, bl = _G['mods'], _G['lay'], _G['bl']
    m = mods['blowfish']
    def setup(eng):
        def handler(dec):
            cache = {}
            def h(eng, st, args):
                cx, lp, rp = args
                from irv.sym import _WC
                o = cx.o; base = cx.off
                key = (st.mem.get(o.id), _WC.get(o.id, 0), base)
                if cache.get('k') is None or cache['k'][0] is not key[0] or cache['k'][1:] != key[1:]:
                    P = [rd32(eng, st, o, base + bl['P'] + 4 * i) for i in range(18)]
                    S = [[rd32(eng, st, o, base + bl['S'] + 1024 * k + 4 * j) for j in range(256)] for k in range(4)]
                    cache['k'] = (st.mem.get(o.id), _WC.get(o.id, 0), base); cache['t'] = BfTab(P, S)
                t = cache['t']
                l = SW(eng.bits(eng.load(st, lp, 4, 32), 32)); r = SW(eng.bits(eng.load(st, rp, 4, 32), 32))
                if dec:
                    u = tm.uf('bfD', t.key() + (l.b, r.b), 64); nl, nr = u[:32], u[32:]
                else:
                    x = bf_uf(t, l, r); nl, nr = x[0].b, x[1].b
                eng.store(st, lp, B(nl), 4, 32); eng.store(st, rp, B(nr), 4, 32)
                return [(None, st)]
            return h
        for name, dec in cons: eng.contracts[eng.fkey(m, name)] = handler(dec)
    def go():
        key = svar('k', kl)
        encw = any(not d for _, d in cons); decw = any(d for _, d in cons)
        if inlined:
            T_.name_limit = 48
            t = bf_schedule_sym(key, lambda t, l, r: cs.bf_enc_words(t.P, t.sel, l, r))
        else:
            t = bf_schedule_sym(key, bf_uf)
        def enc(ks, x):
            if not inlined:
                l, r = bf_uf(t, be(x[:4]), be(x[4:])); return bytes_be(l) + bytes_be(r)
            return cs.bf_block(t.P, t.sel, x)
        def dec(ks, x):
            if not inlined and decw:
                u = tm.uf('bfD', t.key() + (be(x[:4]).b, be(x[4:]).b), 64); return bytes_be(SW(u[:32])) + bytes_be(SW(u[32:]))
            return cs.bf_block(t.P, t.sel, x, True)
        prove_one(sub, c, mods, lay, None, kl, [kl], key, None, enc, dec, f'keyLen={kl}', ['ECB', 'CBC', 'CFB', 'OFB'] if kl == 16 else ['ECB'],
                  setup=setup, inverse=False)
    sub.proof(f'Blowfish keyLen={kl}', go)
    return sub

_G = {}

def bf_check(ctx, c, mods, lay):
    import multiprocessing as mp
    tm.reset()
    bl = bf_layout()
    _G['bl'] = bl
    cons = bf_find_contract(ctx, mods, bl)
    inlined = not any(not d for _, d in cons)
    # inversion lemma over the specification, for arbitrary tables
    P = [SW(tm.var(f'P{i}', 32)) for i in range(18)]
    t = BfTab(P, [[SW(tm.var(f'S{k}.{j}', 32)) for j in range(256)] for k in range(4)])
    b = svar('p', 8)
    R = cs.bf_block(P, t.sel, cs.bf_block(P, t.sel, b), True)
    ctx.ob('lemma Blowfish: D(E(p)) = p for every P and S', all(x.b == y.b for x, y in zip(R, b)), n=8)
    lens = [16] if inlined else list(range(1, 73))
    if inlined:
        ctx.ob('a contract for the block transformation was found', False, 'no internal function (ctx,&l,&r) satisfies the Blowfish contract; key schedule verified by inlining for 128-bit keys only')
        return
    with mp.get_context('fork').Pool(8) as pool:
        for sub in pool.imap_unordered(bf_worker, [(ctx.pid, ctx.tier, k, cons, inlined) for k in lens]): merge(ctx, sub)
    ctx.notes.append(f'Blowfish key lengths {lens[0]}..{lens[-1]} bytes (longer keys: bytes beyond 72 are never read by the schedule)')

# ------------------------------------------------------------ concrete
def oracle(pid, c, key, blk, dec):
    if pid == 'C05': return cs.bf_concrete(key, blk, dec)
    ks = c['ks'](ibytes(key), len(key))
    return tobytes((c['dec'] if dec else c['enc'])(ks, ibytes(blk)))

def search(pid, c, seconds, seed, hints=()):
    """differential replay of the compiled sources against the specification evaluated on integers"""
    nat = native.Native()
    evals = 0
    try:
        lay = layout(c)
        n = c['name']; bs = c['bs']
        for variant in (['asm', 'noasm'] if pid == 'C01' else ['asm']):
            so = nat.lib(variant)
            def run(report, so=so):
                L = native.Lib(so)
                V = ctypes.c_void_p
                init = getattr(L.l, f'Ra{n}Init'); init.restype = None
                encf = L.fn(f'Ra{n}Encrypt', ctypes.c_int, V, V, ctypes.c_int, V)
                decf = L.fn(f'Ra{n}Decrypt', ctypes.c_int, V, V, ctypes.c_int, V)
                rnd = random.Random(seed)
                end = time.time() + seconds
                cx = native.buf(lay['size'] + 64)
                keys = c['keys'] or [(None, k) for k in range(1, 57)]
                it = 0
                while time.time() < end:
                    for kt, kl in (keys if pid != 'C05' else [keys[it % 56]]):
                        mode = it % 6
                        mk = lambda k: (bytes(k) if mode == 0 else bytes([255] * k) if mode == 1 else
                                        bytes([rnd.choice((0, 1, 127, 128, 255, 254)) for _ in range(k)]) if mode == 2 else
                                        bytes([rnd.randrange(256)] * k) if mode == 3 else rnd.randbytes(k))
                        key = mk(kl)
                        blk = mk(bs) if it % 12 < 6 else rnd.randbytes(bs)
                        if it < len(hints): key, blk = hints[it]
                        if len(key) != kl: continue
                        report(dict(cipher=n, variant=variant, key=key.hex(), block=blk.hex()))
                        args = [V(ctypes.addressof(cx)), ctypes.c_char_p(key)] + ([ctypes.c_int(lay[kt])] if kt else []) + \
                               ([ctypes.c_int(kl)] if pid == 'C05' else []) + [ctypes.c_int(lay['ECB'])]
                        init(*args)
                        for f, d in ((encf, False), (decf, True)):
                            out = native.buf(bs)
                            ib = (ctypes.c_uint8 * bs)(*blk)
                            r = f(ctypes.addressof(cx), ctypes.addressof(ib), bs, ctypes.addressof(out))
                            exp = oracle(pid, c, key, blk, d)
                            if r != bs or bytes(out) != exp:
                                return dict(what=f'{n} {"decryption" if d else "encryption"} of one block differs from {c["std"]}',
                                            variant=variant, key=key.hex(), block=blk.hex(), got=bytes(out).hex(), expected=exp.hex(), returned=r)
                    it += 1
                return None
            k, v = native.forked(run, seconds + 30)
            evals += k
            if v is not None: return evals, v
    finally:
        nat.close()
    return evals, None

# recorded deviations (known_findings.txt): specification variants that differ from the standard exactly by the finding
def _des_variant():
    s = list(cs.DES_S_STD[0]); s[63] = 0
    cs.DES_S = [s] + cs.DES_S_STD[1:]
VARIANTS = {'C02': {'sbox1-last-entry': _des_variant}}

def check(ctx):
    from irv import check as chk
    pid = ctx.pid
    kf = chk.known_findings(pid)
    sub = chk.Ctx(pid, ctx.tier)
    prove(sub)
    if sub.failed:
        for key, text in kf.items():
            VARIANTS[pid][key]()
            s2 = chk.Ctx(pid, ctx.tier)
            prove(s2)
            if not s2.failed:
                sub = s2
                ctx.known.append(text)
                ctx.notes.append(f'obligations were discharged against the standard with the recorded deviation "{key}" and against nothing else')
                break
            cs.DES_S = cs.DES_S_STD
    merge(ctx, sub)
    ctx.notes += sub.notes; ctx.assume(*sub.assumptions)
    secs = 4 if not ctx.failed else 60
    try:
        if ctx.failed and kf:
            # keep the recorded deviation out of the replay search
            for key in kf: VARIANTS[pid][key]()
        ctx.evals, ctx.violation = search(pid, CIPHERS[pid], secs, ctx.seed)
    except front.ExtractError as e:
        ctx.ob('native build', False, str(e))
    return 'proof'

def prove(ctx):
    pid = ctx.pid
    c = CIPHERS[pid]
    modes = MODES
    def go():
        mods = front.build_ir(c['mods'])
        lay = layout(c)
        _G['mods'], _G['lay'] = mods, lay
        if pid == 'C05':
            bf_check(ctx, c, mods, lay)
            return
        for kt, kl in c['keys']:
            tm.reset()
            key = svar('k', kl)
            ks = c['ks'](key, kl)
            def step():
                prove_one(ctx, c, mods, lay, kt, kl, [lay[kt]] if kt else [], key, ks, c['enc'], c['dec'], kt or f'{8 * kl}-bit key', modes)
                if pid == 'C02':
                    sup = set()
                    for w in c['enc'](ks, svar('p', c['bs'])): sup |= leafs(w.b)
                    ctx.ob(f'parity bits of {kt} do not influence the specification', not any(k[1].startswith('k[') and k[2] == 0 for k in sup))
            ctx.proof(f'{c["name"]} {kt}', step)
    ctx.proof('extraction', go)
    if pid == 'C01': ctx.assume('cpuid may report any feature set: both the AES-NI and the portable path are verified; AES-NI instructions are modelled after the Intel SDM',
                                'inline assembly operands: compiler honours the operand constraints (the asm modifies input registers without declaring it)',
                                'arm64 assembly files are not part of this build and are not verified')
    ctx.assume('CPU is little-endian and the build is the configuration CMake selects here', 'input, key and output buffers do not overlap the context')

def merge(ctx, sub):
    ctx.obligations += sub.obligations; ctx.discharged += sub.discharged
    for k, v in sub.by.items(): ctx.by[k] = ctx.by.get(k, 0) + v
    ctx.failed += sub.failed; ctx.undecided += sub.undecided; ctx.functions |= sub.functions
    ctx.solver_s += sub.solver_s
    for k, v in sub.kinds.items(): ctx.kinds[k] = ctx.kinds.get(k, 0) + v

def leafs(forms):
    out = set(); seen = set(); st = list(forms)
    while st:
        f = st.pop()
        if f in seen or f in (0, 1): continue
        seen.add(f)
        for a in tm.support(f):
            k = T_.atoms[a]
            if k[0] == 'v': out.add(k)
            elif k[0] == 'lut': st.extend(k[1])
            elif k[0] == 'add':
                for w, co in k[1][1]: st.extend(w)
            else: raise Unsupported('leafs')
    return out
