"""C10-C15: message digests.  Contracts: the compression function (each implementation), Init, Update (for every buffer
fill level and every length), Final (for every fill level and total length), the one-shot functions.  Representation
invariant of a context: h = chaining value after the complete blocks, buffer[0..n mod B) = the pending bytes, total
counter = n.  Update preserves it, Final turns it into the standard's digest."""
import ctypes, random, time
from irv import terms as tm, front, native, fold, smt
from irv.terms import Unsupported
from irv.sym import Engine, State, Ptr, B, L, Fail, Fn, lkey
from irv.x86 import Asm
from irv.w import SW, IW, svar, be, le, bytes_be, bytes_le, ibytes, tobytes
from specs import digests as ds
from .blockcipher import byte_obj, out_bytes, one, merge

SHORT = {'Md2': ('totalLen', None, None), 'x': ('totalLen_l', 'totalLen_h', None)}
class Cfg: pass
def mk(name, algs, mods, cname=None, oneshots=(), std='', hw=4):
    c = Cfg()
    c.name, c.algs, c.mods, c.cname, c.oneshots, c.std, c.hw = name, algs, mods, cname or name, oneshots, std, hw
    return c
# algs: (algorithm constant or None, spec name, update/final function prefixes to check)
CFG = {
 'C10': mk('Md2', [(None, 'md2', ['Md2'])], ['md2'], oneshots=[('Md2', 'md2')], std='RFC 1319', hw=1),
 'C11': mk('Md4', [(None, 'md4', ['Md4'])], ['md4'], oneshots=[('Md4', 'md4')], std='RFC 1320'),
 'C12': mk('Md5', [(None, 'md5', ['Md5'])], ['md5'], oneshots=[('Md5', 'md5')], std='RFC 1321'),
 'C13': mk('Sha1', [(None, 'sha1', ['Sha1'])], ['sha1', 'sha1_x86'], oneshots=[('Sha1', 'sha1')], std='FIPS 180-4'),
 'C14': mk('Sha2', [('RA_DGST_SHA2_256', 'sha256', ['Sha2', 'Sha256']), ('RA_DGST_SHA2_224', 'sha224', ['Sha2']),
                    ('RA_DGST_SHA2_512', 'sha512', ['Sha2', 'Sha512']), ('RA_DGST_SHA2_384', 'sha384', ['Sha2']),
                    ('RA_DGST_SHA2_512_224', 'sha512_224', ['Sha2']), ('RA_DGST_SHA2_512_256', 'sha512_256', ['Sha2'])],
           ['sha2', 'sha2_x86'], oneshots=[('Sha256', 'sha256'), ('Sha512', 'sha512')], std='FIPS 180-4', hw=8),
 'C15': mk('Has160', [(None, 'has160', ['Has160'])], ['has160'], oneshots=[('Has160', 'has160')], std='TTAS.KO-12.0011/R1'),
}
LMAX = (1 << 31) - 1

def layout(c):
    t = f'struct Ra{c.name}Ctx'
    q = {'size': f'sizeof({t})', 'buffer': f'offsetof({t}, buffer)'}
    if c.name == 'Md2': q.update(l=f'offsetof({t}, totalLen)', h=f'offsetof({t}, state)', ck=f'offsetof({t}, checksum)')
    else: q.update(l=f'offsetof({t}, totalLen_l)', hh=f'offsetof({t}, totalLen_h)', h=f'offsetof({t}, h)')
    if c.name == 'Sha1': q['fn'] = f'offsetof({t}, fnRaSha1Process)'
    if c.name == 'Sha2':
        q.update(hhh=f'offsetof({t}, totalLen_hh)', fn=f'offsetof({t}, fnRaSha256Process)', alg=f'offsetof({t}, algorithm)')
        for a, _, _ in c.algs: q[a] = a
    return front.layout(q)

def hoffs(c, lay, d):
    """(offset, bytes) of each chaining word"""
    if c.name == 'Md2': return [(lay['h'] + i, 1) for i in range(16)] + [(lay['ck'] + i, 1) for i in range(16)]
    return [(lay['h'] + c.hw * i, d.ww // 8) for i in range(len(d.iv))]

def rd(eng, st, o, off, n):
    b = ()
    for i in range(n): b += tuple(eng.byte_bits(eng.read_byte(st, o, eng.add_off(st, off, i))))
    return b

def wr(st, o, off, bits):
    for i in range(len(bits) // 8):
        b = bits[8 * i:8 * i + 8]
        v = tm.as_const(b)
        st.wcells(o.id)[off + i] = b if v is None else v

def read_h(eng, st, o, c, lay, d, base=0): return [SW(rd(eng, st, o, base + x, n)) for x, n in hoffs(c, lay, d)]

def total_bits(eng, st, o, c, lay, d):
    b = rd(eng, st, o, lay['l'], 4)
    if 'hh' in lay: b += rd(eng, st, o, lay['hh'], 4)
    if 'hhh' in lay and d.lenbytes == 16: b += rd(eng, st, o, lay['hhh'], 8)
    return b

def uf_comp(d, h, blk):
    """contract: the chaining value as an uninterpreted function of (chaining value, block)"""
    hb = tuple(f for w in h for f in w.b); bb = tuple(f for w in blk for f in w.b)
    n = len(hb)
    u = tm.uf('COMP:' + d.comp.__name__, hb + bb, n)
    k = d.ww
    return [SW(u[k * i:k * i + k]) for i in range(n // k)]

# ---------------------------------------------------------------- compression contracts
def families(c):
    """one representative spec per compression function"""
    out = {}
    for a, s, _ in c.algs: out.setdefault(ds.D[s].comp.__name__, (a, ds.D[s]))
    return list(out.values())

def ctx_obj(eng, st, c, lay, hw=None):
    o = eng.new_obj(st, 'ctx', lay['size'], True, None, 'arg')
    for i in range(lay['size']): st.wcells(o.id)[i] = tm.var(f'ctx[{i}]', 8)
    return o

def find_procs(ctx, c, mods, lay):
    """functions (ctx, block) that satisfy the compression contract -> {fkey: spec}"""
    found = {}
    for a, d in families(c):
        eng0 = Engine(list(mods.values()))
        for m in mods.values():
            for name, f in m.funcs.items():
                if [t[0] for t, _ in f.params] != ['ptr'] * 2 or not f.internal: continue
                key = eng0.fkey(m, name)
                if key in found: continue
                tm.reset(); fold.reset()
                eng = Engine(list(mods.values())); eng.asm = Asm()
                key = eng.fkey(m, name)
                st = State()
                o = ctx_obj(eng, st, c, lay)
                h = read_h(eng, st, o, c, lay, d)
                hn = {x + i for x, n in hoffs(c, lay, d) for i in range(n)}
                blk = svar('m', d.block)
                bo = byte_obj(eng, st, 'block', blk)
                before = dict(st.mem[o.id])
                try:
                    res = eng.call(st, key, [Ptr(o, 0), Ptr(bo, 0)])
                    if len(res) != 1: continue
                    s2 = res[0][1]
                    exp = d.comp(h, blk)
                    got = read_h(eng, s2, o, c, lay, d)
                    if any(x.b != y.b for x, y in zip(got, exp)): continue
                    after = s2.mem[o.id]
                    # SHA-256 keeps 32-bit words in 64-bit entries; their upper halves are not part of the value
                    slack = {x + i for x, n in hoffs(c, lay, d) for i in range(c.hw)}
                    if any(after.get(i) != before[i] for i in range(lay['size']) if i not in hn and i not in slack): continue
                except (Fail, Unsupported): continue
                found[key] = (name, d)
                ctx.ob(f'contract of {name}: h := {d.comp.__name__}(h, block) for every h and block; nothing else in the context changes', True, n=8 * len(hn))
                ctx.absorb(eng)
    return {n: d for n, d in found.values()}

def install(eng, c, lay, procs, mods):
    for name, d in procs.items():
        m = [m for m in mods.values() if name in m.funcs][0]
        key = eng.fkey(m, name)
        def h(eng, st, args, d=d, key=key):
            cx, dp = args
            lo = hoffs(c, lay, d)
            if not isinstance(cx, Ptr) or not isinstance(dp, Ptr): raise Fail('contract-precondition', 'null argument of ' + key)
            if dp.o is cx.o:
                off = dp.off
                if not isinstance(off, int): raise Unsupported('block at a symbolic offset of the context')
                if any(cx.off + x < off + d.block and off < cx.off + x + c.hw for x, n in lo):
                    fn = eng.funcs[key]
                    fr = {'#mod': fn.mod}
                    for (t, pn), a in zip(fn.params, args): fr[pn] = a
                    return eng.run(fn, fr, st)
            eng.check_range(st, dp.o, dp.off, d.block, False)
            if cx.tab is not None or dp.tab is not None: raise Unsupported('table pointer')
            eng.ctx_at = (cx.o.name, cx.off)
            hv = read_h(eng, st, cx.o, c, lay, d, cx.off)
            blk = [SW(tuple(eng.byte_bits(eng.read_byte(st, dp.o, eng.add_off(st, dp.off, i))))) for i in range(d.block)]
            new = uf_comp(d, hv, blk)
            for (x, n), w in zip(lo, new):
                wr(st, cx.o, cx.off + x, w.b)
                if c.hw > n:
                    wr(st, cx.o, cx.off + x + n, tm.uf('slack' + str(x), tuple(new[0].b), 8 * (c.hw - n)))
            return [(None, st)]
        eng.contracts[key] = h

# ---------------------------------------------------------------- messages
def data_obj(eng, st, length):
    def dflt(s, o, off):
        key = off if isinstance(off, int) else (tuple(sorted(off.d.items())), off.c)
        return tm.var(f'data@{key}', 8)
    return eng.new_obj(st, 'data', length, False, dflt, 'arg')

def dbyte(eng, st, o, off): return SW(tuple(eng.byte_bits(eng.read_byte(st, o, off))))

class Sp:
    """specification side"""
    def __init__(self, eng, d, comp, c, lay): self.eng, self.d, self.comp, self.c, self.lay = eng, d, comp, c, lay
    def fold(self, st, h, o, base, q):
        """chaining value after q >= 1 further blocks read from object o at base, base+B, ..."""
        d = self.d
        init = [f for w in h for f in w.b]
        ph = []
        used = set()
        for (x, n), w in zip(hoffs(self.c, self.lay, d), h):
            for j in range(n): ph += fold.ph_bits(w.b[8 * j:8 * j + 8], f'{self.eng.ctx_at[0]}+{self.eng.ctx_at[1] + x + j}', used)
        hp = [SW(tuple(ph[d.ww * i:d.ww * i + d.ww])) for i in range(len(h))]
        k = L(64, {'k0': d.block}, base) if not isinstance(base, L) else L(64, dict(base.d, k0=d.block), base.c)
        s2 = st.copy(); s2.rng['k0'] = (0, LMAX)
        blk = [SW(tuple(self.eng.byte_bits(o.default(s2, o, L(64, k.d, k.c + i))))) for i in range(d.block)]
        nx = self.comp(hp, blk)
        nf = [f for w in nx for f in w.b]
        names = {p: nf[i] for i, p in enumerate(ph) if p not in (0, 1)}
        inits = {p: init[i] for i, p in enumerate(ph)}
        n = (dict(q.d), q.c) if isinstance(q, L) else q
        v = [fold.fold_value(names, inits, p, n) for p in ph]
        return [SW(tuple(v[d.ww * i:d.ww * i + d.ww])) for i in range(len(h))]

def same(a, b): return all(x.b == y.b for x, y in zip(a, b)) and len(a) == len(b)

def rep_state(eng, c, lay, d, f, alg, fn):
    """a context satisfying the representation invariant with f pending bytes; everything else arbitrary"""
    st = State()
    o = ctx_obj(eng, st, c, lay)
    T = total_bits(eng, st, o, c, lay, d)
    lb = d.block.bit_length() - 1
    T = tm.const_bits(f, lb) + T[lb:]
    wr(st, o, lay['l'], T[:32])
    if 'alg' in lay: wr(st, o, lay['alg'], tm.const_bits(lay[alg], 32))
    if 'fn' in lay:
        for i in range(8): st.wcells(o.id)[lay['fn'] + i] = ('p', fn, i)
    return st, o, T

def mk_engine(mods, c, lay, procs):
    eng = Engine(list(mods.values())); eng.asm = Asm(); eng.fold_hook = fold.fold_hook
    eng.ctx_at = ('ctx', 0)
    install(eng, c, lay, procs, mods)
    return eng

def setsym(eng, st, name, lo, hi, w):
    st.rng[name] = (lo, hi); eng.symw[name] = w

def prove_update(ctx, c, mods, lay, procs, alg, d, prefix, fn, fills, tag):
    comp = (lambda h, b: uf_comp(d, h, b)) if any(x.comp is d.comp for x in procs.values()) else d.comp
    Bk = d.block
    for f in fills:
        for case in ('short', 'blocks'):
            tm.reset(); fold.reset()
            eng = mk_engine(mods, c, lay, procs)
            st, o, T = rep_state(eng, c, lay, d, f, alg, fn)
            h0 = read_h(eng, st, o, c, lay, d)
            sp = Sp(eng, d, comp, c, lay)
            if case == 'short':
                setsym(eng, st, 'r', 0, Bk - f - 1, 8)
                ln = L(32, {'r': 1}, 0)
                pre = 0
            else:
                pre = (Bk - f) % Bk
                setsym(eng, st, 'r', 0, Bk - 1, 8)
                setsym(eng, st, 'q', 0, (LMAX - pre) // Bk, 32)
                ln = L(32, {'q': Bk, 'r': 1}, pre)
                # the length is a non-negative int
                if not eng.add_lin(st, (('q', Bk), ('r', 1)), pre - LMAX, 'le'): continue
            do = data_obj(eng, st, L(64, ln.d, ln.c))
            buf0 = [rd(eng, st, o, lay['buffer'] + i, 1) for i in range(Bk)]
            lnb = eng.L2B(ln, 32)
            res = eng.call(st, f'Ra{prefix}Update', [Ptr(o, 0), Ptr(do, 0), ln])
            nm = f'Ra{prefix}Update {tag} with {f} pending bytes, {case}'
            if not res: raise Fail('vacuous', nm)
            for ret, s in res:
                qlo, qhi = s.rng.get('q', (0, 0))
                h1 = h0
                if case == 'blocks':
                    if f: h1 = comp(h0, [SW(b) for b in buf0[:f]] + [dbyte(eng, s, do, i) for i in range(pre)])
                    if qlo >= 1: h1 = sp.fold(s, h1, do, pre, L(64, {'q': 1}, 0))
                    elif qhi > 0: raise Unsupported('a path does not decide whether a whole block follows')
                ctx.ob(nm + ': chaining value', same(read_h(eng, s, o, c, lay, d), h1), 'differs from the fold of the compression function over the complete blocks', n=len(h1))
                # pending bytes
                s2 = s.copy()
                off = lay['buffer']
                rl, rh = s.rng['r']
                okb = True
                if rh > 0:
                    s2.rng['j'] = (0, Bk - 1)
                    base = f if case == 'short' else 0
                    if eng.add_lin(s2, (('j', 1), ('r', -1)), 1, 'le'):
                        got = eng.byte_bits(eng.read_byte(s2, o, L(64, {'j': 1}, off + base)))
                        src = L(64, {'j': 1}, 0) if case == 'short' else (L(64, {'j': 1, 'q': Bk}, pre) if qlo >= 1 else L(64, {'j': 1}, pre))
                        if case == 'blocks' and qlo >= 1 and qhi == qlo: src = L(64, {'j': 1, 'q': Bk}, pre)
                        exp = eng.byte_bits(eng.read_byte(s2, do, src))
                        okb = got == exp
                        if not okb and case == 'blocks' and qlo == qhi == 0:
                            okb = got == eng.byte_bits(eng.read_byte(s2, do, L(64, {'j': 1, 'q': Bk}, pre)))
                if case == 'short' and f: okb = okb and all(rd(eng, s, o, off + i, 1) == buf0[i] for i in range(f))
                ctx.ob(nm + ': pending bytes', okb, 'the buffer does not hold the bytes after the last complete block', n=Bk)
                T1 = total_bits(eng, s, o, c, lay, d)
                w = len(T)
                want = tm.wadd(T, lnb + (0,) * (w - 32)) if w > 32 else tm.wadd(T, lnb)
                ok, _ = smt.equal(T1, want, s.pc)
                ctx.ob(nm + ': byte counter', ok is True, 'the counter is not the old one plus the length', backend='z3' if tuple(T1) != tuple(want) else 'irv canonical terms')
                if 'fn' in lay:
                    fp = [s.mem[o.id].get(lay['fn'] + i) for i in range(8)]
                    ctx.ob(nm + ': implementation pointer unchanged', all(isinstance(x, tuple) and x[0] == 'p' and x[1] == fn for x in fp))
                if 'alg' in lay: ctx.ob(nm + ': algorithm unchanged', tm.as_const(rd(eng, s, o, lay['alg'], 4)) == lay[alg])
            ctx.absorb(eng)

def spec_pad(d, pend, T):
    """list of blocks: pending bytes, padding, length field (T: bits of the byte count)"""
    z = lambda v: SW(tm.const_bits(v, 8))
    f = len(pend)
    if d.lenbytes == 0:
        k = d.block - f
        data = pend + [z(k)] * k
    else:
        k = (-f - 1 - d.lenbytes) % d.block
        bits = ((0,) * 3 + tuple(T) + (0,) * 64)[:8 * d.lenbytes]
        lw = SW(bits)
        data = pend + [z(0x80)] + [z(0)] * k + (bytes_be(lw) if d.big else bytes_le(lw))
    return [data[i:i + d.block] for i in range(0, len(data), d.block)]

def spec_final(d, comp, h, pend, T):
    for b in spec_pad(d, pend, T): h = comp(h, b)
    if d.lenbytes == 0:
        h = d.comp(h, h[16:])[:16]
    return d.out(h)

def prove_final(ctx, c, mods, lay, procs, alg, d, prefix, fn, fills, tag):
    comp = (lambda h, b: uf_comp(d, h, b)) if any(x.comp is d.comp for x in procs.values()) else d.comp
    for f in fills:
        tm.reset(); fold.reset()
        eng = mk_engine(mods, c, lay, procs)
        st, o, T = rep_state(eng, c, lay, d, f, alg, fn)
        h0 = read_h(eng, st, o, c, lay, d)
        pend = [SW(rd(eng, st, o, lay['buffer'] + i, 1)) for i in range(f)]
        oo = eng.new_obj(st, 'out', d.outbytes, True, None, 'arg')
        res = eng.call(st, f'Ra{prefix}Final', [Ptr(o, 0), Ptr(oo, 0)])
        nm = f'Ra{prefix}Final {tag} with {f} pending bytes'
        exp = spec_final(d, comp, h0, pend, T)
        if not res: raise Fail('vacuous', nm)
        for ret, s in res:
            got = out_bytes(eng, s, oo, d.outbytes)
            bad = [i for i in range(d.outbytes) if got[i] != exp[i].b]
            ok = not bad
            ctx.ob(nm + ': output is the digest of the represented message', ok, f'output bytes {bad} differ', n=d.outbytes)
        ctx.absorb(eng)

def prove_oneshot(ctx, c, mods, lay, procs, name, d, rs):
    comp = (lambda h, b: uf_comp(d, h, b)) if any(x.comp is d.comp for x in procs.values()) else d.comp
    Bk = d.block
    for r in rs:
        tm.reset(); fold.reset()
        eng = mk_engine(mods, c, lay, procs)
        st = State()
        setsym(eng, st, 'q', 0, (LMAX - r) // Bk, 32)
        ln = L(32, {'q': Bk}, r)
        do = data_obj(eng, st, L(64, ln.d, ln.c))
        oo = eng.new_obj(st, 'out', d.outbytes, True, None, 'arg')
        res = eng.call(st, f'Ra{name}', [Ptr(do, 0), ln, Ptr(oo, 0)])
        sp = Sp(eng, d, comp, c, lay)
        if not res: raise Fail('vacuous', name)
        for ret, s in res:
            qlo, qhi = s.rng['q']
            h = [SW(tm.const_bits(v, d.ww)) for v in d.iv]
            if qlo >= 1: h = sp.fold(s, h, do, 0, L(64, {'q': 1}, 0))
            elif qhi > 0: raise Unsupported('undecided number of blocks')
            pend = [dbyte(eng, s, do, L(64, {'q': Bk}, i) if qlo >= 1 else i) for i in range(r)]
            T = tuple(eng.L2B(ln, 32)) + (0,) * 96 if qlo >= 1 else tm.const_bits(r, 128)
            exp = spec_final(d, comp, h, pend, T)
            got = out_bytes(eng, s, oo, d.outbytes)
            bad = [i for i in range(d.outbytes) if got[i] != exp[i].b]
            ctx.ob(f'Ra{name} for every message of {Bk}q+{r} bytes', not bad, f'output bytes {bad} differ', n=d.outbytes)
        ctx.absorb(eng)

def prove_init(ctx, c, mods, lay, procs, alg, d, prefixes):
    """Init establishes the invariant for the empty message; returns the implementation pointers it can select"""
    fns = []
    names = [(f'Ra{c.name}Init', [lay[alg]] if alg else [])]
    for p in prefixes:
        if p != c.name: names.append((f'Ra{p}Init', []))
    for fnm, extra in names:
        tm.reset(); fold.reset()
        eng = mk_engine(mods, c, lay, procs)
        st = State()
        o = ctx_obj(eng, st, c, lay)
        for ret, s in eng.call(st, fnm, [Ptr(o, 0)] + extra):
            h = read_h(eng, s, o, c, lay, d)
            ctx.ob(f'{fnm} {alg or ""}: initial chaining value', all(tm.as_const(w.b) == v for w, v in zip(h, d.iv)), n=len(h))
            ctx.ob(f'{fnm} {alg or ""}: counter is zero', tm.as_const(total_bits(eng, s, o, c, lay, d)) == 0)
            if 'alg' in lay: ctx.ob(f'{fnm} {alg}: algorithm recorded', tm.as_const(rd(eng, s, o, lay['alg'], 4)) == lay[alg])
            if 'fn' in lay:
                x = s.mem[o.id].get(lay['fn'])
                if not (isinstance(x, tuple) and x[0] == 'p' and isinstance(x[1], Fn)): raise Fail('init', 'no implementation selected')
                if x[1] not in fns: fns.append(x[1])
        ctx.absorb(eng)
    return fns or [None]

def worker(a):
    pid, tier, kind, args = a
    from irv import check
    sub = check.Ctx(pid, tier)
    c, mods, lay, procs = CFG[pid], _G['mods'], _G['lay'], _G['procs']
    f = {'update': prove_update, 'final': prove_final, 'oneshot': prove_oneshot}[kind]
    if args[-1] == 'fn':
        pass
    sub.proof(f'{kind} {args[-2:] if kind == "oneshot" else args[2:3]}', lambda: f(sub, c, mods, lay, procs, *args))
    sub.solver_s += smt.STAT['s']
    return sub

_G = {}

def chunks(l, n):
    k = max(1, (len(l) + n - 1) // n)
    return [l[i:i + k] for i in range(0, len(l), k)]

def prove(ctx):
    c = CFG[ctx.pid]
    mods = front.build_ir(c.mods)
    lay = layout(c)
    procs = find_procs(ctx, c, mods, lay)
    _G.update(mods=mods, lay=lay, procs=procs)
    jobs = []
    for i, (alg, sname, prefixes) in enumerate(c.algs):
        d = ds.D[sname]
        has = any(x.comp is d.comp for x in procs.values())
        fns = prove_init(ctx, c, mods, lay, procs, alg, d, prefixes)
        if 'fn' in lay:
            for x in fns:
                ctx.ob(f'{x.name.split("#")[0]} selected by Init satisfies the compression contract', x.name.split('#')[0] in procs and procs[x.name.split('#')[0]].comp is d.comp, x.name)
        if has: fills = list(range(d.block))
        else:
            fills = [0, 1, d.block - d.lenbytes - 1, d.block - 1]
            ctx.bounded.append(f'{sname}: no function satisfies the compression contract on its own; the update and final contracts were checked with the compression inlined for fill levels {fills}')
        for fn in (fns[:1] if has and all(x.name.split('#')[0] in procs for x in fns if x) and ctx.tier == 'quick' else fns):
            for p in prefixes:
                tag = f'{alg or ""} {fn.name.split("#")[0] if fn else ""}'.strip()
                for ch in chunks(fills, 4 if d.block < 128 else 8):
                    jobs.append((ctx.pid, ctx.tier, 'update', (alg, d, p, fn, ch, tag)))
                    jobs.append((ctx.pid, ctx.tier, 'final', (alg, d, p, fn, ch, tag)))
    for name, sname in c.oneshots:
        d = ds.D[sname]
        has = any(x.comp is d.comp for x in procs.values())
        rs = list(range(d.block)) if has else [0, 1, d.block - 1]
        for ch in chunks(rs, 6): jobs.append((ctx.pid, ctx.tier, 'oneshot', (name, d, ch)))
    import multiprocessing as mp
    with mp.get_context('fork').Pool(8) as pool:
        for sub in pool.imap_unordered(worker, jobs): merge(ctx, sub); ctx.bounded += sub.bounded
    ctx.notes.append('Update: every fill level x every length 0..2^31-1 (two symbolic cases each, the block loop by the fold rule); Final: every fill level and every total length; the digest of any chunked message follows by induction over the calls')
    ctx.assume('the data passed to Update does not overlap the context', 'CPU is little-endian and the build is the configuration CMake selects here')
    if ctx.pid in ('C13', 'C14'): ctx.assume('cpuid may report any feature set: both the SHA-NI and the portable compression are verified; SHA-NI instructions are modelled after the Intel SDM',
                                             'inline assembly operands: the compiler honours the operand constraints (the asm modifies input registers without declaring it)')

# ---------------------------------------------------------------- concrete
def search(pid, seconds, seed):
    c = CFG[pid]
    lay = layout(c)
    nat = native.Native()
    evals = 0
    try:
        for variant in (['asm', 'noasm'] if pid in ('C13', 'C14') else ['asm']):
            so = nat.lib(variant)
            def run(report, so=so, variant=variant):
                Lb = native.Lib(so); V = ctypes.c_void_p
                rnd = random.Random(seed)
                end = time.time() + seconds
                n = c.name
                it = 0
                def F(name, *a):
                    f = getattr(Lb.l, name); f.restype = None; f.argtypes = list(a); return f
                while time.time() < end:
                    for alg, sname, prefixes in c.algs:
                        d = ds.D[sname]; p = prefixes[it % len(prefixes)]
                        cx = native.Guarded(lay['size'], fill=0xEE if it & 1 else 0)
                        if p == n: F(f'Ra{n}Init', V, *([ctypes.c_int] if alg else []))(cx.addr, *([lay[alg]] if alg else []))
                        else: F(f'Ra{p}Init', V)(cx.addr)
                        upd, fin = F(f'Ra{p}Update', V, V, ctypes.c_int), F(f'Ra{p}Final', V, V)
                        # preset a large total (a multiple of the block) through the public struct on some rounds
                        total = 0
                        mode = it % 6
                        if mode in (3, 4, 5) and d.lenbytes:
                            w = 64 if d.lenbytes == 8 else 128
                            total = rnd.choice([1 << 32, (1 << 32) - d.block, 1 << 29, (1 << 29) - d.block, 1 << 61, (1 << 61) - d.block, rnd.getrandbits(61),
                                                (1 << 60) + (1 << 35), rnd.getrandbits(w - 3), ((1 << 64) - d.block) if w == 128 else (1 << 31)]) & ((1 << (w - 3)) - 1) & ~(d.block - 1)
                            t = total
                            ctypes.memmove(cx.addr + lay['l'], (t & 0xffffffff).to_bytes(4, 'little'), 4)
                            ctypes.memmove(cx.addr + lay['hh'], (t >> 32 & 0xffffffff).to_bytes(4, 'little'), 4)
                            if w == 128: ctypes.memmove(cx.addr + lay['hhh'], (t >> 64).to_bytes(8, 'little'), 8)
                        ln = [rnd.randrange(0, 3 * d.block), rnd.choice([0, 1, d.block - 1, d.block, d.block + 1, 2 * d.block, 2 * d.block - 1, d.block - d.lenbytes, d.block - d.lenbytes - 1, d.block - d.lenbytes + 1]),
                              rnd.randrange(0, 6 * d.block)][it % 3]
                        msg = rnd.randbytes(ln) if it % 4 else bytes([rnd.choice((0, 255, 0x80))]) * ln
                        cuts = sorted(rnd.randrange(0, ln + 1) for _ in range(rnd.choice((0, 0, 1, 2, 3, 5))))
                        parts = [msg[a:b] for a, b in zip([0] + cuts, cuts + [ln])]
                        report(dict(digest=sname, variant=variant, function=p, parts=[x.hex() for x in parts], preset_total=total))
                        for x in parts:
                            g = native.Guarded(len(x), data=x); upd(cx.addr, g.addr, len(x))
                        out = native.Guarded(d.outbytes + 8, fill=0xA7)
                        fin(cx.addr, out.addr)
                        got = out.get()
                        exp = ds.digest(sname, msg, total=total)
                        if got[:d.outbytes] != exp or got[d.outbytes:] != b'\xa7' * 8:
                            return dict(what=f'{sname} of a message in {len(parts)} calls differs from {c.std}' if got[:d.outbytes] != exp else 'the digest is written past its length',
                                        variant=variant, function=p, parts=[x.hex() for x in parts], preset_total=total, got=got.hex(), expected=exp.hex())
                        if it % 2 == 0:
                            for o, s in c.oneshots:
                                if s == sname:
                                    out = native.Guarded(d.outbytes, fill=0)
                                    g = native.Guarded(ln, data=msg); F(f'Ra{o}', V, ctypes.c_int, V)(g.addr, ln, out.addr)
                                    if out.get() != ds.digest(sname, msg): return dict(what=f'Ra{o} of a message differs from {c.std}', variant=variant, message=msg.hex(), got=out.get().hex(), expected=ds.digest(sname, msg).hex())
                    it += 1
                return None
            n, v = native.forked(run, seconds + 30)
            evals += n
            if v is not None: return evals, v
        return evals, None
    finally: nat.close()

def check(ctx):
    ctx.proof('digest contracts', lambda: prove(ctx))
    try:
        ctx.evals, ctx.violation = search(ctx.pid, 4 if not ctx.failed else 60, ctx.seed)
    except front.ExtractError as e:
        ctx.ob('native build', False, str(e))
    return 'proof'
