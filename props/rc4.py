"""C06: RC4.  Contracts: Init = the key schedule of the standard for every key of 1..256 bytes; Encrypt/Decrypt of any
length = that many steps of the output generator from the state in the context (x, y, S arbitrary)."""
import ctypes, random, time
from irv import terms as tm, front, native, fold, smt, arr
from irv.terms import Unsupported
from irv.sym import Engine, State, Ptr, B, L, Fail
from irv.w import SW, svar
from .blockcipher import byte_obj, merge
from .digest import setsym
from .modes import leq, put

def layout():
    t = 'struct RaRc4Ctx'
    return front.layout({'size': f'sizeof({t})', 'S': f'offsetof({t}, S)', 'x': f'offsetof({t}, x)', 'y': f'offsetof({t}, y)', 'xn': f'sizeof((({t}*)0)->x)'})

# ---- specification on forms
def add8(a, b): return tm.wadd(tuple(a), tuple(b))
def swap(S, x, y):
    a, b = arr.read(S, x), arr.read(S, y)
    return arr.write(arr.write(S, x, b), y, a)
def prga(S, x, y):
    x = add8(x, tm.const_bits(1, 8)); y = add8(y, arr.read(S, x))
    S = swap(S, x, y)
    return arr.read(S, add8(arr.read(S, x), arr.read(S, y))), S, x, y
def ksa(key):
    S = arr.define('c', tuple(tm.const_bits(i, 8) for i in range(256)), ())
    y = tm.const_bits(0, 8)
    for i in range(256):
        ii = tm.const_bits(i, 8)
        y = add8(add8(y, arr.read(S, ii)), key[i % len(key)])
        S = swap(S, ii, y)
    return S

def arr_eq(f, g, pc=()):
    if f == g: return True
    x = smt.X()
    r, _ = smt.solve(x.arr(f, 8) != x.arr(g, 8), [x.bool(z) for z in pc], 20000)
    return r == 'unsat'

def engine(mods):
    eng = Engine(list(mods.values())); eng.fold_hook = fold.fold_hook
    return eng

def prove_init(ctx, mods, lay, lens):
    for kl in lens:
        tm.reset(); fold.reset()
        eng = engine(mods)
        st = State()
        c = eng.new_obj(st, 'ctx', lay['size'], True, None, 'arg')
        ko = byte_obj(eng, st, 'key', svar('key', max(kl, 1))) if kl else None
        res = eng.call(st, 'RaRc4Init', [Ptr(c, 0), Ptr(ko, 0) if ko else 0, kl])
        spec = ksa([w.b for w in svar('key', kl)] if kl else [tm.const_bits(0, 8)])
        for _, s in res:
            got = s.arr.get(c.id)
            if got is None:
                g = arr.define('c', tuple(tuple(eng.byte_bits(eng.read_byte(s, c, lay['S'] + i))) for i in range(256)), ())
                ok = all(arr.read(g, tm.const_bits(i, 8)) == arr.read(spec, tm.const_bits(i, 8)) for i in range(256))
            else: ok = got[0] == lay['S'] and got[1] == 256 and got[2] == spec
            ctx.ob(f'RaRc4Init: key schedule for every key of {kl} bytes', ok, 'the permutation differs from the standard key schedule', n=256)
            z = [eng.load(s, Ptr(c, lay[k]), lay['xn'], 8 * lay['xn']) for k in ('x', 'y')]
            ctx.ob(f'RaRc4Init: both indices start at 0 ({kl}-byte key)', z == [0, 0], f'{z}', n=2)
        ctx.absorb(eng)

def prove_crypt(ctx, mods, lay, fn):
    for case in ('none', 'some'):
        tm.reset(); fold.reset()
        eng = engine(mods)
        st = State()
        c = eng.new_obj(st, 'ctx', lay['size'], True, None, 'arg')
        S0 = tm.atom(('v', 'S', 0))
        st.arr[c.id] = (lay['S'], 256, S0)
        xn = lay['xn']
        x0, y0 = tm.var('x', 8), tm.var('y', 8)
        for k, b in (('x', x0), ('y', y0)):
            for i in range(xn): st.wcells(c.id)[lay[k] + i] = b if i == 0 else 0
        if case == 'none': setsym(eng, st, 'n', -(1 << 31), 0, 32)
        else: setsym(eng, st, 'n', 1, (1 << 31) - 1, 32)
        ln = L(32, {'n': 1}, 0)
        size = L(64, {'n': 1}, 0) if case == 'some' else 0
        do = eng.new_obj(st, 'data', size, False, lambda s, o, off: tm.var(f'data@{off if isinstance(off, int) else (tuple(sorted(off.d.items())), off.c)}', 8), 'arg')
        oo = eng.new_obj(st, 'out', size, True, None, 'arg')
        # the generic step of the code is compared with the specification's; equal ones are named alike
        used = set()
        px = fold.ph_bits(x0, 'x', used); py = fold.ph_bits(y0, 'y', used)
        pS = tm.atom(('v', '$a:ctx', 0))
        def spec_step(eng, lpo, names, inits):
            o, S1, x1, y1 = prga(pS, px, py)
            want = dict(zip(px, x1)); want.update(zip(py, y1))
            if pS not in names or any(p not in names for p in want): return
            ok = [names[p] for p in want] == [want[p] for p in want] or smt.equal(tuple(names[p] for p in want), tuple(want[p] for p in want))[0] is True
            ok2 = arr_eq(names[pS], S1)
            if ok: names.update(want)
            if ok2: names[pS] = S1
            eng.ob('rc4-step')
        eng.fold_spec = [spec_step]
        res = eng.call(st, fn, [Ptr(c, 0), Ptr(do, 0), ln, Ptr(oo, 0)])
        if not res: raise Fail('vacuous', fn)
        for ret, s in res:
            o, S1, x1, y1 = prga(pS, px, py)
            names = dict(zip(px, x1)); names.update(zip(py, y1)); names[pS] = S1
            inits = dict(zip(px, x0)); inits.update(zip(py, y0)); inits[pS] = S0
            at = lambda n: [f if False else fold.fold_value(names, inits, p, n) for p in list(px) + list(py) + [pS]]
            if case == 'none': fin = list(x0) + list(y0) + [S0]
            else: fin = at(({'n': 1}, 0))
            if case == 'none':
                ctx.ob(f'{fn} with no bytes: nothing happens', leq(eng, s, ret, 0), f'returned {ret}')
            else:
                s2 = s.copy(); setsym(eng, s2, 'm', 0, (1 << 31) - 2, 32)
                eng.add_lin(s2, (('m', 1), ('n', -1)), 1, 'le')
                v = at(({'m': 1}, 0))
                ks = prga(v[16], tuple(v[:8]), tuple(v[8:16]))[0]
                d = eng.byte_bits(eng.read_byte(s2, do, L(64, {'m': 1}, 0)))
                got = tuple(eng.byte_bits(eng.read_byte(s2, oo, L(64, {'m': 1}, 0))))
                want = tm.wxor(tuple(ks), tuple(d))
                ok = got == want or smt.equal(got, want, s2.pc)[0] is True
                ctx.ob(f'{fn}: output byte m is input byte m XOR keystream byte m, every m < n', ok, 'differs from the standard generator', n=8, backend='irv canonical terms')
                ctx.ob(f'{fn}: returns n', leq(eng, s, ret, ln), f'returned {ret}')
            a = s.arr[c.id]
            xy = []
            for k in ('x', 'y'): xy += list(eng.bits(eng.load(s, Ptr(c, lay[k]), xn, 8 * xn), 8 * xn))
            want = list(fin[:8]) + [0] * (8 * xn - 8) + list(fin[8:16]) + [0] * (8 * xn - 8)
            ctx.ob(f'{fn} ({case}): indices and permutation after n bytes are those of n generator steps', tuple(a) == (lay['S'], 256, fin[16]) and xy == want, 'the state kept in the context differs', n=256 + 2)
        ctx.absorb(eng)

def worker(a):
    pid, tier, kind, args = a
    from irv import check
    sub = check.Ctx(pid, tier)
    f = {'init': prove_init, 'crypt': prove_crypt}[kind]
    sub.proof(f'{kind} {args}', lambda: f(sub, _G['mods'], _G['lay'], *args))
    sub.solver_s += smt.STAT['s']
    return sub
_G = {}

def prove(ctx):
    _G.update(mods=front.build_ir(['rc4']), lay=layout())
    jobs = [(ctx.pid, ctx.tier, 'crypt', (f,)) for f in ('RaRc4Encrypt', 'RaRc4Decrypt')]
    for i in range(32): jobs.append((ctx.pid, ctx.tier, 'init', (list(range(i, 257, 32)),)))
    import multiprocessing as mp
    with mp.get_context('fork').Pool(8) as pool:
        for sub in pool.imap_unordered(worker, jobs): merge(ctx, sub)
    ctx.notes.append('key schedule: every key of every length 1..256 (and the documented empty key); generator: arbitrary state and every length by the fold rule; chunk independence follows because the state after a call is that of n steps')
    ctx.assume('input and output do not overlap partially, nor the context (in-place use is separate)')

def search(pid, seconds, seed):
    lay = layout(); nat = native.Native()
    V, I = ctypes.c_void_p, ctypes.c_int
    try:
        so = nat.lib('asm')
        def run(report):
            Lb = native.Lib(so); rnd = random.Random(seed); end = time.time() + seconds; it = 0
            def F(name, r, *a):
                f = getattr(Lb.l, name); f.restype = r; f.argtypes = list(a); return f
            while time.time() < end:
                kl = rnd.choice([1, 2, 5, 16, 255, 256, rnd.randrange(1, 257)])
                key = rnd.randbytes(kl) if it % 5 else bytes(kl)
                S = list(range(256)); y = 0
                for i in range(256): y = (y + S[i] + key[i % kl]) & 255; S[i], S[y] = S[y], S[i]
                x = y = 0
                n = rnd.choice([1, 255, 256, 257, 600, rnd.randrange(1, 3000)])
                cuts = sorted(rnd.randrange(0, n + 1) for _ in range(rnd.choice((0, 1, 2, 5))))
                data = rnd.randbytes(n)
                parts = [data[a:b] for a, b in zip([0] + cuts, cuts + [n])]
                case = dict(key=key.hex(), parts=[len(p) for p in parts], data=data.hex())
                report(case)
                cx = native.Guarded(lay['size'], fill=0xEE); k = native.Guarded(kl, data=key)
                F('RaRc4Init', None, V, V, I)(cx.addr, k.addr, kl)
                off = 0
                for j, p in enumerate(parts):
                    inpl = rnd.random() < 0.3
                    i = native.Guarded(len(p), data=p); o = i if inpl else native.Guarded(len(p), fill=0)
                    r = F('RaRc4' + rnd.choice(('En', 'De')) + 'crypt', I, V, V, I, V)(cx.addr, i.addr, len(p), o.addr)
                    w = bytearray()
                    for b in p:
                        x = (x + 1) & 255; y = (y + S[x]) & 255; S[x], S[y] = S[y], S[x]; w.append(b ^ S[(S[x] + S[y]) & 255])
                    if r != len(p): return dict(what=f'call {j} returned {r} for {len(p)} bytes', **case)
                    if o.get() != bytes(w): return dict(what=f'output of call {j} differs from RC4', got=o.get().hex()[:200], expected=bytes(w).hex()[:200], **case)
                it += 1
            return None
        return native.forked(run, seconds + 30)
    finally: nat.close()

def check(ctx):
    ctx.proof('RC4 contracts', lambda: prove(ctx))
    try: ctx.evals, ctx.violation = search(ctx.pid, 4 if not ctx.failed else 60, ctx.seed)
    except front.ExtractError as e: ctx.ob('native build', False, str(e))
    return 'proof'
