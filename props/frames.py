"""C31: every byte of an object is zero when its storage is released, in the optimised code; C33: no function touches memory other than
its arguments' and its own (frame contracts)."""
import z3
from irv import front
from irv.hv import Engine, State, Obj, Ptr, Fn, Viol, Unsupported, UNDEF, issym

def wipe(ctx):
    mods = front.build_ir(None, defs=['-DNDEBUG'], passes='default<O2>', tolerant=True)
    q = {'bn': 'sizeof(struct RaBigNumber)', 'bn.max': 'offsetof(struct RaBigNumber,max_length)', 'word': 'sizeof(bn_uint_t)', 'rnd': 'sizeof(struct RaRandom)'}
    T = {}
    for n in ('Aes', 'Des', 'Seed', 'Aria', 'Blowfish', 'Rc4', 'Md2', 'Md4', 'Md5', 'Sha1', 'Sha2', 'Has160'): q[n] = f'sizeof(struct Ra{n}Ctx)'; T[f'Ra{n}Destroy'] = n
    lay = front.layout(q)
    size = {t: lay[n] for t, n in T.items()}
    size['RaRandomDestroy'] = lay['rnd']
    for fn, s in (('RaMontDestroy', '%struct.RaMontCtx'), ('RaRsaDestroyKeyPair', '%struct.RaRsaKeyPair')):
        for m in mods.values():
            if s in m.types: size[fn] = m.size(m.types[s])
        if fn not in size: ctx.ob(f'{fn}: storage', False, 'the object type is not found')
    size['BnClearFree'] = None
    con = {n: (lambda eng, st, a, site: [(None, st)]) for n in size}
    def nofree(eng, st, a, site): raise Viol('parts of an object are wiped before they are released', f'{site} releases a number without wiping it')
    con['BnFree'] = nofree
    for x in ('explicit_bzero', 'memset_explicit'): con[x] = lambda eng, st, a, site: eng.memset(st, a[0], 0, a[1])
    for t, n in sorted(size.items()):
        def go(t=t, n=n):
            eng = Engine(mods, {k: v for k, v in con.items() if k != t}, {})
            freed = []
            def on_free(e, st, p):
                o = st.objs.get(p.o)
                if o is None: return
                left = [(k, c) for k, c in o.cells.items() if isinstance(k, int) and not (isinstance(c[1], int) and c[1] == 0)]
                e.ob(st, 'every byte is zero when the storage is released', o.default == 'zero' and not left,
                     f'{t}: {"bytes " + str(sorted(k for k, c in left)[:8]) + " still hold data" if o.default == "zero" else "not all bytes are overwritten"}')
                freed.append(p.o)
            eng.on_free = on_free
            def build(e):
                st = State()
                if n is None:
                    mx = e.fresh(32, 'max'); st.pc += [mx >= 1, mx <= 1 << 26]
                    p = e.new(st, 'arg', 'mem', z3.simplify(z3.SignExt(32, mx) * lay['word'] + lay['bn']), 'fresh', True)
                    st.w(p.o).cells[lay['bn.max']] = (4, mx)
                else: p = e.new(st, 'arg', 'mem', n, 'fresh', True)
                return st, t, [p]
            def post(e, r, st): e.ob(st, 'the storage is released', not e.live(st), t)
            eng.verify(build, post)
            for k, v in eng.obs.items(): ctx.ob(f'{t}: {k}', True, n=v, backend='irv hv engine (symbolic execution of the -O2 code, z3)')
            ctx.functions.add(t); ctx.solver_s += eng.solver_time
        hvproof(ctx, t, go)
    ctx.assume('C31 is decided on clang 18 -O2 code of the sources: whether another compiler removes a wipe is covered by the stores being volatile in the source (seen as surviving in that code) and by concrete runs of a gcc -O2 build that inspect released memory',
               'intermediate copies on the stack and in registers are outside the property (it speaks of the object\'s storage)')

def hvproof(ctx, name, fn):
    def go():
        try: return fn()
        except Viol as e: ctx.ob(f'{name}: {e.what}', False, e.msg)
        except Unsupported as e: ctx.ob(name, False, f'the verifier cannot process the changed code: {e}'); ctx.undecided.append(name)
    return ctx.proof(name, go)

PURE = set('''malloc calloc realloc free memcpy memmove memset memcmp strlen abort __assert_fail explicit_bzero open read close clock_gettime times sysconf
log log2 pow sqrt ceil floor ldexp time getrandom'''.split())
def frames(ctx):
    mods = front.build_ir(None, defs=['-DNDEBUG'], tolerant=True)
    defined = {n for m in mods.values() for n in m.funcs}
    BE = 'irv frame checker (provenance of every written address)'
    mutable = {(b, g) for b, m in mods.items() for g, v in m.globals.items() if not v[2] and v[1] is not None}
    ext = {(b, g) for b, m in mods.items() for g, v in m.globals.items() if v[1] is None}
    # parameters a function may write through (directly or by passing on)
    writes = {}
    def resolve(b, name):
        m = mods[b]
        if name in m.funcs: return (b, name)
        for b2, m2 in mods.items():
            if name in m2.funcs and not m2.funcs[name].internal: return (b2, name)
        return None
    info = {}
    for b, m in mods.items():
        for n, f in m.funcs.items():
            roots = {}
            for i, (t, pn) in enumerate(f.params):
                if pn: roots[pn] = {('param', i)}
            def val(v):
                k = v[0]
                if k == 'l': return roots.get(v[1], set())
                if k == 'g': return {('global', v[1])} if v[1] not in defined and v[1] not in m.decls else {('fn', v[1])}
                if k in ('gepc', 'gep'): return val(v[2])
                if k == 'cast': return val(v[-1])
                if k in ('c', 'z', 'u', 'undef', 'poison', 'null'): return set()
                return {('other', str(v)[:40])}
            ch = True
            bad = []
            while ch:
                ch = False
                for bl in f.blocks.values():
                    for i in bl:
                        op = i[0]; r = None
                        if op == 'bad': bad.append(i[1]); continue
                        if op == 'gep': r = val(i[3])
                        elif op == 'phi': r = set().union(*[val(v) for v, l in i[3]]) if i[2] == ('ptr',) else None
                        elif op == 'select': r = val(i[4]) | val(i[5]) if i[3] == ('ptr',) else None
                        elif op == 'cast': r = val(i[4]) if i[5] == ('ptr',) or i[3] == ('ptr',) else None
                        elif op == 'alloca': r = {('own', i[1])}
                        elif op == 'load': r = {('mem',)} if i[2] == ('ptr',) else None
                        elif op == 'call' and i[2] == ('ptr',): r = {('heap',)} if i[3][1] in ('malloc', 'calloc', 'realloc') else {('result', i[3][1])}
                        if r is not None and i[1] and roots.get(i[1], set()) | r != roots.get(i[1], set()): roots[i[1]] = roots.get(i[1], set()) | r; ch = True
            info[b, n] = (f, roots, val, sorted(set(bad)))
            writes[b, n] = set()
    def targets(b, n):
        f, roots, val, bad = info[b, n]
        for bl in f.blocks.values():
            for i in bl:
                if i[0] == 'store': yield i, val(i[3])
                elif i[0] == 'call':
                    c = i[3][1]
                    if i[3][0] == 'g' and (c.startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')) or c in ('memset', 'memcpy', 'memmove', 'explicit_bzero')): yield i, val(i[4][0][1])
                    elif i[3][0] == 'g':
                        r = resolve(b, c)
                        if r:
                            for k, (t, v) in enumerate(i[4]):
                                if k in writes[r] and t == ('ptr',): yield i, val(v)
                        elif not c.startswith('llvm.') and c not in ('memcmp', 'free', 'open'):
                            for t, v in i[4]:
                                if t == ('ptr',): yield i, val(v)
                    else:
                        for t, v in i[4]:
                            if t == ('ptr',): yield i, val(v)
    ch = True
    while ch:
        ch = False
        for k in info:
            w = {r[1] for _, rs in targets(*k) for r in rs if r[0] == 'param'}
            if not w <= writes[k]: writes[k] |= w; ch = True
    public, internal = set(), set()
    import re, glob
    for h in glob.glob(front.REPO + '/src/include/*.h'): public |= set(re.findall(r'\b(\w+)\s*\(', open(h, errors='replace').read()))
    # pairs (argument, argument) such that the first is stored in memory the second leads to
    keeps = {k: set() for k in info}
    def pairs(src, dst, f):
        for r in src:
            if r[0] != 'param' or r in dst: continue
            for d in dst:
                if d[0] == 'param': yield (r[1], d[1])
                elif d[0] in ('mem', 'result'): yield (r[1], None)
                elif d[0] == 'heap': yield (r[1], 'heap')
    ch = True
    while ch:
        ch = False
        for k, (f, roots, val, bad) in info.items():
            new = set()
            for bl in f.blocks.values():
                for i in bl:
                    if i[0] == 'store' and i[1] == ('ptr',): new |= set(pairs(val(i[2]), val(i[3]), f))
                    elif i[0] == 'call' and i[3][0] == 'g':
                        r = resolve(k[0], i[3][1])
                        if r and r[0] != 'asn1':
                            for s, d in keeps[r]:
                                src = val(i[4][s][1]); dst = val(i[4][d][1]) if isinstance(d, int) else {('mem',) if d is None else (d,)}
                                new |= set(pairs(src, dst, f))
            if not new <= keeps[k]: keeps[k] |= new; ch = True
    def fnptr(f, i): return False
    keep = []
    for (b, n), (f, roots, val, bad) in sorted(info.items()):
        ctx.functions.add(n)
        ctx.ob(f'{n}: instructions understood', not bad, '; '.join(bad[:3]), BE)
        wr = [r for i, rs in targets(b, n) for r in rs if r[0] == 'global' and True]
        hit = sorted({r[1] for r in wr})
        ctx.ob(f'{n}: writes only what its arguments lead to, its own variables and fresh storage', not hit, f'writes through file-scope objects {hit}', BE)
        esc, unk = [], []
        for bl in f.blocks.values():
            for i in bl:
                if i[0] == 'store' and i[1] == ('ptr',):
                    for r in val(i[2]):
                        if r[0] == 'global' and ((b, r[1]) in mutable or (b, r[1]) in ext): esc.append(r[1])
                if i[0] == 'ret' and i[1] == ('ptr',):
                    for r in val(i[2]):
                        if r[0] == 'global' and ((b, r[1]) in mutable or (b, r[1]) in ext): esc.append(r[1])
                if i[0] == 'cast' and i[2] == 'inttoptr': unk.append('an address made from an integer')
                if i[0] == 'call' and i[3][0] == 'g' and not i[3][1].startswith('llvm.') and not resolve(b, i[3][1]) and i[3][1] not in PURE:
                    if not any(i[3][1] in x for x in ASM): unk.append('calls ' + i[3][1])
        ctx.ob(f'{n}: shared variables do not escape', not esc, f'addresses of {sorted(set(esc))} are stored', BE)
        ctx.ob(f'{n}: no hidden state outside the library', not unk, f'{sorted(set(unk))}', BE)
        if n in public and b not in internal:
            st = sorted({f.params[p][1] for p, d in keeps[b, n]})
            ctx.ob(f'{n}: arguments are not kept', not st, f'{st} stored beyond the call', BE)
    # shared variables that exist: read only, never written (checked above); listed
    ctx.notes.append('file-scope objects that are not const: ' + (', '.join(f'{b}.{g}' for b, g in sorted(mutable)) or 'none') + '; every other file-scope object is constant data')
    ctx.assume('ASN.1 parse contexts, which point into the bytes being read, are released before the key-reading call returns (resource contracts of C32)',
               'memory is reached only through pointers that were handed in, allocated, or stored in such memory (C pointer provenance); malloc/free are thread-safe and give disjoint storage',
               'the assembly kernels (AES-NI, SHA) and cpu detection write only the context and output they are given: decided for the kernels in C02/C12/C13, assumed for the detection',
               'RaRandomCreate without a seed reads the operating system\'s generator, which is meant to differ')
ASM = []
