"""C23..C33: properties of whole objects (keys, generators, contexts).  Obligations where contracts reach, a labelled bounded search beside them."""
from irv import front, check as chk
from . import objnat, frames, jobs, hvres

def prove(ctx):
    p = ctx.pid
    if p == 'C31': frames.wipe(ctx)
    elif p == 'C33': frames.frames(ctx)
    elif p == 'C23': gcd(ctx)
    elif p == 'C32': resources(ctx)
    elif p == 'C25': rsa(ctx)
    elif p == 'C28': stream(ctx)
    elif p == 'C24': power(ctx)
    elif p == 'C29': sizes(ctx)
    elif p == 'C26': parsing(ctx, ('RaRsaCreateKeyPub', 'RaRsaCreateKeyPriv', 'RaRsaCreateKeyFromByteArray', 'RaRsaNewASN1Integer'))
    elif p == 'C27': parsing(ctx, ('RaRsaPubKeyToByteArray', 'RaRsaPrivKeyToByteArray'))
    elif p == 'C30': primality(ctx)
    for f, why in BOUNDED.get(p, {}).items(): ctx.bounded.append(f'{f}: {why}'); ctx.trusted_funcs |= set(f.split(', '))
NDEBUG = 'verified with NDEBUG (an assert(0) precedes each reported error in debug builds)'
def gcd(ctx):
    from . import vl
    mods = front.build_ir(['gcd'], defs=['-DNDEBUG'], tolerant=True); lay = hvres.layout()
    V = [(0, 1, ()), (1, 1, ()), (1, 0, ()), (1, 0, (0,)), (1, 0, (1,)), (1, 0, (2,)), (1, 0, (0, 1)), (1, 0, (0, 2)), (1, 0, (1, 2)), (1, 1, (0,))]
    if ctx.tier == 'quick': V = [v for v in V if v[2] in ((), (0,), (2,), (0, 2)) and v != (1, 1, (0,))]
    def item(ex, sg, nl):
        f = 'GetGCDEx' if ex else 'GetGCD'
        nm = f + (' signed' if sg else ' unsigned') * ex + (f' without output {nl}' if nl else '')
        def go():
            e, n = vl.gcd_spec(mods, lay, ex, sg, nl); return dict(e.obs), {f}
        return nm, f, go
    Z = [(ex, z) for ex in (0, 1) for z in ((0, None), (None, 0))]
    def zero(ex, z):
        f = 'GetGCDEx' if ex else 'GetGCD'
        def go():
            e, n = vl.gcd_zero(mods, lay, ex, z); return dict(e.obs), {f}
        return f'{f} with operand {0 if z[0] == 0 else 1} zero', f, go
    jobs.run(ctx, [item(*v) for v in V if v[0]] + [item(*v) for v in V if not v[0]] + [zero(*z) for z in Z])
    ctx.assume(NDEBUG, 'the results of BnMul, BnSub and BnSet inside GetGCDEx are not checked by the code: their destinations are assumed large enough (twice the longer operand)',
      'the contracts of BnDiv, BnMul, BnSub, BnAdd, BnSet, BnCmpUInt (checked by C16, C17, C18, C20) and the allocation contracts are used, not re-proved here', 'operands are positive; outputs are numbers of their own')
    ctx.notes.append('for all operands: the result divides into gcd by gcd(x, y) = gcd(y, x mod y) and gcd(x, 0) = x; Bezout and range invariants are found among templates and proved inductive')
    ctx.trusted_funcs |= {'BnDiv', 'BnMul'}
def lean(ctx, f, *thms):
    import subprocess, os
    p = os.path.join(chk.V, 'lean', f)
    try: r = subprocess.run(['lean', p], capture_output=True, text=True, timeout=300, cwd=os.path.join(chk.V, 'lean')); out = r.stdout + r.stderr; ok = r.returncode == 0
    except Exception as e: out, ok = str(e), False
    for t in thms: ctx.ob(f'lemma {t}', ok and f"'{t}' depends on axioms" in out and 'sorryAx' not in out, out[-500:], 'Lean 4 kernel with Mathlib')
def rsa(ctx):
    from . import rsav
    mods = front.build_ir(['rsa'], defs=['-DNDEBUG'], tolerant=True)
    jobs.run(ctx, rsav.items(mods))
    lean(ctx, 'RSA.lean', 'rsa_roundtrip')
    ctx.assume(NDEBUG, 'RaMontExpMod computes base^exponent mod N and reports failure otherwise (C24), the gcd functions satisfy C23, the big-number operations C16..C20; these contracts are used, not re-proved here',
      'a number accepted by RaIsPrimeNumber or produced by RaGenPrimeNumberEx is taken as prime in the round-trip lemma (C30: probabilistic)', 'the modulus object of a key was made from its modulus (established by RaRsaCreateKeyPair; RaRsaCreateKeyPub and RaRsaCreateKeyPriv make it from the parsed modulus)',
      'BnMul, BnSubInt and BnAddInt results that RaRsaCreateKeyPair and RaRsaVerifyKey do not check: destinations are assumed large enough')
    ctx.notes.append('encrypt, decrypt and sign: success exactly for 0 <= m < n (unless the exponentiation fails), result E(m, exponent, n); verify: success exactly when E(s, e, n) = m; generated and verified keys satisfy n = pq, ed = 1 mod (p-1)(q-1) and the CRT relations; the round trip follows by the Lean lemma')
    ctx.trusted_funcs |= {'RaMontExpMod', 'RaGenPrimeNumberEx', 'RaIsPrimeNumber'}
def stream(ctx):
    from . import rng
    rng.prove(ctx)
    ctx.assume('the digests are the published functions (C01, C10..C12) and keep no state outside their context (C33): a block is a function of the algorithm and of what was fed before',
      'min <= max for an integer drawn from a range', 'double is IEEE binary64, round to nearest')
    ctx.notes.append('the byte at stream position k is byte k mod L of block k div L: every request, of any length and at any position, delivers the next bytes in order and moves the cursor by their number; the cursor of a fresh block is its first byte')
def power(ctx):
    from . import mexp
    mexp.prove(ctx)
    ctx.assume(NDEBUG, 'contracts used, not proved here: MontMul(x, y) = x y / R mod N, MontSqr, MontSet(a) = a R mod N, MontREDC(a) = a / R mod N (R a power of two above N); bounded stand-in: see bounded',
      'the results of MontMul and MontSqr that RaMontExpMod does not look at are successes (their buffers are twice the length of N)', 'at least one word in an exponent')
    ctx.notes.append('RaMontExpMod: for exponents of any length and content the window and squaring schedule computes base^exponent; every bit is used exactly once; a base of more words is refused before it is used')
def primality(ctx):
    from . import rsav, mrab
    mods = front.build_ir(['prime'], defs=['-DNDEBUG'], tolerant=True)
    if 'CheckMillerRabin' in mods['prime'].funcs: jobs.run(ctx, rsav.smallprimes(mods))
    mrab.prove(ctx)
    ctx.assume(NDEBUG, 'RaMontExpMod computes powers modulo n (C24), comparisons and shifts are exact (C16, C19): these contracts are used, not proved here', 'the words of n - 1 above its factors of two are represented by two patterns each')
    ctx.notes.append('negative numbers, 0, 1, 2, 3 and even numbers: the verdict is right for every value; odd n > 3: prime exactly when every one of the rounds had a strong liar, composite exactly on a witness, bases drawn strictly between 1 and n - 1. A prime has no witness (Miller-Rabin), so it is never rejected')
def sizes(ctx):
    from . import bn
    bn.contracts(ctx)
    ctx.assume('the requested bits fit the number (otherwise the size error is reported)')
    ctx.notes.append('the random bytes are arbitrary: the results hold whatever the generator delivers')
def parsing(ctx, W):
    """every path of the functions W, over any byte string: no null, freed or uninitialised pointer is used and nothing is freed twice"""
    from . import res, restab
    from irv.hv import Viol, Unsupported
    mods = front.build_ir(None, defs=['-DNDEBUG'], tolerant=True)
    R = res.Res(mods); R.contracts = hvres.CON; items = []
    OWN = ('a failed allocation is reported', 'success leaves exactly', 'failure leaves', 'nothing stays allocated', 'everything the object owns')
    def run(n, a, kw):
        learn = ctx.pid == 'C27' and kw.get('learn') == 'key'       # what keys look like: from the functions that make them
        if n not in W and not learn or n not in R.fns: return
        if learn and n == 'RaRsaCreateKeyPair': return
        nm = f'{n}: memory safety of every path'
        def go():
            try: e, k = res.verify(R, n, a, **(kw if learn else dict(kw, learn=None)))
            except Viol as v:
                if v.what.startswith(OWN): return {'every path up to a violation of C32': 1}, {n}      # who owns what is C32's matter
                raise
            return dict(e.obs), {n}
        if learn: jobs_now(ctx, nm, n, go)
        else: items.append((nm, n, go))
    restab.table(R, run)
    jobs.run(ctx, items)
    ctx.assume(NDEBUG)
NATIVE = 'compared with an independent implementation on generated inputs (sizes and number of cases: see evaluations)'
BOUNDED = {
 'C24': {'RaMontCreate, MontMul, MontSqr, MontREDC, MontSet': 'not under contract; bounded stand-in: the compiled functions are compared with Python pow() on random and edge-biased odd moduli of 1..40 words, several exponentiations per modulus object'},
 'C26': {'RaAsn1CreateContext, RaAsn1GetNode': 'the chain of node blocks is unbounded; bounded stand-in: the compiled parser on generated, mutated, truncated and nested byte strings of up to 2 KB, the bytes placed against an unmapped page'},
 'C27': {'RaRsaPubKeyToByteArray, RaRsaPrivKeyToByteArray, RaRsaCreateKeyPub, RaRsaCreateKeyPriv': 'not under a functional contract; bounded stand-in: keys of 16..2048 bits are written, compared with an independent DER encoder, and read back'},
 'C28': {'RaRandomCreate': 'determinism of creation is checked by comparing generators with the same seed (bounded)'},
 'C29': {'BnGenRandomByteArray': 'copies generator bytes into words; its contract (any words, nothing else written) is assumed, and exercised by the search', 'GenProbablePrimeNumber, RaGenPrimeNumberEx, RaGenPrimeNumber': 'not under contract; bounded stand-in: generated primes of 2..256 bits have exactly the requested length'},
 'C30': {'RaIsPrimeNumber': 'the number of rounds it asks for, and termination of the drawing loop, are not under contract; bounded stand-in: primes and composites of 1..512 bits against an independent test, the bases drawn and the verdict of each round replayed against an independent strong-liar computation'},
}
LEVEL = {'C24': 'other', 'C27': 'other', 'C30': 'other', 'C26': 'other', 'C29': 'other'}
def resources(ctx):
    from . import res, restab
    mods = front.build_ir(None, defs=['-DNDEBUG'], tolerant=True)
    R = res.Res(mods); R.contracts = hvres.CON
    items = []; seen = set(); cnt = {}
    def run(n, a, kw):
        if n not in R.fns or R.fns[n][1].internal and hvres.LITE.get(n) is not None and len(R.fns[n][1].params) != len(a):
            if n in R.fns: return          # a file-local helper that changed its parameters is verified inside its callers
            if n in hvres.LITE and hasattr(hvres.LITE[n], 'local'): return
            ctx.ob(f'{n}: resource contract', False, 'the function is gone'); return
        seen.add(n); cnt[n] = cnt.get(n, 0) + 1
        nm = f'{n}: resources' + (f' ({cnt[n]})' if cnt[n] > 1 else '')
        def go():
            e, k = res.verify(R, n, a, **kw); return dict(e.obs), {n}
        if kw.get('learn'):
            jobs_now(ctx, nm, n, go)
        else: items.append((nm, n, go))
    restab.table(R, run)
    slow = {'BnDiv': 3, 'RaMontExpMod': 4, 'GenProbablePrimeNumber': 5, 'CheckMillerRabin': 2, 'GetGCDEx': 1, 'BnMod': 1}
    items.sort(key=lambda i: -slow.get(i[1], 0))
    jobs.run(ctx, items)
    B = {'RaAsn1CreateContext': 'the ASN.1 parser: its chain of node blocks is unbounded', 'RaAsn1DestroyContext': 'walks the chain of node blocks'}
    cover = set(seen); ch = True          # what a verified function calls without a contract of its own is executed there
    while ch:
        new = {c for g in cover for c in R.calls.get(g, ()) if c in R.alloc} - cover; ch = bool(new); cover |= new
    for n in sorted(R.alloc):
        m, f = R.fns.get(n, (None, None))
        if f is None or f.internal or n in cover: continue
        if n in B: ctx.bounded.append(f'{n}: {B[n]}; stand-in: every single failing allocation on generated well-formed and broken inputs of up to 2 KB (fault injection on the compiled sources)'); continue
        ctx.ob(f'{n}: a function that can reach an allocation has a resource contract', False, 'it allocates now, and no contract says what it owns')
    n = len([1 for n, (m, f) in R.fns.items() if n not in R.alloc])
    ctx.ob('functions from which no allocation can be reached (call graph)', True, '', 'call graph', n)
    ctx.assume(NDEBUG, 'callbacks do not allocate on behalf of the library', 'numbers in a key handed to the encoders are not negative (a negative one would make BnToByteArray allocate a complement)',
      'malloc returns NULL or a fresh block; the C library calls used own nothing')
    ctx.notes.append('every path of every allocating function, each allocation succeeding or failing: a failed allocation on the path makes the function report failure, failure leaves nothing new allocated and nothing of the caller released, success leaves exactly the result')
def jobs_now(ctx, nm, fn, go):
    from irv.hv import Viol, Unsupported
    try: obs, fs = go()
    except Viol as e: ctx.ob(f'{nm}: {e.what}', False, e.msg); return
    except Unsupported as e: ctx.ob(f'{nm}: the verifier cannot process the changed code', False, str(e)); ctx.undecided.append(nm); return
    n = sum(obs.values()); ctx.obligations += n; ctx.discharged += n; ctx.by[jobs.BACKEND] = ctx.by.get(jobs.BACKEND, 0) + n; ctx.functions |= fs
SECS = {'quick': 30, 'thorough': 240}
def check(ctx):
    ctx.proof('obligations', lambda: prove(ctx))
    secs = SECS[ctx.tier]
    if ctx.failed: secs = max(secs, 90)
    try: ctx.evals, ctx.violation = objnat.search(ctx.pid, secs, ctx.seed)
    except front.ExtractError as e: ctx.ob('native build', False, str(e))
    return LEVEL.get(ctx.pid, 'proof')
