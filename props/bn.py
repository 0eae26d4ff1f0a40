"""C16..C22: big-number arithmetic.  Contracts in props/bnspec.py are discharged for every length by irv.wv; the compiled sources are also run against Python integers."""
import os, multiprocessing as mp
from irv import front, wvrun, check as chk
from . import bnspec, bnnat, msb

BACKEND = 'irv word-vector engine (polynomial identities over word strings, Fourier-Motzkin linear arithmetic, verified loop invariants)'
_G = {}
LEVEL = {'C17': 'other', 'C21': 'other', 'C18': 'other', 'C19': 'other'}
WANT = {
    'C16': ['BnSub', 'BnAdd', 'BnCmp', 'BnDouble', 'BnSet'], 'C17': ['BnMul', 'BnSqr'], 'C18': ['BnDiv', 'BnMod'], 'C19': ['BnShiftL', 'BnShiftR', 'BnGetBitLength'],
    'C20': ['BnAddInt', 'BnAddUInt', 'BnSubInt', 'BnSubUInt', 'BnMulInt', 'BnMulUInt', 'BnDivInt', 'BnDivUInt', 'BnModUInt', 'BnCmpInt', 'BnCmpUInt', 'BnSetInt'],
    'C21': ['_BnSetByteArray', 'BnToByteArray', 'BnToFixedByteArray']}
WANT['C22'] = sorted({f for v in WANT.values() for f in v})

def run_one(a):
    key, budget = a
    sp = bnspec.SPECS[key]
    def go():
        return wvrun.verify(_G['mod'], sp, bnspec.LAY, contracts=bnspec.contracts_for(key), budget=budget, externs=bnspec.EXTERNS)
    try: r = wvrun.big_stack(go)
    except front.ExtractError as e: return key, False, str(e), {}, 0, 0.0, 0.0, []
    except MemoryError: return key, False, 'verifier ran out of memory', {}, 0, 0.0, 0.0, []
    except Exception as e:
        import traceback
        return key, False, 'verifier error: ' + ''.join(traceback.format_exception(e))[-1200:], {}, 0, 0.0, 0.0, []
    return key, r.ok, r.msg, dict(r.obs), r.qn, r.qt, r.time, sorted(r.used)

def keys_for(pid):
    if pid == 'C22': return [k for k, s in bnspec.SPECS.items() if not s.wip]
    ks = [k for k, s in bnspec.SPECS.items() if s.group == pid and not s.wip]
    # contracts relied upon are discharged in the same run
    todo = list(ks)
    while todo:
        for d in bnspec.depends(todo.pop()):
            if d not in ks: ks.append(d); todo.append(d)
    return ks

def contracts(ctx):
    """discharge the contracts of the keys of this property; returns the keys"""
    mods = front.build_ir(['bignumber'], defs=['-DNDEBUG'])
    _G['mod'] = mods['bignumber']
    L = bnnat.layout()
    for f, o in bnspec.LAY.items():
        ctx.ob('layout of struct RaBigNumber: ' + f, L[f] == o, f'offset {L[f]}')
    ctx.ob('64-bit words', L['word'] == 8, str(L['word']))
    ks = keys_for(ctx.pid)
    if any('_BnGetMSBPos' in bnspec.SPECS[k].uses for k in ks): msb.prove(ctx, mods['bignumber'])
    with mp.get_context('fork').Pool(8) as pool:
        for key, ok, msg, obs, qn, qt, tm, used in pool.imap_unordered(run_one, [(k, 300) for k in sorted(ks, key=lambda k: -bnspec.SPECS[k].cost)]):
            ctx.functions.add(bnspec.SPECS[key].fname)
            ctx.solver_s += qt
            for o, n in obs.items():
                if ok: ctx.obligations += n; ctx.discharged += n; ctx.by[BACKEND] = ctx.by.get(BACKEND, 0) + n
            if ok: ctx.kinds[key] = sum(obs.values())
            else: ctx.ob(f'contract of {key}', False, msg)
    return ks

def prove(ctx):
    ks = contracts(ctx)
    done = {bnspec.SPECS[k].fname for k in ks}
    for f in WANT[ctx.pid]:
        if f not in done:
            ctx.bounded.append(f'{f}: not under contract; bounded stand-in: the compiled function is compared with Python integers on random and edge-biased operands of 1..200 words (this run: see evaluations)')
            ctx.trusted_funcs.add(f)
    ctx.notes.append('contracts hold for every length (1 .. 2^24 words), every content, sign and capacity; each function body is verified for all iterations with inductive loop invariants that are found by mining executions of the IR and then proved')
    ctx.assume('numbers passed in are well formed (1 <= length <= max_length, max_length >= 2, no leading zero word, sign 0 or 1), distinct numbers do not share storage except where the contract lists aliasing',
               'verified with NDEBUG (an assert(0) precedes each reported error in debug builds)', 'lengths are below 2^24 words, so that bit counts fit an int')

def check(ctx):
    ctx.proof('contracts', lambda: prove(ctx))
    secs = {'quick': 12, 'thorough': 120}[ctx.tier]
    if ctx.failed: secs = max(secs, 90)
    try: ctx.evals, ctx.violation = bnnat.search(ctx.pid, secs, ctx.seed)
    except front.ExtractError as e: ctx.ob('native build', False, str(e))
    return LEVEL.get(ctx.pid, 'proof')
