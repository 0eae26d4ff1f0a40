"""Runs independent groups of obligations in parallel processes and merges what they discharged."""
import multiprocessing as mp, os, sys, time, traceback
from irv import front
from irv.hv import Viol, Unsupported
_J = []
BACKEND = 'irv heap engine (symbolic execution of the IR against contracts, z3; loops cut with verified invariants)'
def _run(i):
    sys.setrecursionlimit(20000)
    name, fn = _J[i][0], _J[i][2]
    t = time.time()
    try: obs, funcs = fn(); return i, 'ok', obs, funcs, time.time() - t
    except Viol as e: return i, 'viol', f'{e.what}', str(e.msg), time.time() - t
    except (Unsupported, front.ExtractError) as e: return i, 'unsup', 'the verifier cannot process the changed code', str(e), time.time() - t
    except MemoryError: return i, 'unsup', 'verifier ran out of memory', '', time.time() - t
    except Exception as e: return i, 'unsup', 'verifier error', ''.join(traceback.format_exception(e))[-1500:], time.time() - t
def run(ctx, items, procs=8, budget=600):
    """items: (name, verified function, thunk returning ({obligation kind: count}, functions executed))"""
    _J[:] = items
    pool = mp.get_context('fork').Pool(min(procs, max(1, len(items))))
    end = time.time() + budget; done = set(); fails = {}
    try:
        it = pool.imap_unordered(_run, range(len(items)))
        while len(done) < len(items):
            try: i, k, a, b, t = it.next(timeout=max(0.1, end - time.time()))
            except mp.TimeoutError: break
            done.add(i); name, f = items[i][:2]
            if os.environ.get('VERIF_DEBUG'): print(name, k, f'{t:.1f}s', flush=True)
            ctx.solver_s += t; ctx.functions.add(f)
            if k == 'ok':
                n = sum(a.values()); ctx.obligations += n; ctx.discharged += n; ctx.by[BACKEND] = ctx.by.get(BACKEND, 0) + n
                for o, c in a.items(): ctx.kinds[o] = ctx.kinds.get(o, 0) + c
                ctx.functions |= set(b)
            else: fails[i] = (k, a, b)
    finally: pool.terminate(); pool.join()
    for i in range(len(items)):
        name = items[i][0]
        if i in fails:
            k, a, b = fails[i]; ctx.ob(f'{name}: {a}', False, b)
            if k == 'unsup': ctx.undecided.append(name)
        elif i not in done: ctx.ob(name, False, 'the verifier ran out of time'); ctx.undecided.append(name)
