"""Driver shared by all checks: collects obligations, runs the concrete replay search, writes evidence, prints verdicts."""
import json, os, sys, time, traceback, resource
from . import front
from .terms import Unsupported
from .sym import Fail

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.by = {}             # back end -> count
        self.kinds = {}
        self.failed = []         # (name, message)
        self.undecided = []
        self.assumptions = []
        self.functions = set()
        self.trusted_funcs = set()
        self.notes = []
        self.bounded = []
        self.violation = None    # concrete
        self.evals = 0
        self.known = []
        self.solver_s = 0.0
        self.vacuity = 0

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def ob(self, name, ok, msg='', backend='irv canonical terms', n=1):
        """record an obligation"""
        self.obligations += n
        if ok:
            self.discharged += n
            self.by[backend] = self.by.get(backend, 0) + n
        else:
            if len(self.failed) < 50: self.failed.append((name, str(msg)[:2000]))
        return ok

    def absorb(self, eng):
        """side obligations the engine discharged while executing (memory accesses, path feasibility, ...)"""
        for k, v in eng.obl.items():
            self.obligations += v; self.discharged += v
            self.kinds[k] = self.kinds.get(k, 0) + v
            b = 'irv engine (' + k + ')'
            self.by[b] = self.by.get(b, 0) + v
        eng.obl = {}
        self.functions |= {n.split('#')[0] for n in eng.called}

    def proof(self, name, fn):
        """run a proof step; any failure to discharge is recorded as a failed obligation"""
        try:
            return fn()
        except Fail as e:
            self.ob(name, False, f'{e.what}: {e.msg}')
        except Unsupported as e:
            self.ob(name, False, f'the verifier cannot process the changed code: {e}')
            self.undecided.append(name)
        except front.ExtractError as e:
            self.ob(name, False, f'extraction failed: {e}')
            self.undecided.append(name)
        except MemoryError:
            self.ob(name, False, 'verifier ran out of memory')
            self.undecided.append(name)
        except RecursionError:
            self.ob(name, False, 'verifier recursion limit')
            self.undecided.append(name)
        except Exception as e:
            self.ob(name, False, 'verifier error: ' + ''.join(traceback.format_exception(e))[-1800:])
            self.undecided.append(name)
        return None

    def assume(self, *a):
        for x in a:
            if x not in self.assumptions: self.assumptions.append(x)

TRUSTED = ['irv (this repository\'s own VC generator over LLVM IR, term canonicaliser, linear-arithmetic and loop-summary rules)',
           'clang 18 -O0-style code generation plus opt mem2reg/SROA (the verified text is the IR of the preprocessed sources, re-extracted on every run)',
           'gcc preprocessor with the flags of /repo\'s CMake build',
           'the specification functions in /verif/specs (validated against OpenSSL/hashlib on random inputs during development)']

def finish(ctx, level='proof'):
    os.makedirs(V + '/evidence', exist_ok=True)
    rdir = V + '/evidence/replay'
    os.makedirs(rdir, exist_ok=True)
    replay = f'{rdir}/{ctx.pid}.json'
    rc = 0
    line = None
    nviol = 0
    if ctx.violation is not None:
        json.dump(dict(property=ctx.pid, kind='concrete input replayed against the compiled sources', violation=ctx.violation,
                       failed_obligations=ctx.failed), open(replay, 'w'), indent=1, default=str)
        line = f'VIOLATION property={ctx.pid} replay={replay}'
        rc = 1; nviol = 1
    elif ctx.failed or ctx.obligations == 0:
        if not ctx.failed: ctx.failed.append(('vacuity', 'no obligation was generated'))
        json.dump(dict(property=ctx.pid, kind='failed obligations (no failing input found)', failed_obligations=ctx.failed,
                       undecided=ctx.undecided), open(replay, 'w'), indent=1, default=str)
        line = f'VIOLATION property={ctx.pid} replay={replay} no-failing-input-found'
        rc = 1; nviol = len(ctx.failed)
    ev = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=level,
              coverage=dict(obligations=ctx.obligations, discharged=ctx.discharged,
                            checker_cmd=f'bash check.sh {ctx.pid} {ctx.tier}', trusted_base=TRUSTED,
                            discharged_by_back_end=ctx.by, functions_under_contract=sorted(ctx.functions),
                            trusted_functions=sorted(ctx.trusted_funcs), solver_s=round(ctx.solver_s, 2),
                            bounded=ctx.bounded, evaluations=ctx.evals, known_findings=[k for k in ctx.known],
                            reachability_checks=ctx.vacuity, notes=ctx.notes, explanation='; '.join(ctx.notes)),
              assumptions=ctx.assumptions, wall_s=round(time.time() - ctx.t0, 2), violations=nviol)
    if ctx.failed: ev['coverage']['failed'] = ctx.failed[:20]
    json.dump(ev, open(f'{V}/evidence/{ctx.pid}.json', 'w'), indent=1, default=str)
    for k in ctx.known: print(f'KNOWN-FINDING: property={ctx.pid} {k}')
    print(f'{ctx.pid}: {ctx.discharged}/{ctx.obligations} obligations discharged, {ctx.evals} concrete evaluations, {time.time() - ctx.t0:.1f}s')
    for n, m in ctx.failed[:8]: print('  failed:', n, '--', m[:400].replace('\n', ' | '))
    if line: print(line)
    sys.stdout.flush()
    return rc

def known_findings(pid):
    """keys of the recorded findings of a property: lines 'finding: property=<id> key=<key> <text>'"""
    out = {}
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:') and f'property={pid} ' in l:
                rest = l.split(f'property={pid} ', 1)[1]
                k = rest.split()[0].split('=', 1)[1]
                out[k] = rest.split(' ', 1)[1] if ' ' in rest else ''
    return out
