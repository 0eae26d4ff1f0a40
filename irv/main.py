import importlib, sys, traceback
sys.setrecursionlimit(20000)
from . import check
MODULES = {}
def reg(mod, *ids):
    for i in ids: MODULES[i] = mod
reg('props.blockcipher', 'C01', 'C02', 'C03', 'C04', 'C05')
reg('props.rc4', 'C06')
reg('props.modes', 'C07', 'C08', 'C09')
for i in range(10, 16): reg('props.digest', f'C{i}')
for i in range(16, 23): reg('props.bn', f'C{i}')
for i in range(23, 34): reg('props.obj', f'C{i}')
def main():
    pid, tier = sys.argv[1], sys.argv[2]
    ctx = check.Ctx(pid, tier)
    m = importlib.import_module(MODULES[pid])
    level = 'proof'
    try:
        level = m.check(ctx) or 'proof'
    except Exception as e:
        ctx.ob('check', False, 'verifier error: ' + ''.join(traceback.format_exception(e))[-1800:])
    return check.finish(ctx, level)
sys.exit(main())
