"""byte arrays accessed at symbolic indices: a value is a form naming (base, chain of stores)"""
from . import terms as tm
from .terms import T_, Unsupported

def define(kind, base, stores):
    """kind 'f': base = (form,), 'c': base = tuple of cells (bits)"""
    if kind == 'f' and not stores: return base[0]
    a = ('arr', kind, base, stores)
    f = tm.uf('arrv', a, 1)[0]
    T_.ufs[('arrdef', f)] = (kind, base, stores)
    return f
def parts(f):
    return T_.ufs.get(('arrdef', f)) or ('f', (f,), ())
def same_or_diff(a, b):
    """True equal, False different, None unknown"""
    if a == b: return True
    for x, y in zip(a, b):
        if x in (0, 1) and y in (0, 1):
            if x != y: return False
        elif tm.xor(x, y) == 1: return False
    return None
def read(f, idx):
    kind, base, stores = parts(f)
    k = len(stores)
    while k:
        i, v = stores[k - 1]
        r = same_or_diff(i, idx)
        if r is True: return v
        if r is None: break
        k -= 1
    if k == 0 and kind == 'c':
        c = tm.as_const(idx)
        if c is not None: return base[c]
        # symbolic index into known cells: a table when the cells are constants
        cs = [tm.as_const(b) for b in base]
        if all(c is not None for c in cs) and len(cs) == 256:
            if cs == list(range(256)): return tuple(idx)
    g = f if k == len(stores) else define(kind, base, stores[:k])
    return tm.uf('ard', (g, tuple(idx)), 8)
def write(f, idx, val):
    kind, base, stores = parts(f)
    if kind == 'c' and not stores:
        c = tm.as_const(idx)
        if c is not None: return define(kind, base[:c] + (tuple(val),) + base[c + 1:], ())
    if stores and stores[-1][0] == idx: stores = stores[:-1]
    return define(kind, base, stores + ((tuple(idx), tuple(val)),))
