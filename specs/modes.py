"""SP 800-38A chaining steps on lists of byte words (irv.w words or ints)."""
MODES = ['ECB', 'CBC', 'CFB', 'OFB']
def x(a, b): return [i ^ j for i, j in zip(a, b)]
def step(mode, enc, iv, p, E, D):
    """(output block, next chaining value)"""
    if mode == 'ECB': return (E(p) if enc else D(p)), iv
    if mode == 'CBC':
        if enc:
            c = E(x(p, iv)); return c, c
        return x(D(p), iv), p
    if mode == 'CFB':
        o = x(E(iv), p); return o, (o if enc else p)
    o = E(iv); return x(o, p), o
