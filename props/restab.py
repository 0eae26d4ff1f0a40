import z3
from irv.hv import Ptr, Fn, Viol, UNDEF
from props.res import *
from props import hvres
def table(R, run):
    """calls run(target, args, options) for every obligation set, constructors before what takes their objects"""
    b = lambda eng, st, nm: R.bn(eng, st, nm)
    nul = 0
    i32 = lambda eng, st, nm: eng.fresh(32, 'int' + nm)
    i64 = lambda eng, st, nm: eng.fresh(64, 'int' + nm)
    def rng(lo, hi):
        def f(eng, st, nm):
            v = eng.fresh(32, 'int' + nm); st.pc += [v >= lo, v <= hi]; return v
        return f
    rnd = lambda eng, st, nm: R.handle(eng, st, nm, 'rnd')
    def buf(eng, st, nm, n=None):
        if n is None:
            n = eng.fresh(32, 'buflen'); st.pc += [n >= 0]
            st.ghost['buflen'] = n
        sz = n if isinstance(n, int) else z3.ZeroExt(32, n)
        return eng.new(st, 'arg.buf' + nm, 'mem', sz, 'fresh')
    buflen = lambda eng, st, nm: st.ghost['buflen']
    def intp(eng, st, nm): return eng.new(st, 'arg.int' + nm, 'mem', 4, 'fresh')
    prog = Fn('@progress')
    def t(name, args, **kw): run(name, args, kw)
    t('BnNewW', [i32], kind='create', ret='ptr'); t('BnNew', [i32], kind='create', ret='ptr')
    t('BnClone', [b], kind='create', ret='ptr')
    t('BnFree', [b], kind='destroy'); t('BnClearFree', [b], kind='destroy')
    t('BnDiv', [b, b, b, b], words=True); t('BnMod', [b, b, b], words=True)
    t('BnToByteArray', [b, buf, buflen], ret='nz', words=True); t('BnToByteArray', [b, nul, i32], ret='nz')
    for r in (rnd, nul):
        t('BnGenRandomByteArray', [buf, buflen, r]); 
        for f in ('BnGenRandom', 'BnGetRandomRSA', 'BnGetRandomOdd'): t(f, [b, i32, r])
    t('GetGCD', [b, b, b], lite=True)
    t('GetGCDEx', [b, b, b, b, b, i32], lite=True); t('GetGCDEx', [nul, b, b, b, b, i32], lite=True); t('GetGCDEx', [b, b, nul, b, b, i32], lite=True); t('GetGCDEx', [nul, b, nul, b, b, i32], lite=True)
    t('RaMontCreate', [b, 'out'], kind='create', learn='mont')
    for p in R.pat('mont'):
        m = lambda eng, st, nm, p=p: R.make(eng, st, nm, p)
        t('RaMontDestroy', [m], kind='destroy'); t('RaMontExpMod', [m, b, b, b], lite=True)
    t('RaMontDestroy', [nul], kind='op', ret='void')
    for r in (rnd, nul):
        t('CheckMillerRabin', [b, i32, r, intp], lite=True); t('GenProbablePrimeNumber', [b, i32, r], lite=True)
        for pg in (prog, nul): t('RaGenPrimeNumberEx', [b, i32, pg, i64, r], lite=True)
    t('RaGenPrimeNumber', [b, i32], lite=True); t('RaIsPrimeNumber', [b], lite=True)
    for sd in (buf, nul): t('RaRandomCreate', [i32, sd, buflen if sd else i32, 'out'], kind='create')
    t('RaRandomDestroy', [nul], kind='op', ret='void')
    for a, d in R.randoms(): t('RaRandomDestroy', [lambda eng, st, nm, a=a, d=d: R.mkrandom(eng, st, a, d)], kind='destroy')
    node = lambda eng, st, nm: eng.lay['kinds']['node'].new(eng, st, 'arg', eng.fresh(32, 'n'))
    if 'RaRsaNewASN1Integer' in R.fns and len(R.fns['RaRsaNewASN1Integer'][1].params) == 3: t('RaRsaNewASN1Integer', [buf, node, 'out'], kind='create', lite=True, keepout=True)
    t('RaRsaCreateKeyPair', [i32, 'out'], lite=True, kind='create', learn='key')
    for f in ('RaRsaCreateKeyPub', 'RaRsaCreateKeyPriv'): t(f, [buf, buflen, 'out'], kind='create', learn='key', lite=True)
    t('RaRsaCreateKeyFromByteArray', [buf, buflen, 'out'], kind='create', lite=True)
    t('RaRsaDestroyKeyPair', [nul], kind='op', ret='void')
    for p in R.pat('key'):
        k = lambda eng, st, nm, p=p: R.make(eng, st, nm, p)
        t('RaRsaDestroyKeyPair', [k], kind='destroy')
        for f in ('RaRsaEncrypt', 'RaRsaDecrypt', 'RaRsaSign', 'RaRsaVerify'): t(f, [k, b, b], lite=True)
        t('RaRsaVerifyKey', [k], lite=True)
        for f in ('RaRsaPrivKeyToByteArray', 'RaRsaPubKeyToByteArray'):
            t(f, [k, buf, buflen, intp], lite=True); t(f, [k, nul, i32, intp], lite=True)
    for c, a in (('Aes', [buf, i32, i32, 'out']), ('Aria', [buf, i32, i32, 'out']), ('Blowfish', [buf, i32, i32, 'out']), ('Des', [buf, i32, i32, 'out']), ('Seed', [buf, i32, 'out']), ('Rc4', [buf, i32, 'out']),
                 ('Md2', ['out']), ('Md4', ['out']), ('Md5', ['out']), ('Sha1', ['out']), ('Sha2', [i32, 'out']), ('Has160', ['out'])):
        t(f'Ra{c}Create', a, kind='create', learn=c, lite=True, frameall=True)
        for p in R.pat(c): t(f'Ra{c}Destroy', [lambda eng, st, nm, p=p: R.make(eng, st, nm, p)], kind='destroy', lite=True, frameall=True)
