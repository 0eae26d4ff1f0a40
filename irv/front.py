"""Extraction: compile /repo's current sources to LLVM IR with the flags of its own build, on every run."""
import os, subprocess, json, tempfile, shutil, re, sys
from concurrent.futures import ThreadPoolExecutor
from . import ll

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/bin/clang'
OPT = '/usr/bin/opt'
PASSES = 'sroa,mem2reg,simplifycfg,lowerswitch'

class ExtractError(Exception): pass

def env():
    e = dict(os.environ)
    e['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    for k in ('CFLAGS', 'CXXFLAGS', 'LDFLAGS'): e.pop(k, None)
    e['CC'] = '/usr/bin/gcc'
    e['CXX'] = '/usr/bin/g++'
    return e

def compile_commands(tmp):
    """(source, flags) pairs of the library target, from the repository's own CMake configuration"""
    b = os.path.join(tmp, 'cc')
    r = subprocess.run(['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'],
                       capture_output=True, text=True, env=env())
    out = []
    try:
        for c in json.load(open(os.path.join(b, 'compile_commands.json'))):
            f = c['file']
            if '/src/test/' in f: continue
            fl = [x for x in c['command'].split() if x.startswith(('-D', '-I', '-m'))]
            fl += [x for x in c['command'].split() if x.startswith('-O')][:1]
            out.append((f, fl))
    except Exception:
        pass
    shutil.rmtree(b, ignore_errors=True)
    if not out: raise ExtractError('cmake configuration failed: ' + r.stderr[-500:])
    return out

def build_ir(names=None, passes=PASSES, keep=None, defs=(), tolerant=False):
    """dict basename -> parsed module"""
    tmp = tempfile.mkdtemp(prefix='irv')
    try:
        cmds = compile_commands(tmp)
        def one(c):
            f, fl = c
            base = os.path.basename(f)[:-2]
            if names is not None and base not in names: return None
            i = os.path.join(tmp, base + '.i')
            pp = [x for x in fl if not x.startswith("-O")] + list(defs)
            # preprocess with the build's own compiler, so conditional compilation is what the build sees
            r = subprocess.run(['/usr/bin/gcc', '-E', '-P'] + pp + ['-U_FORTIFY_SOURCE', f, '-o', i], capture_output=True, text=True, env=env())
            if r.returncode: raise ExtractError(f'{base}: {r.stderr[-800:]}')
            # glibc prototypes gcc spells with types clang lacks; none of them is used by the sources
            t = re.sub(r'\b_Float(32|64|128|32x|64x)\b', 'double', open(i, errors='replace').read())
            t = re.sub(r'__attribute__ \(\(__malloc__ \([^()]*\)\)\)', '', t)
            open(i, 'w').write(t)
            o = os.path.join(tmp, base + '.ll')
            r = subprocess.run([CLANG, '-w', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-S', '-emit-llvm'] +
                               [x for x in pp if x.startswith('-m')] + ['-x', 'cpp-output', i, '-o', o], capture_output=True, text=True, env=env())
            if r.returncode: raise ExtractError(f'{base}: {r.stderr[-800:]}')
            o2 = os.path.join(tmp, base + '.o.ll')
            r = subprocess.run([OPT, '-S', '-passes=' + passes, o, '-o', o2], capture_output=True, text=True, env=env())
            if r.returncode: raise ExtractError(f'{base}: {r.stderr[-800:]}')
            return base, o2
        with ThreadPoolExecutor(8) as ex:
            res = [x for x in ex.map(one, cmds) if x]
        mods = {}
        for base, o in res:
            mods[base] = ll.parse(open(o).read(), tolerant)
            mods[base].base = base
            if keep: shutil.copy(o, keep)
        return mods
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def layout(queries, extra=''):
    """evaluate C integer constant expressions against the current headers: dict name -> value"""
    tmp = tempfile.mkdtemp(prefix='irvl')
    try:
        src = '#include <racrypt.h>\n#include <stddef.h>\n#include <stdio.h>\n' + extra + '\nint main(void){\n'
        for k, e in queries.items(): src += f'printf("%s %lld\\n","{k}",(long long)({e}));\n'
        src += 'return 0;}\n'
        f = os.path.join(tmp, 'q.c'); open(f, 'w').write(src)
        inc = sorted(set(x for _, fl in [(0, ['-I' + REPO + '/src/include', '-I' + REPO + '/src/cipher'])] for x in fl))
        r = subprocess.run(['/usr/bin/gcc', '-w'] + inc + [f, '-o', tmp + '/q'], capture_output=True, text=True, env=env())
        if r.returncode: raise ExtractError('layout: ' + r.stderr[-600:])
        o = subprocess.run([tmp + '/q'], capture_output=True, text=True).stdout
        return {l.split()[0]: int(l.split()[1]) for l in o.splitlines()}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def build_native(tmp, san=False, extra_srcs=(), extra_flags=(), noasm=False, out='lib.so', opt=None):
    """shared library of the current sources (same flags as the build), for replay"""
    cmds = compile_commands(tmp)
    objs = []
    def one(c):
        f, fl = c
        if noasm:
            if os.path.basename(f) in ('aes_x86.c', 'sha1_x86.c', 'sha2_x86.c'): return None
            fl = [x for x in fl if 'USE_ASM' not in x]
        o = os.path.join(tmp, out + '_' + os.path.basename(f)[:-2] + '.o')
        fl2 = [x for x in fl if not x.startswith('-O')] + (['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=undefined'] if san else [opt or '-O2'])
        r = subprocess.run(['/usr/bin/gcc', '-w', '-fPIC', '-c'] + fl2 + list(extra_flags) + [f, '-o', o], capture_output=True, text=True, env=env())
        if r.returncode: raise ExtractError(r.stderr[-800:])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = [x for x in ex.map(one, cmds) if x]
    return objs

def native_lib(tmp, **kw):
    link = list(kw.pop('link', ()))
    objs = build_native(tmp, **kw)
    so = os.path.join(tmp, kw.get('out', 'lib.so'))
    r = subprocess.run(['/usr/bin/gcc', '-shared', '-o', so] + objs + link + (['-fsanitize=address,undefined'] if kw.get('san') else []), capture_output=True, text=True, env=env())
    if r.returncode: raise ExtractError(r.stderr[-800:])
    return so
