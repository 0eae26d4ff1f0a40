"""mkseed.py SPECFILE: create /verif/seeded/<id> from a spec {id, property, edits:[[file, old, new]...], needs, breaks, demo}
and confirm it: patch applies, builds, stable tests pass, demo fails with it and passes without."""
import json, os, subprocess, sys, runpy
R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): sh('git -C /repo checkout -q -- .'); assert not sh('git -C /repo status --porcelain').stdout.strip()
DEMO = '''#!/bin/bash
# cwd /repo, after the build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
gcc -O1 -w %s -Isrc/include -Isrc/com -Isrc -o "$t/demo" "$d/demo.c" %s || exit 2
timeout 200 "$t/demo"
'''
def make(s):
    d = f'/verif/seeded/{s["id"]}'
    clean()
    for f, o, n in s['edits']:
        p = f'{R}/{f}'; t = open(p, newline='').read()
        if '\r\n' in t: o, n = o.replace('\n', '\r\n'), n.replace('\n', '\r\n')
        if t.count(o) < 1: print(s['id'], 'no match', f, o[:60]); clean(); return False
        k = s.get('nth', 0)
        i = -1
        for _ in range(k + 1): i = t.index(o, i + 1)
        t = t[:i] + n + t[i + len(o):]
        open(p, 'w', newline='').write(t)
    diff = sh('git -C /repo diff').stdout
    os.makedirs(d, exist_ok=True)
    open(f'{d}/patch.diff', 'w').write(sh('git -C /repo diff --binary').stdout if 0 else diff)
    raw = subprocess.run('git -C /repo diff', shell=True, capture_output=True).stdout
    open(f'{d}/patch.diff', 'wb').write(raw)
    open(f'{d}/demo.c', 'w').write(s['demo'])
    flags, link = s.get('flags', ''), s.get('link', '_build/libracrypt.a')
    if s.get('asan'):
        flags += ' -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -DRACRYPT_USE_ASM -maes -msse4.1 -mssse3 -msha'
        link = "$(find src -name '*.c' -not -path '*/test/*' -not -name '*arm64*' -not -name 'blowfish_lookup.c')"
    open(f'{d}/demo.sh', 'w').write(s.get('demo_sh') or DEMO % (flags, link)); os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    t = sh('bash /tmp/testrepo.sh').stdout.strip().replace('\n', ' ')
    r1 = sh(f'bash {d}/demo.sh', cwd=R)
    clean()
    chk = sh(f'git -C /repo apply --check {d}/patch.diff')
    sh('bash /opt/vp/build.sh')
    r0 = sh(f'bash {d}/demo.sh', cwd=R)
    ok = 'TESTS OK' in t and r1.returncode not in (0, 2) and r0.returncode == 0 and chk.returncode == 0
    print(s['id'], 'KEPT' if ok else 'REJECTED', t[-80:], 'with patch:', r1.returncode, (r1.stdout + r1.stderr)[-120:].replace('\n', ' '), 'without:', r0.returncode, (r0.stdout + r0.stderr)[-120:].replace('\n', ' '), flush=True)
    if not ok and not s.get('keep'): sh(f'rm -r /verif/seeded/{s["id"]}')
    return ok
ns = runpy.run_path(sys.argv[1])
for s in ns['SEEDS']:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]: continue
    make(s)
