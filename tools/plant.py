#!/usr/bin/env python3
"""Development aid: confirm a planted bug in a scratch copy and keep it under seeded/.  plant.py DIR...
DIR holds bug.py with ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, and demo.c (or demo.sh)."""
import sys, os, subprocess, shutil, json
V = '/verif'
COMMON = '''#!/bin/bash
# cwd: the repository, after build.sh
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf -- "$T"' EXIT
gcc -g -w -I include -I src -I fcontext/src "$D/demo.c" -o "$T/demo" _build/libkasync.a _build/fcontext/libboost_context.a -lssl -lcrypto -lpthread -ldl || exit 3
cd "$T" && timeout 100 ./demo
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, errors='surrogateescape', **k)
def build(d):
    r = sh(f'CC=gcc CXX=g++ cmake -S {d} -B {d}/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DGTEST_ROOT=/usr/src/googletest/googletest -DUSE_CXX=ON -DCMAKE_C_FLAGS=-I{d}/fcontext/src -DCMAKE_CXX_FLAGS=-I{d}/fcontext/src && ninja -C {d}/_build')
    if r.returncode: print(r.stdout[-3000:], r.stderr[-2000:]); raise SystemExit('build failed')
def one(b, check):
    ns = {}
    exec(open(b + '/bug.py').read(), ns)
    d = '/tmp/plant_' + ns['ID']
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(f'cd /repo && git archive HEAD | tar -x -C {d} && cd {d} && git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x')
    out = f'{V}/seeded/{ns["ID"]}'
    try:
        build(d)
        if os.path.exists(b + '/demo.sh'):
            demo = b + '/demo.sh'
        else:
            demo = b + '/demo.sh.gen'; open(demo, 'w').write(COMMON)
        tmp = '/tmp/plantdemo_' + ns['ID']; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        shutil.copy(demo, tmp + '/demo.sh')
        if os.path.exists(b + '/demo.c'): shutil.copy(b + '/demo.c', tmp)
        r0 = sh(f'bash {tmp}/demo.sh', cwd=d)
        for f, old, new in ns['EDITS']:
            p = f'{d}/{f}'; s = open(p, encoding='latin-1').read()
            if s.count(old) != 1: raise SystemExit(f'{ns["ID"]}: edit matches {s.count(old)} times in {f}: {old!r}')
            open(p, 'w', encoding='latin-1').write(s.replace(old, new))
        diff = sh('git diff', cwd=d).stdout
        build(d)
        r1 = sh(f'bash {tmp}/demo.sh', cwd=d)
        shutil.rmtree(d + '/_build/testrun', ignore_errors=True); os.makedirs(d + '/_build/testrun')
        sh(f'python3 /opt/vp/run_tests.py {d}/_build/kasync_fiber_test {d}/_build/testrun')
        t = open(d + '/_build/testrun/results.txt').read()
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        bad = [x for x in stable if 'PASS ' + x not in t]
        ok = r0.returncode == 0 and r1.returncode not in (0, 3) and not bad
        print(ns['ID'], 'OK' if ok else 'REJECT', 'base', r0.returncode, 'patched', r1.returncode, 'failing tests', bad)
        if not ok:
            print(r0.stdout[-500:], r0.stderr[-800:], '---', r1.stdout[-500:], r1.stderr[-800:]); return
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + '/patch.diff', 'w', errors='surrogateescape').write(diff)
        for f in os.listdir(tmp): shutil.copy(f'{tmp}/{f}', out)
        json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        shutil.rmtree(tmp, ignore_errors=True)
        if check:
            r = sh(f'VERIF_REPO={d} VERIF_OUT=/tmp/plantout_{ns["ID"]} python3 {V}/run.py {ns["PROP"]} --tier quick')
            print('   check', ns['PROP'], 'rc', r.returncode, [l for l in r.stdout.splitlines() if 'VIOLATION' in l], r.stderr[-300:] if r.returncode not in (0,1) else '')
            shutil.rmtree(f'/tmp/plantout_{ns["ID"]}', ignore_errors=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
a = sys.argv[1:]
check = '--nocheck' not in a
for b in [x for x in a if not x.startswith('--')]:
    one(b.rstrip('/'), check)
