#!/usr/bin/env python3
"""Development aid: statement-level mutants of the functions a contract file names; lists those its check does not notice.
mut.py PROP FILE[,FILE] [fn,fn..] [-n MAX] [-s SEED]   (VERIF_REPO = tree to start from)"""
import sys, os, re, subprocess, shutil, random
V = '/verif'
R = os.environ.get('VERIF_REPO', '/repo')
prop, files = sys.argv[1], sys.argv[2].split(',')
rest = sys.argv[3:]
N = 40; seed = 1
if '-n' in rest: i = rest.index('-n'); N = int(rest[i + 1]); del rest[i:i + 2]
if '-s' in rest: i = rest.index('-s'); seed = int(rest[i + 1]); del rest[i:i + 2]
fns = rest[0].split(',') if rest else None
OPS = [(' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' || ', ' && '),
       (' + ', ' - '), (' - ', ' + '), ('++', '--'), ('--', '++'), ('true', 'false'), ('false', 'true'), ('+= ', '-= '), ('-= ', '+= '), (' 0)', ' 1)'), (' 0;', ' 1;'), (' 1;', ' 2;'), ('->next', '->prev'), ('->head', '->last'), (' NULL', ' (void *)1')]
def funcs(s):
    for m in re.finditer(r'^(?:[A-Za-z_][\w \*\t]*?)\b(\w+)\s*\([^;{}]*\)\s*\{', s, re.M):
        d = 0
        for i in range(m.end() - 1, len(s)):
            if s[i] == '{': d += 1
            elif s[i] == '}':
                d -= 1
                if d == 0: break
        yield m.group(1), m.end(), i
def mutants(s, f):
    for name, a, b in funcs(s):
        if fns and name not in fns: continue
        pos = a
        for line in s[a:b].split('\n'):
            t = line.strip(); st = pos; pos += len(line) + 1
            if not t or t.startswith(('//', '#', '*', '/*', 'kassert', 'assert', 'klog', 'printf')): continue
            for o, n in OPS:
                for m in re.finditer(re.escape(o), line):
                    yield f, name, st + m.start(), st + m.end(), n, t + '   [' + o + '->' + n + ']'
            if t.endswith(';') and not re.match(r'(return|break|continue|goto|case|[\w ]+\*? ?\*?\w+( = .*)?;$)', t) or re.match(r'[\w\->\.\[\]]+ ?= ', t) or t.endswith('++;') or t.endswith('--;'):
                yield f, name, st, st + len(line), '', 'DELETE ' + t
            if t in ('break;', 'continue;'): yield f, name, st, st + len(line), '', 'DELETE ' + t
ms = []
src = {}
for f in files:
    src[f] = open(f'{R}/{f}', encoding='latin-1').read()
    ms += list(mutants(src[f], f))
random.Random(seed).shuffle(ms)
print(len(ms), 'mutants, trying', min(N, len(ms)), flush=True)
d = f'/tmp/mut_{prop}_{os.getpid()}'
shutil.rmtree(d, ignore_errors=True)
shutil.copytree(R, d, ignore=shutil.ignore_patterns('_build', '.git'))
kill = surv = bad = 0
try:
    for f, name, a, b, n, desc in ms[:N]:
        s = src[f]
        open(f'{d}/{f}', 'w', encoding='latin-1').write(s[:a] + n + s[b:])
        r = subprocess.run(['python3', V + '/run.py', prop, '--tier', 'quick'], env=dict(os.environ, VERIF_REPO=d, VERIF_OUT=d + '_out', VERIF_NOREPLAY='1'), capture_output=True, text=True)
        line = s[:a].count('\n') + 1
        if r.returncode == 0: surv += 1; print('SURVIVED', f'{f}:{line}', name, '|', desc, flush=True)
        elif 'VIOLATION' in r.stdout: kill += 1
        else: bad += 1; print('NOANSWER', f'{f}:{line}', name, '|', desc, '|', (r.stdout + r.stderr)[-200:].replace('\n', ' '), flush=True)
        open(f'{d}/{f}', 'w', encoding='latin-1').write(s)
finally:
    shutil.rmtree(d, ignore_errors=True); shutil.rmtree(d + '_out', ignore_errors=True)
print('killed', kill, 'survived', surv, 'no answer', bad)
