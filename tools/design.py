#!/usr/bin/env python3
"""Writes the generated part of DESIGN.md (per property: obligations, functions, bounds, assumptions) from the contracts."""
import os, re, sys, glob, json, shlex
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NA
def obs(f):
    for l in open(f):
        m = re.match(r'//@ob\s+(.*)', l)
        if m:
            t = shlex.split(m.group(1)); yield t[0], dict(x.split('=', 1) for x in t[1:])
out = []
for p in PROPS:
    fs = sorted(glob.glob(os.path.join(V, 'contracts', p['id'] + '*.c')))
    if not fs: continue
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append(p['statement'] + '\n')
    out.append('*Why tests cannot settle it:* ' + p['why'] + '\n')
    out.append('*Decision:* ' + p['note'] + '\n')
    out.append('| obligation | kind | functions | remarks |\n|---|---|---|---|')
    ass = []
    for f in fs:
        ass += [re.sub(r'^//@\w+\s+', '', l).strip() for l in open(f) if re.match(r'//@(assume|trust|drop)\b', l)]
        for n, o in obs(f):
            r = []
            if o.get('hook'): r.append('loop contract ' + o['hook'].replace(',', ', '))
            if o.get('loops'): r.append('goto-instrument loop contracts')
            if o.get('calls'): r.append('callees by contract: ' + ', '.join(c.split(':')[0] for c in o['calls'].split(',')))
            if o.get('bound'): r.append('bound: ' + o['bound'])
            if o.get('split'): r.append('case split ' + o['split'])
            if o.get('fallback'): r.append('stand-in ' + o['fallback'])
            if o.get('tier') == 'thorough': r.append('thorough tier or as stand-in')
            if o.get('tier') == 'fallback': r.append('only as stand-in')
            if o.get('solver'): r.append(o['solver'])
            out.append('| %s | %s | %s | %s |' % (n, o.get('kind'), o.get('fn', '').replace(',', ', '), '; '.join(r).replace('|', '\\|')))
    out.append('')
    if ass: out.append('*Assumed:* ' + ' '.join(a.rstrip('.') + '.' for a in ass) + '\n')
out.append('### Not applicable\n')
for n in NA: out.append('* **%s %s**: %s' % (n['id'], n['title'], n['reason']))
seeds = []
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d)); seeds.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
s = open(os.path.join(V, 'DESIGN.md')).read()
def put(s, name, text):
    a, b = '<!-- %s -->' % name, '<!-- /%s -->' % name
    return s[:s.index(a) + len(a)] + '\n' + text + '\n' + s[s.index(b):]
s = put(s, 'properties', '\n'.join(out))
s = put(s, 'seeded', '| planted bug | property | breaks | needs |\n|---|---|---|---|\n' + '\n'.join(seeds))
open(os.path.join(V, 'DESIGN.md'), 'w').write(s)
