#!/usr/bin/env python3
"""Decides one property: every obligation in contracts/<id>*.c against the current source of /repo.

usage: run.py C01 [--tier quick|thorough] [--only H_x] [--verbose] [--keep]
       run.py --smoke C01 [N]       native random execution of every harness (development aid, not part of a check)
       run.py --replay FILE         re-execute a recorded counterexample on the real code
"""
import sys, os, re, json, itertools, subprocess, shlex, tempfile, shutil, time, glob, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
OUT = os.environ.get('VERIF_OUT', os.path.join(VERIF, 'evidence'))
JOBS = int(os.environ.get('VERIF_JOBS', '6'))
MEM = 10 * 1024 * 1024  # KiB per solver process

CBMC_FLAGS = ['--json-ui', '--no-malloc-may-fail', '--object-bits', '10', '--drop-unused-functions',
              '--slice-formula', '--pointer-overflow-check']


class Err(Exception):
    pass


def sh(cmd, timeout=600, env=None, cwd=None, inp=None):
    full = ['bash', '-c', 'ulimit -v %d; exec "$@"' % MEM, 'x'] + cmd
    if 'fsanitize' in ' '.join(cmd) or cmd[0].endswith('.native'):
        full = cmd
    try:
        p = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
    except subprocess.TimeoutExpired:
        return 124, '', 'timeout after %ds' % timeout
    return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')


def make_config(dst):
    """include/kasync_config.h is generated by cmake; produce the same Linux/epoll/TLS/fcontext configuration."""
    on = {'KSOCKET_SSL', 'LINUX', 'HAVE_ACCEPT4', 'HAVE_MEMALIGN', 'HAVE_SETMNTENT', 'HAVE_WRITEV', 'HAVE_READV',
          'ENABLE_FCONTEXT'}
    src = open(os.path.join(REPO, 'include/kasync_config.h.in')).read()
    def sub(m):
        n = m.group(1)
        return '#define ' + n if n in on else '/* #undef %s */' % n
    out = re.sub(r'#cmakedefine\s+(\w+)', sub, src)
    os.makedirs(dst, exist_ok=True)
    open(os.path.join(dst, 'kasync_config.h'), 'w').write(out)


class Ob:
    def __init__(self, src, toks):
        self.src = src
        self.name = self.entry = toks[0]
        self.o = dict(t.split('=', 1) for t in toks[1:])

    def get(self, k, d=None):
        return self.o.get(k, d)


def parse(prop):
    obs, meta = [], {'assume': [], 'trust': [], 'fn': [], 'drop': []}
    files = sorted(glob.glob(os.path.join(VERIF, 'contracts', prop + '*.c')))
    if not files:
        raise Err('no contracts for ' + prop)
    for f in files:
        for line in open(f):
            m = re.match(r'\s*//@(\w+)\s+(.*)', line)
            if not m:
                continue
            k, v = m.group(1), m.group(2).strip()
            if k == 'ob':
                ob = Ob(f, shlex.split(v))
                dims = [d.split(':') for d in ob.get('split').split(';')] if ob.get('split') else []
                if not dims:
                    obs.append(ob)
                for combo in itertools.product(*[[(n, x) for x in vs.split(',')] for n, vs in dims]) if dims else []:
                    # case distinction: one obligation per combination, entry point as named, constants by define
                    o = Ob(f, shlex.split(v))
                    o.entry = ob.name
                    o.name = ob.name + '_' + '_'.join(n + x for n, x in combo)
                    o.o['defs'] = ob.get('defs', '') + ''.join(' -D%s=%s' % c for c in combo)
                    obs.append(o)
            elif k in meta:
                meta[k].append(v)
    return files, obs, meta


def incs(work):
    # the generated config must win over a stale one, so it goes first; include/ of the tree is searched next
    return ['-I', os.path.join(work, 'inc'), '-I', os.path.join(VERIF, 'lib'), '-I', os.path.join(VERIF, 'contracts'),
            '-I', REPO, '-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'src'),
            '-I', os.path.join(REPO, 'fcontext/src')]


def hooks_in_repo():
    names = set()
    for f in glob.glob(os.path.join(REPO, 'src/*.c')) + glob.glob(os.path.join(REPO, 'include/*.h')):
        names |= set(re.findall(r'KGL_LOOP_CONTRACT\((\w+)\)', open(f, errors='replace').read()))
    return names


def compile_goto(src, defs, work, tag):
    out = os.path.join(work, tag + '.gb')
    # loops annotated in /repo whose contract this harness does not supply stay plain loops
    names = hooks_in_repo()
    with open(os.path.join(work, 'inc', 'kasync_loop_contracts.h'), 'w') as fh:
        for n in sorted(names):
            fh.write('#ifndef KGL_LOOP_CONTRACT_%s\n#define KGL_LOOP_CONTRACT_%s\n#endif\n' % (n, n))
    cmd = ['goto-cc', '-DV_CBMC=1', '-DKASYNC_CONTRACTS=1'] + defs + incs(work) + ['-o', out, src]
    rc, so, se = sh(cmd, 120)
    if rc != 0 or not os.path.exists(out):
        raise Err('goto-cc failed on %s:\n%s' % (os.path.basename(src), (so + se)[-3000:]))
    return out


def compile_native(src, entry, defs, work):
    out = os.path.join(work, re.sub(r'\W', '_', entry + ''.join(defs)) + '.native')
    if os.path.exists(out):
        return out
    cmd = ['gcc', '-g', '-O0', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-DV_NATIVE=1',
           '-DV_ENTRY=' + entry] + defs + incs(work) + ['-o', out, src, os.path.join(VERIF, 'lib/v_native.c'), '-lpthread', '-lssl', '-lcrypto',
                                                            '-no-pie', '-Wl,--unresolved-symbols=ignore-all']
    rc, so, se = sh(cmd, 120)
    if rc != 0:
        raise Err('native compile failed on %s:\n%s' % (os.path.basename(src), (so + se)[-3000:]))
    return out


NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0',
            UBSAN_OPTIONS='halt_on_error=1:exitcode=98')


def parse_cbmc(out):
    try:
        data = json.loads(out)
    except Exception:
        return None, None, 'unparsable cbmc output'
    res, msgs, tsolve = None, [], 0.0
    for e in data:
        if 'result' in e:
            res = e['result']
        if 'messageText' in e:
            t = e['messageText']
            msgs.append(t)
            m = re.match(r'Runtime (?:decision procedure|Solver): ([\d.e+-]+)s', t)
            if m:
                tsolve += float(m.group(1))
    return res, tsolve, '\n'.join([m for m in msgs[:-12] if 'no body' in m] + msgs[-12:])


def is_reach(p):
    return p.get('description', '').startswith('REACH: ')


def is_unwind(p):
    return 'unwinding assertion' in p.get('description', '') or 'recursion unwinding' in p.get('description', '')


def choices_from_trace(trace):
    vals = []
    for s in trace:
        if s.get('stepType') == 'assignment' and s.get('lhs') == 'v_choice' and \
                s.get('sourceLocation', {}).get('function') in ('v_in',):
            b = s['value'].get('binary')
            if b is not None:
                v = int(b, 2)
                if v >= 1 << 63:
                    v -= 1 << 64
                vals.append(v)
            else:
                vals.append(int(re.sub(r'[^0-9-]', '', s['value'].get('data', '0')) or 0))
    return vals


class Runner:
    def __init__(self, prop, tier, verbose=False):
        self.prop, self.tier, self.verbose = prop, tier, verbose
        self.work = tempfile.mkdtemp(prefix='kv_%s_' % prop)
        make_config(os.path.join(self.work, 'inc'))
        self.files, obs, self.meta = parse(prop)
        self.allobs = {o.name: o for o in obs}
        self.obs = [o for o in obs if o.get('tier', 'quick') == 'quick' or tier == 'thorough']
        self.nobs = obs
        self.gb, self.gblock = {}, threading.Lock()

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def group(self, name):
        return [o for o in self.allobs.values() if name and name in (o.name, o.entry)]

    def defs(self, ob):
        d = shlex.split(ob.get('defs', ''))
        if self.tier == 'thorough':
            d.append('-DV_THOROUGH=1')
        return d

    @staticmethod
    def abstract(ob):
        return any(ob.get(k) for k in ('enforce', 'replace', 'loops', 'calls', 'hook'))

    def goto(self, ob):
        key = (ob.src, tuple(self.defs(ob)))
        with self.gblock:      # obligations are decided in parallel: each translation unit is compiled once
            if key not in self.gb:
                tag = re.sub(r'\W', '_', os.path.basename(ob.src)) + str(len(self.gb))
                try:
                    self.gb[key] = compile_goto(ob.src, self.defs(ob), self.work, tag)
                except Err as e:
                    self.gb[key] = e
            r = self.gb[key]
        if isinstance(r, Err):
            raise r
        return r

    def instrument(self, ob):
        gb = self.goto(ob)
        if ob.get('never'):
            # functions this harness can only reach through an unresolved function pointer: calling one is an error
            t1, t2 = (os.path.join(self.work, ob.name + x) for x in ('.nv1.gb', '.nv2.gb'))
            fs = ob.get('never').split(',')
            rc, so, se = sh(['goto-instrument'] + sum([['--remove-function-body', f] for f in fs], []) + [gb, t1], 200)
            rc2, so2, se2 = sh(['goto-instrument', '--generate-function-body', '|'.join(fs),
                                '--generate-function-body-options', 'assert-false-assume-false', t1, t2], 200)
            if rc or rc2:
                raise Err('never= for %s: %s' % (ob.name, (so + se + so2 + se2)[-1500:]))
            gb = t2
        if not any(ob.get(k) for k in ('enforce', 'replace', 'loops', 'gi', 'calls')):
            return gb
        out = os.path.join(self.work, ob.name + '.dfcc.gb')
        cmd = ['goto-instrument']
        if ob.get('calls'):
            # a caller is checked against its callees' contracts: each listed callee is replaced by its executable
            # contract (assert precondition; havoc; assume postcondition)
            tmp = os.path.join(self.work, ob.name + '.rc.gb')
            rc, so, se = sh(['goto-instrument'] + sum([['--replace-calls', c] for c in ob.get('calls').split(',')], []) +
                            [gb, tmp], 200)
            if rc != 0:
                raise Err('replace-calls failed for %s: %s' % (ob.name, (so + se)[-1500:]))
            gb = tmp
        if ob.get('loops'):
            tmp = os.path.join(self.work, ob.name + '.en.gb')
            rc, so, se = sh(['goto-cc', '--function', ob.entry, gb, '-o', tmp], 200)
            rc2, so2, se2 = sh(['goto-instrument', '--drop-unused-functions', tmp, tmp + '2'], 200)
            if rc != 0 or rc2 != 0:
                raise Err('entry point for %s: %s' % (ob.name, (so + se + so2 + se2)[-1500:]))
            gb = tmp + '2'
        if ob.get('enforce') or ob.get('replace'):
            cmd += ['--dfcc', ob.entry]
            for f in filter(None, (ob.get('enforce') or '').split(',')):
                cmd += ['--enforce-contract', f]
            for f in filter(None, (ob.get('replace') or '').split(',')):
                cmd += ['--replace-call-with-contract', f]
        if ob.get('loops'):
            cmd += ['--apply-loop-contracts']
        cmd += shlex.split(ob.get('gi', ''))
        if len(cmd) == 1:
            return gb
        rc, so, se = sh(cmd + [gb, out], 200)
        if rc != 0:
            raise Err('goto-instrument failed for %s: %s' % (ob.name, (so + se)[-1500:]))
        return out

    def flags(self, ob, unwind=None):
        fl = list(CBMC_FLAGS) + ['--function', ob.entry]
        uw = unwind or (ob.get('unwind_t') if self.tier == 'thorough' else None) or ob.get('unwind')
        if uw:
            fl += ['--unwind', str(uw)]
        if ob.get('unwindset') and not unwind:
            fl += ['--unwindset', ob.get('unwindset')]
        fl += shlex.split(ob.get('opts', ''))
        if ob.get('solver') == 'cvc5':
            fl += ['--cvc5']
        elif ob.get('solver') == 'z3':
            fl += ['--z3']
        elif ob.get('solver', 'minisat') != 'minisat':
            fl += ['--sat-solver', ob.get('solver')]
        return fl

    def hloops(self, ob, gb):
        """constant-bounded loops of the harness text itself get their own unwinding"""
        key = ('loops', gb)
        if key not in self.gb:
            rc, so, se = sh(['cbmc', '--show-loops', '--json-ui', gb], 60)
            ids = []
            try:
                for e in json.loads(so):
                    for l in e.get('loops', []):
                        if os.path.abspath(l.get('sourceLocation', {}).get('file', '')).startswith(VERIF + '/'):
                            ids.append(l['name'])
            except Exception:
                pass
            self.gb[key] = ids
        return self.gb[key]

    def cbmc(self, ob, gb, unwind=None, extra=()):
        to = int(ob.get('timeout', '250'))
        if self.tier == 'thorough':
            to = max(to, int(ob.get('timeout_t', '800')))
        fl = self.flags(ob, unwind)
        h = self.hloops(ob, gb)
        if h and '--unwind' in fl:
            fl += ['--unwindset', ','.join('%s:%s' % (i, ob.get('hunwind', '34')) for i in h)]
        cmd = ['cbmc'] + fl + list(extra) + [gb]
        t = time.time()
        rc, so, se = sh(cmd, to)
        dt = time.time() - t
        if rc == 124:
            return None, dt, 'timeout'
        res, ts, msg = parse_cbmc(so)
        if res is None:
            return None, dt, (msg or '') + se[-500:]
        return res, ts, msg

    def decide_native(self, ob, r):
        """last resort when a proof does not apply to rewritten text: execute the contract on many drawn inputs"""
        r['backend'], r['kind'], n = 'execution', 'sampled', ob.get('native')
        try:
            exe = compile_native(ob.src, ob.entry, self.defs(ob), self.work)
        except Err as e:
            r['error'] = str(e)
            return r
        t0 = time.time()
        rc, so, se = sh([exe, 'search', str(SEED), n, os.path.join(self.work, ob.name + '.found')], 200, NENV)
        r['wall_s'] = round(time.time() - t0, 2)
        r['bound'] = 'executed: ' + so.strip()
        if rc == 1:
            r['fails'] = [{'property': ob.name, 'description': so.strip(), 'unwind': False, 'loc': ''}]
        elif rc != 0:
            r['error'] = 'native execution: rc=%d %s' % (rc, se[-300:])
        r['obligations'], r['discharged'] = 1, 1 if rc == 0 else 0
        return r

    def decide(self, ob):
        r = {'name': ob.name, 'kind': ob.get('kind', 'proof'), 'fn': ob.get('fn', ''), 'bound': ob.get('bound', ''),
             'obligations': 0, 'discharged': 0, 'reach': 0, 'fails': [], 'error': None, 'solver_s': 0.0,
             'backend': 'cbmc/' + ob.get('solver', 'minisat'), 'inapplicable': None}
        t0 = time.time()
        try:
            if ob.get('hook') and not set(ob.get('hook').split(',')) <= set(hooks_in_repo()):
                raise Err('the loop hook %s is no longer in the source' % ob.get('hook'))
            gb = None if ob.get('native') else self.instrument(ob)
        except Err as e:
            if ob.get('fallback'):
                r['inapplicable'] = str(e)[:800]
            else:
                r['error'] = str(e)
            return r
        if ob.get('native'):
            return self.decide_native(ob, r)
        res, ts, msg = self.cbmc(ob, gb)
        unwind = None
        if res is not None and any(p['status'] == 'FAILURE' and is_unwind(p) for p in res) and \
                not any(p['status'] == 'FAILURE' and not is_unwind(p) and not is_reach(p) for p in res) \
                and not ob.get('loops'):
            unwind = int(ob.get('unwind', '4')) * 2 + 2
            res2, ts2, msg2 = self.cbmc(ob, gb, unwind)
            if res2 is not None:
                res, ts = res2, ts + ts2
        r['wall_s'] = round(time.time() - t0, 2)
        if res is None:
            if ob.get('fallback'):
                r['inapplicable'] = 'undecided: ' + msg[:600]
            else:
                r['error'] = 'undecided: ' + msg[:1500]
            return r
        r['solver_s'] = round(ts or 0, 3)
        r['nobody'] = sorted(set(re.findall(r'no body for (?:function|callee) (\S+)', msg or '')))
        loopctr_fail = False
        for p in res:
            if is_reach(p):
                r['reach'] += 1
                if p['status'] != 'FAILURE':
                    r.setdefault('unreached', []).append(p['description'])
                continue
            r['obligations'] += 1
            if p['status'] == 'SUCCESS':
                r['discharged'] += 1
            elif p['status'] == 'FAILURE':
                r['fails'].append({'property': p['property'], 'description': p['description'],
                                   'unwind': is_unwind(p),
                                   'loc': '%s:%s' % (os.path.basename(p.get('sourceLocation', {}).get('file', '?')),
                                                     p.get('sourceLocation', {}).get('line', '?'))})
            else:
                r['fails'].append({'property': p['property'], 'description': p['description'] + ' [' + p['status'] + ']',
                                   'unwind': False, 'unknown': True, 'loc': ''})
        if ob.get('loops') and ob.get('fallback') and r['fails'] and all(f['unwind'] for f in r['fails']):
            r['inapplicable'] = 'a loop without a loop contract: ' + r['fails'][0]['description']
            r['fails'] = []
        if r['fails']:
            r['gb'], r['unwind'] = gb, unwind
        elif not r['inapplicable']:
            if r['obligations'] == 0:
                r['error'] = 'no obligations generated (vacuous)'
            elif r['reach'] == 0:
                r['error'] = 'no reachability guard in harness'
            elif r.get('unreached'):
                r['error'] = 'vacuous: unreachable guard ' + ', '.join(r['unreached'])
        return r

    def replay(self, ob, r):
        """Turn a failed obligation into an execution of the real code. Returns (path, concrete?)"""
        rd = os.path.join(OUT, 'replays')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s.%s.replay' % (self.prop, ob.name))
        head = ['# property %s' % self.prop, '# obligation %s (contracts/%s), functions: %s' %
                (ob.name, os.path.basename(ob.src), ob.get('fn', ''))]
        for f in r['fails'][:12]:
            head.append('# failed: %s  %s  %s' % (f['property'], f['loc'], f['description'].replace('\n', '\n# ')))
        tail_note = []
        real = [f for f in r['fails'] if not f['unwind'] and not f.get('unknown')] or r['fails']
        if not self.abstract(ob) and ob.get('replayable', '1') == '1' and not ob.get('native'):
            for f in real[:6] if 'gb' in r else []:
                if time.time() - self.t0 > 500:     # a check has 900 s in all
                    break
                res, _, _ = self.cbmc(ob, r['gb'], r.get('unwind'), ['--trace', '--property', f['property']])
                if not res:
                    continue
                tr = [p for p in res if p.get('trace')]
                if not tr:
                    continue
                vals = choices_from_trace(tr[0]['trace'])
                open(path, 'w').write('\n'.join(head + ['# harness %s %s' % (os.path.basename(ob.src), ob.name)] +
                                                [str(v) for v in vals]) + '\n')
                try:
                    exe = compile_native(ob.src, ob.entry, self.defs(ob), self.work)
                except Err as e:
                    tail_note.append('# native: %s' % str(e)[:500].replace('\n', '\n# '))
                    break
                rc, so, se = sh([exe, 'replay', path], 30, NENV)
                if rc not in (0, 77):
                    open(path, 'a').write('# native execution of the real code: rc=%d\n# %s\n' %
                                          (rc, se[-1500:].replace('\n', '\n# ')))
                    return path, True
                tail_note.append('# counterexample for %s did not fail natively (rc=%d)' % (f['property'], rc))
        # search for a failing input on the real code with the same (or the fallback) harness
        cands = [ob] if not self.abstract(ob) and ob.get('replayable', '1') == '1' else []
        cands += self.group(ob.get('fallback'))
        for c in cands:
            if time.time() - self.t0 > 650:
                break
            try:
                exe = compile_native(c.src, c.entry, self.defs(c), self.work)
            except Err:
                continue
            tmp = os.path.join(self.work, 'search.txt')
            rc, so, se = sh([exe, 'search', str(SEED), ob.get('search', '4000'), tmp], 60, NENV)
            if rc == 1 and os.path.exists(tmp):
                body = open(tmp).read()
                open(path, 'w').write('\n'.join(head + ['# harness %s %s' % (os.path.basename(c.src), c.name),
                                                        '# found by native search: ' + so.strip()]) + '\n' + body)
                return path, True
        with open(path, 'w') as fh:
            fh.write('\n'.join(head + tail_note + ['# no failing input found; verifier output above']) + '\n')
        return path, False

    def known(self):
        res = []
        p = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r'finding: property=(\S+) obligation=(\S+) match="([^"]*)"\s+(.*)', line)
                if m and m.group(1) == self.prop:
                    res.append(m.groups())
        return res

    def run(self, only=None):
        t0 = self.t0 = time.time()
        for t in ('cbmc', 'goto-cc', 'goto-instrument', 'gcc'):
            if not shutil.which(t):
                raise Err('missing tool ' + t)
        obs = [o for o in self.allobs.values() if o.name in only or o.entry in only] if only else list(self.obs)
        if not obs:
            raise Err('no obligations selected')
        for o in obs:          # compile serially (few distinct files)
            try:
                self.goto(o)
            except Err:
                pass
        with ThreadPoolExecutor(JOBS) as ex:
            results = list(ex.map(self.decide, obs))
        known = self.known()
        viol, knownhit = [], []
        byname = {r['name']: r for r in results}
        pool = ThreadPoolExecutor(JOBS)
        for ob, r in zip(list(obs), list(results)):
            if r['inapplicable']:   # the hook or loop contract does not fit the rewritten text: the stand-in decides
                fbs = self.group(ob.get('fallback'))
                new = [o for o in fbs if o.name not in byname]
                for o, fr in zip(new, pool.map(self.decide, new)):
                    byname[o.name] = fr
                    results.append(fr)
                    obs.append(o)
                if not fbs or any(byname[o.name]['error'] for o in fbs):
                    r['error'] = 'proof not applicable to the current text (%s) and fallback undecided' % r['inapplicable'][:300]
        for ob, r in zip(obs, results):
            if r['error'] and not r['fails']:
                # the proof could not be redone from the current source (the verifier gave up, the contract no longer
                # attaches, or a guard that must be reachable is not): this obligation is not discharged, and that is reported
                r['fails'] = [{'property': r['name'], 'description': 'not discharged on the current source: ' + r['error'],
                               'unwind': False, 'unknown': True, 'loc': ''}]
                r['undischarged'] = True
            if r['fails']:
                rest = []
                for f in r['fails']:
                    k = [k for k in known if k[1] == r['name'] and k[2] in f['description']]
                    if k:
                        knownhit.append(k[0][3])
                    else:
                        rest.append(f)
                if not rest:
                    continue
                r['fails'] = rest
                path, concrete = ('-', False) if os.environ.get('VERIF_NOREPLAY') else self.replay(ob, r)
                viol.append((r, path, concrete))
        self.evidence(obs, results, viol, knownhit, time.time() - t0)
        for r in results:
            if self.verbose:
                print('%-34s %-8s obl=%d ok=%d reach=%d fails=%d %.1fs %s' % (
                    r['name'], r['kind'], r['obligations'], r['discharged'], r['reach'], len(r['fails']),
                    r.get('wall_s', 0), (r['error'] or r['inapplicable'] or '')[:1500]))
                for f in r['fails'][:8]:
                    print('     FAIL %s %s %s' % (f['property'], f['loc'], f['description']))
        for k in sorted(set(knownhit)):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        if viol:
            viol.sort(key=lambda v: not v[2])
            anyc = any(v[2] for v in viol)
            for r, path, concrete in viol:
                if anyc and not concrete:
                    continue
                print('failed obligation %s: %s' % (r['name'], '; '.join(f['description'][:1500] for f in r['fails'][:4])))
                print('VIOLATION property=%s replay=%s%s' % (self.prop, path, '' if concrete else ' no-failing-input-found'))
            return 1
        tot = sum(r['discharged'] for r in results)
        print('%s held: %d obligations in %d harnesses discharged (%.1fs)' % (self.prop, tot, len(results), time.time() - t0))
        return 0

    def evidence(self, obs, results, viol, knownhit, wall):
        pr = [r for r in results if r['kind'] == 'proof' and not r['inapplicable']]
        bd = [r for r in results if r['kind'] != 'proof']
        level = 'proof' if pr else 'other'
        man = os.path.join(VERIF, 'MANIFEST.json')
        if os.path.exists(man):
            for c in json.load(open(man)).get('checks', []):
                if c['property'] == self.prop:
                    level = c['level']
        fns = sorted({f.strip() for r in pr for f in r['fn'].split(',') if f.strip()})
        bfns = sorted({f.strip() for r in bd for f in r['fn'].split(',') if f.strip()} - set(fns))
        scan = sum(open(f).read().count('V_ASSUME(') + open(f).read().count('__CPROVER_assume(') for f in self.files)
        cov = {
            'obligations': sum(r['obligations'] for r in pr),
            'discharged': sum(r['discharged'] for r in pr),
            'checker_cmd': 'goto-cc + goto-instrument --dfcc + cbmc 6.11 (run.py %s --tier %s)' % (self.prop, self.tier),
            'trusted_base': self.meta['trust'] + ['cbmc 6.11 C front end, memory model and SAT/SMT back end', 'gcc/glibc headers'],
            'functions_under_contract': fns,
            'functions_bounded_only': bfns,
            'bounded_obligations': sum(r['obligations'] for r in bd),
            'bounded_discharged': sum(r['discharged'] for r in bd),
            'bounds': {r['name']: r['bound'] for r in bd},
            'reachability_guards_confirmed': sum(r['reach'] for r in results) - sum(len(r.get('unreached', [])) for r in results),
            'assumption_statements_in_harness': scan,
            'external_functions_assumed_pure': sorted({f for r in results for f in r.get('nobody', [])}),
            'solver_s': round(sum(r['solver_s'] for r in results), 2),
            'per_obligation': [{k: r[k] for k in ('name', 'kind', 'fn', 'obligations', 'discharged', 'reach', 'solver_s', 'backend')}
                               for r in results],
            'not_applied': {r['name']: r['inapplicable'] for r in results if r['inapplicable']},
            'explanation': 'Hoare-style contracts over the real source, decided by cbmc; obligations marked proof are '
                           'unbounded in the inputs they quantify over, obligations marked bounded are complete up to the bound stated.',
        }
        ev = {'property': self.prop, 'tier': self.tier, 'seed': SEED, 'level': level, 'coverage': cov,
              'assumptions': self.meta['assume'] + self.meta['drop'], 'wall_s': round(wall, 2), 'violations': len(viol)}
        if viol:
            ev['coverage']['failed_obligations'] = [r['name'] for r, _, _ in viol]
        if knownhit:
            ev['coverage']['known_findings'] = sorted(set(knownhit))
        os.makedirs(OUT, exist_ok=True)
        with open(os.path.join(OUT, self.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)


def smoke(prop, n):
    R = Runner(prop, 'quick')
    bad = 0
    try:
        def one(ob):
            if R.abstract(ob) or ob.get('replayable', '1') != '1':
                return '%-34s (not executable)' % ob.name
            try:
                exe = compile_native(ob.src, ob.entry, R.defs(ob), R.work)
            except Err as e:
                return '%-34s %s' % (ob.name, e)
            tmp = os.path.join(R.work, ob.name + '.txt')
            rc, so, se = sh([exe, 'search', str(SEED), str(n), tmp], 300, NENV)
            s = '%-34s rc=%d %s' % (ob.name, rc, so.strip())
            if rc == 1:
                rc, so, se = sh([exe, 'replay', tmp], 30, NENV)
                s += '\n' + (so + se)[-2500:]
            return s
        with ThreadPoolExecutor(JOBS) as ex:
            for s in ex.map(one, R.nobs):
                print(s)
    finally:
        R.close()


def replay_file(path):
    txt = open(path).read()
    m = re.search(r'# harness (\S+) (\S+)', txt)
    prop = re.search(r'# property (\S+)', txt).group(1)
    R = Runner(prop, 'quick')
    try:
        ob = R.allobs[m.group(2)]
        exe = compile_native(ob.src, ob.entry, R.defs(ob), R.work)
        rc, so, se = sh([exe, 'replay', path], 30, NENV)
        print(so + se)
        print('exit', rc)
        return 0 if rc == 0 else 1
    finally:
        R.close()


def main():
    a = sys.argv[1:]
    if a and a[0] == '--smoke':
        return smoke(a[1], int(a[2]) if len(a) > 2 else 300)
    if a and a[0] == '--setup':
        for t in ('cbmc', 'goto-cc', 'goto-instrument', 'gcc'):
            if not shutil.which(t):
                print('missing tool ' + t)
                return 2
        os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
        return 0
    if a and a[0] == '--replay':
        return replay_file(a[1])
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    only = [a[i + 1] for i, x in enumerate(a) if x == '--only'] or None
    R = None
    try:
        R = Runner(prop, tier, '--verbose' in a)
        return R.run(only)
    except Err as e:
        print('ERROR %s' % e)
        return 2
    finally:
        if R and '--keep' not in a:
            R.close()


if __name__ == '__main__':
    sys.exit(main() or 0)
