#!/usr/bin/env python3
"""Decide one property: check.py <id> [--tier quick|thorough] | --replay FILE | --setup | --list

Compiles the property's harnesses against /repo's current headers, executes them symbolically with psx (Z3 decides),
replays every counterexample (and a sample of explored paths) natively, writes evidence/<id>.json.
Exit 0: holds on everything explored (or only known findings). Exit 1: confirmed violation. Exit 2: no answer."""
import sys, os, json, subprocess, tempfile, shutil, time, hashlib, threading, re, itertools
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('PSX_REPO', '/repo'); BUILD = os.path.join(V, 'build')
sys.path.insert(0, V)
NCPU = int(os.environ.get('PSX_CPUS', os.cpu_count() or 8))
CLANG_COMMON = '-O1 -g1 -fno-pie -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-stack-protector -emit-llvm -c -w'.split()
RT = ['rt_core.cpp', 'rt_nodes.cpp', 'rt_libc.c', 'rt_wchar.c', 'rt_locale.cpp', 'rt_sched.cpp', 'rt_io.cpp']
BUILTIN = set('free malloc calloc realloc memcpy memmove memset abort exit __assert_fail __cxa_atexit __cxa_thread_atexit _ZSt9terminatev _Znwm _Znam _ZdlPv _ZdlPvm _ZdaPv _ZdaPvm'.split())

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, **kw)

def stamp(paths):
    h = hashlib.sha256()
    for p in paths: h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

def setup(verbose=False):
    """Build the engine and the runtime models (no PlutoUtils code) into /verif/build."""
    os.makedirs(BUILD, exist_ok=True)
    eng = [os.path.join(V, 'engine', f) for f in ('psx.cpp', 'exec.h', 'expr.h', 'solver.h')]
    rts = [os.path.join(V, 'rt', f) for f in RT if os.path.exists(os.path.join(V, 'rt', f))]
    hdr = sorted(os.path.join(d, f) for d, _, fs in os.walk(os.path.join(V, 'rt')) for f in fs if d != os.path.join(V, 'rt') or f.endswith('.h'))
    tag = stamp(eng + rts + hdr); mark = os.path.join(BUILD, 'stamp')
    if os.path.exists(mark) and open(mark).read() == tag: return
    if os.path.exists(mark): os.remove(mark)
    jobs = [['g++', '-O2', '-std=c++17', '-I/usr/lib/llvm-18/include', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', '-w', eng[0], '-o', BUILD + '/psx.tmp', '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3']]
    for r in rts:
        o = os.path.join(BUILD, os.path.basename(r) + '.bc'); cc = ['clang-18', '-std=gnu11'] if r.endswith('.c') else ['clang++-18', '-std=c++20', '-fno-access-control']
        jobs.append(cc + CLANG_COMMON + ['-fno-builtin', '-I' + V + '/rt/overlay', '-I' + V + '/rt', r, '-o', o])
    with ThreadPoolExecutor(NCPU) as ex:
        for cmd, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode: print('setup failed: ' + ' '.join(cmd) + '\n' + r.stderr[-4000:]); sys.exit(2)
    os.replace(BUILD + '/psx.tmp', BUILD + '/psx')
    open(mark, 'w').write(tag)

class Unit:
    """One harness source compiled one way."""
    def __init__(self, src, std, flags, rt): self.src, self.std, self.flags, self.rt = src, std, tuple(flags), tuple(rt); self.key = hashlib.sha256(repr((src, std, self.flags, self.rt)).encode()).hexdigest()[:10]; self.lock = threading.Lock(); self.native = {}; self.path = os.path.join(V, 'h', src + '.cpp'); self.cut = False; self.have = None
    def lacks(self, entry): return self.have is not None and entry not in self.have
    def include(self): return ['-I' + V + '/rt/' + f[3:] for f in self.flags if f.startswith('OV:')] + ['-I' + V + '/rt/overlay', '-I' + V + '/rt', '-I' + V + '/h', '-I' + REPO + '/include']
    def pre(self): return [f for f in self.flags if not f.startswith(('N:', 'OV:'))]
    def compile(self, scratch):
        h = os.path.join(scratch, self.key + '.h.bc'); self.bc = os.path.join(scratch, self.key + '.bc')
        for attempt in range(6):
            r = sh(['clang++-18', '-std=c++' + str(self.std)] + CLANG_COMMON + ['-fno-caret-diagnostics', '-ferror-limit=0', '-ftemplate-backtrace-limit=0'] + self.pre() + self.include() + [self.path, '-o', h], timeout=600)
            if not r.returncode or not self.drop(r.stderr, scratch): break
        if r.returncode: return 'compile of %s (C++%s) failed:\n%s' % (self.src, self.std, r.stderr[-3000:])
        if self.cut: self.have = set(l.split()[-1] for l in sh(['llvm-nm-18', '--defined-only', h]).stdout.split('\n') if l)
        if '-fshort-wchar' in self.flags:
            sh(['llvm-dis-18', h, '-o', h + '.ll']); t = open(h + '.ll').read(); h += '.ll'; open(h, 'w').write(t.replace('!"wchar_size", i32 2}', '!"wchar_size", i32 4}'))
        r = sh(['llvm-link-18', h] + [os.path.join(BUILD, x + '.bc') for x in self.rt] + ['-o', self.bc])
        if r.returncode: return 'link of %s failed:\n%s' % (self.src, r.stderr[-3000:])
        return None
    def drop(self, diag, scratch):
        """Take out the entries for which the code under test cannot be compiled (a type that it does not accept, say), so that the others still decide; returns whether any was found."""
        t = open(self.path).read(); starts = [0]; spans = []; found = set()
        for m in re.finditer('\n', t): starts.append(m.end())
        for e in re.finditer(r'\bH\((\w+)\)\s*\{', t):
            d = 0
            for k in range(e.end() - 1, len(t)):
                d += (t[k] == '{') - (t[k] == '}')
                if d == 0: break
            spans.append((e.start(), k + 1))
        for n in re.findall(r'^#define (\w+)\([^)]*\)[^\n]*\bH\(', t, re.M): spans += [(e.start(), e.end()) for e in re.finditer(r'(?m)(?<!#define )\b' + n + r'\([^()]*\)', t)]   # entries made by a macro
        for m in re.finditer(r'^' + re.escape(self.path) + r':(\d+):(\d+):', diag, re.M):
            at = starts[int(m.group(1)) - 1] + int(m.group(2)) - 1
            found.update((x, y) for x, y in spans if x <= at < y and not t[t.rfind('\n', 0, x) + 1:x].startswith('#define'))
        if not found: return False
        for x, y in found: t = t[:x] + ''.join(c if c == '\n' else ' ' for c in t[x:y]) + t[y:]
        self.path = os.path.join(scratch, self.key + '.cpp'); open(self.path, 'w').write(t); self.cut = True; return True
    def native_exe(self, scratch, san):
        with self.lock:
            if san in self.native: return self.native[san]
            exe = os.path.join(scratch, self.key + '.' + san)
            nf = [f[2:] for f in self.flags if f.startswith('N:')]
            s = {'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr'], 'plain': ['-O0'], 'O2': ['-O2'], 'tsan': ['-O1', '-fsanitize=thread']}[san]; objs = []
            plain = [f for f in s if not (san == 'tsan' and f.startswith('-fsanitize'))] + (['-DPSX_TSAN'] if san == 'tsan' else [])   # the scheduler and the replay runtime stay invisible to ThreadSanitizer
            for x in ['psx_native.cpp'] + [x for x in self.rt if x in ('rt_sched.cpp', 'rt_io.cpp')]:
                o = exe + '.' + x + '.o'; r = sh(['g++', '-std=c++20', '-fno-access-control', '-g1', '-w', '-DPSX_NATIVE', '-c'] + plain + ['-I' + V + '/rt', os.path.join(V, 'rt', x), '-o', o], timeout=600); objs.append(o)
                if r.returncode: print('native build failed: ' + r.stderr[-2000:]); self.native[san] = None; return None
            r = sh(['g++', '-std=c++' + str(self.std), '-g1', '-w', '-DPSX_NATIVE', '-rdynamic'] + s + self.pre() + nf + self.include() + [self.path] + ([os.path.join(V, 'rt', 'rt_nodes.cpp')] if san == 'tsan' else []) + objs + ['-o', exe, '-ldl', '-pthread'], timeout=600)
            self.native[san] = exe if r.returncode == 0 else None
            if r.returncode: print('native build failed: ' + r.stderr[-2000:])
            return self.native[san]

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=0:exitcode=78', TSAN_OPTIONS='halt_on_error=1:exitcode=79:report_signal_unsafe=0:report_thread_leaks=0')

def native_run(exe, replay, obs=None, timeout=20, env=None):
    e = dict(ENV); e.update(env or {})
    try:
        r = sh([exe, replay] + ([obs] if obs else []), timeout=timeout, env=e)
        return r.returncode, r.stderr + r.stdout
    except subprocess.TimeoutExpired: return 'timeout', ''

def replay_text(job, unit, inputs, note=''):
    t = '#entry %s\n#src %s\n#std %s\n#flags %s\n#rt %s\n' % (job['entry'], unit.src, unit.std, ' '.join(unit.flags), ' '.join(unit.rt))
    for k, v in sorted(job.get('params', {}).items()): t += '#param %s %d\n' % (k, v)
    if note: t += '#note %s\n' % note.replace('\n', ' ')
    return t + inputs

def confirm(unit, scratch, path, kind):
    """Replay natively; returns (confirmed, description)."""
    tries = [('asan', {}), ('asan', {'ASAN_OPTIONS': ENV['ASAN_OPTIONS'] + ':malloc_fill_byte=190:max_malloc_fill_size=100000'}), ('plain', {'MALLOC_PERTURB_': '165'}), ('O2', {'MALLOC_PERTURB_': '90'})]
    if kind == 'race': tries = [('tsan', {})]
    last = ''
    for san, env in tries:
        exe = unit.native_exe(scratch, san)
        if not exe: last = 'native build failed'; continue
        rc, out = native_run(exe, path, env=env, timeout=30)
        m = re.search(r'PSX-VIOLATION: .*|SUMMARY: .*|WARNING: ThreadSanitizer.*|runtime error: .*|terminate called.*|Assertion .* failed.*', out)
        if 'PSX-ERROR' in out: last = 'replay error: ' + out[-300:]; continue
        if rc == 'timeout':
            return True, 'native replay (%s) does not terminate' % san
        if rc in (11, 77, 78, 79) or (isinstance(rc, int) and rc < 0): return True, 'native replay (%s): %s' % (san, m.group(0) if m else 'exit %s' % rc)
        last = 'native replay (%s) exit %s %s' % (san, rc, out[-200:].strip())
        if 'PSX-OK' not in out and 'PSX-END' not in out and 'PSX-ASSUME' not in out and rc != 0: return True, 'native replay (%s): exit %s %s' % (san, rc, out[-200:].strip())
    return False, last

PROCS = set()
def run_job(job, unit, scratch, seed, deadline, stop):
    out = os.path.join(scratch, 'o%d.json' % job['n']); left = max(5.0, deadline - time.time()); lim = min(job['time'], left)
    cmd = [BUILD + '/psx', unit.bc, '--entry', job['entry'], '--out', out, '--max-time', '%.1f' % lim, '--seed', str(seed), '--samples', str(job.get('samples', 2))]
    for k, v in job.get('params', {}).items(): cmd += ['--param', '%s=%d' % (k, v)]
    cmd += job.get('opts', [])
    t = time.time()
    pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace'); PROCS.add(pr)
    try: so, se = pr.communicate(timeout=lim + 120)
    except subprocess.TimeoutExpired: pr.kill(); pr.communicate(); return {'error': 'engine did not stop at its time limit', 'job': job}
    finally: PROCS.discard(pr)
    r = subprocess.CompletedProcess(cmd, pr.returncode, so, se)
    if stop.is_set() and r.returncode < 0: return {'skipped': 1, 'job': job}
    if not os.path.exists(out): return {'error': 'engine failed (rc %s): %s' % (r.returncode, r.stderr[-500:]), 'job': job}
    try: d = json.load(open(out))
    except Exception as e: return {'error': 'bad engine report: %s %s' % (e, r.stderr[-300:]), 'job': job}
    d['job'] = job; d['rc'] = r.returncode; d['t'] = time.time() - t
    if r.returncode == 3: d['error'] = 'engine: ' + r.stderr[-500:] + ' ' + ';'.join(d.get('why_incomplete', []))
    return d

def known_findings(pid):
    f = os.path.join(V, 'known_findings.jsonl'); res = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l and not l.startswith('#') and l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'open': res.append(d)
    return res

def main():
    a = sys.argv[1:]
    if not a or a[0] == '--help': print(__doc__); return 2
    if a[0] == '--setup': setup(); return 0
    import props
    if a[0] == '--list':
        for p in props.PROPS: print(p, len(props.jobs(p, 'quick')), len(props.jobs(p, 'thorough')))
        return 0
    if a[0] == '--replay':
        meta = {}
        for l in open(a[1]):
            m = re.match(r'#(src|std|flags|rt|kind) ?(.*)', l)
            if m: meta[m.group(1)] = m.group(2).strip()
            m = re.match(r'#note (\w+):', l)
            if m: meta['kind'] = m.group(1)
        u = Unit(meta['src'], meta['std'], meta['flags'].split(), meta['rt'].split()); sc = tempfile.mkdtemp(prefix='psx')
        try: ok, d = confirm(u, sc, os.path.abspath(a[1]), meta.get('kind', ''))
        finally: shutil.rmtree(sc)
        print(('violation confirmed: ' if ok else 'not reproduced: ') + d); return 1 if ok else 0
    pid = a[0]; tier = 'quick'
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    verbose = '--verbose' in a; keep_going = '--keep-going' in a; skipped = []; dropped = []; only = a[a.index('--only') + 1] if '--only' in a else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); setup()
    jobs = props.jobs(pid, tier); deadline = t0 + (props.BUDGET.get(pid, {}).get(tier) or (330 if tier == 'quick' else 780))
    if only: jobs = [j for j in jobs if only in j['entry']]
    LD = os.environ.get('PSX_LINES_DIR'); LK = lambda j: repr((j['src'], j['entry'], j['std'], sorted(j.get('params', {}).items()), j.get('flags', [])))
    if LD and os.environ.get('PSX_LINE'):   # development: only the jobs which execute one line, the shortest first
        L = json.load(open(os.path.join(LD, pid + '.json'))); jobs = [dict(j, weight=-L[LK(j)]['wall']) for j in jobs if LK(j) in L and os.environ['PSX_LINE'] in L[LK(j)]['lines']]
    units = {}
    for i, j in enumerate(jobs):
        j['n'] = i; u = Unit(j['src'], j['std'], j.get('flags', []), j['rt']); j['unit'] = units.setdefault(u.key, u)
    scratch = tempfile.mkdtemp(prefix='psx-%s-' % pid); errors = []; results = []; confirmed = []; unconfirmed = []; known = []; validated = 0; mism = []; samples = []
    kf = known_findings(pid)
    rdir = os.path.join(V, 'evidence', 'replays', pid)
    try:
        with ThreadPoolExecutor(NCPU) as ex:
            futs = {}; ul = list(units.values())
            comp = {u.key: ex.submit(u.compile, scratch) for u in ul}
            nat = {}; stop = threading.Event(); lock = threading.Lock(); broken = set()
            def matches(j, v): return [k for k in kf if k['entry'] == j['entry'] and k['msg'] == v['msg'] and (not k.get('inputs_re') or re.search(k['inputs_re'], v['inputs'], re.S))]
            def judge(d):   # replay what a job reports against the real code; once a violation is confirmed the remaining jobs are pointless
                j = d['job']
                for v in d['violations']:
                    kn = matches(j, v)
                    os.makedirs(rdir, exist_ok=True); name = '%s_%s_%s.txt' % (j['entry'], j['std'], hashlib.sha256((v['msg'] + v['inputs'] + repr(j.get('params')) + repr(j.get('flags'))).encode()).hexdigest()[:10]); path = os.path.join(rdir, name)
                    if stop.is_set() and not kn: continue
                    open(path, 'w').write(replay_text(j, j['unit'], v['inputs'], v['kind'] + ': ' + v['msg'] + ' at ' + v['where']))
                    ok, desc = confirm(j['unit'], scratch, path, v['kind'])
                    rec = dict(entry=j['entry'], std=j['std'], params=j.get('params', {}), kind=v['kind'], msg=v['msg'], where=v['where'], trace=v['trace'][:8], inputs=v['inputs'], replay=path, native=desc)
                    with lock:
                        if ok and kn: known.append((kn[0], rec))
                        elif ok:
                            confirmed.append(rec)
                            if len(confirmed) >= 2 and not keep_going and not stop.is_set():
                                stop.set()
                                for q in list(PROCS): q.kill()
                        else: unconfirmed.append(rec)
            def staged(j):
                if stop.is_set(): return {'skipped': 1, 'job': j}
                d = run_job(j, j['unit'], scratch, seed, deadline, stop)
                if 'error' not in d and 'skipped' not in d and d['violations']: judge(d)
                return d
            for u in ul:
                e = comp[u.key].result()
                if e: errors.append(e); broken.add(u.key)
            run = [j for j in jobs if j['unit'].key not in broken and not j['unit'].lacks(j['entry'])]; dropped = sorted(set('%s (C++%s)' % (j['entry'], j['std']) for j in jobs if j['unit'].lacks(j['entry'])))
            if dropped and not run: errors.append('nothing could be compiled: ' + ', '.join(dropped))
            if run:
                for j in sorted(run, key=lambda j: -j.get('weight', 1)): futs[j['n']] = ex.submit(staged, j)
                if tier == 'thorough' or True:
                    for u in ul:
                        if u.key not in broken: nat[u.key] = ex.submit(u.native_exe, scratch, 'plain')
                results = [futs[j['n']].result() for j in run]
                skipped = [d for d in results if 'skipped' in d]; results = [d for d in results if 'skipped' not in d]
                def vsample(d):
                    j = d['job']; u = j['unit']; exe = u.native_exe(scratch, 'plain'); res = []
                    if not exe: return [('err', 'native build failed', None)]
                    for k, s in enumerate(d.get('samples', [])):
                        p = os.path.join(scratch, 's%d_%d' % (j['n'], k)); open(p, 'w').write(replay_text(j, u, s['inputs']))
                        rc, out = native_run(exe, p, p + '.obs', timeout=60)
                        got = open(p + '.obs').read() if os.path.exists(p + '.obs') else ''
                        ok = rc == 0 and ('PSX-OK' in out or 'PSX-END' in out) and got == s['observed'] and 'DIVERGED' not in out
                        res.append(('ok' if ok else 'bad', 'rc=%s %s observed %r expected %r' % (rc, out[-300:], got[:200], s['observed'][:200]), s))
                    return res
                goodr = [d for d in results if 'error' not in d] if not confirmed else []
                for d, rs in zip(goodr, ex.map(vsample, goodr)):
                    for st, msg, s in rs:
                        if st == 'ok':
                            validated += 1
                            if len(samples) < 6: samples.append({'entry': d['job']['entry'], 'params': d['job'].get('params', {}), 'std': d['job']['std'], 'inputs': s['inputs'], 'observed': s['observed'][:400]})
                        else: mism.append('%s: %s' % (d['job']['entry'], msg)); 
        for d in results:
            j = d['job']
            if 'error' in d: errors.append('%s: %s' % (j['entry'], d['error'])); continue
    finally: shutil.rmtree(scratch, ignore_errors=True)
    good = [d for d in results if 'error' not in d]; covers = {}
    for d in good:
        for k, v in d['covers'].items(): covers[k] = covers.get(k, 0) + v
        miss = [c for c in d['job'].get('covers', []) if c not in d['covers']]
        if miss and not confirmed and not d['violations']: errors.append('%s %s: never reached: %s (%s)' % (d['job']['entry'], d['job'].get('params'), ', '.join(miss), '; '.join(d['why_incomplete'])))
    S = lambda k: sum(d[k] for d in good)
    fns = sorted(set(f for d in good for f in d['pluto_functions'])); lines = set(l for d in good for l in d['pluto_lines'])
    if LD and not os.environ.get('PSX_LINE'): json.dump({LK(d['job']): {'wall': d['wall_s'], 'lines': d['pluto_lines']} for d in good}, open(os.path.join(LD, pid + '.json'), 'w'))
    exhaustive = bool(good) and all(d['complete'] for d in good) and not errors and not skipped and not dropped
    lv = props.LEVEL.get(pid, 'model_checking')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': lv, 'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed),
          'assumptions': props.assumptions(pid),
          'coverage': {'states': S('paths') + S('sched_states'), 'transitions': S('instructions'), 'traces_validated_against_impl': validated, 'samples': samples or ['(no completed path sampled)'], 'exhaustive': exhaustive,
            'rule': 'states = symbolic paths + scheduler states explored; transitions = IR instructions executed symbolically; every assertion and memory access on every path is decided by Z3 for all input values of that path',
            'functions_encoded': fns, 'pluto_lines_executed': len(lines), 'bounds': props.BOUNDS.get(pid, ''), 'queries': S('queries'), 'z3_calls': S('z3_calls'), 'z3_sat': S('sat'), 'z3_unsat': S('unsat'), 'z3_unknown': S('unknown'), 'solver_s': round(S('solver_s'), 3),
            'assertions_checked': S('asserts'), 'merged_states': S('merged'), 'cover_labels': covers,
            'jobs': [{'entry': d['job']['entry'], 'std': d['job']['std'], 'flags': d['job'].get('flags', []), 'params': d['job'].get('params', {}), 'paths': d['paths'], 'complete': d['complete'], 'why_incomplete': d['why_incomplete'], 'z3_calls': d['z3_calls'], 'solver_s': d['solver_s'], 'wall_s': d['wall_s']} for d in good]}}
    if confirmed: ev['coverage']['counterexamples'] = confirmed
    if unconfirmed: ev['coverage']['unconfirmed'] = unconfirmed
    if mism: ev['coverage']['native_disagreements'] = mism
    if errors: ev['coverage']['errors'] = errors
    if dropped: ev['coverage']['not_compiled'] = dropped
    if known: ev['coverage']['known_findings'] = [k['id'] for k, _ in known]
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for k, r in known: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for r in confirmed:
        print('VIOLATION property=%s replay=%s' % (pid, r['replay'])); print('  %s: %s at %s [%s C++%s]\n  %s' % (r['kind'], r['msg'], r['where'], r['entry'], r['std'], r['native']))
    for r in unconfirmed: print('UNCONFIRMED (not reported): %s %s at %s: %s\n%s' % (r['entry'], r['msg'], r['where'], r['native'], r['inputs'] if verbose else ''))
    inc = {}
    for d in good:
        for w in d['why_incomplete']: inc.setdefault(w, []).append('%s/C++%s' % (d['job']['entry'], d['job']['std']))
    for w, l in inc.items(): print('INCOMPLETE: %s (%s)' % (w, ', '.join(l[:4]) + (' ...' if len(l) > 4 else '')))
    for e in errors[:8]: print('ERROR: ' + e)
    if dropped: print('NOT COMPILED: ' + ', '.join(dropped) + ': the code does not compile for what these jobs use; they decide nothing')
    for m in mism[:5]: print('DISAGREEMENT with native execution: ' + m)
    print('%s %s: %d jobs, %d paths, %d scheduler states, %d z3 calls (%.1f s), %d paths validated natively, %s, %.1f s' % (pid, tier, len(jobs), S('paths'), S('sched_states'), S('z3_calls'), S('solver_s'), validated, 'exhaustive within bounds' if exhaustive else 'not exhaustive', time.time() - t0))
    if verbose:
        for d in sorted(good, key=lambda d: -d['wall_s'])[:15]: print('   %-24s C++%s %-40s paths %-6d sched %-7d wall %.1f solver %.1f rss %d %s' % (d['job']['entry'], d['job']['std'], d['job'].get('params'), d['paths'], d['sched_states'], d['wall_s'], d['solver_s'], d['rss_mb'], d['why_incomplete']))
    if confirmed: return 1
    if errors or unconfirmed or mism: return 2
    return 0
if __name__ == '__main__': sys.exit(main())
