#!/usr/bin/env python3
"""Decides one property: compiles /repo's current sources to bitcode, runs the harnesses of the
property in the symbolic executor, replays counterexamples (and a sample of passing paths) on the
natively compiled real code, writes evidence/<id>.json.
exit 0: held on everything explored; 1: VIOLATION (replayed); 2: no answer (says why)."""
import sys, os, re, json, time, subprocess, itertools, tempfile, shutil, hashlib, fcntl
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(ROOT, '.build')
sys.path.insert(0, ROOT)
from registry import PROPS

NJOBS = int(os.environ.get('VF_JOBS', '8'))
ENV_SRC = ['env.c']
CLANG = ['clang', '-O0', '-g', '-emit-llvm', '-c', '-Wno-everything', '-fno-builtin', '-DRUBY_EXPORT']
GCC = ['gcc', '-O0', '-g', '-c', '-w', '-fno-builtin', '-fsanitize=address', '-fsanitize=shift,integer-divide-by-zero', '-fno-sanitize-recover=all',
       '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-DRUBY_EXPORT']
# data races: only the real code is instrumented
PLAIN = ['gcc', '-O0', '-g', '-c', '-w', '-fno-builtin', '-fno-omit-frame-pointer', '-DRUBY_EXPORT']
TSAN = PLAIN + ['-fsanitize=thread']
INC = ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + ROOT + '/engine', '-I' + ROOT + '/harness']


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def die(msg, code=2):
    print('NO-ANSWER: ' + msg)
    sys.exit(code)


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(ROOT, 'engine', 'vfsym.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'vfsym-' + h)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            flags = sh(['llvm-config', '--cppflags']).stdout.split()
            ld = sh(['llvm-config', '--ldflags']).stdout.split()
            r = sh(['clang++', '-O2', '-std=c++17'] + flags + ['-o', out + '.tmp', src] + ld + ['-lLLVM-18', '-lz3'])
            if r.returncode:
                die('engine build failed\n' + r.stdout[-3000:])
            os.rename(out + '.tmp', out)
    return out


def repo_sources(kind):
    d = os.path.join(REPO, 'src')
    srcs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.c'))
    if kind == 'sample':
        srcs += [os.path.join(REPO, 'sample', f) for f in ('enclose_io_unix.c',)]
    return srcs


class Work:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.dir = tempfile.mkdtemp(prefix='vf_%s_' % pid)
        self.bc, self.obj = {}, {}
        self.redef = None

    def defs(self, h):
        d = ['-DVF_TIER_' + self.tier.upper()]
        if self.tier == 'thorough':
            d.append('-DVF_THOROUGH')
        return d + list(h.get('defs', [])) + (['-DVF_LOCKS'] if h.get('locks') else []) + (['-DVF_RO', '-DVF_LOCKS'] if h.get('ro') else [])

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def compile_repo(self, kind, extra=()):
        key = (kind, tuple(extra))
        if key in self.bc:
            return self.bc[key]
        out, jobs = [], []
        for i, s in enumerate(repo_sources(kind)):
            o = self.path('r%d_%d_%s.bc' % (len(self.bc), i, os.path.basename(s)))
            inc = INC + (['-I' + REPO + '/sample'] if kind == 'sample' else [])
            jobs.append(CLANG + inc + list(extra) + [s, '-o', o])
            out.append(o)
        with ThreadPoolExecutor(NJOBS) as ex:
            for r, j in zip(ex.map(sh, jobs), jobs):
                if r.returncode:
                    die('cannot compile %s\n%s' % (j[-3], r.stdout[-3000:]))
        self.bc[key] = out
        return out

    def compile_own(self, src, extra=()):
        o = self.path('o_' + hashlib.md5((src + repr(extra)).encode()).hexdigest()[:10] + '.bc')
        if not os.path.exists(o):
            inc = INC + ['-I' + REPO + '/sample']
            r = sh(CLANG + inc + list(extra) + [src, '-o', o])
            if r.returncode:
                die('cannot compile %s\n%s' % (src, r.stdout[-3000:]))
        return o

    def native(self, h, race=False):
        """the same harness and the same sources, compiled natively with sanitizers"""
        name = h['name']
        out = self.path(('t_' if race else 'n_') + h['id'])
        if os.path.exists(out):
            return out
        kind, extra = h.get('kind', 'lib'), tuple(h.get('repo_defs', [])) + (('-finstrument-functions',) if h.get('locks') else ())
        own = [os.path.join(ROOT, 'engine', f) for f in ENV_SRC + h.get('env', [])]
        inc = INC + ['-I' + REPO + '/sample']
        d = self.path(('tsan_' if race else 'nat_') + h['id'])
        os.makedirs(d, exist_ok=True)
        jobs, objs, robjs = [], [], []
        for s in own + [os.path.join(ROOT, 'engine', 'native.c'), os.path.join(ROOT, 'harness', name + '.c')]:
            o = os.path.join(d, os.path.basename(s) + '.o')
            jobs.append((GCC if not race else PLAIN) + inc + self.defs(h) + [s, '-o', o]); objs.append(o)
        for s in repo_sources(kind):
            o = os.path.join(d, 'r_' + os.path.basename(s) + '.o')
            jobs.append((GCC if not race else TSAN) + inc + list(extra) + [s, '-o', o]); robjs.append(o)
        with ThreadPoolExecutor(NJOBS) as ex:
            for r, j in zip(ex.map(sh, jobs), jobs):
                if r.returncode:
                    die('native build failed: %s\n%s' % (j[-3], r.stdout[-3000:]))
        syms = sh(['nm', '--defined-only'] + objs).stdout
        names = sorted(set(re.findall(r' [TDB] vf_r_(\w+)', syms)))
        rf = os.path.join(d, 'redef')
        open(rf, 'w').write(''.join('%s vf_r_%s\n' % (n, n) for n in names))
        for o in robjs:
            sh(['objcopy', '--redefine-syms=' + rf, o])
        r = sh(['gcc', '-fsanitize=thread' if race else '-fsanitize=address,undefined', '-o', out] + objs + robjs + ['-lz', '-lpthread'])
        if r.returncode:
            die('native link failed\n' + r.stdout[-3000:])
        return out

    def replay(self, h, inp, timeout=60, race=False):
        exe = self.native(h, race)
        fd, f = tempfile.mkstemp(dir=self.dir)
        with os.fdopen(fd, 'w') as fo:
            for w, v in inp:
                fo.write('%d %d\n' % (w, v))
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1', UBSAN_OPTIONS='exitcode=98', TSAN_OPTIONS='exitcode=97:halt_on_error=1')
        try:
            p = subprocess.run([exe, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, env=env, cwd=self.dir)
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            return 'timeout', '', 'timeout'


def main():
    if '--setup' in sys.argv:
        print('engine: ' + build_engine())
        return
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if '--quick' in sys.argv:
        tier = 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    only = [a[7:] for a in sys.argv if a.startswith('--only=')]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]
    t0 = time.time()
    engine = build_engine()
    W = Work(pid, tier)
    try:
        rc = decide(pid, P, tier, seed, engine, W, t0, only)
    finally:
        if '--keep' not in sys.argv:
            shutil.rmtree(W.dir, ignore_errors=True)
        else:
            print('kept ' + W.dir)
    sys.exit(rc)


def decide(pid, P, tier, seed, engine, W, t0, only):
    budget = P.get('budget', {}).get(tier, 700 if tier == 'quick' else 6 * 3600)
    hs = [dict(h) for h in P['harnesses'] if (tier == 'thorough' or not h.get('thorough_only')) and not (tier == 'thorough' and h.get('quick_only'))]
    if only:
        hs = [h for h in hs if h['name'] in only]
    tasks = []
    for i, h in enumerate(hs):
        h['id'] = '%s_%d' % (h['name'], i)
        kind, extra = h.get('kind', 'lib'), h.get('repo_defs', []) + (['-finstrument-functions'] if h.get('locks') else [])
        repo = W.compile_repo(kind, extra)
        own = [W.compile_own(os.path.join(ROOT, 'harness', h['name'] + '.c'), W.defs(h))]
        own += [W.compile_own(os.path.join(ROOT, 'engine', f)) for f in ENV_SRC + h.get('env', []) + ['rt.c']]
        par = h.get('par_thorough', h.get('par', [])) if tier == 'thorough' else h.get('par', [])
        combos = list(itertools.product(*[range(n) for n in par])) or [()]
        if h.get('filter'):
            combos = [c for c in combos if h['filter'](c)]
        if tier == 'quick' and h.get('filter_quick'):
            combos = [c for c in combos if h['filter_quick'](c)]
        h['tasks'] = []
        for c in combos:
            cmd = [engine, '--root', ROOT] + own
            for r in repo:
                cmd += ['-r', r]
            for k, v in enumerate(c):
                cmd += ['--case', '%d=%d' % (k, v)]
            cmd += ['--max-steps', str(h.get('steps', 150000000)), '--max-depth', str(h.get('depth', 300)), '--samples', '4' if len(combos) > 4 else '12', '--max-viol', str(h.get('max_viol', 1 if not h.get('known') else 1))]
            tasks.append((h, c, cmd))
    stop = {'v': False}
    verbose = '-v' in sys.argv

    def runtask(t):
        h, c, cmd = t
        left = budget - (time.time() - t0)
        if stop['v'] and not h.get('known'):
            return h, c, None
        if left < 2:
            return h, c, {'complete': False, 'error': 'property budget exhausted', 'violations': []}
        out = W.path('out_%s_%s.json' % (h['id'], '_'.join(map(str, c))))
        tl = min(left, h.get('timeout', 1e9))
        try:
            p = subprocess.run(cmd + ['--timeout', str(tl), '-o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=left + 60)
            j = json.load(open(out))
        except (subprocess.TimeoutExpired, OSError, ValueError) as e:
            j = {'complete': False, 'error': 'engine: %r' % (e,), 'violations': []}
            try:
                j['error'] += ' ' + p.stdout[-300:]
            except Exception:
                pass
        if j['violations'] and not h.get('known'):
            stop['v'] = True
        if verbose:
            print('  %s %s: complete=%s paths=%s queries=%s solver=%.1f wall=%.1f %s %s' % (h['name'], c, j['complete'], j.get('paths'), j.get('queries'), j.get('solver_s', 0), j.get('wall_s', 0), j['error'], [v['msg'] for v in j['violations']]))
        return h, c, j

    # longest harnesses first
    tasks.sort(key=lambda t: -t[0].get('cost', 1))
    results = []
    with ThreadPoolExecutor(NJOBS) as ex:
        for r in ex.map(runtask, tasks):
            results.append(r)
    agg = dict(paths=0, forks=0, instructions=0, queries=0, sat=0, unsat=0, assertions=0, hard_queries=0, solver_s=0.0, pruned=0)
    funcs, problems, viols, known, nrep = set(), [], [], [], 0
    per = {}
    samples_out = []
    for h, c, j in results:
        if j is None:
            continue
        for k in agg:
            agg[k] += j.get(k, 0)
        funcs.update(j.get('functions', []))
        d = per.setdefault(h['id'], dict(harness=h['name'], bounds=h.get('bounds', ''), cases=0, paths=0, queries=0, solver_s=0.0, longest_path=0, complete=True, tags=set()))
        d['cases'] += 1; d['paths'] += j.get('paths', 0); d['queries'] += j.get('queries', 0); d['solver_s'] += j.get('solver_s', 0); d['longest_path'] = max(d['longest_path'], j.get('longest_path', 0))
        d['tags'].update(j.get('tags', []))
        if h.get('known'):
            for v in j['violations']:
                rc, so, se = W.replay(h, v['in'])
                if rc not in (0, 77, 78):
                    known.append((h, v))
                    break
            if j['error']:
                problems.append('%s %s: %s' % (h['name'], c, j['error']))
            continue
        if not j['complete'] and not j['violations']:
            d['complete'] = False
            problems.append('%s %s: %s' % (h['name'], c, j['error'] or 'incomplete'))
        for v in j['violations']:
            viols.append((h, c, v))
    # counterexamples: replay on the real code
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    confirmed = []
    for h, c, v in viols:
        if len(confirmed) >= 3:
            break
        rc, so, se = W.replay(h, v['in'], 20 if v['kind'] in ('steps',) else 60, v['kind'] == 'race')
        if rc in (0, 77, 78):
            problems.append('counterexample of %s %s does not replay natively (rc %s): %s %s at %s in=%s' % (h['name'], c, rc, v['kind'], v['msg'], v['where'], v['in']))
            continue
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s_%d.json' % (pid, len(confirmed)))
        json.dump(dict(property=pid, harness=h['name'], case=c, kind=v['kind'], message=v['msg'], where=v['where'], inputs=v['in'],
                       native_exit=rc, native_output=(so[-1500:] + se[-3000:])), open(rp, 'w'), indent=1)
        confirmed.append((h, v, rp, rc))
    # passing paths: replay a sample and compare observations
    if not confirmed:
        for h in hs:
            if h.get('known') or h.get('no_native'):
                continue
            ss = [s for hh, c, j in results if hh is h and j for s in j.get('samples', [])]
            step = max(1, len(ss) // (6 if tier == 'quick' else 40))
            for s in ss[::step][:(8 if tier == 'quick' else 60)]:
                rc, so, se = W.replay(h, s['in'])
                obs = [int(x) for x in re.findall(r'VFOBS (\d+)', so)]
                if rc != 0 or 'VFEND' not in so or obs != s['obs']:
                    problems.append('path of %s disagrees with the native run (rc %s, obs %s vs %s): %s %s in=%s' % (h['name'], rc, obs[:6], s['obs'][:6], so[-300:], se[-600:], s['in']))
                else:
                    nrep += 1
                    if len(samples_out) < 12:
                        samples_out.append(dict(harness=h['name'], inputs=' '.join('%d:%x' % (w, v) for w, v in s['in'][:60]), observations=' '.join('%x' % o for o in s['obs'][:16])))
        # vacuity: every witness the harness names must have been reached on a completed path
        for h in hs:
            if h.get('known') or h['id'] not in per:
                continue
            src = open(os.path.join(ROOT, 'harness', h['name'] + '.c')).read()
            want = set(re.findall(r'vf_reach\("([^"]+)"\)', src)) - set(h.get('unreached', []))
            miss = set() if h.get('locks') or h.get('ro') else want - per[h['id']]['tags']
            if miss:
                problems.append('%s: witness not reached: %s' % (h['name'], ', '.join(sorted(miss))))
            if not per[h['id']]['paths']:
                problems.append('%s: no path reaches the end' % h['name'])
    for d in per.values():
        d['tags'] = sorted(d['tags']); d['solver_s'] = round(d['solver_s'], 2)
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2), violations=len(confirmed),
              assumptions=P.get('assumptions', []) + COMMON_ASSUMPTIONS,
              coverage=dict(states=agg['paths'], transitions=agg['instructions'], traces_validated_against_impl=nrep,
                            samples=samples_out or [dict(note='no passing path replayed')],
                            explanation='Symbolic execution of the bitcode of the real sources; states = symbolic paths completed (each covers all input values satisfying its path condition), transitions = instructions interpreted, traces = passing paths whose solver model was replayed on the natively compiled code with equal observations.',
                            forks=agg['forks'], solver_queries=agg['queries'], queries_sat=agg['sat'], queries_unsat=agg['unsat'], hard_queries=agg['hard_queries'],
                            assertions_decided=agg['assertions'], solver_s=round(agg['solver_s'], 2), functions_encoded=sorted(funcs),
                            bounds=[d['harness'] + ': ' + d['bounds'] for d in per.values()], harnesses=list(per.values()),
                            exhaustive=not problems, problems=problems[:10], known_findings=[h['known'] for h, v in known]))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    for h, v in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, h['known']))
    print('%s %s: %d paths, %d queries, solver %.1f s, %d functions, %d native replays, wall %.1f s' % (pid, tier, agg['paths'], agg['queries'], agg['solver_s'], len(funcs), nrep, wall))
    if confirmed:
        for h, v, rp, rc in confirmed:
            print('  %s: %s: %s at %s (native exit %s)' % (h['name'], v['kind'], v['msg'], v['where'], rc))
        print('VIOLATION property=%s replay=%s' % (pid, confirmed[0][2]))
        return 1
    if problems:
        for p in problems[:10]:
            print('NO-ANSWER: ' + p)
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    'little-endian x86-64 as compiled by clang -O0; LLVM bitcode semantics as implemented by engine/vfsym.cpp (validated by native replays); Z3 4.8.12 is right',
    'zlib is replaced by a codec model: a compressed block is a tag that selects registered content, or fails; zlib itself is outside the claim',
    'system calls, heap, mutexes and stdio are the stand-ins of engine/env*.c, constrained only by their documented contract',
    'images are well formed unless the harness says otherwise; sizes are bounded as stated per harness',
]
if __name__ == '__main__':
    main()
