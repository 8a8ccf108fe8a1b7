#!/usr/bin/env python3
"""Driver: decides one property by running its symbolic jobs over /repo's current sources.

usage: run.py PROPERTY [--tier quick|thorough] [--job N] [-v]      run.py --replay FILE
"""
import json, os, re, zlib, shutil, subprocess, sys, tempfile, time, glob, concurrent.futures as cf, threading
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
RSYM = os.path.join(HERE, 'engine/build/rsym')
sys.path.insert(0, HERE)
NPROC = max(1, min(8, os.cpu_count() or 1))
CLANG = 'clang-18'

class BuildError(Exception): pass
def sh(cmd, cwd=None, timeout=600, env=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=env)
    if r.returncode: raise BuildError(' '.join(cmd)[:300] + '\n' + r.stdout[-3000:])
    return r.stdout

def ensure_engine():
    srcs = [os.path.join(HERE, 'engine', f) for f in ('rsym.cpp', 'poly.cpp', 'poly.h', 'Makefile')]
    if os.path.exists(RSYM) and all(os.path.getmtime(RSYM) >= os.path.getmtime(s) for s in srcs): return
    sh(['make', '-C', os.path.join(HERE, 'engine'), '-j4'], timeout=900)

# Bitcode of the single-precision configurations is made for a 64-bit target that passes small structures in memory
# (x86-64 packs pairs of floats into vector registers); type sizes and layout are the same.
SPTARGET = ['-target', 'wasm64-unknown-unknown', '-D__x86_64__', '-I/usr/include/x86_64-linux-gnu', '-I/usr/include']

PRELUDE = os.path.join(HERE, 'harness/pre.c')   # calls made before the job's own, for jobs with pre=1

class Build:
    """bitcode / native builds of /repo's sources for one configuration, made in a scratch directory"""
    def __init__(self, work, cfg):
        self.cfg = cfg
        self.dir = tempfile.mkdtemp(prefix='cfg', dir=work)
        self.src = os.path.join(self.dir, 'src'); self.inc = os.path.join(self.dir, 'inc')
        os.makedirs(self.src); os.makedirs(self.inc)
        root = os.path.join(REPO, cfg.get('tree', 'src'))
        for f in os.listdir(root):
            if f.endswith(('.c', '.h', '.inc')): shutil.copy(os.path.join(root, f), self.src)
        self.root = root
        # extended precision is double in every build: the encoding has no rounding, and replays tolerate it
        for f in glob.glob(self.src + '/*'):
            t = open(f, errors='surrogateescape').read()
            t2 = re.sub(r'\blong\s+double\b|\bdouble\s+long\b', 'double', t)
            if t2 != t: open(f, 'w', errors='surrogateescape').write(re.sub(r'\b(sqrt|fabs|pow|floor|ceil|fmin|fmax|sin|cos|hypot|fma|copysign|trunc|round|exp|log)l(\s*\()', r'\1\2', t2))
        # capacities hard-coded in headers are overridden by redefining the macro where it is defined
        for k in ('R2D_MAX_VERTS', 'RND_MAX_VERTS', 'RND_DIM'):
            if k in cfg:
                n = 0
                for h in glob.glob(self.src + '/*.h'):
                    t = open(h, errors='replace').read()
                    t2, c = re.subn(r'(?m)^(\s*#\s*define\s+%s)\s+\S+' % k, r'\1 %d' % cfg[k], t)
                    if c: open(h, 'w').write(t2); n += c
                if not n: raise BuildError('no definition of %s found' % k)
        cin = os.path.join(REPO, 'config/r3d-config.h.in')
        t = open(cin).read() if os.path.exists(cin) else '#define R3D_MAX_VERTS @R3D_MAX_VERTS@\n#define SHIFT_POLY @SHIFT_POLY@\n'
        t = t.replace('@R3D_MAX_VERTS@', str(cfg.get('R3D_MAX_VERTS', 64))).replace('@SHIFT_POLY@', 'TRUE')
        t = re.sub(r'@\w+@', '1', t)
        if cfg.get('shift', 1) == 0: t += '\n#undef SHIFT_POLY\n'
        open(os.path.join(self.inc, 'r3d-config.h'), 'w').write(t)
        self.defs = ['-D' + d for d in cfg.get('defs', [])]
        self.sp = 'SINGLE_PRECISION' in cfg.get('defs', []) # harness code gets the library's real type; coarser tolerance in replays
        self.hdefs = ['-include', os.path.join(HERE, 'harness/sp.h')] if self.sp else []
        self.csrc = sorted(glob.glob(self.src + '/*.c'))
        if 'only' in cfg: self.csrc = [s for s in self.csrc if os.path.basename(s) in cfg['only']]
        self.lock = threading.Lock(); self.cache = {}
    def memo(self, key, fn):
        with self.lock:
            if key not in self.cache: self.cache[key] = [threading.Lock(), None]
            ent = self.cache[key]
        with ent[0]:
            if ent[1] is None:
                try: ent[1] = ('ok', fn())
                except BuildError as e: ent[1] = ('err', e)
        if ent[1][0] == 'err': raise ent[1][1]
        return ent[1][1]
    def inc_flags(self):
        return ['-I' + self.inc, '-I' + self.src, '-I' + os.path.join(HERE, 'harness')] + self.defs
    def bc(self, path, tag, extra=()):
        out = os.path.join(self.dir, tag + os.path.basename(path) + '.bc')
        sh([CLANG, '-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-fno-math-errno', '-g', '-emit-llvm', '-w',
            '-fdebug-prefix-map=%s=/repo/src' % self.src] + (SPTARGET if self.sp else []) + self.inc_flags() + list(extra) + ['-c', path, '-o', out])
        return out
    def bitcode(self, harness):
        def mk():
            lib = self.memo('libbc', lambda: list(POOL2.map(lambda p: self.bc(p, 'l_'), self.csrc)))
            h = self.bc(os.path.join(HERE, 'harness', harness + '.c'), 'h_', self.hdefs)
            l = os.path.join(self.dir, harness + '.l.bc'); o = os.path.join(self.dir, harness + '.o.bc')
            if not self.cfg.get('tree'): lib = lib + [self.memo('prebc', lambda: self.bc(PRELUDE, 'h_', self.hdefs))]
            lib = lib + [self.memo('libc', lambda: self.bc(os.path.join(HERE, 'harness/libc.c'), 'h_', ['-fno-builtin']))]
            sh(['llvm-link-18', h] + lib + ['-o', l])
            sh(['opt-18', '-passes=function(sroa,early-cse,simplifycfg,sroa,early-cse,simplifycfg)', l, '-o', o])
            return o
        return self.memo(('bc', harness), mk)
    FLAV = {
        'asan': ['gcc', '-O1', '-g', '-w', '-ffp-contract=off', '-fsanitize=address,undefined,float-divide-by-zero,bounds', '-fno-sanitize-recover=all', '-DRS_TOL=1e-9'],
        'msan': [CLANG, '-O1', '-g', '-w', '-ffp-contract=off', '-fsanitize=memory', '-DRS_TOL=1e-9'],
        'quad': ['gcc', '-O1', '-g', '-w', '-include', os.path.join(HERE, 'harness/quad.h'), '-DRS_TOL=1e-14', '-fsanitize=undefined', '-fno-sanitize-recover=all'],
    }
    def native(self, harness, entry, flav):
        cc = self.FLAV[flav]
        if self.sp: cc = [a for a in cc if not a.startswith('-DRS_TOL')] + ['-DRS_TOL=2e-4']
        def obj(p, tag):
            out = os.path.join(self.dir, flav + tag + os.path.basename(p) + '.o')
            sh(cc + self.inc_flags() + (self.hdefs if p.startswith(HERE + os.sep) else []) + ['-DRS_WRAP', '-c', p, '-o', out])
            return out
        lib = self.memo(('nlib', flav), lambda: list(POOL2.map(lambda p: obj(p, 'l_'), self.csrc + [os.path.join(HERE, 'harness/rs_native.c')] + ([] if self.cfg.get('tree') else [PRELUDE]))))
        h = self.memo(('nh', flav, harness), lambda: obj(os.path.join(HERE, 'harness', harness + '.c'), 'h_'))
        def link():
            exe = os.path.join(self.dir, '%s_%s_%s.exe' % (flav, harness, entry))
            lk = [cc[0]] + [a for a in cc[1:] if a.startswith('-fsanitize')]
            sh(lk + [h] + lib + ['-Wl,--defsym=rs_entry=' + entry, '-Wl,--wrap=malloc,--wrap=free,--wrap=realloc,--wrap=calloc', '-o', exe] + (['-lquadmath'] if flav == 'quad' else []) + ['-lm'])
            return exe
        return self.memo(('exe', flav, harness, entry), link)

POOL2 = cf.ThreadPoolExecutor(NPROC)

def write_input(path, params, inputs):
    with open(path, 'w') as f:
        for k, v in params.items(): f.write('p %s %s\n' % (k, v))
        for kind, name, val in inputs: f.write('%s %s %s\n' % (kind, name or '_', val))

def run_native(exe, inp, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=1')
    try:
        r = subprocess.run(['bash', '-c', 'ulimit -s unlimited 2>/dev/null || ulimit -s 1000000 2>/dev/null; exec "$0" "$1"', exe, inp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return 'timeout', 'no result within %d s' % timeout
    out = r.stdout + r.stderr
    if r.returncode == 0 and 'REPLAY-OK' in r.stdout: return 'ok', out
    if 'REPLAY-DIVERGED' in r.stdout: return 'diverged', out
    if 'REPLAY-VIOLATION' in r.stdout: return 'violation', out
    m = re.search(r'(AddressSanitizer[^\n]*|runtime error[^\n]*|MemorySanitizer[^\n]*)', out)
    return 'crash', (m.group(1) if m else 'exit status %d' % r.returncode) + '\n' + out

def confirm(build, job, v, rdir, idx):
    """replay a solver model against natively compiled real code"""
    os.makedirs(rdir, exist_ok=True)
    base = os.path.join(rdir, '%s-%08x-%d' % (job['e'], zlib.crc32(json.dumps([job['p'], job['cfg']], sort_keys=True).encode()), idx))
    flavs = ['asan', 'quad'] if v['kind'] != 'uninit' else ['msan', 'asan', 'quad']
    if build.sp: flavs.remove('quad')
    log = []
    strict = v['kind'] == 'unsupported' and not build.sp   # the model covers only the start of the path: rounding must not decide
    cand = [v['inputs']] + [[(k, nm, x) for (k, nm, _), x in zip(v['inputs'], a)] for a in v.get('alts', [])]
    for inputs, fl in [(i, f) for i in cand for f in flavs]:
        write_input(base + '.in', job['p'], inputs)
        try: exe = build.native(job['h'], job['e'], fl)
        except BuildError as e: log.append((fl, 'build-failed', str(e)[-500:])); continue
        st, out = run_native(exe, base + '.in')
        log.append((fl, st, out[:1500]))
        if strict and st == 'violation' and fl != 'quad': continue
        if st in ('violation', 'crash') or (st == 'timeout' and v['kind'] == 'nontermination'):
            rec = {'property': job['prop'], 'harness': job['h'], 'entry': job['e'], 'params': job['p'], 'cfg': job['cfg'], 'flavour': fl,
                   'kind': v['kind'], 'message': v['msg'], 'where': v['where'], 'inputs': inputs, 'native': out[:3000]}
            json.dump(rec, open(base + '.json', 'w'), indent=1)
            return base + '.json', log
    return None, log

def load_known():
    p = os.path.join(HERE, 'known-findings.jsonl')
    if not os.path.exists(p): return []
    return [json.loads(l) for l in open(p) if l.strip()]

def known_match(known, job, v):
    for k in known:
        if k.get('status') != 'finding' or k['property'] != job['prop']: continue
        m = k['match']
        if m.get('entry') not in (None, job['e']): continue
        if any(str(job['p'].get(a)) != str(b) for a, b in m.get('params', {}).items()): continue
        if m.get('kind') not in (None, v['kind']): continue
        if 'msg' in m and not re.search(m['msg'], v['msg']): continue
        if 'where' in m and not re.search(m['where'], v['where']): continue
        return k
    return None

def run_rsym(build, job, seed):
    bc = build.bitcode(job['h'])
    fd, out = tempfile.mkstemp(dir=build.dir, suffix='.json'); os.close(fd)
    cmd = [RSYM, bc, job['e']] + ['%s=%s' % kv for kv in job['p'].items()] + ['--out', out, '--time', str(job['time']), '--seed', str(seed)] + (['--single'] if 'SINGLE_PRECISION' in job['cfg'].get('defs', []) else [])
    if 'steps' in job: cmd += ['--steps', str(job['steps'])]
    if 'viol' in job: cmd += ['--viol', str(job['viol'])]
    try:
        r = subprocess.run(['bash', '-c', 'ulimit -s unlimited 2>/dev/null; ulimit -v 12000000; exec "$@"', 'x'] + cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=job['time'] * 1.5 + 40)
    except subprocess.TimeoutExpired:
        return {'status': 'timeout', 'violations': []}
    try: return json.load(open(out))
    except Exception: return {'status': 'error: engine exit %s %s' % (r.returncode, r.stdout[-400:]), 'violations': []}

def run_job(job, builds, seed, rroot, known):
    t = time.time()
    b = builds(job['cfg'])
    r = run_rsym(b, job, seed)
    r['confirmed'] = []; r['known'] = []; r['unconfirmed'] = []
    for i, v in enumerate(r.get('violations', [])[:12]):
        k = known_match(known, job, v)
        if k: r['known'].append(k['text']); continue
        path, log = confirm(b, job, v, os.path.join(rroot, job['prop']), i)
        if path:
            r['confirmed'].append((v, path))
            break
        r['unconfirmed'].append({'kind': v['kind'], 'msg': v['msg'], 'where': v['where'], 'log': [(a, c, d[:200]) for a, c, d in log]})
    # paths the engine could not follow to their end: the real code decides for the solver's model of what was followed
    if not r['confirmed']:
        for i, v in enumerate(r.get('candidates', [])):
            path, log = confirm(b, job, v, os.path.join(rroot, job['prop']), 50 + i)
            if path:
                r['confirmed'].append((dict(v, msg=next((o[:300] for _, s, o in reversed(log) if s in ('violation', 'crash')), v['msg'])), path))
                break
    r['traces_ok'] = r['traces_bad'] = 0
    if not r['confirmed'] and r.get('traces') and job.get('validate', True):
        try:
            exe = b.native(job['h'], job['e'], 'asan')
            for k, tr in enumerate(r['traces']):
                inp = os.path.join(b.dir, 'tr_%s_%d_%d.in' % (job['e'], id(job), k))
                write_input(inp, job['p'], tr)
                st, out = run_native(exe, inp)
                if st == 'ok': r['traces_ok'] += 1
                else:
                    r['traces_bad'] += 1
                    r.setdefault('trace_log', []).append((st, out[:300]))
        except BuildError as e:
            r['trace_log'] = str(e)[-300:]
    r['job_wall_s'] = time.time() - t
    return r

def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay': return replay(a[1])
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    verbose = '-v' in a
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    only = a[a.index('--job') + 1] if '--job' in a else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import jobs as J
    t0 = time.time()
    budget = float(os.environ.get('VERIF_BUDGET', 540 if tier == 'quick' else 5400))
    ensure_engine()
    spec = J.PROPS[prop]
    jl = J.expand(prop, tier)
    if only is not None: jl = [j for j in jl if re.search(only, j['e'] + ' ' + ' '.join('%s=%s' % kv for kv in j['p'].items()))]
    known = load_known()
    work = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    rroot = os.path.join(HERE, 'evidence', 'replay')
    shutil.rmtree(os.path.join(rroot, prop), ignore_errors=True)
    bl, lock = {}, threading.Lock()
    def builds(cfg):
        key = json.dumps(cfg, sort_keys=True)
        with lock:
            if key not in bl: bl[key] = Build(work, cfg)
            return bl[key]
    code = 0
    try:
        res = []
        stop = threading.Event()
        def one(j):
            if stop.is_set(): return None
            left = budget - (time.time() - t0)
            if left < 5: return (j, {'status': 'skipped: the time budget of the whole check is used up', 'violations': [], 'confirmed': [], 'known': [], 'unconfirmed': []})
            j = dict(j, time=int(min(j['time'], max(5, left))))
            try: r = run_job(j, builds, seed, rroot, known)
            except BuildError as e: r = {'status': 'error: build: ' + str(e), 'violations': [], 'confirmed': [], 'known': [], 'unconfirmed': []}
            if r['confirmed'] and only is None: stop.set()
            if verbose:
                print('  %-22s %-46s %-10s paths=%s asserts=%s q=%s solver=%.1fs wall=%.1fs ok=%s/%s inc=%s viol=%d %s' % (j['e'], ' '.join('%s=%s' % kv for kv in j['p'].items()) + ' ' + ' '.join('%s=%s' % kv for kv in j['cfg'].items()), r['status'][:60], r.get('paths'), r.get('asserts'), r.get('queries'), r.get('solver_s', 0), r.get('job_wall_s', 0), r.get('traces_ok'), (r.get('traces_ok') or 0) + (r.get('traces_bad') or 0), r.get('inconclusive'), len(r['violations']), r.get('note', '')[:160]), flush=True)
                for v, p in r['confirmed']: print('    CONFIRMED', v['kind'], v['msg'], v['where'], p)
                for u in r['unconfirmed']: print('    unconfirmed', json.dumps(u)[:700])
                for tl in r.get('trace_log', [])[:2]: print('    trace', str(tl)[:300])
            return (j, r)
        # longest first
        order = sorted(jl, key=lambda j: -j.get('cost', 1))
        with cf.ThreadPoolExecutor(NPROC) as ex: res = [x for x in ex.map(one, order) if x]
        viol = [(j, v, p) for j, r in res for v, p in r['confirmed']]
        kn = []
        for j, r in res:
            for k in r['known']:
                if k not in kn: kn.append(k)
        incomplete = [(j, r) for j, r in res if r['status'] not in ('complete', 'stopped-at-violations') or r.get('inconclusive') or r['unconfirmed'] or (r['status'] == 'complete' and not r.get('witness') and not r['violations'])]
        for k in kn: print('KNOWN-FINDING: property=%s %s' % (prop, k))
        for j, r in incomplete:
            why = r['status'][:1500] if r['status'] != 'complete' else ('undecided %s %s' % (r.get('inconclusive'), r.get('note', '')[:200]) if r.get('inconclusive') else 'unconfirmed %s' % json.dumps(r['unconfirmed'])[:400] if r['unconfirmed'] else 'no witness')
            print('INCOMPLETE: %s %s: %s' % (j['e'], j['p'], why))
        for j, v, p in viol[:5]:
            print('  %s: %s at %s' % (v['kind'], v['msg'], v['where']))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        if viol: code = 1
        elif len(incomplete) == len(res): code = 2  # nothing was decided
        tot = lambda k: sum((r.get(k) or 0) for _, r in res)
        fns = {}
        for _, r in res:
            for f, n in (r.get('functions') or {}).items(): fns[f] = fns.get(f, 0) + n
        samples = []
        for j, r in res[:40]:
            for tr in (r.get('traces') or [])[:1]:
                if len(samples) < 6: samples.append({'job': j['e'], 'params': j['p'], 'path_witness': tr[:30]})
        jobsev = [{'entry': j['e'], 'params': j['p'], 'config': j['cfg'], 'status': r['status'][:200], 'paths': r.get('paths'), 'symbols': r.get('symbols'), 'asserts': r.get('asserts'),
                   'queries': r.get('queries'), 'solver_s': round(r.get('solver_s', 0) or 0, 3), 'undecided': r.get('inconclusive', 0), 'wall_s': round(r.get('job_wall_s', 0), 2),
                   **({'unconfirmed': r['unconfirmed']} if r['unconfirmed'] else {})} for j, r in res]
        cov = {'states': tot('paths'), 'transitions': tot('forks'), 'traces_validated_against_impl': tot('traces_ok'), 'samples': samples or [j['e'] for j, _ in res][:5],
               'functions_encoded': fns, 'symbolic_instructions': tot('instructions'), 'assertions_decided': tot('asserts'), 'solver_queries': tot('queries'), 'nonlinear_queries': tot('nl_queries'),
               'solver_seconds': round(tot('solver_s'), 2), 'bounds': spec.get('bounds', ''), 'outside_bounds': spec.get('outside', J.OUTSIDE), 'jobs': jobsev,
               'jobs_complete': len(res) - len(incomplete), 'jobs_total': len(jl), 'exhaustive': not incomplete and len(res) == len(jl),
               'trace_replays_differing_by_rounding': tot('traces_bad'), 'meaning': 'states = symbolic paths completed, transitions = solver-decided path splits'}
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'assumptions': J.ASSUME + spec.get('assume', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        if only is None: json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
        print('%s %s: %d/%d jobs complete, %d paths, %d assertions, %d queries, %.1f s solver, %d traces replayed, %.1f s, %s' % (prop, tier, len(res) - len(incomplete), len(jl), tot('paths'), tot('asserts'), tot('queries'), tot('solver_s'), tot('traces_ok'), time.time() - t0, 'VIOLATED' if viol else 'held'))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return code

def replay(path):
    rec = json.load(open(path))
    work = tempfile.mkdtemp(prefix='verif_replay_')
    try:
        b = Build(work, rec['cfg'])
        exe = b.native(rec['harness'], rec['entry'], rec['flavour'])
        inp = os.path.join(work, 'in'); write_input(inp, rec['params'], rec['inputs'])
        st, out = run_native(exe, inp)
        print(st); print(out[:3000])
        return 0 if st == 'ok' else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)
if __name__ == '__main__':
    sys.exit(main())
