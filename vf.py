#!/usr/bin/env python3
"""Check runner: compiles the harnesses of a property against /repo's current headers, executes them
symbolically, replays counterexamples and sampled paths natively, writes evidence/<id>.json."""
import sys, os, json, subprocess, time, glob, shutil, hashlib, threading, tempfile, fcntl, signal
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, V)
import checks as CH
NC = min(8, os.cpu_count() or 8)
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
BASEF = ['-O1', '-w', '-ftrivial-auto-var-init=pattern', '-fno-threadsafe-statics', '-I' + REPO + '/include', '-I' + V + '/harness']
IRF = ['-fno-pic', '-fno-pie', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-gline-tables-only', '-emit-llvm', '-c']
UB = 'signed-integer-overflow,shift,integer-divide-by-zero,bounds,float-cast-overflow,bool,enum,return,unreachable,vla-bound'

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

def shk(cmd, tmo):  # with a watchdog for the whole process group
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try: o, e = p.communicate(timeout=tmo)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); o, e = p.communicate(); e += b' killed: time limit'
    return subprocess.CompletedProcess(cmd, p.returncode, o, e)

def ensure_engine():
    b = os.path.join(V, 'build'); os.makedirs(b, exist_ok=True)
    with open(os.path.join(b, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = hashlib.sha256()
        for f in sorted(glob.glob(V + '/engine/*')) + [V + '/harness/runtime.cpp']:
            h.update(open(f, 'rb').read())
        st = os.path.join(b, 'stamp')
        if os.path.exists(st) and open(st).read() == h.hexdigest() and os.path.exists(b + '/engine') and os.path.exists(b + '/runtime.bc'): return
        r = sh(['bash', V + '/engine/build.sh', b])
        if r.returncode: sys.stderr.write(r.stderr.decode()); sys.exit(2)
        for std in ('17',):
            r = sh([CLANG, '-std=c++17', '-O1', '-w', '-fno-exceptions', '-fno-threadsafe-statics', '-emit-llvm', '-c', V + '/harness/runtime.cpp', '-o', b + '/runtime.bc'])
            if r.returncode: sys.stderr.write(r.stderr.decode()); sys.exit(2)
        open(st, 'w').write(h.hexdigest())

class Unit:  # one compiled harness
    def __init__(s, job, d):
        s.src = job['src']; s.defs = job.get('defs', []); s.std = job.get('std', 'c++17'); s.ub = job.get('ub', False); s.cf = [x.replace('@V@', V) for x in job.get('cflags', [])]
        s.key = hashlib.md5(repr((s.src, s.defs, s.std, s.ub, s.cf)).encode()).hexdigest()[:10]
        s.d = d; s.bc = f'{d}/{s.key}.bc'; s.nat = f'{d}/{s.key}.nat'; s.lock = threading.Lock(); s.done = {}; s.err = None
    def common(s): return ['-std=' + s.std] + BASEF + ['-D' + x for x in s.defs] + s.cf
    def ir(s):
        with s.lock:
            if 'ir' in s.done: return s.done['ir']
            cmd = [CLANG] + s.common() + IRF + (['-fsanitize=' + UB, '-fsanitize-trap=all'] if s.ub else []) + [f'{V}/harness/{s.src}', '-o', s.bc]
            r = sh(cmd); s.done['ir'] = r.returncode == 0
            if r.returncode: s.err = r.stderr.decode()[-3000:]
            return s.done['ir']
    def native(s):
        with s.lock:
            if 'nat' in s.done: return s.done['nat']
            cmd = [CLANG] + s.common() + ['-g1', '-fsanitize=address,' + UB, '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', f'{V}/harness/{s.src}', f'{V}/harness/native.cpp', '-o', s.nat]
            r = sh(cmd); s.done['nat'] = r.returncode == 0
            if r.returncode: s.err = r.stderr.decode()[-3000:]
            return s.done['nat']

ASAN = 'detect_leaks=0:max_malloc_fill_size=1000000000:malloc_fill_byte=170:allocator_may_return_null=0:symbolize=1:handle_abort=1'
try: CPU = set(open('/proc/cpuinfo').read().split())
except OSError: CPU = set()
def native_run(u, params, inp, d, tag, timeout=20):
    if ('-mavx2' in u.cf and 'avx2' not in CPU) or ('-msse4.2' in u.cf and 'sse4_2' not in CPU): return 77, 'the CPU cannot run this build', None
    fi = f'{d}/{tag}.in'; fo = f'{d}/{tag}.obs'
    open(fi, 'wb').write(bytes.fromhex(inp))
    env = dict(os.environ, VF_OBS=fo, VF_P=params, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1')
    try:
        r = subprocess.run([u.nat, fi], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        rc, err = r.returncode, r.stderr.decode('latin1')
    except subprocess.TimeoutExpired: rc, err = 'timeout', ''
    obs = open(fo, 'rb').read().hex() if os.path.exists(fo) else None
    for f in (fi, fo):
        if os.path.exists(f): os.unlink(f)
    return rc, err, obs

def pstr(job): return ','.join(str(x) for x in job.get('p', []))

def run_job(job, u, d, idx, deadline, tier):
    out = f'{d}/j{idx}.out'; p = pstr(job)
    tl = min(job.get('time', 200), max(5, deadline - time.time()))
    cmd = [V + '/build/engine', u.bc, V + '/build/runtime.bc', '--out', out, '--time', str(tl), '--jobs', str(job.get('par', 1)), '--steps', str(job.get('steps', 2000000)), '--samples', str(job.get('samples', 6 if tier == 'quick' else 25)), '--every', str(job.get('every', 97)), '--slow-ms', str(job.get('slow_ms', 30000)), '--fast-ms', str(job.get('fast_ms', 400)), '--cross', str(job.get('cross', 40 if tier == 'quick' else 10))]
    if p: cmd += ['--p', p]
    t0 = time.time()
    r = shk(cmd, tl + 60)
    res = dict(job=job, rc=r.returncode, err=r.stderr.decode()[-2000:], viol=[], traces=[], reach={}, fns={}, unsup={}, undecided=[], stats={}, wall=time.time() - t0)
    for f in [out] + glob.glob(out + '.*'):
        if not os.path.exists(f): continue
        for l in open(f, encoding='latin1'):
            try: o = json.loads(l)
            except Exception: res['rc'] = res['rc'] or 9; continue
            t = o['t']
            if t == 'viol': res['viol'].append(o)
            elif t == 'trace': res['traces'].append(o)
            elif t == 'reach': res['reach'][o['name']] = res['reach'].get(o['name'], 0) + o['n']
            elif t == 'fn': res['fns'][o['name']] = res['fns'].get(o['name'], 0) + o['n']
            elif t == 'unsup': res['unsup'][o['msg']] = res['unsup'].get(o['msg'], 0) + o['n']
            elif t == 'undecided': res['undecided'].append(o['msg'])
            elif t == 'stats':
                for k, v in o.items():
                    if k == 't': continue
                    res['stats'][k] = max(res['stats'].get(k, 0), v) if k in ('solver_max', 'wall') else res['stats'].get(k, 0) + v
        os.unlink(f)
    return res

def skipped(job): return dict(job=job, rc=0, err='', viol=[], traces=[], reach={}, fns={}, unsup={}, undecided=[], stats={'timeup': 1}, wall=0)

def main():
    prop = sys.argv[1]
    if prop == '--setup': ensure_engine(); return
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None; verbose = False
    for a in sys.argv[2:]:
        if a in ('--quick', '--thorough'): tier = a[2:]
        elif a == '-v': verbose = True
        elif a.startswith('--only='): only = a[7:]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = CH.PROPS[prop]
    jobs = [j for j in spec['jobs'] if tier == 'thorough' or not j.get('thorough')]
    if tier == 'thorough': jobs = [dict(j, **j.get('deep', {})) for j in jobs]
    if only: jobs = [j for j in jobs if only in j['name']]
    budget = float(os.environ.get('VF_BUDGET', 700 if tier == 'quick' else 7200))
    deadline = t0 + budget
    ensure_engine()
    os.makedirs(V + '/scratch', exist_ok=True)
    d = tempfile.mkdtemp(prefix=prop + '_', dir=V + '/scratch')
    try: rc = drive(prop, spec, jobs, d, tier, seed, t0, deadline, verbose, only)
    finally: shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc)

def drive(prop, spec, jobs, d, tier, seed, t0, deadline, verbose, only):
    units = {}; ju = []
    for j in jobs:
        u = Unit(j, d); u = units.setdefault(u.key, u); ju.append(u)
    results = [None] * len(jobs); errs = []
    free = [NC]; cond = threading.Condition()
    hits = []
    def take(n):
        with cond:
            while free[0] < n: cond.wait()
            free[0] -= n
    def give(n):
        with cond: free[0] += n; cond.notify_all()
    # 1. IR for all units
    def w_ir(u):
        take(1)
        try:
            if not u.ir(): errs.append(f'compile failed: {u.src} {u.defs}\n{u.err}')
        finally: give(1)
    ths = [threading.Thread(target=w_ir, args=(u,)) for u in units.values()]
    [t.start() for t in ths]; [t.join() for t in ths]
    if errs:
        sys.stderr.write('\n'.join(errs)); return 2
    # 2. symbolic execution; native builds are interleaved
    def w_job(i):
        n = jobs[i].get('par', 1); take(n)
        try:
            if time.time() > deadline or (len(hits) >= 6 and time.time() > t0 + 120) or (os.environ.get('VF_STOP') and len(hits) >= 2): results[i] = skipped(jobs[i])
            else: results[i] = run_job(jobs[i], ju[i], d, i, deadline, tier)
            if results[i]['viol']: hits.append(i)
        finally: give(n)
    def w_nat(u):
        take(1)
        try: u.native()
        finally: give(1)
    ths = [threading.Thread(target=w_job, args=(i,)) for i in range(len(jobs))] + [threading.Thread(target=w_nat, args=(u,)) for u in units.values()]
    [t.start() for t in ths]; [t.join() for t in ths]
    for u in units.values():
        if not u.done.get('nat'): sys.stderr.write(f'native build failed: {u.src} {u.defs}\n{u.err}\n'); return 2
    for r in results:
        if r['rc']: errs.append(f"engine rc={r['rc']} job={r['job']['name']}: {r['err']}")
    # 3. replay
    known = [k for k in load_known() if k['property'] == prop]
    violations = []; unconfirmed = []; knownhit = {}; traces_ok = 0; trace_bad = []; samples = []
    tasks = []
    for i, r in enumerate(results):
        for v in r['viol'][:12]: tasks.append(('v', i, v))
        tr = r['traces']
        lim = jobs[i].get('validate', 12 if tier == 'quick' else 60)
        step = max(1, len(tr) // lim) if tr else 1
        for t in tr[::step][:lim]: tasks.append(('t', i, t))
    lk = threading.Lock(); it = iter(list(enumerate(tasks)))
    def w_rep():
        nonlocal traces_ok
        while True:
            with lk:
                x = next(it, None)
            if x is None: return
            k, (kind, i, o) = x
            rc, err, obs = native_run(ju[i], pstr(jobs[i]), o['in'], d, f'r{k}', timeout=20 if kind == 'v' else 60)
            with lk:
                if kind == 'v':
                    hit = confirm(o, rc, err)
                    if hit:
                        kf = match_known(known, jobs[i], o)
                        if kf: knownhit.setdefault(kf['what'], o)
                        else: violations.append((i, o, rc, err))
                    else: unconfirmed.append((i, o, rc, err))
                else:
                    if rc == 0 and obs == o['obs']: traces_ok += 1
                    else: trace_bad.append((i, o, rc, err, obs))
                    if len(samples) < 8 and rc == 0: samples.append({'job': jobs[i]['name'], 'params': pstr(jobs[i]), 'input_hex': o['in'], 'observed_hex': o['obs'][:200]})
    ths = [threading.Thread(target=w_rep) for _ in range(NC)]
    [t.start() for t in ths]; [t.join() for t in ths]
    # a sampled path on which the real build itself fails (sanitizer report, failed check) is a violation too
    for i, o, rc, err, obs in list(trace_bad):
        if rc not in (0, 77) and confirm({'kind': 'native'}, rc, err):
            violations.append((i, dict(o, kind='native', msg='real build fails on a sampled path', where=''), rc, err)); trace_bad.remove((i, o, rc, err, obs))
    # 4. vacuity
    vac = []
    for i, r in enumerate(results):
        need = jobs[i].get('reach', [])
        miss = [x for x in need if not r['reach'].get(x)]
        if miss: vac.append((jobs[i]['name'], miss))
    # 5. known findings demonstrated by their concrete input
    tot = {}
    for r in results:
        for k, v in r['stats'].items(): tot[k] = max(tot.get(k, 0), v) if k in ('solver_max', 'wall') else tot.get(k, 0) + v
    fns = {}
    for r in results:
        for n, c in r['fns'].items(): fns[n] = fns.get(n, 0) + c
    libf = sorted(n for n in fns if n.startswith(('JS::', 'diff', 'JSDiff')) or 'JS::' in n.split('(')[0])
    unsup = {}
    for r in results:
        for n, c in r['unsup'].items(): unsup[n] = unsup.get(n, 0) + c
    incomplete = [jobs[i]['name'] for i, r in enumerate(results) if r['stats'].get('timeup') or r['stats'].get('left') or r['reach'].get('__incomplete')]
    exhaustive = not incomplete and not unsup and not tot.get('undecided') and not errs
    cov = dict(states=int(tot.get('paths', 0) + tot.get('killed', 0)), transitions=int(tot.get('steps', 0)), traces_validated_against_impl=traces_ok, samples=samples or ['(none)'],
        exhaustive=bool(exhaustive), explanation='states: distinct symbolic paths (each covers all inputs satisfying its path condition); transitions: IR instructions executed symbolically',
        forks=int(tot.get('forks', 0)), assertions_evaluated=int(tot.get('checks', 0)), assertions_closed_by_simplification=int(tot.get('checks_const', 0)),
        smt_queries=int(tot.get('queries', 0)), smt_sat=int(tot.get('sat', 0)), smt_unsat=int(tot.get('unsat', 0)), smt_unknown=int(tot.get('unknown', 0)), smt_cache_hits=int(tot.get('cachehit', 0)), smt_portfolio_queries=int(tot.get('ext', 0)),
        smt_cross_checked_cvc5=int(tot.get('cross', 0)), smt_cross_check_disagreements=int(tot.get('crossbad', 0)), solver_seconds=round(tot.get('solver_s', 0), 2), slowest_query_s=tot.get('solver_max', 0),
        queries_by_finite_domain_evaluation=int(tot.get('fdom', 0)), branch_sides_kept_by_domain_procedure=int(tot.get('domdec', 0)), undecided=int(tot.get('undecided', 0)), unsupported=unsup, incomplete_jobs=incomplete,
        functions_encoded=libf[:400], functions_encoded_count=len(libf), bounds=[f"{j['name']}: {j.get('bound', '')} [p={pstr(j)} steps<={j.get('steps', 2000000)}]" for j in jobs],
        reach={jobs[i]['name']: r['reach'] for i, r in enumerate(results)}, jobs={jobs[i]['name']: dict(paths=int(r['stats'].get('paths', 0)), queries=int(r['stats'].get('queries', 0)), wall=round(r['wall'], 2)) for i, r in enumerate(results)},
        unconfirmed=[dict(job=jobs[i]['name'], kind=o['kind'], msg=o['msg'], input_hex=o['in'], native_rc=str(rc)) for i, o, rc, e in unconfirmed[:10]],
        trace_mismatches=[dict(job=jobs[i]['name'], input_hex=o['in'], engine=o['obs'][:400], native=(obs or '')[:400], rc=str(rc)) for i, o, rc, e, obs in trace_bad[:10]])
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=spec.get('assumptions', []) + CH.COMMON_ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(violations))
    if not only:
        os.makedirs(V + '/evidence', exist_ok=True)
        json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    # 6. verdict
    for w in sorted(knownhit): print(f'KNOWN-FINDING: property={prop} {w}')
    rc = 0
    if violations:
        rd = f'{V}/replays'; os.makedirs(rd, exist_ok=True)
        i, o, nrc, nerr = violations[0]
        f = f'{rd}/{prop}_{jobs[i]["name"]}.json'
        json.dump(dict(property=prop, job=jobs[i]['name'], harness=jobs[i]['src'], defs=jobs[i].get('defs', []), params=pstr(jobs[i]), kind=o['kind'], msg=o['msg'], where=o.get('where', ''), input_hex=o['in'], native_rc=str(nrc), native_stderr=nerr[-3000:], others=[dict(job=jobs[a]['name'], kind=b['kind'], msg=b['msg'], input_hex=b['in']) for a, b, _, _ in violations[1:20]]), open(f, 'w'), indent=1)
        seen = set()
        for i, o, nrc, nerr in violations:
            k = (jobs[i]['name'], o['kind'], o['msg'])
            if k in seen: continue
            seen.add(k)
            print(f"  {jobs[i]['name']}: {o['kind']}: {o['msg']} input={bytes.fromhex(o['in'])!r} at {o.get('where', '')[:300]}")
        print(f'VIOLATION property={prop} replay={f}')
        rc = 1
    elif errs:
        sys.stderr.write('\n'.join(errs) + '\n')
        if len(errs) >= len(jobs): rc = 2
    if vac and not violations: print('note: witnesses not reached:', vac)
    if unconfirmed: print('note: unconfirmed counterexamples (not reported):', [(jobs[i]['name'], o['kind'], o['msg'], o['in'], rc2, e[-200:]) for i, o, rc2, e in unconfirmed[:5]])
    if trace_bad: print('note: path samples that differ natively:', [(jobs[i]['name'], o['in'], rc2, o['obs'][:100], (obs or '')[:100], e[-300:]) for i, o, rc2, e, obs in trace_bad[:5]])
    print(f"{prop} {tier}: jobs={len(jobs)} paths={cov['states']} steps={cov['transitions']} checks={cov['assertions_evaluated']} queries={cov['smt_queries']} solver={cov['solver_seconds']}s traces_ok={traces_ok} exhaustive={exhaustive} violations={len(violations)} wall={ev['wall_s']}s")
    if verbose or incomplete or unsup:
        for i, r in enumerate(results): print('   ', jobs[i]['name'], pstr(jobs[i]), {k: r['stats'].get(k) for k in ('paths', 'killed', 'steps', 'checks', 'queries', 'solver_s', 'undecided', 'unsup', 'left', 'timeup', 'viol')}, 'wall', round(r['wall'], 1), r['reach'] if verbose else '', list(r['unsup'].items())[:3], r['undecided'][:2])
    return rc

def confirm(o, rc, err):
    if o['kind'] == 'hang': return rc == 'timeout'
    if rc == 'timeout': return True
    if rc == 77 or rc == 0: return False
    if rc == 42: return True
    return True  # sanitizer report, abort, uncaught exception, signal

def load_known():
    f = V + '/known_findings.jsonl'; r = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if not l or l.startswith('#') or l.startswith('fixed:'): continue
            o = json.loads(l)
            r.append(o)
    return r
def match_known(known, job, o):
    for k in known:
        if k.get('job') and k['job'] != job['name']: continue
        if k.get('msg') and k['msg'] != o['msg']: continue
        if k.get('input_hex') and k['input_hex'] != o['in']: continue
        return k
    return None
if __name__ == '__main__': main()
