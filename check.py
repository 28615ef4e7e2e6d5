#!/usr/bin/env python3
"""Runs the check of one property: check.py PROP [--tier quick|thorough] [--repo DIR] [--keep]

1. builds the symbolic executor if needed (engine/),
2. compiles the harness (harness/PROP.cpp) and /repo's current sources to LLVM bitcode, together with
   the models of the standard library (models/),
3. explores every path of every job (a harness with concrete shape parameters) symbolically; every
   assertion is decided by the SMT solver for all values of the symbolic inputs on that path,
4. replays each counterexample, and a sample of the passing paths, in the natively compiled real code,
5. writes evidence/PROP.json and prints the verdict."""
import sys, os, json, subprocess, time, hashlib, tempfile, shutil, fcntl, glob, re, signal, argparse, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import jobs as J
ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick'); ap.add_argument('--repo', default='/repo'); ap.add_argument('--keep', action='store_true'); ap.add_argument('--only', default=None, help='comma separated parameters of a single job'); ap.add_argument('-v', action='store_true')
A = ap.parse_args()
PROP, TIER, REPO = A.prop, A.tier if A.tier in ('quick', 'thorough') else 'quick', A.repo.rstrip('/')
SEED = int(os.environ.get('VERIF_SEED') or 1)
T0 = time.time(); NPROC = int(os.environ.get('VERIF_JOBS') or 8)
SPEC = J.JOBS[PROP] if PROP != 'SETUP' else {}
BUDGET = SPEC.get('budget', {}).get(TIER, 150 if TIER == 'quick' else 780)   # seconds for exploration
BUILD = os.path.join(HERE, '.build'); ENGINE = os.path.join(BUILD, 'sodasym')
M = os.path.join(HERE, 'models')
COMMON = '-w -fwrapv -fno-pic -fno-pie -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -gline-tables-only -D_GLIBCXX_EXTERN_TEMPLATE=0'.split() + ['-I' + M + '/include', '-I' + M]
def die(msg, code=2): print('ERROR: ' + msg); sys.stdout.flush(); cleanup(); sys.exit(code)
WORK = tempfile.mkdtemp(prefix='sodasym-' + PROP + '-')
def cleanup():
    if not A.keep: shutil.rmtree(WORK, ignore_errors=True)
def sh(cmd, timeout=600, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
def must(cmd, what):
    r = sh(cmd)
    if r.returncode != 0: raise RuntimeError(what + ' failed: ' + ' '.join(cmd)[:300] + '\n' + r.stdout.decode(errors='replace')[:3000])
def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files): h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]

def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = glob.glob(HERE + '/engine/*'); d = digest(src); st = os.path.join(BUILD, 'engine.id')
        if not (os.path.exists(ENGINE) and os.path.exists(st) and open(st).read() == d):
            must(['bash', HERE + '/engine/build.sh', BUILD], 'building the executor'); open(st, 'w').write(d)
        ms = [M + '/libmodel.cpp', M + '/libc.c', M + '/vt.cpp', M + '/vt.h', M + '/sym.h'] + glob.glob(M + '/include/*.h*') + glob.glob(M + '/include/*') ; ms = [f for f in set(ms) if os.path.isfile(f)]
        d = digest(ms, 'v3' + ' '.join(COMMON)); st = os.path.join(BUILD, 'models.id')
        if not (os.path.exists(BUILD + '/models.bc') and os.path.exists(st) and open(st).read() == d):
            t = BUILD + '/tmp%d' % os.getpid()
            with ThreadPoolExecutor(3) as ex:
                fs = [ex.submit(must, ['clang++', '-std=gnu++17', '-O1', '-fno-builtin', '-fno-access-control'] + COMMON + ['-emit-llvm', '-c', M + '/libmodel.cpp', '-o', t + 'a.bc'], 'compiling the library model'),
                      ex.submit(must, ['clang', '-O1', '-w', '-fno-builtin', '-fno-vectorize', '-fno-slp-vectorize', '-gline-tables-only', '-emit-llvm', '-c', M + '/libc.c', '-o', t + 'b.bc'], 'compiling the libc model'),
                      ex.submit(must, ['clang++', '-std=gnu++11', '-O1'] + COMMON + ['-emit-llvm', '-c', M + '/vt.cpp', '-o', t + 'c.bc'], 'compiling the thread model')]
                for f in fs: f.result()
            must(['llvm-link-18', t + 'a.bc', t + 'b.bc', t + 'c.bc', '-o', t + '.bc'], 'linking the models'); os.rename(t + '.bc', BUILD + '/models.bc')
            for x in 'abc': os.unlink(t + x + '.bc')
            open(st, 'w').write(d)

SRCS = [f for f in sorted(glob.glob(REPO + '/src/*.cxx')) if SPEC.get('yaml') or not f.endswith('YAML.cxx')]
DEFS = ['-DNDEBUG', '-D_GLIBCXX_ASSERTIONS', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + M + '/stub', '-I' + HERE + '/harness'] + (['-I' + M + '/yaml'] if SPEC.get('yaml') else [])
HARN = HERE + '/harness/' + SPEC.get('harness', PROP) + '.cpp'
def compile_bc():
    outs = []
    def one(f):
        o = WORK + '/' + os.path.basename(f) + '.bc'; outs.append(o)
        def cc(std): must(['clang++', '-std=' + std, '-O1'] + COMMON + DEFS + ['-emit-llvm', '-c', f, '-o', o], 'compiling ' + f)
        try: cc('gnu++11')
        except RuntimeError:   # g++ accepts a few newer constructs in C++11 mode that clang does not
            cc('gnu++17')
    with ThreadPoolExecutor(NPROC) as ex:
        for r in [ex.submit(one, f) for f in SRCS + [HARN]]: r.result()
    must(['llvm-link-18'] + outs + [BUILD + '/models.bc', '-o', WORK + '/all0.bc'], 'linking the bitcode')
    must(['opt-18', '-passes=internalize,globaldce', '--internalize-public-api-list=sym_main,vt_yield', WORK + '/all0.bc', '-o', WORK + '/all.bc'], 'opt')
THREADS = SPEC.get('threads', False)
NATIVE = {}
def native(kind):  # kind: san | plain
    with NLOCK:
        if kind in NATIVE: return NATIVE[kind]
        exe = WORK + '/native-' + kind; outs = []
        fl = ['-std=gnu++11', '-g1', '-w', '-fwrapv', '-I' + M] + DEFS
        if THREADS: fl += ['-O1', '-fno-inline', '-fsanitize=thread', '-mllvm', '-tsan-distinguish-volatile=0', '-fno-builtin']; lk = ['-rdynamic']
        elif kind == 'san': fl += ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer']; lk = ['-fsanitize=address']
        else: fl += ['-O1']; lk = []
        def one(f, fl):
            o = exe + '.' + os.path.basename(f) + '.o'; outs.append(o); 
            try: must(['clang++'] + fl + ['-c', f, '-o', o], 'native compile of ' + f)
            except RuntimeError: must(['clang++'] + [('-std=gnu++17' if x == '-std=gnu++11' else x) for x in fl] + ['-c', f, '-o', o], 'native compile of ' + f)
        plain = ['-std=gnu++11', '-g1', '-O1', '-w', '-I' + M] + (['-DSX_THREADS', '-fno-builtin'] if THREADS else fl)
        todo = [(f, fl) for f in SRCS + [HARN]] + [(M + '/native.cpp', plain)] + ([(M + '/vt.cpp', plain)] if THREADS else [])
        with ThreadPoolExecutor(4) as ex:
            for r in [ex.submit(one, f, x) for f, x in todo]: r.result()
        must(['clang++', '-o', exe] + lk + outs + ['-ldl', '-lpthread'], 'native link'); NATIVE[kind] = exe; return exe
NLOCK = threading.Lock()
def replay(log, params, kind='san', timeout=20, pre=()):
    f = tempfile.NamedTemporaryFile('w', dir=WORK, suffix='.log', delete=False); f.write(log + '\n'); f.close()
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0', LC_ALL='C')
    try: r = subprocess.run(list(pre) + [native(kind), f.name] + [str(p) for p in params], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=WORK)
    except subprocess.TimeoutExpired: return 'timeout', '', f.name, ''
    out = r.stdout.decode(errors='replace'); obs = ''
    for l in out.splitlines():
        if l.startswith('OBS'): obs = l[3:].strip()
    return r.returncode, obs, f.name, (out + r.stderr.decode(errors='replace'))[-3000:]
def run_job(job, deadline):
    params, left = job['p'], deadline - time.time()
    if left < 1: return dict(job=job, skipped=True)
    out = WORK + '/job-' + '_'.join(map(str, params)) + '.json'
    lim = min(left, job.get('t', left))
    cmd = [ENGINE, WORK + '/all.bc', '--entry', 'sym_main', '--out', out, '--time', '%.1f' % lim, '--solver-ms', str(SPEC.get('solver_ms', {}).get(TIER, 10000 if TIER == 'quick' else 60000)), '--samples', str(SPEC.get('samples', 4)), '--seed', str(SEED), '--track', REPO + '/', '--max-inst', str(SPEC.get('max_inst', 20000000))] + SPEC.get('opts', [])
    if TIER == 'thorough' and SPEC.get('dump', True) and job.get('dump'): os.makedirs(WORK + '/smt', exist_ok=True); cmd += ['--dump', WORK + '/smt']
    cmd += [str(p) for p in params]; t = time.time()
    try: r = subprocess.run(['bash', '-c', 'ulimit -v %d; exec "$@"' % SPEC.get('mem_kb', 6000000), 'x'] + cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=lim + 60)
    except subprocess.TimeoutExpired: return dict(job=job, failed='executor did not stop')
    try: res = json.load(open(out))
    except Exception: return dict(job=job, failed='executor failed (%s): %s' % (r.returncode, r.stdout.decode(errors='replace')[-500:]))
    return dict(job=job, res=res, wall=time.time() - t)

def known():
    fs = []
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=/(.*)/ (.*)$', l.strip())
            if m and m.group(1) == PROP: fs.append((re.compile(m.group(2)), m.group(3)))
    return fs

def main():
    build_engine()
    if PROP == 'SETUP': print('executor and models built'); cleanup(); sys.exit(0)
    jl = SPEC[TIER] if TIER in SPEC else SPEC['quick']
    jl = [j if isinstance(j, dict) else dict(p=list(j)) for j in jl]
    if A.only: jl = [dict(p=[int(x) for x in A.only.split(',')])]
    nat = ThreadPoolExecutor(1); 
    compile_bc(); tb = time.time()
    natf = nat.submit(lambda: native('san'))
    deadline = time.time() + BUDGET
    with ThreadPoolExecutor(NPROC) as ex: results = list(ex.map(lambda j: run_job(j, deadline), jl))
    tx = time.time(); natf.result()
    # ---- replay counterexamples
    confirmed, unconfirmed, kf = [], [], {}
    KN = known(); os.makedirs(HERE + '/.build/replays', exist_ok=True)
    cands = [(r['job']['p'], v) for r in results if 'res' in r for v in r['res']['violations']]
    perkey = {}; todo = []
    for p, v in cands:
        k = (v['kind'], v['msg'])
        if perkey.get(k, 0) >= 6: continue
        perkey[k] = perkey.get(k, 0) + 1; todo.append((p, v))
    def conf(pv):
        p, v = pv
        if v['kind'] == 'uninit' and not THREADS:
            rc, obs, f, txt = replay(v['log'], p, 'plain', 60, ['valgrind', '-q', '--error-exitcode=98', '--exit-on-first-error=no'])
            return rc == 98, rc, txt
        rc, obs, f, txt = replay(v['log'], p)
        ok = rc in (42, 45, 99, 'timeout') or (isinstance(rc, int) and (rc < 0 or rc in (134, 139)))
        if v['kind'] == 'hang': ok = rc == 'timeout' or ok
        if not ok and v['kind'] == 'memory' and rc == 0 and not THREADS: # e.g. an uninitialised or in-object access the address sanitizer does not see
            rc2, _, _, txt2 = replay(v['log'], p, 'plain', 60, ['valgrind', '-q', '--error-exitcode=98'])
            if rc2 == 98: return True, rc2, txt2
        return ok, rc, txt
    with ThreadPoolExecutor(NPROC) as ex: cres = list(ex.map(conf, todo))
    for (p, v), (ok, rc, txt) in zip(todo, cres):
        rec = dict(params=p, kind=v['kind'], msg=v['msg'], where=v['where'], log=v['log'], native_exit=rc, native_output=txt[-1500:])
        if not ok: unconfirmed.append(rec); continue
        ident = '%s|%s|%s|%s' % (v['kind'], v['msg'], ','.join(map(str, p)), v['log'])
        hit = [d for rx, d in KN if rx.search(ident)]
        if hit: kf[hit[0]] = rec
        else: confirmed.append(rec)
    # ---- replay samples of passing paths: the symbolic run and the real code must agree
    smp = [(r['job']['p'], s) for r in results if 'res' in r for s in r['res']['samples']]
    import random; rnd = random.Random(SEED); rnd.shuffle(smp); smp = smp[:SPEC.get('max_samples', 160)]
    mism = []; nvalid = 0
    def vs(ps): p, s = ps; return replay(s['log'], p)
    with ThreadPoolExecutor(NPROC) as ex: sres = list(ex.map(vs, smp))
    for (p, s), (rc, obs, f, txt) in zip(smp, sres):
        if rc == 0 and obs == s['obs']: nvalid += 1; continue
        rec = dict(params=p, log=s['log'], expected=s['obs'][:400], got=obs[:400], native_exit=rc, native_output=txt[-1500:])
        if rc in (42, 45, 99, 'timeout') or (isinstance(rc, int) and rc < 0):
            rec.update(kind='native', msg='the real code fails on a sampled path'); 
            ident = 'native|%s|%s|%s' % (txt[-300:], ','.join(map(str, p)), s['log']); hit = [d for rx, d in KN if rx.search(ident)]
            if hit: kf[hit[0]] = rec
            else: confirmed.append(rec)
        else: mism.append(rec)
    # ---- totals
    tot = {}; cov = {}; unmod = {}; inc = {}; lines = {}; funcs = set(); incomplete = []; failed = []
    for r in results:
        if r.get('skipped'): incomplete.append('job %s not started (budget)' % r['job']['p']); continue
        if 'failed' in r: failed.append('%s: %s' % (r['job']['p'], r['failed'])); continue
        q = r['res']
        for k in 'paths completed assumed_away violating unmodelled_paths forks instructions choices asserts assert_queries queries z3_calls sat unsat unknown pruned solver_s'.split(): tot[k] = tot.get(k, 0) + q[k]
        for k, v in q['covers'].items(): cov[k] = cov.get(k, 0) + v
        for k, v in q['unmodelled'].items(): unmod[k] = unmod.get(k, 0) + v
        for k, v in q['inconclusive'].items(): inc[k] = inc.get(k, 0) + v
        for f, (h, a) in q['lines'].items(): x = lines.setdefault(f, (set(), set())); x[0].update(h); x[1].update(a)
        funcs.update(q['functions'])
        if q['truncated']: incomplete.append('job %s stopped after %.0f s, %d paths explored, %d pending' % (r['job']['p'], q['wall_s'], q['paths'], q['left']))
    missing = [c for c in SPEC.get('covers', []) if not cov.get(c)]
    samples = []
    for r in results[:40]:
        if 'res' in r: samples.append(dict(job=r['job']['p'], paths=r['res']['paths'], assert_queries=r['res']['assert_queries'], seconds=round(r['wall'], 2), example_path_inputs=(r['res']['samples'] or [{'log': ''}])[0]['log'][:200]))
    cross = crosscheck() if TIER == 'thorough' else None
    ev = dict(property=PROP, tier=TIER, seed=SEED, level='model_checking', wall_s=round(time.time() - T0, 2), violations=len(confirmed),
        coverage=dict(states=int(tot.get('paths', 0)), transitions=int(tot.get('instructions', 0)), traces_validated_against_impl=nvalid + len(confirmed) + len(kf), samples=samples or [dict(note='nothing explored')],
            what='states = symbolic paths explored (each stands for every input satisfying its path condition), transitions = LLVM instructions executed symbolically',
            jobs=len(jl), jobs_finished=sum(1 for r in results if 'res' in r and not r['res']['truncated']), completed_paths=tot.get('completed', 0), paths_outside_assumptions=tot.get('assumed_away', 0), forks=tot.get('forks', 0), schedule_choices=tot.get('choices', 0),
            assertions_checked=tot.get('asserts', 0), assertion_queries=tot.get('assert_queries', 0), solver_queries=tot.get('queries', 0), solver_calls=tot.get('z3_calls', 0), answers=dict(sat=tot.get('sat', 0), unsat=tot.get('unsat', 0), unknown=tot.get('unknown', 0)), solver_s=round(tot.get('solver_s', 0), 2),
            reachability=cov, unmodelled=unmod, inconclusive=inc, incomplete=incomplete, exhaustive=not incomplete and not failed and not unmod and not inc, failed_jobs=failed,
            functions_encoded=sorted(funcs), repo_lines={f[len(REPO) + 1:]: '%d of %d' % (len(h), len(a)) for f, (h, a) in lines.items()}, bounds=SPEC['bounds'][TIER] if isinstance(SPEC['bounds'], dict) else SPEC['bounds'],
            counterexamples=confirmed[:10], not_reproduced=unconfirmed[:10], model_mismatches=mism[:10], known_findings=sorted(kf), build_s=round(tb - T0, 2), explore_s=round(tx - tb, 2)),
        assumptions=J.ASSUME + SPEC.get('assume', []))
    if cross is not None: ev['coverage']['second_solver'] = cross
    os.makedirs(HERE + '/evidence', exist_ok=True); json.dump(ev, open(HERE + '/evidence/' + PROP + '.json.tmp', 'w'), indent=1); os.replace(HERE + '/evidence/' + PROP + '.json.tmp', HERE + '/evidence/' + PROP + '.json')
    print('%s %s: %d jobs, %d paths, %d assertions (%d solver-decided), %d queries, solver %.1f s, replayed %d/%d sampled paths, wall %.1f s' % (PROP, TIER, len(jl), tot.get('paths', 0), tot.get('asserts', 0), tot.get('assert_queries', 0), tot.get('queries', 0), tot.get('solver_s', 0), nvalid, len(smp), time.time() - T0))
    for x in incomplete[:5]: print('INCOMPLETE: ' + x)
    for k, v in list(unmod.items())[:5]: print('UNMODELLED: %s (%d paths)' % (k, v))
    for k, v in list(inc.items())[:5]: print('INCONCLUSIVE: %s (%d)' % (k, v))
    for d in sorted(kf): print('KNOWN-FINDING: property=%s %s' % (PROP, d))
    if confirmed:
        for i, c in enumerate(confirmed[:5]):
            f = HERE + '/.build/replays/%s-%d.txt' % (PROP, i + 1)
            open(f, 'w').write('harness %s parameters %s\n%s: %s\n%s\ninput values in draw order:\n%s\nnative replay exit %s\n%s\n' % (os.path.basename(HARN), c['params'], c.get('kind'), c.get('msg'), c.get('where', ''), c['log'], c['native_exit'], c['native_output']))
            print('counterexample: [%s] %s  params=%s inputs=%s' % (c.get('kind'), c.get('msg'), c['params'], c['log'][:200]))
            print('VIOLATION property=%s replay=%s' % (PROP, f))
        return 1
    for c in unconfirmed[:5]: print('NOT-REPRODUCED: [%s] %s params=%s inputs=%s native exit %s at %s' % (c['kind'], c['msg'], c['params'], c['log'][:200], c['native_exit'], c['where'][:600]))
    for c in mism[:5]: print('MODEL-MISMATCH: params=%s inputs=%s exit %s\n   expected %s\n   got      %s' % (c['params'], c['log'][:200], c['native_exit'], c['expected'], c['got']))
    for f in failed[:5]: print('FAILED: ' + f)
    if cross and cross['disagreements']: print('SOLVER-DISAGREEMENT: %s' % cross); return 2
    bad = [u for u in unconfirmed if u['kind'] != 'uninit']
    if not tot.get('completed') or ((bad or mism or failed) and os.environ.get('VERIF_STRICT')): return 2
    if failed: print('INCONCLUSIVE: the jobs above were not explored')
    if bad or mism: print('INCONCLUSIVE: the model and the real code disagree on the inputs above; they count as not explored')
    if missing:
        print('VACUOUS: never reached: %s' % missing)
        if not (bad or mism or incomplete or unmod or inc or failed): return 2
    print('OK property=%s held on everything explored' % PROP)
    return 0
def crosscheck():
    fs = sorted(glob.glob(WORK + '/smt/*.smt2')); 
    if not fs: return None
    import random; random.Random(SEED).shuffle(fs); fs = fs[:200]
    def one(f):
        want = 'sat' if f.endswith('.sat.smt2') else 'unsat'
        try: r = subprocess.run(['cvc5', '--tlimit=20000', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40)
        except subprocess.TimeoutExpired: return 'unknown', f
        o = r.stdout.decode().split('\n')[0].strip()
        if o not in ('sat', 'unsat'): return 'unknown', f
        return ('agree' if o == want else 'DISAGREE'), f
    with ThreadPoolExecutor(NPROC) as ex: rs = list(ex.map(one, fs))
    return dict(solver='cvc5', queries=len(fs), agree=sum(1 for a, _ in rs if a == 'agree'), unknown=sum(1 for a, _ in rs if a == 'unknown'), disagreements=sum(1 for a, _ in rs if a == 'DISAGREE'))
try: rc = main()
except (RuntimeError, subprocess.TimeoutExpired) as e: die(str(e))
finally: cleanup()
sys.exit(rc)
