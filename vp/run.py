"""Check runner: compile harnesses against /repo's current sources, explore them symbolically, replay counterexamples."""
import os, sys, signal, json, time, subprocess, tempfile, shutil, hashlib, traceback, glob, re
from concurrent.futures import ProcessPoolExecutor, as_completed
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
PY = '/opt/venv/bin/python'
CORES = int(os.environ.get('VP_CORES', '8'))
GB = REPO + '/quspin/basis/basis_general/_basis_general_core/source'
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1'))


def pyinc():
    return ['-I/usr/include/python3.12', '-I/opt/venv/lib/python3.12/site-packages/numpy/core/include']


CXX = ['-std=c++17', '-w', '-ffp-contract=off', '-ftrivial-auto-var-init=pattern', '-I' + VERIF + '/vp/include', '-DNPY_NO_DEPRECATED_API=0']


def incs():
    return ['-I' + GB, '-I' + REPO + '/quspin/basis', '-I' + REPO + '/quspin/tools', '-I' + REPO + '/quspin/basis/_basis_utils'] + pyinc()


class Job:
    """one harness function of one translation unit"""
    def __init__(self, src, fn, defs=(), bounds='', tmo=300, opt='-O1', known=None, extra=(), pre=None, qfbv=True, merging=True, native=None, ms=60000, want=None):
        self.src, self.fn, self.defs, self.bounds, self.tmo, self.opt = src, fn, tuple(defs), bounds, tmo, opt
        self.known, self.extra, self.pre, self.qfbv, self.merging, self.native, self.ms = known, tuple(extra), pre, qfbv, merging, native, ms
        self.want = want

    @property
    def key(self):
        return (self.src, self.defs, self.opt, self.extra)

    @property
    def name(self):
        return '%s:%s%s' % (os.path.basename(self.src), self.fn, ('[' + ','.join(self.defs) + ']') if self.defs else '')


def compile_ir(work, key):
    src, defs, opt, extra = key
    out = os.path.join(work, hashlib.sha1(repr(key).encode()).hexdigest()[:12] + '.ll')
    cmd = ['clang++', opt, '-S', '-emit-llvm', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops'] + CXX + \
          ['-D' + d for d in defs] + list(extra) + incs() + [src, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: return None, ' '.join(cmd) + '\n' + r.stderr[-4000:]
    return out, ''


def compile_native(work, job, san=True):
    out = os.path.join(work, 'n' + hashlib.sha1(repr((job.key, job.fn)).encode()).hexdigest()[:12])
    cmd = ['clang++', '-O1', '-g0', '-DVP_NATIVE', '-DVP_ENTRY=' + job.fn] + (['-fsanitize=address,undefined', '-fno-sanitize=vptr,shift,function,float-cast-overflow', '-fno-sanitize-recover=all'] if san else []) + CXX + \
          ['-D' + d for d in job.defs] + list(job.extra) + incs() + [job.src, VERIF + '/vp/include/vp_native.cpp', '-o', out] + list(job.native or ())
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: return None, r.stderr[-3000:]
    return out, ''


def replay_native(work, job, cex):
    """-> (reproduced, text)"""
    id, inputs, msg = cex
    inp = os.path.join(work, 'in_%s_%d.txt' % (job.fn, os.getpid()))
    with open(inp, 'w') as f:
        for k, v in inputs.items(): f.write('%s %s\n' % (k, repr(v) if isinstance(v, float) else v))
    txt = ''
    for san in (False, True):
        exe, err = compile_native(work, job, san)
        if exe is None: return False, 'native compile failed: ' + err
        try:
            r = subprocess.run([exe, inp], capture_output=True, text=True, timeout=120, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:max_malloc_fill_size=1000000:malloc_fill_byte=85', MALLOC_PERTURB_='170'), errors='replace')
        except subprocess.TimeoutExpired:
            return False, 'native replay timed out'
        txt += '[%s] rc=%d %s %s\n' % ('san' if san else 'plain', r.returncode, r.stdout.strip()[-300:], r.stderr[-600:])
        o = r.stdout.strip().split('\n')[-1] if r.stdout.strip() else ''
        if isinstance(id, int):
            if o == 'FAIL %d' % id: return True, txt
            if o.startswith('FAIL'): return True, txt
            if r.returncode < 0: return True, txt
        else:
            if r.returncode not in (0, 3) : return True, txt
    return False, txt


_mods = {}


def run_job(ll, job, deadline):
    from .ir import Module
    from .sx import Exec, Unsupported, Inconclusive
    t0 = time.time()
    res = dict(name=job.name, bounds=job.bounds, status='ok', cex=[], t=0)
    ex = None
    try:
        if ll not in _mods:
            _mods.clear(); _mods[ll] = Module(open(ll).read())
        ex = Exec(_mods[ll], timeout_ms=job.ms, deadline=min(deadline, time.time() + job.tmo), qfbv=job.qfbv and '@vp_real' not in _mods[ll].decls)
        ex.merging = job.merging
        if job.pre: job.pre(ex)
        def late(*_): raise Inconclusive('time limit')
        signal.signal(signal.SIGALRM, late); signal.alarm(max(1, int(min(deadline - time.time(), job.tmo) + 5)))
        try: ex.explore('@' + job.fn)
        finally: signal.alarm(0)
        if ex.cex: res['status'] = 'cex'; res['cex'] = ex.cex
        elif not ex.asserts: res['status'] = 'error'; res['err'] = 'vacuous: no assertion reached'
        elif ex.paths == 0: res['status'] = 'error'; res['err'] = 'vacuous: no path returns'
        elif job.want and set(job.want) - set(ex.asserts): res['status'] = 'error'; res['err'] = 'vacuous: assertions %s never reached' % sorted(set(job.want) - set(ex.asserts))
        elif any(not v for v in ex.reached.values()): res['status'] = 'error'; res['err'] = 'reach witness infeasible'
    except Inconclusive as e:
        res['status'] = 'inconclusive'; res['err'] = str(e)
    except Unsupported as e:
        res['status'] = 'unsupported'; res['err'] = str(e)
    except Exception as e:
        res['status'] = 'error'; res['err'] = traceback.format_exc()[-400:]
    if ex is not None and ex.cex and res['status'] != 'cex': res['status'] = 'cex'; res['cex'] = ex.cex
    if ex is not None:
        res.update(paths=ex.paths, forks=ex.forks, merges=ex.merges, steps=ex.steps, queries=ex.nq, solver_s=round(ex.tq, 3),
                   asserts={str(k): v for k, v in ex.asserts.items()}, fns=sorted(ex.fnused), ninputs=len(ex.inputs))
    res['t'] = round(time.time() - t0, 2)
    return res


def demangle(names):
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(n.lstrip('@').strip('"') for n in names), capture_output=True, text=True)
        return r.stdout.strip().split('\n')
    except Exception:
        return list(names)


def load_known(prop):
    p = VERIF + '/known_findings.json'
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k.get('property') == prop and k.get('status') == 'known']


def pyfns(script): return re.findall(r'^def (t_\w+)', open(VERIF + '/checks/py/' + script).read(), re.M)


class Check:
    def __init__(self, prop):
        from .props import P
        self.prop, self.explanation, self.assumptions, self.bounds = prop, P[prop]['expl'], list(P[prop]['assume']), P[prop]['bounds']
        self.notes = []
        self.jobs = []
        self.pyjobs = []     # (name, callable-spec) executed by vp.pysym under PY
        self.work = tempfile.mkdtemp(prefix='vp_%s_' % prop)
        self.t0 = time.time()
        self.budget = float(os.environ.get('VP_BUDGET', '840' if TIER == 'quick' else '14000'))
        self.results = []

    def job(self, *a, **k):
        self.jobs.append(Job(*a, **k))

    def pyjob(self, script, fn, **kw):
        """symbolic execution of the Python layer: checks/<script> run under the repo's interpreter"""
        self.pyjobs.append((script, fn, kw))

    # ------------------------------------------------------------
    def finish(self):
        try:
            return self._finish()
        finally:
            shutil.rmtree(self.work, ignore_errors=True)

    def _finish(self):
        deadline = self.t0 + self.budget
        only = os.environ.get('VP_ONLY')
        if only: self.jobs = [j for j in self.jobs if re.search(only, j.name)]; self.pyjobs = [p for p in self.pyjobs if re.search(only, p[1])]
        keys = list(dict.fromkeys(j.key for j in self.jobs))
        lls = {}; errs = []
        with ProcessPoolExecutor(CORES, mp_context=mp.get_context('fork')) as pool:
            pyf = {pool.submit(run_py, self.work, p, deadline): p for p in self.pyjobs}
            fut = {pool.submit(compile_ir, self.work, k): k for k in keys}
            jf = {}
            for f in as_completed(fut):
                out, err = f.result()
                if out is None: errs.append(err)
                else:
                    for j in self.jobs:
                        if j.key == fut[f]: jf[pool.submit(run_job, out, j, deadline)] = j
            for f in as_completed(jf):
                r = f.result(); self.results.append((jf[f], r))
                if os.environ.get('VP_V'): print(r['name'], r['status'], r['t'], r.get('err', ''), r['cex'][:1], flush=True)
            for f in as_completed(pyf):
                for r in f.result():
                    self.results.append((None, r))
                    if os.environ.get('VP_V'): print(r['name'], r['status'], r['t'], r.get('err', ''), r['cex'][:1], flush=True)
        rc = 0; nviol = 0; known = load_known(self.prop)
        for e in errs[:3]: print('ERROR compile:', e[-1500:])
        undecided = []
        for j in self.jobs:
            if not any(x is j for x, _ in self.results): undecided.append((j.name, 'does not compile against the current sources'))
        viol = []
        for j, r in self.results:
            if r['status'] == 'cex':
                done = False; log = ''
                for c in r['cex'][:3]:
                    if j is not None: ok, txt = replay_native(self.work, j, c)
                    else: ok, txt = c[3], c[4]
                    r['replayed'] = ok; r['replay_log'] = txt; log += txt
                    if not ok: continue
                    k = next((k for k in known if re.fullmatch(k['harness'], r['name']) and (str(c[0]) == str(k.get('assert', c[0])))), None)
                    if k: print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
                    else: viol.append((j, r, c))
                    done = True; break
                if not done: print('ERROR: counterexample of %s did not reproduce on the real code: %s %s\n%s' % (r['name'], r['cex'][0][0], r['cex'][0][1], log[-1500:])); rc = 2
            elif r['status'] in ('inconclusive', 'unsupported'): undecided.append((r['name'], '%s %s' % (r['status'], r.get('err', ''))))
            elif r['status'] != 'ok':
                print('ERROR: %s: %s %s' % (r['name'], r['status'], r.get('err', ''))); rc = 2
        # a harness the current sources put out of reach lowers the coverage (stated here and in the evidence); most of them must still be decided
        for n, w in undecided: print('NOT DECIDED: %s: %s' % (n, w))
        self.undecided = undecided
        if 2 * len(undecided) > len(self.jobs) + len(self.pyjobs): rc = rc or 2
        for k in known:
            hit = [r for j, r in self.results if re.fullmatch(k['harness'], r['name']) and r['status'] == 'cex']
            if not hit: print('NOTE: known finding no longer observed: %s' % k['what'])
        for j, r, c in viol:
            os.makedirs(VERIF + '/out', exist_ok=True)
            p = '%s/out/%s_%s.json' % (VERIF, self.prop, re.sub(r'[^\w]+', '_', r['name'])[:80])
            json.dump(dict(property=self.prop, harness=r['name'], assertion=c[0], message=c[2], inputs=c[1], replay=r.get('replay_log'),
                           defs=list(j.defs) if j else None, src=j.src if j else None), open(p, 'w'), indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (self.prop, p)); print('  %s assert %s inputs %s' % (r['name'], c[0], str(c[1])[:600])); nviol += 1
        if nviol: rc = 1
        self.evidence(nviol)
        n = len(self.results); ok = sum(r['status'] == 'ok' for _, r in self.results)
        print('%s: %d/%d harnesses ok, %d queries, solver %.1fs, wall %.1fs' % (self.prop, ok, n, sum(r.get('queries', 0) for _, r in self.results),
              sum(r.get('solver_s', 0) for _, r in self.results), time.time() - self.t0))
        return rc

    def evidence(self, nviol):
        R = [r for _, r in self.results]
        fns = set()
        for r in R: fns.update(r.get('fns', ()))
        dm = sorted(set(demangle(sorted(f for f in fns if f.startswith('@'))))) + sorted(f for f in fns if not f.startswith('@'))
        dm = [d for d in dm if d and not d.startswith('std::') and not d.startswith('h_')]
        cov = dict(explanation=self.explanation, bounds=self.bounds,
                   obligations=sum(sum(v[0] for v in r.get('asserts', {}).values()) for r in R),
                   obligations_needing_solver=sum(sum(v[1] for v in r.get('asserts', {}).values()) for r in R),
                   harnesses=len(R), harnesses_not_decided=[list(u) for u in self.undecided], harnesses_ok=sum(r['status'] == 'ok' for r in R),
                   queries=sum(r.get('queries', 0) for r in R), solver_s=round(sum(r.get('solver_s', 0) for r in R), 2),
                   path_forks=sum(r.get('forks', 0) for r in R), path_merges=sum(r.get('merges', 0) for r in R), instructions=sum(r.get('steps', 0) for r in R),
                   functions_encoded=dm[:200], samples=[dict(harness=r['name'], bounds=r['bounds'], status=r['status'], queries=r.get('queries'), solver_s=r.get('solver_s'),
                        wall_s=r['t'], obligations=r.get('asserts')) for r in R][:60],
                   encoder='; '.join((['LLVM-18 IR compiled this run from /repo sources'] if self.jobs else []) + (['Python modules of /repo executed on symbolic numbers this run'] if self.pyjobs else [])))
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level='other', coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=nviol)
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open('%s/evidence/%s.json' % (VERIF, self.prop), 'w'), indent=1)


def run_py(work, spec, deadline):
    script, fn, kw = spec; kw = dict(dict(tmo=400 if TIER == 'quick' else 4000, nconc=4 if TIER == 'quick' else 24), **kw)
    out = os.path.join(work, 'py_%s.json' % hashlib.sha1(repr(spec).encode()).hexdigest()[:10])
    t0 = time.time()
    env = dict(os.environ, PYTHONPATH=VERIF + ':' + REPO, VP_REPO=REPO, VP_OUT=out, VP_KW=json.dumps(kw), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', VP_WORK=work)
    try:
        r = subprocess.run([PY, '-c', 'from vp import pysym; pysym.main(%r, %r)' % (script, fn)], capture_output=True, text=True, env=env, timeout=max(10, deadline - time.time()), cwd=VERIF)
    except subprocess.TimeoutExpired:
        return [dict(name=fn, bounds='', status='inconclusive', err='timeout', cex=[], t=time.time() - t0)]
    if not os.path.exists(out):
        return [dict(name=fn, bounds='', status='error', err=r.stdout[-1500:] + r.stderr[-3000:], cex=[], t=time.time() - t0)]
    return json.load(open(out))
