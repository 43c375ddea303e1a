"""Check driver: runs proof tasks in parallel, replays failures on the real code
(built with g++ from the same sources), writes evidence and replay files."""
import os, sys, time, json, random, ctypes, mmap, struct, traceback, multiprocessing as mp, signal, re, hashlib
import multiprocessing.pool, multiprocessing.connection
sys.path.insert(0, os.path.dirname(__file__))
import z3
from ir import *
from dom import *
from exec import *
import build
from build import BuildError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
BUDGET = float(os.environ.get('CV_BUDGET', '780' if TIER == 'quick' else '860'))
NPROC = int(os.environ.get('CV_JOBS', '8'))
T0 = time.time()
def left(): return BUDGET - (time.time() - T0)

class Unit:
    """a C++ driver unit over /repo's headers, in one configuration"""
    def __init__(self, name, src, conf='gcc', extra=(), so=True, so_src=None, passes=None):
        self.name = name; self.src = src; self.conf = conf; self.extra = extra; self.so_src = so_src or src; self.want_so = so
        self.mod = None; self.so = None; self.err = None; self.so_err = None; self.passes = passes
    def build(self):
        try:
            kw = {'passes': self.passes} if self.passes else {}
            self.mod = Module(build.compile_ir(self.name, self.src, self.conf, self.extra, **kw))
        except (BuildError, IRError) as e: self.err = '%s: %s' % (type(e).__name__, e)
        return self
    def build_so(self):
        try:
            if self.want_so: self.so = build.compile_so(self.name, self.so_src, self.conf, self.extra)
        except BuildError as e: self.so_err = str(e)
        return self

class Task:
    """one function (wrapper) under contract.
    prove(T): raises obligations through T.ex;  conc(lib, inp) -> None | failure dict on the real code
    gen(rng, n): yields inputs;  T.from_model(model) -> input"""
    def __init__(self, name, unit, prove, conc=None, gen=None, funcs=(), dom='int', n_quick=3000, bounded=None, timeout=None, soft=False, budget=None):
        self.name = name; self.unit = unit; self.prove = prove; self.conc = conc; self.gen = gen; self.funcs = list(funcs); self.domk = dom
        self.n_quick = n_quick; self.bounded = bounded; self.timeout = timeout; self.soft = soft; self.budget = budget
    def __repr__(self): return self.name

class Run:
    """what a task sees while it runs"""
    def __init__(self, task):
        self.t = task; self.stats = Stats(); self.cands = []; self.assumptions = set(); self.paths = 0; self.covered = 0
        self.obls = []; self.used = set(); self.entered = set(); self.reports = []; self.trusted = set()
    def new(self, dom=None, **kw):
        k = dom or self.t.domk
        d = IntDom(self.stats) if k == 'int' else BVDom(self.stats)
        if self.t.timeout: d.timeout = self.t.timeout
        ex = Exec(self.t.unit.mod, d, **kw)
        ex.obls = self.obls; ex.cur = self.t.name
        ex.deadline = time.time() + (self.t.budget or 600)
        try:
            import fp
            ex.fp = fp.FP(d)
        except ImportError: pass
        self.ex = ex; self.execs = getattr(self, 'execs', []) + [ex]
        return ex, d
    def finals(self, states):
        """vacuity guard: at least one complete path with satisfiable facts"""
        self.paths += len(states)
        if not self.covered:
            for s in states:
                r, _ = self.ex.d.sat(s.facts, 10000)
                if r != 'unsat': self.covered = 1; break

def concrete_search(task, inputs, limit_s, hard=None):
    """run conc over inputs in a child process; -> failure dict or None. A crash of the real code is a failure."""
    if task.conc is None: return None, 0
    mm = mmap.mmap(-1, 1 << 20)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                import resource
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            except Exception: pass
            devnull = os.open('/dev/null', os.O_WRONLY); os.dup2(devnull, 2); os.dup2(devnull, 1)
            lib = ctypes.CDLL(task.unit.so)
            t = time.time(); n = 0
            for inp in inputs:
                b = repr(inp).encode()[:(1 << 20)-64]
                mm[16:20] = struct.pack('<I', len(b)); mm[20:20+len(b)] = b
                signal.alarm(20)
                f = task.conc(lib, inp)
                signal.alarm(0)
                n += 1
                if n % 16 == 0: mm[0:8] = struct.pack('<Q', n)
                if f:
                    os.write(w, json.dumps({'input': jsonable(inp), **f}, default=str).encode()[:60000]); break
                if time.time() - t > limit_s: break
            mm[0:8] = struct.pack('<Q', n)
            mm[8:16] = struct.pack('<Q', 1)
        except BaseException as e:
            try: os.write(w, json.dumps({'harness_error': ''.join(traceback.format_exception_only(type(e), e)) + traceback.format_exc()[-800:]}).encode())
            except Exception: pass
        os._exit(0)
    os.close(w)
    data = b''
    while True:
        x = os.read(r, 65536)
        if not x: break
        data += x
    os.close(r)
    _, status = os.waitpid(pid, 0)
    n = struct.unpack('<Q', mm[0:8])[0]
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        ln = struct.unpack('<I', mm[16:20])[0]
        inp = mm[20:20+ln].decode(errors='replace')
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGILL, signal.SIGBUS, signal.SIGALRM):
            return {'input': inp, 'failure': 'the real code ended with signal %d (%s)' % (sig, signal.Signals(sig).name)}, n
        return None, n
    if data:
        try: d = json.loads(data)
        except Exception: d = {'failure': data.decode(errors='replace')}
        if 'harness_error' in d:
            sys.stderr.write('harness error in %s: %s\n' % (task.name, d['harness_error']))
            return {'_harness_error': d['harness_error']}, n
        return d, n
    return None, n

def jsonable(x):
    if isinstance(x, (list, tuple)): return [jsonable(y) for y in x]
    if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (int, float, str, bool)) or x is None: return x
    return repr(x)

def _work(i):
    task = TASKS[i]
    t0 = time.time()
    out = {'task': task.name, 'conf': task.unit.conf, 'funcs': task.funcs, 'error': None, 'fail': None, 'obl': [], 'bounded': task.bounded}
    R = Run(task)
    try:
        if task.unit.err: raise BuildError(task.unit.err)
        if task.prove is None: R.covered = 1
        else: task.prove(R)
        if task.prove is None: pass
        elif not R.obls: out['error'] = 'vacuous: no obligation was generated'
        elif not R.covered: out['error'] = 'vacuous: no path satisfies the preconditions'
    except (ExecError, IRError, DomError, BuildError, KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError, RecursionError, z3.Z3Exception, OverflowError, NotImplementedError) as e:
        tb = traceback.format_exc()
        out['error'] = '%s: %s' % (type(e).__name__, str(e)[:500])
        out['tb'] = tb[-1500:]
    out['obl'] = [(o.name, o.status, o.backend, round(o.secs, 3)) for o in R.obls]
    bad = [o for o in R.obls if o.status != 'proved']
    # replay
    nsearch = 0
    if bad or out['error'] or (task.bounded and task.gen):
        cands = []
        for o in bad:
            if o.model is not None and hasattr(R, 'from_model'):
                try: cands += list(R.from_model(o.model, o))
                except Exception as e: out.setdefault('warn', []).append('from_model: %r' % e)
        if task.unit.want_so and task.conc:
            if task.unit.so is None:
                out['so_err'] = task.unit.so_err
            else:
                f, n = concrete_search(task, cands, 30); nsearch += n
                if f is None and task.gen:
                    rng = random.Random(SEED*1000003 + zlib_crc(task.name))
                    k = task.n_quick * (1 if TIER == 'quick' else 10)
                    f, n = concrete_search(task, task.gen(rng, k), (60 if TIER == 'quick' else 300) if not task.bounded else task.budget or 300); nsearch += n
                if f and '_harness_error' in f:
                    out.setdefault('warn', []).append(f['_harness_error']); f = None
                out['fail'] = f
    out['searched'] = nsearch
    out['bad'] = [(o.name, o.status, o.backend, str(o.model)[:1500] if o.model is not None else None) for o in bad]
    out['stats'] = {'queries': R.stats.queries, 'solver_s': R.stats.solver_s, 'backend': R.stats.backend}
    out['used'] = sorted(set().union(*[e.used_contracts for e in getattr(R, 'execs', [])] or [set()]))
    out['entered'] = sorted(set().union(*[e.entered for e in getattr(R, 'execs', [])] or [set()]))
    out['assume'] = sorted(set().union(*[e.assume_used for e in getattr(R, 'execs', [])] or [set()]) | R.assumptions)
    out['paths'] = R.paths; out['secs'] = time.time() - t0; out['covered'] = R.covered
    return out

def zlib_crc(s):
    import zlib
    return zlib.crc32(s.encode())

TASKS = []
def load_known():
    p = os.path.join(VERIF, 'known_findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                m = re.match(r'known: property=(\S+) (\S+) (.*)', l)
                if m: out.append(m.groups())
    return out

def _short(n):
    return n if len(n) < 160 else n[:157] + '...'

def main(prop, units, tasks, assumptions=(), trusted=(), level='proof', extra_cov=None, rule=None):
    """build everything, run all tasks, report; exits"""
    global TASKS
    tb = time.time()
    with mp.pool.ThreadPool(NPROC) as tp:
        jobs = [tp.apply_async(u.build) for u in units] + [tp.apply_async(u.build_so) for u in units if u.want_so]
        for j in jobs: j.get()
    sys.stderr.write('[%s] built %d units in %.1fs\n' % (prop, len(units), time.time()-tb))
    for u in units:
        if u.err: sys.stderr.write('unit %s/%s: %s\n' % (u.name, u.conf, u.err[:3000]))
    if callable(tasks): tasks = tasks()
    only = os.environ.get('CV_ONLY')
    if only: tasks = [t for t in tasks if re.search(only, t.name + '/' + t.unit.conf)]
    TASKS = tasks
    order = list(range(len(tasks)))
    res = [None]*len(tasks)
    procs = {}; pend = order[:]; 
    # one forked process per task (isolation of the solver state), NPROC at a time
    ctx = mp.get_context('fork')
    def spawn(i):
        r, w = ctx.Pipe(False)
        def body():
            try: w.send(_work(i))
            except BaseException as e:
                try: w.send({'task': tasks[i].name, 'conf': tasks[i].unit.conf, 'funcs': [], 'error': 'worker: %r %s' % (e, traceback.format_exc()[-800:]), 'fail': None, 'obl': [], 'bad': [], 'stats': {'queries': 0, 'solver_s': 0, 'backend': {}}, 'used': [], 'entered': [], 'assume': [], 'paths': 0, 'secs': 0, 'searched': 0, 'bounded': None, 'covered': 0})
                except Exception: pass
            w.close()
        p = ctx.Process(target=body); p.start(); w.close()
        return p, r
    while pend or procs:
        while pend and len(procs) < NPROC:
            i = pend.pop(0); procs[i] = spawn(i)
        ready = mp.connection.wait([r for _, r in procs.values()], timeout=1)
        for i, (p, r) in list(procs.items()):
            if r in ready:
                try: res[i] = r.recv()
                except EOFError: res[i] = dict(task=tasks[i].name, conf=tasks[i].unit.conf, funcs=[], error='worker died', fail=None, obl=[], bad=[], stats={'queries': 0, 'solver_s': 0, 'backend': {}}, used=[], entered=[], assume=[], paths=0, secs=0, searched=0, bounded=None, covered=0)
                p.join(); r.close(); del procs[i]
                x = res[i]
                nb = len(x['bad'])
                if nb or x['error'] or x['fail'] or os.environ.get('CV_V'):
                    sys.stderr.write('  %-40s %-6s obl=%d bad=%d paths=%d %.1fs %s %s\n' % (x['task'], x['conf'], len(x['obl']), nb, x['paths'], x['secs'], x['error'] or '', 'FAIL ' + json.dumps(x['fail'], default=str)[:400] if x['fail'] else ''))
                    for b in x['bad'][:4]: sys.stderr.write('      %s: %s (%s)\n' % (b[1], b[0], b[2]))
                    for wn in x.get('warn', [])[:2]: sys.stderr.write('      warn %s\n' % wn[:500])
                    if x.get('so_err'): sys.stderr.write('      so: %s\n' % x['so_err'][:600])
                    if os.environ.get('CV_TB') and x.get('tb'): sys.stderr.write(x['tb'])
        if left() < 0:
            for i, (p, r) in procs.items():
                try: os.kill(p.pid, 9)
                except Exception: pass
                p.join()
                res[i] = dict(task=tasks[i].name, conf=tasks[i].unit.conf, funcs=[], error='time budget of the check exhausted', fail=None, obl=[], bad=[], stats={'queries': 0, 'solver_s': 0, 'backend': {}}, used=[], entered=[], assume=[], paths=0, secs=0, searched=0, bounded=None, covered=0)
            procs.clear()
            for i in pend:
                res[i] = dict(task=tasks[i].name, conf=tasks[i].unit.conf, funcs=[], error='time budget of the check exhausted', fail=None, obl=[], bad=[], stats={'queries': 0, 'solver_s': 0, 'backend': {}}, used=[], entered=[], assume=[], paths=0, secs=0, searched=0, bounded=None, covered=0)
            pend = []
    report(prop, tasks, res, assumptions, trusted, level, extra_cov, rule)

def report(prop, tasks, res, assumptions, trusted, level, extra_cov, rule):
    proof = [r for r in res if not r['bounded']]; bnd = [r for r in res if r['bounded']]
    obls = sum(len(r['obl']) for r in proof); dis = sum(1 for r in proof for o in r['obl'] if o[1] == 'proved')
    be = {}; nq = 0; ss = 0.0
    for r in res:
        for k, v in r['stats']['backend'].items(): be[k] = be.get(k, 0) + v
        nq += r['stats']['queries']; ss += r['stats']['solver_s']
    dbe = {}
    for r in proof:
        for o in r['obl']:
            if o[1] == 'proved': dbe[o[2]] = dbe.get(o[2], 0) + 1
    funcs = sorted(set(f for r in proof for f in r['funcs']))
    entered = sorted(set(f for r in res for f in r['entered']))
    ass = list(assumptions) + sorted(set(a for r in res for a in r['assume']))
    known = [k for k in load_known() if k[0] == prop]
    viol = []; errs = []; findings = []
    for r in res:
        kf = next((k for k in known if re.search(k[1], '%s/%s' % (r['task'], r['conf']))), None)
        if r['fail'] is not None:
            (findings if kf else viol).append((r, kf)); continue
        hard = [b for b in r['bad'] if b[1] == 'failed']
        soft = [b for b in r['bad'] if b[1] != 'failed']
        if hard: (findings if kf else viol).append((r, kf))
        elif soft or r['error']:
            if kf: findings.append((r, kf))
            else: errs.append(r)
    cov = {'obligations': obls, 'discharged': dis,
           'checker_cmd': 'python3-vt cv/run.py %s (own VC generator over clang-18 LLVM IR of /repo; z3 %s, cvc5)' % (prop, z3.get_version_string()),
           'trusted_base': list(trusted) + ['clang 18 front end and opt sroa/simplifycfg: IR means what the C++ source means (g++ builds the tests)', 'the VC generator cv/{ir,dom,exec,fp}.py', 'z3, cvc5'],
           'functions_under_contract': funcs, 'functions_entered': [_short(f) for f in entered][:400], 'functions_entered_count': len(entered),
           'contracts_used_at_calls': sorted(set(u for r in res for u in r['used'])),
           'proof_tasks': len(proof), 'paths': sum(r['paths'] for r in proof), 'solver_queries': nq, 'solver_seconds': round(ss, 2), 'queries_by_back_end': be, 'discharged_by_back_end': dbe,
           'replay_inputs_executed': sum(r['searched'] for r in res),
           'configurations': sorted(set(r['conf'] for r in res)),
           'samples': [{'task': r['task'], 'conf': r['conf'], 'obligations': [o[0] for o in r['obl'][:5]], 'paths': r['paths']} for r in proof[:3]]}
    if bnd:
        cov['bounded_stand_ins'] = [{'task': r['task'], 'bound': r['bounded'], 'inputs_executed': r['searched'], 'note': 'bounded, not counted as proved'} for r in bnd]
    if level != 'proof':
        cov['evaluations'] = sum(r['searched'] for r in res); cov['distinct_nontrivial'] = cov['evaluations']; cov['rule'] = rule or ''
    if extra_cov: cov.update(extra_cov)
    ev = {'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': level, 'coverage': cov, 'assumptions': ass, 'wall_s': round(time.time()-T0, 2), 'violations': len(viol) + len(errs)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    for r, kf in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, kf[2]))
    sys.stderr.write('[%s] tasks=%d obligations=%d discharged=%d solver=%.1fs wall=%.1fs\n' % (prop, len(res), obls, dis, ss, time.time()-T0))
    if viol:
        d = os.path.join(VERIF, 'replays'); os.makedirs(d, exist_ok=True)
        viol.sort(key=lambda x: x[0]['fail'] is None)
        conc = [v for v in viol if v[0]['fail'] is not None]
        for k, (r, _) in enumerate(viol[:6] if conc else viol[:3]):
            if conc and r['fail'] is None: continue
            fn = os.path.join(d, '%s_%s_%s.txt' % (prop, re.sub(r'\W+', '_', r['task'])[:60], r['conf']))
            with open(fn, 'w') as f:
                f.write('property %s\ntask %s (configuration %s)\n' % (prop, r['task'], r['conf']))
                f.write('functions: %s\n' % ', '.join(r['funcs']))
                for b in r['bad'][:10]: f.write('failed obligation: %s\n  status: %s  back end: %s\n  model: %s\n' % b)
                if r['error']: f.write('verifier error: %s\n' % r['error'])
                if r['fail']: f.write('failing input on the real code (g++ build):\n%s\n' % json.dumps(r['fail'], indent=1, default=str))
            sys.stdout.write('VIOLATION property=%s replay=%s%s\n' % (prop, fn, '' if r['fail'] is not None else ' no-failing-input-found'))
        sys.stdout.flush()
        sys.exit(1)
    if errs:
        # not decided: the proof obligation (or the extraction of the function) could not be completed on this source
        d = os.path.join(VERIF, 'replays'); os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, '%s_undecided.txt' % prop)
        with open(fn, 'w') as f:
            for r in errs:
                f.write('property %s task %s (configuration %s): obligation not discharged\nfunctions: %s\n%s\n' % (prop, r['task'], r['conf'], ', '.join(r['funcs']), r['error'] or ''))
                for b in r['bad'][:10]: f.write('  obligation: %s\n  status: %s  back end: %s\n  model: %s\n' % b)
        for r in errs[:20]:
            sys.stderr.write('UNDECIDED property=%s task=%s/%s: %s\n' % (prop, r['task'], r['conf'], (r['error'] or '')[:300].replace('\n', ' ') or '; '.join('%s [%s]' % (b[0], b[1]) for b in r['bad'][:3])))
        sys.stdout.write('VIOLATION property=%s replay=%s no-failing-input-found\n' % (prop, fn))
        sys.exit(1)
    print('OK property=%s obligations=%d discharged=%d' % (prop, obls, dis))
    sys.exit(0)
