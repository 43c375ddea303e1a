"""Bounded stand-ins: build a C++ harness against /repo's headers, run it in parallel, report. Never counted as proved."""
import os, sys, subprocess, json, hashlib, time, shutil, tempfile, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = os.environ.get('CV_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1); TIER = os.environ.get('VERIF_TIER', 'quick')
HERE = os.path.join(VERIF, 'cv', 'props')
T0 = time.time()

def build(src, scratch, std='c++20', opt='-O1', extra=()):
    exe = os.path.join(scratch, os.path.basename(src).replace('.cpp', ''))
    cmd = ['g++', '-std=' + std, opt, '-g0', '-w', '-I' + os.path.join(REPO, 'include'), '-I' + HERE, os.path.join(HERE, src), '-o', exe, *extra]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
    return exe, r

def run_all(exe, jobs, budget, env=None):
    """jobs: list of argument lists; runs NPROC at a time; returns [(args, rc, stdout, stderr, timed_out)]"""
    n = os.cpu_count() or 4; pend = list(enumerate(jobs)); act = {}; out = [None]*len(jobs)
    while pend or act:
        while pend and len(act) < n:
            i, a = pend.pop(0)
            f = tempfile.TemporaryFile('w+'); g = tempfile.TemporaryFile('w+')
            act[i] = (subprocess.Popen([exe] + [str(x) for x in a], stdout=f, stderr=g, text=True, env=env), f, g)
        time.sleep(0.02)
        late = time.time()-T0 > budget
        for i, (p, f, g) in list(act.items()):
            rc = p.poll()
            if rc is None and late: p.kill(); p.wait(); rc = 'timeout'
            if rc is not None:
                f.seek(0); g.seek(0); out[i] = (jobs[i], rc, f.read(), g.read()[-4000:], rc == 'timeout'); f.close(); g.close(); del act[i]
        if late and pend:
            for i, a in pend: out[i] = (a, 'timeout', '', '', True)
            pend = []
    return out

def load_known():
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)$', l.strip())
            if m: r.append(m.groups())
    return r

def stats(outs):
    """sum the STAT lines ('STAT evaluations distinct_nontrivial'), collect SAMPLE and FAIL lines"""
    ev = dn = 0; samples = []; fails = []; keys = {}
    for a, rc, so, se, to in outs:
        for l in so.splitlines():
            if l.startswith('STAT '): x = l.split(); ev += int(x[1]); dn += int(x[2])
            elif l.startswith('SAMPLE '): samples.append(l[7:])
            elif l.startswith('FAIL '): fails.append((a, l[5:], se))
            elif l.startswith('COUNT '): x = l.split(); keys[x[1]] = keys.get(x[1], 0) + int(x[2])
        if rc != 0 and not any(l.startswith('FAIL ') for l in so.splitlines()):
            fails.append((a, ('no answer within the time budget' if to else 'harness ended with %s' % rc) + ' args ' + ' '.join(map(str, a)), se))
    return ev, dn, samples, fails, keys

def report(prop, src, jobs, rule, assumptions=(), known_jobs=(), budget=None, extra=None, std='c++20', opt='-O1', flags=()):
    """build and run; write the evidence; exit 0/1. known_jobs: [(key, args)]: inputs recorded in known_findings.txt, run apart"""
    budget = budget or float(os.environ.get('CV_BUDGET', '780'))
    scratch = tempfile.mkdtemp(prefix='cv_%s_' % prop.lower())
    try:
        exe, r = build(src, scratch, std, opt, flags)
        if r.returncode != 0:
            ev = dn = 0; samples = []; counts = {}; fails = [((), 'the harness does not compile against the current headers', r.stderr[-3000:])]; found = []
        else:
            ev, dn, samples, fails, counts = stats(run_all(exe, jobs, budget)); found = []
            kn = {k[1]: k[2] for k in load_known() if k[0] == prop}
            for (key, a), o in zip(known_jobs, run_all(exe, [a for _, a in known_jobs], budget + 60)):
                if o[1] == 0: continue
                if key in kn: found.append(kn[key])
                else: fails.append((a, (o[2] or 'recorded input %s fails' % key).strip(), o[3]))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    cov = {'evaluations': ev, 'distinct_nontrivial': dn, 'rule': rule, 'samples': samples[:3] or ['none'], 'label': 'bounded: executions of the real code, not counted as proved', 'harness': 'cv/props/' + src, 'runs': [' '.join(map(str, j)) for j in jobs][:80]}
    if counts: cov['counts'] = counts
    if extra: cov.update(extra)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump({'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'exploration', 'coverage': cov, 'assumptions': list(assumptions), 'wall_s': round(time.time()-T0, 2), 'violations': len(fails)}, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for f in found: print('KNOWN-FINDING: property=%s %s' % (prop, f))
    if fails:
        d = os.path.join(VERIF, 'replays'); os.makedirs(d, exist_ok=True); fn = os.path.join(d, prop + '.txt')
        with open(fn, 'w') as f:
            for a, t, se in fails[:20]: f.write('property %s\nharness %s, arguments: %s (built with g++ against the headers of /repo)\n%s\n%s\n' % (prop, src, ' '.join(map(str, a)), t, se))
        sys.stderr.write(fails[0][1][:1500] + '\n' + fails[0][2][-600:] + '\n')
        print('VIOLATION property=%s replay=%s%s' % (prop, fn, ' no-failing-input-found' if not ev and not any('{' in t for _, t, _ in fails) else ''))
        sys.exit(1)
    print('OK property=%s bounded evaluations=%d nontrivial=%d wall=%.1fs' % (prop, ev, dn, time.time()-T0))
    sys.exit(0)
