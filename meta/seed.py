"""Write and confirm planted bugs.  python3 meta/seed.py write [ID..] | confirm [ID..] | check [ID..]
Everything runs on a scratch copy of /repo (and of /verif for `check`) bound over the real path in a private mount namespace."""
import sys, os, subprocess, json, shutil, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); SD = V + '/seeded'
sys.path.insert(0, V + '/meta')
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O1 -Iinclude %s "$d/demo.cpp" -o "$t/demo" || exit 1
timeout 120 "$t/demo"
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def write(b):
    d = SD + '/' + b['id']; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='seedw_')
    sh('git -C /repo archive HEAD include | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x' % (t, t))
    for f, old, new in b['edits']:
        p = t + '/include/poly_ops/' + f; s = open(p).read()
        if s.count(old) != 1: raise SystemExit('%s: text occurs %d times: %r' % (b['id'], s.count(old), old))
        open(p, 'w').write(s.replace(old, new))
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % t).stdout)
    shutil.rmtree(t)
    open(d + '/demo.sh', 'w').write(DEMO % b.get('flags', '')); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(b['demo'])
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
def ns(b, script):
    t = tempfile.mkdtemp(prefix='seedc_')
    try:
        r = sh('cp -a /repo %s/repo && mkdir %s/verif && cd %s && cp -a $(ls -A | grep -v -e "^.git$" -e seeded) %s/verif/ && cp -a seeded/%s %s/bug' % (t, t, V, t, b['id'], t))
        if r.returncode: return r.stderr
        inner = 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /repo\n%s' % (t, t, script.replace('BUG', t + '/bug'))
        r = sh("unshare -m bash -c '%s'" % inner.replace("'", "'\\''"), timeout=1800)
        return r.stdout + r.stderr
    finally: shutil.rmtree(t, ignore_errors=True)
def confirm(b):
    o = ns(b, '''bash BUG/demo.sh >/tmp/$$.d0 2>&1; echo "DEMO0 $?"
git apply BUG/patch.diff || exit 1
bash /opt/vp/test.sh BUG/out.json >BUG/log 2>&1
python3 - <<X
import json; a=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("BUG/out.json"))
base=a if isinstance(a,list) else a.get("stable") or a.get("passed") or a
print("TESTS passed",len(o["passed"]),"failed",len(o["failed"]), [x for x in base if x not in o["passed"]][:5])
X
bash BUG/demo.sh; echo "DEMO1 $?"''')
    ok = 'DEMO0 0' in o and 'TESTS passed 44 failed 0' in o and 'DEMO1 ' in o and 'DEMO1 0' not in o
    return ('OK ' if ok else 'BAD ') + ('' if ok else '\n' + o[-2500:])
def check(b):
    o = ns(b, 'git apply BUG/patch.diff || exit 1\ncd /verif; VERIF_TIER=quick VERIF_SEED=1 timeout 900 python3-vt cv/run.py %s; echo "RC $?"' % b['prop'])
    return '\n'.join([l for l in o.splitlines() if l.startswith(('VIOLATION', 'RC', 'Trace', 'KNOWN'))][-6:]) or o[-1500:]
if __name__ == '__main__':
    from bugs import B
    cmd = sys.argv[1]; ids = sys.argv[2:]
    sel = [b for b in B if not ids or b['id'] in ids or b['prop'] in ids]
    j = {'write': 8, 'confirm': 3, 'check': 1}[cmd]
    with cf.ThreadPoolExecutor(j) as ex:
        for b, r in zip(sel, ex.map(globals()[cmd], sel)): print(b['id'], b['prop'], r, flush=True)
