#!/usr/bin/env python3
"""mk.py SPEC.py ID... : build /verif/seeded/<id> from entries, check each in a copy"""
import sys, os, subprocess, shutil, json, tempfile, importlib.util
S = {}
def seed(id, prop, edits, needs, breaks, demo):
    S[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)
spec = sys.argv[1]
exec(open(spec).read())
want = sys.argv[2:] or list(S)
BASE = 'pyogp/lib/base/'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for i in want:
    s = S[i]
    w = tempfile.mkdtemp(prefix='seed', dir='/tmp'); sh('cp -a /repo/. %s/' % w)
    for f, old, new in s['edits']:
        p = os.path.join(w, BASE + f); t = open(p, encoding='latin1', newline='').read()
        if t.count('\r\n') > t.count('\n') / 2:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert t.count(old) == 1, (i, f, t.count(old))
        open(p, 'w', encoding='latin1', newline='').write(t.replace(old, new))
    d = '/verif/seeded/' + i
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'wb').write(subprocess.run('git -C %s diff' % w, shell=True, capture_output=True).stdout)
    assert sh('git -C /repo apply --check %s/patch.diff' % d).returncode == 0, i
    for f in ('demo.sh', 'demolib.py'): shutil.copy('/tmp/seeds/' + f, d)
    os.chmod(d + '/demo.sh', 0o755)
    shutil.copytree('/verif/harness/stub', d + '/stub', ignore=shutil.ignore_patterns('*.class', '*.pyc'))
    open(d + '/demo.py', 'w').write(s['demo'].lstrip())
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    a = sh('bash %s/demo.sh' % d, cwd='/repo'); b = sh('bash %s/demo.sh' % d, cwd=w)
    # the stable tests on the copy
    t = sh("sed 's#cd /repo#cd %s#' /opt/vp/test.sh > %s.sh; sed 's#/repo#%s#g' /opt/vp/pyogp/runtests.py > %s.py; . /opt/vp/pyogp/common.sh; true" % (w, w, w, w))
    r = sh('''/usr/bin/java -Xss4m -cp /usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar -Dpython.home=/usr/share/jython -Dpython.cachedir.skip=true -Dpython.path=%s:/opt/vp/pyogp/site org.python.util.jython -B %s.py %s.lines''' % (w, w, w), cwd=w)
    lines = open(w + '.lines').read() if os.path.exists(w + '.lines') else ''
    ok = lines.count('PASS') if 'PASS' in lines else lines.count('passed')
    c = ''
    if os.environ.get('CHECK', '1') == '1':
        x = sh('VF_REPO=%s timeout 900 /verif/bin/check %s' % (w, s['prop']))
        c = 'check rc=%d %s' % (x.returncode, [l for l in x.stdout.splitlines() if 'VIOLATION' in l or 'clauses' in l][:2])
    print(i, s['prop'], 'clean', a.returncode, 'patched', b.returncode, 'tests', ok, 'of base', c, flush=True)
    if a.returncode: print(a.stdout[-1500:], a.stderr[-500:])
    if not b.returncode: print('DEMO DOES NOT FAIL', b.stdout[-300:])
    shutil.rmtree(w)
    for e in ('.sh', '.py', '.lines'):
        if os.path.exists(w + e): os.remove(w + e)
