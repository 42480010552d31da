#!/usr/bin/env python3
"""sweep.py RECDIR OUT.jsonl FILE[:LO-HI]... [-n N] [-s SEED]: applies one small change at a time to a copy of the code, drives the recorded
scenarios, and says for each change: same (nothing observed differs), flagged (the clauses broken), crash, or quiet (differs, no clause broken)"""
import concurrent.futures, glob, io, json, os, random, shutil, subprocess, sys, tempfile, threading, tokenize
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '../../lib'))
sys.dont_write_bytecode = True
import vlib
REC, OUTF = sys.argv[1], sys.argv[2]
args = sys.argv[3:]
N, SEED, MUTS = 10 ** 9, 1, None
files = []
while args:
    a = args.pop(0)
    if a == '-n':
        N = int(args.pop(0))
    elif a == '-m':
        MUTS = args.pop(0)
    elif a == '-s':
        SEED = int(args.pop(0))
    else:
        files.append(a)
BASE = '/repo/pyogp/lib/base/'
NETS = 'net'
USES = {  # which recorded properties may notice a change to a file
    'message/circuit.py': 'C01 C02 C03 C04 C05 C25 C28 C06 C16',
    'message/udpdispatcher.py': 'C01 C02 C03 C04 C05 C07 C13 C15 C25 C28 C06 C16 C23',
    'message/udpdeserializer.py': 'C07 C12 C10 C04 C15 C13',
    'message/udpserializer.py': 'C10 C11 C15 C01 C22',
    'message/message_handler.py': 'C07 C09 C08', 'events.py': 'C08 C09 C07 C29', 'message/data_packer.py': 'C10 C11 C31',
    'message/data_unpacker.py': 'C10 C12 C31', 'message/message.py': 'C10 C18 C22 C04 C01', 'message/template.py': 'C10 C12 C14 C18',
    'message/template_parser.py': 'C14 C10', 'message/template_dict.py': 'C14 C12 C18', 'message/msgtypes.py': 'C10 C11 C12 C04 C31',
    'message/message_dot_xml.py': 'C15', 'message_manager.py': 'C13 C16 C24 C15 C14 C23', 'event_queue.py': 'C17 C18 C24 C23',
    'caps.py': 'C19 C20 C23', 'helpers.py': 'C14 C19 C20 C27 C29 C30 C18', 'datatypes.py': 'C21 C10 C12 C22', 'settings.py': 'C07 C23 C24 C17 C01',
    'network/net.py': 'C26', 'network/stdlib_client.py': 'C19 C20', 'exc.py': 'C19 C10 C12 C14', 'message/factory.py': 'C22 C18',
    'message/llsd_builder.py': 'C22', }

def changes(src):
    """(line, what, new source)"""
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l) + 1)
    out, cur, logical = [], [], []
    for k in tokenize.generate_tokens(io.StringIO(src).readline):
        if k.type in (tokenize.COMMENT, tokenize.NL, tokenize.INDENT, tokenize.DEDENT, tokenize.ENDMARKER):
            continue
        if k.type == tokenize.NEWLINE:
            if cur:
                logical.append(cur)
            cur = []
        else:
            cur.append(k)

    def at(p):
        return starts[p[0] - 1] + p[1]

    def emit(first, last, new, what):
        i, j = at(first.start), at(last.end)
        out.append((first.start[0], '%s: %s -> %s' % (what, src[i:j].split('\n')[0][:70], new[:60]), src[:i] + new + src[j:]))
    for q in logical:
        w = q[0].string
        t = src[at(q[0].start):at(q[-1].end)]
        if t.startswith(('logger', 'print', 'import ', 'from ', '@', 'class ', 'global', 'pass')) or q[0].type == tokenize.STRING or 'LOGG' in t:
            continue
        # a body on the line of its head
        depth, colon = 0, None
        if w in ('if', 'elif', 'while', 'for', 'def', 'else', 'try', 'except', 'finally', 'with'):
            for i, k in enumerate(q):
                depth += {'(': 1, '[': 1, '{': 1, ')': -1, ']': -1, '}': -1}.get(k.string, 0)
                if k.string == ':' and depth == 0:
                    colon = i
                    break
            if w in ('if', 'elif', 'while') and colon:
                c = src[at(q[1].start):at(q[colon - 1].end)]
                emit(q[1], q[colon - 1], '(not (%s))' % c, 'neg')
                if w == 'while':
                    emit(q[1], q[colon - 1], '(0)', 'neg')
            if w == 'def':
                continue
        elif not t.startswith(('return None', 'break', 'continue')):
            emit(q[0], q[-1], 'pass', 'stmt')
        prev = None
        for k in q:
            v = k.string
            if k.type == tokenize.NUMBER:
                emit(k, k, '(%s+1)' % v, 'num')
            elif v in ('==', '!=', '<>', '<', '>', '<=', '>='):
                emit(k, k, {'==': '!=', '!=': '==', '<>': '==', '<': '<=', '>': '>=', '<=': '<', '>=': '>'}[v], 'cmp')
            elif v in ('+', '-') and prev is not None and (prev.type in (tokenize.NAME, tokenize.NUMBER, tokenize.STRING) or prev.string in ')]') and prev.string not in ('return', 'print', 'in', 'and', 'or', 'not'):
                emit(k, k, {'+': '-', '-': '+'}[v], 'arith')
            elif v in ('&', '|'):
                emit(k, k, {'&': '|', '|': '&'}[v], 'bits')
            elif v in ('and', 'or', 'True', 'False', 'break', 'continue'):
                emit(k, k, {'and': 'or', 'or': 'and', 'True': 'False', 'False': 'True', 'break': 'continue', 'continue': 'break'}[v], 'word')
            elif v == 'not' :
                emit(k, k, '', 'not')
            elif v == 'is':
                emit(k, k, 'is not', 'is')
            prev = k
    return out


def named(p):
    return [json.load(open(j)) for j in sorted(glob.glob(os.path.join(REC, p + '-*.json')))]


def recs(f):
    if f.startswith('@'):
        return [x for p in f[1:].split() for x in named(p)]
    names = []
    for p in USES[f].split():
        for j in sorted(glob.glob(os.path.join(REC, p + '-*.json'))):
            names.append(json.load(open(j)))
    return names


lock = threading.Lock()
base = {}


def drive(repo, m, d):
    e = dict(os.environ)
    for k in ('JYTHONPATH', 'PYTHONPATH', 'CLASSPATH', 'JYTHON_HOME'):
        e.pop(k, None)
    e.update({'LC_ALL': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1', 'VF_REPO': repo})
    e.update(m['env'])
    path = ':'.join([os.path.join(vlib.VERIF, 'harness/stub'), repo, '/opt/vp/pyogp/site', os.path.join(vlib.VERIF, 'harness/drv')])
    out = os.path.join(d, m['name'] + '.out')
    cmd = ['java', '-Xss16m', '-Xmx900m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-Xshare:auto', '-cp', '/usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar',
           '-Dpython.home=/usr/share/jython', '-Dpython.cachedir.skip=true', '-Dpython.path=' + path, 'org.python.util.jython', '-B',
           os.path.join(vlib.VERIF, 'harness/drv', m['driver'] + '.py'), os.path.join(REC, m['name'] + '.in'), out]
    try:
        r = subprocess.run(cmd, env=e, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=150)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = 'hang'
    if rc != 0:
        return rc, []
    return 0, [l for l in open(out)]


def judge(m, traces, d):
    fn = os.path.join(d, 'traces')
    with open(fn, 'w') as f:
        for t in traces:
            t = json.loads(t)
            f.write(json.dumps({'cfg': t['cfg'], 'ev': t['ev']}) + '\n')
    cfg = 'SPECIFICATION TBSpec\nVIEW TBView\nCHECK_DEADLOCK FALSE\nCONSTANTS MInit <- %sInit\n MStep <- %sStep\n MBad <- %sBad\n' % ((m['prefix'],) * 3)
    ctx = vlib.Ctx(m['prop'])
    try:
        rc, text = ctx.tlc(m['module'], cfg, {'VF_TRACES': fn, 'VF_FOCUS': m['focus']}, 1, 200, heap='2g')
    finally:
        ctx.cleanup()
    cl = set()
    for line in text.split('\n'):
        if line.startswith('"BAD '):
            cl |= set(json.loads(json.loads(line)[4:])[2])
    if rc != 0:
        cl.add('unexplained')
    return cl


def one(job):
    f, line, what, src = job
    w = tempfile.mkdtemp(prefix='swp', dir='/tmp')
    try:
        subprocess.run('cp -a /repo/pyogp %s/' % w, shell=True)
        for g, text in (src if isinstance(src, list) else [(f, src)]):
            open(os.path.join(w, 'pyogp/lib/base', g), 'w', encoding='latin1', newline='').write(text)
        res = {'file': f, 'line': line, 'what': what, 'verdict': 'same', 'diff': []}
        for m in recs(f):
            d = os.path.join(w, m['name'])
            os.mkdir(d)
            rc, tr = drive(w, m, d)
            if rc != 0:
                res['verdict'] = 'crash %s %s' % (m['prop'], rc)
                break
            b = base[m['name']]
            diff = [x for x, y in zip(tr, b['tr']) if x != y]
            if m['name'] in base['noisy']:
                diff = diff[:40]
            if diff:
                cl = judge(m, diff[:40], d) - b['cl']
                if cl:
                    res['verdict'] = 'flagged %s' % sorted(cl)
                    res['by'] = m['prop']
                    break
                if m['name'] not in base['noisy']:
                    res['verdict'] = 'quiet'
                    res['diff'].append(m['name'])
        return res
    finally:
        shutil.rmtree(w, ignore_errors=True)


jobs = []
for a in files:
    f, _, rng = a.partition(':')
    src = open(BASE + f, encoding='latin1', newline='').read()
    cr = '\r\n' in src
    lo, hi = [int(x) for x in rng.split('-')] if rng else (0, 10 ** 9)
    for line, what, new in changes(src.replace('\r\n', '\n')):
        if lo <= line <= hi:
            jobs.append((f, line, what, new))
if MUTS:
    # a list of edits as tools/mutants has them
    def m2(i, props, edits, expect='caught'):
        texts = {}
        for f, old, new in edits:
            t = texts.get(f) or open(BASE + f, encoding='latin1', newline='').read()
            if '\r\n' in t and '\r\n' not in old:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if t.count(old) != 1:
                print(i, 'pattern', t.count(old), f)
                return
            texts[f] = t.replace(old, new)
        jobs.append(('@' + props, i, expect, sorted(texts.items())))

    def m(i, props, f, old, new, expect='caught'):
        m2(i, props, [(f, old, new)], expect)
    exec(open(MUTS).read())
random.Random(SEED).shuffle(jobs)
done = set()
if os.path.exists(OUTF):
    for l in open(OUTF):
        x = json.loads(l)
        done.add((x['file'], x['line'], x['what']))
print(len(jobs), 'changes', flush=True)
jobs = [j for j in jobs[:N] if (j[0], j[1], j[2]) not in done]
need = {}
for j in jobs:
    for m in recs(j[0]):
        need[m['name']] = m
base['noisy'] = set()


def baseline(m):
    w = tempfile.mkdtemp(prefix='swpb', dir='/tmp')
    try:
        os.mkdir(w + '/a'), os.mkdir(w + '/b')
        rc, tr = drive('/repo', m, w + '/a')
        rc2, tr2 = drive('/repo', m, w + '/b')
        cl = judge(m, tr, w)
        base[m['name']] = {'tr': tr, 'cl': cl}
        if tr != tr2:
            base['noisy'].add(m['name'])
        print('base', m['name'], m['driver'], rc, len(tr), tr != tr2 and 'noisy' or '', sorted(cl), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)


K = int(os.environ.get('SWEEP_J', '6'))
with concurrent.futures.ThreadPoolExecutor(K) as ex:
    list(ex.map(baseline, need.values()))
out = open(OUTF, 'a')
with concurrent.futures.ThreadPoolExecutor(K) as ex:
    for r in ex.map(one, jobs):
        out.write(json.dumps(r) + '\n')
        out.flush()
