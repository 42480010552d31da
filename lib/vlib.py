"""Machinery shared by the checks: runs TLC, runs the drivers under Jython, judges traces."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
TLACP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = min(8, os.cpu_count() or 4)
MACHINERY = 2


class Machinery(Exception):
    """the check itself failed"""


class Broken(Exception):
    """the code under test could not be run at all"""

    def __init__(self, clause, text):
        Exception.__init__(self, text)
        self.clause, self.text = clause, text


class Ctx(object):

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rnd = random.Random('%s/%d' % (prop, self.seed))
        self.scratch = tempfile.mkdtemp(prefix='vf-%s-' % prop)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.scenarios = 0
        self.models = []
        self.samples = []
        self.notes = []
        self.violations = []     # (clauses, replay record)
        self.known = {}
        self.assumptions = []

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- TLC -----------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, extra=(), heap='6g'):
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.scratch)
        cfgp = os.path.join(d, module + '.cfg')
        with open(cfgp, 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        out = os.path.join(d, 'out')
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap,
               '-DTLA-Library=' + os.path.join(VERIF, 'spec'), '-Djava.io.tmpdir=' + d,
               '-cp', TLACP, 'tlc2.TLC', '-metadir', os.path.join(d, 'm'), '-noGenerateSpecTE',
               '-workers', str(workers), '-config', cfgp] + list(extra) + [os.path.join(VERIF, 'spec', module + '.tla')]
        with open(out, 'wb') as f:
            try:
                rc = subprocess.call(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=d, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise Machinery('TLC on %s took more than %d s' % (module, timeout))
        with open(out, errors='replace') as f:
            text = f.read()
        shutil.rmtree(os.path.join(d, 'm'), ignore_errors=True)
        return rc, text

    def counts(self, text):
        m = None
        for m in re.finditer(r'(\d+) states generated, (\d+) distinct states found', text):
            pass
        if not m:
            return 0, 0
        return int(m.group(1)), int(m.group(2))

    def mc(self, module, consts=None, invariants=(), properties=(), env=None, workers=1, view='View', emit=True,
           timeout=800, spec='Spec', constraint=None, extra=(), label=''):
        """model-checks; returns the scenarios the model printed"""
        cfg = 'SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n' % spec
        for k, v in (consts or {}).items():
            cfg += 'CONSTANT %s = %s\n' % (k, v)
        if view:
            cfg += 'VIEW %s\n' % view
        if constraint:
            cfg += 'CONSTRAINT %s\n' % constraint
        if invariants:
            cfg += 'INVARIANTS %s\n' % ' '.join(invariants)
        if properties:
            cfg += 'PROPERTIES %s\n' % ' '.join(properties)
        e = {'VF_EMIT': '1' if emit else '0'}
        e.update(env or {})
        t = time.time()
        rc, text = self.tlc(module, cfg, e, workers, timeout, extra)
        if rc != 0 or 'Model checking completed. No error has been found' not in text:
            k = text.find('Error:')
            raise Machinery('model checking %s %s failed:\n%s' % (module, label, text[max(k, 0):][:4000]))
        gen, dist = self.counts(text)
        self.states += dist
        self.transitions += gen
        scns, seen = [], set()
        for line in text.split('\n'):
            if line.startswith('"SCN '):
                s = json.loads(line)[4:]
                if s not in seen:
                    seen.add(s)
                    scns.append(json.loads(s))
        self.models.append({'model': module + (' ' + label if label else ''), 'distinct_states': dist,
                            'transitions': gen, 'scenarios': len(scns), 's': round(time.time() - t, 1),
                            'constants': {k: str(v) for k, v in (consts or {}).items()}})
        return scns

    # ---- drivers -------------------------------------------------------
    def jython(self, driver, infile, outfile, extra_env=None):
        e = dict(os.environ)
        for k in ('JYTHONPATH', 'PYTHONPATH', 'CLASSPATH', 'JYTHON_HOME'):
            e.pop(k, None)
        e.update({'LC_ALL': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1', 'VF_REPO': REPO})
        e.update(extra_env or {})
        path = ':'.join([os.path.join(VERIF, 'harness/stub'), REPO, '/opt/vp/pyogp/site',
                         os.path.join(VERIF, 'harness/drv')])
        cmd = ['java', '-Xss16m', '-Xmx1500m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-Xshare:auto',
               '-cp', '/usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar',
               '-Dpython.home=/usr/share/jython', '-Dpython.cachedir.skip=true', '-Dpython.path=' + path,
               'org.python.util.jython', '-B', os.path.join(VERIF, 'harness/drv', driver + '.py'), infile, outfile]
        return subprocess.Popen(cmd, env=e, cwd=self.scratch, stdout=open(outfile + '.log', 'wb'),
                                stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)

    def drive(self, driver, scns, jobs=None, timeout=420, env=None):
        """runs the scenarios on the code; returns the traces in the order of the scenarios"""
        if not scns:
            return []
        for i, s in enumerate(scns):
            s['id'] = i
        if jobs is None:
            jobs = max(1, min(CPUS - 2, len(scns) // 40))
        d = tempfile.mkdtemp(prefix='drv-', dir=self.scratch)
        procs = []
        for j in range(jobs):
            part = scns[j::jobs]
            sub = os.path.join(d, str(j))
            os.mkdir(sub)
            inf, outf = os.path.join(sub, 'in'), os.path.join(sub, 'out')
            with open(inf, 'w') as f:
                for s in part:
                    f.write(json.dumps(s) + '\n')
            procs.append((self.jython(driver, inf, outf, env), outf, part))
        res = {}
        end = time.time() + timeout
        err = None
        for p, outf, part in procs:
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                rc = None
            if rc != 0 and err is None:
                for q, _, _ in procs:
                    if q.poll() is None and rc is None:
                        q.kill()
                with open(outf + '.log', errors='replace') as f:
                    log = f.read()[-3000:]
                n = 0
                if os.path.exists(outf):
                    with open(outf) as f:
                        n = len(f.readlines())
                scn = part[n] if n < len(part) else None
                err = Broken('hang' if rc is None else 'crash',
                             ('no answer within %d s\n' % timeout if rc is None else 'driver ended with %s\n' % rc) + log)
                err.scenario = scn
                err.driver = driver
                if rc is None and not log.strip() and n == 0 and False:
                    pass
            if err is None:
                with open(outf) as f:
                    for line in f:
                        t = json.loads(line)
                        res[t['id']] = t
        if err:
            for q, _, _ in procs:
                if q.poll() is None:
                    q.kill()
            raise err
        out = []
        for s in scns:
            if s['id'] not in res:
                raise Machinery('no trace for scenario %s of %s' % (s['id'], driver))
            out.append(res[s['id']])
        self.scenarios += len(scns)
        shutil.rmtree(d, ignore_errors=True)
        return out

    # ---- judging -------------------------------------------------------
    def validate(self, module, traces, prefix, scns=None, driver=None, timeout=800, focus=None, rename=None):
        """every trace is checked against the monitor <prefix>Init/Step/Bad of the trace module"""
        if not traces:
            return
        focus = focus or self.prop
        cfg = 'SPECIFICATION TBSpec\nVIEW TBView\nCHECK_DEADLOCK FALSE\n'
        cfg += 'CONSTANTS MInit <- %sInit\n MStep <- %sStep\n MBad <- %sBad\n' % ((prefix,) * 3)
        d = tempfile.mkdtemp(prefix='val-', dir=self.scratch)
        fn = os.path.join(d, 'traces.ndjson')
        with open(fn, 'w') as f:
            for t in traces:
                f.write(json.dumps({'cfg': t['cfg'], 'ev': t['ev']}) + '\n')
        rc, text = self.tlc(module, cfg, {'VF_TRACES': fn, 'VF_FOCUS': focus}, CPUS, timeout)
        want = sum(len(t['ev']) + 1 for t in traces)
        gen, dist = self.counts(text)
        bads = []
        for line in text.split('\n'):
            if line.startswith('"BAD '):
                tid, l, cl = json.loads(json.loads(line)[4:])
                bads.append((tid - 1, l - 1, sorted(cl)))
        if rc != 0 or dist != want:
            k = text.find('Error:')
            if k < 0 or 'Parsing or semantic analysis failed' in text or 'OutOfMemory' in text or 'StackOverflow' in text:
                raise Machinery('validating with %s: %d states instead of %d\n%s' % (module, dist, want, text[-3000:]))
            # the monitor could not even evaluate what was observed: not a behaviour of the specification
            m = re.search(r'/\\ tid = (\d+)', text[k:])
            m2 = re.search(r'/\\ l = (\d+)', text[k:])
            ti = int(m.group(1)) - 1 if m else 0
            li = int(m2.group(1)) - 1 if m2 else 0
            if os.environ.get('VF_DEBUG'):
                sys.stderr.write(text[k:k + 3000])
            bads.append((ti, li, [self.prop + '.unexplained']))
            self.notes.append(text[k:k + 600])
        self.traces += len(traces)
        self.events += want - len(traces)
        bads.sort()
        for ti, li, cl in bads:
            mine = sorted(set((rename or {}).get(c, (rename or {}).get(c.split('.')[0], c)) for c in cl))
            mine = [c for c in mine if c.split('.')[0] == self.prop]
            if mine:
                self.report(mine, {'driver': driver, 'scenario': scns[ti] if scns else None, 'trace': traces[ti], 'event': li,
                                   'module': module, 'prefix': prefix})
        if not self.samples and traces:
            self.samples.append(sample(traces[min(len(traces) - 1, 3)]))
        shutil.rmtree(d, ignore_errors=True)
        return bads

    def report(self, clauses, rec):
        fresh = [c for c in clauses if not self.is_known(c, rec)]
        if fresh:
            self.violations.append((fresh, rec))

    def is_known(self, clause, rec):
        for k in known_findings():
            if k['property'] == self.prop and k['clause'] == clause:
                self.known[clause] = k
                return True
        return False

    # ---- the end -------------------------------------------------------
    def finish(self):
        for c, k in sorted(self.known.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        rc = 0
        if self.violations:
            rc = 1
            self.violations.sort(key=lambda v: len(v[1]['trace']['ev']) if v[1].get('trace') else 0)
            clauses, rec = self.violations[0]
            rd = os.path.join(VERIF, 'evidence', 'replays')
            os.makedirs(rd, exist_ok=True)
            rec = dict(rec)
            rec.update({'property': self.prop, 'clauses': clauses})
            path = os.path.join(rd, '%s-%s.json' % (self.prop, clauses[0].replace('.', '-')))
            with open(path, 'w') as f:
                json.dump(rec, f, indent=1)
            allc = {}
            for cl, _ in self.violations:
                for c in cl:
                    allc[c] = allc.get(c, 0) + 1
            print('clauses broken: %s' % ', '.join('%s (%d)' % x for x in sorted(allc.items())))
            if rec.get('trace'):
                ev = rec['trace']['ev']
                for i, e in enumerate(ev[max(0, rec['event'] - 6):rec['event'] + 1]):
                    print('   %s' % json.dumps(e)[:400])
            elif rec.get('text'):
                print(rec['text'][-1500:])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        self.evidence(len(self.violations))
        return rc

    def evidence(self, nviol):
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': {'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.traces, 'trace_events': self.events,
                           'models': self.models,
                           'samples': self.samples or [{'note': 'no trace was validated'}]},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1), 'violations': nviol}
        if self.notes:
            ev['coverage']['notes'] = self.notes[:5]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def sample(t):
    s = json.dumps(t)
    if len(s) > 3000:
        return {'trace': s[:3000] + '...'}
    return {'trace': t}


_known = None


def known_findings():
    global _known
    if _known is None:
        _known = []
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) clause=(\S+) (.*)$', line.strip())
                if m:
                    _known.append({'property': m.group(1), 'clause': m.group(2), 'what': m.group(3)})
    return _known


def drop_prefixes(scns):
    """scenarios (lists of operations) that another one continues add nothing"""
    keys = set()
    for s in scns:
        k = tuple(json.dumps(o, sort_keys=True) for o in s)
        for n in range(1, len(k)):
            keys.add(hash(k[:n]))
    return [s for s in scns if hash(tuple(json.dumps(o, sort_keys=True) for o in s)) not in keys]


def sample_list(rnd, xs, n):
    if len(xs) <= n:
        return list(xs)
    return rnd.sample(xs, n)


def main(prop, fn):
    ctx = Ctx(prop)
    rc = MACHINERY
    try:
        try:
            fn(ctx)
        except Broken as e:
            ctx.violations.append(([prop + '.' + e.clause], {'driver': getattr(e, 'driver', None), 'scenario': getattr(e, 'scenario', None),
                                                            'trace': None, 'event': 0, 'text': e.text}))
        rc = ctx.finish()
    except Machinery as e:
        print('MACHINERY FAILURE %s: %s' % (prop, e))
        rc = MACHINERY
    finally:
        if not os.environ.get('VF_KEEP'):
            ctx.cleanup()
    return rc
