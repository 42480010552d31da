#!/usr/bin/env python3
"""record.py DIR [props]: runs each check's generators once and keeps a sample of the scenarios it drives, for sweep.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '../../lib'))
sys.dont_write_bytecode = True
import vlib, registry
OUT = sys.argv[1]
N = int(os.environ.get('SWEEP_N', '80'))
os.makedirs(OUT, exist_ok=True)
mc, drive = vlib.Ctx.mc, vlib.Ctx.drive
last = {}
count = [0]


def mc2(self, *a, **k):
    if k.get('emit', True) is False:
        return []
    return mc(self, *a, **k)


def drive2(self, driver, scns, jobs=None, timeout=420, env=None):
    got = drive(self, driver, scns, jobs, timeout, env)
    step = max(1, len(scns) // N)
    big = sorted(scns, key=lambda s: -len(json.dumps(s)))[:3]
    pick = scns[::step][:N] + [s for s in big if len(json.dumps(s)) < 300000]
    name = '%s-%d' % (self.prop, count[0])
    count[0] += 1
    with open(os.path.join(OUT, name + '.in'), 'w') as f:
        for s in pick:
            f.write(json.dumps(s) + '\n')
    last['meta'] = {'name': name, 'driver': driver, 'env': env or {}, 'prop': self.prop}
    return got


def validate2(self, module, traces, prefix, scns=None, driver=None, timeout=800, focus=None, rename=None):
    m = dict(last.get('meta') or {}, module=module, prefix=prefix, focus=focus or self.prop)
    if m.get('name'):
        with open(os.path.join(OUT, m['name'] + '.json'), 'w') as f:
            json.dump(m, f)
    return []


vlib.Ctx.mc, vlib.Ctx.drive, vlib.Ctx.validate = mc2, drive2, validate2
for p in (sys.argv[2:] or sorted(registry.CHECKS)):
    ctx = vlib.Ctx(p)
    try:
        fn = registry.CHECKS[p]
        fn(ctx)
        print(p, 'ok', flush=True)
    except Exception as e:
        print(p, repr(e)[:300], flush=True)
    finally:
        ctx.cleanup()
