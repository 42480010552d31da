"""runs one history under several logging settings and records what was observed under each

area: net | mgr | eq | caps, cfg and ops: as for the driver of that name
variants: [{quiet, spammy, set: [{o, v}], flips: [{at, set}], level}]; the first is the one the others are compared with
"""
import hashlib
import json
import logging
import common

NAMES = ['LOG_VERBOSE', 'ENABLE_BYTES_TO_HEX_LOGGING', 'ENABLE_CAPS_LOGGING', 'ENABLE_CAPS_LLSD_LOGGING', 'ENABLE_EQ_LOGGING', 'ENABLE_UDP_LOGGING',
         'ENABLE_OBJECT_LOGGING', 'LOG_SKIPPED_PACKETS', 'ENABLE_HOST_LOGGING', 'LOG_COROUTINE_SPAWNS']


def options(s):
    """the logging options that are on"""
    on = []
    for k in sorted(dir(s)):
        if k.upper() == k and 'LOG' in k and k not in ('ENABLE_LOGGING_IN_TESTS', 'PROXY_LOGGING') and getattr(s, k) is True:
            on.append(k)
    return on


def flips(v, i):
    for f in v['flips']:
        if f['at'] == i:
            for s in common.MADE:
                common.switch(s, f['set'])


def once(mod, area, scn, v):
    common.VARIANT = v
    common.MADE = []
    common.LINES[0] = 0
    logging.getLogger().setLevel(v['level'])
    try:
        w = mod.World(scn['cfg'])
        evs = []
        for i, op in enumerate(scn['ops']):
            flips(v, i)
            if area == 'net':
                if op['op'] == 'recv':
                    op = mod.compile_dg(op)
                evs.append(w.step(op))
            else:
                w.step(op)
        if area in ('mgr', 'eq'):
            w.finish()
        if area != 'net':
            evs = w.ev
            mod.sched.kill_all()
    finally:
        common.VARIANT = None
    return evs, common.LINES[0]


def tell(e):
    if e is None:
        return ''
    return hashlib.sha1(json.dumps(e, sort_keys=True)).hexdigest()[:12]


def run(scn):
    area = scn['area']
    mod = __import__(area)
    from pyogp.lib.base.settings import Settings
    vs = scn['variants']
    ev = [{'op': 'made', 'on': [options(Settings(v['quiet'], v['spammy'])) for v in vs]}]
    got = [once(mod, area, scn, v) for v in vs]
    for i in range(max([len(g[0]) for g in got])):
        es = [i < len(g[0]) and g[0][i] or None for g in got]
        ev.append({'op': 'did', 'what': str((es[0] or {'op': '-'})['op']), 'obs': [tell(e) for e in es]})
    ev.append({'op': 'lines', 'n': [g[1] for g in got]})
    return {'id': scn['id'], 'cfg': {'vs': [{'quiet': v['quiet'], 'plain': not v['set'] and not v['flips'] and v['level'] == 10} for v in vs]}, 'ev': ev}


if __name__ == '__main__':
    common.main(run)
