"""C13, C16, C24: the message manager's loops and queue."""
import fam_net
from vlib import sample_list

FAULTS = ['trunc', 'unknown', 'cut', 'short', 'tiny', 'acks', 'one']
NAMES = ['StartPingCheck', 'UseCircuitCode', 'RequestMultipleObjects', 'ChatFromViewer', 'RegionHandshakeReply', 'OpenCircuit']
VOC = {'C13': 'bad', 'C16': 'queue', 'C24': 'stop'}


def dress(r, s):
    """what the model leaves open"""
    c = s['cfg']
    c['hout'] = r.random() < 0.25
    c['auto'] = r.random() < 0.3
    c['defer'] = r.random() < 0.7
    c['nerr'] = r.randrange(50)
    for o in s['ops']:
        if o['op'] == 'arrive':
            o['fault'] = r.choice(FAULTS)
            o['zero'] = r.random() < 0.3
        if o['op'] == 'enq':
            o['name'] = 'RegionHandshakeReply' if c['hout'] else r.choice(NAMES)
            o['call'] = r.random() < 0.2
            if 'again' not in o and r.random() < 0.12:
                o['again'] = r.choice([1, 1, 2, 3])
    return s


def walk(r, p, n):
    c = {'eq': r.random() < 0.6, 'eqon': r.random() < 0.8, 'yr': r.random() < 0.5, 'ys': r.random() < 0.5, 'yp': r.random() < 0.5}
    c['eqon'] = c['eqon'] or not c['eq']
    ops = [{'op': 'start'}]
    w = {'C13': (6, 2), 'C16': (2, 6), 'C24': (3, 3)}[p]
    quiet = p == 'C16' or r.random() < 0.6
    stopped = False
    for _ in range(n):
        x = r.choices(['arrive', 'enq', 'L', 'E', 'stop'], [w[0], w[1], 8, 3, 0.2 if quiet else 0.7])[0]
        if x == 'arrive':
            ks = ['plain', 'raise', 'bad', 'enq', 'now'] + (['stop'] if r.random() < 0.1 and not quiet else [])
            ops.append({'op': 'arrive', 'kind': r.choice(ks), 'host': r.choice('AABC'), 'rel': r.random() < 0.6})
        elif x == 'enq':
            ops.append({'op': 'enq', 'rel': r.random() < 0.5, 'now': r.random() < 0.3, 'ok': r.random() < 0.9})
        elif x == 'stop':
            if not stopped:
                ops.append({'op': 'stop'})
                stopped = True
        else:
            ops.append({'op': 'run', 'who': x, 'res': r.choice(['id', 'id', 'err', 'none'])})
    return {'cfg': c, 'ops': ops}


def flood(r, p, n):
    """datagrams keep coming while messages wait; and long queues"""
    s = walk(r, p, 5)
    s['ops'] = [o for o in s['ops'] if o['op'] != 'stop']
    kinds = r.choice([['bad'], ['raise'], ['bad', 'raise'], ['plain', 'raise', 'bad'], ['plain']])
    for i in range(n):
        s['ops'].append({'op': 'arrive', 'kind': r.choice(kinds), 'host': r.choice('AB'), 'rel': r.random() < 0.5})
    for i in range(r.choice([1, 3, n, 2 * n])):
        s['ops'].append({'op': 'enq', 'rel': r.random() < 0.5, 'now': r.random() < 0.1, 'ok': r.random() < 0.95})
    s['ops'] += [{'op': 'run', 'who': 'L', 'res': 'id'} for _ in range(4 * n)]
    return s


def check(ctx):
    r, p = ctx.rnd, ctx.prop
    if p == 'C13':
        fam_net.check(ctx, p)
    got = ctx.mc('MC_Mgr', {'Depth': ctx.pick(6, 6 if p == 'C16' else 8)}, ['NoBad'], env={'VF_OPS': VOC[p]}, label=VOC[p], workers=6, timeout=3000)
    got = [g for g in got if g['ops'][-1]['op'] != 'run' or len(g['ops']) > 4]
    scns = [dress(r, s) for s in sample_list(r, got, ctx.pick(1500, 20000))]
    for i in range(ctx.pick(600, 8000)):
        scns.append(dress(r, walk(r, p, r.randrange(5, ctx.pick(50, 150)))))
    for n in [40, 70, 130, 300] * ctx.pick(2, 10) + ([1100] if ctx.thorough else []):
        scns.append(dress(r, flood(r, p, n)))
    traces = ctx.drive('mgr', scns, jobs=6)
    ctx.validate('TraceMgr', traces, 'Mgr', scns, 'mgr')
    ctx.assumptions += ['coroutines change hands only where the eventlet calls of the code yield, in every order',
                        'a deterministic stand-in for eventlet decides who runs']
