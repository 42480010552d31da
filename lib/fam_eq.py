"""C17, C18: the region event queue."""
import uuid
from vlib import sample_list

SUBS = ['StartPingCheck', 'RequestMultipleObjects', 'PacketAck', 'ExtraEvent', 'Raiser', 'Stopper', 'Sleeper']
TEMPLATE = ['StartPingCheck', 'RequestMultipleObjects', 'PacketAck', 'UseCircuitCode', 'ChatFromViewer']
KEY = {'t1': 'StartPingCheck', 't2': 'RequestMultipleObjects', 't0': 'PacketAck', 'x': 'ExtraEvent', 'raise': 'Raiser', 'unsub': 'NobodyListens',
       'stop': 'Stopper'}
BLOCKS = ['PingID', 'AgentData', 'ObjectData', 'Packets', 'Zeta', 'Alpha', 'Message_Data', 'name', 'events']
FIELDS = ['Alpha', 'Beta', 'ID', 'id', 'message', 'body', 'Name', 'self2', 'a b', 'data', 'm', 'name', 'self', 'args', '\u00e9t\u00e9', '__class__', '0']
STRS = ['', 'x', 'abc', '<&>"\'', ' lead', 'line\nbreak', '0', 'None', 'x' * 300]


IDS = ['int'] * 8 + ['str', 'digits']


def value(r, d=2):
    x = r.randrange(12 if d else 9)
    if x == 0:
        return ['i', r.choice([0, 1, -1, 5, 2 ** 31 - 1, -2 ** 31, 255, 12345678])]
    if x == 1:
        return ['b', r.randrange(2)]
    if x == 2:
        return ['f', r.choice([0.0, 1.5, -2.25, 1e10, 3.0, 0.1, -1e-5])]
    if x in (3, 4):
        return ['s', r.choice(STRS)]
    if x == 5:
        return ['S', r.choice(STRS + ['\u00e9t\u00e9', '\u4e2d\u6587', '\u20ac'])]
    if x == 6:
        return ['u', str(uuid.UUID(int=r.choice([0, r.getrandbits(128)])))]
    if x == 7:
        return ['y', [r.randrange(256) for _ in range(r.choice([0, 1, 4, 16, 40]))]]
    if x == 8:
        return ['n', 0]
    if x in (9, 10):
        return ['l', [value(r, d - 1) for _ in range(r.randrange(4))]]
    return ['m', {f: value(r, d - 1) for f in r.sample(FIELDS, r.randrange(4))}]


def inst(r):
    return [[f, value(r)] for f in r.sample(FIELDS, r.randrange(5))]


def event(r, name):
    if name in TEMPLATE:
        n = r.choice([0, 1, 1, 2, 3])
        return {'name': name, 'body': [[b, [inst(r) for _ in range(r.choice([0, 1, 1, 2, 5]))]] for b in r.sample(BLOCKS, n)],
                'exp': r.random() < 0.4}
    return {'name': name, 'body': inst(r), 'exp': False}



def dress(r, s):
    """what the model leaves open: contents, kinds of failure, the transport"""
    ops = []
    base = r.choice([0, 0, 5, 100000, -20, -3])
    for o in s['ops']:
        if o['op'] == 'run' and 'kind' in o:
            i = o['id'] and str(int(o['id']) + base)
            o = {'op': 'run', 'res': {'kind': o['kind'], 'id': i, 'evs': [event(r, KEY[b]) for b in o['b']] if o['kind'] == 'ok' else [],
                                      'var': r.randrange(60), 'more': r.random() < 0.15}}
        ops.append(o)
    return {'cfg': {'yp': s['yp'], 'llsd': r.random() < 0.4, 'ids': r.choice(IDS)}, 'ops': ops}


def walk(r, n):
    ops, ids = [], r.choice([0, 0, 1, 7, -5, 2 ** 30, -2 ** 31])
    for _ in range(n):
        if r.random() < 0.03 and n < 25:
            ops.append({'op': 'stop'})
            continue
        k = r.choices(['ok', 'err', 'none', 'bad'], [6, 2, 0.5, 1.5])[0]
        i = str(ids) if k == 'ok' or (k == 'bad' and r.random() < 0.5) else ''
        ids += r.choice([1, 1, 1, 3, 0, -2])
        evs = []
        if k == 'ok':
            names = SUBS + ['NobodyListens', 'UseCircuitCode']
            w = [4, 4, 3, 4, 2, 0.05, 1, 1, 1]
            evs = [event(r, r.choices(names, w)[0]) for _ in range(r.choice([0, 1, 2, 3, 8]))]
        ops.append({'op': 'run', 'res': {'kind': k, 'id': i, 'evs': evs, 'var': r.randrange(60), 'more': r.random() < 0.1}})
    return {'cfg': {'yp': r.random() < 0.5, 'llsd': r.random() < 0.5, 'ids': r.choice(IDS)}, 'ops': ops}


def check(ctx):
    r = ctx.rnd
    got = ctx.mc('MC_Eq', {'Depth': ctx.pick(5, 6)}, ['NoBad'], view='Full', label='histories', workers=6, timeout=3000)
    ctx.mc('MC_Eq', {'Depth': ctx.pick(9, 14)}, ['NoBad'], emit=False, label='states', workers=6, timeout=3000)
    scns = [dress(r, s) for s in sample_list(r, got, ctx.pick(1200, 16000))]
    for i in range(ctx.pick(700, 10000)):
        scns.append(walk(r, r.randrange(3, ctx.pick(40, 90))))
    for n in [70, 150, 300] + ([1100] if ctx.thorough else []):    # a response with hundreds of events, an event of hundreds of blocks
        s = walk(r, 4)
        evs = [event(r, r.choice(SUBS[:4])) for _ in range(n)]
        evs.append({'name': 'StartPingCheck', 'body': [['PingID', [inst(r) for _ in range(n)]]], 'exp': False})
        s['ops'].append({'op': 'run', 'res': {'kind': 'ok', 'id': '77', 'evs': evs, 'var': 0, 'more': False}})
        s['ops'] += walk(r, 3)['ops']
        scns.append(s)
    traces = ctx.drive('eq', scns, jobs=6)
    ctx.validate('TraceEq', traces, 'Eq', scns, 'eq')
    ctx.assumptions += ['coroutines change hands only where the eventlet calls of the code yield, in every order',
                        'a deterministic stand-in for eventlet decides who runs']
