"""C06: endpoints talking to each other over a lossy network."""
from vlib import drop_prefixes, sample_list

NAMES = ['StartPingCheck', 'UseCircuitCode', 'RequestMultipleObjects', 'ChatFromViewer', 'RegionHandshakeReply', 'OpenCircuit']


def cfg(r):
    eps = r.choice([['P', 'Q'], ['P', 'Q'], ['P', 'Q', 'R']])
    return {'eps': eps, 'defer': r.random() < 0.5, 'replies': [e for e in eps if r.random() < 0.3],
            'subs': {e: [n for n in NAMES + ['PacketAck'] if r.random() < 0.4] for e in eps}}


def walk(r, n, eps):
    ops, calm = [], r.choice([0.1, 0.3, 0.5])
    for _ in range(n):
        x = r.random()
        if x < 0.35:
            ops.append({'op': 'send', 'e': r.choice(eps), 'to': r.randrange(2), 'rel': r.random() < 0.7, 'name': r.choice(NAMES),
                        'retries': r.choice([0, 0, 1, 3])})
        elif x < 0.75:
            ops.append({'op': 'deliver', 'i': r.randrange(1, 7), 'keep': r.random() < 0.25})
        elif x < 0.75 + calm / 4:
            ops.append({'op': 'drop', 'i': r.randrange(1, 7)})
        else:
            ops.append({'op': 'flush', 'e': r.choice(eps)})
    return ops


def check(ctx):
    r = ctx.rnd
    base = {'Depth': 0, 'Dups': 9, 'Sends': 9, 'Flight': 4}
    inv = ['NoBad', 'RestAcked']
    got = ctx.mc('MC_Link', dict(base, Depth=ctx.pick(5, 6)), inv, env={'VF_MODE': 'walk'}, label='histories', workers=4, timeout=3000)
    ctx.mc('MC_Link', {'Depth': 0, 'Sends': 1, 'Flight': 3, 'Dups': 2}, inv, ['Settles'], spec='Fair', env={'VF_MODE': 'graph'}, emit=False,
           label='settling', workers=6, timeout=3000)
    if ctx.thorough:
        ctx.mc('MC_Link', {'Depth': 0, 'Sends': 2, 'Flight': 2, 'Dups': 1}, inv, ['Settles'], spec='Fair', env={'VF_MODE': 'graph'},
               emit=False, label='settling, two sends each', workers=6, timeout=3000)
        ctx.mc('MC_Link', {'Depth': 0, 'Sends': 2, 'Flight': 3, 'Dups': 1}, inv, env={'VF_MODE': 'graph'},
               emit=False, label='two sends each, three in flight', workers=8, timeout=3000)
    scns = []
    for ops in sample_list(r, drop_prefixes(got), ctx.pick(900, 12000)):
        for o in ops:
            if o['op'] == 'send':
                o['name'] = r.choice(NAMES)
        c = cfg(r)
        c['eps'] = ['P', 'Q']
        c['replies'] = [e for e in c['replies'] if e != 'R'] if r.random() < 0.5 else []
        scns.append({'cfg': c, 'ops': ops + [{'op': 'settle', 'order': r.choice(['fifo', 'lifo'])}]})
    for i in range(ctx.pick(500, 8000)):
        c = cfg(r)
        ops = walk(r, r.randrange(5, ctx.pick(40, 120)), c['eps']) + [{'op': 'settle', 'order': r.choice(['fifo', 'lifo'])}]
        if r.random() < 0.3:
            ops += walk(r, r.randrange(5, 20), c['eps']) + [{'op': 'settle', 'order': 'fifo'}]
        scns.append({'cfg': c, 'ops': ops})
    for n in ctx.pick([1, 249, 250, 251, 255, 256, 300, 520], [1, 2, 249, 250, 251, 252, 254, 255, 256, 257, 300, 502, 503, 520, 800]):
        c = {'eps': ['P', 'Q'], 'defer': r.random() < 0.5, 'replies': [], 'subs': {'P': ['PacketAck'] if r.random() < 0.5 else [], 'Q': []}}
        ops = [{'op': 'send', 'e': 'P', 'rel': True, 'name': 'OpenCircuit'}] * n + [{'op': 'deliver', 'i': 1}] * (n // 2 if r.random() < 0.5 else n)
        if r.random() < 0.5:
            ops = ops + [{'op': 'send', 'e': 'Q', 'rel': True, 'name': 'OpenCircuit'}]
        scns.append({'cfg': c, 'ops': ops + [{'op': 'settle', 'order': 'fifo'}]})
    traces = ctx.drive('link', scns, jobs=6)
    ctx.validate('TraceLink', traces, 'Link', scns, 'link')
    ctx.assumptions += ['what settles is judged after nine rounds in which the network delivers everything and each side flushes once',
                        'a message whose every acknowledgement the network dropped may stay outstanding']
