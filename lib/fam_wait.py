"""C29: waiting."""
from vlib import drop_prefixes, sample_list


def finish(r, ops):
    out = []
    for o in ops:
        o = dict(o)
        if o['op'] == 'start':
            o['form'] = r.choice(['int', 'int', 'float', 'str', 'long'])
            o['more'] = r.randrange(8)
        out.append(o)
    for i in [o['i'] for o in ops if o['op'] == 'start']:
        out += [{'op': 'turn', 'i': i, 'k': 0, 'dt': 0}]
    return out


def walk(r, n):
    ops = []
    m = 0
    scale = r.choice([1, 1, 10, 1000, 100000])
    while len(ops) < n:
        c = r.random()
        if m == 0 or (m < 5 and c < 0.12):
            m += 1
            ops.append({'op': 'start', 'i': m, 'dur': r.choice([0, 1, 1, 2, 3, 5, -1]) * scale, 'k': r.choice([0, 0, 0, 1, 2]), 'dt': r.randrange(10) * scale})
        elif c < 0.5:
            ops.append({'op': 'turn', 'i': r.randrange(m) + 1, 'k': r.choice([0, 0, 0, 1, 3]), 'dt': r.randrange(12) * scale})
        elif c < 0.6:
            ops.append({'op': 'again', 'i': r.randrange(m) + 1, 'k': r.choice([0, 0, 1]), 'dt': r.randrange(9) * scale})
        elif c < 0.67:
            ops.append({'op': 'stop', 'i': r.randrange(m) + 1})
        else:
            ops.append({'op': 'pass', 'dt': r.choice([1, 1, 3, 4, 7, 8, 16]) * r.choice([1, scale])})
    return ops


def edges(r):
    """the turns just before and just as the time has passed"""
    out = []
    for d in [1, 2, 3, 10, 59, 60, 61, 255, 256, 3600, 86400, 1000000]:
        for first in (0, 3):
            ops = [{'op': 'pass', 'dt': first}, {'op': 'start', 'i': 1, 'dur': d, 'k': 0, 'dt': 0}, {'op': 'turn', 'i': 1, 'k': 0, 'dt': 0},
                   {'op': 'pass', 'dt': 8 * d - 1}, {'op': 'turn', 'i': 1, 'k': 0, 'dt': 0}, {'op': 'pass', 'dt': 1}, {'op': 'turn', 'i': 1, 'k': 0, 'dt': 0},
                   {'op': 'again', 'i': 1, 'k': 0, 'dt': 0}, {'op': 'pass', 'dt': 8 * d - 1}, {'op': 'turn', 'i': 1, 'k': 0, 'dt': 0},
                   {'op': 'turn', 'i': 1, 'k': 2, 'dt': 1}, {'op': 'stop', 'i': 1}, {'op': 'again', 'i': 1, 'k': 8, 'dt': d}, {'op': 'pass', 'dt': 1}]
            out.append(ops)
    return out


def check(ctx):
    r = ctx.rnd
    got = ctx.mc('MC_Wait', {'Depth': ctx.pick(5, 7)}, ['DesignOk', 'Agree'], env={}, label='waits')
    got = sample_list(r, drop_prefixes(got), ctx.pick(1500, 20000))
    scns = [{'cfg': {}, 'ops': finish(r, g)} for g in got + edges(r)]
    scns += [{'cfg': {}, 'ops': finish(r, walk(r, r.randrange(5, ctx.pick(25, 60))))} for _ in range(ctx.pick(500, 6000))]
    traces = ctx.drive('wait', scns)
    ctx.validate('TraceWait', traces, 'Wait', scns, 'wait')
    ctx.assumptions += ['the clock only moves forwards, in eighths of a second, and coroutines are switched only where they sleep']
