"""C26: the UDP client and the hosts it reports."""
from vlib import drop_prefixes, sample_list

SIZES = [1, 2, 5, 100, 508, 1023, 1024, 1025, 1400, 1472, 1500, 2047, 2048, 2049, 4096, 8192, 9999, 10000, 10001, 16384, 20000, 32768, 65000, 65506, 65507]
FAULTS = ['timeout', 11, 104, 111, 10035, 4]


def dress(r, ops, real):
    out, tok, n = [], r.randrange(1, 100), 0
    for o in ops:
        o = dict(o)
        tok += 1
        if o['op'] == 'arrive':
            o['seq'] = str(tok if r.random() < 0.8 else r.choice([0, 255, 65536, 4294967295, 2147483648]))
            size = r.choice([s for s in SIZES if s <= 2048] if real or r.random() < 0.5 else SIZES)
            o['n'] = 0 if o.get('empty') else size
            if real and not o['n']:
                o['n'] = 1
            o['fill'] = tok
        elif o['op'] == 'send':
            o['fill'] = tok
            o['n'] = r.choice([s for s in SIZES if s <= (2048 if real else 65507)])
        elif o['op'] == 'fault':
            if real:
                continue
            o['kind'] = r.choice(FAULTS)
        elif o['op'] == 'calm' and real:
            continue
        out.append(o)
    return {'cfg': {'real': real}, 'ops': out}


def walk(r, n):
    """a random history; hosts reported earlier are used long after"""
    ops, inq, told, fault = [], [], [], False
    for _ in range(n):
        k = r.choices(['arrive', 'recv', 'send', 'flush', 'fault', 'calm'], [5, 6, 3, 1, 0.5, 2 if fault else 0])[0]
        if k == 'arrive':
            p = r.choice('ABC')
            rel = r.random() < 0.5
            ops.append({'op': 'arrive', 'from': p, 'rel': rel, 'empty': not rel and r.random() < 0.1})
            inq.append(p)
        elif k == 'recv':
            ops.append({'op': 'recv', 'via': r.choice(['client', 'dispatcher', 'dispatcher'])})
            if inq and not fault:
                told.append(inq.pop(0))
        elif k == 'send':
            via = r.choice(['client', 'dispatcher'])
            if told and r.random() < 0.7:
                i = r.randrange(len(told))
                ops.append({'op': 'send', 'via': via, 'i': i + 1, 'to': told[i]})
            else:
                ops.append({'op': 'send', 'via': via, 'i': 0, 'to': r.choice('ABC')})
        else:
            if k in ('fault', 'calm'):
                if fault == (k == 'fault'):
                    continue
                fault = k == 'fault'
            ops.append({'op': k})
    return ops


def unfault(ops):
    """the history as it is on real sockets, where nothing fails on demand: receptions under a fault are left out"""
    out, fault = [], False
    for o in ops:
        if o['op'] in ('fault', 'calm'):
            fault = o['op'] == 'fault'
        elif not (fault and o['op'] == 'recv'):
            out.append(o)
    return out


def check(ctx):
    r = ctx.rnd
    got = ctx.mc('MC_Udp', {'Depth': ctx.pick(5, 6), 'Fresh': 'TRUE'}, ['NoBad', 'Agree'], view='View', label='histories', workers=6, timeout=3000)
    if ctx.thorough:
        ctx.mc('MC_Udp', {'Depth': 7, 'Fresh': 'TRUE'}, ['NoBad', 'Agree'], emit=False, label='deeper', workers=6, timeout=3000)
    got = drop_prefixes([s['ops'] for s in got])
    scns = [dress(r, s, False) for s in sample_list(r, got, ctx.pick(2500, 25000))]
    for i in range(ctx.pick(700, 8000)):
        scns.append(dress(r, walk(r, r.randrange(4, 50)), False))
    r.shuffle(scns)
    traces = ctx.drive('udp', scns, jobs=5)
    ctx.validate('TraceUdp', traces, 'Udp', scns, 'udp')
    real = [dress(r, unfault(s), True) for s in sample_list(r, got, ctx.pick(120, 1200))]
    for i in range(ctx.pick(60, 500)):
        real.append(dress(r, unfault(walk(r, r.randrange(4, 30))), True))
    traces = ctx.drive('udp', real, jobs=5)
    ctx.validate('TraceUdp', traces, 'Udp', real, 'udp')
    ctx.assumptions += ['the simulated socket behaves as recvfrom and sendto do; on real sockets datagrams have at most 2048 bytes, since Jython reads no more',
                        'bytes are compared by a digest']
