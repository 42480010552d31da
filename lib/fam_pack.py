"""C31: the wire types of numbers."""
import struct
from vlib import drop_prefixes, sample_list

W = {'U8': (1, 'u'), 'S8': (1, 's'), 'BOOL': (1, 'u'), 'U16': (2, 'u'), 'S16': (2, 's'), 'U32': (4, 'u'), 'S32': (4, 's'), 'U64': (8, 'u'),
     'S64': (8, 's'), 'F32': (4, 'f'), 'F64': (8, 'f'), 'IP_PORT': (2, 'u'), 'LLVector3': (4, 'f'), 'LLVector3d': (8, 'f'), 'LLVector4': (4, 'f')}
COUNT = {'LLVector3': 3, 'LLVector3d': 3, 'LLVector4': 4}
ALL = sorted(W) + ['FIXED', 'VARIABLE', 'LLQuaternion', 'LLUUID', 'IP_ADDR']
ORDERS = ['', '', 'big', 'little', 'net']


def ival(n):
    return {'neg': n < 0, 'bits': [int(c) for c in bin(abs(n))[2:]] if n else [], 'e': 0}


def fval(r, w):
    """a number of w bytes: digits and exponent of a normal one, or a special one"""
    fb, bias = (23, 127) if w == 4 else (52, 1023)
    c = r.random()
    if c < 0.1:
        return {'neg': r.random() < 0.5, 'bits': [], 'e': 0}
    if c < 0.14:
        return {'neg': r.random() < 0.5, 'bits': [], 'e': 9999}
    n = r.choice([1, 1, 2, fb, fb + 1, fb + 1, r.randrange(1, fb + 2)])
    top = r.choice([0, 0, 1, 7, 10, -1, -3, bias, 1 - bias, r.randrange(1 - bias, bias + 1)])
    if c > 0.93:
        top = r.randrange(1 - bias - fb, 1 - bias)          # less than normal
        n = r.randrange(1, top - (1 - bias - fb) + 2)
    bits = [1] + [r.choice([0, 1]) for _ in range(n - 1)]
    bits[-1] = 1
    return {'neg': r.random() < 0.5, 'bits': bits, 'e': top - len(bits) + 1}


def inum(r, w, k):
    n = 8 * w
    edge = [0, 1, 2 ** n - 1, 2 ** n, 2 ** (n - 1), 2 ** (n - 1) - 1, -1, -2 ** (n - 1), -2 ** (n - 1) - 1, -2 ** n, 255, 256, 65535, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64]
    x = r.random()
    if x < 0.4:
        return r.choice(edge)
    if k == 'u':
        return r.randrange(2 ** r.choice([n, n, n - 1, 8]))
    return r.randrange(-2 ** (n - 1), 2 ** (n - 1))


def value(r, t):
    w, k = W[t]
    if k == 'f':
        return [fval(r, w) for _ in range(COUNT.get(t, 1))]
    return [ival(inum(r, w, k))]


def put(r, t, v=None, order=None):
    if order is None:
        order = '' if t == 'LLVector3' else r.choice(ORDERS)
    v = v or value(r, t)
    o = {'op': 'put', 't': t, 'order': order, 'v': v, 'bool': r.random() < 0.5, 'int': r.random() < 0.5, 'obj': r.random() < 0.5}
    # vectors of the class keep their numbers as they are
    return o


def get(r, t, off, order=None):
    if order is None:
        order = '' if t == 'LLVector3' else r.choice(ORDERS)
    o = {'op': 'get', 't': t, 'order': order, 'off': off, 'named': r.random() < 0.5}
    if r.random() < 0.2:
        o['whole'] = W[t][0] * COUNT.get(t, 1)
    elif r.random() < 0.3:
        o['size'] = True
    return o


def finish(r, ops):
    """a history of the model, its numbers in digits"""
    out = []
    for o in ops:
        if o['op'] == 'put':
            f = W[o['t']][1] == 'f'
            v = ival(o['n'])
            if f and v['bits']:
                while v['bits'][-1] == 0:
                    v['bits'].pop()
                    v['e'] += 1
            out.append(put(r, o['t'], [v], o['order']))
        else:
            out.append(get(r, o['t'], o['off'], o['order']))
    return out


def walk(r, n):
    ops = []
    size = 0
    while len(ops) < n:
        x = r.random()
        t = r.choice(sorted(W))
        w, k = W[t]
        if x < 0.35 or size == 0:
            o = put(r, t)
            ops.append(o)
            size += w
        elif x < 0.5:
            b = r.choice([[r.randrange(256) for _ in range(r.randrange(1, 24))], [255] * 8, [0] * 8, [128] + [0] * 7, [127] + [255] * 7])
            ops.append({'op': 'raw', 'bytes': b})
            size += len(b)
        elif x < 0.53:
            ops.append({'op': 'size', 't': r.choice(ALL)})
        elif x < 0.6:
            t = r.choice(['FIXED', 'VARIABLE', 'IP_ADDR', 'LLUUID'])
            n = {'IP_ADDR': 4, 'LLUUID': 16}.get(t, r.randrange(0, size + 1))
            ops.append({'op': 'cut', 't': t, 'n': n, 'off': r.randrange(0, size + 1)})
            if t == 'LLUUID' and ops[-1]['off'] + 16 > size:
                ops.pop()
        else:
            ops.append(get(r, t, r.choice([0, max(0, size - w), r.randrange(size + 3)])))
    return ops


def check(ctx):
    r = ctx.rnd
    got = ctx.mc('MC_Pack', {'Depth': ctx.pick(2, 2)}, ['DesignOk'], env={}, label='buffers')
    got = sample_list(r, drop_prefixes(got), ctx.pick(4000, 40000))
    scns = [{'cfg': {}, 'ops': finish(r, g)} for g in got]
    scns += [{'cfg': {}, 'ops': walk(r, r.randrange(4, ctx.pick(24, 60)))} for _ in range(ctx.pick(1200, 15000))]
    scns.append({'cfg': {}, 'ops': [{'op': 'size', 't': t} for t in ALL]})
    for t in ('U8', 'S8', 'BOOL'):
        scns.append({'cfg': {}, 'ops': [put(r, t, [ival(n)]) for n in range(-130, 260)]})
        scns.append({'cfg': {}, 'ops': [{'op': 'raw', 'bytes': list(range(256))}] + [get(r, t, n) for n in range(257)]})
    if ctx.thorough:
        for t in ('U16', 'S16', 'IP_PORT'):
            for lo in range(-32800, 65600, 800):
                scns.append({'cfg': {}, 'ops': [put(r, t, [ival(n)]) for n in range(lo, lo + 800)]})
    traces = ctx.drive('pack', scns)
    ctx.validate('TracePack', traces, 'Pack', scns, 'pack')
    ctx.assumptions += ['numbers that are not a number are read back as anything', 'numbers between two of a type\'s are left out']
