"""C21, C27, C30: identifiers, vectors, rotations, packed fractions, conversions of bytes."""
import math
import struct
import uuid
from vlib import sample_list


def me(f):
    if f == 0:
        return {'m': 0, 'e': 0}
    a, e = math.frexp(f)
    m, e = int(a * 2 ** 24), e - 24
    while m % 2 == 0:
        m, e = m // 2, e + 1
    return {'m': m, 'e': e}


def real(r, unit=False):
    while True:
        x = r.random()
        if unit or x < 0.3:
            f = r.choice([0.0, 1.0, -1.0, 0.5, r.uniform(-1, 1), r.uniform(-0.5, 0.5), r.uniform(-0.5, 0.5)])
        elif x < 0.7:
            f = r.choice([r.randrange(-300, 300), r.randrange(-1000, 1001) / 8, r.randrange(-1000, 1001) / 8, r.randrange(-125, 126), 128.0, 22.0, 256000.0, r.uniform(-4096, 4096), 16777215.0, -0.1])
        else:
            b = bytes(r.choice([0, 1, 127, 128, 255, r.randrange(256)]) for _ in range(4))
            f = struct.unpack('<f', b)[0]
        if f != f or abs(f) == math.inf:
            continue
        return struct.unpack('<f', struct.pack('<f', f))[0]


def nums(r, n):
    """numbers in the normal range, so that they are m * 2^e with a short m"""
    out = []
    while len(out) < n:
        f = real(r)
        if f == 0 or abs(f) > 2e-38:
            out.append(me(f))
    return out


def fbytes(r, n, unit=False):
    if unit and r.random() < 0.5:       # close to a unit length
        v = [r.gauss(0, 1) for _ in range(n)]
        q = math.sqrt(max(0.0, 1 - r.choice([0.5, 0.03, 0.008, 0.004, 0.0009, 0.0003, 0.00003, 0.0])) / sum(x * x for x in v))
        return list(struct.pack('<%df' % n, *[x * q for x in v]))
    return list(struct.pack('<%df' % n, *[real(r, unit) for _ in range(n)]))


def junk(r, n):
    return [r.choice([0, 255, 63, 128, r.randrange(256)]) for _ in range(n)]


def ubytes(r):
    return r.choice([[0] * 16, [255] * 16, [0] * 15 + [1], [128] + [0] * 15, junk(r, 16), junk(r, 16), [r.randrange(256) for _ in range(16)]])


def buffer(r, k):
    off = r.choice([0, 0, 1, 2, 3, 4, 16, 36, r.randrange(60)])
    ln = 4
    if k == 'U':
        body = ubytes(r)
    elif k == 'V':
        body = fbytes(r, 3)
    else:
        ln = r.choice([4, 4, 3])
        body = fbytes(r, 3, True) if ln == 3 else fbytes(r, 4)
    tail = junk(r, r.choice([0, 1, 4, 16]))
    if k == 'Q' and ln == 4 and r.random() < 0.2:      # a rotation of three numbers at the end of its buffer
        body, tail = fbytes(r, 3, True), []
        ln = 3 if r.random() < 0.5 else 4
    return {'buf': junk(r, off) + body + tail, 'off': off, 'len': ln, 'kw': r.random() < 0.5}


def text(r):
    t = str(uuid.UUID(bytes=bytes(ubytes(r))))
    x = r.random()
    if x < 0.2:
        t = t.upper()
    elif x < 0.4:
        t = t.replace('-', '')
    elif x < 0.5:
        t = '{' + t + '}'
    elif x < 0.6:
        t = 'urn:uuid:' + t
    elif x < 0.7:
        t = ''.join(r.choice([c.upper(), c]) for c in t)
    return [ord(c) for c in t]


BASE = {'k': 'U', 'how': 'zero', 'chars': [], 'buf': [], 'off': 0, 'len': 4, 'nums': [], 'of': 1, 'with': 1, 'o': 0}


def made(r, k, how):
    d = dict(BASE, k=k, how=how)
    if how == 'text':
        d['chars'] = text(r)
        d['uni'] = r.random() < 0.3
    elif how == 'bytes':
        d.update(buffer(r, k))
    elif how == 'num':
        d['nums'] = nums(r, 3 if k == 'V' else 4)
        if k == 'V' and r.random() < 0.5:
            d['nums'] = [me(r.randrange(-1000, 1001) / 8) for _ in range(3)]
        d['ints'] = r.random() < 0.3
        d['wide'] = r.random() < 0.3
        d['parse'] = r.choice([0, 0, 1, 2])
    elif how in ('copy', 'xor'):
        d['parse'] = r.choice([0, 0, 1, 2])
    return d


def dress(r, s):
    """the same history with other contents"""
    ops = []
    for o in s['ops']:
        o = dict(o)
        if r.random() < 0.5 and o['how'] in ('text', 'bytes', 'num') and o['op'] in ('mk', 'set'):
            d = made(r, o['k'], o['how'])
            for f in ('chars', 'buf', 'off', 'len', 'nums', 'uni', 'kw', 'ints', 'wide', 'parse'):
                if f in d:
                    o[f] = d[f]
        ops.append(o)
    return {'ops': ops}


def walk(r, n):
    ops, ks = [], []
    for _ in range(n):
        x = r.random()
        if x < 0.35 or not ks:
            k = r.choice('UUUVQ')
            ops.append(dict(made(r, k, r.choice({'U': ['zero', 'text', 'bytes', 'bytes']}.get(k, ['zero', 'num', 'bytes', 'bytes']))), op='mk'))
            ks.append(k)
        elif x < 0.55:
            i = r.randrange(len(ks))
            ops.append(dict(made(r, ks[i], 'copy'), op='mk', of=i + 1))
            ks.append(ks[i])
        elif x < 0.65 and 'U' in ks:
            us = [i for i in range(len(ks)) if ks[i] == 'U']
            ops.append(dict(made(r, 'U', 'xor'), op='mk', of=r.choice(us) + 1, **{'with': r.choice(us) + 1}))
            ks.append('U')
        elif x < 0.8 and 'U' in ks:
            ops.append(dict(BASE, op='rnd', o=r.choice([i for i in range(len(ks)) if ks[i] == 'U']) + 1))
        else:
            i = r.randrange(len(ks))
            ops.append(dict(made(r, ks[i], 'bytes' if ks[i] == 'U' else r.choice(['bytes', 'num'])), op='set', o=i + 1))
    return {'ops': ops}


def fracs(r, n):
    ops = []
    for _ in range(n):
        w = r.choice([1, 2])
        mx = 65535 if w == 2 else 255
        x = r.random()
        if x < 0.4:
            h = r.choice([1, 8, 512, 1024, 2048, 4096, 100])
            lo, hi = -h, h
        elif x < 0.5:
            lo, hi = 0, r.randrange(1, 4096)
        else:
            lo, hi = sorted(r.sample(range(-4096, 4096), 2))
        if r.random() < 0.4 and lo < 0 < hi:            # about zero
            u = min(mx, max(0, -lo * mx // (hi - lo) + r.choice([-2, -1, 0, 1, 2])))
        else:
            u = r.choice([0, 1, mx, mx - 1, mx // 2, mx // 2 + 1, r.randrange(mx + 1), r.randrange(mx + 1)])
        off = r.choice([0, 1, 2, 5])
        b = [u % 256, u // 256] if w == 2 else [u]
        ops.append({'op': 'frac', 'w': w, 'buf': junk(r, off) + b + junk(r, r.choice([0, 1, 3])), 'off': off, 'lo': lo, 'hi': hi, 'p': 0, 'zero': False})
    return {'ops': ops}


def twins(r):
    """identifiers that differ, but not for a careless digest of them"""
    b = ubytes(r)
    c = list(b)
    x = r.random()
    w = [int.from_bytes(bytes(b[4 * i:4 * i + 4]), 'big') for i in range(4)]
    i = r.randrange(3)
    if x < 0.4:         # word by word, in base 31 as java does it, or added up, or exclusive-or
        k, f = r.randrange(1, 1000), r.choice([31, 31, 1, 33, 37, 65599])
        if r.random() < 0.5:
            w[0] |= 1
        w[i], w[i + 1] = (w[i] + k) % 2 ** 32, (w[i + 1] - f * k) % 2 ** 32
        c = list(b''.join(v.to_bytes(4, 'big') for v in w))
    elif x < 0.6:
        k = r.randrange(1, 2 ** 32)
        w[i] ^= k
        w[r.choice([j for j in range(4) if j != i])] ^= k
        c = list(b''.join(v.to_bytes(4, 'big') for v in w))
    elif x < 0.8:       # one byte
        c[r.randrange(16)] ^= r.choice([1, 128, 255])
    else:               # in another order
        c = r.choice([c[::-1], c[8:] + c[:8], c[1:] + c[:1], c[4:8] + c[:4] + c[8:]])
    ops = [dict(BASE, op='mk', how='bytes', buf=x, off=0) for x in (b, c)]
    r.shuffle(ops)
    return {'ops': ops + [dict(BASE, op='mk', how='xor', of=1, **{'with': 2})]}


def convs(r, n):
    ops = []
    for _ in range(n):
        w = r.choice(['hex', 'unhex', 'base64', 'uu', 'int'])
        b = junk(r, r.choice([0, 1, 2, 3, 4, 5, 15, 16, 44, 45])) if w == 'uu' else junk(r, r.choice([0, 1, 2, 3, 4, 7, 16, 57, 58, 100, 300]))
        if r.random() < 0.2:
            b = [r.choice([9, 10, 13, 32]) for _ in b]
        neg = False
        if w == 'unhex':
            b = [ord(c) for c in ''.join('%02x' % x for x in b)]
            b = [r.choice([c, ord(chr(c).upper())]) for c in b]
            x = r.random()
            if x < 0.15 and b:
                b = b[:-1]
            elif x < 0.3:
                b.insert(r.randrange(len(b) + 1), r.choice([32, 103, 71, 47, 58, 64, 96, 10, 0]))
                if r.random() < 0.5:
                    b.append(48)
        elif w == 'int':
            b = junk(r, r.choice([0, 1, 2, 3, 4, 4, 4, 5, 8]))
            neg = r.random() < 0.4 and any(b)
        ops.append({'op': 'conv', 'what': w, 'in': b, 'neg': neg, 'inst': r.random() < 0.3})
    return {'ops': ops}


def check(ctx):
    r = ctx.rnd
    got = ctx.mc('MC_Val', {'Depth': ctx.pick(3, 4) if ctx.prop == 'C21' else 2}, ['NoBad'], view='Full', label='histories', workers=6, timeout=3000)
    scns = []
    if ctx.prop == 'C21':
        scns = [dress(r, s) for s in sample_list(r, got, ctx.pick(3000, 30000))]
        for i in range(ctx.pick(1500, 20000)):
            scns.append(walk(r, r.randrange(3, 14)))
        for i in range(ctx.pick(600, 8000)):
            scns.append(twins(r))
    elif ctx.prop == 'C30':
        for i in range(ctx.pick(400, 6000)):
            scns.append(convs(r, 40))
        for w in ('hex', 'base64', 'uu', 'int'):
            scns.append({'ops': [{'op': 'conv', 'what': w, 'in': [x], 'neg': False} for x in range(256)]})
        scns.append({'ops': [{'op': 'conv', 'what': 'unhex', 'in': [x, y], 'neg': False} for x in range(32, 128) for y in (48, 70, 99, 103)]})
    else:
        for i in range(ctx.pick(400, 4000)):
            scns.append(fracs(r, 50))
        # every code of eight bits, and every code of sixteen between one pair of bounds
        bounds = [(-8, 8), (-2048, 2048), (0, 8), (-100, 37), (3, 5), (-512, 0)]
        for lo, hi in bounds:
            for q in range(0, 256, 64):
                scns.append({'ops': [{'op': 'frac', 'w': 1, 'buf': [u], 'off': 0, 'lo': lo, 'hi': hi, 'p': 0, 'zero': False} for u in range(q, q + 64)]})
        for lo, hi in bounds[:ctx.pick(2, 6)]:
            for q in range(0, 65536, 64):
                scns.append({'ops': [{'op': 'frac', 'w': 2, 'buf': [u % 256, u // 256], 'off': 0, 'lo': lo, 'hi': hi, 'p': 0, 'zero': False} for u in range(q, q + 64)]})
    traces = ctx.drive('val', scns, jobs=6)
    ctx.validate('TraceVal', traces, 'Val', scns, 'val')
    ctx.assumptions += ['not-a-number and infinite components are left out', 'bounds are eighths between -512 and 512']
