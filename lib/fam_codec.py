"""C10, C11, C12, and C15 over all message names: the bytes of datagrams."""
import os
import re
import struct
import sys
import vlib
from vlib import sample_list
sys.path.insert(0, os.path.join(vlib.VERIF, 'harness/drv'))
import wire

DATA = vlib.REPO + '/pyogp/lib/base/message/data/'
INV = ['DesignOk', 'DesignOkWire', 'RoundTrip', 'ZeroInverse', 'VariantsAgree']
RULE_ACK, RULE_REL, RULE_ZER = 0x10, 0x40, 0x80


def embedded():
    with open(DATA + 'message_template.msg', encoding='latin-1', newline='') as f:
        ts = wire.parse_templates(f.read())
    return ts


def flavors():
    """message name -> flavor in the embedded message.xml"""
    import xml.etree.ElementTree as ET
    root = ET.parse(DATA + 'message.xml').getroot()

    def pairs(m):
        k = None
        for c in m:
            if c.tag == 'key':
                k = (c.text or '').strip()
            elif k is not None:
                yield k, c
                k = None
    top = dict(pairs(root.find('map')))
    out = {}
    for name, c in pairs(top['messages']):
        f = dict(pairs(c)).get('flavor')
        if f is not None:       # some entries say nothing of a transport
            out[name] = (f.text or '').strip()
    return out


def rfloat(r, w):
    c = {4: '>f', 8: '>d'}[w]
    while True:
        if r.random() < 0.5:
            v = r.choice([0.0, -0.0, 1.0, -1.0, 0.5, 3.1415927, 1e-30, -65504.25, 1e30, 2.0 ** -140 if w == 4 else 2.0 ** -1050])
        elif r.random() < 0.5:
            v = r.uniform(-1000, 1000)
        else:
            v = struct.unpack(c, bytes(r.randrange(256) for _ in range(w)))[0]
        if v == v and abs(v) != float('inf'):
            return list(struct.pack(c, v))


def rquat(r):
    while True:
        q = [r.gauss(0, 1) for _ in range(4)]
        if r.random() < 0.3:
            q = [float(r.choice([0, 0, 1, -1])) for _ in range(4)]
        if r.random() < 0.2:
            q[3] = 0.0
        n = sum(x * x for x in q) ** 0.5
        if n > 0.01:
            q = [x / n for x in q]
            return list(b''.join(struct.pack('>f', x) for x in q))


def rvalue(r, f, big=False):
    t, n = f['type'], f['size']
    if t == 'F32':
        return rfloat(r, 4)
    if t == 'F64':
        return rfloat(r, 8)
    if t == 'LLVector3':
        return sum((rfloat(r, 4) for _ in range(3)), [])
    if t == 'LLVector4':
        return sum((rfloat(r, 4) for _ in range(4)), [])
    if t == 'LLVector3d':
        return sum((rfloat(r, 8) for _ in range(3)), [])
    if t == 'LLQuaternion':
        return rquat(r)
    if t == 'Variable':
        c = r.random()
        ln = r.choice([0, 1, 2, 3, 5, 16, 17])
        if c < 0.06 or big:
            ln = r.choice([100, 127, 128, 200, 253, 254])
        if n > 1 and c < (0.3 if big else 0.04):
            ln = r.choice([254, 255, 256, 257, 300, 511, 512, 1000])
        k = r.random()
        if k < 0.3:
            return [r.randrange(32, 127) for _ in range(ln)]
        if k < 0.5:
            return list(''.join(r.choice(u'ab\u00e9\u4e2d\u20ac z') for _ in range(ln // 3)).encode('utf-8'))
        if k < 0.7:
            return [r.choice([0, 0, 1, 255]) for _ in range(ln)]
        return [r.randrange(256) for _ in range(ln)]
    if t == 'BOOL':
        return [r.choice([0, 1, 1, 0, 1])]
    c = r.random()
    if c < 0.15:
        return [0] * n
    if c < 0.3:
        return [255] * n
    if c < 0.4:
        return [128] + [0] * (n - 1)
    if c < 0.5:
        return [127] + [255] * (n - 1)
    if c < 0.6:
        return [0] * (n - 1) + [r.choice([1, 127, 128, 255])]
    if c < 0.7:
        return list(range(1, n + 1))
    return [r.randrange(256) for _ in range(n)]


def rinsts(r, t, big=False, quat=True):
    out = []
    full = any(b['kind'] != 'Variable' for b in t['blocks'])
    nv = 0
    for b in t['blocks']:
        n = 1
        if b['kind'] == 'Multiple':
            n = b['n']
        if b['kind'] == 'Variable':
            n = r.choice([1, 1, 2, 3, 4])
            if big:
                n = r.choice([5, 17, 128, 254, 255]) if len(b['fields']) < 4 else 5
            if r.random() < 0.2 and (full or nv):
                n = 0
            nv += n
        out.append([[rvalue(r, f, big and n < 6) for f in b['fields']] for _ in range(n)])
    return out


def rflags(r):
    f = r.choice([0, 0, RULE_REL, RULE_REL, 0x20, 0x60, 0x01, 0x4f])
    acks = []
    if r.random() < 0.35:
        f |= RULE_ACK
        acks = [wire.be(r.choice([0, 1, 255, 256, 65536, 16777216, 2 ** 32 - 1, r.randrange(2 ** 32)]), 4)
                for _ in range(r.choice([0, 1, 1, 2, 3, 20]))]
    return f, acks


def enc_op(r, ti, t, op, big=False):
    f, acks = rflags(r)
    insts = rinsts(r, t, big)
    o = {'op': op, 't': ti, 'flags': f, 'seq': wire.be(r.choice([0, 1, 255, 256, 65536, 2 ** 31 - 1, r.randrange(2 ** 31)]), 4),
         'acks': acks, 'insts': insts, 'lack': '', 'form': r.randrange(1000)}
    return o


def miss(r, t, o):
    """leaves something out, or miscounts"""
    cs = []
    for i, b in enumerate(t['blocks']):
        cs.append(('block', i))
        if o['insts'][i]:
            cs += [('field', i), ('field', i)]
            if b['kind'] != 'Variable':
                cs += [('count', i)] * 2
    if not cs:
        return None
    k, i = r.choice(cs)
    b = t['blocks'][i]
    if k == 'block':
        o['lack'] = 'block:' + b['name']
    elif k == 'field':
        o['lack'] = 'field:%s:%s' % (b['name'], r.choice(b['fields'])['name']) if b['fields'] else 'block:' + b['name']
    else:
        n = len(o['insts'][i])
        m = r.choice([x for x in (0, 1, 2, 3, n - 1, n + 1, n + 255) if x != n and x >= 0][:6])
        o['insts'][i] = [[rvalue(r, f) for f in b['fields']] for _ in range(m)]
    return o


def over(r, t, o):
    """a value too long for its length, or more blocks than the count can tell"""
    cs = [(i, k) for i, b in enumerate(t['blocks']) for k, f in enumerate(b['fields'])
          if o['insts'][i] and f['type'] == 'Variable' and f['size'] < 4]
    vb = [i for i, b in enumerate(t['blocks']) if b['kind'] == 'Variable']
    if vb and (not cs or r.random() < 0.4):
        i = r.choice(vb)
        inst = [[rvalue(r, f) for f in t['blocks'][i]['fields']]]
        o['insts'][i] = inst * r.choice([256, 257, 300, 511, 512])
        if sum(len(v) for v in inst[0]) < 200:
            return o
        o['insts'][i] = inst
    if not cs:
        return None
    i, k = r.choice(cs)
    v = t['blocks'][i]['fields'][k]
    n = r.choice([255, 256, 257, 258, 300, 511, 512, 513, 1000])
    if v['size'] == 2:
        n = r.choice([65535, 65536, 65537, 65800]) if r.random() < 0.06 else r.choice([255, 256, 257, 300, 511, 512, 1000])
    v = [r.choice([65, 66, 1, 200]) for _ in range(n)]
    if r.random() < 0.2:
        v[-3:] = [0] * 3
    j = r.randrange(len(o['insts'][i]))
    o['insts'][i] = [list(x) for x in o['insts'][i]]
    o['insts'][i][j][k] = v
    return o


def to_wire(r, t, insts):
    """a body as an independent sender writes it"""
    out = list(wire.msgnum(t))
    for b, ii in zip(t['blocks'], insts):
        if b['kind'] == 'Variable':
            out.append(len(ii))
        for inst in ii:
            for f, v in zip(b['fields'], inst):
                ty = f['type']
                if ty == 'Variable':
                    v = v + ([0] if r.random() < 0.5 and len(v) < 250 else [])
                    out += wire.le(len(v), f['size']) + v
                elif ty in wire.LITTLE or ty in ('F32', 'F64'):
                    out += v[::-1]
                elif ty in ('LLVector3', 'LLVector4'):
                    for k in range(0, len(v), 4):
                        out += v[k:k + 4][::-1]
                elif ty == 'LLVector3d':
                    for k in range(0, len(v), 8):
                        out += v[k:k + 8][::-1]
                elif ty == 'LLQuaternion':
                    neg = v[12] >= 128
                    for k in (0, 4, 8):
                        a = v[k:k + 4]
                        if neg:
                            a = [a[0] ^ 128] + a[1:]
                        out += a[::-1]
                else:
                    out += v
    return out


def datagram(r, ts):
    t = r.choice(ts)
    body = to_wire(r, t, rinsts(r, t, r.random() < 0.05))
    f, acks = rflags(r)
    extra = [r.randrange(256) for _ in range(r.choice([0, 0, 0, 1, 2, 7, 40]))]
    c = r.random()
    seq = r.randrange(2 ** 32) if r.random() < 0.7 else r.choice([0, 1, 2 ** 31, 2 ** 32 - 1])
    d = wire.datagram(f & ~RULE_ACK, seq, body, [wire.from_be(a) for a in acks], extra, zero=r.random() < 0.4, ackflag=bool(f & RULE_ACK))
    if c < 0.35:
        return d
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randrange(10)
        if not d:
            break
        i = r.randrange(len(d))
        if k == 0:
            d = d[:i]
        elif k == 1:
            d = d[:len(d) - r.randrange(1, min(len(d), 6) + 1)]
        elif k == 2:
            d = d + [r.choice([0, 1, 2, 255, r.randrange(256)]) for _ in range(r.choice([1, 1, 2, 4, 5, 9]))]
        elif k == 3:
            d[i] = r.randrange(256)
        elif k == 4:
            d[i] ^= 1 << r.randrange(8)
        elif k == 5:
            d = d[:i] + d[i + 1:]
        elif k == 6:
            d = d[:i] + [r.randrange(256)] + d[i:]
        elif k == 7:
            d[0] ^= r.choice([RULE_ACK, RULE_ZER, RULE_REL])
        elif k == 8:
            j = r.randrange(0, min(len(d), 14))
            d[j] = r.choice([0, 1, 2, 5, 254, 255])
        else:
            d[-1] = r.choice([0, 1, 2, 3, 63, 255])
    return d


def noise(r, ts):
    n = r.choice([0, 1, 5, 6, 7, 8, 9, 10, 12, 20, 60])
    d = [r.choice([0, 0, 1, 2, 255, r.randrange(256)]) for _ in range(n)]
    if n > 6 and r.random() < 0.8:
        d[0] = r.choice([0, 0, 0x40, 0x80, 0xc0, 0x10, 0x90])
        d[5] = r.choice([0, 0, 0, 1, 2])
        if r.random() < 0.8:
            d[6 + d[5]:7 + d[5]] = wire.msgnum(r.choice(ts))
    return d[:400]


TYPES = ['U8', 'U16', 'U32', 'U64', 'S8', 'S16', 'S32', 'S64', 'F32', 'F64', 'LLVector3', 'LLVector3d', 'LLVector4',
         'LLQuaternion', 'LLUUID', 'BOOL', 'IPADDR', 'IPPORT', 'Fixed', 'Variable', 'Variable', 'Fixed']


def gen_templates(r, n):
    """templates as no embedded file has them"""
    ts, used = [], set()
    for i in range(n):
        while True:
            fr = r.choice(['High', 'Medium', 'Low', 'Low', 'Fixed'])
            num = {'High': r.choice([1, 2, 126, 127, 128, 253, 254]), 'Medium': r.choice([0, 1, 2, 127, 128, 253, 254]),
                   'Low': r.choice([0, 1, 2, 254, 255, 256, 257, 511, 512, 32767, 32768, 65278, 65279, r.randrange(65280)]),
                   'Fixed': r.choice([1, 127, 128, 250, 251, 252, 254])}[fr]
            if (fr, num) not in used:
                break
        used.add((fr, num))
        blocks = []
        for j in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
            kind = r.choice(['Single', 'Multiple', 'Variable', 'Variable'])
            fs = []
            for k in range(r.choice([1, 1, 2, 3, 5])):
                ty = r.choice(TYPES)
                size = wire.FIELD.get(ty, 0)
                if ty == 'Variable':
                    size = r.choice([1, 2, 4] if r.random() < 0.3 else [1, 2])
                if ty == 'Fixed':
                    size = r.choice([1, 2, 3, 4, 8, 16, 17, 32])
                fs.append({'name': r.choice(['Data', 'Name', 'Alpha', 'ID', 'X_y2']) + str(k) if r.random() < 0.8 or k else 'Data', 'type': ty, 'size': size})
            blocks.append({'name': 'B%s%d' % (r.choice(['lock', 'ody', '_']), j), 'kind': kind,
                           'n': r.choice([1, 2, 3, 4, 9]) if kind == 'Multiple' else 0, 'fields': fs})
        ts.append({'name': 'Gen%d' % i, 'freq': fr, 'num': num, 'trust': r.choice(['Trusted', 'NotTrusted']),
                   'enc': r.choice(['Zerocoded', 'Unencoded']), 'dep': 'NotDeprecated', 'blocks': blocks})
    return ts


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def check(ctx):
    r, p = ctx.rnd, ctx.prop
    emb = embedded()
    emb = [t for t in emb]
    scns = []
    op = {'C10': 'rt', 'C11': 'enc', 'C12': 'dec'}[p]
    # 1. the family of small templates, exhaustively on the model
    vocab = 'wire' if p == 'C12' else 'rt'
    slices = 1 if vocab == 'rt' or ctx.thorough else 10
    env = {'VF_OPS': vocab, 'VF_SLICE': str(ctx.seed % slices), 'VF_SLICES': str(slices)}
    got = ctx.mc('MC_Codec', {'Rich': 1 if ctx.thorough and vocab == 'rt' else 0}, INV, env=env, label=vocab, workers=6, timeout=3000)
    small = [g for g in got if 'templates' in g][0]['templates']
    got = sample_list(r, [g for g in got if 'op' in g and g['op'] == ('dec' if op == 'dec' else 'rt')], ctx.pick(9000, 150000))
    for g in got:
        g['op'] = op
        g['form'] = r.randrange(1000)
    for c in chunks(got, 400):
        scns.append({'cfg': {'templates': small, 'source': 'given', 'barred': [], 'xml': 'none'}, 'ops': c})
    # 2. generated template files
    for i in range(ctx.pick(30, 400)):
        ts = gen_templates(r, r.choice([3, 8, 15]))
        scns.append({'cfg': {'templates': ts, 'source': 'given', 'barred': [], 'xml': 'none'}, 'ops': some_ops(r, op, ts, 60)})
    # 3. the embedded file
    for i in range(ctx.pick(2, 25)):
        for part in chunks(emb, 60):
            ops = []
            if op == 'dec':
                ops = some_ops(r, op, part, 240)
                ts = emb
            else:
                ts = part
                for ti, t in enumerate(part):
                    ops += [enc_op(r, ti + 1, t, op) for _ in range(2)]
                    ops.append(enc_op(r, ti + 1, t, op, big=(i % 2 == 0)))
                    if op == 'enc':
                        o = miss(r, t, enc_op(r, ti + 1, t, op))
                        if o:
                            ops.append(o)
                    if r.random() < 0.12:
                        o = over(r, t, enc_op(r, ti + 1, t, op))
                        if o:
                            ops.append(o)
            scns.append({'cfg': {'templates': ts, 'source': 'embedded', 'barred': [], 'xml': 'none'}, 'ops': ops})
    traces = ctx.drive('codec', scns, jobs=6)
    ctx.validate('TraceCodec', traces, 'Codec', scns, 'codec')
    ctx.samples = [{'event': t['ev'][0]} for t in (traces[0], traces[-1])]
    ctx.assumptions += ['values lie in the range of their field; no NaN is encoded; rotations are of length one',
                        'how a run of zeros longer than 255 or a lone last zero is coded is not settled by the layout and left open',
                        'bytes behind a complete body may be tolerated or refused']


def check_barred(ctx):
    """C15 over every message name, with the embedded and supplied configurations"""
    r = ctx.rnd
    emb = embedded()
    fl = flavors()
    scns = []

    def add(ts, xml, barred, fls, **kw):
        ops = []
        for ti, t in enumerate(ts):
            ops.append(enc_op(r, ti + 1, t, 'rt'))
            body = to_wire(r, t, rinsts(r, t))
            ops.append({'op': 'dec', 'bytes': wire.datagram(r.choice([0, RULE_REL]), r.randrange(2 ** 31), body, [], [], zero=r.random() < 0.4)})
        r.shuffle(ops)
        if xml == 'given' and r.random() < 0.6:
            kw['caps'] = [[t['name'], r.randrange(2)] for t in ts if r.random() < 0.5]
        scns.append({'cfg': dict({'templates': ts, 'source': 'embedded', 'barred': barred, 'xml': xml, 'flavors': fls}, **kw), 'ops': ops})

    bars = sorted(n for n in fl if fl[n] != 'template')
    for via in ('direct', 'manager', 'dispatcher'):
        if via == 'direct':
            for part in chunks(emb, 80):
                add(part, 'embedded', bars, [], via=via)
            continue
        picked = [t for t in emb if t['name'] in fl] + r.sample(emb, 60)
        add(picked, 'embedded', bars, [], via=via)
    for i in range(ctx.pick(24, 300)):
        part = [t for t in emb if t['name'] in fl and r.random() < 0.5] + r.sample(emb, 40)
        names = sorted(set(t['name'] for t in part))
        fls = [(n, r.choice(['llsd', 'template', 'llsd', 'template', 'binary', 'none'])) for n in names if r.random() < 0.6]
        bar = sorted(n for n, f in fls if f != 'template')
        add(part, 'given', bar, fls, via=r.choice(['direct', 'manager', 'dispatcher', 'manager']))
    # supplied templates together with a supplied configuration
    for i in range(ctx.pick(6, 60)):
        ts = gen_templates(r, 8)
        fls = [(t['name'], r.choice(['llsd', 'template'])) for t in ts if r.random() < 0.7]
        add(ts, 'given', sorted(n for n, f in fls if f != 'template'), fls, via=r.choice(['direct', 'manager', 'dispatcher']), source='given')
    traces = ctx.drive('codec', scns, jobs=6)
    ctx.validate('TraceCodec', traces, 'Codec', scns, 'codec',
                 rename={'C10.refused': 'C15.pass', 'C10.lost': 'C15.pass', 'C11.refused': 'C15.pass', 'C12.rejected': 'C15.pass'})


def some_ops(r, op, ts, n):
    ops = []
    for _ in range(n):
        if op == 'dec':
            ops.append({'op': 'dec', 'bytes': datagram(r, ts) if r.random() < 0.85 else noise(r, ts)})
        else:
            ti = r.randrange(len(ts))
            o = enc_op(r, ti + 1, ts[ti], op, big=r.random() < 0.05)
            if op == 'enc' and r.random() < 0.25:
                o = miss(r, ts[ti], o) or o
            elif r.random() < 0.03:
                o = over(r, ts[ti], o) or o
            ops.append(o)
    return ops
