"""Independent reader of message templates and reader/writer of datagrams.

Shares no code with the library under test.  Runs under Python 2 (Jython) and 3.
Values: integers for integer types, raw byte strings (lists of ints) for the rest.
"""
import re

FIELD = {'U8': 1, 'U16': 2, 'U32': 4, 'U64': 8, 'S8': 1, 'S16': 2, 'S32': 4, 'S64': 8,
         'F32': 4, 'F64': 8, 'LLVector3': 12, 'LLVector3d': 24, 'LLVector4': 16,
         'LLQuaternion': 12, 'LLUUID': 16, 'BOOL': 1, 'IPADDR': 4, 'IPPORT': 2}
LITTLE = set(['U16', 'U32', 'U64', 'S16', 'S32', 'S64'])


def tokens(text):
    out = []
    for line in text.split('\n'):
        line = line.replace('\r', '')
        i = line.find('//')
        if i >= 0:
            line = line[:i]
        out.extend(re.findall(r'[{}]|[^\s{}]+', line))
    return out


def parse_templates(text):
    """[{name, freq, num, trust, enc, dep, blocks:[{name, kind, n, fields:[{name, type, size}]}]}]"""
    t = tokens(text)
    i = 0
    if t[:1] == ['version']:
        i = 2
    res = []
    while i < len(t):
        assert t[i] == '{', (i, t[i:i + 8])
        i += 1
        head = []
        while t[i] not in '{}':
            head.append(t[i])
            i += 1
        freq = head[1]
        num = int(head[2], 0)
        if freq == 'Fixed':
            num = num & 0xff
        m = {'name': head[0], 'freq': freq, 'num': num, 'trust': head[3], 'enc': head[4],
             'dep': (head[5:] + ['NotDeprecated'])[0], 'blocks': []}
        while t[i] == '{':
            i += 1
            bh = []
            while t[i] not in '{}':
                bh.append(t[i])
                i += 1
            b = {'name': bh[0], 'kind': bh[1], 'n': int(bh[2]) if bh[1] == 'Multiple' else 0, 'fields': []}
            while t[i] == '{':
                i += 1
                fh = []
                while t[i] != '}':
                    fh.append(t[i])
                    i += 1
                i += 1
                size = int(fh[2]) if fh[1] in ('Variable', 'Fixed') else FIELD[fh[1]]
                b['fields'].append({'name': fh[0], 'type': fh[1], 'size': size})
            assert t[i] == '}'
            i += 1
            m['blocks'].append(b)
        assert t[i] == '}'
        i += 1
        res.append(m)
    return res


def text_of(templates):
    """a template file of these messages, in the layout of the embedded one"""
    out = ['version 2.0\n']
    for m in templates:
        dep = m.get('dep', 'NotDeprecated') != 'NotDeprecated' and ' ' + m['dep'] or ''
        num = m['freq'] == 'Fixed' and '0xFFFFFF%02X' % m['num'] or str(m['num'])
        out.append('{\n\t%s %s %s %s %s%s\n' % (m['name'], m['freq'], num, m.get('trust', 'NotTrusted'),
                                              m.get('enc', 'Unencoded'), dep))
        for b in m['blocks']:
            out.append('\t{\n\t\t%s\t%s%s\n' % (b['name'], b['kind'], b['kind'] == 'Multiple' and '\t%d' % b['n'] or ''))
            for f in b['fields']:
                out.append('\t\t{\t%s\t%s%s\t}\n' % (f['name'], f['type'],
                                                 f['type'] in ('Fixed', 'Variable') and '\t%d' % f['size'] or ''))
            out.append('\t}\n')
        out.append('}\n')
    return ''.join(out)


def subset_text(text, names):
    """the text of the given messages, in a template file of their own"""
    return text_of([m for m in parse_templates(text) if m['name'] in names])


def index(templates):
    d = {}
    for m in templates:
        d[m['name']] = m
        d[(m['freq'], m['num'])] = m
    return d


def be(n, width):
    return [(n >> (8 * k)) & 255 for k in range(width - 1, -1, -1)]


def le(n, width):
    return be(n, width)[::-1]


def from_be(b):
    n = 0
    for x in b:
        n = n * 256 + x
    return n


def msgnum(m):
    f = m['freq']
    if f == 'High':
        return [m['num']]
    if f == 'Medium':
        return [255, m['num']]
    if f == 'Low':
        return [255, 255] + be(m['num'], 2)
    return [255, 255, 255, m['num']]


def enc_field(f, v):
    t = f['type']
    if t == 'Variable':
        v = list(v)
        return le(len(v), f['size']) + v
    if isinstance(v, (list, tuple)):
        return list(v)
    if t in LITTLE:
        return le(v, f['size'])
    return be(v, f['size'])


def body(m, blocks):
    """blocks: {block name: [ {field: value} ]}"""
    out = list(msgnum(m))
    for b in m['blocks']:
        insts = blocks.get(b['name'], [])
        if b['kind'] == 'Variable':
            out.append(len(insts))
        for inst in insts:
            for f in b['fields']:
                out.extend(enc_field(f, inst[f['name']]))
    return out


def zero_encode(data):
    out = []
    i = 0
    while i < len(data):
        if data[i] == 0:
            n = 0
            while i < len(data) and data[i] == 0 and n < 255:
                n += 1
                i += 1
            out.extend([0, n])
        else:
            out.append(data[i])
            i += 1
    return out


def datagram(flags, seq, body_bytes, acks=(), extra=(), zero=False, ackflag=None):
    if acks or ackflag:
        flags |= 0x10
    if zero:
        flags |= 0x80
        body_bytes = zero_encode(body_bytes)
    out = [flags] + be(seq, 4) + [len(extra)] + list(extra) + list(body_bytes)
    if flags & 0x10:
        for a in acks:
            out.extend(be(a, 4))
        out.append(len(acks))
    return out


class Bad(Exception):
    pass


def read(idx, data):
    """decodes a datagram (list of ints): {flags, seq, acks, name, blocks:[(name,[{..}])], rest}"""
    if len(data) < 7:
        raise Bad('short')
    r = {'flags': data[0], 'seq': from_be(data[1:5]), 'acks': [], 'tr': 'none'}
    d = data
    off = d[5]
    p = 6 + off
    b = d[p:]
    if not b:
        raise Bad('short')
    if data[0] & 0x80:
        raise Bad('zero coded')
    if b[0] != 255:
        key, p = ('High', b[0]), 1
    elif b[1:2] != [255]:
        key, p = ('Medium', (b[1:2] or [-1])[0]), 2
    elif b[2:3] != [255]:
        key, p = ('Low', from_be(b[2:4])), 4
    else:
        key, p = ('Fixed', (b[3:4] or [-1])[0]), 4
    m = idx.get(key)
    if m is None:
        raise Bad('unknown message number')
    r['name'] = m['name']
    blocks = []
    for bl in m['blocks']:
        n = 1
        if bl['kind'] == 'Multiple':
            n = bl['n']
        elif bl['kind'] == 'Variable':
            if p >= len(b):
                raise Bad('truncated count')
            n = b[p]
            p += 1
        insts = []
        for _ in range(n):
            inst = {}
            for f in bl['fields']:
                size = f['size']
                if f['type'] == 'Variable':
                    if p + size > len(b):
                        raise Bad('truncated length')
                    n2 = from_be(b[p:p + size][::-1])
                    p += size
                    size = n2
                if p + size > len(b):
                    raise Bad('truncated field')
                raw = b[p:p + size]
                p += size
                if f['type'] in LITTLE:
                    inst[f['name']] = from_be(raw[::-1])
                elif f['type'] in ('U8', 'S8', 'BOOL', 'IPPORT'):
                    inst[f['name']] = from_be(raw)
                else:
                    inst[f['name']] = raw
            insts.append(inst)
        blocks.append((bl['name'], insts))
    r['blocks'] = blocks
    rest = b[p:]
    if r['name'] == 'RegionHandshakeReply' and rest[:4] == [0, 0, 0, 0]:
        rest = rest[4:]
    if data[0] & 0x10:
        r['tr'] = 'bad'
        if rest and len(rest) == 4 * rest[-1] + 1:
            r['tr'] = 'ok'
            r['acks'] = [from_be(rest[4 * k:4 * k + 4]) for k in range(rest[-1])]
    elif rest:
        r['tr'] = 'bad'
    r['rest'] = rest
    return r


def s2b(s):
    return [ord(c) for c in s]


def b2s(b):
    return ''.join([chr(x) for x in b])
