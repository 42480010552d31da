"""C14: template files."""
import re
from vlib import sample_list
import fam_codec
import wire

WORDS = ['note', 'the', 'U8', 'Single', 'Variable', '3', '{', '}', '//', 'agent_id', 'Low', '7', 'Trusted', "isn't", '(x)', '{}', 'NotTrusted', 'Zerocoded']


def value(s):
    try:
        n = int(s, 0)
        return n % 256 if n >= 2 ** 31 else n
    except ValueError:
        return -1


def tok(s):
    return {'s': s, 'n': value(s)}


def tokens(text):
    out = []
    for line in text.split('\n'):
        out += [tok(x) for x in re.findall(r'//|[{}]|(?:(?!//)[^\s{}])+', line)] + [tok('NL')]
    return out


def render(r, lines, version=True):
    """text of lines of tokens, with free white space"""
    eol = '\r\n' if r.random() < 0.1 else '\n'
    sp = lambda a: ''.join(r.choice([' ', '\t', '  ', '\t\t']) for _ in range(r.randrange(a, 3)))
    out = []
    if version:
        out.append('version 2.0')
    for ln in lines:
        while r.random() < 0.15:
            out.append(sp(0))
        s = sp(0)
        com = False
        for i, t in enumerate(ln):
            s += t
            if t == '//':
                com = True
            nxt = ln[i + 1] if i + 1 < len(ln) else None
            if nxt is not None:
                tight = t in '{}//' or nxt in ('{', '}', '//')
                s += sp(0 if tight and not com else 1)
        out.append(s + sp(0))
    return eol.join(out) + (eol if r.random() < 0.9 else '')


def comment(r):
    return ['//'] + [r.choice(WORDS) for _ in range(r.randrange(0, 8))]


def layout(r, ts, busy=0.2):
    """lines of tokens for these templates, one item or brace a line or brought together"""
    lines = []

    def put(*ws):
        ws = list(ws)
        if r.random() < busy:
            ws += comment(r)
        lines.append(ws)
        if r.random() < busy / 2:
            lines.append(comment(r))
    for m in ts:
        num = str(m['num'])
        if m['freq'] == 'Fixed':
            num = r.choice(['0xFFFFFF%02X', '0xffffff%02x']) % m['num']
        elif r.random() < 0.1:
            num = hex(m['num'])
        h = [m['name'], m['freq'], num, m['trust'], m['enc']]
        if m['dep'] != 'NotDeprecated' or r.random() < 0.2:
            h.append(m['dep'])
        if not m['blocks'] and r.random() < 0.4:
            put('{', *(h + ['}']))
            continue
        if r.random() < 0.3:
            put('{', *h)
        else:
            put('{')
            put(*h)
        for b in m['blocks']:
            bh = [b['name'], b['kind']] + ([str(b['n'])] if b['kind'] == 'Multiple' else [])
            if r.random() < 0.3:
                put('{', *bh)
            else:
                put('{')
                put(*bh)
            for f in b['fields']:
                fh = [f['name'], f['type']] + ([str(f['size'])] if f['type'] in ('Fixed', 'Variable') else [])
                c = r.random()
                if c < 0.8:
                    put('{', *(fh + ['}']))
                elif c < 0.9:
                    put('{')
                    put(*fh)
                    put('}')
                else:
                    put('{', *fh)
                    put('}')
            put('}')
        put('}')
    return lines


NAMES = ['Low', 'High', 'Single', 'Variable', 'U8', 'version', 'Message_2', 'a', 'Trusted', 'X9', 'Fixed', 'Block1', '_u']


def rename(r, ts):
    used = set()

    def pick(pool, used):
        while True:
            n = r.choice(pool) + (str(r.randrange(50)) if r.random() < 0.6 else '')
            if n not in used:
                used.add(n)
                return n
    for t in ts:
        t['name'] = pick(NAMES + ['TestMessage', 'Gen'], used)
        t['dep'] = r.choice(['NotDeprecated', 'NotDeprecated', 'Deprecated', 'UDPDeprecated', 'UDPBlackListed'])
        bu = set()
        for b in t['blocks']:
            b['name'] = pick(NAMES, bu)
            if b['kind'] == 'Multiple' and r.random() < 0.5:
                b['n'] = r.choice([10, 12, 45, 100, 255])
            fu = set()
            for f in b['fields']:
                f['name'] = pick(NAMES + ['Data'], fu)
                if f['type'] == 'Fixed' and r.random() < 0.5:
                    f['size'] = r.choice([10, 64, 100, 1024])
    return ts


def lookups(r, ts, n, d=1):
    ops = []
    for t in (ts if n is None else r.sample(ts, min(n, len(ts)))):
        ops.append({'op': 'name', 'name': t['name'], 'idx': r.random() < 0.3})
        ops.append({'op': 'pair', 'freq': t['freq'], 'num': t['num']})
        for fr in ('High', 'Medium', 'Low', 'Fixed'):
            if fr != t['freq'] and r.random() < 0.5:
                ops.append({'op': 'pair', 'freq': fr, 'num': t['num']})
        if r.random() < 0.3:
            ops.append({'op': 'pair', 'freq': t['freq'], 'num': r.choice([t['num'] + 1, t['num'] ^ 256, 0, 255])})
    ops.append({'op': 'name', 'name': 'NoSuchMessage'})
    for o in ops:
        o['d'] = d
    return ops


def check(ctx):
    r = ctx.rnd
    scns = []
    got = ctx.mc('MC_Tpl', {'Depth': ctx.pick(5, 6)}, ['SameReading'], env={'VF_COM': '1'}, label='comments', workers=6, timeout=3000)
    got += ctx.mc('MC_Tpl', {'Depth': ctx.pick(6, 8)}, ['SameReading'], env={'VF_COM': '0'}, label='layout', workers=6, timeout=3000)
    got = sample_list(r, got, ctx.pick(2500, 40000))
    ops = []
    for lines in got:
        text = render(r, [[t['s'] for t in ln] for ln in lines])
        ops.append({'op': 'parse', 'text': text, 'toks': tokens(text), 'list': r.random() < 0.5})
    for c in fam_codec.chunks(ops, 100):
        scns.append({'cfg': {}, 'ops': c})
    for i in range(ctx.pick(150, 3000)):
        ts = rename(r, fam_codec.gen_templates(r, r.choice([1, 2, 5, 12])))
        text = render(r, layout(r, ts, r.choice([0, 0.2, 0.6])))
        scns.append({'cfg': {}, 'ops': [{'op': 'parse', 'text': text, 'toks': tokens(text), 'list': r.random() < 0.5}] + lookups(r, ts, None)})
    for i in range(ctx.pick(60, 1000)):     # several files at a time, each with a dictionary of its own
        fs = [rename(r, fam_codec.gen_templates(r, r.choice([1, 2, 5]))) for _ in range(r.choice([2, 3]))]
        ops, n = [], 0
        for ts in fs:
            text = render(r, layout(r, ts, r.choice([0, 0.3])))
            ops.append({'op': 'parse', 'text': text, 'toks': tokens(text), 'list': r.random() < 0.5})
            n += 1
            if r.random() < 0.5:
                ops += sample_list(r, [o for ts2 in fs for o in lookups(r, ts2, None, r.randrange(1, n + 1))], 12)
        for d in range(1, len(fs) + 1):
            ops += sample_list(r, [o for ts2 in fs for o in lookups(r, ts2, None, d)], 25)
        scns.append({'cfg': {}, 'ops': ops})
    emb = fam_codec.embedded()
    with open(fam_codec.DATA + 'message_template.msg', encoding='latin-1', newline='') as f:
        etext = f.read()
    scns.append({'cfg': {}, 'ops': [{'op': 'parse', 'embedded': True, 'toks': tokens(etext)}] + lookups(r, emb, None)})
    for i in range(ctx.pick(3, 20)):   # the embedded messages, laid out differently
        ts = r.sample(emb, 60)
        text = render(r, layout(r, ts, 0.3))
        scns.append({'cfg': {}, 'ops': [{'op': 'parse', 'text': text, 'toks': tokens(text)}] + lookups(r, ts, 30)})
    traces = ctx.drive('tpl', scns, jobs=6)
    ctx.validate('TraceTpl', traces, 'Tpl', scns, 'tpl')
    # a supplied file governs what a message manager sends and receives
    scns = []
    for i in range(ctx.pick(12, 150)):
        ts = fam_codec.gen_templates(r, r.choice([3, 8]))
        # names of the embedded file with another layout, so that the wrong dictionary shows
        for t, e in zip(ts, r.sample(emb, 3)):
            t['name'] = e['name']
        scns.append({'cfg': {'templates': ts, 'source': 'given', 'barred': [], 'xml': 'none', 'via': r.choice(['manager', 'dispatcher'])},
                     'ops': fam_codec.some_ops(r, 'rt', ts, 25) + fam_codec.some_ops(r, 'dec', ts, 25)})
    traces = ctx.drive('codec', scns, jobs=6)
    ctx.validate('TraceCodec', traces, 'Codec', scns, 'codec', rename={'C10': 'C14.custom', 'C11': 'C14.custom', 'C12': 'C14.custom'})
    ctx.assumptions += ['files are laid out as the embedded one: no line holds two items or two braces of a kind']
