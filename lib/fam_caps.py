"""C19, C20: capabilities."""
from fam_eq import value, FIELDS
from vlib import sample_list

LLSD = 'application/llsd+xml'
JUNK = ['', '   ', '<llsd><map>', 'mumpitz', '<llsd/>', '<?xml version="1.0" ?><llsd><integer>x</integer></llsd>', '<?xml version="1.0" ?><html/>',
        '<?xml version="1.0" ?><llsd><map><key>a</key></llsd>']
HTML = ['<html><body>It works</body></html>', '<?xml version="1.0" ?><html></html>', 'plain words', '']
CODES = {404: [404], 500: [400, 401, 403, 405, 410, 499, 500, 502, 503], 200: [200], 201: [201, 202, 203, 206]}
NAMES = ['one', 'two', 'more', 'EventQueueGet', 'FetchInventory', 'one2', 'capabilities', 'get']
# how addresses may end: nothing of it is the caller's to change
TAILS = ['', '', '', '/', '//', '/?', '?a=b', '?a=b&c=d%20e', '/x;p=1', '/%2F%7e~', '/A%C3%A9', '/.', '/../y', ':12/', '?u=http://h/x']
# types that look much like those that are known
NEAR = ['application/llsd+xml2', 'application/llsd+xml-delta', 'x-application/llsd+xml', 'application/xml-dtd', 'llsd+xml', 'text/html5', 'application/llsd+xm',
        'application/llsd xml', 'text/llsd+xml', 'xml', 'application/*']
RAW = [[], [0], [255, 254, 0, 10, 13], list(b'Linden text version 2'), list(range(256))]


def ctype(r, ct):
    if ct == '':
        return ''
    x = ct + r.choice(['', '', '; charset=utf-8', ';charset="utf-8"', ' ; a=b'])
    return x if r.random() < 0.9 else x.swapcase()


def reply(r, rep):
    rep = dict(rep)
    rep['code'] = r.choice(CODES[rep['code']])
    rep['cth'] = ctype(r, rep['ct'])
    rep['low'] = r.random() < 0.3
    rep['val'] = value(r, 3)
    if rep['body'] == 'junk':
        rep['text'] = r.choice(JUNK if rep['ct'] in (LLSD, 'application/xml') else HTML)
    rep['more'] = r.random() < 0.3
    rep['caps'] = [[c['n'], c['u'] + r.choice(TAILS)] if isinstance(c, dict) else [c[0], c[1] + r.choice(TAILS)] for c in rep.get('caps', [])]
    return rep


def start(r, o):
    o = dict(o)
    pt = o['pt']
    o['hdrs'] = [['X-VF-' + r.choice(['One', 'two', 'THREE']), r.choice(['1', 'a b', 'v; q=0'])] for _ in range(r.choice([0, 0, 1, 2]))]
    o['hdrs'] = [list(x) for x in {h[0].lower(): h for h in o['hdrs']}.values()]
    if o['hdrs'] and r.random() < 0.3:
        o['hdrs'].append(['Accept', 'application/llsd+xml'])
    if o['kind'] == 'custom':
        o['pt'] = 'raw'
        o['pay'] = ['y', r.choice(RAW)]
    elif pt == 'other':
        o['pay'] = ['i', r.randrange(10)]
    elif pt == 'list':
        o['pay'] = ['l', [value(r, 2) for _ in range(r.randrange(5))]]
    else:
        o['pay'] = ['m', {f: value(r, 2) for f in r.sample(FIELDS, r.randrange(5))}]
    if o['kind'] == 'seed':
        o['hdrs'] = []
    return o


def dress(r, s, http=False):
    ops = [start(r, o) if o['op'] == 'start' else dict(o, rep=reply(r, o['rep'])) for o in s['ops']]
    if http:
        # one call after another: each with its reply
        reps = {o['c']: o['rep'] for o in ops if o['op'] == 'finish'}
        ops = [dict(o, rep=reps[o['c']]) if o['c'] in reps else o for o in ops if o['op'] == 'start' and (o['c'] in reps or o['pt'] == 'other')]
    return {'cfg': {'http': http}, 'ops': ops}


def walk(r, n, over):
    ops, pend, caps, c = [], [], [(0, 'rootA'), (0, 'rootB')], 0
    for _ in range(n):
        if pend and (len(pend) >= over or r.random() < 0.5):
            k = pend.pop(r.randrange(len(pend)))
            code = r.choices([200, 201, 404, 500], [8, 1, 1, 1])[0]
            ct = r.choices([LLSD, 'application/xml', 'text/html', 'text/plain', '', 'application/octet-stream', 'application/llsd+binary', 'text/xml', 'application/atom+xml', 'application/llsd'] + NEAR,
                           [12, 3, 3, 1, 1, 1, 1, 1, 1, 1] + [0.5] * len(NEAR))[0]
            rep = {'code': code, 'ct': ct, 'body': r.choices(['llsd', 'junk'], [5, 1])[0], 'caps': []}
            if k['kind'] == 'seed':
                ns = sorted(set(k['names'] + r.sample(NAMES, r.randrange(4))))
                if r.random() < 0.1 and ns:
                    ns.pop()
                rep['caps'] = [[m, 'g/%d/%d/%s' % (k['c'], r.randrange(100), m)] for m in ns]
                if code < 300 and rep['body'] == 'llsd' and ct in (LLSD, 'application/xml', 'text/html'):
                    caps += [(k['c'], m) for m in k['names'] if m in ns]
            ops.append({'op': 'finish', 'c': k['c'], 'rep': rep})
        else:
            c += 1
            kind = r.choices(['get', 'post', 'custom', 'seed'], [3, 4, 2, 3])[0]
            by, name = r.choice(caps[:2]) if kind == 'seed' else r.choice(caps)
            o = {'op': 'start', 'c': c, 'kind': kind, 'by': by, 'name': name, 'pt': r.choice(['dict', 'dict', 'list', 'list', 'other']) if kind == 'post' else 'dict',
                 'names': [r.choice(NAMES) for _ in range(r.choice([0, 1, 2, 4]))] if kind == 'seed' else []}
            ops.append(o)
            if o['pt'] != 'other':
                pend.append(o)
    return {'ops': ops}


def check(ctx):
    r = ctx.rnd
    got = ctx.mc('MC_Caps', {'Depth': 4, 'Over': 2}, ['NoBad'], view='Full', label='histories', workers=6, timeout=3000)
    ctx.mc('MC_Caps', {'Depth': ctx.pick(4, 5), 'Over': 3}, ['NoBad'], emit=False, label='three at once', workers=6, timeout=3000)
    seeds = [s for s in got if any(o.get('kind') == 'seed' for o in s['ops'])]
    n = ctx.pick(1500, 12000)
    scns = [dress(r, s) for s in sample_list(r, seeds if ctx.prop == 'C20' else got, n)]
    for i in range(ctx.pick(600, 6000)):
        scns.append(dress(r, walk(r, r.randrange(3, 40), r.choice([1, 2, 4]))))
    for i in range(ctx.pick(60, 600)):
        scns.append(dress(r, walk(r, r.randrange(4, 16), 1), True))
    for s in scns:
        s['cfg']['tails'] = [r.choice(TAILS), r.choice(TAILS)]
        s['cfg']['uni'] = not s['cfg']['http'] and r.random() < 0.3     # addresses are text
    r.shuffle(scns)
    traces = ctx.drive('caps', scns, jobs=6)
    ctx.validate('TraceCaps', traces, 'Caps', scns, 'caps')
    ctx.assumptions += ['LLSD itself (llbase) and webob are trusted', 'calls change hands only inside the HTTP client']
