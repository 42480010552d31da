"""C08, C09: events and the message handler."""
from vlib import drop_prefixes, sample_list

ERRS = ['KeyError', 'ValueError', 'AttributeError', 'TypeError', 'IndexError', 'StopIteration', 'RuntimeError', 'Odd',
        'AssertionError', 'IOError', 'NameError', 'ImportError', 'OldStyle', 'UnicodeError', 'ZeroDivisionError']


def op(r, kind, names, keys, depth):
    n = r.choice(names)
    k = r.choice(keys)
    c = r.random()
    if c < (0.45 if depth == 0 else 0.25):
        script = []
        if depth < 2 and r.random() < 0.55:
            script = [op(r, kind, names, keys, depth + 1) for _ in range(r.choice([1, 1, 2, 3]))]
            if r.random() < 0.4:
                script[0] = {'op': 'unsub', 'n': n, 'k': k}
            if r.random() < 0.25:
                script.append({'op': 'raise', 'err': r.choice(ERRS)})
        return {'op': 'sub', 'n': n, 'k': k, 'script': script, 'via': r.choice('si')}
    if c < 0.65:
        return {'op': 'unsub', 'n': n, 'k': k, 'via': r.choice('si')}
    if c < 0.9:
        return {'op': 'fire', 'n': n, 'v': 'v%d' % r.randrange(1000), 'via': r.choice('ccn')}
    if kind == 'event':
        return {'op': r.choice(['len', 'len', 'clear']), 'n': n}
    return {'op': r.choice(['len', 'reg', 'handled']), 'n': n}


def finish(r, ops):
    """other error types than the model's single one, other ways to call"""
    out = []
    for o in ops:
        o = dict(o)
        if o.get('op') == 'raise':
            o['err'] = r.choice(ERRS)
        if o.get('script'):
            o['script'] = finish(r, o['script'])
        if o.get('op') in ('sub', 'unsub', 'fire'):
            o['via'] = r.choice('sin')
        out.append(o)
    return out


def walk(r, kind, n):
    names = ['E', 'F'][:r.choice([1, 2])] if kind == 'event' else r.sample(['StartPingCheck', 'ChatFromSimulator', 'X', 'toString', ''], 3)
    keys = r.sample(['h1:a', 'h1:b', 'h1:', 'h2:a', 'h2:', 'h2:k', 'h3:ak', 'h3:', 'h4:l', 'h4:', 'h5:a', 'h6:'], r.randrange(2, 7))
    ops = [op(r, kind, names, keys, 0) for _ in range(n)]
    ops += [{'op': 'fire', 'n': x, 'v': 'z'} for x in names] + [{'op': 'len', 'n': x} for x in names]
    return {'cfg': {'kind': kind, 'names': names, 'quiet': r.random() < 0.7}, 'ops': ops}


def bulk(r, kind, n):
    """hundreds of subscriptions, or of names"""
    names = ['E'] if kind == 'event' else ['E', 'F']
    keys = ['h%d:%s' % (i, r.choice(['', '', 'a', 'k'])) for i in range(7, 7 + n)]
    ops = [{'op': 'sub', 'n': names[0], 'k': k, 'script': [], 'via': r.choice('si')} for k in keys]
    if r.random() < 0.5:
        ops[r.randrange(n)]['script'] = [{'op': 'unsub', 'n': names[0], 'k': r.choice(keys), 'via': 's'}]
    end = [{'op': 'fire', 'n': x, 'v': 'v', 'via': r.choice('cn')} for x in names] + [{'op': 'len', 'n': x} for x in names]
    gone = [{'op': 'unsub', 'n': names[0], 'k': k, 'via': 's'} for k in r.sample(keys, n // 3)]
    if kind == 'mh':
        more = ['N%d' % i for i in range(n)]
        names = names + more
        ops += [{'op': 'sub', 'n': x, 'k': 'h1:', 'script': [], 'via': 's'} for x in more] + [{'op': 'reg', 'n': x} for x in more]
        end += [{'op': 'handled', 'n': x} for x in more[::7]] + [{'op': 'fire', 'n': x, 'v': 'v'} for x in r.sample(more, n // 5)]
    return {'cfg': {'kind': kind, 'names': names, 'quiet': True}, 'ops': ops + end + gone + end}


def check(ctx):
    kind = 'event' if ctx.prop == 'C08' else 'mh'
    r = ctx.rnd
    got = ctx.mc('MC_Evt', {'Depth': ctx.pick(3, 4)}, ['DesignOk', 'Agree'], env={'VF_KIND': kind}, label=kind)
    got = sample_list(r, drop_prefixes(got), ctx.pick(4000, 60000))
    names = ['E'] if kind == 'event' else ['E', 'F']
    scns = [{'cfg': {'kind': kind, 'names': names, 'quiet': r.random() < 0.7},
             'ops': finish(r, g + [{'op': 'fire', 'n': n, 'v': 'last'} for n in names])} for g in got]
    for i in range(ctx.pick(2000, 30000)):
        scns.append(walk(r, kind, r.randrange(3, ctx.pick(20, 40))))
    for n in [70, 130, 260] + ([520, 1030] if ctx.thorough else []):
        scns.append(bulk(r, kind, n))
    traces = ctx.drive('evt', scns)
    ctx.validate('TraceEvt', traces, 'Evt', scns, 'evt')
    ctx.assumptions += ['subscribers are plain functions and bound methods with equality as Python defines it']
