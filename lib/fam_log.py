"""C23: one history under several logging settings."""
import fam_caps
import fam_eq
import fam_mgr
import fam_net
from vlib import sample_list

OPTIONS = ['LOG_VERBOSE', 'ENABLE_BYTES_TO_HEX_LOGGING', 'ENABLE_CAPS_LOGGING', 'ENABLE_CAPS_LLSD_LOGGING', 'ENABLE_EQ_LOGGING', 'ENABLE_UDP_LOGGING',
           'ENABLE_OBJECT_LOGGING', 'LOG_SKIPPED_PACKETS', 'ENABLE_HOST_LOGGING', 'LOG_COROUTINE_SPAWNS', 'PROXY_LOGGING', 'DISABLE_SPAMMERS']
KEY = {'udp': 'ENABLE_UDP_LOGGING', 'hex': 'ENABLE_BYTES_TO_HEX_LOGGING', 'host': 'ENABLE_HOST_LOGGING', 'verbose': 'LOG_VERBOSE',
       'skipped': 'LOG_SKIPPED_PACKETS', 'spam': 'DISABLE_SPAMMERS'}


def made(quiet, spammy, level=10):
    return {'quiet': quiet, 'spammy': spammy, 'set': [], 'flips': [], 'level': level}


def base():
    return dict(made(True, False), set=[{'o': o, 'v': o == 'DISABLE_SPAMMERS'} for o in OPTIONS])


def some(r, p):
    return [{'o': o, 'v': r.random() < p} for o in OPTIONS]


def variants(r, n, flips=None):
    v = [base(), r.choice([made(True, False), made(True, True)])]
    pick = r.sample(['default', 'spammy', 'on', 'random', 'one', 'allbut', 'level'], 3)
    for k in pick:
        if k == 'default':
            x = made(False, False)
        elif k == 'spammy':
            x = made(False, True)
        elif k == 'on':
            x = dict(made(False, True), set=[{'o': o, 'v': o not in ('DISABLE_SPAMMERS', 'PROXY_LOGGING')} for o in OPTIONS])
        elif k == 'level':
            x = dict(made(False, r.random() < 0.5), level=r.choice([20, 30, 50]))
        elif k == 'random':
            x = dict(made(r.random() < 0.3, r.random() < 0.5), set=some(r, r.choice([0.3, 0.5, 0.8])))
        else:
            a = r.choice(OPTIONS)
            x = dict(made(False, False), set=[{'o': o, 'v': (o == a) == (k == 'one')} for o in OPTIONS])
        v.append(x)
    x = made(r.random() < 0.4, r.random() < 0.5)
    for i in range(n):
        if r.random() < 0.25:
            x['flips'].append({'at': i, 'set': [{'o': o, 'v': r.random() < 0.5} for o in r.sample(OPTIONS, r.choice([1, 1, 3, 6]))]})
    if flips is not None:
        x['flips'] = flips
    v.append(x)
    return v


def unswitch(r, ops):
    """a history of the model: its switches become those of the last run"""
    out, flips, on = [], [], {}
    for o in ops:
        if o['op'] == 'switch':
            k = KEY[o['o']]
            on[k] = not on.get(k, k == 'DISABLE_SPAMMERS')
            flips.append({'at': len(out), 'set': [{'o': k, 'v': on[k]}]})
        else:
            out.append(o)
    return out, flips


def scn(area, s, vs):
    return {'area': area, 'cfg': s['cfg'], 'ops': s['ops'], 'variants': vs}


def check(ctx):
    r = ctx.rnd
    t = ctx.thorough
    got = ctx.mc('MC_Log', {'Depth': ctx.pick(3, 4), 'All': 'FALSE', 'Leak': '"none"'}, ['NoBad', 'QuietMade', 'Lines'], label='histories', workers=6, timeout=3000)
    ctx.mc('MC_Log', {'Depth': ctx.pick(3, 5), 'All': 'TRUE', 'Leak': '"none"'}, ['NoBad', 'QuietMade', 'Lines'], view='States', emit=False, label='every setting',
           workers=6, timeout=3000)
    lists = {'net': [], 'mgr': [], 'eq': [], 'caps': []}
    for ops in sample_list(r, got, ctx.pick(500, 6000)):
        ops, fl = unswitch(r, ops)
        if ops:
            s = {'cfg': fam_net.cfg(), 'ops': fam_net.finish_ops(r, ops)}
            lists['net'].append(scn('net', s, variants(r, len(ops), fl)))
    for i in range(ctx.pick(250, 3000)):
        hosts = r.choice([['A', 'B'], ['A', 'B', 'C'], ['A', 'C', 'D']])
        p = r.choice(['C01', 'C02', 'C03', 'C04', 'C05', 'C07', 'C15'])
        ops = fam_net.finish_ops(r, fam_net.Walk(r, p, r.randrange(5, ctx.pick(24, 60)), hosts).ops())
        lists['net'].append(scn('net', {'cfg': fam_net.cfg(defer=r.random() < 0.6, hp=r.random() < 0.85, hosts=hosts), 'ops': ops}, variants(r, len(ops))))
    mgr = ctx.mc('MC_Mgr', {'Depth': 5}, ['NoBad'], env={'VF_OPS': 'queue'}, label='queue', workers=6)
    lists['mgr'] += [fam_mgr.dress(r, s) for s in sample_list(r, mgr, ctx.pick(150, 3000))]
    lists['mgr'] += [fam_mgr.dress(r, fam_mgr.walk(r, r.choice(['C13', 'C16', 'C24']), r.randrange(5, 40))) for _ in range(ctx.pick(200, 3000))]
    eq = ctx.mc('MC_Eq', {'Depth': 4}, ['NoBad'], view='Full', label='polls', workers=6)
    lists['eq'] += [fam_eq.dress(r, s) for s in sample_list(r, eq, ctx.pick(150, 3000))]
    lists['eq'] += [fam_eq.walk(r, r.randrange(3, 20)) for _ in range(ctx.pick(200, 3000))]
    caps = ctx.mc('MC_Caps', {'Depth': 3, 'Over': 2}, ['NoBad'], view='Full', label='calls', workers=6)
    lists['caps'] += [fam_caps.dress(r, s) for s in sample_list(r, caps, ctx.pick(200, 3000))]
    lists['caps'] += [fam_caps.dress(r, fam_caps.walk(r, r.randrange(3, 20), r.choice([1, 2, 4]))) for _ in range(ctx.pick(250, 3000))]
    lists['caps'] += [fam_caps.dress(r, fam_caps.walk(r, r.randrange(3, 8), 1), True) for _ in range(ctx.pick(20, 200))]
    for s in lists['caps']:
        s['cfg']['uni'] = not s['cfg']['http'] and r.random() < 0.4     # addresses are text
    for area in sorted(lists):
        scns = lists[area] if area == 'net' else [scn(area, s, variants(r, len(s['ops']))) for s in lists[area]]
        traces = ctx.drive('log', scns, jobs=4 if not t else 7)
        ctx.validate('TraceLog', traces, 'Log', scns, 'log')
    ctx.assumptions += ['what was observed is compared by digest', 'logging handlers that raise are outside the property']
