"""C22: messages as containers, and the incremental builder."""
import uuid
from fam_eq import value
from vlib import sample_list

BLOCKS = ['AgentData', 'ObjectData', 'Alpha', 'body', 'message', 'blocks']
FIELDS = ['ID', 'Name', 'Alpha', 'Beta', 'data', 'vars', 'size', 'name2', 'XferID']


def cut(r, n):
    """how the blocks of a message are given: k one by one (k > 0) or as a list of k (-k)"""
    out = []
    while n:
        k = r.randrange(1, n + 1)
        out.append(k if r.random() < 0.5 else -k)
        n -= k
    return out


def val(r, plain):
    if not plain and r.random() < 0.3:
        return ['U', str(uuid.UUID(int=r.getrandbits(128)))]
    return value(r, 2)


def dress(r, s):
    ops = []
    plain = r.random() < 0.6
    names = dict(zip(['Alpha', 'Beta'], r.sample(BLOCKS, 2)))
    fields = dict(zip('AB', r.sample(FIELDS, 2)))
    for o in s['ops']:
        o = dict(o)
        if o['op'] in ('blk', 'bnext'):
            o['name'] = names[o['name']]
        if o['op'] == 'blk':
            o['fs'] = [[fields[x['f']], val(r, plain)] for x in o['fs']]
            o['kw'] = r.random() < 0.5
        if o['op'] in ('fld', 'badd'):
            o['f'] = fields[o['f']]
            o['v'] = val(r, plain)
        if o['op'] == 'msg':
            o['cut'] = cut(r, len(o['bs']))
        ops.append(o)
    return {'ops': ops}


def walk(r, n):
    ops, nb, nm, plain = [], 0, 0, r.random() < 0.6
    begun, blocked = set(), set()
    for _ in range(n):
        x = r.random()
        if x < 0.25 or not nb:
            fs = [[f, val(r, plain)] for f in r.sample(FIELDS, r.randrange(5))]
            ops.append({'op': 'blk', 'name': r.choice(BLOCKS), 'fs': fs, 'kw': r.random() < 0.5})
            nb += 1
        elif x < 0.4:
            ops.append({'op': 'fld', 'b': r.randrange(nb) + 1, 'f': r.choice(FIELDS), 'v': val(r, plain)})
        elif x < 0.5:
            bs = [r.randrange(nb) + 1 for _ in range(r.choice([0, 1, 2, 3, 6]))]
            ops.append({'op': 'msg', 'name': r.choice(['M1', 'StartPingCheck']), 'bs': bs, 'cut': cut(r, len(bs))})
            nm += 1
        elif x < 0.6 and nm:
            ops.append({'op': 'add', 'm': r.randrange(nm) + 1, 'b': r.randrange(nb) + 1})
        else:
            u = r.choice([1, 2, 3])
            if u not in begun or r.random() < 0.1:
                ops.append({'op': 'bnew', 'u': u, 'name': 'M'})
                begun.add(u)
                blocked.discard(u)
            elif u not in blocked or r.random() < 0.3:
                ops.append({'op': 'bnext', 'u': u, 'name': r.choice(BLOCKS)})
                blocked.add(u)
            elif r.random() < 0.7:
                ops.append({'op': 'badd', 'u': u, 'f': r.choice(FIELDS), 'v': val(r, plain)})
            else:
                ops.append({'op': 'bbuild', 'u': u})
    return {'ops': ops}


def check(ctx):
    r = ctx.rnd
    got = ctx.mc('MC_Bld', {'Depth': ctx.pick(4, 5), 'Kind': 0}, ['NoBad'], view='Full', label='messages', workers=6, timeout=3000)
    ctx.mc('MC_Bld', {'Depth': 5, 'Kind': 0}, ['NoBad'], view='Full', emit=False, label='messages, longer', workers=6, timeout=3000)
    bld = ctx.mc('MC_Bld', {'Depth': ctx.pick(5, 7), 'Kind': 1}, ['NoBad'], view='Full', label='builders', workers=6, timeout=3000)
    scns = [dress(r, s) for s in sample_list(r, got, ctx.pick(2500, 25000)) + sample_list(r, bld, ctx.pick(1500, 15000))]
    for i in range(ctx.pick(1500, 15000)):
        scns.append(walk(r, r.randrange(3, 22)))
    traces = ctx.drive('bld', scns, jobs=6)
    ctx.validate('TraceBld', traces, 'Bld', scns, 'bld')
    ctx.assumptions += ['LLSD itself (llbase) is trusted']
