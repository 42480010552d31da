"""C01-C05, C07, C15, C25 and part of C13: the dispatcher."""
import copy
import fam_codec
from vlib import drop_prefixes, sample_list

VOCABS = {'C01': ['seq'], 'C02': ['rel'], 'C03': ['acks', 'barred'], 'C04': ['piggy'], 'C05': ['trust'],
          'C07': ['deliver'], 'C13': ['reject'], 'C15': ['barred'], 'C25': ['resend'],
          'C28': ['forget']}
INV = ['DesignOk', 'CountOk', 'AcksOnlyReceived', 'NumbersUsed', 'OutstAgree', 'KnownOk']
HANDLED = ['StartPingCheck', 'UseCircuitCode', 'RequestMultipleObjects', 'OpenCircuit', 'ChatFromViewer', 'AddCircuitCode']
BARRED = 'StartGroupProposal'
SEQS = ['1', '2', '3', '255', '256', '65536', '16909060', '2147483647', '2147483648', '4294967295', '4294967040', '0']


def cfg(defer=True, hp=True, hosts=('A', 'B'), quiet=True):
    return {'hosts': list(hosts), 'defer': defer, 'hp': hp, 'barred': [BARRED], 'quiet': quiet}


def finish_ops(rnd, ops, tokens=True):
    """gives every message its own token"""
    out = []
    tok = rnd.randrange(1, 50)
    reuse = rnd.random() < 0.25    # the application sends the same message objects again
    for o in ops:
        o = dict(o)
        if reuse and o['op'] == 'send' and not o['invalid'] and o['name'] != 'PacketAck':
            o['obj'] = 'o'
        if o['op'] in ('send', 'recv'):
            tok += rnd.randrange(1, 9)
            v = tok
            if rnd.random() < 0.1:
                v = rnd.choice([0, 255, 256, 65535, 65536, 16777216, 2147483646 - tok])
            o['v'] = '0' if o['name'] == 'PacketAck' else str(v)
            if o['op'] == 'send' and o['invalid']:
                o['v'] = '-1'
            if o['op'] == 'send' and o['name'] == 'OpenCircuit' and not o['invalid']:
                o['v'] = str(v % 65536)
            if rnd.random() < 0.3:
                o['fresh'] = True
        if o['op'] == 'recv':
            o.setdefault('bad', '')
            if o['bad'] == '':
                if rnd.random() < 0.2:
                    o['zero'] = True
                if rnd.random() < 0.2:
                    o['extra'] = [rnd.randrange(256) for _ in range(rnd.choice([1, 2, 5, 9]))]
                if rnd.random() < 0.2:
                    o['res'] = True
        out.append(o)
    return out


def remap(rnd, ops):
    """sends the small numbers of the model to numbers of all widths"""
    m = {}
    pool = SEQS[:]
    rnd.shuffle(pool)
    out = []
    for o in ops:
        if o['op'] == 'recv':
            o = dict(o)
            if o['seq'] not in m:
                m[o['seq']] = pool.pop() if pool else str(rnd.randrange(2 ** 32))
            o['seq'] = m[o['seq']]
        out.append(o)
    return out


def alias(rnd, n):
    """now and then a number that agrees with n in some of its bytes only"""
    if rnd.random() < 0.15:
        return str((int(n) + rnd.choice([256, 65536, 2 ** 24, 2 ** 31, 2 ** 32 - 256])) % 2 ** 32)
    return n


def wide(rnd, prop, thorough):
    """histories in which our own numbers grow wide"""
    def s(h, rel=False, retries=0):
        return {'op': 'send', 'host': h, 'name': rnd.choice(HANDLED), 'rel': rel, 'invalid': False, 'retries': retries}

    def rv(h, acks, ids):
        return {'op': 'recv', 'host': h, 'name': 'PacketAck' if ids else 'UseCircuitCode', 'rel': False, 'seq': '5',
                'acks': [str(x) for x in acks], 'ids': [str(x) for x in ids], 'valid': True, 'may': False, 'bad': ''}

    def burn(h, n):
        return {'op': 'burn', 'host': h, 'n': n, 'rel': False}

    def many(h, n, fresh=False):
        return {'op': 'many', 'host': h, 'n': n, 'rel': False, 'fresh': fresh}
    out = []
    if prop == 'C01':
        out.append([many('A', 66000), s('A'), s('A', True), s('B'), {'op': 'flush'}])
        out.append([s('B'), many('A', 3000, True), many('B', 300), s('A', True), many('A', 300), s('B'), {'op': 'flush'}])
        out.append([burn('A', 2 ** 24 - 5)] + [s('A', i % 2 == 0) for i in range(8)] + [s('B'), {'op': 'flush'}])
        if thorough:
            out.append([many('A', 140000), many('B', 70000), s('A'), s('B')])
            out.append([burn('A', 2 ** 26 - 3), many('A', 10), s('A', True), s('B')])
    else:
        for top in (2 ** 8, 2 ** 16, 2 ** 24):
            k = rnd.choice([0, 1, 2])
            ops = [s('A', True, 2), s('A', True, 1), s('B', True), burn('A', top - 2 - k - 1)]     # the next one is top - k
            ops += [s('A', True, rnd.choice([0, 1])) for _ in range(k + 4)]
            ops += [rv('A', [], [top + 2]), rv('A', [top + 1], []), rv('B', [], [top]), {'op': 'flush'}, rv('A', [], [top, 1]), rv('A', [2], []), {'op': 'flush'}]
            out.append(ops)
    return out


class Walk(object):
    """a random history over a rich vocabulary"""

    def __init__(self, rnd, prop, n, hosts):
        self.r = rnd
        self.prop = prop
        self.n = n
        self.hosts = hosts
        self.sent = dict((h, 0) for h in hosts)
        self.rseq = dict((h, []) for h in hosts)
        self.subs = 0
        self.live = []
        self.trust = dict((h, False) for h in hosts)
        self.bias = {'C01': {'send': 6, 'bad': 2, 'flush': 1, 'recv': 2},
                     'C02': {'send': 5, 'ack': 5, 'recv': 1, 'flush': 1},
                     'C03': {'recv': 8, 'flush': 2, 'send': 1, 'trust': 0.3},
                     'C04': {'recv': 4, 'send': 4, 'flush': 1, 'ack': 2},
                     'C05': {'recv': 5, 'ack': 3, 'send': 3, 'trust': 2, 'sub': 0.5},
                     'C07': {'recv': 6, 'sub': 1.5, 'unsub': 0.7, 'set': 1, 'reg': 0.5},
                     'C13': {'badrecv': 6, 'recv': 2, 'send': 2, 'flush': 1, 'ack': 1},
                     'C15': {'recv': 3, 'send': 3, 'flush': 1, 'set': 0.3},
                     'C25': {'send': 4, 'ack': 3, 'flush': 3, 'recv': 2, 'trust': 0.25},
                     'C28': {'send': 4, 'ack': 2, 'flush': 1.5, 'recv': 3, 'forget': 2, 'trust': 0.3, 'bad': 0.2}}[prop]

    def op(self):
        r = self.r
        h = r.choice(self.hosts)
        ks = sorted(self.bias)
        k = r.choices(ks, [self.bias[x] for x in ks])[0]
        name = r.choice(HANDLED)
        if self.prop == 'C05' and r.random() < 0.2:
            name = 'AddCircuitCode'       # the template lets it come over trusted circuits
        if r.random() < (0.4 if self.prop == 'C15' else 0.06):
            name = BARRED
        if k == 'bad':
            return {'op': 'send', 'host': r.choice(['N1', 'N2', 'N3', 'N4']), 'name': 'StartPingCheck', 'rel': r.random() < 0.5,
                    'invalid': False, 'retries': 0}
        if k == 'send':
            inv = r.random() < 0.08 and name != BARRED
            o = {'op': 'send', 'host': h, 'name': name, 'rel': r.random() < (0.6 if self.prop in ('C02', 'C25') else 0.35),
                 'invalid': inv, 'retries': r.choice([0, 0, 1, 3])}
            if not inv and r.random() < 0.25:
                o['obj'] = r.choice(['o1', 'o2'])
            if name == 'RegionHandshakeReply':
                o['rel'] = True
            self.sent[h] += 1
            return o
        if k in ('recv', 'badrecv', 'ack'):
            if r.random() < 0.3 and self.rseq[h]:
                seq = r.choice(self.rseq[h])
            else:
                seq = r.choice(SEQS) if r.random() < 0.3 else str(r.randrange(1, 2 ** r.choice([4, 8, 16, 31, 32])))
                self.rseq[h].append(seq)
            acks, ids = [], []
            if k == 'ack' or r.random() < 0.25:
                n = r.choice([1, 1, 2, 3])
                if r.random() < 0.04:
                    n = r.choice([100, 127, 128, 129, 254, 255])
                pool = [str(i) for i in range(1, self.sent[h] + 2)] + ['0', '4294967295', '16777216']
                acks = [alias(r, r.choice(pool)) for _ in range(n)]
                if r.random() < 0.5:
                    name, ids, acks = 'PacketAck', acks, (acks[:1] if r.random() < 0.2 else [])
            o = {'op': 'recv', 'host': h, 'name': name, 'rel': r.random() < 0.6, 'seq': seq, 'acks': acks, 'ids': ids,
                 'valid': True, 'bad': ''}
            if not acks and r.random() < 0.05:
                o['ackf'] = True
            if k == 'badrecv' or (self.prop in ('C13',) and r.random() < 0.2):
                o['bad'] = r.choice(['trunc', 'unknown', 'short', 'tiny', 'acks', 'cut', 'one'])
                o['valid'] = False
            o['may'] = o['rel'] and o['bad'] not in ('tiny', 'one')
            return o
        if k == 'flush':
            return {'op': 'flush'}
        if k == 'trust':
            self.trust[h] = not self.trust[h]
            return {'op': 'trust', 'host': h, 'val': self.trust[h]}
        if k == 'forget':
            self.trust[h] = False
            return {'op': 'forget', 'host': h, 'fresh': r.random() < 0.5}
        if k == 'reg':
            return {'op': 'reg', 'name': name}
        if k == 'sub':
            self.subs += 1
            sid = 's%d' % self.subs
            self.live.append(sid)
            raises = r.choice(['key', 'err']) if r.random() < (0.1 if self.prop == 'C07' else 0.0) else ''
            return {'op': 'sub', 'sub': sid, 'name': name, 'raises': raises}
        if k == 'unsub' and self.live:
            return {'op': 'unsub', 'sub': self.live.pop(r.randrange(len(self.live)))}
        if k == 'set':
            return {'op': 'set', 'what': r.choice(['defer', 'hp']), 'val': r.random() < 0.5}
        return {'op': 'flush'}

    def ops(self):
        out = []
        n = 0
        if self.r.random() < 0.7:
            for name in self.r.sample(HANDLED, self.r.randrange(1, 5)):
                self.subs += 1
                out.append({'op': 'sub', 'sub': 's%d' % self.subs, 'name': name, 'raises': ''})
                self.live.append('s%d' % self.subs)
        while n < self.n:
            out.append(self.op())
            n += 1
        out.append({'op': 'flush'})
        return out


def bulk(rnd, prop):
    """histories with several hundred reliable receptions before a flush or send"""
    out = []
    for n in (249, 250, 251, 252, 254, 255, 256, 257, 300, 502, 503, 520):
        ops = []
        for i in range(n):
            ops.append({'op': 'recv', 'host': 'A', 'name': 'UseCircuitCode' if i % 3 else 'StartPingCheck', 'rel': True,
                        'seq': str(i * 7 + 1), 'acks': [], 'ids': [], 'valid': True, 'may': True, 'bad': ''})
        if prop == 'C04' or n % 2:
            ops.append({'op': 'send', 'host': 'A', 'name': 'ChatFromViewer', 'rel': False, 'invalid': False, 'retries': 0})
            ops.append({'op': 'send', 'host': 'B', 'name': 'ChatFromViewer', 'rel': False, 'invalid': False, 'retries': 0})
        ops.append({'op': 'flush'})
        ops.append({'op': 'send', 'host': 'A', 'name': 'StartPingCheck', 'rel': False, 'invalid': False, 'retries': 0})
        ops.append({'op': 'flush'})
        out.append(ops)
    return out


def resends(rnd):
    """histories with hundreds of reliable messages outstanding, or many retries"""
    def s(h, n):
        return {'op': 'send', 'host': h, 'name': rnd.choice(HANDLED), 'rel': True, 'invalid': False, 'retries': n}

    def rv(h, q, k):
        n = k * 251
        return {'op': 'recv', 'host': h, 'name': 'UseCircuitCode', 'rel': rnd.random() < 0.5, 'seq': str(n + 3), 'acks': [str(x) for x in q], 'ids': [],
                'valid': True, 'may': True, 'bad': ''}
    out = []
    for n in (40, 99, 130, 257, 300):
        ops = [s(h, rnd.choice([1, 2, 3])) for h in ['A'] * n + ['B'] * (n // 3)]
        ops += [rv('A', rnd.sample(range(1, n + 1), min(n, 60)), 1), {'op': 'flush'}, rv('B', [1, 2], 2), rv('A', rnd.sample(range(1, n + 1), min(n, 30)), 3),
                s('A', 1), {'op': 'flush'}, {'op': 'flush'}, {'op': 'flush'}]
        out.append(ops)
    for n in (7, 40, 130, 260):
        out.append([s('A', n), s('B', n + 1), s('A', 1)] + [{'op': 'flush'} for _ in range(n // 2)] + [rv('A', [2], 1)] + [{'op': 'flush'} for _ in range(n)])
    return out


def check(ctx, prop=None):
    p = prop or ctx.prop
    r = ctx.rnd
    scns = []
    for v in VOCABS[p]:
        depth = ctx.pick(5, 6)
        got = ctx.mc('MC_Net', {'Depth': depth}, INV, env={'VF_OPS': v}, label=v)
        got = drop_prefixes(got)
        got = sample_list(r, got, ctx.pick(700, 12000) // len(VOCABS[p]))
        for ops in got:
            if r.random() < 0.5:
                ops = remap(r, ops)
            scns.append({'cfg': cfg(), 'ops': finish_ops(r, ops)})
    for i in range(ctx.pick(250, 4000)):
        hosts = r.choice([['A', 'B'], ['A', 'B', 'C'], ['A', 'C', 'D'], ['A', 'B', 'C', 'D'], ['C', 'D', 'E'], ['A', 'F', 'G']])
        c = cfg(defer=r.random() < 0.6, hp=(r.random() < 0.85), hosts=hosts, quiet=r.random() < 0.8)
        scns.append({'cfg': c, 'ops': finish_ops(r, Walk(r, p, r.randrange(5, ctx.pick(24, 60)), hosts).ops())})
    if p in ('C03', 'C04'):
        for ops in bulk(r, p):
            c = cfg(defer=r.random() < 0.5)
            scns.append({'cfg': c, 'ops': finish_ops(r, ops)})
    if p in ('C02', 'C04'):
        for n in (63, 64, 127, 128, 129, 200, 254, 255):
            for name in ('UseCircuitCode', 'PacketAck'):
                ops = [{'op': 'send', 'host': h, 'name': 'ChatFromViewer', 'rel': True, 'invalid': False, 'retries': 0}
                       for h in ['A'] * (n + 2) + ['B'] * 2]
                ids = [str(i) for i in range(1, n + 1)]
                ids = ids[::-1] if r.random() < 0.5 else ids
                ops.append({'op': 'recv', 'host': 'A', 'name': name, 'rel': True, 'seq': '77', 'acks': ids if name != 'PacketAck' else [],
                            'ids': ids if name == 'PacketAck' else [], 'valid': True, 'may': True, 'bad': ''})
                ops.append({'op': 'flush'})
                scns.append({'cfg': cfg(defer=r.random() < 0.5), 'ops': finish_ops(r, ops)})
        for n, k in ((255, 1), (255, 60), (250, 255), (130, 130), (20, 3), (3, 20)):    # one datagram that acknowledges in both ways
            ops = [{'op': 'send', 'host': h, 'name': 'ChatFromViewer', 'rel': True, 'invalid': False, 'retries': 0}
                   for h in ['A'] * (n + k + 2) + ['B'] * 2]
            ids = [str(i) for i in range(1, n + k + 1)]
            if r.random() < 0.5:
                r.shuffle(ids)
            ops.append({'op': 'recv', 'host': 'A', 'name': 'PacketAck', 'rel': True, 'seq': '77', 'acks': ids[n:], 'ids': ids[:n], 'valid': True, 'may': True, 'bad': ''})
            ops.append({'op': 'flush'})
            scns.append({'cfg': cfg(defer=r.random() < 0.5), 'ops': finish_ops(r, ops)})
    if p == 'C25':
        for ops in resends(r):
            scns.append({'cfg': cfg(), 'ops': finish_ops(r, ops)})
    if p in ('C01', 'C02', 'C25', 'C05'):
        for ops in wide(r, p, ctx.thorough):
            scns.append({'cfg': cfg(), 'ops': finish_ops(r, ops)})
    traces = ctx.drive('net', scns)
    ctx.validate('TraceNet', traces, 'Net', scns, 'net')
    if p == 'C15':
        fam_codec.check_barred(ctx)
    ctx.assumptions += ['datagrams are built and read by an independent reader of the message template',
                        'the dispatcher is driven through its public calls with a recording UDP client']
