"""two or three real dispatchers and a network between them

cfg: {eps: [..], subs: {endpoint: [names with a handler]}, replies: [endpoints that answer a ping from the handler], defer: bool}
"""
import net
import wire
import common
from net import Client, ADDR, KEY, NAMES, make, read_out
from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.settings import Settings

AT = {'P': 'A', 'Q': 'B', 'R': 'C'}
EP = dict([(ADDR[v], k) for (k, v) in AT.items()])
ROUNDS = 9


class World(object):

    def __init__(self, cfg):
        self.cfg = cfg
        self.eps = cfg['eps']
        self.net = []        # [(record, bytes)]
        self.d, self.client = {}, {}
        for e in self.eps:
            s = Settings(True)
            s.ENABLE_DEFERRED_PACKET_PARSING = cfg['defer']
            s.HANDLE_PACKETS = True
            self.client[e] = Client()
            if common.bare() == 2:
                self.d[e] = UDPDispatcher(self.client[e])
                common.like(self.d[e].settings, s)
            elif common.bare() == 1:
                self.d[e] = UDPDispatcher(self.client[e], s)
            else:
                self.d[e] = UDPDispatcher(self.client[e], s, MessageHandler(s))
            mh = self.d[e].message_handler
            for n in cfg['subs'].get(e, []):
                mh.register(n).subscribe(lambda m: None)
            if e in cfg['replies']:
                mh.register('StartPingCheck').subscribe(self.replier(e))
        self.current = None
        self.tok = 0

    def replier(self, e):
        def cb(m):
            src = self.current
            self.tok += 1
            msg = make('ChatFromViewer', self.tok)
            if self.tok % 2:
                self.d[e].send_reliable(msg, Host(ADDR[AT[src]]), 0)
            else:
                self.d[e].send_message(msg, Host(ADDR[AT[src]]))
        return cb

    def collect(self):
        out = []
        for e in self.eps:
            for ip, port, buf in self.client[e].sent:
                r = read_out(ip, port, buf)
                d = {'src': e, 'dst': EP.get((ip, port), '?'), 'seq': r['seq'], 'rel': r['rel'], 'acks': [int(x) for x in r['acks']],
                     'ids': [int(x) for x in r['ids']], 'name': r['name']}
                out.append(d)
                self.net.append((d, wire.s2b(buf)))
            self.client[e].sent = []
        return out

    def outst(self):
        o = {}
        for e in self.eps:
            o[e] = {}
            for p in self.eps:
                c = p != e and self.d[e].circuit_manager.get_circuit(Host(ADDR[AT[p]])) or None
                o[e][p] = c is not None and sorted([common.small(x) for x in c.unacked_packets.keys()]) or []
        return o

    def step(self, op):
        ev = {'op': op['op'], 'err': '', 'tail': op.get('tail', 0),
              'dg': {'src': '', 'dst': '', 'seq': 0, 'rel': False, 'acks': [], 'ids': []}}
        k = op['op']
        try:
            if k == 'send':
                self.tok += 1
                others = [p for p in self.eps if p != op['e']]
                p = others[op.get('to', 0) % len(others)]
                ev['e'] = op['e']
                m = make(op.get('name', 'StartPingCheck'), self.tok)
                h = Host(ADDR[AT[p]])
                if op['rel']:
                    self.d[op['e']].send_reliable(m, h, op.get('retries', 0))
                else:
                    self.d[op['e']].send_message(m, h)
            elif k == 'flush':
                ev['e'] = op['e']
                self.d[op['e']].process_acks()
            elif k in ('deliver', 'drop') and self.net:
                i = (op['i'] - 1) % len(self.net)
                ev['dg'], data = self.net[i]
                if not op.get('keep'):
                    del self.net[i]
                if k == 'deliver':
                    self.current = ev['dg']['src']
                    if ev['dg']['dst'] in self.d:
                        self.d[ev['dg']['dst']].receive_check(Host(ADDR[AT[ev['dg']['src']]]), wire.b2s(data), len(data))
            elif k in ('deliver', 'drop'):
                ev['op'] = 'idle'
        except Exception, e:
            ev['err'] = common.errname(e)
        ev['out'] = self.collect()
        ev['outst'] = self.outst()
        return ev

    def settle(self, order):
        """the network delivers everything, each side flushes once a round"""
        evs = []
        tail = 0
        for r in range(ROUNDS):
            n0 = len(evs)
            k = len(self.net)
            while k and self.net:
                evs.append(self.step({'op': 'deliver', 'i': (order == 'lifo' and k or 1)}))
                k -= 1
            for e in (r % 2 and self.eps or self.eps[::-1]):
                evs.append(self.step({'op': 'flush', 'e': e}))
            if r >= ROUNDS - 3:
                tail += sum([len(x['out']) for x in evs[n0:]])
        evs.append(self.step({'op': 'settled', 'tail': tail}))
        return evs


def run(scn):
    w = World(scn['cfg'])
    evs = []
    for op in scn['ops']:
        if op['op'] == 'settle':
            evs += w.settle(op.get('order'))
        else:
            evs.append(w.step(op))
    return {'id': scn['id'], 'cfg': {'kind': 'link'}, 'ev': evs}


if __name__ == '__main__':
    common.main(run)
