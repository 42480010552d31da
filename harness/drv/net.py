"""Drives a real UDPDispatcher (circuits, serializer, deserializer, message handler)."""
import os
import sys
import json
import common
import wire

NAMES = ['PacketAck', 'StartPingCheck', 'UseCircuitCode', 'RequestMultipleObjects', 'OpenCircuit',
         'ChatFromViewer', 'StartGroupProposal', 'RegionHandshakeReply', 'AddCircuitCode']
BARRED = ['StartGroupProposal']
IDX = common.small_data(NAMES, BARRED, os.path.dirname(sys.argv[2]))

from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.message.message import Message, Block
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.settings import Settings
from pyogp.lib.base.datatypes import UUID

# host keys: same address with other ports, same port with other addresses, string and number ports
ADDR = {'A': ('10.0.0.1', 9000), 'B': ('10.0.0.1', 9001), 'C': ('10.0.0.2', 9000), 'D': ('10.0.0.22', 900), 'E': ('10.0.0.2', 2900),
        'F': ('10.0.0.11', 9000), 'G': ('10.0.0.1', 90),
        'N1': (None, 9000), 'N2': ('10.0.0.1', None), 'N3': (0, 9000), 'N4': ('10.0.0.1', 0)}
KEY = dict([(v, k) for (k, v) in ADDR.items()])
U0 = UUID('00000000-0000-0000-0000-000000000000')


class Client(object):
    """stands in for the network"""

    def __init__(self):
        self.sent = []
        self.sender = Host((None, None))

    def start_udp_connection(self):
        return 'socket'

    def get_sender(self):
        return self.sender

    def send_packet(self, sock, buf, host):
        if buf is None:
            raise Exception('No data specified')
        self.sent.append((host.ip, host.port, str(buf)))

    def receive_packet(self, sock):
        return '', 0


def make(name, v):
    """a message carrying the token v; v < 0: one that cannot be encoded"""
    if name == 'StartPingCheck':
        if v < 0:
            return Message('StartPingCheck', Block('PingID', PingID=1))
        return Message('StartPingCheck', Block('PingID', PingID=v % 256, OldestUnacked=v))
    if name == 'UseCircuitCode':
        if v < 0:
            return Message('UseCircuitCode')
        return Message('UseCircuitCode', Block('CircuitCode', Code=v, SessionID=U0, ID=U0))
    if name == 'AddCircuitCode':
        if v < 0:
            return Message('AddCircuitCode')
        return Message('AddCircuitCode', Block('CircuitCode', Code=v, SessionID=U0, AgentID=U0))
    if name == 'RequestMultipleObjects':
        bl = [Block('ObjectData', CacheMissType=i, ID=v) for i in range(1 + v % 3)]
        if v < 0:
            return Message(name, Block('AgentData', AgentID=None, SessionID=U0), bl)
        return Message(name, Block('AgentData', AgentID=U0, SessionID=U0), bl)
    if name == 'OpenCircuit':
        return Message(name, Block('CircuitInfo', IP=wire.b2s(wire.be(max(v, 0), 4)), Port=v < 0 and 'x' or 1))
    if name == 'ChatFromViewer':
        return Message(name, Block('AgentData', AgentID=U0, SessionID=U0),
                       Block('ChatData', Message='token', Type=1, Channel=v < 0 and 'x' or v))
    if name == 'RegionHandshakeReply':
        return Message(name, Block('AgentData', AgentID=U0, SessionID=U0), Block('RegionInfo', Flags=v < 0 and 'x' or v))
    if name == 'StartGroupProposal':
        return Message(name, Block('AgentData', AgentID=U0, SessionID=U0),
                       Block('ProposalData', GroupID=U0, Quorum=v, Majority=0.0, Duration=1, ProposalText='x'))
    if name == 'PacketAck':
        return Message(name, Block('Packets', ID=v))
    raise Exception(name)


def blocks(name, v, ids=()):
    z = [0] * 16
    if name == 'StartPingCheck':
        return {'PingID': [{'PingID': v % 256, 'OldestUnacked': v}]}
    if name == 'UseCircuitCode':
        return {'CircuitCode': [{'Code': v, 'SessionID': z, 'ID': z}]}
    if name == 'AddCircuitCode':
        return {'CircuitCode': [{'Code': v, 'SessionID': z, 'AgentID': z}]}
    if name == 'RequestMultipleObjects':
        return {'AgentData': [{'AgentID': z, 'SessionID': z}],
                'ObjectData': [{'CacheMissType': i, 'ID': v} for i in range(1 + v % 3)]}
    if name == 'OpenCircuit':
        return {'CircuitInfo': [{'IP': wire.be(v, 4), 'Port': 1}]}
    if name == 'ChatFromViewer':
        return {'AgentData': [{'AgentID': z, 'SessionID': z}],
                'ChatData': [{'Message': wire.s2b('token\0'), 'Type': 1, 'Channel': v}]}
    if name == 'RegionHandshakeReply':
        return {'AgentData': [{'AgentID': z, 'SessionID': z}], 'RegionInfo': [{'Flags': v}]}
    if name == 'StartGroupProposal':
        return {'AgentData': [{'AgentID': z, 'SessionID': z}],
                'ProposalData': [{'GroupID': z, 'Quorum': v, 'Majority': z[:4], 'Duration': 1, 'ProposalText': [120, 0]}]}
    if name == 'PacketAck':
        return {'Packets': [{'ID': int(i)} for i in ids]}
    raise Exception(name)


TOKEN = {'StartPingCheck': ('PingID', 'OldestUnacked'), 'UseCircuitCode': ('CircuitCode', 'Code'), 'AddCircuitCode': ('CircuitCode', 'Code'),
         'RequestMultipleObjects': ('ObjectData', 'ID'), 'ChatFromViewer': ('ChatData', 'Channel'),
         'RegionHandshakeReply': ('RegionInfo', 'Flags'), 'StartGroupProposal': ('ProposalData', 'Quorum')}


def wire_token(name, bl):
    d = dict(bl)
    if name == 'OpenCircuit':
        return istr(wire.from_be(d['CircuitInfo'][0]['IP']))
    if name in TOKEN:
        b, f = TOKEN[name]
        vs = [i[f] for i in d[b]]
        if name == 'RequestMultipleObjects' and len(vs) != 1 + vs[0] % 3:
            return 'count'
        if [x for x in vs if x != vs[0]]:
            return 'mixed'
        return istr(vs[0])
    return '0'


def msg_token(m):
    """the token of a decoded message, or a description of what is wrong with it"""
    try:
        name = m.name
        if name == 'OpenCircuit':
            x = m.blocks['CircuitInfo'][0].vars['IP'].data
            return istr(wire.from_be(wire.s2b(x)))
        if name in TOKEN:
            b, f = TOKEN[name]
            vs = [i.vars[f].data for i in m.blocks[b]]
            if name == 'RequestMultipleObjects' and len(vs) != 1 + vs[0] % 3:
                return 'count'
            if [x for x in vs if x != vs[0]]:
                return 'mixed'
            return istr(vs[0])
        return '0'
    except Exception, e:
        return 'bad:' + common.errname(e)


istr = common.istr


def read_out(ip, port, buf):
    d = wire.s2b(buf)
    r = {'dst': KEY.get((ip, port), '?'), 'seq': -1, 'rel': False, 'res': False, 'ackf': False, 'zero': False,
         'tr': 'none', 'acks': [], 'ids': [], 'name': '?', 'v': '?', 'ok': False}
    if len(d) >= 6:
        r['seq'] = common.small(wire.from_be(d[1:5]))
        r['rel'] = bool(d[0] & 0x40)
        r['res'] = bool(d[0] & 0x20)
        r['ackf'] = bool(d[0] & 0x10)
        r['zero'] = bool(d[0] & 0x80)
    try:
        m = wire.read(IDX, d)
        r['ok'] = True
        r['name'] = m['name']
        r['tr'] = m['tr']
        r['acks'] = [istr(x) for x in m['acks']]
        if m['name'] == 'PacketAck':
            r['ids'] = [istr(x['ID']) for x in dict(m['blocks'])['Packets']]
        r['v'] = wire_token(m['name'], m['blocks'])
    except wire.Bad:
        pass
    return r


class Raised(Exception):
    pass


class OtherRaised(KeyError):
    pass


class World(object):

    def __init__(self, cfg):
        self.cfg = cfg
        self.settings = common.settings(cfg.get('quiet', True))
        self.settings.ENABLE_DEFERRED_PACKET_PARSING = cfg.get('defer', True)
        self.settings.HANDLE_PACKETS = cfg.get('hp', True)
        self.client = Client()
        bare = self.settings.HANDLE_PACKETS and common.bare() or 0
        if bare == 2:
            self.d = UDPDispatcher(self.client)
            common.like(self.d.settings, self.settings)
            self.settings = self.d.settings
        elif bare == 1:
            self.d = UDPDispatcher(self.client, self.settings)
        else:
            self.d = UDPDispatcher(self.client, self.settings, MessageHandler(self.settings))
        self.handler = self.d.message_handler
        self.dels = []
        self.given = []
        self.objs = {}
        self.subs = {}
        self.hosts = {}

    def host(self, key, fresh):
        if fresh or key not in self.hosts:
            self.hosts[key] = Host(ADDR[key])
        return self.hosts[key]

    def state(self, ev):
        outst, cnt = {}, {}
        for k in self.cfg['hosts']:
            c = self.d.circuit_manager.get_circuit(Host(ADDR[k]))
            if c is None:
                outst[k], cnt[k] = [], 0
            else:
                outst[k] = sorted([istr(x) for x in c.unacked_packets.keys()])
                cnt[k] = common.small(c.unack_packet_count)
        ev['outst'], ev['cnt'] = outst, cnt
        # each address has one circuit, its own
        cm = self.d.circuit_manager
        ev['alive'] = dict([(k, bool(cm.is_circuit_alive(Host(ADDR[k])))) for k in self.cfg['hosts']])
        have = [k for k in self.cfg['hosts'] if cm.get_circuit(Host(ADDR[k])) is not None]
        own = [self.d.find_circuit(Host(ADDR[k])) for k in have]
        ev['one'] = (len(set([id(c) for c in own])) == len(own)
                     and not [k for (k, c) in zip(have, own) if cm.get_circuit(Host(ADDR[k])) is not c])
        ev['kept'] = not [1 for m, x in self.given if self.content(m) != x]
        left = self.d.has_unacked()
        ev['left'] = bool(left)
        ev['out'] = [read_out(*x) for x in self.client.sent]
        ev['dels'] = self.dels
        self.client.sent = []
        self.dels = []

    def many(self, op, ev):
        """many plain messages to one host; what was sent is summed up"""
        h = self.host(op['host'], False)
        ev['first'], ev['final'], ev['n'], ev['gaps'], ev['count'] = 0, 0, op['n'], 0, 0
        ms = [make(x, 7) for x in ('StartPingCheck', 'ChatFromViewer')]
        last = None
        for i in xrange(op['n']):
            self.d.send_message(ms[i % 2], op.get('fresh') and Host(ADDR[op['host']]) or h)
            for s in self.client.sent:
                ip, port, b = s
                n = wire.from_be([ord(c) for c in b[1:5]])
                if KEY.get((ip, port)) != op['host'] or ord(b[0]) & 0x70:
                    ev['gaps'] += 1
                if last is None:
                    ev['first'] = common.small(n)
                elif n != last + 1:
                    ev['gaps'] += 1
                last = n
                ev['count'] += 1
            self.client.sent = []
        ev['final'] = common.small(last or 0)

    def content(self, m):
        try:
            return (m.name, istr(m.packet_id), msg_token(m), bool(m.reliable), [istr(a) for a in m.acks])
        except Exception, e:
            return common.errname(e)

    def keep(self, m):
        self.given = self.given[-6:] + [(m, self.content(m))]

    def subscriber(self, sid, raises):
        def cb(msg):
            if self.receiving:
                self.keep(msg)
            self.dels.append({'sub': sid, 'name': common.text(msg.name), 'seq': istr(msg.packet_id), 'v': msg_token(msg)})
            if raises == 'key':
                raise OtherRaised('handler')
            if raises:
                raise Raised('handler')
        return cb

    def step(self, op):
        ev = dict(op)
        ev['err'] = ''
        ev['ret'] = ''
        ev['rv'] = ''
        ev['rseq'] = ''
        ev['rrel'] = False
        ev['racks'] = []
        k = op['op']
        self.receiving = k == 'recv'
        try:
            if k == 'send':
                key = op.get('obj') and (op['obj'], op['name']) or None
                if key and key in self.objs:
                    m = self.objs[key]
                    ev['v'] = self.objs[(key, 'v')]
                else:
                    m = make(op['name'], int(op['v']))
                    if key:
                        self.objs[key] = m
                        self.objs[(key, 'v')] = op['v']
                h = self.host(op['host'], op.get('fresh'))
                if op['rel']:
                    r = self.d.send_reliable(m, h, op.get('retries', 0))
                else:
                    r = self.d.send_message(m, h)
                ev['ret'] = r is not None and 'sent' or ''
            elif k == 'recv':
                r = self.d.receive_check(self.host(op['host'], op.get('fresh')), wire.b2s(op['bytes']), len(op['bytes']))
                if r is not None:
                    self.keep(r)
                    ev['ret'] = common.text(r.name)
                    ev['rv'] = msg_token(r)
                    ev['rseq'] = istr(r.packet_id)
                    ev['rrel'] = bool(r.reliable)
                    ev['racks'] = [istr(x) for x in r.acks]
            elif k == 'many':
                self.many(op, ev)
            elif k == 'burn':
                c = self.d.find_circuit(self.host(op['host'], False))
                ev['first'] = common.small(c.next_packet_id())
                nxt = c.next_packet_id
                for i in xrange(op['n'] - 2):
                    nxt()
                ev['final'] = common.small(nxt())
            elif k == 'flush':
                self.d.process_acks()
            elif k == 'trust':
                self.d.find_circuit(self.host(op['host'], op.get('fresh'))).is_trusted = op['val']
            elif k == 'forget':
                self.d.circuit_manager.remove_circuit_data(self.host(op['host'], op.get('fresh')))
            elif k == 'reg':
                self.handler.register(op['name'])
            elif k == 'sub':
                cb = self.subscriber(op['sub'], op['raises'])
                self.subs[op['sub']] = (op['name'], cb)
                self.handler.register(op['name']).subscribe(cb)
            elif k == 'unsub':
                n, cb = self.subs[op['sub']]
                self.handler.register(n).unsubscribe(cb)
            elif k == 'set':
                if op['what'] == 'defer':
                    self.settings.ENABLE_DEFERRED_PACKET_PARSING = op['val']
                else:
                    self.settings.HANDLE_PACKETS = op['val']
            else:
                raise SystemError(k)
        except SystemError:
            raise
        except Exception, e:
            ev['err'] = common.errname(e)
        self.state(ev)
        if 'bytes' in ev:
            del ev['bytes']
        return ev


def compile_dg(op):
    """adds the bytes of the datagram to a recv op"""
    if 'bytes' in op:
        return op
    op = dict(op)
    name = op['name']
    flags = (op['rel'] and 0x40 or 0) | (op.get('res') and 0x20 or 0)
    seq = int(op['seq'])
    kind = op.get('bad', '')
    b = wire.body(IDX[name], blocks(name, int(op['v']), op['ids']))
    if kind == 'trunc':
        b = b[:-1]
    elif kind == 'unknown':
        b = [255, 255, 250, 7] + b[1:]
    elif kind == 'cut':
        b = b[:max(1, len(b) // 2)]
    d = wire.datagram(flags, seq, b, [int(a) for a in op['acks']], extra=op.get('extra', []), zero=bool(op.get('zero')),
                      ackflag=bool(op.get('ackf')))
    if kind == 'short':
        d = d[:6]
    elif kind == 'tiny':
        d = d[:3]
    elif kind == 'acks':          # claims more appended numbers than there are bytes
        d = d[:6] + [d[6]] + [200]
        d[0] |= 0x10
    elif kind == 'one':
        d = d[:1]
    op['bytes'] = d
    op['valid'] = kind == ''
    return op


def run(scn):
    w = World(scn['cfg'])
    evs = []
    for op in scn['ops']:
        if op['op'] == 'recv':
            op = compile_dg(op)
        evs.append(w.step(op))
    return {'id': scn['id'], 'cfg': scn['cfg'], 'ev': evs}


if __name__ == '__main__':
    common.main(run)
