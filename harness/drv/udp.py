"""drives NetUDPClient, alone and under a UDPDispatcher, over a simulated socket or real ones on the loopback network

cfg: {real}
ops: {op: arrive, from, n, fill, rel, seq}, {op: recv, via}, {op: send, via, i, to, n, fill}, {op: fault, kind}, {op: calm}, {op: flush}
"""
import os
import sys
import errno
import hashlib
import socket
import common
import wire

IDX = common.small_data(['PacketAck', 'StartPingCheck'], [], os.path.dirname(sys.argv[2]))

from pyogp.lib.base.network.net import NetUDPClient
from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.message.message import Message, Block
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.settings import Settings

FAKE = {'A': ('10.0.0.1', 9000), 'B': ('10.0.0.1', 9001), 'C': ('10.0.0.2', 9000)}


def token(data):
    """of the bytes of a datagram"""
    try:
        if len(data) == 0:
            return ''
        return hashlib.sha1(str(data)).hexdigest()[:12]
    except Exception, e:
        return '?' + common.errname(e)


def fill(n, seed):
    """n bytes, all different from those of other seeds"""
    if n == 0:
        return ''
    unit = ''.join([chr((seed * 37 + i * 101 + (i >> 3)) & 255) for i in range(min(n, 251))])
    s = (unit * (n // len(unit) + 1))[:n]
    s = s[:-1] + chr((seed * 11 + n) & 255)
    return chr(ord(s[0]) & 0xbf) + s[1:]      # not reliable, should a dispatcher read it


# follows what a client has sent, to tell when all of it is there
FENCE = '\xffthat is all\xff'


class FakeSocket(object):
    """a datagram socket: what does not fit into the buffer of the caller is lost"""

    def __init__(self):
        self.inq = []
        self.out = []
        self.fault = None

    def recvfrom(self, size, flags=0):
        if self.fault == 'timeout' or (self.fault is None and not self.inq):
            raise socket.timeout('timed out')
        if self.fault is not None:
            raise socket.error(self.fault, 'fault')
        data, addr = self.inq.pop(0)
        return data[:size], addr

    def sendto(self, data, *args):
        self.out.append((args[-1], data))
        return len(data)

    def settimeout(self, t):
        pass

    def setblocking(self, b):
        pass

    def bind(self, addr):
        pass

    def fileno(self):
        return 3

    def close(self):
        pass

    def setsockopt(self, *a):
        pass

    def gettimeout(self):
        return None


class Real(object):
    """sockets shared by the scenarios: one per peer"""
    peers = {}

    @staticmethod
    def get():
        if not Real.peers:
            a = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            a.bind(('127.0.0.1', 0))
            b = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            b.bind(('127.0.0.1', 0))
            c = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            try:
                c.bind(('127.0.0.2', a.getsockname()[1]))
            except Exception:
                c.bind(('127.0.0.2', 0))
            Real.peers = {'A': a, 'B': b, 'C': c}
        return Real.peers


class World(object):

    def __init__(self, cfg):
        self.real = cfg.get('real')
        world = self

        class Client(NetUDPClient):
            def start_udp_connection(self):
                if world.real:
                    return NetUDPClient.start_udp_connection(self)
                return FakeSocket()

        self.client = Client()
        s = Settings(True)
        s.ENABLE_DEFERRED_PACKET_PARSING = False
        if common.bare() == 2:
            self.d = UDPDispatcher(self.client)
            common.like(self.d.settings, s)
        elif common.bare() == 1:
            self.d = UDPDispatcher(self.client, s)
        else:
            self.d = UDPDispatcher(self.client, s, MessageHandler(s))
        self.sock = self.d.socket
        if self.real:
            self.addr = dict([(k, (str(p.getsockname()[0]), p.getsockname()[1])) for k, p in Real.get().items()])
            self.sock.bind(('127.0.0.1', 0))
            self.sock.settimeout(2)
        else:
            self.addr = dict(FAKE)
        self.key = dict([(v, k) for k, v in self.addr.items()])
        self.told = []
        self.waiting = 0

    def peer(self, host):
        try:
            return self.key.get((str(host.ip), host.port), '?')
        except Exception, e:
            return '?' + common.errname(e)

    def look(self, ev):
        ev['seen'] = [self.peer(h) for h in self.told]
        circs = []
        for k in sorted(self.addr):
            c = self.d.circuit_manager.get_circuit(Host(self.addr[k]))
            if c is not None:
                circs.append({'by': k, 'host': self.peer(c.host)})
        ev['circs'] = circs
        return ev

    def left(self):
        """what has left since the last look: (peer, bytes)"""
        if not self.real:
            out = [(self.key.get((str(a[0]), a[1]), '?'), str(d)) for a, d in self.sock.out]
            self.sock.out = []
            return out
        out = []
        self.sock.settimeout(20)
        for k, p in sorted(Real.get().items()):
            p.settimeout(20)
            self.sock.sendto(FENCE, p.getsockname())
            while True:
                d = p.recvfrom(65536)[0]
                if d == FENCE:
                    break
                out.append((k, d))
        return out

    def read(self, k, data, plain):
        r = {'to': k, 'd': token(data), 'ids': []}
        if plain:
            return r
        try:
            m = wire.read(IDX, wire.s2b(data))
            r['ids'] = [common.istr(x) for x in m['acks']]
            if m['name'] == 'PacketAck':
                r['ids'] += [common.istr(x['ID']) for x in dict(m['blocks'])['Packets']]
            else:
                r['d'] = 'm' + common.istr(dict(m['blocks'])['PingID'][0]['OldestUnacked'])
        except wire.Bad:
            pass
        return r

    def step(self, op):
        k = op['op']
        ev = {'op': k}
        if k == 'arrive':
            if op['rel']:
                b = wire.body(IDX['StartPingCheck'], {'PingID': [{'PingID': 1, 'OldestUnacked': int(op['seq'])}]})
                data = wire.b2s(wire.datagram(0x40, int(op['seq']), b, []))
            else:
                data = fill(op['n'], op['fill'])
            ev.update({'from': op['from'], 'd': token(data), 'n': len(data), 'rel': op['rel'], 'seq': op['seq']})
            if self.real:
                p = Real.get()[op['from']]
                p.settimeout(20)
                p.sendto(data, self.sock.getsockname())
                self.waiting += 1
            else:
                self.sock.inq.append((data, self.addr[op['from']]))
        elif k == 'fault':
            self.sock.fault = op['kind']
        elif k == 'calm':
            self.sock.fault = None
        elif k == 'recv':
            ev.update({'via': op['via'], 'd': '', 'n': 0, 'from': '', 'err': ''})
            got = self.real and self.waiting > 0 or not self.real and self.sock.fault is None and len(self.sock.inq) > 0
            if self.real:
                self.sock.settimeout(got and 20 or 0.02)
                if got:
                    self.waiting -= 1
            try:
                data, n = self.client.receive_packet(self.sock)
                ev['d'], ev['n'] = token(data), common.small(n)
                host = self.client.get_sender()
                if got:
                    ev['from'] = self.peer(host)
                    self.told.append(host)
            except Exception, e:
                ev['err'] = common.errname(e)
            if not ev['err'] and op['via'] == 'dispatcher':
                try:
                    self.d.receive_check(host, data, n)
                except Exception:
                    pass        # what cannot be read is no concern of this one
        elif k == 'send':
            ev.update({'via': op['via'], 'to': op['to'], 'err': ''})
            if self.real:
                self.sock.settimeout(20)
            host = 0 < op['i'] <= len(self.told) and self.told[op['i'] - 1] or Host(self.addr[op['to']])
            try:
                if op['via'] == 'dispatcher':
                    ev['d'] = 'm' + common.istr(op['fill'])
                    self.d.send_message(Message('StartPingCheck', Block('PingID', PingID=1, OldestUnacked=op['fill'])), host)
                else:
                    data = fill(op['n'], op['fill'])
                    ev['d'] = token(data)
                    self.client.send_packet(self.sock, data, host)
            except Exception, e:
                ev['err'] = common.errname(e)
            ev['out'] = [self.read(p, d, op['via'] == 'client') for p, d in self.left()]
        elif k == 'flush':
            ev['err'] = ''
            if self.real:
                self.sock.settimeout(20)
            try:
                self.d.process_acks()
            except Exception, e:
                ev['err'] = common.errname(e)
            ev['out'] = [self.read(p, d, False) for p, d in self.left()]
        return self.look(ev)


def run(scn):
    w = World(scn['cfg'])
    evs = [w.step(op) for op in scn['ops']]
    if w.real:
        w.sock.close()
    return {'id': scn['id'], 'cfg': scn['cfg'], 'ev': evs}


if __name__ == '__main__':
    common.main(run)
