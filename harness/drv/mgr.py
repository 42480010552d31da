"""drives a real MessageManager: its two loops run as coroutines whose turns the scenario decides

cfg: {eq: has an event queue, eqon: it is enabled, yr / ys / yp: receiving / sending / posting yields, hout: failing handlers of
outgoing messages, auto: started by the constructor, defer}
"""
import common
import wire
import net
from net import ADDR, KEY, make, read_out, compile_dg
from eventlet import api
from pyogp.lib.base.message_manager import MessageManager
from pyogp.lib.base.event_queue import EventQueueClient
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.network.net import NetUDPClient
from pyogp.lib.base.settings import Settings

sched = api.sched
NAME = {'plain': 'StartPingCheck', 'raise': 'UseCircuitCode', 'enq': 'ChatFromViewer', 'now': 'RequestMultipleObjects', 'stop': 'OpenCircuit'}
FAULTS = ['trunc', 'unknown', 'cut', 'short', 'tiny', 'acks', 'one']
ERRORS = [Exception, KeyError, ValueError, IOError, AttributeError, AssertionError, StopIteration, RuntimeError, TypeError, NotImplementedError]
W = [None]


class Old:
    pass


def start_udp_connection(self):
    return 'socket'


def receive_packet(self, sock):
    return W[0].receive()


def get_sender(self):
    return W[0].sender


def send_packet(self, sock, buf, host):
    W[0].sent(buf, host)


for _f in (start_udp_connection, receive_packet, get_sender, send_packet):
    setattr(NetUDPClient, _f.__name__, _f)


class Cap(object):
    name = 'EventQueueGet'
    public_url = 'http://127.0.0.1/cap/x'

    def __init__(self, w):
        self.w = w

    def POST(self, payload, custom_headers={}):
        return self.w.post(payload)


class World(object):

    def __init__(self, cfg):
        W[0] = self
        self.cfg = cfg
        self.ev = []
        self.inbox = []
        self.sender = Host((None, None))
        self.host_key = ''
        self.tok = 100
        self.seqs = {}
        self.role = {}
        self.known = []
        self.reported = {}
        self.last = 0
        self.res = 'id'
        self.target = None
        sched.reset()
        sched.chooser = self.choose
        sched.on_spawn = self.known.append
        s = common.settings()
        s.ENABLE_DEFERRED_PACKET_PARSING = cfg.get('defer', True)
        s.ENABLE_REGION_EVENT_QUEUE = cfg['eqon']
        s.HANDLE_OUTGOING_PACKETS = bool(cfg.get('hout'))
        self.settings = s
        self.made = []
        self.nerr = cfg.get('nerr', 0)
        self.mm = None
        if not cfg.get('auto'):
            self.create(False)

    def create(self, start):
        caps = self.cfg['eq'] and {'EventQueueGet': Cap(self)} or {}
        # (one that starts at once finds datagrams waiting, its handler has to be there before)
        bare = not start and common.bare() or 0
        kw = {}
        if bare < 2:
            kw['settings'] = self.settings
        if not bare:
            kw['message_handler'] = self.subscribe(MessageHandler(self.settings))
        if caps or not bare:
            kw['capabilities'] = caps
        self.mm = MessageManager(Host(ADDR['A']), start_monitors=start, **kw)
        if bare:
            common.like(self.mm.settings, self.settings)
            self.subscribe(self.mm.message_handler)
        if common.VARIANT is not None and self.mm.event_queue is not None:
            self.mm.event_queue.settings = self.settings

    def subscribe(self, mh):
        for k in NAME:
            mh.register(NAME[k]).subscribe(self.handler(k))
        if self.cfg.get('hout'):
            for n in ('RegionHandshakeReply', 'PacketAck'):
                mh.register(n).subscribe(self.failing)
        return mh

    # ---- what the code calls
    def failing(self, *args):
        self.nerr += 1
        raise ERRORS[self.nerr % len(ERRORS)]('handler')

    def handler(self, kind):
        def cb(m):
            self.ev.append({'op': 'hand', 'host': self.host_key, 'seq': common.small(m.packet_id)})
            if kind == 'raise':
                self.failing()
            if kind in ('enq', 'now'):
                self.enq(kind == 'now', kind == 'now', True, 'RegionHandshakeReply')
            if kind == 'stop':
                self.stop()
        return cb

    def who(self, r):
        """the running coroutine turns out to be the loop r"""
        c = sched.current
        if c is not sched.main and self.role.get(id(c)) is None:
            self.role[id(c)] = r
            self.ev.append({'op': 'enter', 'who': r})

    def receive(self):
        self.who('L')
        self.ev.append({'op': 'call'})
        if self.cfg['yr']:
            api.sleep(0)
        if not self.inbox:
            return '', 0
        d = self.inbox.pop(0)
        self.host_key = d['host']
        self.sender = Host(ADDR[d['host']])
        self.ev.append({'op': 'got', 'host': d['host'], 'seq': int(d['seq']), 'ok': d['valid'], 'rel': d['rel'], 'sub': True})
        b = wire.b2s(d['bytes'])
        return b, len(b)

    def sent(self, buf, host):
        r = read_out(host.ip, host.port, buf)
        try:
            v = int(r['v'])
        except ValueError:
            v = -1
        self.ev.append({'op': 'sent', 'dst': r['dst'], 'name': r['name'], 'v': v, 'rel': r['rel'], 'res': r['res'], 'acks': [int(x) for x in r['acks']],
                        'ids': [int(x) for x in r['ids']]})
        if self.cfg['ys'] and sched.current is not sched.main:
            api.sleep(0)

    def post(self, payload):
        self.who('E')
        a = payload.get('ack', 0)
        self.ev.append({'op': 'poll', 'done': bool(payload.get('done')), 'ack': common.small(a)})
        if self.cfg['yp']:
            api.sleep(0)
        if self.res == 'id':
            self.last += 1
            return {'id': self.last, 'events': []}
        if self.res == 'none':
            return None
        self.failing()

    # ---- what the application does
    def enq(self, rel, now, ok, name, call=False, again=0):
        if again and len(self.made) >= again:
            m, v, ok = self.made[-again]        # the same message once more
        else:
            self.tok += 1
            v = self.tok
            m = make(name, ok and v or -v)
        self.made.append((m, v, ok))
        e = {'op': 'enq', 'v': v, 'rel': rel, 'now': now, 'ok': ok, 'err': ''}
        self.ev.append(e)
        try:
            if now:
                self.mm.enqueue_message(call and (lambda: m) or m, rel, True)
            elif rel:
                self.mm.enqueue_message(call and (lambda: m) or m, reliable=True)
            else:
                self.mm.enqueue_message(call and (lambda: m) or m)
        except Exception, x:
            e['err'] = common.errname(x)

    def stop(self):
        e = {'op': 'stop', 'err': ''}
        self.ev.append(e)
        try:
            self.mm.stop_monitors()
        except Exception, x:
            e['err'] = common.errname(x)

    def start(self):
        e = {'op': 'start', 'err': ''}
        self.ev.append(e)
        try:
            if self.mm is None:
                self.create(True)
            else:
                self.mm.start_monitors()
        except Exception, x:
            e['err'] = common.errname(x)

    # ---- turns
    def choose(self, s):
        t, self.target = self.target, None
        if t is not None and t in s.waiting:
            return t
        return s.main

    def find(self, r):
        for c in sched.waiting:
            if c is not sched.main and self.role_of(c) == r:
                return c
        return None

    def role_of(self, c):
        if id(c) in self.role:
            return self.role[id(c)]
        x = getattr(c.fn, 'im_self', None)
        if isinstance(x, MessageManager):
            return 'L'
        if isinstance(x, EventQueueClient):
            return 'E'
        return None

    def turn(self, c):
        if id(c) not in self.role:
            r = self.role_of(c)
            if r is not None:
                self.role[id(c)] = r
                self.ev.append({'op': 'enter', 'who': r})
        self.target = c
        sched.sleep(0)
        for c in self.known:
            if c.dead and id(c) not in self.reported:
                self.reported[id(c)] = 1
                if self.role.get(id(c)):
                    self.ev.append({'op': 'gone', 'who': self.role[id(c)], 'err': c.error and common.errname(c.error[1]) or ''})

    def fair(self, n):
        for i in range(n):
            for c in list(sched.waiting):
                if c is not sched.main:
                    self.turn(c)

    def step(self, op):
        k = op['op']
        if k == 'start':
            self.start()
        elif k == 'stop':
            self.stop()
        elif k == 'enq':
            self.enq(op['rel'], op['now'], op['ok'], op.get('name', 'RegionHandshakeReply'), op.get('call', False), op.get('again', 0))
        elif k == 'arrive':
            h = op['host']
            self.seqs[h] = self.seqs.get(h, 0) + 1
            d = {'op': 'recv', 'host': h, 'name': NAME.get(op['kind'], 'StartPingCheck'), 'v': 1, 'seq': self.seqs[h], 'rel': op['rel'], 'acks': [], 'ids': [],
                 'bad': op['kind'] == 'bad' and op.get('fault', 'trunc') or '', 'zero': op.get('zero', False)}
            self.inbox.append(compile_dg(d))
        elif k == 'run':
            self.res = op.get('res', self.res)
            c = self.find(op['who'])
            if c is not None:
                self.turn(c)

    def finish(self):
        n = 30 + 2 * len(self.inbox)
        if not [e for e in self.ev if e['op'] == 'stop']:
            self.ev.append({'op': 'fair'})
            self.res = 'id'
            self.fair(n)
            if not [e for e in self.ev if e['op'] == 'stop']:
                self.ev.append({'op': 'live'})
                self.stop()
        self.fair(n)
        alive = len([c for c in sched.waiting if c is not sched.main])
        self.ev.append({'op': 'end', 'alive': alive})


def run(scn):
    w = World(scn['cfg'])
    for op in scn['ops']:
        w.step(op)
    w.finish()
    sched.kill_all()
    return {'id': scn['id'], 'cfg': {'eq': scn['cfg']['eq'], 'eqon': scn['cfg']['eqon']}, 'ev': w.ev}


if __name__ == '__main__':
    common.main(run)
