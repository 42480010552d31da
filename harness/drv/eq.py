"""drives a real EventQueueClient: the scenario decides the turns of its loop and what each poll gets

cfg: {yp: posting yields, llsd: the polls go through a real Capability, as LLSD, auto: names given to the handler's register}
ops: {op: run, res: {kind, id, evs: [{name, body, exp}], var}}, {op: stop}
"""
import os
import sys
import common
TEMPLATE = ['StartPingCheck', 'RequestMultipleObjects', 'PacketAck', 'UseCircuitCode', 'ChatFromViewer']
common.small_data(TEMPLATE, (), os.path.dirname(sys.argv[2]))
from eventlet import api
from llbase import llsd
from webob import Response
from values import val, tok
from pyogp.lib.base.caps import Capability
from pyogp.lib.base.event_queue import EventQueueClient
from pyogp.lib.base.exc import HTTPError, ResourceNotFound, ResourceError, DeserializerNotFound
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.message.message import Message, Block, Variable
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.settings import Settings
import socket
try:
    from cStringIO import StringIO
except ImportError:
    from StringIO import StringIO

sched = api.sched
SUBS = ['StartPingCheck', 'RequestMultipleObjects', 'PacketAck', 'ExtraEvent', 'Raiser', 'Stopper', 'Sleeper']
ERRORS = [Exception('x'), KeyError('id'), ValueError('v'), IOError('io'), AttributeError('a'), AssertionError('s'), StopIteration('i'), RuntimeError('r'),
          TypeError('t'), ResourceNotFound('u'), ResourceError('u', 502, 'm', 'b', 'POST'), DeserializerNotFound('text/plain'), socket.error('s'),
          HTTPError(499, 'm', StringIO('b'))]
PLAIN = ['Alpha', 'Beta', 'ID', 'id', 'message', 'body', 'Name', 'self2', 'data', 'm']
URL = 'http://127.0.0.1/cap/eq'


def nm(x):
    return x.encode('utf-8')


class Rest(object):
    def __init__(self, w):
        self.w = w

    def POST(self, url, data, headers={}):
        r = self.w.post(llsd.parse(data))
        if isinstance(r, Response):
            return r
        return Response(body=llsd.format_xml(r), status='200 OK', headerlist=[('Content-Type', 'application/llsd+xml')])


class Cap(object):
    name = 'EventQueueGet'
    public_url = URL

    def __init__(self, w):
        self.w = w

    def POST(self, payload, custom_headers={}):
        return self.w.post(payload)


class World(object):

    def __init__(self, cfg):
        self.cfg = cfg
        self.ev = []
        self.res = {'kind': 'none', 'id': '', 'evs': []}
        self.target = None
        self.entered = self.gone = False
        self.given = []
        sched.reset()
        sched.chooser = self.choose
        sched.on_spawn = None
        s = common.settings()
        cap = cfg.get('llsd') and Capability('EventQueueGet', URL, Rest(self), s) or Cap(self)
        host = Host(('10.1.1.1', 12035))
        if common.bare() == 2:
            self.eq = EventQueueClient(cap, host=host)
            common.like(self.eq.settings, s)
        elif common.bare() == 1:
            self.eq = EventQueueClient(cap, s, host=host)
        else:
            self.eq = EventQueueClient(cap, s, MessageHandler(s), host)
        self.mh = self.eq.message_handler
        for n in SUBS:
            self.mh.register(n).subscribe(self.handler(n))
        self.co = api.spawn(self.eq.start)

    # ---- what the code calls
    def handler(self, n):
        def cb(m):
            self.ev.append({'op': 'hand', 'name': m.name == n and n or '?' + common.text(m.name), 'id': str(m.event_queue_id), 'blocks': self.blocks(m)})
            self.given.append((m, self.ev[-1]))
            if n == 'Raiser':
                raise ERRORS[len(self.ev) % len(ERRORS)]
            if n == 'Stopper':
                self.stop()
            if n == 'Sleeper':
                api.sleep(0)
        return cb

    def blocks(self, m):
        r = []
        for b in sorted(m.blocks.keys()):
            r.append({'b': nm(b), 'is': [self.fields(x, b) for x in m.blocks[b]]})
        return r

    def fields(self, x, b):
        r = [{'f': nm(f), 'v': tok(x.get_variable(f).data)} for f in sorted(x.var_list)]
        if x.name != b or sorted(x.vars.keys()) != sorted(x.var_list):
            r.append({'f': '?', 'v': '?'})
        return r

    def post(self, payload):
        ack = ''
        if 'ack' in payload:
            ack = str(payload['ack'])
        extra = [k for k in payload if k not in ('ack', 'done')] != [] or ('done' in payload and payload['done'] is not True)
        self.ev.append({'op': 'poll', 'ack': ack, 'done': 'done' in payload, 'extra': extra})
        if self.cfg['yp']:
            api.sleep(0)
        r = self.res
        self.ev.append({'op': 'res', 'kind': r['kind'], 'id': r['id'] and str(self.ident(r)),
                        'evs': r['kind'] == 'ok' and [self.expect(e) for e in r['evs']] or []})
        return getattr(self, 'do_' + r['kind'])(r)

    # ---- what the poll gets
    def expect(self, e):
        t = e['name'] in TEMPLATE
        if t:
            b = [{'b': nm(k), 'is': [self.abstract(x) for x in i]} for k, i in sorted(e['body'])]
        else:
            b = self.abstract(e['body'])
        return {'name': nm(e['name']), 't': t, 'body': b}

    def abstract(self, fs):
        return [{'f': nm(f), 'v': tok(val(x))} for f, x in sorted(fs)]

    def event(self, e):
        if e['name'] in TEMPLATE:
            if e.get('exp'):
                m = Message(str(e['name']))
                for k, i in e['body']:
                    for fs in i:
                        kw = dict([(str(f), val(x)) for f, x in fs if f in PLAIN])
                        m.add_block(Block(str(k), **kw))
                        for f, x in fs:
                            if f not in PLAIN:
                                m.blocks[str(k)][-1].add_variable(Variable(f, val(x)))
                return m.to_dict()
            b = dict([(k, [dict([(f, val(x)) for f, x in fs]) for fs in i]) for k, i in e['body']])
        else:
            b = dict([(f, val(x)) for f, x in e['body']])
        return {'message': e['name'], 'body': b}

    def ident(self, r):
        """ids are numbers, or whatever else the server likes"""
        k = self.cfg.get('ids', 'int')
        if k == 'str':
            return 'q' + r['id']
        if k == 'digits':
            return '00' + r['id']
        return int(r['id'])

    def do_ok(self, r):
        d = {'id': self.ident(r), 'events': [self.event(e) for e in r['evs']]}
        if r.get('more'):
            d.update({'zz': 1, 'Events': [{'message': 'ExtraEvent', 'body': {}}]})
        return d

    def do_none(self, r):
        return None

    def do_err(self, r):
        i = r.get('var', 0)
        if self.cfg.get('llsd'):
            if i % 4 == 0:
                return Response(body='<llsd><map>', status='200 OK', headerlist=[('Content-Type', 'application/llsd+xml')])
            if i % 4 == 1:
                return Response(body='Upstream error', status='200 OK', headerlist=[('Content-Type', 'text/html')])
            if i % 4 == 2:
                raise HTTPError([404, 499, 500, 502][i / 4 % 4], 'm', StringIO('Upstream error'))
        raise ERRORS[i % len(ERRORS)]

    def do_bad(self, r):
        good = {'message': 'ExtraEvent', 'body': {'Alpha': 1}}
        i = r.get('var', 0)
        if r['id'] == '':
            l = [{}, 'str', [], 5, {'events': [good]}, True, {'ID': 3, 'events': [good]}]
            return l[i % len(l)]
        l = [None, [{}], 5, [good, {'message': 'ExtraEvent'}], [good, {'body': {}}], [{'message': 'StartPingCheck', 'body': {'PingID': [5]}}],
             [good, 7], [{'message': 'StartPingCheck', 'body': {'PingID': 4}}], [{'message': 'StartPingCheck', 'body': None}], [good, None]]
        return {'id': self.ident(r), 'events': l[i % len(l)]}

    # ---- what the application does
    def stop(self):
        e = {'op': 'stop', 'err': ''}
        self.ev.append(e)
        try:
            self.eq.stop()
        except Exception, x:
            e['err'] = common.errname(x)

    # ---- turns
    def choose(self, s):
        t, self.target = self.target, None
        if t is not None and t in s.waiting:
            return t
        return s.main

    def turn(self):
        if self.co.dead:
            return
        if not self.entered:
            self.entered = True
            self.ev.append({'op': 'enter'})
        self.target = self.co
        sched.sleep(0)
        if self.co.dead and not self.gone:
            self.gone = True
            self.ev.append({'op': 'gone', 'err': self.co.error and common.errname(self.co.error[1]) or ''})

    def step(self, op):
        if op['op'] == 'stop':
            self.stop()
        else:
            if op.get('res'):
                self.res = op['res']
            self.turn()

    def finish(self):
        if not [e for e in self.ev if e['op'] == 'stop']:
            self.ev.append({'op': 'fair'})
            self.res = {'kind': 'ok', 'id': '99', 'evs': []}
            for i in range(20):
                self.turn()
            self.ev.append({'op': 'live'})
            self.stop()
        for i in range(30):
            self.turn()
        kept = not [1 for m, e in self.given if (m.name, str(m.event_queue_id), self.blocks(m)) != (e['name'], e['id'], e['blocks'])]
        self.ev.append({'op': 'end', 'kept': kept})


def run(scn):
    w = World(scn['cfg'])
    for op in scn['ops']:
        w.step(op)
    w.finish()
    sched.kill_all()
    return {'id': scn['id'], 'cfg': {'subs': SUBS}, 'ev': w.ev}


if __name__ == '__main__':
    common.main(run)
