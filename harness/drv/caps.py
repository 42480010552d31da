"""drives real capabilities, with calls that overlap (recording clients) or one by one over HTTP on the loopback network

cfg: {http}
ops: {op: start, c, kind, by, name, pt, pay, hdrs, names}, {op: finish, c, rep: {code, ct, cth, body, val, text, caps}}
over HTTP the reply comes with the start
"""
import BaseHTTPServer
import threading
import common
from eventlet import api
from llbase import llsd
from webob import Response
from values import val, tok
from pyogp.lib.base.caps import Capability, SeedCapability
from pyogp.lib.base.exc import HTTPError, ResourceNotFound, ResourceError, DeserializerNotFound
from pyogp.lib.base.network.stdlib_client import StdLibClient
from pyogp.lib.base.settings import Settings
from StringIO import StringIO

sched = api.sched
ROOTS = [('rootA', 'A', 'u/A'), ('rootB', 'B', 'u/B')]
W = [None]


class Handler(BaseHTTPServer.BaseHTTPRequestHandler):
    timeout = 10

    def do_POST(self):
        n = int(self.headers.getheader('content-length') or 0)
        body = n and self.rfile.read(n) or ''
        w = W[0]
        w.request(w.now, w.client, self.path[1:], self.command, self.headers.items(), body)
        r = w.reps[w.now]
        text = w.reply(w.now, r)
        self.send_response(r['code'])
        if r['cth']:
            self.send_header('Content-Type', str(r['cth']))
        self.send_header('Content-Length', str(len(text)))
        self.end_headers()
        self.wfile.write(text)

    do_GET = do_POST

    def log_message(self, *a):
        pass


SERVER = []


def server():
    if not SERVER:
        SERVER.append(BaseHTTPServer.HTTPServer(('127.0.0.1', 0), Handler))
        t = threading.Thread(target=SERVER[0].serve_forever)
        t.setDaemon(True)
        t.start()
    return 'http://127.0.0.1:%d/' % SERVER[0].server_port


class Real(StdLibClient):
    def __init__(self, name):
        StdLibClient.__init__(self)
        self.vf_name = name

    def GET(self, url, headers={}):
        W[0].client = self.vf_name
        return StdLibClient.GET(self, url, headers)

    def POST(self, url, data, headers={}):
        W[0].client = self.vf_name
        return StdLibClient.POST(self, url, data, headers)


class Fake(object):
    def __init__(self, w, name):
        self.w = w
        self.name = name

    def GET(self, url, headers={}):
        return self.call('GET', url, '', headers)

    def POST(self, url, data, headers={}):
        return self.call('POST', url, data, headers)

    def call(self, meth, url, data, headers):
        w = self.w
        c = w.whose.get(id(sched.current), 0)
        w.request(c, self.name, url, meth, headers.items(), data)
        api.sleep(0)
        if c not in w.reps:
            raise IOError('no reply')
        r = w.reps[c]
        text = w.reply(c, r)
        if r['code'] >= 400:
            raise HTTPError(r['code'], 'message', StringIO(text))
        h = [('X-Server', 'x')]
        if r['cth']:
            h.append((r.get('low') and 'content-type' or 'Content-Type', str(r['cth'])))
        return Response(body=text, status='%d OK' % r['code'], headerlist=h)


def lower(h):
    return str(h).lower()


class World(object):

    def __init__(self, cfg):
        W[0] = self
        self.cfg = cfg
        self.ev = []
        self.reps = {}
        self.whose = {}
        self.cos = {}
        self.target = None
        self.now = 0
        self.client = '?'
        self.base = cfg.get('http') and server() or ''
        self.names = {}
        sched.reset()
        sched.chooser = self.choose
        sched.on_spawn = None
        s = self.settings = common.settings()
        self.caps = {}
        self.roots = [(n, cl, u + str(x)) for (n, cl, u), x in zip(ROOTS, cfg.get('tails') or ['', ''])]
        for n, cl, u in self.roots:
            rest = cfg.get('http') and Real(cl) or Fake(self, cl)
            self.caps[0, n] = SeedCapability(n, cfg.get('uni') and unicode(self.base + u) or self.base + u, rest, s)

    def choose(self, s):
        t, self.target = self.target, None
        if t is not None and t in s.waiting:
            return t
        return s.main

    # ---- what the server sees
    def local(self, url):
        u = str(url)
        if self.base and u.startswith(self.base):
            u = u[len(self.base):]
        return u

    def request(self, c, client, url, meth, headers, body):
        e = {'op': 'req', 'c': c, 'client': client, 'url': self.local(url), 'meth': meth, 'names': ['?'], 'pay': '?'}
        h = dict([(lower(k), str(v)) for k, v in headers])
        e['ct'] = h.get('content-type', '').split(';')[0].strip().lower()
        mine = self.names.get(c, [])
        e['hdrs'] = [{'k': k, 'v': h[k]} for k in sorted(h.keys()) if k.startswith('x-vf-') or k in mine]
        if self.kinds(c) == 'custom':
            e['pay'] = tok(body)
        elif body:
            try:
                d = llsd.parse(body)
                e['pay'] = tok(d)
                if type(d) is dict and d.keys() == ['capabilities'] and type(d['capabilities']) is list and \
                        not [x for x in d['capabilities'] if not isinstance(x, basestring)]:
                    e['names'] = [str(x) for x in d['capabilities']]
            except Exception:
                pass
        self.ev.append(e)

    def kinds(self, c):
        for e in self.ev:
            if e['op'] == 'call' and e['c'] == c:
                return e['kind']
        return ''

    def reply(self, c, r):
        e = {'op': 'rep', 'c': c, 'code': r['code'], 'ct': r['ct'], 'body': r['body'], 'data': '', 'caps': []}
        if r['body'] == 'llsd':
            if r.get('caps') is not None and self.kinds(c) == 'seed':
                e['caps'] = [{'n': str(n), 'u': str(u)} for n, u in r['caps']]
                d = {'capabilities': dict([(n, self.base + u) for n, u in r['caps']])}
                if r.get('more'):
                    d['more'] = {'x': 'y'}
            else:
                d = val(r['val'])
            e['data'] = tok(d)
            text = llsd.format_xml(d)
        else:
            text = r.get('text', '').encode('utf-8')
        self.ev.append(e)
        return text

    # ---- calls
    def begin(self, op):
        cap = self.caps.get((op['by'], op['name']))
        if cap is None:
            return
        c = op['c']
        hdrs = dict([(str(k), str(v)) for k, v in op['hdrs']])
        pay = val(op['pay'])
        if op['pt'] == 'raw':
            pay = ''.join([chr(x) for x in op['pay'][1]])
            hdrs['Content-Type'] = 'application/vnd.ll.notecard'
        if op['pt'] == 'other':
            pay = self.other(op['pay'])
        self.names[c] = [lower(k) for k in hdrs]
        self.ev.append({'op': 'call', 'c': c, 'kind': op['kind'], 'cap': {'by': op['by'], 'name': str(op['name'])}, 'pt': op['pt'] == 'other' and 'other' or 'dict',
                        'pay': op['kind'] in ('post', 'custom') and op['pt'] != 'other' and tok(pay) or '', 'names': [str(n) for n in op['names']],
                        'hdrs': [{'k': lower(k), 'v': hdrs[k]} for k in sorted(hdrs.keys())]})
        names = [str(n) for n in op['names']]
        given = lambda: (dict(hdrs), list(names), op['pt'] != 'other' and tok(pay))
        had = given()

        def body():
            o = {'op': 'out', 'c': c, 'what': 'other', 'data': '', 'url': '', 'code': 0, 'meth': '', 'caps': []}
            try:
                if op['kind'] == 'get':
                    d = op['hdrs'] and [cap.GET(hdrs)] or [cap.GET()]
                elif op['kind'] == 'post':
                    d = op['hdrs'] and [cap.POST(pay, hdrs)] or [cap.POST(pay)]
                elif op['kind'] == 'custom':
                    d = [cap.POST_CUSTOM(hdrs, pay)]
                else:
                    d = [cap.get(names)]
                d = d[0]
                if op['kind'] == 'seed':
                    o['what'] = 'caps'
                    for n in sorted(d.keys()):
                        o['caps'].append({'n': d[n].name == n and str(n) or '?', 'u': self.local(d[n].public_url)})
                        self.caps[c, n] = d[n]
                        if common.VARIANT is not None:
                            d[n].settings = self.settings
                else:
                    o['what'] = 'data'
                    o['data'] = tok(d)
            except ResourceNotFound, x:
                o['what'], o['url'] = 'notfound', self.local(x.url)
            except ResourceError, x:
                o.update({'what': 'resource', 'url': self.local(x.url), 'code': common.small(x.code), 'meth': str(x.method)})
            except DeserializerNotFound, x:
                o['what'] = 'nodeser'
            except Exception, x:
                o['what'] = 'other'
            o['same'] = given() == had
            self.ev.append(o)

        if self.base:
            self.now = c
            if op.get('rep'):
                self.reps[c] = op['rep']
            body()
            return
        co = api.spawn(body)
        self.whose[id(co)] = c
        self.cos[c] = co
        self.turn(co)

    def other(self, x):
        return [None, 5, 'text', u'text', (1, 2), 1.5, True, object(), set([1]), Settings][x[1] % 10]

    def turn(self, co):
        if not co.dead:
            self.target = co
            sched.sleep(0)

    def step(self, op):
        if op['op'] == 'start':
            self.begin(op)
        elif op['c'] in self.cos:
            self.reps[op['c']] = op['rep']
            self.turn(self.cos[op['c']])


def run(scn):
    w = World(scn['cfg'])
    for op in scn['ops']:
        w.step(op)
    sched.kill_all()
    return {'id': scn['id'], 'cfg': {'roots': [{'name': n, 'client': c, 'url': u} for n, c, u in w.roots]}, 'ev': w.ev}


if __name__ == '__main__':
    common.main(run)
