"""drives pyogp.lib.base.events.Event and pyogp.lib.base.message.message_handler.MessageHandler"""
import common
from pyogp.lib.base.events import Event
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.settings import Settings


class Odd(Exception):
    pass


class OldStyle:
    pass


ERR = {'KeyError': KeyError, 'ValueError': ValueError, 'AttributeError': AttributeError, 'TypeError': TypeError,
       'IndexError': IndexError, 'StopIteration': StopIteration, 'RuntimeError': RuntimeError, 'Odd': Odd,
       'AssertionError': AssertionError, 'IOError': IOError, 'NameError': NameError, 'ImportError': ImportError,
       'OldStyle': OldStyle, 'UnicodeError': UnicodeError, 'ZeroDivisionError': ZeroDivisionError}
ARGS = {'a': (('a',), {}), 'b': (('b',), {}), '': ((), {}), 'k': ((), {'x': 1}), 'ak': (('a', 2), {'x': 1, 'y': 'z'}),
        'l': (([1],), {})}


class Value(object):
    def __init__(self, name, token):
        self.name = name
        self.token = token


class Empty(Value):
    def __len__(self):
        return 0


class Row(tuple):
    pass


class Map(dict):
    pass


def value(name, token, kind):
    """what is fired may be anything: empty, a tuple, a dictionary"""
    if kind < 2:
        return (Value, Empty)[kind](name, token)
    v = kind == 2 and Row((1, 2)) or Map({'x': 1})
    v.name, v.token = name, token
    return v


class Handler(object):
    def __init__(self, world, h):
        self.w = world
        self.h = h

    def method(self, value, *args, **kw):
        return self.w.called(self.h, value, args, kw)


class World(object):

    def __init__(self, cfg):
        self.kind = cfg['kind']
        self.log = []
        self.hs = {}
        self.scr = {}
        self.idents = []
        self.vals = {}
        self.depth = 0
        if self.kind == 'event':
            self.ns = dict([(n, Event()) for n in cfg['names']])
        else:
            self.mh = MessageHandler(Settings(cfg.get('quiet', True)))
            self.ns = {}

    def ident(self, n):
        for i, x in enumerate(self.idents):
            if x is n:
                return i + 1
        self.idents.append(n)
        return len(self.idents)

    def key(self, k):
        h, a = k.split(':')
        if h not in self.hs:
            hd = Handler(self, h)
            if h in ('h2', 'h4'):
                def plain(value, *args, **kw):
                    return hd.method(value, *args, **kw)
                self.hs[h] = (plain, None)
            else:
                self.hs[h] = (None, hd)
        f, obj = self.hs[h]
        args, kw = ARGS[a]
        return (f or obj.method), args, dict(kw)

    def called(self, h, value, args, kw):
        k = None
        for a, (ar, kx) in ARGS.items():
            if ar == args and kx == kw:
                k = h + ':' + a
        ok = k is not None
        if k is None:
            k = h + ':?'
        self.log.append({'op': 'call', 'k': k, 'v': getattr(value, 'token', '?'), 'args': ok})
        script = self.scr.pop(k, [])
        err = ''
        try:
            try:
                for op in script:
                    if op['op'] == 'raise':
                        raise ERR[op['err']]('raised by a subscriber')
                    self.step(op, True)
            except:
                err = self.cur()
                raise
        finally:
            self.log.append({'op': 'ret', 'k': k, 'err': err})

    def cur(self):
        import sys
        t, v = sys.exc_info()[:2]
        if v is not None and hasattr(v, '__class__') and not isinstance(v, type):
            return common.errname(v)
        return '%s' % getattr(t, '__name__', t)

    def step(self, op, inner=False):
        k = op['op']
        n = op['n']
        if k == 'sub':
            f, args, kw = self.key(op['k'])
            if op['script']:
                self.scr[op['k']] = op['script']
            if self.kind == 'mh':
                self.reg(n)
            err = ''
            try:
                if op.get('via') == 'i' and self.kind == 'event' and not args and not kw:
                    e = self.ns[n]
                    e += f
                else:
                    self.ns[n].subscribe(f, *args, **kw)
            except Exception, e:
                err = common.errname(e)
            self.log.append({'op': 'sub', 'n': n, 'k': op['k'], 'err': err})
        elif k == 'unsub':
            if n not in self.ns:
                return
            f, args, kw = self.key(op['k'])
            err = ''
            try:
                if op.get('via') == 'i' and self.kind == 'event' and not args and not kw:
                    e = self.ns[n]
                    e -= f
                else:
                    self.ns[n].unsubscribe(f, *args, **kw)
            except Exception, e:
                err = common.errname(e)
            self.log.append({'op': 'unsub', 'n': n, 'k': op['k'], 'err': err})
        elif k == 'clear':
            err = ''
            try:
                self.ns[n].clearSubscribers()
            except Exception, e:
                err = common.errname(e)
            self.log.append({'op': 'clear', 'n': n, 'err': err})
        elif k == 'len':
            if n in self.ns:
                v = len(self.ns[n])
                if self.kind == 'event' and self.ns[n].getSubscriberCount() != v:
                    v = -1
                self.log.append({'op': 'len', 'n': n, 'val': v})
        elif k == 'reg':
            self.reg(n)
        elif k == 'handled':
            v = self.mh.is_message_handled(n)
            self.log.append({'op': 'handled', 'n': n, 'val': bool(v)})
        elif k == 'fire':
            if self.depth == 0 and n in self.vals and len(self.log) % 3:
                val = self.vals[n]          # the same thing once more
                val.token = op['v']
            else:
                val = value(n, op['v'], len(self.log) % 4)
                if self.depth == 0:
                    self.vals[n] = val
            self.depth += 1
            self.log.append({'op': 'fire', 'n': n, 'v': op['v']})
            err = ''
            try:
                try:
                    if self.kind == 'event':
                        if op.get('via') == 'n':
                            self.ns[n].notify(val)
                        else:
                            self.ns[n](val)
                    elif op.get('via') == 'n' and n in self.ns:
                        self.ns[n].received(val)
                    else:
                        self.mh.handle(val)
                except:
                    err = self.cur()
                    if inner:
                        raise
            finally:
                self.depth -= 1
                self.log.append({'op': 'end', 'n': n, 'err': err})
        else:
            raise SystemError(k)

    def reg(self, n):
        err = ''
        i = 0
        try:
            x = self.mh.register(n)
            i = self.ident(x)
            self.ns[n] = x
        except Exception, e:
            err = common.errname(e)
        self.log.append({'op': 'reg', 'n': n, 'id': i, 'err': err})


def run(scn):
    w = World(scn['cfg'])
    for op in scn['ops']:
        w.step(op)
    return {'id': scn['id'], 'cfg': scn['cfg'], 'ev': w.log}


if __name__ == '__main__':
    common.main(run)
