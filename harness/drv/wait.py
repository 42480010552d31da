"""drives pyogp.lib.base.helpers.Wait: waiters in coroutines, on a clock of eighths of a second"""
import time
import common
from eventlet import api

sched = api.sched
BASE = 8 * 1234567890


class Busy(Exception):
    pass


class Clock(object):
    def reset(self):
        self.t = 0            # eighths
        self.fails = 0        # sleeps still to fail
        self.dt = 0           # what passes in each
        self.asked = 0        # times the clock was read since a sleep

    def time(self):
        self.asked += 1
        if self.asked > 2000:
            raise Busy()
        return (BASE + self.t) / 8.0

    def put(self, t):
        self.t = t
        sched.now = t / 8.0


clock = Clock()
clock.reset()
time.time = clock.time


def sleep(seconds=0):
    clock.asked += 1
    if clock.asked > 2000:
        raise Busy()
    if clock.fails:
        clock.fails -= 1
        clock.put(clock.t + clock.dt)
        raise AssertionError('cannot switch to MAINLOOP from MAINLOOP')
    clock.asked = 0
    sched.sleep(seconds)


api.sleep = sleep

from pyogp.lib.base.helpers import Wait


class Waiter(object):
    def __init__(self):
        self.w = Wait.__new__(Wait)
        self.over = True
        self.ret = ''
        self.err = ''
        self.co = None

    def begin(self, fn, *args):
        def body():
            try:
                r = fn(*args)
                if fn != self.w.__init__:
                    self.ret = repr(r)
            except Exception, e:
                self.err = common.errname(e)
            self.over = True
        self.over = False
        self.co = sched.spawn(body, (), {})


class World(object):
    def __init__(self):
        sched.reset()
        clock.reset()
        sched.chooser = self.choose
        self.target = None
        self.ws = []

    def choose(self, s):
        t, self.target = self.target, None
        if t is not None:
            clock.asked = 0
            return t
        return s.main

    def turn(self, x):
        """a turn of its own, if it has asked to be back by now"""
        if x.over or x.co not in sched.waiting or x.co.wake > sched.now:
            return False
        self.target = x.co
        sched.sleep(0)
        return True

    def step(self, op):
        k = op['op']
        ev = dict(op)
        ev['t0'] = clock.t
        ev['turned'] = False
        ev['ret'] = ev['err'] = ''
        clock.fails, clock.dt = op.get('k', 0), op.get('dt', 0)
        x = None
        if k == 'start':
            x = Waiter()
            self.ws.append(x)
            n = op['dur']
            form = op.get('form', 'int')
            if form == 'float':
                n = n + op['more'] / 8.0 * (n >= 0 and 1 or -1)
            elif form == 'str':
                n = str(n)
            elif form == 'long':
                n = long(n)
            x.begin(x.w.__init__, n)
            self.turn(x)
        elif k == 'again':
            x = self.ws[op['i'] - 1]
            x.begin(x.w.run)
            self.turn(x)
        elif k == 'turn':
            x = self.ws[op['i'] - 1]
            ev['turned'] = self.turn(x)
        elif k == 'stop':
            self.ws[op['i'] - 1].w.stop()
        elif k == 'pass':
            clock.put(clock.t + op['dt'])
        clock.fails = 0
        if x is not None:
            ev['ret'], x.ret = x.ret, ''
            ev['err'], x.err = x.err, ''
        ev['now'] = clock.t
        ev['done'] = [y.over for y in self.ws]
        return ev


def run(scn):
    w = World()
    evs = []
    for op in scn['ops']:
        if op['op'] == 'again' and not w.ws[op['i'] - 1].over:
            continue
        evs.append(w.step(op))
    sched.kill_all()
    return {'id': scn['id'], 'cfg': {}, 'ev': evs}


if __name__ == '__main__':
    common.main(run)
