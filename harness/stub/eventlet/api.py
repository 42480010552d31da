import sys
import threading
import traceback


class GreenletExit(BaseException):
    pass


class TimeoutError(Exception):
    pass


class Coroutine(object):
    def __init__(self, sched, fn, args, kwargs, name=None):
        self.sched = sched
        self.fn, self.args, self.kwargs = fn, args, kwargs
        self.sem = threading.Semaphore(0)
        self.dead = False
        self.wake = sched.now
        self.seq = sched.next_seq()
        self.name = name
        self.error = None
        self.kill = False
        self.label = getattr(fn, '__name__', 'main')

    # greenlet-like
    def __nonzero__(self):
        return not self.dead


class Scheduler(object):
    """chooser(ready) -> coroutine, where ready is the list of coroutines in FIFO order"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.now = 0.0
        self.seq = 0
        self.chooser = None
        self.steps = 0
        self.limit = 200000
        self.main = Coroutine(self, None, (), {})
        self.main.label = 'main'
        self.current = self.main
        self.waiting = []          # coroutines not running
        self.log = []
        self.on_spawn = None

    def next_seq(self):
        self.seq += 1
        return self.seq

    def spawn(self, fn, args, kwargs, delay=0.0):
        c = Coroutine(self, fn, args, kwargs)
        c.wake = self.now + delay
        if self.on_spawn is not None:
            self.on_spawn(c)
        self.waiting.append(c)
        t = threading.Thread(target=self._run, args=(c,))
        t.setDaemon(True)
        t.start()
        return c

    def _run(self, c):
        c.sem.acquire()
        try:
            if not c.kill:
                c.fn(*c.args, **c.kwargs)
        except GreenletExit:
            pass
        except BaseException:
            c.error = sys.exc_info()[:2]
            c.trace = traceback.format_exc()
        c.dead = True
        self._pass_baton(None)

    def _pick(self):
        if not self.waiting:
            return None
        self.steps += 1
        if self.steps > self.limit:
            # runaway: always return to main
            for c in self.waiting:
                if c is self.main:
                    self.waiting.remove(c)
                    return c
        if self.chooser is not None:
            c = self.chooser(self)
            if c is not None:
                self.waiting.remove(c)
                if c.wake > self.now:
                    self.now = c.wake
                return c
        c = min(self.waiting, key=lambda x: (x.wake, x.seq))
        self.waiting.remove(c)
        if c.wake > self.now:
            self.now = c.wake
        return c

    def _pass_baton(self, me):
        nxt = self._pick()
        if nxt is None:
            return
        self.current = nxt
        if nxt is me:
            return
        nxt.sem.release()
        if me is not None:
            me.sem.acquire()

    def sleep(self, seconds):
        me = self.current
        me.wake = self.now + max(0.0, float(seconds))
        me.seq = self.next_seq()
        self.waiting.append(me)
        self._pass_baton(me)
        if me.kill:
            raise GreenletExit()

    def kill_all(self):
        """ends every coroutine but main"""
        for c in list(self.waiting):
            if c is not self.main:
                c.kill = True
        old = self.chooser
        self.chooser = None
        n = 0
        while [c for c in self.waiting if c is not self.main] and n < 1000:
            n += 1
            self.sleep(1)
        self.chooser = old


sched = Scheduler()


def sleep(seconds=0):
    sched.sleep(seconds)


def spawn(function, *args, **kwds):
    return sched.spawn(function, args, kwds)


def spawn_after(seconds, function, *args, **kwds):
    return sched.spawn(function, args, kwds, delay=seconds)


call_after = spawn_after
spawn_n = spawn
spawn_after_local = spawn_after


def getcurrent():
    return sched.current


def kill(g, *throw_args):
    g.kill = True


def get_hub():
    return sched


class timeout_stub(object):
    pass
