"""Controlled threads and injected interrupts.

Real threads, of which exactly one runs at a time.  Repository code is
instrumented (sys.monitoring, line or bytecode granularity); at each event the
schedule decides whether another thread continues.  The same instrumentation
raises exceptions at the n-th event.
"""
import sys
import threading
import types

from . import world
from .core import StepLimit, Violation

TOOL = 3
_M = sys.monitoring


class Stuck(Exception):
    """A thread blocked outside of the simulation's control."""


class Events(object):
    """Switches the instrumentation of repository code on and off."""
    armed = {}
    target = None
    ready = False

    @classmethod
    def arm(cls, fine):
        if not cls.ready:
            _M.use_tool_id(TOOL, 'dsim')
            _M.register_callback(TOOL, _M.events.LINE, cls.on)
            _M.register_callback(TOOL, _M.events.INSTRUCTION, cls.on)
            cls.ready = True
        ev = _M.events.INSTRUCTION if fine else _M.events.LINE
        todo = list(world._CODE.values())
        while todo:
            code = todo.pop()
            if cls.armed.get(code) != ev:
                _M.set_local_events(TOOL, code, ev)
                cls.armed[code] = ev
            todo.extend(c for c in code.co_consts if isinstance(c, types.CodeType))

    @classmethod
    def on(cls, code, where):
        t = cls.target
        if t is not None:
            t.event(code, where)


def place(code, where):
    return (code.co_filename.rsplit('/', 1)[-1], code.co_qualname, code.co_firstlineno, where)


class Places(object):
    """Counts how often each place of the code is passed."""

    def __init__(self):
        self.seen = {}
        self.codes = {}
        self.total = 0

    def event(self, code, where):
        # not the code itself: hashing it is expensive
        self.total += 1
        k = (id(code), where)
        n = self.seen.get(k)
        if n is None:
            self.codes[k] = code
            n = 0
        self.seen[k] = n + 1

    def draw(self, x, y, functions=False):
        """(key, n): a place, each with the same chance, and which of its passes."""
        ks = sorted(self.seen, key=lambda k: place(self.codes[k], k[1]))
        if functions:
            # no bodies of modules and classes
            ks = [k for k in ks if self.codes[k].co_flags & 1] or ks
        k = ks[x % len(ks)]
        n = self.seen[k]
        # the first, the last or any time the place is reached
        return k, (1, n, 1 + (y >> 2) % n, 1 + (y >> 2) % n)[y % 4]

    def __enter__(self):
        Events.target = self
        return self

    def __exit__(self, *exc):
        Events.target = None
        return False


class Interrupter(object):
    """Counts events; raises at the n-th, or at the n-th event of one place."""

    def __init__(self, n=0, exc=None, at=None):
        self.n = n
        self.exc = exc
        self.at = at
        self.count = 0
        self.hits = 0
        self.fired = None
        self.places = None if n else Places()

    def event(self, code, where):
        self.count += 1
        n = self.count
        if self.at is not None:
            if where != self.at[1] or id(code) != self.at[0]:
                return
            self.hits += 1
            n = self.hits
        elif self.places is not None:
            self.places.event(code, where)
        if n == self.n:
            self.fired = (code.co_name, where)
            raise self.exc

    def aim(self, x, exc, functions=False):
        """An Interrupter for a place which this one has seen."""
        k, n = self.places.draw(x, x >> 10, functions)
        return Interrupter(n, exc, k)

    def __enter__(self):
        Events.target = self
        return self

    def __exit__(self, *exc):
        Events.target = None
        return False


class Scheduler(object):
    MAX = 50000000

    def __init__(self, schedule, rec, aims=(), timeout=60):
        self.schedule = schedule      # [[gap, choice], ...]
        self.rec = rec
        self.pos = 0
        self.left = schedule[0][0] if schedule else None
        self.steps = 0
        self.switches = 0
        self.threads = []
        self.sems = {}
        self.cur = None
        self.blocked = {}
        self.done = set()
        self.results = {}
        self.error = None
        self.timeout = timeout
        self.main = threading.Semaphore(0)
        self.ident = {}
        self.aims = {}                # (thread, place, n-th time) -> choice
        self.watch = {}               # (thread, place) -> times reached
        for th, k, n, choice in aims:
            self.aims[(th,) + k + (n,)] = choice
            self.watch[(th,) + k] = 0

    # called by instrumented code, in the running thread
    def event(self, code, where):
        me = self.ident.get(threading.get_ident())
        if me is None:
            return
        if self.error is not None:
            raise StepLimit()
        self.steps += 1
        if self.steps > self.MAX:
            self.error = Violation('no-progress', 'threads did not finish in %d steps' % self.MAX)
            raise StepLimit()
        if self.watch:
            k = (me, id(code), where)
            if k in self.watch:
                self.watch[k] += 1
                choice = self.aims.get(k + (self.watch[k],))
                if choice is not None:
                    self.switch(me, choice, code, where)
        if self.left is None:
            return
        self.left -= 1
        if self.left <= 0:
            choice = self.schedule[self.pos][1]
            self.pos += 1
            self.left = self.schedule[self.pos][0] if self.pos < len(self.schedule) else None
            self.switch(me, choice, code, where)

    def switch(self, me, choice, code, where):
        nxt = self.pick(choice, me)
        if nxt != me:
            self.switches += 1
            self.rec.sched(self.steps, me, nxt, code.co_name, where)
            self.go(me, nxt)

    def runnable(self):
        return [i for i in range(len(self.threads)) if i not in self.done and i not in self.blocked]

    def pick(self, choice, me):
        r = [i for i in self.runnable() if i != me]
        return r[choice % len(r)] if r else me

    def go(self, me, nxt):
        self.cur = nxt
        self.sems[nxt].release()
        if not self.sems[me].acquire(timeout=self.timeout):
            self.error = self.error or Stuck('thread %d was never resumed' % me)
            raise StepLimit()

    def body(self, i, fn):
        self.ident[threading.get_ident()] = i
        self.sems[i].acquire()
        try:
            self.results[i] = ('ok', fn())
        except StepLimit:
            self.results[i] = ('aborted', None)
        except BaseException as e:
            self.results[i] = ('raised', e)
        self.done.add(i)
        r = self.runnable()
        if r:
            nxt = r[self.steps % len(r)]
            self.cur = nxt
            self.rec.sched('end', i, nxt)
            self.sems[nxt].release()
        else:
            if len(self.done) < len(self.threads) and self.error is None:
                self.error = Violation('deadlock', 'threads %s wait for each other' % sorted(self.blocked))
            self.main.release()

    def run(self, fns):
        Events.target = self
        try:
            for i, fn in enumerate(fns):
                self.sems[i] = threading.Semaphore(0)
                self.threads.append(threading.Thread(target=self.body, args=(i, fn), daemon=True))
            for th in self.threads:
                th.start()
            self.cur = 0
            self.sems[0].release()
            ok = self.main.acquire(timeout=self.timeout)
        finally:
            Events.target = None
        if not ok or isinstance(self.error, Stuck):
            raise Stuck('threads blocked outside of the simulation')
        if self.error is not None:
            raise self.error
        for th in self.threads:
            th.join(5)
        return [self.results[i] for i in range(len(fns))]

    # locks of the code under test
    def wait_for(self, lock):
        me = self.ident.get(threading.get_ident())
        if me is None:
            raise Stuck('lock held outside of the simulated threads')
        self.blocked[me] = lock
        r = self.runnable()
        if not r:
            self.error = Violation('deadlock', 'all threads wait for locks')
            self.main.release()
            raise StepLimit()
        self.go(me, r[self.steps % len(r)])

    def wake(self, lock):
        for i in [i for i, l in self.blocked.items() if l is lock]:
            del self.blocked[i]


def sim_threading(get):
    """The threading module as the node sees it; get() -> current Scheduler."""
    m = types.ModuleType('threading')
    m.__dict__.update({k: v for k, v in threading.__dict__.items() if not k.startswith('__')})

    class Lock(object):
        reentrant = False

        def __init__(self):
            self.owner = None
            self.depth = 0

        def acquire(self, blocking=True, timeout=-1):
            me = threading.get_ident()
            while self.owner is not None and not (self.reentrant and self.owner == me):
                s = get()
                if not blocking:
                    return False
                if s is None:
                    raise Stuck('lock is held')
                s.wait_for(self)
            self.owner = me
            self.depth += 1
            return True

        def release(self):
            if self.owner is None:
                raise RuntimeError('release unlocked lock')
            self.depth -= 1
            if self.depth == 0:
                self.owner = None
                s = get()
                if s is not None:
                    s.wake(self)

        def locked(self):
            return self.owner is not None

        def __enter__(self):
            return self.acquire()

        def __exit__(self, *exc):
            self.release()
            return False

    class RLock(Lock):
        reentrant = True
    m.Lock = Lock
    m.RLock = RLock
    return m
