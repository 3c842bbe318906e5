"""Discrete-event network of simulated machines: mappers, makers, matchers.

Everything runs on one virtual clock and one event heap.  Decisions (delay,
loss, duplication of a message; torn tails) are keyed by what they decide
about, so that removing a URL or a fault from a plan leaves the others alone.
Machines hold real code in a private node; a crash drops the node and all
memory, only the synced part of the disk survives.
"""
import heapq

from .core import mix
from .world import Node


class Disk(object):
    """Append-only log with explicit sync; a crash loses or tears the tail."""

    def __init__(self, name, seed):
        self.name = name
        self.seed = seed
        self.synced = []
        self.tail = []
        self.files = {}

    def append(self, record):
        self.tail.append(record)

    def sync(self):
        self.synced.extend(self.tail)
        self.tail = []

    def crash(self, rec, n):
        if not self.tail:
            return
        k = mix(self.seed, self.name, 'crash', n) % (len(self.tail) + 1)
        rec.fault('lost-unsynced-records', len(self.tail) - k)
        keep, lost = self.tail[:k], self.tail[k:]
        self.synced.extend(keep)
        if lost and mix(self.seed, self.name, 'torn', n) % 2:
            # half of the first lost record made it to the disk
            t = lost[0]
            self.synced.append(t[:1 + mix(self.seed, self.name, 'cut', n) % max(1, len(t) - 1)])
            rec.fault('torn-record')
        self.tail = []

    def commit(self, name, value):
        self.files[name] = value


class Sim(object):
    def __init__(self, plan, rec):
        self.plan = plan
        self.rec = rec
        self.seed = plan['net']['seed']
        self.net = plan['net']
        self.now = 0.0
        self.heap = []
        self.seq = 0
        self.machines = {}
        self.sent = {}
        self.cut = {}
        self.steps = 0

    def at(self, t, fn, *args):
        self.seq += 1
        heapq.heappush(self.heap, (t, self.seq, fn, args))

    def after(self, dt, fn, *args):
        self.at(self.now + dt, fn, *args)

    def calm(self):
        return self.now >= self.net['heal']

    def send(self, src, dst, *msg):
        """Unreliable delivery."""
        key = (src, dst, msg[0], msg[1])
        n = self.sent[key] = self.sent.get(key, 0) + 1
        k = (self.seed, key, n)
        if not self.calm():
            if mix(k, 'drop') % 1000 < self.net['drop']:
                self.rec.fault('message-loss')
                return
            if mix(k, 'dup') % 1000 < self.net['dup']:
                self.rec.fault('message-duplicate')
                self.at(self.now + self.delay(k, 'd2'), self.arrive, src, dst, msg)
        self.at(self.now + self.delay(k, 'd1'), self.arrive, src, dst, msg)

    def delay(self, k, what):
        x = mix(k, what)
        d = 0.001 + (x % 1000) / 1e5
        if not self.calm() and (x >> 20) % 1000 < self.net['slow']:
            self.rec.fault('message-delay')
            d += ((x >> 32) % 1000) / 200.0
        return d

    def arrive(self, src, dst, msg):
        if self.cut.get(src, 0) != self.cut.get(dst, 0):
            self.rec.fault('partition-loss')
            return
        m = self.machines[dst]
        if m.node is None:
            self.rec.fault('message-to-crashed-machine')
            return
        self.rec.sched(src, dst, msg[0], msg[1])
        if m.stalled > self.now:
            self.at(m.stalled, self.arrive, src, dst, msg)
            return
        with m.node:
            m.on(src, *msg)

    def run(self, done, budget):
        """Until done(); returns False when the budget after healing runs out."""
        left = budget
        while self.heap:
            if done():
                return True
            t, _, fn, args = heapq.heappop(self.heap)
            self.now = max(self.now, t)
            self.steps += 1
            if self.calm():
                left -= 1
                if left < 0:
                    return False
            elif self.steps > 200000:
                return False
            fn(*args)
        return done()


class Machine(object):
    def __init__(self, sim, name):
        self.sim = sim
        self.name = name
        self.life = 0
        self.node = None
        self.stalled = 0.0
        self.disk = Disk(name, sim.seed)
        sim.machines[name] = self
        self.boot()

    def boot(self):
        self.life += 1
        self.node = Node.of(mix(self.sim.plan['node'], self.name, self.life) & 0xffffffff)
        with self.node:
            self.start()

    def crash(self, down):
        if self.node is None:
            return
        self.sim.rec.fault('crash')
        self.sim.rec.sched('crash', self.name)
        self.node = None
        self.drop()
        self.disk.crash(self.sim.rec, self.life)
        self.sim.after(down, self.restart)

    def restart(self):
        if self.node is None:
            self.sim.rec.fault('restart')
            self.boot()

    def timer(self, dt, fn, *args):
        life = self.life

        def fire():
            if self.node is not None and self.life == life:
                if self.stalled > self.sim.now:
                    self.sim.at(self.stalled, fire)
                    return
                with self.node:
                    fn(*args)
        self.sim.after(dt, fire)

    def send(self, dst, *msg):
        self.sim.send(self.name, dst, *msg)

    def start(self):
        pass

    def drop(self):
        pass

    def on(self, src, kind, *args):
        pass
