"""Kernel: recorder, violations, virtual clock, run environment.

One simulated run is a pure function of a plan (JSON) and the code in the
repository.  Nothing in here reads a real clock or an unseeded random source
while a run is under way.
"""
import hashlib
import logging
import os
import random
import sys
import time
import types
import warnings

REAL = types.SimpleNamespace(
    time=time.time, perf=time.perf_counter, sleep=time.sleep,
    exit=os._exit, urandom=os.urandom)

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
PKG = 'os_urlpattern'


class Violation(Exception):
    """The property is broken on this run."""

    def __init__(self, kind, detail):
        super().__init__('%s: %s' % (kind, detail))
        self.kind = kind
        self.detail = detail


class RunTimeout(BaseException):
    pass


class StepLimit(BaseException):
    pass


class Recorder(object):
    """What happened in one run.  Never draws random numbers."""

    def __init__(self, keep=0):
        self.h = hashlib.blake2b(digest_size=12)
        self.faults = {}
        self.probes = {}
        self.sim_time = 0.0
        self.events = 0
        self.log = [] if keep else None
        self.keep = keep
        self.shape = hashlib.blake2b(digest_size=12)
        self.notes = {}

    def ev(self, *what):
        """An event of the history; part of the identity of the run."""
        self.events += 1
        s = repr(what)
        self.h.update(s.encode('utf-8', 'surrogatepass'))
        if self.log is not None and len(self.log) < self.keep:
            self.log.append(s)

    def sched(self, *what):
        """A scheduling decision: identity of the interleaving."""
        self.shape.update(repr(what).encode('utf-8', 'surrogatepass'))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.sched('fault', kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def digest(self):
        return self.h.hexdigest()


def mix(*args):
    """Keyed pseudo-random 64-bit number: stable under shrinking."""
    h = hashlib.blake2b(repr(args).encode('utf-8', 'surrogatepass'),
                        digest_size=8)
    return int.from_bytes(h.digest(), 'big')


def chance(p, *args):
    return (mix(*args) % 1000003) < p * 1000003


class SimClock(object):
    """Virtual time.  Every reader of the clock sees this one."""

    MODES = ('steady', 'coarse', 'frozen', 'backwards', 'jumpy', 'epoch')

    def __init__(self, mode='steady', seed=0, start=1.6e9):
        self.mode = mode
        self.seed = seed
        self.t = 0.0 if mode == 'epoch' else start
        self.mono = 1000.0
        self.n = 0
        self.jumps = 0
        self.covered = 0.0

    def advance(self, dt):
        self.t += dt
        self.mono += dt
        self.covered += dt

    def time(self):
        self.n += 1
        m = self.mode
        if m == 'steady' or m == 'epoch':
            self.advance(0.0007)
        elif m == 'coarse':
            if self.n % 64 == 0:
                self.advance(0.015625)
                self.jumps += 1
        elif m == 'frozen':
            self.jumps += 1
        elif m == 'backwards':
            self.t -= 0.25
            self.jumps += 1
        elif m == 'jumpy':
            r = mix(self.seed, 'clk', self.n) % 11
            if r == 0:
                self.t += 86400.0
                self.covered += 86400.0
                self.jumps += 1
            elif r == 1:
                self.t -= 3600.0
                self.jumps += 1
            elif r < 5:
                pass
            else:
                self.advance(0.001)
        return self.t

    def time_ns(self):
        return int(self.time() * 1e9)

    def monotonic(self):
        if self.mode not in ('frozen', 'coarse'):
            self.mono += 0.0007
            self.covered += 0.0007
        return self.mono

    def monotonic_ns(self):
        return int(self.monotonic() * 1e9)

    def sleep(self, s):
        self.advance(max(0.0, s))


_CLOCK_NAMES = ('time', 'time_ns', 'monotonic', 'monotonic_ns')


class SimExit(SystemExit):
    pass


class EteTree(object):
    """Stand-in for ete3.Tree: same calls, trivial canonical rendering."""

    def __init__(self, name='', **kw):
        self.name = name
        self.kids = []

    def add_child(self, child=None, name=None, **kw):
        c = child if child is not None else EteTree(name=name)
        self.kids.append(c)
        return c

    def get_ascii(self, show_internal=True, **kw):
        out = []

        def w(n, d):
            out.append('%s%s' % ('|' * d, n.name))
            for k in n.kids:
                w(k, d + 1)
        w(self, 0)
        return '\n'.join(out)


def _ete3():
    m = types.ModuleType('ete3')
    m.Tree = EteTree
    m.TreeNode = EteTree
    return m


def psutil_stub(mode):
    if mode == 'missing':
        return None
    m = types.ModuleType('psutil')

    class Process(object):
        def __init__(self, pid=None):
            if mode == 'raise':
                raise RuntimeError('simulated psutil failure')

        def memory_info(self):
            if mode == 'oserror':
                raise OSError(24, 'simulated EMFILE')
            return types.SimpleNamespace(rss=0 if mode == 'zero' else 123456789)
    m.Process = Process
    return m


class Env(object):
    """Everything global a run may touch, put back afterwards."""

    def __init__(self, seed=0, clock=None, psutil_mode='ok', ete=True):
        self.seed = seed
        self.clock = clock or SimClock()
        self.psutil_mode = psutil_mode
        self.ete = ete

    def __enter__(self):
        self.saved_time = {}
        for n in _CLOCK_NAMES:
            self.saved_time[n] = getattr(time, n)
            setattr(time, n, getattr(self.clock, n))
        for n, r in (('perf_counter', 'monotonic'), ('perf_counter_ns', 'monotonic_ns'),
                     ('process_time', 'monotonic'), ('process_time_ns', 'monotonic_ns')):
            self.saved_time[n] = getattr(time, n)
            setattr(time, n, getattr(self.clock, r))
        self.saved_time['sleep'] = time.sleep
        time.sleep = self.clock.sleep
        self.saved_mods = {n: sys.modules.get(n, KeyError)
                           for n in ('ete3', 'psutil')}
        sys.modules['ete3'] = _ete3() if self.ete else None
        sys.modules['psutil'] = psutil_stub(self.psutil_mode)
        self.std = (sys.stdin, sys.stdout, sys.stderr, sys.argv)
        self.saved_exit = os._exit
        self.saved_urandom = os.urandom
        self._ur = random.Random(self.seed ^ 0x5bd1e995)
        os.urandom = self._ur.randbytes
        self.rstate = random.getstate()
        random.seed(self.seed)

        def _exit(code=0):
            raise SimExit(code)
        os._exit = _exit
        self.env = dict(os.environ)
        self.root_handlers = logging.root.handlers[:]
        self.root_level = logging.root.level
        self.loggers = set(logging.Logger.manager.loggerDict)
        logging.root.handlers[:] = []
        self.wf = warnings.filters[:]
        warnings.simplefilter('ignore')
        return self

    def __exit__(self, *exc):
        for n, f in self.saved_time.items():
            setattr(time, n, f)
        for n, m in self.saved_mods.items():
            if m is KeyError:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
        sys.stdin, sys.stdout, sys.stderr, sys.argv = self.std
        os._exit = self.saved_exit
        os.urandom = self.saved_urandom
        random.setstate(self.rstate)
        if dict(os.environ) != self.env:
            os.environ.clear()
            os.environ.update(self.env)
        self.reset_logging()
        logging.root.handlers[:] = self.root_handlers
        logging.root.setLevel(self.root_level)
        warnings.filters[:] = self.wf
        return False

    def reset_logging(self):
        """A new simulated process starts with pristine logging."""
        logging.root.handlers[:] = []
        logging.root.setLevel(logging.WARNING)
        logging.disable(logging.NOTSET)
        for n in [n for n in logging.Logger.manager.loggerDict
                  if n not in self.loggers]:
            del logging.Logger.manager.loggerDict[n]
        for lg in logging.Logger.manager.loggerDict.values():
            if isinstance(lg, logging.Logger):
                lg.disabled = False
                lg._cache.clear()
        logging.root._cache.clear()
