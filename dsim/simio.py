"""Simulated byte devices, files and command processes.

The devices are raw streams below Python's real BufferedReader, BufferedWriter
and TextIOWrapper.  A device plan (JSON) says how data is cut, which calls are
interrupted and where a device fails.
"""
import builtins
import errno
import io
import sys

from .core import mix
from .threads import Events
from .world import Node

ROOT = '/simfs/'


class _Raw(io.RawIOBase):
    def hit(self, kind):
        self.hits[kind] = self.hits.get(kind, 0) + 1

    def report(self):
        self.dead = True
        for k in sorted(self.hits):
            self.rec.fault(k, self.hits[k])
            self.rec.sched(self.name, k, self.hits[k])
        self.hits = {}


class RawIn(_Raw):
    """plan: {'seed', 'cut': whole|one|small|random, 'eintr': p,
              'fail': [offset, errno] or None}"""

    def __init__(self, name, data, plan, rec):
        self.name = name
        self.mode = 'rb'
        self.data = data
        self.pos = 0
        self.n = 0
        self.plan = plan
        self.rec = rec
        self.dead = False
        self.hits = {}

    def readable(self):
        return True

    def seekable(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def readinto(self, b):
        if self.dead:
            return 0
        p = self.plan
        self.n += 1
        r = mix(p['seed'], self.name, self.n)
        if p.get('eintr') and (r >> 20) % 1000 < p['eintr'] * 1000:
            self.hit('read-eintr')
            raise InterruptedError(errno.EINTR, 'simulated')
        want = min(len(b), len(self.data) - self.pos)
        cut = p.get('cut', 'whole')
        if cut == 'one':
            n = 1
        elif cut == 'small':
            n = 1 + r % 7
        elif cut == 'random':
            n = 1 + r % 300
        else:
            n = want
        n = min(n, want)
        if n < want:
            self.hit('short-read')
        fail = p.get('fail')
        if fail is not None:
            off = min(fail[0], len(self.data))
            if self.pos >= off:
                self.hit('read-' + errno.errorcode[fail[1]])
                raise OSError(fail[1], 'simulated read failure')
            n = min(n, off - self.pos)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class RawOut(_Raw):
    """plan: {'seed', 'cut', 'eintr', 'fail': [offset, errno, once]}"""

    def __init__(self, name, plan, rec):
        self.name = name
        self.mode = 'wb'
        self.out = bytearray()
        self.n = 0
        self.plan = plan
        self.rec = rec
        self.dead = False
        self.hits = {}
        self.failed = 0

    def writable(self):
        return True

    def seekable(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def write(self, b):
        b = bytes(b)
        if self.dead or not b:
            return len(b)
        p = self.plan
        self.n += 1
        r = mix(p['seed'], self.name, self.n)
        if p.get('eintr') and (r >> 20) % 1000 < p['eintr'] * 1000:
            self.hit('write-eintr')
            raise InterruptedError(errno.EINTR, 'simulated')
        cut = p.get('cut', 'whole')
        if cut == 'one':
            n = 1
        elif cut == 'small':
            n = 1 + r % 7
        elif cut == 'random':
            n = 1 + r % 300
        else:
            n = len(b)
        n = min(n, len(b))
        fail = p.get('fail')
        if fail is not None and not (fail[2] and self.failed):
            room = fail[0] - len(self.out)
            if room <= 0:
                self.failed += 1
                self.hit('write-' + errno.errorcode[fail[1]])
                if fail[1] == errno.EAGAIN:
                    return None
                raise OSError(fail[1], 'simulated write failure')
            if n > room:
                self.hit('torn-write')
                n = room
        elif n < len(b):
            self.hit('short-write')
        self.out += b[:n]
        return n


class FS(object):
    """Files under /simfs/ exist only here."""

    def __init__(self, rec):
        self.files = {}
        self.rec = rec
        self.raws = []
        self.bufs = {}

    def put(self, path, data, plan=None):
        self.files[path] = (data, plan or {'seed': 0})

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        if not (isinstance(file, str) and file.startswith(ROOT)):
            return self.real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if file not in self.files:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', file)
        if 'r' not in mode or '+' in mode:
            raise PermissionError(errno.EACCES, 'read only', file)
        data, plan = self.files[file]
        raw = RawIn(file, data, plan, self.rec)
        self.raws.append(raw)
        self.rec.ev('open', file, mode)
        if buffering == 0:
            return raw
        f = io.BufferedReader(raw, plan.get('buf', 8192) if buffering in (-1, 1) else buffering)
        if 'b' in mode:
            return f
        return io.TextIOWrapper(f, encoding or 'utf-8', errors, newline)

    def __enter__(self):
        self.real = builtins.open
        builtins.open = self.open
        self.io_open = io.open
        io.open = self.open
        return self

    def __exit__(self, *exc):
        builtins.open = self.real
        io.open = self.io_open
        for r in self.raws:
            r.report()
        return False


class ProcResult(object):
    __slots__ = ('code', 'out', 'err', 'why')

    def __init__(self, code, out, err, why):
        self.code, self.out, self.err, self.why = code, out, err, why


def run_process(env, rec, command, argv, files, stdin, io_plan, node_seed, bolt=None, boot=None):
    """Run one pattern-make / pattern-match process to its end.

    files: {path: [bytes, device plan]}; stdin: (bytes, device plan);
    io_plan: {'out': device plan, 'err': device plan or None, 'errmode', 'encoding'}
    bolt: an Interrupter armed while the command runs (not while it is imported)
    boot: an Interrupter armed while the command is imported
    """
    env.reset_logging()
    fs = FS(rec)
    for path, (data, plan) in files.items():
        fs.put(path, data, plan)
    rin = RawIn('<stdin>', stdin[0], stdin[1], rec)
    rout = RawOut('<stdout>', io_plan['out'], rec)
    rerr = RawOut('<stderr>', io_plan.get('err') or {'seed': 0}, rec)
    enc = io_plan.get('encoding', 'utf-8')
    saved = (sys.stdin, sys.stdout, sys.stderr, sys.argv)
    node = Node.of(node_seed)
    code, why = 0, ''
    sout = io.TextIOWrapper(io.BufferedWriter(rout, io_plan['out'].get('buf', 8192)), enc,
                            'strict', newline='\n')
    serr = io.TextIOWrapper(io.BufferedWriter(rerr, 8192), enc, 'backslashreplace',
                            newline='\n', line_buffering=True)
    sin = io.TextIOWrapper(io.BufferedReader(rin, stdin[1].get('buf', 8192)), enc)
    try:
        sys.stdin, sys.stdout = sin, sout
        sys.stderr = None if io_plan.get('errmode') == 'none' else serr
        sys.argv = [command] + list(argv)
        with fs, node:
            try:
                if boot is None:
                    cmd = node.imp('cmdline')
                else:
                    Events.arm(False)
                    with boot:
                        cmd = node.imp('cmdline')
                f = cmd.make if command == 'pattern-make' else cmd.match
                if bolt is None:
                    f()
                else:
                    Events.arm(False)
                    with bolt:
                        f()
            except SystemExit as e:
                c = e.code
                code = 0 if c is None else c if isinstance(c, int) else 1
                why = 'SystemExit'
            except KeyboardInterrupt:
                code, why = 130, 'KeyboardInterrupt'
            except Exception as e:
                code, why = 1, '%s: %s' % (type(e).__name__, e)
                for tb in _tb(e):
                    why += ' @' + tb
            try:
                sout.flush()
            except Exception as e:
                code, why = code or 120, why or 'flush: %s' % e
            try:
                serr.flush()
            except Exception:
                pass
    finally:
        sys.stdin, sys.stdout, sys.stderr, sys.argv = saved
        for r in (rin, rout, rerr):
            r.report()
        env.reset_logging()
    rec.ev('exit', command, code, bytes(rout.out))
    return ProcResult(code, bytes(rout.out), bytes(rerr.out), why)


def run_service(env, rec, calls, node_seed, stdin=b''):
    """One process that calls the commands' entry points one after another.

    calls: [(command, argv, {path: [bytes, device plan]}, Interrupter or None)]
    Returns a ProcResult per call.
    """
    env.reset_logging()
    rout = RawOut('<stdout>', PLAIN, rec)
    rerr = RawOut('<stderr>', PLAIN, rec)
    saved = (sys.stdin, sys.stdout, sys.stderr, sys.argv)
    node = Node.of(node_seed)
    res = []
    try:
        sys.stdin = io.TextIOWrapper(io.BufferedReader(RawIn('<stdin>', stdin, PLAIN, rec)), 'utf-8')
        sys.stdout = io.TextIOWrapper(io.BufferedWriter(rout), 'utf-8', newline='\n')
        sys.stderr = io.TextIOWrapper(io.BufferedWriter(rerr), 'utf-8', 'backslashreplace',
                                      newline='\n', line_buffering=True)
        with node:
            for command, argv, files, bolt in calls:
                fs = FS(rec)
                for path, (data, plan) in files.items():
                    fs.put(path, data, plan)
                start = len(rout.out)
                code, why = 0, ''
                with fs:
                    try:
                        cmd = node.imp('cmdline')
                        f = cmd.make if command == 'pattern-make' else cmd.match
                        if bolt is None:
                            f([command] + argv)
                        else:
                            Events.arm(False)
                            with bolt:
                                f([command] + argv)
                    except SystemExit as e:
                        code, why = e.code or 0, 'SystemExit'
                    except KeyboardInterrupt:
                        code, why = 130, 'KeyboardInterrupt'
                    except Exception as e:
                        code, why = 1, '%s: %s' % (type(e).__name__, e)
                        for tb in _tb(e):
                            why += ' @' + tb
                    sys.stdout.flush()
                out = bytes(rout.out[start:])
                rec.ev('call', command, code, out)
                res.append(ProcResult(code, out, b'', why))
    finally:
        sys.stdin, sys.stdout, sys.stderr, sys.argv = saved
        for r in (rout, rerr):
            r.report()
        env.reset_logging()
    return res


def _tb(e):
    import traceback
    fs = traceback.extract_tb(e.__traceback__)
    return ['%s:%d' % (f.filename.rsplit('/', 1)[-1], f.lineno) for f in fs[-2:]]


CUTS = ('whole', 'whole', 'one', 'small', 'random')


def device(rng, p_eintr=0.3):
    """A random device without failures for good."""
    d = {'seed': rng.getrandbits(32), 'cut': rng.choice(CUTS)}
    if rng.random() < p_eintr:
        d['eintr'] = rng.choice((0.05, 0.3))
    if rng.random() < 0.5:
        d['buf'] = rng.choice((1, 2, 3, 7, 16, 64, 100, 4096))
    return d


PLAIN = {'seed': 0}
