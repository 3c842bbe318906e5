"""Shared by the command scenarios."""
import errno
import json
import re

from .. import simio
from .common import *

CLI_REAL = ['src/os_urlpattern from /repo, one private node per simulated process, including the '
            'command line entry points', 'Python io.BufferedReader/BufferedWriter/TextIOWrapper, '
            'argparse, logging, configparser']
CLI_STUB = ['raw byte devices below stdin, stdout, stderr and files (simulated)',
            'process start and exit (exit status as the interpreter would give it)'] + STUBS
OUT_ERRNO = (errno.ENOSPC, errno.EPIPE, errno.EIO, errno.EAGAIN)
IN_ERRNO = (errno.EIO, errno.ESTALE, errno.EISDIR)


def b(s):
    """Plans hold bytes as latin-1 text."""
    return s.encode('latin-1')


def t(raw):
    return raw.decode('latin-1')


def lines_of(rng, urls, bad=True, blank=True):
    """Input lines (bytes) with noise, and nothing else known about them."""
    out = []
    for u in urls:
        l = u.encode('utf-8')
        x = rng.random()
        if x < 0.1:
            l = rng.choice((b' ', b'\t', b'  \t')) + l
        if x > 0.9:
            l = l + rng.choice((b' ', b'\t ', b'\x0c'))
        out.append(l)
    if bad:
        for _ in range(rng.choice((0, 0, 1, 3))):
            out.append(rng.choice((
                gen.bad_url(rng)[0].encode('utf-8'), b'http://h/\xff\xfe', b'http://h/a\xc3',
                b'garbage', b'http://', b'http://h/%\x00', b'http://h/a b?c=1')))
    if blank:
        for _ in range(rng.choice((0, 0, 1, 3))):
            out.append(rng.choice((b'', b' ', b'\t')))
    rng.shuffle(out)
    # a line beginning with '/' is a pattern, not a URL: not an input of the commands
    out = [l for l in out if not l.strip().startswith(b'/') and b'\n' not in l and b'\r' not in l]
    if bad and rng.random() < 0.1:
        # unusable as a whole, however much its parts look like URLs: only \n ends a line
        sep = rng.choice((b'\r', b'\r', b'\x0b', b'\x0c', b'\x1c', b'\xc2\x85', b'\xe2\x80\xa8', b'\x00'))
        tail = rng.choice(urls).encode() if urls and rng.random() < 0.3 else b'http://h/tail/%d' % rng.randint(0, 99)
        out.insert(rng.randint(0, len(out)), rng.choice((b'http://h/\xff', b'http://h/a b', b'http://h/\x00',
                                                         b'http://h/a`')) + sep + tail)
    return out


def bulk_plan(rng):
    """Now and then many lines or very long ones: [lines, length of a piece]."""
    x = rng.random()
    if x >= 0.04:
        return [0, 0]
    if x >= 0.02:
        # lines of as many structures, or as many unusable lines
        return [rng.choice((rng.randint(30, 150), rng.randint(100, 400))), rng.choice((-1, -1, -2))]
    return rng.choice(([rng.randint(600, 1500), rng.randint(20, 120)], [3, rng.randint(9000, 70000)],
                       [rng.randint(30, 60), rng.randint(1000, 3000)]))


def bulk_lines(plan):
    n, size = plan['bulk']
    if size == -1:
        return ['http://h/bulk/%d?k%d=%s' % (i % 7, i, 'ab'[i % 2]) for i in range(n)] + \
            ['http://h/bulk/%d?k%d=x' % (i % 7 + 7, i) for i in range(0, n, 9)]
    if size == -2:
        return [('http://h/a b/%d', 'http://h/\x7f%d', 'http://h/?a&&%d', 'http://h%d', 'http://h/x%d?a&')[mix(i, n) % 5] % i
                for i in range(n)] + ['http://h/bulk/%d/%s' % (i, 'a' * (i % 3 + 1)) for i in range(0, n, 9)]
    return ['http://h/bulk/%d/%s' % (i, 'a' * (size - 10 + mix(i, size) % 20)) for i in range(n)]


def layout(rng, lines, name):
    """Cut lines into files: {'files': [[path, text]], 'stdin': text or None}."""
    n = rng.choice((0, 0, 1, 1, 2, 3))
    if n == 0:
        return {'files': [], 'stdin': t(join(rng, lines))}
    cuts = sorted(rng.randint(0, len(lines)) for _ in range(n - 1))
    parts = [lines[i:j] for i, j in zip([0] + cuts, cuts + [len(lines)])]
    return {'files': [['/simfs/%s%d' % (name, i), t(join(rng, p))] for i, p in enumerate(parts)],
            'stdin': None}


def join(rng, lines):
    eol = rng.choice((b'\n', b'\n', b'\n', b'\r\n'))
    s = eol.join(lines)
    if lines and rng.random() < 0.7:
        s += eol
    return s


def valid(raw):
    """The URL text of a stripped input line, or None when the line is unusable."""
    try:
        u = raw.decode('utf-8')
    except UnicodeDecodeError:
        return None
    return u if model.url(u) is not None else None


def in_lines(lay):
    """All stripped input lines, as the command has to see them."""
    out = []
    texts = [f[1] for f in lay['files']] if lay['files'] else [lay['stdin'] or '']
    for x in texts:
        x = b(x)
        ls = x.split(b'\n')
        if ls and ls[-1] == b'':
            ls.pop()
        out.extend(l.strip() for l in ls)
    return out


def proc(env, rec, command, args, lay, patfiles, iop, node, bolt=None, boot=None):
    files = {}
    argv = list(args)
    devs = iop.get('devs', {})
    for path, data in lay['files']:
        files[path] = [b(data), devs.get(path, simio.PLAIN)]
    for path, data in patfiles:
        files[path] = [b(data), devs.get(path, simio.PLAIN)]
    if lay['files']:
        argv += ['-i'] + [p for p, _ in lay['files']]
    if command == 'pattern-match':
        argv += ['-p'] + [p for p, _ in patfiles]
    stdin = (b(lay['stdin'] or ''), devs.get('<stdin>', simio.PLAIN))
    return simio.run_process(env, rec, command, argv, files, stdin, iop, node, bolt, boot)


def io_plan(rng, paths, calm=0.3):
    """Devices without failures for good."""
    if rng.random() < calm:
        return {'out': simio.PLAIN, 'encoding': 'utf-8', 'devs': {}}
    return {'out': simio.device(rng), 'encoding': rng.choice(('utf-8', 'utf-8', 'ascii', 'latin-1', 'cp1252')),
            'devs': {p: simio.device(rng) for p in paths}}


PLAIN_IO = {'out': simio.PLAIN, 'encoding': 'utf-8', 'devs': {}}


def parse_make(fmt, raw):
    """Output of pattern-make -> clusters [(pattern, members or count)]."""
    text = raw.decode('utf-8')
    if text and not text.endswith('\n'):
        fail('torn-output', 'the output does not end with a newline')
    recs = text.split('\n')[:-1]
    out = []
    if fmt == 'PATTERN':
        return [(r, None) for r in recs]
    if fmt == 'JSON':
        for r in recs:
            d = json.loads(r)
            out.append((d['ptn'], d['cnt']))
        return out
    if fmt == 'INLINE':
        d = {}
        for r in recs:
            p, _, m = r.partition('\t')
            d.setdefault(p, []).append(m)
        return [(p, tuple(sorted(ms))) for p, ms in d.items()]
    for r in recs:
        if r.startswith('\t'):
            if not out:
                fail('output', 'a member line before any pattern line: %r', r)
            out[-1][1].append(r[1:])
        else:
            out.append((r, []))
    return [(p, tuple(sorted(ms))) for p, ms in out]


def canon_match(raw, every):
    """Lines of pattern-match, patterns of -a as a set."""
    ls = raw.split(b'\n')
    if not every:
        return ls
    return [tuple(sorted(l.split(b'\t'))) for l in ls]


def hard(rec):
    """Did a device fail with an error a program sees?"""
    return any(k.startswith(('read-E', 'write-E')) for k in rec.faults)


def same(p):
    """Empty path levels do not count: '//a' in a damaged file is the pattern '/a', spelled otherwise."""
    m = re.match(rb'(?s)(.*?)(\[\\\?\]|#|$)(.*)', p)
    return re.sub(rb'/{2,}', b'/', m.group(1)) + m.group(2) + m.group(3)
