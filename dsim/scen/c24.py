"""C24 commands called again and again in one process."""
from ..threads import Interrupter
from .cli import *

RUNS = {'quick': 900, 'thorough': 24000}
RULE = ('a run calls the entry points of pattern-make and pattern-match 2 to 7 times in one process, with '
        'changing inputs, formats, configurations and log levels, some calls rejected (options, missing '
        'files), failing (read errors) or interrupted at a seeded line, and compares each with the same '
        'call in a process of its own; non-trivial when a call after a failed one gave a generalised pattern')
MEASURE = 'hash of the sequence of (command, outcome, fault)'
REAL = CLI_REAL
STUB = CLI_STUB
ASSUMPTIONS = ASSUME + ['the first call without -i gets all of stdin, later ones find it at its end']
SHRINK = ['calls']


def plan(rng, tier):
    mcn = pick_mcn(rng)
    pools = [gen.url_set(rng, mcn, rng.choice((3, 6, 10))) for _ in range(2)]
    calls = []
    for _ in range(rng.choice((2, 3, 4, 7))):
        urls = list(rng.choice(pools))
        us = [model.url(u) for u in urls]
        rng.shuffle(urls)
        calls.append({
            'cmd': rng.choice(('pattern-make', 'pattern-match')),
            'lines': [t(l) for l in lines_of(rng, urls, bad=rng.random() < 0.3)],
            'pats': [model.generalise_url(rng, u) for u in rng.sample(us, rng.randint(0, len(us)))],
            'mcn': rng.choice((None, mcn, mcn + 3, 2)), 'fmt': rng.choice((None, 'CLUSTER', 'INLINE', 'JSON', 'PATTERN', 'ETE')),
            'every': rng.random() < 0.4, 'log': rng.choice((None, None, 'NOTSET', 'DEBUG', 'WARN')),
            'fault': rng.choice((None, None, None, None, 'option', 'missing', 'read', 'kbd', 'mem', 'help')),
            'stdin': rng.random() < 0.15, 'at': rng.getrandbits(24), 'dev': simio.device(rng) if rng.random() < 0.5 else simio.PLAIN})
    return {'calls': calls, 'node': rng.getrandbits(32), 'nodes': rng.getrandbits(32)}


def call(c, fault, bolt=None):
    """(command, argv, files, bolt)"""
    argv, files = [], {}
    data = b''.join(b(l) + b'\n' for l in c['lines'])
    dev = dict(c['dev'])
    if fault == 'read':
        dev['fail'] = [c['at'] % (len(data) + 1), errno.EIO]
    if not c['stdin']:
        files['/simfs/in'] = [data, dev]
        argv += ['-i', '/simfs/in']
    if c['log']:
        argv += ['-l', c['log']]
    if c['cmd'] == 'pattern-make':
        if c['mcn'] is not None:
            files['/simfs/cfg'] = [b'[make]\nmin_cluster_num = %d\n' % c['mcn'], simio.PLAIN]
            argv += ['-c', '/simfs/cfg']
        if c['fmt']:
            argv += ['-f', c['fmt']]
    else:
        files['/simfs/pat'] = [''.join(p + '\n' for p in c['pats']).encode(), simio.PLAIN]
        argv += ['-p', '/simfs/pat'] + (['-a'] if c['every'] else [])
    if fault == 'option':
        argv += ['-f', 'NONE', '--no-such-option']
    elif fault == 'missing':
        argv += ['-i', '/simfs/not-there']
    elif fault == 'help':
        argv += ['--version']
    return c['cmd'], argv, files, bolt


def canon_out(c, raw):
    if c['cmd'] == 'pattern-match':
        return canon_match(raw, c['every'])
    fmt = c['fmt'] or 'CLUSTER'
    if fmt == 'ETE':
        return sorted(raw)
    return sorted(parse_make(fmt, raw), key=repr)


def execute(plan, rec):
    with Env(plan['node']) as env:
        alone, calls = [], []
        stdin, spent, blind = b'', False, set()
        for i, c in enumerate(plan['calls']):
            mine = b''
            if c['stdin']:
                if not spent:
                    mine = b''.join(b(l) + b'\n' for l in c['lines'])
                if spent is None:
                    blind.add(i)            # what a failed call left of stdin is not specified
            meter = Interrupter()
            alone.append(simio.run_service(env, rec, [call(c, None, meter)], mix(plan['nodes'], i), mine)[0])
            bolt = None
            if c['fault'] in ('kbd', 'mem'):
                bolt = Interrupter(1 + c['at'] % meter.count,
                                   KeyboardInterrupt() if c['fault'] == 'kbd' else MemoryError())
            if c['stdin'] and c['fault'] not in ('option', 'missing', 'help'):
                stdin += mine
                if spent is False:
                    spent = None if c['fault'] in ('kbd', 'mem') else True
            calls.append(call(c, c['fault'], bolt))
        got = simio.run_service(env, rec, calls, plan['node'], stdin)
        rec.sim_time += env.clock.covered
    failed = False
    for i, (c, a, g) in enumerate(zip(plan['calls'], alone, got)):
        if a.code != 0:
            fail('exit', 'call %d alone ends with status %d: %s', i, a.code, a.why)
        rec.sched(c['cmd'], c['fault'], g.code, g.why)
        if c['fault']:
            rec.fault('call-' + c['fault'])
            failed = True
            if c['fault'] in ('option', 'missing') and g.code == 0:
                fail('accepted', 'call %d with a wrong command line ends with status 0', i)
            continue
        if g.code != 0:
            fail('exit', 'call %d ends with status %d after other calls in the same process: %s', i, g.code, g.why)
        if i in blind:
            continue
        x, y = canon_out(c, a.out), canon_out(c, g.out)
        if x != y:
            fail('leak', 'call %d (%s) gives something else after other calls in the same process: %s', i, c['cmd'],
                 diff(x, y))
        if failed and b'+' in g.out:
            rec.probe('nontrivial')
