"""C10 clocks, logging, stderr and memory probes never change the results."""
from ..core import SimClock
from .cli import *

RUNS = {'quick': 800, 'thorough': 24000}
RULE = ('a run repeats one pattern-make or pattern-match process under 2 to 4 combinations of log level, '
        'clock behaviour, stderr behaviour and memory probe, and compares stdout and exit status with '
        'the quiet process; non-trivial when something was logged and stdout is not empty')
REAL = CLI_REAL
STUB = CLI_STUB
ASSUMPTIONS = ASSUME
SHRINK = ['lines', 'pats', 'variants']
LEVELS = ('NOTSET', 'DEBUG', 'debug', 'INFO', 'WARN', 'ERROR', 'FATAL')
STDERR = ('ok', 'ok', 'none', 'EIO', 'ENOSPC', 'EPIPE', 'short', 'EAGAIN')
PSUTIL = ('ok', 'ok', 'missing', 'raise', 'oserror', 'zero')


def plan(rng, tier):
    mcn = pick_mcn(rng)
    urls = gen.url_set(rng, mcn, rng.choice((4, 8, 16)))
    us = [model.url(u) for u in urls]
    lines = [t(l) for l in lines_of(rng, urls)]
    p = {'cmd': rng.choice(('pattern-make', 'pattern-match')), 'lines': lines,
         'pats': [model.generalise_url(rng, u) for u in us],
         'pad': 0, 'patpad': 0, 'mcn': mcn, 'fmt': rng.choice(('CLUSTER', 'INLINE', 'JSON', 'PATTERN')),
         'every': rng.random() < 0.4, 'lay': rng.getrandbits(32), 'node': rng.getrandbits(32)}
    x = rng.random()
    if p['cmd'] == 'pattern-make' and x < 0.4:
        p['pad'] = rng.choice((4999, 5000, 5003, 10001))
    elif x < 0.04:
        p['pad'] = 5001
    elif x < 0.5:
        p['patpad'] = rng.choice((999, 1000, 1003, 2500))
    p['variants'] = [{'log': rng.choice(LEVELS), 'clock': rng.choice(SimClock.MODES),
                      'stderr': rng.choice(STDERR), 'at': rng.choice((0, 0, 1, 80, 500)),
                      'psutil': rng.choice(PSUTIL), 'seed': rng.getrandbits(32)}
                     for _ in range(rng.choice((2, 3, 4)))]
    if p['cmd'] == 'pattern-match' and p['pad']:
        # thousands of unusable lines: a failing log of each of them takes too long
        for v in p['variants']:
            v['stderr'] = v['stderr'] if v['stderr'] == 'none' else 'ok'
    return p


def one(plan, rec, v):
    rng = gen.rng_of('lay', plan['lay'])
    pad = ['' for _ in range(plan['pad'])]
    lines = pad[:len(pad) // 2] + plan['lines'] + pad[len(pad) // 2:]
    lay = layout(rng, [b(l) for l in lines], 'in')
    iop = {'out': simio.PLAIN, 'encoding': 'utf-8', 'devs': {}}
    if v['stderr'] == 'none':
        iop['errmode'] = 'none'
    elif v['stderr'] == 'short':
        iop['err'] = {'seed': v['seed'], 'cut': 'small', 'eintr': 0.2}
    elif v['stderr'] != 'ok':
        iop['err'] = {'seed': v['seed'], 'fail': [v['at'], getattr(errno, v['stderr']), False]}
    args = ['-l', v['log']]
    pf = []
    if plan['cmd'] == 'pattern-make':
        pf = [['/simfs/make.cfg', '[make]\nmin_cluster_num = %d\n' % plan['mcn']]]
        args += ['-c', '/simfs/make.cfg', '-f', plan['fmt']]
    else:
        pf = [['/simfs/pat', '\n'.join(plan['pats'] + [''] * plan['patpad']) + '\n']]
        args += ['-a'] if plan['every'] else []
    clock = SimClock(v['clock'], v['seed'])
    with Env(plan['node'], clock=clock, psutil_mode=v['psutil']) as env:
        r = proc(env, rec, plan['cmd'], args, lay, pf, iop, plan['node'])
    rec.sim_time += clock.covered
    if clock.jumps:
        rec.fault('clock-' + v['clock'], clock.jumps)
    if v['psutil'] != 'ok':
        rec.fault('psutil-' + v['psutil'])
    if v['stderr'] == 'none':
        rec.fault('stderr-closed')
    return r


BASE = {'log': 'NOTSET', 'clock': 'steady', 'stderr': 'ok', 'at': 0, 'psutil': 'ok', 'seed': 0}


def execute(plan, rec):
    base = one(plan, rec, BASE)
    if base.code != 0:
        fail('exit', 'the quiet process ends with status %d: %s', base.code, base.why)
    for v in plan['variants']:
        rec.sched(v['log'], v['clock'], v['stderr'], v['psutil'])
        r = one(plan, rec, v)
        if r.code != base.code:
            fail('exit-status', 'status %d (%s) with %s', r.code, r.why, json.dumps(v))
        if r.out != base.out:
            fail('stdout', 'stdout differs with %s: %r / %r', json.dumps(v), base.out[:300], r.out[:300])
        if r.err and r.out:
            rec.probe('nontrivial')
