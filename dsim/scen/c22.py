"""C22 an interrupted or starved command never looks like a finished one."""
from ..threads import Interrupter
from .cli import *

RUNS = {'quick': 1500, 'thorough': 40000}
RULE = ('a run counts the executed lines of repository code of one calm pattern-make or pattern-match '
        'process and then repeats the process one to three times, struck at a seeded one of these lines '
        'by an interrupt (KeyboardInterrupt), a termination request (SystemExit 143) or an allocation '
        'failure (MemoryError), a few of them while the command is still being imported; non-trivial when the strike hit and the calm output is not empty')
MEASURE = 'hash of the sequence of (command, function and line hit, exception)'
REAL = CLI_REAL
STUB = CLI_STUB
ASSUMPTIONS = ASSUME + ['strikes fall between lines of repository code, while the command is imported or runs']
SHRINK = ['lines', 'pats', 'bolts']
EXC = {'kbd': lambda: KeyboardInterrupt(), 'term': lambda: SystemExit(143), 'mem': lambda: MemoryError()}


def plan(rng, tier):
    mcn = pick_mcn(rng)
    urls = gen.url_set(rng, mcn, rng.choice((3, 6, 12)))
    us = [model.url(u) for u in urls]
    lines = [t(l) for l in lines_of(rng, urls + [gen.dress(rng, u, True) for u in us if rng.random() < 0.1])]
    return {'cmd': rng.choice(('pattern-make', 'pattern-match')), 'lines': lines,
            'pats': [model.generalise_url(rng, u) for u in us], 'mcn': mcn,
            'fmt': rng.choice(('CLUSTER', 'CLUSTER', 'INLINE', 'JSON', 'PATTERN', 'ETE')),
            'every': rng.random() < 0.4, 'log': rng.choice(('NOTSET', 'DEBUG', 'DEBUG', 'WARN')),
            'lay': rng.getrandbits(32), 'node': rng.getrandbits(32),
            'psutil': rng.choice(('ok', 'missing')),
            'pad': 5001 if rng.random() < 0.01 else 0,
            'out': simio.device(rng) if rng.random() < 0.5 else simio.PLAIN,
            'bolts': [[rng.choice(sorted(EXC)), rng.randrange(1 << 30), rng.choice(('any', 'place', 'place', 'early', 'late'))]
                      for _ in range(rng.choice((1, 2, 3)))],
            'boot': rng.random() < 0.15}


def execute(plan, rec):
    rng = gen.rng_of('lay', plan['lay'])
    lines = [b(l) for l in plan['lines']] + [b''] * plan['pad']
    lay = layout(rng, lines, 'in')
    args = ['-l', plan['log']]
    if plan['cmd'] == 'pattern-make':
        pf = [['/simfs/make.cfg', '[make]\nmin_cluster_num = %d\n' % plan['mcn']]]
        args += ['-c', '/simfs/make.cfg', '-f', plan['fmt']]
    else:
        pf = [['/simfs/pat', ''.join(p + '\n' for p in plan['pats'])]]
        args += ['-a'] if plan['every'] else []
    iop = {'out': plan['out'], 'encoding': 'utf-8', 'devs': {}}
    with Env(plan['node'], psutil_mode=plan['psutil']) as env:
        meter = Interrupter()
        calm = proc(env, rec, plan['cmd'], args, lay, pf, iop, plan['node'], meter)
        rec.sim_time += env.clock.covered
        if calm.code != 0:
            fail('exit', 'a calm run ends with status %d: %s', calm.code, calm.why)
        if plan['boot']:
            start = Interrupter()
            proc(env, rec, plan['cmd'], args, lay, pf, iop, plan['node'], boot=start)
        for i, (kind, x, where) in enumerate(plan['bolts']):
            if plan['boot'] and i == 0:
                bolt = start.aim(x, EXC[kind](), functions=where != 'any')
                got = proc(env, rec, plan['cmd'], args, lay, pf, iop, plan['node'], boot=bolt)
                strike(plan, rec, kind, bolt, got, calm)
                continue
            n = 1 + x % meter.count
            if where == 'early':
                n = 1 + x % min(meter.count, 300)
            elif where == 'late':
                n = meter.count - x % min(meter.count, 300)
            bolt = meter.aim(x, EXC[kind]()) if where == 'place' else Interrupter(n, EXC[kind]())
            got = proc(env, rec, plan['cmd'], args, lay, pf, iop, plan['node'], bolt)
            strike(plan, rec, kind, bolt, got, calm)


def strike(plan, rec, kind, bolt, got, calm):
    if bolt.fired is None:
        rec.probe('missed-strike')
        return
    rec.fault({'kbd': 'interrupt', 'term': 'terminate', 'mem': 'allocation-failure'}[kind])
    rec.sched(plan['cmd'], kind, bolt.fired)
    judge(plan, kind, '%s line %d' % bolt.fired, got, calm)
    if calm.out:
        rec.probe('nontrivial')


def judge(plan, kind, at, got, calm):
    if got.code == 0:
        if kind != 'mem':
            fail('ignored', '%s at %s is swallowed: status 0, %d of %d bytes written',
                 'an interrupt' if kind == 'kbd' else 'a termination request', at, len(got.out), len(calm.out))
        if got.out == calm.out:
            return
        if plan['cmd'] == 'pattern-match':
            a, c = got.out.split(b'\n'), calm.out.split(b'\n')
            if len(a) == len(c):
                # "E" is the documented answer for a line which met an error
                bad = [(x, y) for x, y in zip(a, c) if x != y]
                if len(bad) == 1 and bad[0][0] == b'E\t' + bad[0][1].rpartition(b'\t')[2]:
                    return
        fail('silent-loss', 'an allocation failure at %s is swallowed: status 0 but the output differs: %s',
             at, diff(calm.out.split(b'\n'), got.out.split(b'\n')))
    elif not calm.out.startswith(got.out):
        fail('not-prefix', '%s at %s: the output is not a prefix of the full output: %r', kind, at, got.out[-300:])
