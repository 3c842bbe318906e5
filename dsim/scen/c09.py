"""C09 pattern-make as a stream process."""
from .cli import *

RUNS = {'quick': 1600, 'thorough': 32000}
RULE = ('a run is one pattern-make process over simulated devices (cuts, EINTR, short writes, locales, a '
        'configuration file; in some runs a read or write failure for good), its output compared with '
        'the clusters the API gives for the valid lines; non-trivial when a cluster is generalised')
REAL = CLI_REAL
STUB = CLI_STUB
ASSUMPTIONS = ASSUME + ['input lines that begin with a slash are not URLs and are not offered',
                        'stdin is a blocking stream (a read never returns EAGAIN)']
SHRINK = ['lines']


def plan(rng, tier):
    mcn = pick_mcn(rng)
    urls = gen.url_set(rng, mcn, rng.choice((4, 8, 16, 24)))
    urls += [gen.dress(rng, model.url(u), True) for u in urls if rng.random() < 0.1]
    urls += [u.split('?')[0] + ';\xe9' for u in urls[:2] if rng.random() < 0.2 and '#' not in u]
    p = {'lines': [t(l) for l in lines_of(rng, urls)],
         'fmt': rng.choice(('CLUSTER', 'CLUSTER', 'INLINE', 'PATTERN', 'JSON', 'cluster', None, 'ETE', 'NULL')),
         'mcn': mcn if rng.random() < 0.7 else None,
         'cfg': rng.randrange(3),
         'lay': rng.getrandbits(32), 'node': rng.getrandbits(32), 'node2': rng.getrandbits(32),
         'log': rng.choice(('NOTSET', 'NOTSET', 'DEBUG', 'warn'))}
    paths = ['<stdin>'] + ['/simfs/in%d' % i for i in range(3)] + ['/simfs/make.cfg']
    p['io'] = io_plan(rng, paths)
    p['fail'] = None
    x = rng.random()
    if x < 0.25:
        p['fail'] = ['out', rng.choice((0, 1, rng.randint(0, 300), rng.randint(0, 3000))),
                     rng.choice(OUT_ERRNO), rng.random() < 0.3]
    elif x < 0.4:
        p['fail'] = ['in', rng.choice((0, rng.randint(0, 200), rng.randint(0, 2000))), rng.choice(IN_ERRNO)]
    p['bulk'] = bulk_plan(rng)
    if rng.random() < 0.01:
        p['bulk'] = [0, 0]
        p['io'] = PLAIN_IO
        p['lines'] = [''] * 5001 + p['lines']
    return p


def execute(plan, rec):
    rng = gen.rng_of('lay', plan['lay'])
    lay = layout(rng, [b(l) for l in plan['lines'] + bulk_lines(plan)], 'in')
    args = []
    files = []
    if plan['mcn'] is not None:
        text = ('[make]\nmin_cluster_num = %d\n', '[make]\nmin_cluster_num: %d', '# c\r\n[make]\r\nmin_cluster_num=%d\r\n'
                )[plan['cfg']] % plan['mcn']
        files = [['/simfs/make.cfg', text]]
        args += ['-c', '/simfs/make.cfg']
    if plan['fmt']:
        args += ['-f', plan['fmt']]
    fmt = (plan['fmt'] or 'CLUSTER').upper()
    iop = dict(plan['io'])
    iop['devs'] = dict(iop['devs'])
    bad = plan['fail']
    if bad and bad[0] == 'out':
        iop['out'] = dict(iop['out'], fail=bad[1:])
    elif bad:
        names = [f[0] for f in lay['files']] or ['<stdin>']
        nm = names[mix(plan['lay'], 'f') % len(names)]
        size = {f[0]: len(f[1]) for f in lay['files']}.get(nm, len(lay['stdin'] or ''))
        iop['devs'][nm] = dict(iop['devs'].get(nm, simio.PLAIN), fail=[min(bad[1], size), bad[2]])
    urls = [u for u in map(valid, in_lines(lay)) if u is not None]
    with Env(plan['node']) as env:
        # same node seed twice: same set order, so that prefixes can be compared
        got = proc(env, rec, 'pattern-make', ['-l', plan['log']] + args, lay, files, iop, plan['node'])
        calm = proc(env, rec, 'pattern-make', args, lay, files, PLAIN_IO, plan['node'])
        api = reference(urls, plan['mcn'] or 3, plan['node2'])
        rec.sim_time += env.clock.covered
    rec.ev('api', api)
    if calm.code != 0:
        fail('exit', 'a calm run ends with status %d: %s', calm.code, calm.why)
    if fmt == 'NULL':
        if calm.out:
            fail('null', 'format NULL wrote %r', calm.out[:200])
    elif fmt == 'ETE':
        calm.out.decode('utf-8')
    else:
        cl = parse_make(fmt, calm.out)
        if fmt == 'PATTERN':
            want = [(p, None) for p, _, _ in api]
        elif fmt == 'JSON':
            want = [(p, n) for p, _, n in api]
        else:
            want = [(p, m) for p, m, _ in api]
            members = sorted(m for _, ms in cl for m in ms)
            if members != sorted(set(urls)):
                fail('members', 'valid input URLs and reported URLs differ: %s',
                     diff(sorted(set(urls)), members))
            for p, ms in cl:
                mp = model.pattern(p)
                for u in ms:
                    if mp is None or not model.strict_match(mp, model.url(u)):
                        fail('pattern', '%s is reported under %s, which does not match it', u, p)
        if sorted(cl, key=repr) != sorted(want, key=repr):
            fail('clusters', 'pattern-make and the API disagree (min_cluster_num %r): %s', plan['mcn'],
                 diff(want, cl))
        nontrivial_clusters(rec, api)
    if not hard(rec):
        if got.code != 0:
            fail('exit', 'status %d although no I/O failed for good: %s', got.code, got.why)
        a, c = got.out, calm.out
        if fmt in ('ETE', 'NULL'):
            same = a == c
        else:
            same = sorted(parse_make(fmt, a), key=repr) == sorted(parse_make(fmt, c), key=repr)
        if not same:
            fail('output', 'the output depends on how the I/O is cut: %r / %r', a[:400], c[:400])
    else:
        rec.probe('failed-for-good')
        once = bad[0] == 'out' and bad[3]
        if got.code == 0 and not (once and got.out == calm.out):
            fail('silent-failure', 'status 0 although I/O failed for good (%s)', sorted(rec.faults))
        if not calm.out.startswith(got.out):
            fail('not-prefix', 'after a failure the output is not a prefix of the full output: %r',
                 got.out[-300:])
