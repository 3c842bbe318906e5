"""C08 pattern-match as a stream process."""
from .cli import *

RUNS = {'quick': 2000, 'thorough': 40000}
RULE = ('a run is one pattern-match process over simulated devices (cuts, EINTR, short writes; in some '
        'runs a read or write failure for good) compared line by line with the reference model and with '
        'a calm process; non-trivial when a line was answered with a generalised pattern')
REAL = CLI_REAL
STUB = CLI_STUB
ASSUMPTIONS = ASSUME + ['input lines that begin with a slash are not URLs and are not offered',
                        'stdin is a blocking stream (a read never returns EAGAIN)']
SHRINK = ['lines', 'pats']


def plan(rng, tier):
    mcn = pick_mcn(rng)
    urls = gen.url_set(rng, mcn, rng.choice((3, 6, 12)))
    us = [model.url(u) for u in urls]
    pats = [model.generalise_url(rng, u) for u in us for _ in range(rng.choice((0, 1, 3)))]
    if rng.random() < 0.05 and us:
        # many patterns for one URL
        rich = [u for u in us if len(u.pieces) > 1] or us
        pats = sorted({model.generalise_url(rng, rng.choice(rich)) for _ in range(rng.choice((60, 150)))})
        rng.shuffle(pats)
    lines = lines_of(rng, urls + [gen.dress(rng, gen.mutate(rng, u), True) for u in us])
    p = {'pats': pats, 'lines': [t(l) for l in lines], 'every': rng.random() < 0.4,
         'noise': [rng.choice(('# comment', '', 'http://h/x', '\thttp://h/y'))
                   for _ in range(rng.choice((0, 0, 2)))],
         'lay': rng.getrandbits(32), 'node': rng.getrandbits(32), 'node2': rng.getrandbits(32),
         'log': rng.choice(('NOTSET', 'NOTSET', 'DEBUG', 'WARN', 'error'))}
    paths = ['<stdin>'] + ['/simfs/in%d' % i for i in range(3)] + ['/simfs/pat%d' % i for i in range(3)]
    p['io'] = io_plan(rng, paths)
    p['fail'] = None
    x = rng.random()
    if x < 0.25:
        p['fail'] = ['out', rng.choice((0, 1, rng.randint(0, 300), rng.randint(0, 3000))),
                     rng.choice(OUT_ERRNO), rng.random() < 0.3]
    elif x < 0.4:
        p['fail'] = ['in', rng.choice(('in', 'in', 'pat')), rng.choice((0, rng.randint(0, 200), rng.randint(0, 2000))),
                     rng.choice(IN_ERRNO)]
    p['bulk'] = bulk_plan(rng)
    if p['bulk'][0]:
        p['pats'] += ['/bulk/[0-9]+/[a-z]+']
    if p['bulk'][1] == -1:
        p['pats'] += ['/bulk/[0-9]+[\\?]k%d=[a-z]' % i for i in range(p['bulk'][0])]
    if rng.random() < 0.01:
        p['bulk'] = [0, 0]
        p['io'] = PLAIN_IO
        p['lines'] = [''] * 5001 + p['lines'][:4]
    return p


def setup(plan):
    rng = gen.rng_of('lay', plan['lay'])
    lay = layout(rng, [b(l) for l in plan['lines'] + bulk_lines(plan)], 'in')
    pl = [p.encode() for p in plan['pats']]
    noise = [n.encode() for n in plan['noise']]
    allp = pl + noise
    allp.sort(key=lambda x: mix(plan['lay'], x))
    pf = layout(rng, allp, 'pat')
    if not pf['files']:
        pf = {'files': [['/simfs/pat0', pf['stdin']]]}
    return lay, pf['files']


def execute(plan, rec):
    lay, pf = setup(plan)
    args = ['-a'] if plan['every'] else []
    iop = dict(plan['io'])
    iop['devs'] = dict(iop['devs'])
    bad = plan['fail']
    if bad and bad[0] == 'out':
        iop['out'] = dict(iop['out'], fail=bad[1:])
    elif bad:
        names = [f[0] for f in lay['files']] or ['<stdin>']
        if bad[1] == 'pat':
            names = [f[0] for f in pf]
        nm = names[mix(plan['lay'], 'f') % len(names)]
        size = {f[0]: len(f[1]) for f in lay['files'] + pf}.get(nm, len(lay['stdin'] or ''))
        iop['devs'][nm] = dict(iop['devs'].get(nm, simio.PLAIN), fail=[min(bad[2], size), bad[3]])
    with Env(plan['node']) as env:
        got = proc(env, rec, 'pattern-match', args + ['-l', plan['log']], lay, pf, iop, plan['node'])
        calm = proc(env, rec, 'pattern-match', args, lay, pf, PLAIN_IO, plan['node2'])
        rec.sim_time += env.clock.covered
        best = {}
        if not plan['every']:
            # the best match as the API ranks it
            with Node.of(plan['node2']) as node:
                m = load_all(node, sorted(set(plan['pats'])))
                for line in set(in_lines(lay)):
                    u = valid(line)
                    if u is not None:
                        best[line] = [n.meta.encode() for n in sorted(m.match(u), reverse=True)[:1]]
    if calm.code != 0:
        fail('exit', 'a calm run ends with status %d: %s', calm.code, calm.why)
    # the calm output against the model
    ins = in_lines(lay)
    outs = calm.out.split(b'\n')
    if outs.pop() != b'':
        fail('torn-output', 'the output does not end with a newline')
    if len(outs) != len(ins):
        fail('line-count', '%d output lines for %d input lines', len(outs), len(ins))
    pats = [(p.encode(), model.pattern(p)) for p in sorted(set(plan['pats']))]
    for line, out in zip(ins, outs):
        if not out.endswith(b'\t' + line):
            fail('echo', 'output line %r does not end with the input line %r', out, line)
        ans = out[:len(out) - len(line) - 1]
        u = valid(line)
        if u is None:
            if ans != b'E':
                fail('not-E', 'unusable line %r is answered %r', line, ans)
            continue
        U = model.url(u)
        want = sorted(p for p, m in pats if model.strict_match(m, U))
        if not want:
            if ans != b'N':
                fail('not-N', '%r has no match and is answered %r', line, ans)
        elif plan['every']:
            if sorted(ans.split(b'\t')) != want:
                fail('all', '%r: %r instead of %r', line, ans, want)
        else:
            if ans not in want:
                fail('best', '%r is answered %r, which does not match', line, ans)
            if best[line] != [ans]:
                fail('not-best', '%r is answered %r; ranking the matches puts %r first', line, ans, best[line])
            a = model.pattern(ans.decode())
            for p in want:
                m = model.pattern(p.decode())
                if model.refines(m, a, U) and not model.refines(a, m, U):
                    fail('general', '%r is answered %r although %r is more specific', line, ans, p)
        if want and b'+' in ans:
            rec.probe('nontrivial')
    # the same under faults
    if bad is None or not hard(rec):
        if got.code != 0:
            fail('exit', 'status %d although no I/O failed for good: %s', got.code, got.why)
        if canon_match(got.out, plan['every']) != canon_match(calm.out, plan['every']):
            fail('output', 'the output depends on how the I/O is cut: %s',
                 diff(canon_match(calm.out, plan['every']), canon_match(got.out, plan['every'])))
    else:
        rec.probe('failed-for-good')
        once = bad[0] == 'out' and bad[3]
        if got.code == 0 and not (once and canon_match(got.out, plan['every']) ==
                                   canon_match(calm.out, plan['every'])):
            fail('silent-failure', 'status 0 although I/O failed for good (%s)', sorted(rec.faults))
        g, c = got.out.split(b'\n'), calm.out.split(b'\n')
        if plan['every']:
            ok = canon_match(b'\n'.join(g[:-1]), True) == canon_match(b'\n'.join(c[:len(g) - 1]), True)
        else:
            ok = calm.out.startswith(got.out)
        if not ok:
            fail('not-prefix', 'after a failure the output is not a prefix of the full output: %r',
                 got.out[-300:])
