"""C23 what pattern-make wrote before it died is usable by pattern-match."""
from ..threads import Interrupter
from .cli import *

RUNS = {'quick': 900, 'thorough': 24000}
RULE = ('a run pipes pattern-make into pattern-match through a simulated file: the making processes die at '
        'a seeded byte (full disk, broken pipe, I/O error) or line (interrupt, kill with unflushed data '
        'lost), are restarted and append or write anew; then pattern-match reads what is there; '
        'non-trivial when a process died and a generalised pattern of a complete record was answered')
REAL = CLI_REAL
STUB = CLI_STUB
ASSUMPTIONS = ASSUME
SHRINK = ['urls', 'makes']


def plan(rng, tier):
    p = base_plan(rng, tier, size=rng.choice((6, 12, 20)))
    size = 40 * len(p['urls'])
    p['makes'] = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        p['makes'].append({
            'death': rng.choice(('none', 'full', 'full', 'interrupt', 'kill', 'kill')),
            'at': rng.choice((0, 1, rng.randint(0, 200), rng.randint(0, max(1, size)))),
            'errno': rng.choice((errno.ENOSPC, errno.EPIPE, errno.EIO)),
            'fmt': rng.choice(('PATTERN', 'CLUSTER')), 'how': rng.choice(('append', 'append', 'new')),
            'node': rng.getrandbits(32), 'order': rng.getrandbits(32), 'buf': rng.choice((1, 7, 64, 1000, 8192)),
            'part': rng.random() < 0.3})
    p['all'] = rng.getrandbits(32)
    p['io'] = io_plan(rng, ['/simfs/pat0', '<stdin>'], 0.5)
    return p


def execute(plan, rec):
    files = []                  # contents of the pattern files
    full = []                   # what each make would have written
    with Env(plan['nodes'][0]) as env:
        for i, mk in enumerate(plan['makes']):
            urls = order(plan['urls'], mk['order'])
            if mk['part']:
                urls = [u for u in urls if mix(mk['order'], 'p', u) % 3]
            lay = {'files': [], 'stdin': t(b''.join(u.encode() + b'\n' for u in urls))}
            cfg = [['/simfs/make.cfg', '[make]\nmin_cluster_num = %d\n' % plan['mcn']]]
            args = ['-c', '/simfs/make.cfg', '-f', mk['fmt']]
            dev = {'seed': mk['node'], 'buf': mk['buf']}
            iop = {'out': dev, 'encoding': 'utf-8', 'devs': {}}
            meter = Interrupter()
            calm = proc(env, rec, 'pattern-make', args, lay, cfg, iop, mk['node'], meter)
            if calm.code != 0:
                fail('exit', 'a calm pattern-make ends with status %d: %s', calm.code, calm.why)
            full.append((mk['fmt'], calm.out))
            out = calm.out
            if mk['death'] == 'full':
                iop['out'] = dict(dev, fail=[mk['at'], mk['errno'], False])
                out = proc(env, rec, 'pattern-make', args, lay, cfg, iop, mk['node']).out
            elif mk['death'] == 'interrupt' and meter.count:
                bolt = Interrupter(1 + mix(mk['at'], mk['node']) % meter.count, KeyboardInterrupt())
                out = proc(env, rec, 'pattern-make', args, lay, cfg, iop, mk['node'], bolt).out
                rec.fault('interrupt')
            elif mk['death'] == 'kill':
                # SIGKILL: what was not flushed is gone; what reached the device stays
                n = mk['at'] // mk['buf'] * mk['buf'] if mk['buf'] > 1 else mk['at']
                out = calm.out[:n]
                rec.fault('process-kill')
            if not calm.out.startswith(out):
                fail('not-prefix', 'a dying pattern-make wrote what a living one does not: %r', out[-200:])
            rec.sched(mk['death'], len(out), mk['how'])
            if mk['how'] == 'append' and files:
                files[-1] += out
            else:
                files.append(out)
        pf = [['/simfs/pat%d' % i, t(x)] for i, x in enumerate(files)]
        lay = {'files': [], 'stdin': t(b''.join(u.encode() + b'\n' for u in order(plan['urls'], plan['all'])))}
        got = proc(env, rec, 'pattern-match', ['-a'], lay, pf, plan['io'], plan['nodes'][1])
        best = proc(env, rec, 'pattern-match', [], lay, pf, PLAIN_IO, plan['nodes'][2])
        rec.sim_time += env.clock.covered
    for r in (got, best):
        if r.code != 0:
            fail('exit', 'pattern-match ends with status %d on the output of a dead pattern-make: %s', r.code, r.why)
    have = [l for x in files for l in x.split(b'\n')]
    hset = set(have)
    made = {}
    for fmt, raw in full:
        for l in raw.split(b'\n'):
            if l.startswith(b'/') and l in hset:
                made.setdefault(l, model.pattern(l.decode()))
    ins = in_lines(lay)
    outs = [x.split(b'\n')[:-1] for x in (got.out, best.out)]
    if any(len(o) != len(ins) for o in outs):
        fail('line-count', '%s output lines for %d input lines', [len(o) for o in outs], len(ins))
    for line, a, bb in zip(ins, *outs):
        U = model.url(line.decode())
        if not a.endswith(b'\t' + line):
            fail('echo', 'output line %r does not end with the input line %r', a, line)
        ans = a[:len(a) - len(line) - 1].split(b'\t')
        if ans == [b'N']:
            ans = []
        want = {p for p, m in made.items() if model.strict_match(m, U)}
        lost = {same(x) for x in want} - {same(x) for x in ans}
        if lost:
            fail('lost', '%r: %r was written completely but is not answered: %r', line, sorted(lost)[0], ans)
        for x in ans:
            if x not in hset:
                fail('foreign-pattern', '%r is answered for %r but is no line of the files', x, line)
            if x in made and x not in want:
                fail('wrong', '%r is answered %r, which does not match', line, x)
        if len(set(ans)) != len(ans):
            fail('twice', 'a pattern is answered twice for %r: %r', line, ans)
        first = bb[:len(bb) - len(line) - 1]
        if (first == b'N') != (not ans) or (ans and first not in ans):
            fail('best', '%r is answered %r with all matches %r', line, first, ans)
        if ans and not [x for x in ans if x not in made]:
            m = made[first]
            for p in want:
                if model.refines(made[p], m, U) and not model.refines(m, made[p], U):
                    fail('general', '%r is answered %r although %r is more specific', line, first, p)
        if any(b'+' in x for x in want) and any(k in rec.faults for k in (
                'interrupt', 'process-kill', 'torn-write', 'write-ENOSPC', 'write-EPIPE', 'write-EIO')):
            rec.probe('nontrivial')
    # a complete make: every member of a cluster is answered with the pattern of its cluster
    for mk, (fmt, raw) in zip(plan['makes'], full):
        if fmt != 'CLUSTER':
            continue
        for pat, members in parse_make(fmt, raw):
            if pat.encode() not in hset:
                continue
            for line, a in zip(ins, outs[0]):
                if line.decode() in members and same(pat.encode()) not in [same(x) for x in a.split(b'\t')]:
                    fail('member', '%r is in the cluster of %r but not matched by it', line, pat)
    rec.ev('answers', [sorted(a.split(b'\t')) for a in outs[0]])
