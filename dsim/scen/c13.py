"""C13 damaged pattern files only lose the damaged lines."""
from .cli import *

RUNS = {'quick': 1600, 'thorough': 32000}
RULE = ('a run damages pattern files (bit flips, truncation, zeroed blocks, lost and repeated blocks, '
        'inserted garbage, CRLF, cluster output instead of patterns), runs pattern-match on them and '
        'compares with the model restricted to the intact lines; non-trivial when some lines are '
        'damaged and some URL is answered with an intact pattern')
REAL = CLI_REAL
STUB = CLI_STUB
ASSUMPTIONS = ASSUME
SHRINK = ['lines', 'pats', 'damage', 'indent']


def plan(rng, tier):
    mcn = pick_mcn(rng)
    urls = gen.url_set(rng, mcn, rng.choice((4, 8, 16)))
    us = [model.url(u) for u in urls]
    pats = [model.generalise_url(rng, u) for u in us for _ in range(rng.choice((1, 2)))]
    size = sum(len(p) + 1 for p in pats)
    dmg = []
    for _ in range(rng.choice((1, 1, 2, 4))):
        o = rng.randint(0, max(1, size))
        dmg.append(rng.choice((
            ['flip', o, rng.randrange(256)], ['flip', o, rng.choice((10, 47, 91, 93, 123, 43, 32, 9))],
            ['trunc', rng.randint(size // 2, size + 1)], ['zero', o, rng.choice((1, 16, 64))],
            ['lose', o, rng.choice((1, 5, 64))], ['repeat', o, rng.choice((1, 20, 100))],
            ['insert', o, rng.choice(('\n', '\xff\xfe', '[', '{', '/', 'garbage', '\n/\n', '\n//\n', '\n/a[0-9\n',
                                      '\n/[0-9]{0}\n', '\n/[\n', '\n#\n', '\n/#\n', '\n[\\?]\n', '\n/x[\\?]&\n',
                                      '\n/' + 'a' * 3000 + '\n', '\n/[]+\n', '\n/[0-9]{99999999999}\n',
                                      '\n/{3}\n', '\n/a{\n', '\n/é\n', '\x00' * 8, '\n/[a-z]{\x00}\n'))],
            ['insert', o, ('\n', '\n', '\n/[0-9\n', '\n/[0-9]{0}/%\n', '\nx\n', '\n/é\n')[rng.randrange(6)] * rng.randint(8, 130)],
            ['crlf'], ['swap', o, rng.randint(0, max(1, size)), 8])))
    return {'pats': pats, 'lines': urls + [gen.dress(rng, gen.mutate(rng, u)) for u in us[:6]],
            'indent': [rng.choice(('\t', ' ', '\t\t', '\x0b', 'x\t', '> ', '-')) + model.generalise_url(rng, u)
                       for u in us if rng.random() < 0.5] if rng.random() < 0.4 else [],
            'damage': dmg, 'cluster': rng.choice((None, None, 'CLUSTER', 'INLINE', 'JSON', 'mixed')), 'files': rng.choice((1, 1, 2, 3)),
            'node': rng.getrandbits(32), 'order': rng.getrandbits(32),
            'io': io_plan(rng, ['/simfs/pat%d' % i for i in range(3)], 0.7)}


def apply(data, dmg):
    data = bytearray(data)
    for d in dmg:
        k = d[0]
        if k == 'flip' and d[1] < len(data):
            data[d[1]] = d[2]
        elif k == 'trunc':
            del data[d[1]:]
        elif k == 'zero':
            for i in range(d[1], min(len(data), d[1] + d[2])):
                data[i] = 0
        elif k == 'lose':
            del data[d[1]:d[1] + d[2]]
        elif k == 'repeat':
            data[d[1]:d[1]] = data[d[1]:d[1] + d[2]]
        elif k == 'insert':
            data[d[1]:d[1]] = d[2].encode('latin-1', 'replace') if '\xff' in d[2] else d[2].encode('utf-8')
        elif k == 'crlf':
            data = bytearray(bytes(data).replace(b'\n', b'\r\n'))
        elif k == 'swap':
            a, z = sorted((d[1], d[2]))
            if a + d[3] <= z and z + d[3] <= len(data):
                data[a:a + d[3]], data[z:z + d[3]] = data[z:z + d[3]], data[a:a + d[3]]
    return bytes(data)


def execute(plan, rec):
    pats = order(plan['pats'], plan['order'], 5)
    n = plan['files']
    files = []
    for i in range(n):
        part = pats[i::n]
        text = ''
        for j, p in enumerate(part):
            text += p + '\n'
            # the file is an output of pattern-make in another format, or several appended
            k = plan['cluster']
            u = plan['lines'][(i + j) % len(plan['lines'])] if plan['lines'] else 'http://h/a'
            if k == 'mixed':
                k = ('CLUSTER', 'INLINE', 'JSON', None)[mix(plan['order'], i, j) % 4]
            if k == 'CLUSTER':
                text += '\t' + u + '\n'
            elif k == 'INLINE':
                text += p + '\t' + u + '\n'
            elif k == 'JSON':
                text += '{"ptn": "%s", "cnt": 3}\n' % p
        for j, l in enumerate(plan['indent']):
            if mix(plan['order'], 'indent', j) % n == i:
                text = l + '\n' + text if mix(plan['order'], 'front', j) % 2 else text + l + '\n'
                rec.fault('foreign-line')
        raw = text.encode()
        if i == 0:
            raw = apply(raw, plan['damage'])
            for d in plan['damage']:
                rec.fault('file-' + d[0])
        files.append(['/simfs/pat%d' % i, t(raw)])
    have = []
    for _, x in files:
        for l in b(x).split(b'\n'):
            have.append(l.rstrip())
    good = {p.encode() for p in plan['pats']}
    intact = sorted(set(l for l in have if l in good))
    damaged = [l for l in have if l.startswith(b'/') and l not in good]
    lay = {'files': [], 'stdin': '\n'.join(plan['lines']) + '\n' if plan['lines'] else ''}
    with Env(plan['node']) as env:
        every = proc(env, rec, 'pattern-match', ['-a'], lay, files, plan['io'], plan['node'])
        best = proc(env, rec, 'pattern-match', [], lay, files, PLAIN_IO, plan['node'])
        clean = [['/simfs/pat0', t(b'\n'.join(intact) + b'\n')]]
        ref = proc(env, rec, 'pattern-match', [], lay, clean, PLAIN_IO, plan['node'])
        rec.sim_time += env.clock.covered
    for r, what in ((every, '-a'), (best, 'best')):
        if r.code != 0:
            fail('exit', 'pattern-match (%s) ends with status %d on a damaged pattern file: %s',
                 what, r.code, r.why)
    ins = in_lines(lay)
    outs = [x.split(b'\n')[:-1] for x in (every.out, best.out, ref.out)]
    if any(len(o) != len(ins) for o in outs):
        fail('line-count', '%s output lines for %d input lines', [len(o) for o in outs], len(ins))
    mods = [(p, model.pattern(p.decode())) for p in intact]
    hset = set(have)
    for line, a, bb, rr in zip(ins, *outs):
        U = model.url(line.decode())
        want = {p for p, m in mods if model.strict_match(m, U)}
        fields = a.split(b'\t')
        if fields[-1] != line:
            fail('echo', 'output line %r does not end with the input line %r', a, line)
        ans = fields[:-1]
        if ans == [b'N']:
            ans = []
        elif ans == [b'E']:
            fail('error', 'a valid URL is answered E: %r', line)
        for x in ans:
            if x not in hset:
                fail('foreign-pattern', '%r is reported for %r but is not a line of the files', x, line)
        if len(set(ans)) != len(ans):
            fail('twice', 'a pattern is reported twice for %r: %r', line, ans)
        if not {same(x) for x in want} <= {same(x) for x in ans} or not {x for x in ans if x in good} <= want:
            fail('intact-lost', '%r: intact patterns %s are not answered as in an undamaged file: %r',
                 line, sorted(want), ans)
        if not [x for x in ans if x not in good] and bb != rr:
            fail('best', '%r: best match %r, with the intact lines alone %r', line, bb, rr)
        if want and damaged:
            rec.probe('nontrivial')
    rec.ev('answers', outs[0])
    rec.sched(plan['damage'], len(damaged))
