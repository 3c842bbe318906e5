"""C25 enough alike URLs become one cluster, exactly when the min_cluster_num-th arrives."""
from .common import *

RUNS = {'quick': 2500, 'thorough': 50000}
RULE = ('a run delivers one to three families of alike URLs (agreeing in some runs of characters, all '
        'different from each other in others), with re-deliveries, other URLs, rejected ones and abandoned '
        'iterations in between, and looks at the clusters at seeded points of the history; non-trivial '
        'when a family is seen with at least min_cluster_num URLs')
REAL = REAL_ALL
STUB = STUBS
ASSUMPTIONS = ASSUME + ['in a varying run the URLs of a family either all have the same length or all different ones']
SHRINK = ['fams', 'ops']
ALPHA = {'0-9': model.DIGITS, 'a-z': model.LOWER, 'A-Z': model.UPPER}


def family(rng, mcn):
    """{'urls': distinct alike URLs, 'want': pattern of each piece or None where it is not specified}"""
    k = rng.choice((mcn - 1, mcn, mcn, mcn + 1, 2 * mcn, 3 * mcn))
    for _ in range(20):
        u = gen.Template(rng, mcn)(rng)[1]
        ps = [model.runs(s) for s in u.pieces]
        can = [(i, j) for i, rs in enumerate(ps) for j, (r, t) in enumerate(rs) if r in ALPHA and len(t) < 30]
        if not can:
            continue
        cols = {}
        for i, j in rng.sample(can, rng.randint(1, min(len(can), rng.choice((1, 1, 2, 4))))):
            r, t = ps[i][j]
            wide = rng.random() < 0.35 or len(ALPHA[r]) ** len(t) < 2 * k
            lens = rng.sample(range(1, 2 * k + 2), k) if wide else [len(t)] * k
            vals = set()
            for n in lens:
                v = gen.word(rng, ALPHA[r], n, n)
                while v in vals:
                    v = gen.word(rng, ALPHA[r], n, n)
                vals.add(v)
            cols[i, j] = [sorted(vals, key=lambda x: mix(n, x)), wide]
        want = []
        for i, rs in enumerate(ps):
            js = [j for a, j in cols if a == i]
            if not js:
                want.append(model.literal(u.pieces[i]))
            elif len(rs) > 3 and not apart(rs) or (i == len(u.path) - 1 and len(rs) == 3 and rs[1][0] == '\\.' and 2 in js):
                want.append(None)
            else:
                want.append(''.join(
                    model.literal(t) if (i, j) not in cols else
                    model.wild({r}) if cols[i, j][1] else model.spec({r}, len(t))
                    for j, (r, t) in enumerate(rs)))
        urls = []
        n, q = len(u.path), len(u.values)
        for x in range(k):
            p = tuple(''.join(cols[i, j][0][x] if (i, j) in cols else t for j, (r, t) in enumerate(rs))
                      for i, rs in enumerate(ps))
            v = model.U(p[:n], u.keys, p[n:n + q], p[n + q] if u.fragment is not None else None)
            s = gen.dress(rng, v, rng.random() < 0.2)
            w = model.url(s)
            if w is None or w.key != v.key:
                break
            urls.append(s)
        else:
            return {'urls': urls, 'want': want}
    return None


def apart(rs):
    """No two runs of letters, digits or percent signs touch."""
    soft = [r in ALPHA or r == '%' for r, t in rs]
    return not any(a and b for a, b in zip(soft, soft[1:]))


def plan(rng, tier):
    mcn = pick_mcn(rng)
    fams = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        f = family(rng, mcn)
        if f and f['urls']:
            fams.append(f)
    digests = set()
    keep = []
    for f in fams:
        ds = {model.url(u).digest_key for u in f['urls']}
        if not ds & digests:
            keep.append(f)
            digests |= ds
    ops = [['load', i, j] for i, f in enumerate(keep) for j in range(len(f['urls']))]
    ops += [['load'] + rng.choice(ops)[1:] for _ in range(rng.choice((0, 0, 3, 10)))] if ops else []
    for u in gen.url_set(rng, mcn, rng.choice((0, 0, 3, 8))):
        if model.url(u).digest_key not in digests:
            ops.append(['other', u])
    for _ in range(rng.choice((0, 0, 2))):
        ops.append(['bad', gen.bad_url(rng)[0]])
    rng.shuffle(ops)
    for _ in range(rng.choice((0, 0, 1, 3))):
        ops.insert(rng.randint(0, len(ops)), rng.choice((['look'], ['look'], ['abandon', rng.randint(1, 4)])))
    # just before and just after the URL that makes it enough
    if keep and rng.random() < 0.5:
        f, seen = rng.randrange(len(keep)), set()
        for n, op in enumerate(ops):
            if op[0] == 'load' and op[1] == f:
                seen.add(op[2])
                if len(seen) == mcn:
                    ops[n + 1:n + 1] = [['look']]
                    ops[n:n] = [['look']]
                    break
    return {'mcn': mcn, 'fams': [[f['urls'], f['want']] for f in keep], 'ops': ops + [['look']],
            'node': rng.getrandbits(32)}


def execute(plan, rec):
    mcn = plan['mcn']
    keys = [{model.url(u).key: u for u in urls} for urls, want in plan['fams']]
    with Env(plan['node']):
        node = Node.of(plan['node'])
        got = [set() for _ in keys]
        with node:
            pm = new_maker(node, mcn)
            for op in plan['ops']:
                if op[0] == 'load':
                    if op[1] >= len(keys):
                        continue
                    u = plan['fams'][op[1]][0][op[2]]
                    pm.load(u, meta=u)
                    k = model.url(u).key
                    if k in got[op[1]]:
                        rec.fault('duplicate-delivery')
                    got[op[1]].add(k)
                elif op[0] == 'other':
                    pm.load(op[1], meta=op[1])
                elif op[0] == 'bad':
                    rec.fault('corrupt-delivery')
                    try:
                        pm.load(op[1], meta=op[1])
                    except Exception:
                        pass
                elif op[0] == 'abandon':
                    rec.fault('abandoned-iteration')
                    for (meta, root), _ in zip(pm.make(), range(op[1])):
                        pass
                else:
                    cl = clusters(node, pm)
                    rec.ev('clusters', cl)
                    rec.sched([len(x) for x in got])
                    for i, (urls, want) in enumerate(plan['fams']):
                        judge(plan, rec, cl, urls, want, keys[i], got[i])


def judge(plan, rec, cl, urls, want, keys, got):
    mine = [(pat, {model.url(m).key for m in ms}) for pat, ms, _ in cl]
    mine = [(pat, ks) for pat, ks in mine if ks & got]
    if not got:
        return
    one = keys[sorted(got, key=repr)[0]]
    if len(got) < plan['mcn']:
        for pat, ks in mine:
            lit = model.url(keys[sorted(ks & got, key=repr)[0]]).literal if len(ks) == 1 else None
            if pat != lit:
                fail('too-early', '%d alike URLs (fewer than %d) gave %s for %s', len(got), plan['mcn'], pat, short(sorted(ks, key=repr), 200))
        return
    rec.probe('nontrivial')
    if len(mine) != 1:
        fail('not-one', '%d alike URLs such as %s are in %d clusters: %s', len(got), one, len(mine),
             short([p for p, _ in mine]))
    pat, ks = mine[0]
    if ks != got:
        fail('members', 'the cluster %s of %d alike URLs such as %s has %d members', pat, len(got), one, len(ks))
    p = model.pattern(pat)
    if p is None:
        fail('pattern', 'the pattern %s of %s has another structure', pat, one)
    for w, us in zip(want, p.pieces):
        g = ''.join(x.text for x in us)
        if w is not None and g != w:
            fail('piece', '%d alike URLs such as %s: the pattern %s has %s instead of %s', len(got), one, pat, g, w)
