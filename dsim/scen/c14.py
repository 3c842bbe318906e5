"""C14 fuzzy digest: stable over nodes, exact for structure and character spaces."""
from .common import *

RUNS = {'quick': 2500, 'thorough': 50000}
RULE = ('a run digests URLs, near-miss variants, parsed forms and patterns in 2 or 3 nodes with different '
        'hash salts and set orders and compares every pair with the reference structure; non-trivial '
        'when two different URLs share a digest and two others do not')
REAL = REAL_ALL
STUB = STUBS
ASSUMPTIONS = ASSUME
SHRINK = ['urls', 'nodes']


def restructure(rng, u):
    """Another structure made of the same text."""
    path, keys, values, frag = list(u.path), list(u.keys), list(u.values), u.fragment
    x = rng.randrange(15) if len(keys) < 2 or rng.random() < 0.7 else rng.choice((2, 13))
    if x == 0 and len(path) > 1:
        path.pop(rng.randrange(len(path)))
    elif x == 1:
        path.insert(rng.randrange(len(path)), rng.choice(('a', '0', path[0] or 'b')))
    elif x == 2 and len(keys) > 1:
        i, j = rng.sample(range(len(keys)), 2)
        keys[i], keys[j] = keys[j], keys[i]
    elif x == 3:
        frag = None if frag is not None else rng.choice(('', 'a'))
    elif x == 4:
        if not (len(keys) == 1 and not keys[0].endswith('=')):
            keys.append('zz=')
            values.append('1')
    elif x == 5 and keys and keys[0].endswith('='):
        keys[0] = rng.choice(('id=', 'k-=', 'k--=', 'K='))
    elif x == 6:
        path[-1] = ''
    elif x == 7 and not keys:
        keys, values = [''], [rng.choice(('', 'a', '1'))]
    elif x == 8 and len(path) > 1 and frag is None:
        frag = path.pop()
    elif x == 9 and frag is not None and '/' not in frag:
        path.append(frag)
        frag = None
    elif x == 10 and len(path) > 1 and not keys:
        keys, values = [''], [path.pop()]
    elif x == 11 and keys == ['']:
        keys = ['k=']
    elif x == 12 and len(keys) == 1 and keys[0].endswith('='):
        if rng.random() < 0.5:
            keys, values = [''], [keys[0].rstrip('=') + '-' + values[0]]
        else:
            keys, values, frag = [], [], values[0]
    elif x == 13 and len(keys) > 1:
        i = rng.randrange(len(keys) - 1)    # the value of one key becomes that of the next
        values[i], values[i + 1] = values[i + 1], values[i]
    elif x == 14 and keys and keys != ['']:
        i = rng.randrange(len(keys))        # a key of the same shape
        k, e = (keys[i][:-1], '=') if keys[i].endswith('=') else (keys[i], '')
        k = ''.join(rng.choice({'a-z': model.LOWER, '0-9': model.DIGITS, 'A-Z': model.UPPER}.get(model.RULE[c], c))
                    for c in k)
        keys[i] = k + e
    if not path[0] and len(path) > 1:
        path[0] = 'e'
    return model.U(tuple(path), tuple(keys), tuple(values), frag)


def plan(rng, tier):
    urls = gen.url_set(rng, 3, rng.choice((3, 6, 10)), deep=rng.random() < 0.03)
    if rng.random() < 0.002:
        urls = gen.huge_set(rng, 3)
    out = list(urls)
    for u in urls:
        if len(out) > 1200:
            break
        U = model.url(u)
        for _ in range(rng.randint(1, 3)):
            v = gen.mutate(rng, U) if rng.random() < 0.5 else restructure(rng, U)
            s = gen.dress(rng, v, rng.random() < 0.3)
            w = model.url(s)
            if w is not None:       # whatever it is by now, it is a URL
                out.append(s)
    return {'urls': out, 'nodes': [rng.getrandbits(32) for _ in range(rng.choice((2, 3)))],
            'gseed': rng.getrandbits(32), 'mcn': pick_mcn(rng)}


def execute(plan, rec):
    with Env(plan['gseed']):
        byd, byk = {}, {}
        first = {}
        for n, s in enumerate(plan['nodes']):
            node = Node.of(s)
            rec.fault('hash-salt')
            with node:
                fd = node.fuzzy_digest
                for u in order(plan['urls'], s):
                    U = model.url(u)
                    d = fd(u)
                    if first.setdefault(u, d) != d:
                        fail('node-dependent', '%s: digest %s in one process, %s in another', u, first[u], d)
                    meta, pieces = node.parse(u)
                    if fd(meta, pieces) != d:
                        fail('parsed-form', '%s: digest of the URL and of its parsed form differ', u)
                    g = gen.rng_of(plan['gseed'], u)
                    for p in [U.literal] + [model.generalise_url(g, U) for _ in range(3)]:
                        dp = fd(p)
                        if dp != d:
                            fail('pattern-digest', 'digest of %s and of its pattern %s differ', u, p)
                        pm, pp = node.parse(p)
                        if fd(pm, pp) != d:
                            fail('pattern-parsed', 'digest of pattern %s and of its parsed form differ', p)
                    if n == 0:
                        k = repr((U.structure, [sorted(x) for x in U.digest_key[1]]))
                        rec.ev('digest', u, d)
                        if byd.setdefault(d, (k, u))[0] != k:
                            fail('collision', 'different structures, same digest: %s and %s', byd[d][1], u)
                        if byk.setdefault(k, (d, u))[0] != d:
                            fail('not-shared', 'same structure, different digests: %s and %s', byk[k][1], u)
                if n == 0:
                    pm = new_maker(node, plan['mcn'])
                    for u in plan['urls']:
                        pm.load(u, meta=u)
                    for pat, members, count in clusters(node, pm):
                        for u in members:
                            if first[u] != fd(pat):
                                fail('made-pattern', '%s and the pattern %s made for it have different '
                                     'digests', u, pat)
        if len(byd) > 1 and len(byd) < len({model.url(u).key for u in plan['urls']}):
            rec.probe('nontrivial')
        rec.sched(len(byd), len(plan['urls']), plan['nodes'])
