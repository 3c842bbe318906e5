"""Shared by the scenarios: drives the real package through its public API."""
from .. import gen, model
from ..core import Env, SimClock, Violation, mix
from ..world import Node

REAL_ALL = ['all of src/os_urlpattern, loaded from the working tree of /repo into private nodes '
            '(one per simulated process)']
STUBS = ['set, frozenset and hash() of the repository code (seeded iteration order, salted and '
         'sometimes 3-bit hashes)',
         'time module (virtual clock)', 'psutil, ete3 (stand-ins)']
ASSUME = ['min_cluster_num >= 2', 'URLs contain no tab, CR or LF', 'URLs of at most 60 path levels, except for some of 900 to 1400 in C01, C04 and C06']


def fail(kind, fmt, *args):
    raise Violation(kind, fmt % args if args else fmt)


def canon(node, url_meta, root):
    """(pattern, members, count) of one cluster."""
    recs = list(node.pformat('CLUSTER', url_meta, root))
    if not recs:
        fail('no-pattern', 'a cluster without a pattern record')
    return (recs[0], tuple(sorted(r[1:] for r in recs[1:])), root.count)


def clusters(node, pm, style=0):
    """All clusters of a PatternMaker, canonical order."""
    out = []
    if style == 0:
        for meta, root in pm.make():
            out.append(canon(node, meta, root))
    elif style == 1:
        for maker in pm.makers:
            for root in maker.make():
                out.append(canon(node, maker.url_meta, root))
    else:
        held = list(pm.make())
        for meta, root in held:
            out.append(canon(node, meta, root))
    return sorted(out)


def new_maker(node, mcn):
    if mcn == 3 and node.seed % 2:
        return node.PatternMaker()          # 3 is the default
    return node.PatternMaker(node.config(mcn))


def reference(urls, mcn, seed=0, meta=None):
    """Clusters of a fresh process that gets the URLs in the given order."""
    node = Node.of(mix('ref', seed))
    with node:
        pm = new_maker(node, mcn)
        for u in urls:
            pm.load(u, meta=meta(u) if meta else u)
        return clusters(node, pm)


def order(urls, seed, mode=None):
    """A permutation of the URLs which is stable when URLs are removed."""
    m = mode if mode is not None else mix(seed, 'order') % 6
    if m == 0:
        return sorted(urls)
    if m == 1:
        return sorted(urls, reverse=True)
    if m == 2:
        return sorted(urls, key=lambda u: (len(u), mix(seed, u)))
    return sorted(urls, key=lambda u: mix(seed, u))


def norm(u):
    return model.url(u).norm


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def diff(a, b, n=3):
    """What is in only one of two lists."""
    from collections import Counter
    ca, cb = Counter(map(repr, a)), Counter(map(repr, b))
    x = sorted((ca - cb).elements())[:n]
    y = sorted((cb - ca).elements())[:n]
    return 'only in the first: %s; only in the second: %s' % (short(x, 900), short(y, 900))


def nontrivial_clusters(rec, cl):
    """Count what kinds of clusters a run met."""
    n = 0
    for pat, members, count in cl:
        p = model.pattern(pat)
        if p is not None and not p.is_literal:
            n += 1
    if n:
        rec.probe('generalised-clusters', n)
    if len(cl) > 1 and n:
        rec.probe('split-runs')
    if n:
        rec.probe('nontrivial')
    return n


def load_all(node, patterns, matcher=None):
    m = matcher or node.PatternMatcher()
    for p in patterns:
        m.load(p, meta=p)
    return m


def pick_mcn(rng):
    if rng.random() < 0.02:
        return rng.choice((15, 20, 30))
    return rng.choice((2, 3, 3, 3, 4, 5, 6, 8, 10))


def base_plan(rng, tier, deep_p=0.03, size=None, big_p=0.02, huge_p=0.002):
    mcn = pick_mcn(rng)
    if size is None:
        size = rng.choice((4, 8, 12, 16, 24, 32) if tier == 'quick' else (4, 8, 16, 24, 32, 48, 80))
    if rng.random() < 0.7:
        size = max(size, min(mcn + 3, 13)) if mcn <= 10 else max(size, mcn + rng.choice((-1, 0, 3, mcn)))
    return {'mcn': mcn, 'urls': gen.url_set(rng, mcn, size, deep=rng.random() < deep_p,
                                            big='huge' if rng.random() < huge_p else rng.random() < big_p),
            'nodes': [rng.getrandbits(32) for _ in range(3)]}
