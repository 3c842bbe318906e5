"""C04 round trip: the pattern of a cluster matches the URLs of the cluster, in another process."""
from .common import *

RUNS = {'quick': 2500, 'thorough': 50000}
RULE = ('a run clusters a URL set in one node, ships the patterns (reordered, repeated, among foreign '
        'patterns, some rejected ones) to another node and matches every URL there; non-trivial when '
        'a cluster is generalised')
REAL = REAL_ALL
STUB = STUBS
ASSUMPTIONS = ASSUME
SHRINK = ['urls', 'foreign', 'junk']


def plan(rng, tier):
    p = base_plan(rng, tier)
    if rng.random() < 0.004:
        p['urls'] = p['urls'][:6] + gen.deep_urls(rng)
    us = [model.url(u) for u in p['urls']]
    p['foreign'] = [model.generalise_url(rng, rng.choice(us))
                    for _ in range(rng.choice((0, 0, 3, 10)))] if us else []
    if us and rng.random() < 0.3:
        p['foreign'] += [model.generalise_url(rng, gen.mutate(rng, rng.choice(us))) for _ in range(5)]
    p['junk'] = [gen.bad_pattern(rng, rng.choice(us).literal)[0]
                 for _ in range(rng.choice((0, 0, 2)))] if us else []
    p['order'] = rng.getrandbits(32)
    p['low'] = rng.random() < 0.4
    return p


def execute(plan, rec):
    with Env(plan['nodes'][0]):
        cl = reference(plan['urls'], plan['mcn'], plan['nodes'][0])
        rec.ev('clusters', cl)
        pats = [c[0] for c in cl]
        ship = sorted([[mix(plan['order'], i, p), p] for i, p in
                       enumerate(pats + pats[::3] + plan['foreign'] + plan['junk'])])
        node = Node.of(plan['nodes'][1])
        with node:
            m = {} if plan['low'] else node.PatternMatcher()
            for _, p in ship:
                try:
                    if plan['low']:
                        meta, pp = node.parse(p)
                        d = node.fuzzy_digest(meta, pp)
                        if d not in m:
                            m[d] = node.Matcher(meta)
                        m[d].load(pp, meta=p)
                        if p not in plan['junk'] and m[d].url_meta != meta:
                            fail('url-meta', 'the structure of the matcher is not that of its pattern %s', p)
                    else:
                        m.load(p, meta=p)
                except Exception as e:
                    if p not in plan['junk']:
                        fail('load', 'pattern %s cannot be loaded: %r', p, e)
                    rec.fault('junk-pattern')
            rec.fault('reordered-patterns')
            rec.sched([x for x, _ in ship], plan['nodes'])
            for pat, members, count in cl:
                p = model.pattern(pat)
                for u in members:
                    U = model.url(u)
                    if plan['low']:
                        meta, pp = node.parse(u)
                        d = node.fuzzy_digest(meta, pp)
                        got = [n.meta for n in m[d].match(pp)] if d in m else []
                    else:
                        got = [n.meta for n in m.match(u)]
                    rec.ev('match', u, sorted(got))
                    if pat not in got:
                        fail('own-pattern', '%s of the cluster %s is not matched by it (got %s)',
                             u, pat, short(got))
                    if not model.regex_match(pat, U):
                        fail('regex', '%s is not a full match of the regular expression %s', U.norm, pat)
                    if p is None or not model.strict_match(p, U):
                        fail('strict', '%s does not have the pattern %s of its cluster', u, pat)
        nontrivial_clusters(rec, cl)
