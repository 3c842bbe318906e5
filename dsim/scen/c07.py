"""C07 ranking of matches."""
from .common import *

RUNS = {'quick': 2000, 'thorough': 40000}
RULE = ('a run ranks the matches of several URLs in 2 to 4 nodes that loaded the same patterns in other '
        'orders; non-trivial when a URL has at least three matches of which two are ordered by generality')
REAL = REAL_ALL
STUB = STUBS
ASSUMPTIONS = ASSUME + ['patterns spelled as clustering spells them']
SHRINK = ['pats', 'urls', 'orders']


def plan(rng, tier):
    mcn = pick_mcn(rng)
    urls = gen.url_set(rng, mcn, rng.choice((1, 2, 4, 8)))
    pats = []
    for u in urls:
        for _ in range(rng.choice((2, 4, 8, 12))):
            pats.append(model.generalise_url(rng, model.url(u)))
        pats.append(model.url(u).literal) if rng.random() < 0.5 else None
    return {'urls': urls, 'pats': pats, 'nodes': [rng.getrandbits(32)],
            'orders': [rng.getrandbits(32) for _ in range(rng.choice((2, 3, 4)))],
            'between': rng.random() < 0.3}


def execute(plan, rec):
    with Env(plan['nodes'][0]):
        first = {}
        for o in plan['orders']:
            node = Node.of(o)
            rec.fault('reordered-patterns')
            rec.sched(o)
            with node:
                m = node.PatternMatcher()
                for i, p in enumerate(order(plan['pats'], o)):
                    m.load(p, meta=p)
                    if plan['between'] and plan['urls']:
                        sorted(m.match(plan['urls'][i % len(plan['urls'])]))
                for u in plan['urls']:
                    got = m.match(u)
                    rank = [n.meta for n in sorted(got, reverse=True)]
                    rec.ev('rank', u, rank)
                    if rank != first.setdefault(u, rank):
                        fail('order-dependent', '%s: ranking %s and %s for two load orders', u,
                             short(first[u]), short(rank))
                    if [n.meta for n in sorted(got)] != rank[::-1]:
                        fail('asymmetric', '%s: ascending and descending order disagree', u)
                    if got and max(got).meta != rank[0]:
                        fail('best', '%s: max() is %s, first of the ranking %s', u, max(got).meta, rank[0])
        for u, rank in first.items():
            U = model.url(u)
            ps = [model.pattern(p) for p in rank]
            if any(not model.strict_match(p, U) for p in ps):
                rec.probe('unsound-match')      # C06 decides this
                continue
            for j, b in enumerate(ps):
                for i in range(j):
                    a = ps[i]
                    down, up = model.refines(b, a, U), model.refines(a, b, U)
                    if down and not up:
                        fail('needlessly-general', '%s: %s is ranked above %s, which is more specific',
                             u, a.text, b.text)
                    if up and not down and len(ps) > 2:
                        rec.probe('nontrivial')
            lit = U.literal
            if lit in rank and rank[0] != lit:
                fail('literal-first', '%s: the literal pattern is ranked %d', u, rank.index(lit))
