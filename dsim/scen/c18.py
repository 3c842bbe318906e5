"""C18 finished clusters are final and distinct."""
from .common import *

RUNS = {'quick': 2000, 'thorough': 40000}
RULE = ('a run clusters a URL set and clusters the members of every cluster again, alone, in another '
        'order and another node; non-trivial when a generalised cluster was re-clustered')
REAL = REAL_ALL
STUB = STUBS
ASSUMPTIONS = ASSUME
SHRINK = ['urls']


def plan(rng, tier):
    p = base_plan(rng, tier)
    p['order'] = rng.getrandbits(32)
    return p


def execute(plan, rec):
    with Env(plan['nodes'][0]):
        cl = reference(plan['urls'], plan['mcn'], plan['nodes'][0], norm)
        rec.ev('clusters', cl)
        rec.sched(plan['order'], plan['nodes'])
        pats = [c[0] for c in cl]
        for p in pats:
            if pats.count(p) > 1:
                fail('same-pattern', 'two clusters have the pattern %s: %s', p,
                     short([c for c in cl if c[0] == p]))
        text = {norm(u): u for u in plan['urls']}
        with Node.of(plan['nodes'][1]) as node:
            for pat, members, count in cl:
                pm = new_maker(node, plan['mcn'])
                rec.fault('reorder')
                for n in order(members, plan['order']):
                    pm.load(text[n], meta=n)
                again = clusters(node, pm)
                rec.ev('again', again)
                if again != [(pat, members, count)]:
                    fail('not-final', 'clustering the members of %s alone gives %s', pat,
                         short([(p, c) for p, _, c in again]))
        nontrivial_clusters(rec, cl)
