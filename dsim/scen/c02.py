"""C02 confluence: order, re-delivery, hashing and set order make no difference."""
from .common import *

RUNS = {'quick': 3000, 'thorough': 60000}
RULE = ('a run clusters one URL set in 3 to 5 nodes that differ in arrival order, re-deliveries, '
        'hash salt, hash collisions and set iteration order; non-trivial when a cluster is generalised')
REAL = REAL_ALL
STUB = STUBS
ASSUMPTIONS = ASSUME
SHRINK = ['urls', 'variants']


def plan(rng, tier):
    p = base_plan(rng, tier)
    p['variants'] = [{'node': rng.getrandbits(32), 'order': rng.getrandbits(32),
                      'dup': rng.choice((0, 0, 0.3, 0.8)), 'style': rng.randrange(3)}
                     for _ in range(rng.choice((2, 3, 4)))]
    return p


def execute(plan, rec):
    with Env(plan['nodes'][0]):
        base = reference(plan['urls'], plan['mcn'], plan['nodes'][0], norm)
        rec.ev('base', base)
        for v in plan['variants']:
            node = Node.of(v['node'])
            rec.fault('reorder')
            rec.fault('hash-salt')
            rec.sched(v)
            with node:
                pm = new_maker(node, plan['mcn'])
                again = []
                for u in order(plan['urls'], v['order']):
                    pm.load(u, meta=norm(u))
                    if mix(v['order'], 'd', u) % 100 < v['dup'] * 100:
                        again.append(u)
                        if len(again) > 2:
                            rec.fault('duplicate-delivery')
                            pm.load(again.pop(0), meta=norm(u) if False else None)
                for u in again:
                    rec.fault('duplicate-delivery')
                    pm.load(u, meta=norm(u))
                got = clusters(node, pm, v['style'])
            rec.ev('got', got)
            if got != base:
                fail('confluence', 'the same URLs in another order/process give other clusters: %s',
                     diff(base, got))
        nontrivial_clusters(rec, base)
