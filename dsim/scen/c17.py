"""C17 generalisation needs min_cluster_num distinct URLs."""
from .common import *

RUNS = {'quick': 3000, 'thorough': 60000}
RULE = ('a run delivers a URL set with heavy re-delivery (also between two clusterings) under a random '
        'min_cluster_num and counts the distinct URLs below every generalised pattern; non-trivial '
        'when a cluster is generalised')
REAL = REAL_ALL
STUB = STUBS
ASSUMPTIONS = ASSUME
SHRINK = ['ops']


def plan(rng, tier):
    mcn = rng.choice((2, 3, 3, 4, 5, 6, 7, 8, 10, 12))
    if rng.random() < 0.04:
        mcn = rng.choice((16, 20, 24, 30, 40, 60))
    urls = gen.url_set(rng, mcn, rng.choice((mcn, mcn + 1, 2 * mcn, 3 * mcn, 24)))
    if rng.random() < 0.5:
        # groups just below the threshold
        t = gen.Template(rng, mcn)
        urls += [x for x in (t(rng)[0] for _ in range(mcn - 1)) if model.url(x)]
    ops = []
    for u in urls:
        for k in range(rng.choice((1, 1, 2, mcn, 2 * mcn) if mcn < 16 else (1, 1, 2, 3))):
            v = u if rng.random() < 0.5 else gen.dress(rng, model.url(u), True)
            ops.append(['load', v])
    if rng.random() < 0.6:
        rng.shuffle(ops)
    if rng.random() < 0.4:
        ops.insert(rng.randint(0, len(ops)), ['make', rng.randint(0, 3)])
    # another maker with another threshold in the same process, before and in between
    side = []
    if rng.random() < 0.25:
        side = [x for x in (gen.Template(rng, 2)(rng)[0] for _ in range(rng.choice((1, 3, 5)))) if model.url(x)]
        ops.insert(rng.randint(0, len(ops)), ['side'])
    return {'mcn': mcn, 'side': [rng.choice((2, 2, 3, 20)), side], 'ops': ops, 'node': rng.getrandbits(32), 'style': rng.randrange(3)}


def execute(plan, rec):
    with Env(plan['node']):
        with Node.of(plan['node']) as node:
            other = new_maker(node, plan['side'][0])
            for u in plan['side'][1]:
                other.load(u, meta=u)
            if plan['side'][1]:
                clusters(node, other)
            pm = new_maker(node, plan['mcn'])
            seen = set()
            for op in plan['ops']:
                if op[0] == 'load':
                    if norm(op[1]) in seen:
                        rec.fault('duplicate-delivery')
                    seen.add(norm(op[1]))
                    pm.load(op[1], meta=norm(op[1]))
                elif op[0] == 'side':
                    rec.fault('other-maker')
                    clusters(node, other)
                else:
                    rec.fault('abandoned-iteration')
                    for i, x in enumerate(pm.make()):
                        if i >= op[1]:
                            break
            cl = clusters(node, pm, plan['style'])
        rec.ev('clusters', cl)
        rec.sched(plan['mcn'], [c[2] for c in cl])
        for pat, members, count in cl:
            p = model.pattern(pat)
            lit = p is not None and p.is_literal
            if not lit and len(set(members)) < plan['mcn']:
                fail('too-few', '%s generalises %d distinct URLs, min_cluster_num is %d: %s',
                     pat, len(set(members)), plan['mcn'], short(members))
            if lit and len(set(members)) != 1:
                fail('literal-many', 'literal pattern %s for %d distinct URLs: %s', pat,
                     len(set(members)), short(members))
        nontrivial_clusters(rec, cl)
