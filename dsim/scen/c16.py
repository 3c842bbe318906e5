"""C16 interrupts inside clustering, formatting and matching are harmless."""
from ..threads import Events, Interrupter
from .common import *

RUNS = {'quick': 1200, 'thorough': 32000}
RULE = ('a run interrupts clustering, formatting, matching and ranking at seeded points (the n-th executed '
        'line of repository code) with KeyboardInterrupt, MemoryError, RecursionError or a private '
        'exception and then compares complete results on the same objects with those of a fresh node; '
        'non-trivial when an interrupt hit clustering and a generalised cluster was compared')
MEASURE = 'hash of the sequence of (operation, function and line hit)'
REAL = REAL_ALL
STUB = STUBS
ASSUMPTIONS = ASSUME + ['interrupts strike between lines of repository code, not during loading']
SHRINK = ['ops', 'urls', 'pats', 'again']


class Bolt(BaseException):
    pass


EXC = {'kbd': KeyboardInterrupt, 'mem': MemoryError, 'rec': RecursionError, 'bolt': Bolt,
       'timeout': TimeoutError}


def plan(rng, tier):
    p = base_plan(rng, tier, size=rng.choice((4, 8, 12, 20)), huge_p=0.0005)
    us = [model.url(u) for u in p['urls']]
    p['pats'] = [model.generalise_url(rng, u) for u in us[:8] for _ in range(rng.choice((1, 2, 4)))]
    p['ops'] = [[rng.choice(('make', 'make', 'combine', 'format', 'match', 'match', 'digest')),
                 rng.randrange(1000000), rng.choice(sorted(EXC)), rng.getrandbits(16), rng.random() < 0.5]
                for _ in range(rng.choice((1, 1, 2, 4, 8)))]
    p['late'] = rng.choice((0, 0, 1, 2, 4))       # URLs loaded after the interrupts
    p['again'] = [gen.dress(rng, u) for u in rng.sample(us, min(len(us), rng.choice((0, 0, 1, 2))))]
    p['verify_each'] = rng.random() < 0.3
    p['cold'] = rng.random() < 0.6                # the struck operation is the first one on its objects
    if len(us) <= 30 and rng.random() < 0.15:
        # a storm: many strikes, each at another place
        kinds = rng.choice((('make', 'make', 'combine', 'format', 'match'), ('match',)))
        p['ops'] = [[rng.choice(kinds), rng.randrange(1 << 30),
                     rng.choice(sorted(EXC)), rng.getrandbits(16), True] for _ in range(50)]
        p['cold'] = p['verify_each'] = False
    if len(us) > 100:
        p['ops'] = p['ops'][:2]
        p['verify_each'] = p['cold'] = False
    return p


def execute(plan, rec):
    late = plan['urls'][len(plan['urls']) - plan['late']:] if plan['late'] else []
    early = plan['urls'][:len(plan['urls']) - plan['late']] if plan['late'] else plan['urls']
    late = late + plan['again']
    with Env(plan['nodes'][0]):
        want = reference(early, plan['mcn'], plan['nodes'][1])
        want_late = reference(early + late, plan['mcn'], plan['nodes'][2])
        with Node.of(plan['nodes'][1]) as ref:
            m = load_all(ref, plan['pats'])
            want_m = {u: [n.meta for n in sorted(m.match(u), reverse=True)] for u in plan['urls']}
        node = Node.of(plan['nodes'][0])
        hits = 0

        def build(node):
            for x in ('pattern_maker', 'pattern_matcher', 'formatter', 'parser', 'config', 'utils'):
                node.imp(x)
            cfg = node.config(plan['mcn'])
            pm = node.PatternMaker(cfg)
            for u in early:
                pm.load(u, meta=u)
            return cfg, pm, load_all(node, plan['pats'])

        with node:
            cfg, pm, m = build(node)

            def action(op, node, pm, m):
                k = op[0]
                if k == 'make':
                    for meta, root in pm.make():
                        pass
                elif k == 'combine':
                    for meta, root in pm.make(combine=True):
                        pass
                elif k == 'format':
                    f = ('CLUSTER', 'INLINE', 'JSON', 'PATTERN')[op[3] % 4]
                    for meta, root in pm.make():
                        for r in node.pformat(f, meta, root):
                            pass
                elif k == 'match' and plan['urls']:
                    for u in plan['urls']:
                        sorted(m.match(u), reverse=True)
                elif k == 'digest' and plan['urls']:
                    u = plan['urls'][op[3] % len(plan['urls'])]
                    node.fuzzy_digest(u)
                    node.parse(model.url(u).literal)

            def verify(want, what):
                got = clusters(node, pm)
                rec.ev('verify', got)
                if got != want:
                    fail('clusters-changed', '%s the clusters differ: %s', what, diff(want, got))
                for u in plan['urls']:
                    r = [n.meta for n in sorted(m.match(u), reverse=True)]
                    if r != want_m[u]:
                        fail('matches-changed', '%s %s gives %s instead of %s', what, u,
                             short(r), short(want_m[u]))

            Events.arm(False)
            size = {}
            for op in plan['ops']:
                key = (op[0], op[3] % 4 if op[0] == 'format' else
                       op[3] % len(plan['urls']) if op[0] == 'digest' and plan['urls'] else 0)
                if key not in size:
                    # how many events the operation has
                    if plan['cold']:
                        with Node.of(plan['nodes'][0]) as twin:
                            _, tpm, tm = build(twin)
                            with Interrupter() as i:
                                action(op, twin, tpm, tm)
                    else:
                        with Interrupter() as i:
                            action(op, node, pm, m)
                    size[key] = i
                if op[4]:
                    i = size[key].aim(op[1], EXC[op[2]]('simulated')) if size[key].count else Interrupter()
                else:
                    n = 1 + op[1] % 1000000 * size[key].count // 1000000
                    i = Interrupter(n, EXC[op[2]]('simulated'))
                try:
                    with i:
                        action(op, node, pm, m)
                except (KeyboardInterrupt, MemoryError, RecursionError, Bolt, TimeoutError):
                    if i.fired is None:
                        raise
                if i.fired:
                    hits += 1
                    rec.fault('interrupt-' + op[2])
                    rec.ev('hit', op[0], i.fired[0])
                    rec.sched(op[0], i.fired)
                    now = cfg.getint('make', 'min_cluster_num')
                    if now != plan['mcn']:
                        fail('config-changed', 'after an interrupt (%s at %s) the caller\'s configuration says '
                             'min_cluster_num = %s instead of %s', op[2], i.fired, now, plan['mcn'])
                if plan['verify_each']:
                    verify(want, 'after an interrupt (%s at %s)' % (op[2], i.fired))
            verify(want, 'after %d interrupts' % hits)
            for u in late:
                pm.load(u, meta=u)
            if late:
                verify(want_late, 'after %d interrupts and loading %d more URLs' % (hits, len(late)))
        if hits and any(o[0] in ('make', 'combine', 'format') for o in plan['ops']):
            nontrivial_clusters(rec, want)
