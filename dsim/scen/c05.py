"""C05 clustering is repeatable, can be abandoned, extended and interleaved."""
from .common import *

RUNS = {'quick': 2000, 'thorough': 40000}
RULE = ('a run is a random history of load / open an iteration / step one of several open iterations / '
        'close or drop it / format / combined tree on one maker; after every completed iteration the '
        'clusters are compared with those of a fresh node that loaded the same URLs at once; '
        'non-trivial when a generalised cluster is compared after an abandoned or second iteration')
REAL = REAL_ALL
STUB = STUBS
ASSUMPTIONS = ASSUME + ['nothing is loaded into a maker while one of its iterations is being stepped '
                        '(an iteration that was begun before a load is dropped)']
SHRINK = ['ops']


def plan(rng, tier):
    p = base_plan(rng, tier, size=rng.choice((4, 8, 12, 16, 24)))
    urls = p.pop('urls')
    ops = []
    i = 0
    phases = rng.choice((1, 2, 2, 3))
    for ph in range(phases):
        j = len(urls) if ph == phases - 1 else rng.randint(i, len(urls))
        for u in urls[i:j]:
            ops.append(['load', u])
            if rng.random() < 0.1:
                ops.append(['load', gen.dress(rng, model.url(rng.choice(urls[:j])), True)])
        i = j
        for _ in range(rng.randint(1, 10)):
            ops.append(rng.choice((
                ['open', rng.randrange(3), rng.randrange(3)], ['open', rng.randrange(3), rng.randrange(3)],
                ['step', rng.randrange(3), rng.randint(1, 4)], ['step', rng.randrange(3), rng.randint(1, 4)],
                ['step', rng.randrange(3), 99],
                ['close', rng.randrange(3)], ['drop', rng.randrange(3)],
                ['full'], ['combine'], ['format', rng.choice(('PATTERN', 'CLUSTER', 'INLINE', 'JSON'))])))
        if rng.random() < 0.7:
            ops.append(['full'])
    if urls and rng.random() < 0.3:
        # nothing new, only more metadata for known URLs
        for _ in range(rng.randint(1, 3)):
            ops.append(['load', gen.dress(rng, model.url(rng.choice(urls)), True)])
        ops.append(['full'])
    p['ops'] = ops
    return p


def execute(plan, rec):
    with Env(plan['nodes'][0]):
        node = Node.of(plan['nodes'][0])
        loaded = []
        refs = {}

        def ref():
            k = len(loaded)
            if k not in refs:
                refs[k] = reference(loaded, plan['mcn'], plan['nodes'][1])
            return refs[k]

        its = {}
        abandoned = 0
        begun = 0
        with node:
            pm = new_maker(node, plan['mcn'])

            def check(got, how):
                want = ref()
                rec.ev(how, got)
                if sorted(got) != want:
                    fail('clusters-changed', '%s (after %d iterations begun, %d abandoned): %s',
                         how, begun, abandoned, diff(want, got))
                if begun > 1 or abandoned:
                    nontrivial_clusters(rec, got)

            def it(style):
                if style == 0:
                    return ((m, c) for m, c in pm.make())
                if style == 1:
                    return pm.make()
                return ((mk.url_meta, c) for mk in pm.makers for c in mk.make())

            for op in plan['ops']:
                rec.sched(op[0], op[1] if len(op) > 1 and op[0] != 'load' else None)
                if op[0] == 'load':
                    if its:
                        abandoned += len(its)
                        rec.fault('abandoned-iteration', len(its))
                        its.clear()
                    pm.load(op[1], meta=op[1])
                    loaded.append(op[1])
                elif op[0] == 'open':
                    if op[1] in its:
                        abandoned += 1
                        rec.fault('abandoned-iteration')
                    its[op[1]] = [it(op[2]), []]
                    begun += 1
                elif op[0] == 'step' and op[1] in its:
                    gen_, acc = its[op[1]]
                    for _ in range(op[2]):
                        try:
                            meta, root = next(gen_)
                        except StopIteration:
                            check(acc, 'stepped iteration')
                            del its[op[1]]
                            break
                        acc.append(canon(node, meta, root))
                        if len(its) > 1:
                            rec.fault('interleaved-step')
                elif op[0] == 'close' and op[1] in its:
                    its.pop(op[1])[0].close()
                    abandoned += 1
                    rec.fault('closed-iteration')
                elif op[0] == 'drop' and op[1] in its:
                    its.pop(op[1])
                    abandoned += 1
                    rec.fault('abandoned-iteration')
                elif op[0] == 'full':
                    begun += 1
                    check(clusters(node, pm), 'full iteration')
                elif op[0] == 'combine':
                    begun += 1
                    for meta, root in pm.make(combine=True):
                        rec.ev('combined', root.count)
                elif op[0] == 'format':
                    begun += 1
                    for meta, root in pm.make():
                        for r in node.pformat(op[1], meta, root):
                            pass
            for k in sorted(its):
                gen_, acc = its[k]
                for meta, root in gen_:
                    acc.append(canon(node, meta, root))
                check(acc, 'stepped iteration, finished last')
