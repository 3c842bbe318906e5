"""C11 threads: concurrent matching, parsing, and clustering of separate makers."""
from ..threads import Events, Places, Scheduler, Stuck, sim_threading
from .common import *

RUNS = {'quick': 1800, 'thorough': 32000}
RULE = ('a run executes 2 to 4 real threads under a seeded preemption schedule (line or bytecode '
        'granularity inside repository code) and compares every call with its sequential result; '
        'non-trivial when at least one preemption happened and a result is not empty')
MEASURE = 'hash of the sequence of preemptions (step, from, to, function, position)'
REAL = REAL_ALL + ['CPython threads (one released at a time)']
STUB = STUBS + ['thread scheduler; threading.Lock/RLock as seen by the repository']
ASSUMPTIONS = ASSUME + ['built-in container operations are atomic, as under the GIL',
                        'all modules are imported before the threads start']
SHRINK = ['threads.0', 'threads.1', 'threads.2', 'threads.3', 'pats', 'rounds', 'rounds.0.0', 'rounds.0.1']


def focus(rng):
    """Threads that meet at once on a few patterns nobody has used before."""
    n = rng.randint(1, 3)
    parts = ['-'.join([gen.word(rng, model.LOWER, 1, 2), gen.word(rng, model.DIGITS, 1, 2),
                       gen.word(rng, model.UPPER, 1, 2)][:rng.randint(1, 3)]
                      + ['x'] * rng.choice((0, 0, 2))) for _ in range(n)]
    if rng.random() < 0.5:
        parts[-1] += rng.choice(('.html', '.h264', '.7z'))
    u = model.U(tuple(parts), ('q=',) if rng.random() < 0.3 else (), (), None)
    if u.keys:
        u = model.U(u.path, u.keys, ('v_1',), None)
    hot = gen.dress(rng, u)
    pats = sorted({model.generalise_url(rng, u) for _ in range(rng.choice((2, 4, 8, 12)))})
    rng.shuffle(pats)
    threads = {str(i): [['match', hot]] * rng.choice((1, 1, 2)) for i in range(rng.choice((2, 2, 3)))}
    if rng.random() < 0.3:
        threads['1'] = [['digest', rng.choice(pats)], ['match', hot]]
    scale = rng.choice((2, 4, 10, 30))
    sched = [[1 + rng.randrange(scale), rng.getrandbits(8)] for _ in range(rng.choice((100, 300, 800)))]
    return {'mcn': 3, 'pats': pats, 'threads': threads, 'sched': sched, 'fine': rng.random() < 0.2,
            'node': rng.getrandbits(32), 'share_cfg': True}


def plan(rng, tier):
    x = rng.random()
    if x < 0.15:
        p = focus(rng)
    elif x < 0.8:
        p = small_plan(rng)
    else:
        p = any_plan(rng)
    sched = p.pop('sched')
    if sched:
        p['rounds'] = [[sched, aims(rng) if rng.random() < 0.3 else []]]
        if rng.random() < 0.3:
            p['rounds'].append([[], aims(rng)])
    else:
        p['rounds'] = [[[], aims(rng)] for _ in range(rng.choice((4, 8, 8, 12)))]
    return p


def aims(rng):
    """Preempt at a place of the code, each with the same chance however rarely it is passed."""
    return [[rng.getrandbits(8), rng.getrandbits(24), rng.getrandbits(24), rng.getrandbits(8)]
            for _ in range(rng.choice((1, 2, 2, 3, 8)))]


def small_plan(rng):
    """Two or three threads with a few matches or digests of different URLs: cheap, for aimed preemptions."""
    urls = gen.url_set(rng, 3, rng.choice((2, 3, 5)))[:6] or ['http://h/a', 'http://h/b']
    us = [model.url(u) for u in urls]
    pats = [model.generalise_url(rng, u) for u in us for _ in range(rng.choice((1, 2)))]
    kinds = rng.choice((('match',), ('match',), ('match', 'digest'), ('digest',)))
    threads = {}
    for i in range(rng.choice((2, 2, 3))):
        threads[str(i)] = [[rng.choice(kinds), rng.choice(urls)] for _ in range(rng.choice((1, 2, 3)))]
    return {'mcn': 3, 'pats': pats, 'threads': threads, 'sched': [], 'fine': False,
            'node': rng.getrandbits(32), 'share_cfg': True}


def any_plan(rng):
    mcn = rng.choice((2, 3, 3, 4))
    urls = gen.url_set(rng, mcn, rng.choice((4, 6, 10)))
    us = [model.url(u) for u in urls]
    pats = [model.generalise_url(rng, u) for u in us for _ in range(rng.choice((1, 2, 3)))]
    n = rng.choice((2, 2, 3, 4))
    threads = {}
    hot = rng.choice(urls) if urls else 'http://h/a'
    kinds = rng.choice((('match',), ('match', 'digest'), ('make',), ('match', 'make', 'digest', 'format')))
    for i in range(n):
        ops = []
        for _ in range(rng.randint(1, 5)):
            k = rng.choice(kinds)
            u = hot if rng.random() < 0.4 or not urls else rng.choice(urls)
            if k == 'match':
                ops.append(['match', u])
            elif k == 'digest':
                ops.append(['digest', u if rng.random() < 0.6 or not pats else rng.choice(pats)])
            else:
                s = [x for x in urls if rng.random() < 0.7] + \
                    gen.url_set(rng, mcn, rng.choice((2, 4)))
                ops.append([k, s])
        threads[str(i)] = ops
    fine = rng.random() < 0.3 and sum(len(u) for t in threads.values() for o in t for u in o[1]) < 3000
    scale = rng.choice((3, 20, 100, 400)) * (5 if fine else 1)
    sched = [[1 + rng.randrange(scale), rng.getrandbits(8)]
             for _ in range(rng.choice((2, 5, 20, 60, 150)))]
    return {'mcn': mcn, 'pats': pats, 'threads': threads, 'sched': sched, 'fine': fine,
            'node': rng.getrandbits(32), 'share_cfg': rng.random() < 0.5}


def execute(plan, rec):
    cur = [None]
    with Env(plan['node']) as env:
        node = Node.of(plan['node'], threading=sim_threading(lambda: cur[0]))
        with node:
            for m in ('pattern_maker', 'pattern_matcher', 'formatter', 'parser', 'config', 'utils'):
                node.imp(m)
            fd, parse, pformat = node.fuzzy_digest, node.parse, node.pformat
            PM = node.PatternMaker
            cfg = node.config(plan['mcn'])

            def perform(op, matcher, cfg):
                if op[0] == 'match':
                    got = matcher.match(op[1])
                    return [n.meta for n in sorted(got, reverse=True)]
                if op[0] == 'digest':
                    meta, pp = parse(op[1])
                    return [fd(op[1]), fd(meta, pp), list(meta.query_keys), meta.path_depth]
                pm = PM(cfg)
                for u in op[1]:
                    pm.load(u, meta=u)
                out = []
                if op[0] == 'make':
                    for meta, root in pm.make():
                        out.append(sorted(pformat('CLUSTER', meta, root)) + [str(root.count)])
                else:
                    held = list(pm.make())
                    for f in ('JSON', 'INLINE', 'PATTERN'):
                        for meta, root in held:
                            out.append(sorted(pformat(f, meta, root)))
                return sorted(out)

            def guarded(op, matcher, cfg):
                try:
                    return ['ok', perform(op, matcher, cfg)]
                except Exception as e:
                    return ['raised', type(e).__name__ + ' ' + str(e)]

            names = sorted(plan['threads'])
            # sequential reference on objects of its own
            Events.arm(plan['fine'])
            want, places = {}, []
            for n in names:
                ref = load_all(node, plan['pats'])
                places.append(Places())
                with places[-1]:
                    want[n] = [guarded(op, ref, node.config(plan['mcn'])) for op in plan['threads'][n]]
            for sched, raw in plan['rounds']:
                shared = load_all(node, plan['pats'])
                aims = []
                for t, x, y, choice in raw:
                    t %= len(names)
                    if places[t].seen:
                        aims.append((t,) + places[t].draw(x, y) + (choice,))
                s = Scheduler(sched, rec, aims)
                # the threads have about as much to do as the sequential reference had
                s.MAX = 100000 + 20 * sum(x.total for x in places)
                cur[0] = s

                def body(n):
                    c = cfg if plan['share_cfg'] else node.config(plan['mcn'])
                    return lambda: [guarded(op, shared, c) for op in plan['threads'][n]]
                try:
                    res = s.run([body(n) for n in names])
                except Stuck:
                    rec.probe('inconclusive-blocked')
                    return
                finally:
                    cur[0] = None
                # and the shared matcher is still intact
                after = {n: [guarded(op, shared, cfg) if op[0] == 'match' else None
                             for op in plan['threads'][n]] for n in names}
                rec.fault('preemption', s.switches)
                judge(plan, rec, s, names, res, want, after)
        rec.sim_time += env.clock.covered


def judge(plan, rec, s, names, res, want, after):
    for n, (st, val) in zip(names, res):
        if st != 'ok':
            fail('thread-died', 'thread %s ended with %r', n, val)
        rec.ev('thread', n, val)
        for op, g, w, a in zip(plan['threads'][n], val, want[n], after[n]):
            if g != w:
                fail('not-sequential', 'thread %s: %s gave %s, sequentially %s (after %d preemptions)',
                     n, short(op, 200), short(g, 400), short(w, 400), s.switches)
            if a is not None and a != w:
                fail('matcher-damaged', 'after the threads ended, %s gives %s instead of %s',
                     short(op, 200), short(a, 300), short(w, 300))
            if s.switches and w[1]:
                rec.probe('nontrivial')
