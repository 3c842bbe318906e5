"""C03 a cluster of machines partitioned by fuzzy digest = one process."""
import json

from ..cluster import Machine, Sim
from .common import *

RUNS = {'quick': 1200, 'thorough': 24000}
RULE = ('a run is one distributed job: a source, 1-3 mappers (parse, fuzzy digest), 1-4 maker machines '
        'and 1-3 matcher machines over an unreliable network, with explicit crash, partition and stall '
        'events; non-trivial when a generalised cluster was produced and at least one fault struck')
MEASURE = 'hash of the sequence of message arrivals, crashes and other faults'
REAL = REAL_ALL + ['Maker, Matcher, parse, fuzzy_digest and pformat used as in the README example, in '
                   'every machine and every life of it']
STUB = STUBS + ['network, disks, timers, machines, the job coordinator and the retry protocol']
ASSUMPTIONS = ASSUME + ['acknowledged records survive a crash, others may be lost or torn',
                        'each digest has one owner machine']
SHRINK = ['urls', 'faults', 'probes']


def plan(rng, tier):
    p = base_plan(rng, tier, deep_p=0.01, size=rng.choice((4, 8, 12, 20)))
    del p['nodes']
    p['node'] = rng.getrandbits(32)
    p['mappers'], p['makers'], p['matchers'] = rng.randint(1, 3), rng.randint(1, 4), rng.randint(1, 3)
    calm = rng.random() < 0.1
    p['net'] = {'seed': rng.getrandbits(32), 'heal': 0 if calm else rng.choice((1, 4, 8)),
                'drop': rng.choice((0, 50, 200, 500)), 'dup': rng.choice((0, 100, 400)),
                'slow': rng.choice((0, 100, 400))}
    p['faults'] = []
    names = ['map%d' % i for i in range(p['mappers'])] + ['make%d' % i for i in range(p['makers'])] + \
        ['match%d' % i for i in range(p['matchers'])]
    if not calm:
        for _ in range(rng.choice((0, 1, 2, 4, 8))):
            t = round(rng.random() * p['net']['heal'], 3)
            k = rng.choice(('crash', 'crash', 'crash', 'cut', 'stall'))
            p['faults'].append([t, k, rng.choice(names), round(rng.random() * 1.5, 3)])
        # crashes aimed at phases rather than at times
        for _ in range(rng.choice((0, 1, 1, 2))):
            p['faults'].append([rng.randint(1, 6), 'crash-making', 'make%d' % rng.randrange(p['makers']),
                                round(rng.random(), 3)])
        # and at records that are not yet synced
        for _ in range(rng.choice((0, 0, 1, 3))):
            p['faults'].append([rng.randint(1, 8), 'crash-unsynced',
                                rng.choice([n for n in names if n[:3] != 'map']), round(rng.random(), 3)])
    us = [model.url(u) for u in p['urls']]
    p['probes'] = []
    for _ in range(rng.choice((0, 4, 8))):
        if us:
            u = gen.dress(rng, gen.mutate(rng, rng.choice(us)))
            if model.url(u) is not None:
                p['probes'].append(u)
    p['again'] = rng.random() < 0.3       # makers are asked to make before everything is loaded
    return p


def owner(kind, digest, n):
    return '%s%d' % (kind, mix('owner', digest) % n)


class Mapper(Machine):
    """Stateless: digests what it is given and passes it to the owner."""

    def on(self, src, kind, mid, *args):
        if kind == 'url':
            meta, pp = self.node.parse(args[0])
            d = self.node.fuzzy_digest(meta, pp)
            self.send(owner('make', d, self.sim.plan['makers']), 'load', mid, d, args[0])
        elif kind == 'pattern':
            meta, pp = self.node.parse(args[0])
            d = self.node.fuzzy_digest(meta, pp)
            self.send(owner('match', d, self.sim.plan['matchers']), 'pattern', mid, d, args[0])
        elif kind == 'query':
            d = self.node.fuzzy_digest(args[0])
            self.send(owner('match', d, self.sim.plan['matchers']), 'query', mid, d, args[0])


def records(disk):
    for r in disk.synced:
        try:
            yield json.loads(r)
        except ValueError:
            continue            # torn


def unsynced(m):
    m.appended = getattr(m, 'appended', 0) + 1
    for f in m.sim.plan['faults']:
        if f[1] == 'crash-unsynced' and f[2] == m.name and m.appended == f[0]:
            m.sim.after(0, m.crash, f[3])


class MakerMachine(Machine):
    def start(self):
        self.makers = {}
        self.it = None
        self.pending = []
        for r in records(self.disk):
            self.load(*r)
            self.sim.rec.probe('replayed-records')

    def drop(self):
        self.makers = self.it = self.pending = None

    def load(self, d, url):
        meta, pp = self.node.parse(url)
        if d not in self.makers:
            mcn = self.sim.plan['mcn']
            self.makers[d] = self.node.Maker(meta) if mcn == 3 and self.node.seed % 2 else \
                self.node.Maker(meta, self.node.config(mcn))
        self.makers[d].load(pp, meta=norm(url))

    def on(self, src, kind, mid, *args):
        if kind == 'load':
            if self.it is not None:
                self.it = None          # what was being made is out of date
                self.sim.rec.fault('abandoned-iteration')
            self.load(*args)
            self.disk.append(json.dumps(args))
            unsynced(self)
            self.pending.append(mid)
            if len(self.pending) == 1:
                self.timer(0.02, self.sync)
        elif kind == 'make':
            gen_ = args[0]
            if gen_ in self.disk.files:
                self.send('source', 'made', '%s/%s' % (self.name, gen_), self.disk.files[gen_])
            elif self.it is None or self.it[0] != gen_:
                self.it = [gen_, self.iterate(), []]
                self.timer(0.005, self.step, self.it)

    def sync(self):
        self.disk.sync()
        for mid in self.pending:
            self.send('source', 'loaded', mid)
        self.pending = []

    def iterate(self):
        for mk in self.makers.values():
            for root in mk.make():
                yield mk.url_meta, root

    def step(self, it):
        if it is not self.it:
            return
        sim = self.sim
        for f in sim.plan['faults']:
            if f[1] == 'crash-making' and f[2] == self.name and len(it[2]) >= f[0] and f not in sim.struck:
                sim.struck.append(f)
                sim.after(0, self.crash, f[3])
                sim.rec.fault('crash-while-making')
                return
        for _ in range(1 + mix(sim.seed, self.name, len(it[2])) % 3):
            try:
                meta, root = next(it[1])
            except StopIteration:
                self.disk.commit(it[0], json.dumps(it[2]))
                self.send('source', 'made', '%s/%s' % (self.name, it[0]), self.disk.files[it[0]])
                self.it = None
                return
            it[2].append(canon(self.node, meta, root))
        self.timer(0.005, self.step, it)


class MatcherMachine(Machine):
    def start(self):
        self.matchers = {}
        self.pending = []
        for r in records(self.disk):
            self.load(*r)
            self.sim.rec.probe('replayed-records')

    def drop(self):
        self.matchers = None

    def load(self, d, p):
        meta, pp = self.node.parse(p)
        if d not in self.matchers:
            self.matchers[d] = self.node.Matcher(meta)
        self.matchers[d].load(pp, p)

    def on(self, src, kind, mid, *args):
        if kind == 'pattern':
            self.load(*args)
            self.disk.append(json.dumps(args))
            unsynced(self)
            self.pending.append(mid)
            if len(self.pending) == 1:
                self.timer(0.02, self.sync)
        elif kind == 'query':
            d, u = args
            got = []
            if d in self.matchers:
                meta, pp = self.node.parse(u)
                got = [n.meta for n in sorted(self.matchers[d].match(pp), reverse=True)]
            self.send('source', 'answer', mid, got)

    def sync(self):
        self.disk.sync()
        for mid in self.pending:
            self.send('source', 'stored', mid)
        self.pending = []


class Source(Machine):
    """Feeds, retries, collects.  Does not crash (it is the user's job control)."""

    def start(self):
        self.phase = None
        self.todo = {}
        self.n = 0
        self.done = False
        self.results = {}
        self.clusters = []
        self.enter('load')

    def enter(self, phase):
        plan = self.sim.plan
        self.phase = phase
        self.sim.rec.ev('phase', phase)
        if phase == 'load':
            self.todo = {'u%08x' % (mix(u) & 0xffffffff): ('url', u) for u in plan['urls']}
        elif phase == 'make':
            self.todo = {'make%d/final' % i: ('make', 'final') for i in range(plan['makers'])}
        elif phase == 'ship':
            self.todo = {'p%08x' % (mix(c[0]) & 0xffffffff): ('pattern', c[0]) for c in self.clusters}
        elif phase == 'query':
            self.todo = {'q%08x' % (mix(u) & 0xffffffff): ('query', u)
                         for u in plan['urls'] + plan['probes']}
        else:
            self.done = True
            return
        self.pump()

    def pump(self):
        if self.done:
            return
        if not self.todo:
            self.enter({'load': 'make', 'make': 'ship', 'ship': 'query', 'query': 'end'}[self.phase])
            return
        plan = self.sim.plan
        for mid in list(self.todo):
            kind, x = self.todo[mid]
            self.n += 1
            if kind == 'make':
                self.send(mid.split('/')[0], 'make', mid, x)
            else:
                self.send('map%d' % (mix(plan['net']['seed'], mid, self.n) % plan['mappers']),
                          kind, mid, x)
            if kind == 'url' and plan['again'] and self.n % 7 == 3:
                self.send('make%d' % (self.n % plan['makers']), 'make', 'early%d' % self.n,
                          'early%d' % self.n)
        self.timer(0.3, self.pump)

    def on(self, src, kind, mid, *args):
        if kind == 'made' and mid in self.todo:
            self.clusters += [(c[0], tuple(tuple(m) if isinstance(m, list) else m for m in c[1]), c[2])
                              for c in json.loads(args[0])]
        elif kind == 'answer' and mid in self.todo:
            self.results[self.todo[mid][1]] = args[0]
        if {'loaded': 'load', 'made': 'make', 'stored': 'ship', 'answer': 'query'}.get(kind) == self.phase:
            self.todo.pop(mid, None)


def execute(plan, rec):
    with Env(plan['node']) as env:
        sim = Sim(plan, rec)
        sim.struck = []
        for i in range(plan['mappers']):
            Mapper(sim, 'map%d' % i)
        for i in range(plan['makers']):
            MakerMachine(sim, 'make%d' % i)
        for i in range(plan['matchers']):
            MatcherMachine(sim, 'match%d' % i)

        def cut(name, secs):
            rec.fault('partition')
            sim.cut[name] = 1
            sim.after(secs, sim.cut.pop, name, None)

        def stall(name, secs):
            rec.fault('stall')
            sim.machines[name].stalled = sim.now + secs

        for t, k, name, x in plan['faults']:
            if k == 'crash':
                sim.at(t, sim.machines[name].crash, x)
            elif k == 'cut':
                sim.at(t, cut, name, x)
            elif k == 'stall':
                sim.at(t, stall, name, x)
        src = Source(sim, 'source')
        budget = 3000 + 60 * (len(plan['urls']) + len(plan['probes'])) * (1 + plan['makers'])
        ok = sim.run(lambda: src.done, budget)
        rec.sim_time += sim.now
        rec.probe('machine-lives', sum(m.life for m in sim.machines.values()))
        if not ok:
            fail('no-progress', 'the job is still in phase %s %d events after the last fault; '
                 'waiting for %s', src.phase, budget, short(sorted(src.todo.items())[:3]))
        got = sorted(src.clusters)
        rec.ev('clusters', got)
        want = reference(plan['urls'], plan['mcn'], plan['node'], norm)
        want = [(c[0], tuple(m for m in c[1]), c[2]) for c in want]
        if got != want:
            fail('clusters', 'the machines together made other clusters than one process: %s',
                 diff(want, got))
        one = Node.of(mix(plan['node'], 'one') & 0xffffffff)
        with one:
            m = load_all(one, sorted(set(c[0] for c in want)))
            for u in plan['urls'] + plan['probes']:
                w = [n.meta for n in sorted(m.match(u), reverse=True)]
                g = src.results.get(u)
                rec.ev('match', u, g)
                if g != w:
                    fail('matches', '%s: the matcher machines answered %s, one process %s', u,
                         short(g), short(w))
        if nontrivial_clusters(rec, want) and not rec.faults:
            rec.probes.pop('nontrivial', None)
